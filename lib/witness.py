"""C21: compile-fail witnesses of the session typestate API, each with a twin that must compile."""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import env

STATES = {'Idle': 'state::Idle<T>', 'Running': 'state::Running', 'CtrlCInterrupt': 'state::CtrlCInterrupt', 'Disconnected': 'state::Disconnected'}
# method -> states that allow it, a call, whether it uses up the session
METHODS = {
    'incoming_data': (('Idle', 'Running'), 'g.incoming_data(t, 0)', True),
    'report_stop': (('Running',), 'g.report_stop(t, MultiThreadStopReason::DoneStep)', True),
    'interrupt_handled': (('CtrlCInterrupt',), 'g.interrupt_handled(t, None::<MultiThreadStopReason<U<T>>>)', True),
    'get_reason': (('Disconnected',), 'g.get_reason()', False),
    'return_to_idle': (('Disconnected',), 'g.return_to_idle()', True),
}
PRELUDE = '''#![allow(unused, dead_code)]
use gdbstub::arch::Arch;
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::{state, GdbStubStateMachine, GdbStubStateMachineInner as Inner};
use gdbstub::stub::{BaseStopReason, DisconnectReason, GdbStub, GdbStubError, IntoStopReason, MultiThreadStopReason, SingleThreadStopReason};
use gdbstub::target::Target;
type U<T> = <<T as Target>::Arch as Arch>::Usize;
'''
FN = 'fn f<\'a, T: Target, C: Connection>(mut g: %s, t: &mut T) {\n    %s\n}\n'


def inner(s):
    return "Inner<'a, %s, T, C>" % STATES[s]


def cases():
    """(name, source lines before, bad line, good line, lines after, accepted error codes, statement)"""
    out = []

    def add(name, ty, bad, good, codes, what, pre='', items=''):
        before = PRELUDE + items + "fn f<'a, T: Target, C: Connection>(mut g: %s, t: &mut T) {\n%s" % (ty, pre)
        out.append((name, before, bad, good, '\n}\n', codes, what))

    def item(name, bad, good, codes, what, before='', after='\n'):
        out.append((name, PRELUDE + before, bad, good, after, codes, what))
    for m, (allowed, call, consumes) in METHODS.items():
        for s in STATES:
            if s in allowed:
                if consumes:
                    add('%s twice on %s' % (m, s), inner(s), 'let _b = %s;' % call, '', ('E0382',), 'a %s session can be used again after %s' % (s, m), 'let _a = %s;\n' % call)
                    add('%s through a reference to %s' % (m, s), '&mut ' + inner(s), 'let _b = %s;' % call, '', ('E0507',),
                        '%s works on a borrowed %s session, which stays usable in its old state' % (m, s))
                else:
                    add('%s on %s' % (m, s), inner(s), '', 'let _a = %s;' % call, (), '')
            else:
                add('%s on %s' % (m, s), inner(s), 'let _a = %s;' % call, '', ('E0599', 'E0624'), '%s is callable on a session in the %s state' % (m, s))
        add('%s on a session of unknown state' % m, "Inner<'a, S, T, C>".replace('S,', '(),'), 'let _a = %s;' % call, '', ('E0599', 'E0624'),
            '%s is callable on a session whose state is not the one it needs' % m)
        add('%s on the state machine enum' % m, "GdbStubStateMachine<'a, T, C>", 'let _a = %s;' % call, '', ('E0599', 'E0624'), '%s is callable without matching on the state' % m)
    for s in STATES:
        add('clone of %s' % s, inner(s), 'let _a = Clone::clone(&g);', 'let _a = &g;', ('E0277', 'E0599'), 'a %s session can be duplicated' % s)
        add('copy of %s' % s, inner(s), 'copy(g);', 'let _a = g;', ('E0277',), 'a %s session can be copied' % s, items='fn copy<X: Copy>(_: X) {}\n')
        add('take of %s' % s, inner(s), 'let _a = core::mem::take(&mut g);', '', ('E0277',), 'a %s session can be made out of nothing (Default)' % s)
        add('state field of %s' % s, inner(s), 'let _a = &g.state;', '', ('E0616', 'E0609', 'E0624'), 'the state of a %s session is accessible' % s)
        add('data of %s' % s, inner(s), 'let _a = &g.i;', '', ('E0616', 'E0609'), 'the insides of a %s session are accessible' % s)
        add('new %s from old parts' % s, inner(s),
            "let _a: %s = Inner { i: g.i, state: g.state };" % inner(s), '', ('E0451', 'E0560', 'E0063', 'E0616', 'E0609'), 'a %s session can be put together by hand' % s)
        add('default state %s' % s, inner(s), 'let _a: %s = Default::default();' % STATES[s], '', ('E0277',), 'the state %s can be made by hand (Default)' % s)
        for o in STATES:
            if o != s:
                add('%s into %s' % (s, o), inner(s), 'let _a: %s = g.into();' % inner(o), "let _a: GdbStubStateMachine<'a, T, C> = g.into();", ('E0277', 'E0308'),
                    'a %s session converts to a %s one' % (s, o))
        add('the enum into %s' % s, "GdbStubStateMachine<'a, T, C>", 'let _a: %s = g.into();' % inner(s), 'let _a = g;', ('E0277',), 'any session converts to a %s one' % s)
        add('another state variant %s' % s, inner(s), "let _a = GdbStubStateMachine::<'a, T, C>::%s(g);" % [o for o in STATES if o != s][0],
            "let _a = GdbStubStateMachine::<'a, T, C>::%s(g);" % s, ('E0308',), 'a %s session passes for another state' % s)
        add('stub as %s' % s, "GdbStub<'a, T, C>", 'let _a: %s = Inner::from_plain_gdbstub(g);' % inner(s), '', ('E0624', 'E0599', 'E0308'), 'a %s session can be started by hand' % s)
    lits = {'Idle': 'state::Idle::<T> { deferred_ctrlc_stop_reason: None }', 'Running': 'state::Running {}', 'CtrlCInterrupt': 'state::CtrlCInterrupt { from_idle: true }',
            'Disconnected': 'state::Disconnected { reason: DisconnectReason::Kill }'}
    for s, l in lits.items():
        add('literal %s' % s, inner(s), 'let _a = %s;' % l, '', ('E0639', 'E0451', 'E0560', 'E0433'), 'the state %s can be constructed outside the library' % s)
    add('deferred reason', inner('Idle'), 'g.state.deferred_ctrlc_stop_reason = None;', '', ('E0616', 'E0609'), 'the deferred stop reason can be altered')
    add('transition', inner('Idle'), 'let _a = g.transition(());', '', ('E0599', 'E0624'), 'a session can be moved to a state of the caller\'s choice')
    item('transition trait', 'use gdbstub::stub::state_machine::Transition;', '', ('E0603', 'E0432'), 'the state transition trait is public')
    item('inner data type', 'use gdbstub::stub::state_machine::GdbStubStateMachineReallyInner;', '', ('E0603', 'E0432'), 'the session data type is public')
    item('stub implementation', 'use gdbstub::stub::core_impl::GdbStubImpl;', '', ('E0603', 'E0432'), 'the stub implementation is public')
    item('seal', 'use gdbstub::stub::stop_reason::private::Sealed;', '', ('E0603', 'E0432'), 'the seal of the stop reason conversion is public')
    item('seal re-exported', 'use gdbstub::stub::private::Sealed;', '', ('E0603', 'E0432', 'E0433'), 'the seal of the stop reason conversion is public')
    mine = 'struct Mine;\nimpl<X> From<Mine> for BaseStopReason<gdbstub::common::Tid, X> {\n    fn from(_: Mine) -> Self { BaseStopReason::DoneStep }\n}\n'
    item('sealed conversion', 'impl<T: Target> IntoStopReason<T> for Mine {}', '', ('E0277',), 'a user type can be made a stop reason', before=mine)
    add('reporting a user type', inner('Running'), 'let _a = g.report_stop(t, Mine);', 'let _a = g.report_stop(t, SingleThreadStopReason::<U<T>>::DoneStep);', ('E0277',),
        'a user type with a conversion can be reported', items=mine)
    add('acknowledging with a user type', inner('CtrlCInterrupt'), 'let _a = g.interrupt_handled(t, Some(Mine));',
        'let _a = g.interrupt_handled(t, Some(SingleThreadStopReason::<U<T>>::DoneStep));', ('E0277',), 'a user type with a conversion can be reported', items=mine)
    add('start twice', "GdbStub<'a, T, C>", 'let _b = g.run_state_machine(t);', '', ('E0382',), 'a stub can be started twice', 'let _a = g.run_state_machine(t);\n')
    add('clone of the stub', "GdbStub<'a, T, C>", 'let _b = Clone::clone(&g);', '', ('E0277', 'E0599'), 'a stub can be duplicated')
    add('clone of the machine', "GdbStubStateMachine<'a, T, C>", 'let _b = Clone::clone(&g);', '', ('E0277', 'E0599'), 'a session can be duplicated')
    add('reason twice', inner('Disconnected'), '', 'let _b = (g.get_reason(), g.get_reason(), g.borrow_conn());', (), '')
    for s in STATES:
        add('connection of %s' % s, inner(s), '', 'let _b = g.borrow_conn();', (), '')
    add('stub before start', "GdbStub<'a, T, C>", 'let _b = g.incoming_data(t, 0);', '', ('E0599',), 'data can be fed to a stub that was not started')
    return out


def library(cfg):
    """build the library's metadata for one configuration; returns (rmeta, deps dir)"""
    tgt = os.path.join(env.BUILD, 'wit-' + cfg)
    args = ['cargo', 'check', '--offline', '--lib', '-p', 'gdbstub', '--target-dir', tgt, '--message-format', 'json'] + (['--no-default-features'] if cfg == 'none' else [])
    with env.Lock('wit-' + cfg):
        r = subprocess.run(args, cwd=env.REPO, env=dict(os.environ, CARGO_INCREMENTAL='0'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if r.returncode:
        raise env.BuildFailure('the library does not build: ' + r.stderr.decode('utf8', 'replace')[-600:])
    for l in r.stdout.decode().splitlines():
        d = json.loads(l)
        if d.get('reason') == 'compiler-artifact' and d['target']['name'] == 'gdbstub' and any(k in ('lib', 'rlib') for k in d['target']['kind']):
            for f in d['filenames']:
                if f.endswith('.rmeta'):
                    return f, os.path.dirname(f)
    raise env.CheckError('cargo reported no library metadata')


def compile_text(text, lib, deps, dst, i):
    src = os.path.join(dst, 'w%d.rs' % i)
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(['rustc', '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '--extern', 'gdbstub=' + lib, '-L', 'dependency=' + deps,
                        '-o', os.path.join(dst, 'w%d.rmeta' % i), src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=dst, timeout=120)
    errs = []
    for l in r.stderr.decode('utf8', 'replace').splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') == 'error' and d.get('spans'):
            lines = [s['line_start'] for s in d['spans'] if s['is_primary'] and s['file_name'].endswith('.rs')]
            errs.append(((d.get('code') or {}).get('code'), lines, d['message']))
    return r.returncode, errs


def c21(ctx):
    ctx.rule('Each compile-fail witness is a user program, generic over the target and the connection, whose one marked line violates the typestate discipline (a session method in a '
             'state that does not allow it, reuse of a consumed session, construction or duplication of a session or a state, a foreign stop reason). The type checker must reject exactly '
             'that line with one of the error codes of the violated rule; its twin with the line replaced by a legal one must be accepted.')
    cs = cases()
    for cfg in ('std', 'none'):
        lib, deps = library(cfg)
        dst = os.path.join(env.BUILD, 'wit-' + cfg, 'src')
        os.makedirs(dst, exist_ok=True)

        def one(x):
            i, (name, before, bad, good, after, codes, what) = x
            return (compile_text(before + good + after, lib, deps, dst, 2 * i), compile_text(before + bad + after, lib, deps, dst, 2 * i + 1) if bad else None)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(cs)))
        for (name, before, bad, good, after, codes, what), (g, b) in zip(cs, res):
            line = before.count('\n') + 1
            if g[0]:
                ctx.undecided('%s: %s: the legal twin does not compile: %s' % (cfg, name, [e[2] for e in g[1]][:2]))
                continue
            ctx.count('legal programs accepted')
            if b is None:
                continue
            if b[0] == 0:
                ctx.violation('witness:' + name, '%s: the user program for "%s" type-checks: %s\n%s' % (cfg, name, what, (before + bad + after)[len(PRELUDE):]))
            elif not b[1] or any(e[0] not in codes or line not in e[1] for e in b[1]):
                ctx.undecided('%s: %s: rejected for another reason: %s' % (cfg, name, b[1][:2]))
            else:
                ctx.count('violating programs rejected')
    if cs:
        ctx.sample(cs[0][1] + cs[0][2] + cs[0][4])
    ctx.floor('violating programs rejected', 180)
