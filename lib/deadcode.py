"""C53: an extension the target does not implement leaves no code in an optimised build."""
import json
import os
import re
from concurrent.futures import ThreadPoolExecutor
import env
import panicfree
from panicfree import ALL, SLOTS, SRC

M, S = ALL, ALL & ~1          # everything, multi-threaded and single-threaded
# what is disabled -> (bits to clear, base configuration, files whose parsers must go, handlers that must go, markers that must go)
CMD = 'src/protocol/commands/'


def cmds(*names):
    return tuple(CMD + '_' + n + '.rs' for n in names)


ABSENT = {
    'the no-ack mode': ([2], M, (), ('handle_no_ack_mode',), ('no_ack_mode,impl', 'QStartNoAckMode,prefix_match')),
    'the X packet': ([3], M, cmds('x_upcase'), ('handle_x_upcase_packet',), ('x_upcase_packet,impl', 'X,prefix_match')),
    'breakpoints': ([8], M, cmds('breakpoint') + (CMD + 'breakpoint.rs',), ('handle_breakpoints', 'handle_breakpoint_common'),
                    ('breakpoints,impl', 'sw_breakpoint,stop_reason', 'hw_breakpoint,stop_reason', 'hw_watchpoint,stop_reason')),
    'software breakpoints': ([34], S, (), (), ('sw_breakpoint,stop_reason',)),
    'hardware breakpoints': ([35], M, (), (), ('hw_breakpoint,stop_reason',)),
    'watchpoints': ([36], S, (), (), ('hw_watchpoint,stop_reason',)),
    'monitor commands': ([9], M, cmds('qRcmd'), ('handle_monitor_cmd',), ('monitor_cmd,impl', 'qRcmd,from_packet', 'qRcmd,prefix_match')),
    'extended mode': ([10], M, cmds('QDisableRandomization', 'QEnvironmentHexEncoded', 'QEnvironmentReset', 'QEnvironmentUnset', 'QSetWorkingDir', 'QStartupWithShell',
                                    'r_upcase', 'vAttach', 'vRun', 'qC'), ('handle_extended_mode',),
                      ('extended_mode,impl', 'vAttach,from_packet', 'R,from_packet') + tuple(x + ',prefix_match' for x in (
                          '!', 'qC', 'QDisableRandomization', 'QEnvironmentHexEncoded', 'QEnvironmentReset', 'QEnvironmentUnset', 'QSetWorkingDir', 'QStartupWithShell', 'R', 'vAttach', 'vRun'))),
    'section offsets': ([11], S, cmds('qOffsets'), ('handle_section_offsets',), ('section_offsets,impl', 'qOffsets,from_packet', 'qOffsets,prefix_match')),
    'target descriptions': ([6], M, cmds('qXfer_features_read'), ('handle_target_xml',), ('qXfer:features:read,prefix_match',)),
    'LLDB register info': ([7], S, cmds('qRegisterInfo'), ('handle_lldb_register_info',), ('qRegisterInfo,prefix_match',)),
    'memory maps': ([14], M, cmds('qXfer_memory_map'), ('handle_memory_map',), ('memory_map,impl', 'qXfer:memory-map:read,prefix_match')),
    'syscall catching': ([15], S, cmds('QCatchSyscalls'), ('handle_catch_syscalls',), ('catch_syscalls,impl', 'QCatchSyscalls,prefix_match', 'catch_syscall,stop_reason')),
    'host I/O': ([16], M, cmds(*['vFile_' + x for x in ('open', 'close', 'pread', 'pwrite', 'fstat', 'unlink', 'readlink', 'setfs')]), ('handle_host_io',),
                 ('host_io,impl',) + tuple('vFile:%s,prefix_match' % x for x in ('open', 'close', 'pread', 'pwrite', 'fstat', 'unlink', 'readlink', 'setfs'))),
    'the executable\'s name': ([17], S, cmds('qXfer_exec_file'), ('handle_exec_file',), ('exec_file,impl', 'qXfer:exec-file:read,prefix_match')),
    'the auxiliary vector': ([18], M, cmds('qXfer_auxv_read'), ('handle_auxv',), ('auxv,impl', 'qXfer:auxv:read,prefix_match')),
    'library lists': ([19], S, cmds('qXfer_libraries_svr4_read'), ('handle_libraries_svr4',), ('libraries-svr4,impl', 'qXfer:libraries-svr4:read,prefix_match')),
    'tracepoints': ([20], M, cmds('QTDPsrc', 'QTDP', 'QTinit', 'QTBuffer_upcase', 'QTStart', 'QTStop', 'QTFrame', 'qTBuffer', 'qTStatus', 'qTP', 'qTfP', 'qTsP', 'qTfV', 'qTsV'),
                    ('handle_tracepoints', 'handle_tracepoint_state_machine_step'),
                    ('tracepoints,impl',) + tuple(x + ',prefix_match' for x in ('QTDPsrc', 'QTDP', 'QTinit', 'QTBuffer', 'QTStart', 'QTStop', 'QTFrame', 'qTBuffer', 'qTStatus', 'qTP', 'qTfP',
                                                                             'qTsP', 'qTfV', 'qTsV'))),
    'single register access, single-threaded': ([21], S, cmds('p', 'p_upcase'), ('handle_single_register_access',), ('p,prefix_match', 'P,prefix_match')),
    'single register access, multi-threaded': ([27], M, cmds('p', 'p_upcase'), ('handle_single_register_access',), ('p,prefix_match', 'P,prefix_match')),
    'resuming, single-threaded': ([22], S, cmds('c', 's', 'vCont', 'bc', 'bs'), ('handle_stop_resume', 'do_vcont', 'handle_reverse_cont', 'handle_reverse_step'),
                                  ('c,prefix_match', 's,prefix_match', 'vCont,prefix_match', 'bc,prefix_match', 'bs,prefix_match')),
    'resuming, multi-threaded': ([28], M, cmds('c', 's', 'vCont', 'bc', 'bs'), ('handle_stop_resume', 'do_vcont', 'handle_reverse_cont', 'handle_reverse_step'),
                                 ('c,prefix_match', 's,prefix_match', 'vCont,prefix_match', 'bc,prefix_match', 'bs,prefix_match')),
    'reverse stepping': ([25], S, cmds('bs'), ('handle_reverse_step',), ('reverse_step,impl', 'bs,prefix_match')),
    'reverse continuing': ([33], M, cmds('bc'), ('handle_reverse_cont',), ('reverse_cont,impl', 'bc,prefix_match')),
    'reverse execution': ([25, 26], S, cmds('bs', 'bc'), ('handle_reverse_step', 'handle_reverse_cont'), ('reverse_step,impl', 'reverse_cont,impl', 'reverse_exec,stop_reason')),
    'extra thread information': ([29], M, cmds('qThreadExtraInfo'), ('handle_thread_extra_info',), ('thread_extra_info,impl', 'qThreadExtraInfo,prefix_match')),
}
NOTHING = 1 << 1


def configs():
    out = [('everything, multi-threaded', M, 'u32', '3'), ('everything, single-threaded', S, 'u64', '3')]
    for k, v in ABSENT.items():
        on = v[1]
        for b in v[0]:
            on &= ~(1 << b)
        out.append((k, on, 'u64', '3'))
    out.append(('nothing, multi-threaded', 1 | NOTHING, 'u64', '3'))
    out.append(('nothing, single-threaded, optimised for size', NOTHING, 'u32', 's'))
    return out


def contents(path):
    """{(file, function): instructions} that have code in an optimised module, and the markers that are left in it"""
    ir = panicfree.IR(path)
    n, marks = {}, set()
    with open(path, errors='replace') as f:
        for l in f:
            if l.startswith('  ') and not l.lstrip().startswith(('#dbg', 'call void @llvm.dbg')):
                m = re.search(r'!dbg (!\d+)', l)
                if m:
                    n[m.group(1)] = n.get(m.group(1), 0) + 1
            elif l.startswith('@'):
                marks |= set(re.findall(r'c"<([^"<>]*,(?:impl|from_packet|prefix_match|stop_reason))>', l))
    fr = {}
    for d, c in n.items():
        seen = set()
        for f, line, name in ir.chain(d):
            k = (rel(f), re.sub(r'<.*', '', name))
            if k not in seen:
                seen.add(k)
                o = fr.setdefault(k, [0, line])
                o[0] += c
    return [[list(k) + v for k, v in sorted(fr.items())], sorted(marks), len(ir.fns)]


def rel(f):
    for r in (env.REPO, '/repo'):
        if f.startswith(r + '/'):
            return f[len(r) + 1:]
    return f


def all_configs():
    key = env.file_hash(env.repo_files(('src', 'Cargo.toml')) + [os.path.join(SRC, 'src', 'lib.rs'), os.path.join(SRC, 'Cargo.toml.in'), __file__, panicfree.__file__])
    out = os.path.join(env.BUILD, 'deadcode.json')
    with env.Lock('deadcode'):
        if os.path.exists(out):
            d = json.load(open(out))
            if d['key'] == key:
                return d['res']
        todo = configs()
        res = [None] * len(todo)

        def work(slot):
            for i in range(slot, len(todo), SLOTS):
                p, err = panicfree.build(slot, todo[i], 'deadcode', ('__dead_code_marker',))
                res[i] = [todo[i][0], None, None, 0, err] if p is None else [todo[i][0]] + contents(p) + [None]
        with ThreadPoolExecutor(SLOTS) as ex:
            for f in [ex.submit(work, s) for s in range(SLOTS)]:
                f.result()
        json.dump({'key': key, 'res': res}, open(out, 'w'))
        return res


MINI = 3      # fewer instructions than this may be an artefact of merged debug locations


def c53(ctx):
    ctx.rule('A no_std session over a target whose methods are all opaque is compiled with optimisation and whole-program linking once per extension, with that extension alone left '
             'unimplemented, and twice with nothing but the base operations. In the optimised LLVM IR of each build no instruction may come (through any chain of inlining, from the debug '
             'locations) from the parser of one of the extension\'s packets or from its handler, and none of the extension\'s dead code markers may be left. The builds that implement everything '
             'must contain all of them.')
    res = {x[0]: x for x in all_configs()}
    base = {}
    for b, name in ((M, 'everything, multi-threaded'), (S, 'everything, single-threaded')):
        base[b] = res[name]
        if res[name][1] is None:
            ctx.undecided('%s: the harness does not build: %s' % (name, res[name][4]))
            return
    for name, x in res.items():
        if x[1] is None:
            ctx.undecided('%s: the harness does not build: %s' % (name, x[4]))
            continue
        ctx.count('builds')
        ctx.count('functions', x[3])
        if name.startswith('everything'):
            continue
        for ext, v in ABSENT.items():
            if name != ext and not name.startswith('nothing'):
                continue
            b = base[v[1]]
            there = 0
            for kind, what in [('file', f) for f in v[2]] + [('handler', h) for h in v[3]]:
                hit = lambda k: k[0] == what if kind == 'file' else k[1] == what and k[0].startswith('src/')
                if any(hit(k) for k in b[1]):
                    there += 1
                left = [k for k in x[1] if hit(k)]
                ctx.count('obligations')
                n = sum(k[2] for k in left)
                if n >= MINI:
                    k = max(left, key=lambda k: k[2])
                    ctx.violation('code:%s:%s' % (ext, what), 'a target without %s (%s) still carries %d instructions of `%s` (%s:%d) in an optimised build' % (ext, name, n, k[1], k[0], k[3]))
                elif n:
                    ctx.undecided('%s: %d instructions are attributed to %s' % (name, n, what))
            for m in v[4]:
                there += m in b[2]
                ctx.count('obligations')
                if m in x[2]:
                    ctx.violation('marker:%s:%s' % (ext, m), 'a target without %s (%s) still carries the dead code marker <%s> in an optimised build' % (ext, name, m))
            if not there:
                ctx.undecided('nothing of %s is recognised in a build that implements it' % ext)
            elif name == ext:
                ctx.count('extensions')
                ctx.sample('%s: %d parsers, handlers and markers present when implemented, none when not' % (ext, there))
    ctx.floor('builds', 25)
    ctx.floor('extensions', 24)
