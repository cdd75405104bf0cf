"""Properties that speak about all packets at once: each is a projection of the reviewed packet summaries, compared over every packet."""
import env
import extract
import fviews
import golden
import specio
import summ
import show
from absint import Undecided

ALL = extract.NAMES + [None]


def obs_names(obs, inloop, out):
    """(name, inside a loop?) of the target operations in an observable sequence"""
    for o in obs:
        if not isinstance(o, tuple) or not o:
            continue
        if o[0] in ('e', 'e!'):
            out.add((o[1], inloop))
        elif o[0] in ('loop', 'alt'):
            for k, _ in o[1]:
                obs_names(k, True, out)
        elif o[0] == 't!':
            pass
    return out


def names_of(S):
    out = set()
    for k in S.beh:
        obs_names(k[0], False, out)
    return out


# the outcome classes that projections use are a closed set
CLASSES = frozenset(('sym', x) for x in ('empty', 'malformed', 'handled', 'panic'))


def quiet(n):
    return n.startswith(('conn.', 'opaque:'))


def replies(obs):
    """is something written, by every / by no way through (None: by some)"""
    out = False
    for o in obs:
        if o[0] in ('lit', 'str', 'num', 'dec', 'hexbuf', 'binary', 'byte', 'hex', 'tid', 'idkind', 'loop'):
            return True
        if o[0] == 'alt':
            rs = {replies(b[0] if len(b) == 2 and isinstance(b[1], frozenset) else b) for b in o[1]}
            if rs == {True}:
                return True
            if rs != {False}:
                out = None
    return out


def cls(key):
    """what happens to the command: panic, malformed, error:<variant>, empty, handled"""
    obs, out, upd = key
    if out[0] != 'ret':
        return out[0]
    v = out[1]
    if v[0] == 'adt' and v[2] == 'Err':
        e = v[3][0]
        return 'error:' + (e[2] if e[0] == 'adt' else '?')
    if v[0] == 'adt' and v[2] == 'Ok' and v[3] and v[3][0][0] == 'adt' and v[3][0][2] != 'Pump':
        return 'handled'
    r = replies(obs)
    if r:
        return 'handled'
    if any(o[0] == 'e' and not quiet(o[1]) for o in obs) or upd:
        return 'handled'
    if r is None:
        return 'handled' if any(not quiet(n) for n, l in obs_names(obs, False, set())) else 'unclear'
    return 'empty'


def routing(drop):
    def proj(key):
        ns = sorted({n for n, l in obs_names(key[0], False, set()) if not quiet(n) and n not in drop})
        c = cls(key)
        if c in ('panic', 'unclear'):
            return None
        c = 'empty' if c == 'empty' else ('malformed' if c == 'malformed' else 'handled')
        return (tuple(('e', n, (), 0) for n in ns), ('class', ('sym', c)) if not ns else ('class', ('sym', 'handled')), ())
    return proj


def gating(drop):
    def proj(key):
        c = cls(key)
        if c in ('panic', 'unclear'):
            return None
        c = c.split(':')[0]
        if c in ('error', 'malformed'):
            c = 'handled' if c == 'error' else c
        return ((), ('class', ('sym', c)), ())
    return proj


def views(ctx, crate, name):
    try:
        I, vs = golden.current(crate, name)
    except (Undecided, summ.TooBig) as e:
        ctx.undecided('packet %s: %s' % (name, e))
        return None, []
    G = golden.gold()
    ctx.count('packets')
    ctx.count('interpreted_states', I.nstates)
    out = []
    gv = {k for k in G if k == str(name) or k.startswith(str(name) + ' ')}
    for k in sorted(set(vs) | gv):
        g = specio.thaw(G[k]) if k in G else None
        s = vs.get(k)
        if g is None or s is None:
            s, g = golden.tokenless(s, g)
        ctx.count('behaviours', len(s.beh))
        out.append((k, s, g))
    return I, out


def report(ctx, I, name, view, f, extra=''):
    loc = golden.where(I, f.diff)
    text = 'packet `%s`: %s%s' % (name, extra, f.text()) + (' at ' + '; '.join(loc[:4]) if loc else '')
    if f.certain:
        ctx.violation(golden.dkey(view, f.diff), text)
    else:
        ctx.undecided(text[:300] + ' -- ' + f.why)


def unknown(name):
    return 'unrecognised' if name is None else name


def c08(ctx):
    c = env.crate('std')
    ctx.rule('For every protocol command literal (and for a packet matching none of them) all paths of Command::from_packet followed by handle_packet '
             'are enumerated on the MIR; under jointly satisfiable conditions, the set of target operations reached, and whether the packet is '
             'handled, answered empty or rejected as malformed, must be that of the reviewed routing table.')
    for name in ALL:
        I, vs = views(ctx, c, name)
        for k, s, g in vs:
            if ' token ' in k:
                continue
            ng, ns = names_of(g), names_of(s)
            drop = {n for n, l in ng | ns if l}
            for n in sorted({n for n, l in ns} - {n for n, l in ng}):
                if not quiet(n) and known(n):
                    ctx.violation('%s:reaches:%s' % (k, n), 'packet `%s` reaches target operation %s, which is not one of its own at %s' % (
                        unknown(name), n, '; '.join(sorted(I.locs.get(n, ())))))
            for n in sorted({n for n, l in ng} - {n for n, l in ns}):
                if not quiet(n):
                    ctx.violation('%s:never:%s' % (k, n), 'packet `%s` no longer reaches its target operation %s on any path' % (unknown(name), n))
            for f in summ.compare(s, g, proj=routing(drop), base_vocab=golden.base_vocab() | CLASSES):
                if f.diff.kind in ('event', 'args', 'outcome'):
                    report(ctx, I, unknown(name), k, f)
            ctx.sample('packet `%s` -> %s' % (unknown(name), ', '.join(sorted({n for n, l in ns}))[:200]))
    ctx.rule('For the literals of protocol commands the library does not implement, every path must end in an empty reply without calling the target.')
    for name in OTHER:
        try:
            I, paths = extract.extract(c, name)
            S = summ.build(I, paths)
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('unimplemented command %s: %s' % (name, e))
            continue
        ctx.count('unimplemented_commands')
        for k in S.beh:
            if cls(k) == 'empty' and [o for o in k[0] if o[0] == 'flush']:
                continue
            if cls(k) == 'unclear' or any(o[0] == 'e' and quiet(o[1]) for o in k[0]):
                ctx.undecided('unimplemented command %s' % name)
                continue
            if not any(understood(x.c) for x in S.beh[k]):
                ctx.undecided('unimplemented command %s: under conditions outside the reviewed vocabulary, not answered with an empty reply' % name)
                continue
            ctx.violation('%s:%s' % (name, cls(k)), 'a `%s` packet, which no enabled command matches, is not answered with an empty reply: %s; %s' % (
                name, ', '.join(summ.name_of(o) for o in k[0])[:200] or 'no reply', summ.outs(k[1])))
    ctx.floor('packets', len(ALL))
    ctx.floor('unimplemented_commands', len(OTHER))


# commands of GDB's (and LLDB's) remote protocol that this library does not implement
OTHER = '''A d e f i F r t x qCRC: qSearch:memory: qGetTLSAddr: qGetTIBAddr: qL qP qPassSignals QPassSignals: QProgramSignals: QNonStop: QAgent: QAllow:
QTDV: QTEnable: QTDisable: QTro: QTMinFTPILen: QTNotes: QTSave: QTDisconnected: QTv qTV: qTSTMat: qTMinFTPILen qSymbol: qXfer:siginfo:read::
qXfer:btrace:read: qXfer:spu:read: qXfer:threads:read: qXfer:osdata:read: qXfer:uib:read: qXfer:traceframe-info:read: qXfer:sdata:read:
qXfer:statictrace:read: qXfer:libraries:read: qXfer:fdpic:read: qXfer:features:write: qXfer:siginfo:write: Qbtrace:off QbtraceConf: QThreadEvents:
QThreadOptions: QMemTags: qMemTags: qIsAddressTagged: vCtrlC vFlashErase: vFlashWrite: vFlashDone vStopped vMustReplyEmpty vFile:stat: vFile:lstat:
QListThreadsInStopReply qHostInfo qProcessInfo qMemoryRegionInfo: jThreadsInfo QSaveRegisterState QThreadSuffixSupported qWatchpointSupportInfo:
qGDBServerVersion _M _m qStructuredDataPlugins'''.split()

_voc = None


def understood(c):
    """conditions made of what the reviewed summaries are made of, without searches and loop variables"""
    global _voc
    if _voc is None:
        _voc = set(golden.base_vocab())
        for v in golden.gold().values():
            _voc |= summ.summary_vocab(specio.thaw(v))
    return not any(summ.vocab(t) - _voc or summ.phi_names(t) or any(x[:1] == ('app',) and str(x[1]).startswith('iter::') for x in summ.parts_of(t) if isinstance(x, tuple) and x)
                   for t in c)


_known = None


def known(n):
    """an operation some reviewed packet calls (not a method added since)"""
    global _known
    if _known is None:
        _known = set()
        for v in golden.gold().values():
            _known |= {x for x, l in names_of(specio.thaw(v))}
    return n in _known


def has_gate(f):
    def g(t):
        if isinstance(t, tuple):
            return t[:1] == ('gate',) or any(g(x) for x in t)
        return False
    cs = set(f.w)
    for p in (f.p, f.q):
        if p is not None:
            cs |= set(p.c)
            for d in p.d:
                for x in d:
                    cs |= set(x)
    return any(g(t) for t in cs)


def c09(ctx):
    c = env.crate('std')
    ctx.rule('For every command, the enumerated path conditions include the results of the capability queries (support_*, use_*, guard_*) made on the '
             'way; under jointly satisfiable conditions the command must be handled, answered empty or rejected exactly as in the reviewed gating table, '
             'and no gated target operation may be reached under other capability answers.')
    for name in ALL:
        I, vs = views(ctx, c, name)
        for k, s, g in vs:
            if ' token ' in k:
                continue
            for f in summ.compare(s, g, proj=gating(()), base_vocab=golden.base_vocab()):
                if f.diff.kind == 'outcome' and (has_gate(f) or not f.certain):
                    report(ctx, I, unknown(name), k, f)
            # which capability answers lead to which operation
            gs, gg = op_gates(s), op_gates(g)
            for n in sorted(set(gs) & set(gg)):
                ctx.count('gated_operations')
                lost = gg[n] - gs[n]
                if lost and not quiet(n):
                    ctx.violation('%s:ungated:%s' % (k, n), 'packet `%s` can reach %s without the capability answers %s at %s' % (
                        unknown(name), n, ', '.join(sorted('%s=%s' % (a, b) for a, b in lost)), '; '.join(sorted(I.locs.get(n, ())))))
            for n in list(gs)[:1]:
                ctx.sample('%s needs %s' % (n, ', '.join('%s=%s' % x for x in sorted(gs[n]))))
    ctx.floor('packets', len(ALL))
    ctx.floor('gated_operations', 90)


def op_gates(S):
    """operation -> capability answers that hold on every path reaching it (outside loops)"""
    out = {}
    for k, ps in S.beh.items():
        ns = {n for n, l in obs_names(k[0], False, set())}
        for p in ps:
            gs = {(t[1], show.C(('c', t, v)).split(' is ')[-1] if isinstance(v, frozenset) else str(v)) for t, v in p.c.items() if t[0] == 'gate'}
            for n in ns:
                out[n] = gs if n not in out else out[n] & gs
    return out


def deep(t, pred, out):
    if isinstance(t, (tuple, frozenset, list)):
        if isinstance(t, tuple) and pred(t):
            out.append(t)
        for x in t:
            deep(x, pred, out)
    return out


def tids_only(key):
    """thread ids passed to target operations, and updates of the selected threads"""
    obs, out, upd = key

    def red(o):
        r = []
        for x in o:
            if x[0] == 'e' and not quiet(x[1]):
                r.append(x)
        return r
    ev = tuple(('e', x[1], tuple(a for a in x[2] if 'mem_tid' in repr(a) or 'resume_tid' in repr(a)), 0) for x in red(obs))
    ev = tuple(x for x in ev if x[2])
    up = tuple(u for u in upd if u[0] in ('mem_tid', 'resume_tid'))
    return (ev, ('x',), up)


def c14(ctx):
    golden.check(ctx, ['H'])
    c = env.crate('std')
    ctx.rule('For every packet: the thread arguments derived from the selected threads, and the updates of the selected threads.')
    for name in ALL:
        if name == 'H':
            continue
        I, vs = views(ctx, c, name)
        for k, s, g in vs:
            if ' token ' in k:
                continue
            for f in summ.compare(s, g, proj=tids_only, base_vocab=golden.base_vocab()):
                if f.diff.kind in ('state', 'args', 'event'):
                    report(ctx, I, unknown(name), k, f)
    fviews.check(ctx, ['finish_exec'], kinds=('state',), proj=lambda key: ((), ('x',), key[2]))
    ctx.floor('packets', len(ALL))


def c17(ctx):
    c = env.crate('std')
    ctx.rule('For every packet: the thread-id tokens written to the reply (with the process-id part and the condition on the negotiated '
             'multiprocess flag), the calls asking the target for its current pid, and the updates of the negotiated feature flags.')

    def proj(key):
        obs, out, upd = key
        ob = tuple(x for x in obs if x[0] == 'tid' or x[0] == 'e' and x[1].startswith('CurrentActivePid') or
                   x[0] in ('loop', 'alt') and ("'tid'" in repr(x)))
        return (ob, ('x',), tuple(u for u in upd if u[0] == 'features'))
    for name in ALL:
        I, vs = views(ctx, c, name)
        for k, s, g in vs:
            if ' token ' in k:
                continue
            for f in summ.compare(s, g, proj=proj, base_vocab=golden.base_vocab()):
                report(ctx, I, unknown(name), k, f)
            if "'tid'" in repr(list(s.beh)):
                ctx.count('packets_with_thread_ids')
    fviews.check(ctx, ['finish_exec'], proj=lambda key: (proj(key)[0], ('x',), ()))
    ctx.floor('packets', len(ALL))
    ctx.floor('packets_with_thread_ids', 2)


def err_cond(f):
    """does the difference happen under the failure of a target operation?"""
    def failing(c):
        return any(t[0] == 'res' and isinstance(v, frozenset) and v == {'Err'} or
                   t[0] == 'vf' and t[2] == 'Err' for t, v in c.items())
    ok = failing(f.w)
    for p in (f.p, f.q):
        if p is not None:
            ok = ok or failing(p.c) or any(failing(x) for d in p.d for x in d)
    if hasattr(f.diff, 'loopp'):
        ok = ok or failing(f.diff.loopp.c) or failing(f.diff.loopq.c)
    return ok


def c18(ctx):
    c = env.crate('std')
    ctx.rule('For every packet and every target operation it calls, the paths on which the operation returns an error (fatal, errno, unspecified, io) are '
             'compared with the reviewed classification: fatal -> the session ends with that same error, non-fatal -> error reply with the reviewed number, '
             'nothing dropped.')
    for name in ALL:
        I, vs = views(ctx, c, name)
        for k, s, g in vs:
            if ' token ' in k:
                continue
            for f in summ.compare(s, g, base_vocab=golden.base_vocab()):
                if err_cond(f):
                    report(ctx, I, unknown(name), k, f, 'after a target error: ')
            errs = deep(list(s.beh), lambda t: t[:1] == ('adt',) and len(t) == 4 and t[2] == 'TargetError', [])
            ctx.count('fatal_error_outcomes', len(set(errs)))
    ctx.floor('packets', len(ALL))
    ctx.floor('fatal_error_outcomes', 60)


C25 = ['m', 'p', 'vFile:pread', 'vFile:readlink', 'qXfer:features:read', 'qXfer:memory-map:read', 'qXfer:auxv:read', 'qXfer:exec-file:read',
       'qXfer:libraries-svr4:read', 'qThreadExtraInfo']


def c25(ctx):
    def overflow(k):
        o = k[1]
        return o[0] == 'panic' or 'PacketBufferOverflow' in repr(o)

    def proj(key):
        obs, out, upd = key
        ob = tuple(x for x in obs if x[0] in ('hexbuf', 'binary', 'loop', 'alt', 'lit') and (x[0] != 'lit' or x[1] in (b'm', b'l')) or
                   x[0] == 'e' and not quiet(x[1]))
        o = ('overflow',) if overflow(key) and out[0] != 'panic' else ((out[0],) if out[0] == 'panic' else ('x',))
        return (ob, o, ())
    c = env.crate('std')
    ctx.rule('For every command whose target operation reports a length: the byte slices sent in the reply (base buffer and bound) and the paths '
             'ending in PacketBufferOverflow or a panic are compared with the reviewed summaries.')
    for name in C25:
        I, vs = views(ctx, c, name)
        for k, s, g in vs:
            for f in summ.compare(s, g, proj=proj, base_vocab=golden.base_vocab()):
                if f.diff.kind in ('reply', 'outcome', 'args', 'loop'):
                    report(ctx, I, unknown(name), k, f)
            sl = deep(list(s.beh), lambda t: t[:1] in (('hexbuf',), ('binary',)), [])
            for t in sorted(set(sl), key=repr)[:1]:
                ctx.sample('%s sends %s' % (name, summ.name_of(t)[:200]))
            ctx.count('reply_slices', len(set(sl)))
    ctx.floor('packets', len(C25))
    ctx.floor('reply_slices', 8)
