"""C50: what the stub does is the same with std, with alloc only and with neither: every packet's and every library function's summary is compared across the three
builds of the current tree."""
import env
import extract
import funcs
import fviews
import golden
import summ
from absint import Undecided

# functions whose behaviour differs by design, or that exist only in some configurations
SKIP = {
    'stub.new': 'needs an allocated packet buffer', 'builder.build': 'needs an allocated packet buffer (compared with its own summary by C03)',
    'console.new': 'console output is buffered when there is an allocator', 'console.write_raw': 'console output is buffered when there is an allocator',
    'console.write_str': 'console output is buffered when there is an allocator', 'console.drop': 'console output is buffered when there is an allocator',
    'console.flush': 'console output is buffered when there is an allocator', 'mvec.as_slice': 'only with trace-pkt',
}
WRITER = 'protocol::response_writer::ResponseWriter'
CONSOLE = 'protocol::console_output::ConsoleOutput'


def strip(t, memo):
    """drop the fields that exist only in one configuration: the packet trace of ResponseWriter, the buffer of ConsoleOutput"""
    if not isinstance(t, tuple) or not t:
        if isinstance(t, frozenset):
            return frozenset(strip(x, memo) for x in t)
        return t
    r = memo.get(t)
    if r is None:
        r = tuple(strip(x, memo) for x in t)
        if r[0] == 'adt' and len(r) == 4 and isinstance(r[3], tuple):
            if r[1].endswith(WRITER):
                r = r[:3] + (r[3][:6],)
            elif r[1].endswith(CONSOLE):
                r = r[:3] + (tuple(x for x in r[3] if not (isinstance(x, tuple) and x[:1] == ('adt',) and x[1].startswith(('std::vec::', 'alloc::')) or
                                                            isinstance(x, tuple) and x[:2] == ('app', 'std::vec::Vec::<T>::new'))),)
        memo[t] = r
    return r


def stripped(s):
    memo = {}
    r = lambda t: strip(t, memo)
    o = summ.Summary()
    for k, ps in s.beh.items():
        for p in ps:
            o.add(r(k), summ.Path({r(t): v for t, v in p.c.items()}, [tuple({r(t): v for t, v in x.items()} for x in d) for d in p.d], ()))
    o.phis = {u: (r(i), r(n), r(m)) for u, (i, n, m) in s.phis.items()}
    return o


def only_owned(f):
    """a difference on a path that only exists with an allocator (an owned, growable buffer)"""
    return any(v == frozenset({'Owned'}) or isinstance(v, tuple) and v[:1] == ('V',) and v[1] == frozenset({'Owned'}) for v in (f.w or {}).values())


def report(ctx, what, cfg, name, s, g):
    ctx.count('behaviours', len(s.beh))
    for f in summ.compare(stripped(s), stripped(g), base_vocab=golden.base_vocab()):
        if only_owned(f):
            continue
        text = '%s `%s` behaves differently in the configuration without %s: %s' % (what, name, 'std' if cfg == 'alloc' else 'an allocator', f.text())
        if f.certain:
            ctx.violation('%s:%s' % (cfg, golden.dkey(name, f.diff)), text)
        else:
            ctx.undecided(text[:300] + ' -- ' + f.why)


def view(c, vid):
    _, key, ev, _ = fviews.VIEWS[vid]
    f = funcs.find_key(c, key)
    if f is None:
        return None
    kw = fviews.kw(vid)
    I, p = funcs.run(c, f, [('arg', 'a%d' % i) for i in range(f.argc)], ev, **kw)
    return summ.build(I, p)


def c50(ctx):
    ctx.rule('The summaries (conditions, target and connection calls with argument origins, reply bytes, outcome, state) of every packet and of every library function are computed '
             'from the MIR of three builds of the same tree - default features, alloc only, no allocator - and must agree wherever two of their paths have '
             'jointly satisfiable conditions. The packet trace kept for logging, console buffering and growable buffers exist only with an allocator and are left out.')
    std = env.crate('std')
    for cfg in ('none', 'alloc'):
        c = env.crate(cfg)
        for n in extract.NAMES:
            try:
                I, a = golden.current(c, n)
                b = golden.current(std, n)[1]
            except (Undecided, summ.TooBig) as e:
                ctx.undecided('packet %s in %s: %s' % (n, cfg, e))
                continue
            ctx.count('packets')
            ctx.count('interpreted_states', I.nstates)
            for k in sorted(set(a) | set(b)):
                s, g = a.get(k), b.get(k)
                if s is None or g is None:
                    s, g = golden.tokenless(s, g)
                report(ctx, 'packet', cfg, k, s, g)
        for vid, (c0, key, ev, pub) in fviews.VIEWS.items():
            if c0 != 'std' or vid in SKIP:
                continue
            try:
                s, g = view(c, vid), view(std, vid)
            except (Undecided, summ.TooBig) as e:
                ctx.undecided('function %s in %s: %s' % (vid, cfg, e))
                continue
            if s is None or g is None:
                continue            # not part of this configuration (C42 decides which parts exist)
            ctx.count('functions')
            report(ctx, 'function', cfg, vid, s, g)
    ctx.floor('packets', 2 * len(extract.NAMES) - 10)
    ctx.floor('functions', 100)
