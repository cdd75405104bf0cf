"""C26: unsafe code is confined to the reviewed modules, every unchecked access is in bounds, and paranoid_unsafe removes all of it."""
import env
import extract
import fviews
import funcs
import golden
import poly
import show
import summ
from absint import *
from models import outside, entails, sub

# reviewed unsafe operations: module -> operations
REVIEWED = {
    'src/protocol/common/hex.rs': ('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut'),
    'src/protocol/packet.rs': ('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut'),
    'src/conn/impls/unixstream.rs': ('recv',),
}
PKTS = ('m', 'vCont', 'H', 'qSupported')


def inventory(ctx, cfg, crate='gdbstub'):
    c = env.crate(cfg, crate)
    for owner, op, span in c.unsafe:
        ctx.count('unsafe_operations')
        fn = span.rsplit(':', 1)[0]
        ok = REVIEWED.get(fn, ())
        if op in ok or any(op.endswith('::' + o) for o in ok if '::' not in o):
            continue
        ctx.violation('unsafe:%s:%s' % (fn, op.split('::')[-1]), '%s (%s): `%s` uses the unsafe operation `%s`; the library\'s unsafe code is confined to %s'
                      % (span, cfg, owner, op, ', '.join(sorted(REVIEWED))))
    return c


def bounds(ctx, c):
    """every unchecked access is in bounds on every abstract path that reaches it"""
    tot = {}

    def add(I):
        for k, o in I.oblig.items():
            if k[2] == 'unchecked-index':
                p, d = tot.get((k[0], k[1]), (True, None))
                d = d or (o['desc'] if not o['proven'] else None)
                if o['desc'] and o['desc'][0] is not None:
                    d = o['desc']
                tot[(k[0], k[1])] = (p and o['proven'], d)
    sites = {(o, s) for o, op, s in c.unsafe if 'get_unchecked' in op}
    for v in ('hex.decode_hex_buf',):
        try:
            I, s = fviews.summarise(v)
            if I:
                add(I)
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('%s: %s' % (v, e))
    for n in PKTS:
        try:
            I, p = extract.extract(c, n)
            add(I)
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('packet %s: %s' % (n, e))
    for (f, sp), (ok, d) in sorted(tot.items()):
        ctx.count('unchecked_accesses')
        if ok:
            ctx.sample('%s (%s): in bounds on every path' % (sp, f))
        elif d and d[0] is not None:
            ctx.violation('bounds:' + f.split('::')[-1], '%s: the unchecked access in `%s` is out of bounds: %s with %s' % (
                sp, f, ' / '.join(show.P(x) for x in d[1]), ', '.join('%s = %d' % (show.P(a), x) for a, x in sorted(d[0].items(), key=repr))))
        else:
            ctx.undecided('%s: the unchecked access in `%s` could not be shown to be in bounds: %s' % (sp, f, d and ' / '.join(show.P(x) for x in d[1])))
    done = {sp for f, sp in tot}
    for o, s in sorted(sites):
        if s not in done:
            ctx.undecided('%s: the unchecked access in `%s` is not reached by the analysed entry points' % (s, o))


def invariant(ctx, c):
    """PacketBuf::new only returns a body range inside the buffer (what strip_prefix and into_body rely on)"""
    f = funcs.find_key(c, fviews.VIEWS['packetbuf.new'][1])
    if f is None:
        ctx.undecided('PacketBuf::new is gone')
        return
    try:
        I, paths = funcs.run(c, f, [('arg', 'a%d' % i) for i in range(f.argc)])
    except Undecided as e:
        ctx.undecided('PacketBuf::new: %s' % e)
        return
    for k, st, v in paths:
        if k != 'ret' or v[0] != 'adt' or v[3] != 'Ok' or v[4][0][0] != 'adt':
            continue
        pb = v[4][0]
        rng = [x for x in pb[4] if x[0] == 'adt' and x[1].endswith('Range')]
        buf = [x for x in pb[4] if x[0] != 'adt']
        if len(rng) != 1 or len(buf) != 1:
            ctx.undecided('PacketBuf has another shape: %s' % show.P(I.canon(st, pb)))
            continue
        s, e = rng[0][4]
        n = ('len', buf[0])
        es = [s, sub(e, s), sub(n, e)]
        ctx.count('body_ranges')
        if all(entails(I, st, x) for x in es):
            continue
        w = outside(I, st, es)
        if w is not None:
            ctx.violation('range:PacketBuf::new', 'PacketBuf::new returns the body range %s..%s of a buffer of %s bytes, which is outside the buffer when %s; strip_prefix and into_body '
                          'access it unchecked' % (show.P(I.canon(st, s)), show.P(I.canon(st, e)), show.P(n), ', '.join('%s = %d' % (show.P(a), x) for a, x in sorted(w.items(), key=repr))))
        else:
            ctx.undecided('the body range %s..%s of PacketBuf::new could not be bounded' % (show.P(I.canon(st, s)), show.P(I.canon(st, e))))


def same(f):
    """differences that only restate the same value: an empty slice"""
    d = f.diff
    if d.kind != 'outcome':
        return False

    def inner(o):
        while isinstance(o, tuple) and len(o) == 2 and o[0] == 'ret':
            o = o[1]
        if isinstance(o, tuple) and o[0] == 'adt' and o[2] == 'Ok' and len(o[3]) == 1:
            return o[3][0]
        return o

    def empty(t):
        if t == ('b', b''):
            return True
        return isinstance(t, tuple) and t[0] == 'slice' and poly.implies(f.w, (('lin', ((t[3], -1),), 0) if t[3][0] != 'lin' else ('lin', tuple((a, -k) for a, k in t[3][1]), -t[3][2])))
    return empty(inner(f.k1[1])) and empty(inner(f.k2[1]))


def paranoid(ctx, a):
    try:
        b = env.crate('paranoid')
    except env.BuildFailure as e:
        ctx.violation('paranoid:build', 'with paranoid_unsafe (which forbids unsafe code) the library does not compile: ' + str(e)[-900:])
        return
    for owner, op, span in b.unsafe:
        ctx.violation('paranoid:' + op.split('::')[-1], '%s: with paranoid_unsafe `%s` still uses the unsafe operation `%s`' % (span, owner, op))
    diff = []
    for k in sorted(set(a.fns) | set(b.fns)):
        fa, fb = a.fns.get(k), b.fns.get(k)
        if not (fa or fb).local:
            continue
        ctx.count('compared_functions')
        if fa is None or fb is None:
            if 'PeekExt' not in k:
                ctx.undecided('%s exists only %s paranoid_unsafe' % (k, 'without' if fb is None else 'with'))
        elif fa.d['text'] != fb.d['text']:
            diff.append(k)
    for k in diff:
        ctx.count('different_functions')
        if 'PeekExt' in k:
            continue        # documented: a unix socket cannot be peeked at without unsafe code
        fa, fb = a.fns[k], b.fns[k]
        try:
            ss = []
            for c, f in ((a, fa), (b, fb)):
                I, p = funcs.run(c, f, [('arg', 'a%d' % i) for i in range(f.argc)])
                ss.append(summ.build(I, p))
            for x in summ.compare(ss[1], ss[0], base_vocab=golden.base_vocab()):
                if x.certain and 'PacketBuf' in k and x.k1[1][0] == 'panic':
                    continue        # judged below with the packets' ranges
                if same(x):
                    continue
                if x.certain:
                    ctx.violation('paranoid:%s:%s' % (k.split('::')[-1], x.diff.kind), 'with paranoid_unsafe `%s` behaves differently: %s' % (k, x.text()))
                else:
                    ctx.undecided('%s (paranoid): %s -- %s' % (k, x.text()[:200], x.why))
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('%s: %s' % (k, e))
    for n in PKTS:
        try:
            va, vb = golden.current(a, n)[1], golden.current(b, n)[1]
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('packet %s: %s' % (n, e))
            continue
        for v in va:
            ctx.count('packet_views')
            if v not in vb:
                ctx.violation('paranoid:packet:' + v, '%s exists only without paranoid_unsafe' % v)
                continue
            for x in summ.compare(vb[v], va[v], base_vocab=golden.base_vocab()):
                if x.certain:
                    ctx.violation('paranoid:packet:' + golden.dkey(v, x.diff), 'with paranoid_unsafe packet %s behaves differently: %s' % (v, x.text()))
                else:
                    ctx.undecided('packet %s (paranoid): %s -- %s' % (v, x.text()[:200], x.why))


def c26(ctx):
    ctx.rule('Inventory: every unsafe operation, unsafe function and unsafe impl written in the sources (from the type-checked program, each feature configuration) is one of '
             'the reviewed operations in the reviewed modules; gdbstub_arch has none. Bounds: on every abstract path each unchecked index or range is entailed to lie inside its '
             'slice by the linear facts of that path; PacketBuf::new only returns ranges inside the buffer. Configuration: with paranoid_unsafe the inventory is empty, and every '
             'function whose MIR differs between the two configurations has the same input/output summary.')
    c = inventory(ctx, 'std')
    inventory(ctx, 'none')
    inventory(ctx, 'arch', 'gdbstub_arch')
    bounds(ctx, c)
    invariant(ctx, c)
    paranoid(ctx, c)
    ctx.floor('unchecked_accesses', 1)
    ctx.floor('compared_functions', 300)
