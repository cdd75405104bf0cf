"""Summaries of std functions used by gdbstub (slices, iterators, integer helpers)."""
from absint import *
from absint import STD_MODELS
import absint


def model(*names):
    def d(f):
        for n in names:
            STD_MODELS[n] = f
        return f
    return d


def ret(st, v):
    return [['ret', st, v]]


def as_ptr(I, st, v):
    """normalise a slice/array reference value to ('ref', cell, proj, ty)"""
    if v[0] == 'ref':
        # reference to a reference?
        inner = I.load(st, v[1], v[2])
        if inner[0] == 'ref':
            return as_ptr(I, st, inner)
        return v
    return ('ref', ('H', v), (), None)


def slen(I, st, v, ty=None):
    p = as_ptr(I, st, v)
    pt = None
    if ty is not None:
        e = I.deref_ty(ty)
        while e is not None and I.ty(e)['k'] == 'ref':
            e = I.deref_ty(e)
        pt = e
    return I.ptr_len(st, p[1], p[2], pt)


def subptr(I, st, v, s, l):
    p = as_ptr(I, st, v)
    return ('ref', p[1], I.psub(p[2], s, l), p[3])


def elemptr(I, st, v, i):
    p = as_ptr(I, st, v)
    return ('ref', p[1], I.pidx(st, p[1], p[2], i), p[3])


def some(I, fr, t, v):
    ty = I.dest_ty(fr, t)
    return I.mkadt(ty, 1, (v,))


def none(I, fr, t):
    return I.mkadt(I.dest_ty(fr, t), 0, ())


@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def m_len(I, st, fr, cal, a, tys, t):
    return ret(st, slen(I, st, a[0], tys[0]))


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def m_is_empty(I, st, fr, cal, a, tys, t):
    return ret(st, cmp_term('Eq', slen(I, st, a[0], tys[0]), T0))


@model('core::str::<impl str>::as_bytes', 'std::convert::AsRef::as_ref', 'core::slice::<impl [T]>::as_ptr')
def m_ident(I, st, fr, cal, a, tys, t):
    return ret(st, a[0])


def range_bounds(I, st, r, n):
    """range value -> (start, end) or None"""
    if r[0] != 'adt':
        return None
    p = r[1].split('::')[-1]
    if p == 'RangeFull':
        return T0, n
    if p == 'Range':
        return r[4][0], r[4][1]
    if p == 'RangeTo':
        return T0, r[4][0]
    if p == 'RangeFrom':
        return r[4][0], n
    if p == 'RangeToInclusive':
        return T0, add(r[4][0], T1)
    if p == 'RangeInclusive':
        return r[4][0], add(r[4][1], T1)
    return None


def check_range(I, st, s, e, n):
    """-> (state where s<=e<=n or None, list of states where it fails)"""
    bad = []
    cur = st
    c1 = cmp_term('Le', s, e)
    b = I.assume(cur, bool_not(c1), True)
    if b is not None:
        bad.append(b)
    cur = I.assume(cur, c1, True)
    if cur is None:
        return None, bad
    c2 = cmp_term('Le', e, n)
    b = I.assume(cur, bool_not(c2), True)
    if b is not None:
        bad.append(b)
    cur = I.assume(cur, c2, True)
    if bad and cur is not None and within(I, st, s, sub(e, s), sub(n, e)):
        bad = []
    return cur, bad


def within(I, st, *es):
    """are all the expressions known to be non-negative in st ?"""
    try:
        return all(entails(I, st, x) for x in es)
    except (TypeError, IndexError, KeyError):
        return False


def entails(I, st, e):
    import poly
    return poly.entails(st, I.norm(st, e))


def outside(I, st, es):
    """a concrete point of the facts of st at which one of the expressions es is negative"""
    import poly

    def exact(a):
        if a[0] != 'phi':
            return True
        ph = I.phi.get(a[1])
        return bool(ph) and ph.get('init', ('',))[0] == 'i' and ph.get('next') in (add(a, T1), frozenset([add(a, T1)]))
    for e in es:
        w = poly.witness(st, I.norm(st, e), exact=exact)
        if w is not None:
            return w
    return None


def oblig(I, fr, t, kind, proven, desc):
    k = (fr.fn.key, t[5] if len(t) > 5 else '', kind)
    o = I.oblig.setdefault(k, {'proven': True, 'span': t[5] if len(t) > 5 else '?', 'desc': None})
    if not proven:
        o['proven'] = False
        if not (o['desc'] and o['desc'][0]):
            o['desc'] = desc            # keep a point outside the bounds


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def m_index(I, st, fr, cal, a, tys, t):
    un = 'unchecked' in cal['path']
    row = I.ty(I.deref_ty(tys[0]) if tys[0] is not None else None)
    if row and row['k'] not in ('slice', 'array', 'str'):
        if row['k'] == 'adt' and 'Vec' in row['path']:
            pass
        else:
            return NotImplemented
    n = slen(I, st, a[0], tys[0])
    rb = range_bounds(I, st, a[1], n)
    kind = 'unchecked-index' if un else 'slice-index'
    if rb is None:
        if a[1][0] == 'adt':
            return NotImplemented
        i = a[1]
        c = cmp_term('Lt', i, n)
        tr = I.truth(st, c)
        if tr is None and not un and within(I, st, sub(sub(n, i), T1)):
            tr = True
        if un and tr is not True:
            es = [sub(sub(n, i), T1)]           # an index is unsigned
            pr = all(entails(I, st, x) for x in es)
            oblig(I, fr, t, kind, pr, None if pr else (outside(I, st, es), (I.canon(st, i), I.canon(st, n))))
        else:
            oblig(I, fr, t, kind, tr is True, (None, (I.canon(st, i), I.canon(st, n))))
        outs = []
        if tr is not True and not un:
            b = I.assume(st, c, False)
            if b is not None:
                b = b.copy()
                b.emit(('panic', 'bounds'))
                outs.append(['panic', b, None])
        g = I.assume(st, c, True)
        if g is not None:
            if g is not st:
                g.trace = st.trace
            outs.append(['ret', g, elemptr(I, g, a[0], i)])
        return outs
    s, e = rb
    ok, bad = check_range(I, st, s, e, n)
    if un and bad:
        es = [s, sub(e, s), sub(n, e)]
        pr = all(entails(I, st, x) for x in es)
        oblig(I, fr, t, kind, pr, None if pr else (outside(I, st, es), (I.canon(st, s), I.canon(st, e), I.canon(st, n))))
    else:
        oblig(I, fr, t, kind, not bad, (None, (I.canon(st, s), I.canon(st, e), I.canon(st, n))))
    outs = []
    if not un:
        for b in bad:
            b = b.copy()
            b.emit(('panic', 'slice'))
            outs.append(['panic', b, None])
    if ok is not None:
        if ok is not st:
            ok = ok.copy()
            ok.trace = st.trace
        outs.append(['ret', ok, subptr(I, ok, a[0], s, sub(e, s))])
    return outs


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def m_get(I, st, fr, cal, a, tys, t):
    n = slen(I, st, a[0], tys[0])
    rb = range_bounds(I, st, a[1], n)
    outs = []
    if rb is None:
        if a[1][0] == 'adt':
            return NotImplemented
        c = cmp_term('Lt', a[1], n)
        g = I.assume(st, c, True)
        if g is not None:
            outs.append(['ret', g, some(I, fr, t, elemptr(I, g, a[0], a[1]))])
        b = I.assume(st, c, False)
        if b is not None:
            outs.append(['ret', b, none(I, fr, t)])
        return outs
    s, e = rb
    ok, bad = check_range(I, st, s, e, n)
    if ok is not None:
        outs.append(['ret', ok, some(I, fr, t, subptr(I, ok, a[0], s, sub(e, s)))])
    for b in bad:
        outs.append(['ret', b, none(I, fr, t)])
    return outs


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(I, st, fr, cal, a, tys, t):
    n = slen(I, st, a[0], tys[0])
    c = cmp_term('Eq', n, T0)
    outs = []
    g = I.assume(st, c, False)
    if g is not None:
        i = T0 if 'first' in cal['path'] else sub(n, T1)
        outs.append(['ret', g, some(I, fr, t, elemptr(I, g, a[0], i))])
    b = I.assume(st, c, True)
    if b is not None:
        outs.append(['ret', b, none(I, fr, t)])
    return outs


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_first_mut')
def m_split_first(I, st, fr, cal, a, tys, t):
    n = slen(I, st, a[0], tys[0])
    c = cmp_term('Eq', n, T0)
    outs = []
    g = I.assume(st, c, False)
    if g is not None:
        outs.append(['ret', g, some(I, fr, t, ('tup', (elemptr(I, g, a[0], T0), subptr(I, g, a[0], T1, sub(n, T1)))))])
    b = I.assume(st, c, True)
    if b is not None:
        outs.append(['ret', b, none(I, fr, t)])
    return outs


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def m_split_at(I, st, fr, cal, a, tys, t):
    n = slen(I, st, a[0], tys[0])
    c = cmp_term('Le', a[1], n)
    tr = True if within(I, st, sub(n, a[1])) else I.truth(st, c)
    oblig(I, fr, t, 'slice-index', tr is True, (None, (I.canon(st, a[1]), I.canon(st, n))))
    outs = []
    if tr is not True:
        b = I.assume(st, c, False)
        if b is not None:
            b = b.copy()
            b.emit(('panic', 'split_at'))
            outs.append(['panic', b, None])
    g = I.assume(st, c, True)
    if g is not None:
        if g is not st:
            g.trace = st.trace
        outs.append(['ret', g, ('tup', (subptr(I, g, a[0], T0, a[1]), subptr(I, g, a[0], a[1], sub(n, a[1]))))])
    return outs


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copy(I, st, fr, cal, a, tys, t):
    d, s = as_ptr(I, st, a[0]), as_ptr(I, st, a[1])
    nd, ns = slen(I, st, a[0], tys[0]), slen(I, st, a[1], tys[1])
    c = cmp_term('Eq', nd, ns)
    tr = I.truth(st, c)
    oblig(I, fr, t, 'copy-len', tr is True, (None, (I.canon(st, nd), I.canon(st, ns))))
    outs = []
    if tr is not True:
        b = I.assume(st, c, False)
        if b is not None:
            b = b.copy()
            b.emit(('panic', 'copy_from_slice'))
            outs.append(['panic', b, None])
    g = I.assume(st, c, True)
    if g is not None:
        g = g.copy()
        g.trace = st.trace
        I.write_ptr(g, d, I.load(g, s[1], s[2]))
        outs.append(['ret', g, UNIT])
    return outs


@model('core::slice::<impl [T]>::contains')
def m_contains(I, st, fr, cal, a, tys, t):
    """is a byte one of a constant list?"""
    hs = I.canon(st, as_ptr(I, st, a[0]))
    x = I.canon(st, a[1])
    if cal.get('key') != 'core::slice::<impl [u8]>::contains' or hs[0] != 'b':
        return NotImplemented
    bs = sorted(set(hs[1]))
    if x[0] == 'i':
        return ret(st, T1 if x[1] in bs else T0)
    rs = []
    for b in bs:
        if rs and rs[-1][1] == b - 1:
            rs[-1] = (rs[-1][0], b)
        else:
            rs.append((b, b))
    return ret(st, ('cmp', x, tuple(rs), True) if rs else T0)


@model('core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::starts_with')
def m_starts(I, st, fr, cal, a, tys, t):
    return ret(st, starts_with(I, st, a[0], a[1], tys))


def starts_with(I, st, x, pre, tys):
    cx = I.canon(st, as_ptr(I, st, x))
    cp = I.canon(st, as_ptr(I, st, pre))
    if cx[0] == 'b' and cp[0] == 'b':
        return T1 if cx[1].startswith(cp[1]) else T0
    if cp == ('b', b''):
        return T1
    r = named(I, cx, cp)
    return r if r is not None else ('app', 'starts_with', (cx, cp))


def named(I, cx, cp):
    """does the packet under analysis start with the bytes cp?"""
    pre = getattr(I, 'prefix', None)
    if pre and cp[0] == 'b' and (cx == pre['base'] or cx[0] == 'slice' and cx[1] == pre['base'][1] and cx[2] == pre['base'][2]):
        nm = pre['name']
        if nm is None:
            # a packet that starts with none of the known names
            if cp[1] in pre['names']:
                return T0
        elif nm.startswith(cp[1]):
            return T1
        elif not cp[1].startswith(nm):
            return T0
    return None


# ---------------------------------------------------------------- equality
def value_eq(I, st, x, y):
    x, y = I.canon(st, x), I.canon(st, y)
    if x == y:
        return T1
    if x[0] == 'i' and y[0] == 'i':
        return T1 if x[1] == y[1] else T0
    if x[0] == 'b' and y[0] == 'b':
        return T1 if x[1] == y[1] else T0
    if x[0] == 'arr':
        x = tob(x)
    if y[0] == 'arr':
        y = tob(y)
    if x[0] == 'b' and y[0] == 'b':
        return T1 if x[1] == y[1] else T0
    for p, q in ((x, y), (y, x)):
        if p[0] == 'slice' and q[0] == 'b' and p[3] == ('i', len(q[1])):
            r = named(I, p, q)
            if r is not None:
                return r
        if p[0] == 'b' and not p[1] and q[0] != 'b':
            return cmp_term('Eq', I.len_of_content(q) if q[0] != 'deref' else ('len', q[1]), T0)
    if x[0] == 'adt' and y[0] == 'adt' and x[2] != y[2]:
        return T0
    return ('eq',) + tuple(sorted((x, y), key=repr))


def tob(x):
    if all(e[0] == 'i' and 0 <= e[1] < 256 for e in x[1]):
        return ('b', bytes(e[1] for e in x[1]))
    return x


@model(('std::cmp::PartialEq', 'eq'), ('std::cmp::PartialEq', 'ne'))
def m_eq(I, st, fr, cal, a, tys, t):
    row = I.ty(cal['targs'][0]) if cal['targs'] else None
    while row and row['k'] == 'ref':
        row = I.ty(row['e'])
    key = cal.get('key')
    f = I.c.fns.get(key) if key else None

    def strip(v):
        while v[0] == 'ref':
            n = I.load(st, v[1], v[2])
            if n[0] == 'ref':
                v = n
            else:
                return n
        # pointer symbol
        return v
    if row and row['k'] in ('int', 'uint', 'char'):
        x, y = strip(a[0]), strip(a[1])
        x, y = (value_of(I, st, v, ty) for v, ty in zip(a, cal['targs'] if len(cal['targs']) == 2 else cal['targs'] * 2))
        v = cmp_term('Eq', x, y, row['k'] != 'int')
    elif row and row['k'] in ('slice', 'array', 'str', 'bool', 'param', 'alias'):
        v = value_eq(I, st, a[0], a[1])
        if v[0] == 'eq' and row['k'] in ('slice', 'array'):
            r = bytes_eq(I, st, [inner_ptr(I, st, x, ty) for x, ty in zip(a, cal['targs'])] if len(cal['targs']) == 2 else a, a, cal['name'] == 'ne')
            if r is not None:
                return r
    elif row and row['k'] == 'adt' and row['path'].startswith('std::num::NonZero'):
        x, y = I.canon(st, a[0]), I.canon(st, a[1])
        v = cmp_term('Eq', nz_get(x), nz_get(y))
    elif row and row['k'] == 'adt' and row['enum'] and all(not va['fields'] for va in row['variants']):
        x, y = strip(a[0]), strip(a[1])
        tyid = cal['targs'][0]
        while I.ty(tyid)['k'] == 'ref':
            tyid = I.ty(tyid)['e']
        if x[0] == 'adt' and y[0] == 'adt':
            v = T1 if x[2] == y[2] else T0
        elif y[0] == 'adt' or x[0] == 'adt':
            s, c = (x, y) if y[0] == 'adt' else (y, x)
            outs = []
            p = I.assume_variant(st, s, tyid, [c[3]])
            isne = cal['name'] == 'ne'
            if p is not None:
                outs.append(['ret', p, T0 if isne else T1])
            q = I.assume_variant(st, s, tyid, [z['name'] for z in row['variants'] if z['name'] != c[3]])
            if q is not None:
                outs.append(['ret', q, T1 if isne else T0])
            return outs
        else:
            v = value_eq(I, st, a[0], a[1])
    elif f is not None and f.local:
        return NotImplemented
    elif f is not None and row and row['k'] == 'adt' and 'Option' in row['path']:
        return NotImplemented
    else:
        v = value_eq(I, st, a[0], a[1])
    if cal['name'] == 'ne':
        v = bool_not(v)
    return ret(st, v)


def inner_ptr(I, st, v, ty):
    """the innermost pointer of a value of type &ty"""
    row = I.ty(ty)
    while row and row['k'] == 'ref':
        v = I.load(st, v[1], v[2]) if v[0] == 'ref' else ('deref', v)
        row = I.ty(row['e'])
    return v


def value_of(I, st, v, ty):
    """the value a &ty points to, through any further references"""
    v = inner_ptr(I, st, v, ty)
    return I.norm(st, I.load(st, v[1], v[2]) if v[0] == 'ref' else I.load_cell(st, ('H', v)))


def bytes_eq(I, st, ps, a, ne):
    """comparison of a slice with constant bytes: length, then byte by byte, as a slice pattern does"""
    cs = [I.canon(st, x) for x in a]
    for p, k in ((ps[0], cs[1]), (ps[1], cs[0])):
        k = tob(k) if k[0] == 'arr' else k
        if k[0] != 'b' or not 0 < len(k[1]) <= 16:
            continue
        p = as_ptr(I, st, p)
        if p[1][0] == 'K':
            return None
        outs = []
        cur = st
        conds = [cmp_term('Eq', slen(I, st, p), ('i', len(k[1])))]
        for i, ch in enumerate(k[1]):
            conds.append(('@', i, ch))
        for c in conds:
            if c[0] == '@':
                e = elemptr(I, cur, p, ('i', c[1]))
                c = cmp_term('Eq', I.load(cur, e[1], e[2]), ('i', c[2]))
            no = I.assume(cur, c, False)
            if no is not None:
                outs.append(['ret', no, T1 if ne else T0])
            cur = I.assume(cur, c, True)
            if cur is None:
                return outs
        outs.append(['ret', cur, T0 if ne else T1])
        return outs
    return None


def nz_get(x):
    if x[0] == 'adt' and len(x[3] if isinstance(x[3], tuple) else ()) == 1:
        return nz_get(x[3][0])
    if x[0] == 'i':
        return x
    if x[0] == 'nz':
        return x[1]
    return ('app', 'NonZero::get', (x,))


@model('std::num::NonZero::<T>::get')
def m_nzget(I, st, fr, cal, a, tys, t):
    x = a[0]
    while x[0] == 'adt' and len(x[4]) == 1:
        x = x[4][0]
    if x[0] == 'i':
        return ret(st, x)
    if x[0] == 'nz':
        return ret(st, x[1])
    v = ('app', 'NonZero::get', (I.canon(st, x),))
    st = st.copy()
    st.facts.setdefault(v, ('R', ((1, INF),)))
    return ret(st, v)


@model('std::num::NonZero::<T>::new')
def m_nznew(I, st, fr, cal, a, tys, t):
    outs = []
    x = a[0]
    c = cmp_term('Eq', x, T0)
    g = I.assume(st, c, False)
    if g is not None:
        if x[0] == 'i':
            v = ('nz', x)
        elif x[0] == 'app' and x[1] == 'NonZero::get':
            v = x[2][0]
        else:
            v = ('nz', x)
        outs.append(['ret', g, some(I, fr, t, v)])
    b = I.assume(st, c, True)
    if b is not None:
        outs.append(['ret', b, none(I, fr, t)])
    return outs


@model(('std::cmp::PartialOrd', 'le'), ('std::cmp::PartialOrd', 'ge'), ('std::cmp::PartialOrd', 'lt'), ('std::cmp::PartialOrd', 'gt'))
def m_ord(I, st, fr, cal, a, tys, t):
    row = I.ty(cal['targs'][0])
    if row and 'log::Level' in row['s']:
        return ret(st, T0)
    x, y = I.canon(st, a[0]), I.canon(st, a[1])
    if row and row['k'] in ('int', 'uint', 'param', 'alias'):
        return ret(st, cmp_term(cal['name'].capitalize(), x, y, row['k'] != 'int'))
    return NotImplemented


@model('log::max_level')
def m_maxlevel(I, st, fr, cal, a, tys, t):
    return ret(st, ('app', 'log::max_level', ()))


@model('log::__private_api::enabled')
def m_logen(I, st, fr, cal, a, tys, t):
    return ret(st, T0)


@model(('std::cmp::Ord', 'min'), ('std::cmp::Ord', 'max'))
def m_min(I, st, fr, cal, a, tys, t):
    row = I.ty(cal['targs'][0])
    if not row or row['k'] not in ('uint', 'int'):
        return NotImplemented
    x, y = a
    if x == y:
        return ret(st, x)
    tr = I.truth(st, cmp_term('Le', x, y))
    mn = cal['name'] == 'min'
    if tr is True:
        return ret(st, x if mn else y)
    if tr is False:
        return ret(st, y if mn else x)
    return ret(st, ('min' if mn else 'max',) + tuple(sorted((x, y), key=repr)))


@model('std::cmp::min', 'core::cmp::min')
def m_min2(I, st, fr, cal, a, tys, t):
    return m_min(I, st, fr, {'targs': cal['targs'], 'name': 'min'}, a, tys, t)


@model('core::num::<impl u8>::wrapping_add', 'core::num::<impl u8>::wrapping_sub')
def m_wadd(I, st, fr, cal, a, tys, t):
    nm = cal['path'].split('::')[-1]
    if a[0][0] == 'i' and a[1][0] == 'i':
        return ret(st, ('i', (a[0][1] + (a[1][1] if nm == 'wrapping_add' else -a[1][1])) & 255))
    x, y = a
    if nm == 'wrapping_add' and repr(x) > repr(y):
        x, y = y, x
    return ret(st, ('op', nm, x, y))


@model('std::intrinsics::saturating_add', 'std::intrinsics::saturating_sub', 'core::intrinsics::saturating_add', 'core::intrinsics::saturating_sub')
def m_satadd(I, st, fr, cal, a, tys, t):
    row = I.T[cal['targs'][0]]
    n = 'std::intrinsics::' + cal['path'].split('::')[-1]
    return ret(st, ('app', n + ':u8' if row['k'] == 'uint' and row['bits'] == 8 and 'size' not in row['s'] else n, tuple(a)))


@model('std::mem::size_of', 'core::mem::size_of')
def m_sizeof(I, st, fr, cal, a, tys, t):
    row = I.T[cal['targs'][0]]
    if row['k'] in ('int', 'uint'):
        return ret(st, ('i', row['bits'] // 8))
    return ret(st, ('app', 'size_of', (row['s'],)))


@model('std::mem::drop', 'core::mem::drop', 'std::mem::forget')
def m_drop(I, st, fr, cal, a, tys, t):
    return NotImplemented


@model('std::mem::replace', 'core::mem::replace')
def m_replace(I, st, fr, cal, a, tys, t):
    p = as_ptr1(I, a[0])
    st = st.copy()
    old = I.load(st, p[1], p[2])
    I.store_to(st, p[1], p[2], a[1], p[3] if p[3] is not None else I.deref_ty(tys[0]))
    return ret(st, old)


@model('std::mem::take', 'core::mem::take')
def m_take(I, st, fr, cal, a, tys, t):
    p = as_ptr1(I, a[0])
    st = st.copy()
    old = I.load(st, p[1], p[2])
    row = I.T[cal['targs'][0]]
    if row['k'] == 'adt' and row['path'].endswith('Option'):
        nv = I.mkadt(cal['targs'][0], 0, ())
    elif row['k'] in ('int', 'uint', 'bool'):
        nv = T0
    elif row['k'] == 'ref':
        nv = ('ref', ('K', ('b', b'')), (), None)
    else:
        nv = ('app', 'default', (row['s'],))
    I.store_to(st, p[1], p[2], nv, p[3] if p[3] is not None else I.deref_ty(tys[0]))
    return ret(st, old)


def as_ptr1(I, v):
    return v if v[0] == 'ref' else ('ref', ('H', v), (), None)


@model('std::clone::Clone::clone')
def m_clone(I, st, fr, cal, a, tys, t):
    f = I.c.fns.get(cal.get('key'))
    if f is not None and f.local:
        p = as_ptr1(I, a[0])
        return ret(st, I.load(st, p[1], p[2]))
    p = as_ptr1(I, a[0])
    return ret(st, I.load(st, p[1], p[2]))


@model('std::any::type_name')
def m_tn(I, st, fr, cal, a, tys, t):
    return ret(st, ('ref', ('K', ('k', 'type_name')), (), None))


@model('std::option::Option::<T>::take')
def m_otake(I, st, fr, cal, a, tys, t):
    p = as_ptr1(I, a[0])
    st = st.copy()
    old = I.load(st, p[1], p[2])
    ty = I.deref_ty(tys[0])
    I.store_to(st, p[1], p[2], I.mkadt(ty, 0, ()), p[3] if p[3] is not None else ty)
    return ret(st, old)


@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut')
def m_oasref(I, st, fr, cal, a, tys, t):
    p = as_ptr1(I, a[0])
    v = I.load(st, p[1], p[2])
    ty = I.deref_ty(tys[0])
    out = []
    for s, nm, vi in I.split_variants(st, v, ty):
        if nm == 'None':
            out.append(['ret', s, none(I, fr, t)])
        else:
            out.append(['ret', s, some(I, fr, t, ('ref', p[1], p[2] + (('v', 1, 'Some'), ('f', 0, '0', None)), p[3]))])
    return out


# ---------------------------------------------------------------- num_traits
@model('num_traits::NumCast::from')
def m_numcast(I, st, fr, cal, a, tys, t):
    # infallible or not depends on the concrete type: keep an uninterpreted Option
    return ret(st, ('app', 'NumCast', (I.canon(st, a[0]),)))


# ---------------------------------------------------------------- closures as terms
def noin(t):
    return t[1] if len(t) == 2 and t[0] in ('in', 'deref') else t


def lam(I, st, fr, clo, nargs, mk=None):
    """canonical term for a pure closure applied to symbolic arguments"""
    fv, ptr = I.find_closure(st, clo)
    if fv is None:
        return ('k', 'fn', '?')
    args = mk if mk else [('lam', i) for i in range(nargs)]
    s0 = st.copy()
    s0.trace = ()
    try:
        if fv[0] == 'fn':
            outs = I.call(s0, fr, fv[2].d, args, [None] * len(args), None)
        else:
            outs = I.call_closure(s0, fr, fv, ptr, args)
    except (Undecided, TypeError, KeyError, IndexError, AttributeError):
        return ('k', 'closure', clo_name(fv[1])) if fv[0] == 'clo' else ('k', 'fn', fv[1])
    res = set()
    for k, s, v in outs:
        if k != 'ret':
            continue
        if has_event(s.trace):
            return ('k', 'closure-eff', clo_name(fv[1]))
        conds = tuple(sorted((x for x in s.trace if x[0] == 'c'), key=repr))
        res.add((conds, I.canon(s, v)))
    # boolean closure written as branches: normalise to the union of the true ranges of one term
    terms = set()
    ok = len(res) > 1
    true = ()
    for conds, v in res:
        if len(conds) > 1 or conds and not isinstance(conds[0][2], tuple):
            ok = False
            break
        rng = conds[0][2] if conds else FULL
        if conds:
            terms.add(noin(conds[0][1]))
        if v[0] == 'i':
            rng = rng if v[1] else ()
        elif v[0] == 'cmp' and len(v) == 4:
            terms.add(noin(v[1]))
            rng = r_and(rng, v[2])
        else:
            ok = False
            break
        true = r_or(true, rng)
    if ok and len(terms) == 1:
        return ('lamr', ('cmp', terms.pop(), true, True))
    if len(res) == 1:
        (c, v), = res
        if not c:
            return ('lamr', v)
    return ('lamr', tuple(sorted(res, key=repr)))


class NoFrame:
    depth = 20


absint.Interp.lam = staticmethod(lambda I, st, clo: lam(I, st, NoFrame, clo, 1))


# ---------------------------------------------------------------- iterators
# ('it','lz', kind, opaque form, inner, closure, position, done): adaptors with their closure, for single steps
# ('it','slice', ptr, pos, end)  items: &elem
# ('it','enum', inner, n) ; ('it','map', inner, closure) ; ('it','copied', inner) ; ('it','opq', term, pos)
def it_slice(I, st, v, ty):
    p = as_ptr(I, st, v)
    n = slen(I, st, v, ty)
    return ('it', 'slice', p, T0, n)


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def m_iter(I, st, fr, cal, a, tys, t):
    return ret(st, it_slice(I, st, a[0], tys[0]))


@model('std::iter::IntoIterator::into_iter')
def m_intoiter(I, st, fr, cal, a, tys, t):
    row = I.ty(cal['targs'][0]) if cal['targs'] else None
    if row and row['k'] == 'ref' and I.ty(row['e'])['k'] in ('slice', 'array'):
        return ret(st, it_slice(I, st, a[0], cal['targs'][0]))
    if row and row['k'] == 'array':
        c = ('T', next(I.fidc))
        st = st.copy()
        st.store[c] = a[0]
        return ret(st, ('it', 'copied', it_slice(I, st, ('ref', c, (), cal['targs'][0]), None)))
    if a[0][0] == 'it' or row and row['k'] == 'adt' and 'ops::Range' in row['path']:
        return ret(st, a[0])
    if cal['kind'] == 'none':
        return ret(st, ('it', 'opq', I.canon(st, a[0]), T0))
    f = I.c.fns.get(cal.get('key'))
    if f is not None and not f.local:
        return ret(st, a[0] if a[0][0] == 'it' else a[0])
    return NotImplemented


def opq(I, st, kind, it, *extra):
    return ('it', 'opq', (kind, itc(I, st, it)) + extra, T0)


def itc(I, st, it):
    return I.canon(st, it)


@model('core::slice::<impl [T]>::split', 'core::slice::<impl [T]>::split_mut')
def m_split(I, st, fr, cal, a, tys, t):
    p = as_ptr(I, st, a[0])
    return ret(st, ('it', 'split', p, lam(I, st, fr, a[1], 1), T0, ('i', 0)))


@model('core::slice::<impl [T]>::splitn', 'core::slice::<impl [T]>::splitn_mut')
def m_splitn(I, st, fr, cal, a, tys, t):
    p = as_ptr(I, st, a[0])
    return ret(st, ('it', 'split', p, lam(I, st, fr, a[2], 1), T0, a[1]))


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks_mut', 'core::slice::<impl [T]>::chunks_exact_mut')
def m_chunks(I, st, fr, cal, a, tys, t):
    p = as_ptr(I, st, a[0])
    return ret(st, ('it', 'opq', (cal['path'].split('::')[-1], I.canon(st, p), I.canon(st, a[1])), T0))


def ad(kind, *extra):
    def f(I, st, fr, cal, a, tys, t):
        it = a[0]
        if it[0] == 'adt' and 'Range' in it[1] or it[0] == 'it':
            pass
        else:
            row = I.ty(tys[0]) if tys[0] is not None else None
            it = ('it', 'opq', I.canon(st, it), T0)
        if kind == 'enumerate':
            return ret(st, ('it', 'enum', it, T0))
        if kind == 'map':
            return ret(st, ('it', 'map', it, a[1]))
        if kind == 'copied':
            return ret(st, ('it', 'copied', it))
        if kind == 'skip':
            if it[0] == 'it' and it[1] == 'slice':
                # may exceed the length: position clamps; equal for the usual constant skip
                return ret(st, ('it', 'slice', it[2], add(it[3], a[1]), it[4]))
            return ret(st, ('it', 'opq', ('skip', itc(I, st, it), I.canon(st, a[1])), T0))
        if kind == 'take':
            return ret(st, ('it', 'opq', ('take', itc(I, st, it), I.canon(st, a[1])), T0))
        if kind in ('filter', 'skip_while', 'take_while', 'map_while', 'flatten', 'rev', 'filter_map', 'flat_map', 'step_by', 'zip', 'chain', 'peekable', 'fuse', 'inspect'):
            ex = []
            for x in a[1:]:
                fv, _ = I.find_closure(st, x)
                if fv is not None:
                    item = it_item_sym(I, st, fr, it)
                    ex.append(lam(I, st, fr, x, 1, [item]) if kind != 'filter' and kind != 'skip_while' and kind != 'take_while' else lam_ref(I, st, fr, x, item))
                else:
                    ex.append(I.canon(st, x))
            o = ('it', 'opq', (kind, itc(I, st, it)) + tuple(ex), T0)
            if kind in LAZY and it[0] == 'it':
                return ret(st, ('it', 'lz', kind, o, it, a[1] if len(a) > 1 else UNIT, T0, ('b', False)))
            return ret(st, o)
        return NotImplemented
    return f


LAZY = {'filter', 'filter_map', 'take_while', 'map_while', 'flatten', 'fuse'}


def it_item_sym(I, st, fr, it):
    return ('lam', 0)


def lam_ref(I, st, fr, x, item):
    return lam(I, st, fr, x, 1, [item])


for nm in ('enumerate', 'map', 'copied', 'skip', 'take', 'filter', 'skip_while', 'take_while', 'map_while', 'flatten', 'rev', 'filter_map', 'flat_map', 'step_by', 'zip', 'chain', 'peekable', 'fuse'):
    STD_MODELS[('std::iter::Iterator', nm)] = ad(nm)
STD_MODELS[('std::iter::Iterator', 'cloned')] = ad('copied')
STD_MODELS[('std::iter::DoubleEndedIterator', 'rev')] = ad('rev')


@model('std::iter::once')
def m_once(I, st, fr, cal, a, tys, t):
    return ret(st, ('it', 'once', a[0], T0))


def it_next(I, st, fr, it, nx=None):
    nx = nx or it_next
    """-> list of (state, new iterator, item or None) ; None when unsupported"""
    if it[0] == 'adt' and it[1].endswith('ops::Range') or it[0] == 'adt' and it[1].endswith('range::Range'):
        s, e = it[4]
        c = cmp_term('Lt', s, e)
        out = []
        g = I.assume(st, c, True)
        if g is not None:
            out.append((g, it[:4] + ((add(s, T1), e),), s))
        b = I.assume(st, c, False)
        if b is not None:
            out.append((b, it, None))
        return out
    if it[0] != 'it':
        return None
    k = it[1]
    if k == 'slice':
        c = cmp_term('Lt', it[3], it[4])
        out = []
        g = I.assume(st, c, True)
        if g is not None:
            out.append((g, it[:3] + (add(it[3], T1), it[4]), ('ref', it[2][1], I.pidx(g, it[2][1], it[2][2], it[3]), it[2][3])))
        b = I.assume(st, c, False)
        if b is not None:
            out.append((b, it, None))
        return out
    if k == 'copied':
        r = nx(I, st, fr, it[2])
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is not None and x != 'skip':
                x = I.load(s, x[1], x[2]) if x[0] == 'ref' else I.load_cell(s, ('H', x))
            out.append((s, ('it', 'copied', ni), x))
        return out
    if k == 'enum':
        r = nx(I, st, fr, it[2])
        if r is None:
            return None
        return [(s, ('it', 'enum', ni, it[3] if x is None or x == 'skip' else add(it[3], T1)), ('tup', (it[3], x)) if x is not None and x != 'skip' else x) for s, ni, x in r]
    if k == 'map':
        r = nx(I, st, fr, it[2])
        if r is None:
            return None
        out = []
        for s, ni, x in r:
            if x is None or x == 'skip' or ni == 'panic':
                out.append((s, ni if ni == 'panic' else ('it', 'map', ni, it[3]), x))
                continue
            c = ('T', next(I.fidc))
            s = s.copy()
            s.store[c] = it[3]
            fv, _ = I.find_closure(s, ('ref', c, (), None))
            if fv is None:
                return None
            if fv[0] == 'fn':
                try:
                    outs = I.call(s, fr, fv[2].d, [x], [None], None)
                except (TypeError, AttributeError):
                    return None
            else:
                outs = I.call_closure(s, fr, fv, ('ref', c, (), None), [x])
            for kk, s2, v in outs:
                if kk != 'ret':
                    out.append((s2, 'panic', None))
                    continue
                s2 = s2.copy()
                nc = s2.store.pop(c, it[3])
                out.append((s2, ('it', 'map', ni, nc), v))
        return out
    if k == 'once':
        if it[3] == T0:
            return [(st, ('it', 'once', it[2], T1), it[2])]
        if it[3] == T1:
            return [(st, it, None)]
        key = ('more', I.canon(st, it))
        out = []
        g = I.assume(st, key, True)
        out.append((g, ('it', 'once', it[2], T1), it[2]))
        out.append((I.assume(st, key, False), it, None))
        return [o for o in out if o[0] is not None]
    if k == 'lz':
        if it[2] in ('take_while', 'map_while', 'fuse') and it[6] == T0:
            r = it_step(I, st, fr, it)
            if r is not None and all(x != 'skip' for s, ni, x in r):
                return r
        r = it_next(I, st, fr, ('it', 'opq', it[3][2], it[6]))
        return [(s, it[:6] + (ni[3],) + it[7:], x) for s, ni, x in r]
    if k in ('split', 'opq'):
        if k == 'split':
            base = ('split', I.canon(st, it[2]), it[3], it[5])
            pos = it[4]
            whole = base
            if it[5][0] == 'i' and pos[0] == 'i' and it[5][1] > 0:
                # splitn: all but the last piece are those of split, and the last piece is there when split has one more
                whole = base[:3] + (T0,)
                if pos[1] >= it[5][1]:
                    return [(st, it, None)]
                if pos[1] < it[5][1] - 1:
                    base = whole
        else:
            whole = base = it[2]
            pos = it[3]
        item = ('item', base, pos)
        out = []
        c = ('more', ('item', whole, pos))
        first_split = k == 'split' and pos == T0     # the first piece always exists (unless n == 0)
        g = st if first_split else I.assume(st, c, True)
        if g is not None:
            ni = it[:4] + (add(pos, T1),) + it[5:] if k == 'split' else it[:3] + (add(pos, T1),)
            v = item
            if k == 'split':
                # the piece is a sub-slice of the buffer
                v = item
            out.append((g, ni, v))
        if not first_split:
            b = I.assume(st, c, False)
            if b is not None:
                out.append((b, it, None))
        return out
    return None


def it_step(I, st, fr, it):
    """one step of an iterator: like it_next, but adaptors that drop items do it one at a time (item 'skip')"""
    if it[0] != 'it' or it[1] != 'lz' or it[6] != T0:
        return it_next(I, st, fr, it, it_step)
    kind, inner, clo, done = it[2], it[4], it[5], it[7]
    out = []
    if done != ('b', False):
        if done != ('b', True):
            g = I.assume(st, done, True)
            if g is not None:
                out.append((g, it, None))
            st = I.assume(st, done, False)
            if st is None:
                return out
        else:
            return [(st, it, None)]
    r = it_step(I, st, fr, inner)
    if r is None:
        return None
    for s, ni, x in r:
        me = it[:4] + (ni,) + it[5:]
        if ni == 'panic' or x is None or x == 'skip':
            out.append((s, ni if ni == 'panic' else me if x is not None or kind != 'fuse' else me[:7] + (('b', True),), x))
            continue
        if kind == 'fuse':
            out.append((s, me, x))
            continue
        if kind == 'flatten':
            outs = [('ret', s, x)]
        else:
            c, cx = ('T', next(I.fidc)), ('T', next(I.fidc))
            s = s.copy()
            s.store[c] = clo
            arg = x
            if kind in ('filter', 'take_while'):
                s.store[cx] = x
                arg = ('ref', cx, (), None)
            fv, _ = I.find_closure(s, ('ref', c, (), None))
            if fv is None or fv[0] != 'clo':
                return None
            outs = []
            for kk, s2, v in I.call_closure(s, fr, fv, ('ref', c, (), None), [arg]):
                if kk == 'ret':
                    s2 = s2.copy()
                    nc = s2.store.pop(c, clo)
                    s2.store.pop(cx, None)
                    outs.append(('ret', s2, v, nc))
                else:
                    out.append((s2, 'panic', None))
        for o in outs:
            s2, v = o[1], o[2]
            m2 = me if len(o) < 4 else me[:5] + (o[3],) + me[6:]
            if kind in ('filter', 'take_while'):
                for tv in (True, False):
                    g = I.assume(s2, v, tv)
                    if g is None:
                        continue
                    if tv:
                        out.append((g, m2, x))
                    elif kind == 'filter':
                        out.append((g, m2, 'skip'))
                    else:
                        out.append((g, m2[:7] + (('b', True),), None))
                continue
            if v[0] != 'adt':
                vs = None
                base = v
                for nm in ('Some', 'None'):
                    g = I.assume_variant_named(s2, base, nm)
                    if g is None:
                        continue
                    if nm == 'Some':
                        out.append((g, m2, ('vf', base, 'Some', '0')))
                    else:
                        out.append((g, m2, None if kind == 'map_while' else 'skip'))
                continue
            if v[3] == 'Some':
                out.append((s2, m2, v[4][0]))
            elif v[3] == 'None':
                out.append((s2, m2, None if kind == 'map_while' else 'skip'))
            else:
                return None
    return out


absint.Interp.it_step = staticmethod(it_step)


@model(('std::iter::Iterator', 'next'))
def m_next(I, st, fr, cal, a, tys, t):
    p = as_ptr1(I, a[0])
    it = I.load(st, p[1], p[2])
    while it[0] == 'ref':
        p = it
        it = I.load(st, p[1], p[2])
    if it[0] not in ('it', 'adt'):
        if cal['kind'] in ('none', 'virtual') or not (I.c.fns.get(cal.get('key')) and I.c.fns[cal['key']].local):
            it = ('it', 'opq', I.canon(st, it), T0)
        else:
            return NotImplemented
    r = it_next(I, st, fr, it)
    if r is None:
        return NotImplemented
    out = []
    for s, ni, x in r:
        if ni == 'panic':
            out.append(['panic', s, None])
            continue
        s = s.copy()
        I.store_to(s, p[1], p[2], ni, p[3] if p[3] is not None else I.deref_ty(tys[0]))
        out.append(['ret', s, none(I, fr, t) if x is None else some(I, fr, t, x)])
    return out


def agg(kind):
    def f(I, st, fr, cal, a, tys, t):
        row = I.ty(tys[0]) if tys[0] is not None else None
        it = a[0]
        p = None
        if it[0] == 'ref':
            p = it
            it = I.load(st, it[1], it[2])
        key = cal.get('key')
        ex = []
        for x in a[1:]:
            fv, _ = I.find_closure(st, x)
            if fv is not None:
                na = 2 if kind == 'fold' else 1
                ex.append(lam(I, st, fr, x, na))
            else:
                ex.append(I.canon(st, x))
        v = ('app', 'iter::' + kind, (I.canon(st, it),) + tuple(ex))
        st = st.copy()
        if p is not None and p[1][0] != 'K':
            I.store_to(st, p[1], p[2], ('it', 'opq', ('after', kind, I.canon(st, it)) + tuple(ex), T0), p[3])
        return ret(st, v)
    return f


def m_find_enum(I, st, fr, cal, a, tys, t):
    """enumerate().find(|(_, x)| p(x)): the position of the first such element, and the element"""
    p = a[0] if a[0][0] == 'ref' else None
    it = I.load(st, p[1], p[2]) if p else a[0]
    if it[0] != 'it' or it[1] != 'enum' or it[2][0] != 'it' or it[2][1] != 'slice' or it[3] != T0 or it[2][3] != T0:
        return agg('find')(I, st, fr, cal, a, tys, t)
    s0 = st.copy()
    c = ('T', next(I.fidc))
    s0.store[c] = ('tup', (('lam', 'i'), ('lam', 0)))
    pred = lam(I, s0, fr, a[1], 1, [('ref', c, (), None)])
    if pred[0] == 'k' or repr(('lam', 'i')) in repr(pred):
        return agg('find')(I, st, fr, cal, a, tys, t)
    pos = ('app', 'iter::position', (I.canon(st, it[2]), pred))
    outs = []
    for nm in ('None', 'Some'):
        g = I.assume_variant_named(st, pos, nm)
        if g is None:
            continue
        if nm == 'None':
            outs.append(['ret', g, none(I, fr, t)])
        else:
            i = ('vf', pos, 'Some', '0')
            e = elemptr(I, g, it[2][2], i)
            outs.append(['ret', g, some(I, fr, t, ('tup', (i, e)))])
    return outs


for nm in ('any', 'all', 'find', 'position', 'fold', 'count', 'last', 'nth', 'max', 'min', 'sum', 'rposition', 'find_map', 'collect', 'eq'):
    STD_MODELS[('std::iter::Iterator', nm)] = agg(nm)
STD_MODELS[('std::iter::Iterator', 'find')] = m_find_enum


@model(('std::iter::Iterator', 'for_each'), ('std::iter::Iterator', 'try_for_each'))
def m_foreach(I, st, fr, cal, a, tys, t):
    raise Undecided('for_each')


# ---------------------------------------------------------------- intrinsics
@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def m_dv(I, st, fr, cal, a, tys, t):
    p = as_ptr1(I, a[0])
    v = I.load(st, p[1], p[2])
    return ret(st, I.discr(st, v, cal['targs'][0]))


@model('std::intrinsics::likely', 'std::intrinsics::unlikely', 'core::intrinsics::likely', 'core::intrinsics::unlikely')
def m_likely(I, st, fr, cal, a, tys, t):
    return ret(st, a[0])


@model('std::intrinsics::assume', 'core::intrinsics::assume', 'std::intrinsics::cold_path', 'core::intrinsics::cold_path')
def m_unit(I, st, fr, cal, a, tys, t):
    return ret(st, UNIT)


@model('std::hint::must_use', 'std::hint::black_box', 'std::convert::identity')
def m_id(I, st, fr, cal, a, tys, t):
    return ret(st, a[0])


TAGS |= {'nz', 'lamr', 'split'}


@model('std::io::Error::raw_os_error', 'std::io::error::Error::raw_os_error')
def m_raw_os_error(I, st, fr, cal, a, tys, t):
    return ret(st, ('app', 'raw_os_error', (I.canon(st, a[0]),)))


@model('std::intrinsics::arith_offset')
def m_arith(I, st, fr, cal, a, tys, t):
    return NotImplemented


@model(('std::ops::Deref', 'deref'), ('std::ops::DerefMut', 'deref_mut'))
def m_deref(I, st, fr, cal, a, tys, t):
    """library owning pointers (Vec, String, Box, ManagedSlice): the contents, as a function of the owner's value"""
    row = I.ty(I.deref_ty(tys[0])) if tys and tys[0] is not None else None
    if row is None or row['k'] != 'adt' or not any(x in row['path'] for x in ('Managed', '::Vec', '::String', '::Box')):
        return NotImplemented
    v = I.load(st, a[0][1], a[0][2]) if a[0][0] == 'ref' else None
    if v is not None and v[0] == 'adt' and v[3] == 'Borrowed' and len(v[4]) == 1:
        return ret(st, v[4][0])
    return ret(st, ('app', 'deref', (I.canon(st, a[0]),)))


def m_owned(I, st, fr, cal, a, tys, t):
    """an owned copy of a slice or string: a function of its contents"""
    row = I.ty(I.deref_ty(tys[0])) if tys and tys[0] is not None and I.ty(tys[0])['k'] == 'ref' else None
    if row is None or row['k'] not in ('slice', 'str'):
        return NotImplemented
    return ret(st, ('app', 'owned', (I.canon(st, a[0]),)))


def m_from_slice(I, st, fr, cal, a, tys, t):
    row = I.ty(cal['targs'][0]) if cal.get('targs') else None
    if row is None or row['k'] != 'adt' or not row['path'].split('::')[-1] in ('Vec', 'Box', 'String'):
        return NotImplemented
    return m_owned(I, st, fr, cal, a, tys, t)


STD_MODELS.setdefault(('std::convert::From', 'from'), m_from_slice)
for _k in (('std::borrow::ToOwned', 'to_owned'), 'std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec',
           ('std::slice::<impl [T]>::to_vec_in::ConvertVec', 'to_vec')):
    STD_MODELS.setdefault(_k, m_owned)
