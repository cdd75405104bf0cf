"""Abstract interpreter over dumped MIR.

Domain: store of abstract locations holding value-numbering terms (origins), plus facts (variant sets and
integer ranges of terms).  Control flow joins are merged when the stores agree (the traces become `alt`
items); loops are widened to phi terms and summarised (`loop` items).  Nothing is executed: no concrete
input, no solver; decisions come from the facts domain alone.
"""
import itertools
import sys
sys.setrecursionlimit(20000)
ON_LOOP = None      # called with (interpreter, frame, head, state at the head, states at the back edges) for every loop

INF = float('inf')
UNIT = ('tup', ())
TOP = ('top',)
T0 = ('i', 0)
T1 = ('i', 1)


class Undecided(Exception):
    """analysis could not proceed (size limits, unsupported construct)"""


# ---------------------------------------------------------------- linear terms
def lin(t):
    """term -> (dict term->coef, const)"""
    if t[0] == 'i':
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=repr)), c)


def add(a, b):
    da, ca = lin(a)
    db, cb = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mklin(da, ca + cb)


def neg(a):
    d, c = lin(a)
    return mklin({k: -v for k, v in d.items()}, -c)


def sub(a, b):
    return add(a, neg(b))


def scale(a, n):
    d, c = lin(a)
    return mklin({k: v * n for k, v in d.items()}, c * n)


# ---------------------------------------------------------------- ranges
FULL = ((-INF, INF),)


def r_compl(r):
    out = []
    lo = -INF
    for a, b in r:
        if a > lo:
            out.append((lo, a - 1))
        lo = b + 1
    if lo != INF and lo <= INF and not (r and r[-1][1] == INF):
        out.append((lo, INF))
    return tuple((a, b) for a, b in out if a <= b)


def r_and(r, s):
    out = []
    for a, b in r:
        for c, d in s:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi:
                out.append((lo, hi))
    return tuple(sorted(out))


def r_or(r, s):
    iv = sorted(r + s)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def cmp_term(opn, a, b, unsigned=True):
    """comparison as membership of a canonical linear term in ranges"""
    d, c = lin(sub(a, b))
    rel = {'Eq': ((0, 0),), 'Ne': ((-INF, -1), (1, INF)), 'Lt': ((-INF, -1),), 'Le': ((-INF, 0),),
           'Gt': ((1, INF),), 'Ge': ((0, INF),)}[opn]
    if not d:
        return T1 if any(x <= c <= y for x, y in rel) else T0
    items = sorted(d.items(), key=repr)
    rel = tuple((x - c, y - c) for x, y in rel)
    if items[0][1] < 0:
        items = [(k, -v) for k, v in items]
        rel = tuple((-y, -x) for x, y in reversed(rel))
    t = mklin(dict(items), 0)
    if t[0] == 'lin' and len(t[1]) == 1:
        # k*x in rel -> x in rel/k
        k, v = t[1][0]
        if v > 0:
            import math
            rel = tuple((x if x in (-INF, INF) else math.ceil(x / v), y if y in (-INF, INF) else math.floor(y / v)) for x, y in rel)
            rel = tuple((x, y) for x, y in rel if x <= y)
            t = k
    if t[0] != 'lin' and unsigned:
        rel = r_and(rel, ((0, INF),))
        if rel == ((0, INF),):
            return T1
        if not rel:
            return T0
    return ('cmp', t, rel, unsigned and t[0] != 'lin')


def bool_not(t):
    if t[0] == 'i':
        return T0 if t[1] else T1
    if t[0] == 'cmp':
        r = r_compl(t[2])
        if t[3]:
            r = r_and(r, ((0, INF),))
        return ('cmp', t[1], r, t[3])
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def mkop(opn, a, b, unsigned=True, bits=None):
    if opn in ('Add', 'AddUnchecked'):
        return add(a, b)
    if opn in ('Sub', 'SubUnchecked'):
        return sub(a, b)
    if opn in ('Mul', 'MulUnchecked'):
        if a[0] == 'i':
            return scale(b, a[1])
        if b[0] == 'i':
            return scale(a, b[1])
    if opn in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        return cmp_term(opn, a, b, unsigned)
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        try:
            if opn == 'BitAnd':
                return ('i', x & y)
            if opn == 'BitOr':
                return ('i', x | y)
            if opn == 'BitXor':
                return ('i', x ^ y)
            if opn in ('Shl', 'ShlUnchecked'):
                v = x << y
                if bits:
                    v &= (1 << bits) - 1
                return ('i', v)
            if opn in ('Shr', 'ShrUnchecked'):
                return ('i', x >> y)
            if opn == 'Div' and y:
                return ('i', x // y)
            if opn == 'Rem' and y:
                return ('i', x % y)
        except Exception:
            pass
    if opn == 'BitAnd' and (a == T0 or b == T0):
        return T0
    if opn in ('BitOr', 'BitXor'):
        if a == T0:
            return b
        if b == T0:
            return a
    if opn in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked') and b == T0:
        return a
    if opn == 'Div' and b == T1:
        return a
    if opn in ('BitAnd', 'BitOr', 'BitXor', 'Mul') and repr(a) > repr(b):
        a, b = b, a
    return ('op', opn, a, b)


class State:
    __slots__ = ('store', 'facts', 'trace', 'cnt', 'fault')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.trace = ()
        self.cnt = {}
        self.fault = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.cnt = dict(self.cnt)
        s.fault = self.fault
        return s

    def emit(self, item):
        self.trace = self.trace + (item,)


def has_event(trace):
    for it in trace:
        if it[0] in ('e', 't', 'w', 'e!', 't!'):
            return True
        if it[0] == 'loop' and any(has_event(b) for b in it[1]):
            return True
        if it[0] == 'alt' and any(has_event(b) for b in it[1]):
            return True
    return False


EMPTY = State()


class Frame:
    __slots__ = ('fn', 'fid', 'depth')

    def __init__(self, fn, fid, depth):
        self.fn = fn
        self.fid = fid
        self.depth = depth


class Interp:
    def __init__(self, crate, events=None, tokens=None, atoms=None, models=None, fault=False, max_states=400000,
                 opaque_fns=None, merge=True):
        self.c = crate
        self.T = crate.types
        self.fidc = itertools.count()
        self.phic = itertools.count()
        self.phi = {}
        self.events = events or (lambda cal: None)
        self.tokens = tokens or (lambda cal: None)
        self.atoms = atoms or (lambda cal: None)
        self.models = models or {}
        self.ctor_tys = {}
        self.fault = fault
        self.max_states = max_states
        self.nstates = 0
        self.oblig = {}
        self.visited = set()       # (fn key, block)
        self.on_loop = ON_LOOP
        self.opaque_used = {}
        self.merge = merge
        self.stack = []
        self.track_next = fault
        self.allv = {}
        self.tyidx = {r['s']: i for i, r in enumerate(self.T) if r}
        self.adts = {r['path']: r for r in self.T if r and r['k'] == 'adt'}
        self.call_sites = 0
        self.locs = {}             # effect / token name -> source locations of its call sites

    # ------------------------------------------------------------ types
    def ty(self, i):
        if isinstance(i, str):
            return self.adts.get(i)
        return self.T[i] if i is not None else None

    def deref_ty(self, i):
        r = self.ty(i)
        if r and r['k'] in ('ref', 'ptr'):
            return r['e']
        return None

    def fields_of(self, tyid, vi):
        r = self.ty(tyid)
        if not r:
            return None
        if r['k'] == 'adt':
            if vi < len(r['variants']):
                return [(f[0], f[1]) for f in r['variants'][vi]['fields']]
        if r['k'] == 'tuple':
            return [(str(i), t) for i, t in enumerate(r['es'])]
        if r['k'] == 'closure':
            return [(str(i), t) for i, t in enumerate(r['up'])]
        return None

    def unit(self, tyid):
        r = self.ty(tyid)
        if r and r['k'] == 'adt' and len(r['variants']) == 1 and not r['variants'][0]['fields'] and r.get('kind', 'struct') != 'union':
            return self.mkadt(tyid, 0, [])
        return None

    def vname(self, tyid, vi):
        r = self.ty(tyid)
        if r and r['k'] == 'adt' and vi < len(r['variants']):
            return r['variants'][vi]['name']
        return str(vi)

    def mkadt(self, tyid, vi, fields):
        r = self.ty(tyid)
        if r and r['k'] == 'tuple':
            return ('tup', tuple(fields))
        return ('adt', r['path'] if r and r['k'] == 'adt' else '?', vi, self.vname(tyid, vi), tuple(fields))

    # ------------------------------------------------------------ memory
    def load_cell(self, st, cell):
        if cell in st.store:
            return st.store[cell]
        if cell[0] == 'H':
            return ('deref', cell[1])
        if cell[0] == 'K':
            return cell[1]
        if cell[0] == 'P':
            return self.promoted(cell[1], cell[2])
        return ('undef', cell)

    def load(self, st, cell, proj, facts=True):
        v = self.load_cell(st, cell)
        vi = None
        for i, e in enumerate(proj):
            v = self.proj1(v, e)
        return v

    def proj1(self, v, e):
        k = e[0]
        if k == 'v':
            if v[0] == 'adt':
                if v[2] == e[1]:
                    return v
                return ('bad',)
            return ('as', v, e[2])
        if k == 'f':
            if v[0] == 'adt':
                return v[4][e[1]] if e[1] < len(v[4]) else ('bad',)
            if v[0] == 'tup':
                return v[1][e[1]] if e[1] < len(v[1]) else ('bad',)
            if v[0] == 'clo':
                return v[2][e[1]]
            u = self.unit(e[3]) if len(e) > 3 and e[3] is not None else None
            if u is not None:
                return u            # a type with a single value
            if v[0] == 'as':
                return ('vf', v[1], v[2], e[2])
            return ('fld', v, e[2])
        if k == 'ix':
            i = e[1]
            if v[0] == 'arr' and i[0] == 'i' and 0 <= i[1] < len(v[1]):
                return v[1][i[1]]
            if v[0] == 'b' and i[0] == 'i' and 0 <= i[1] < len(v[1]):
                return ('i', v[1][i[1]])
            if v[0] == 'rep':
                return v[1]
            if v[0] == 'slice':
                return self.proj1(v[1], ('ix', add(v[2], i)))
            if v[0] == 'upd':
                if v[2] == i:
                    return v[3]
                d = sub(v[2], i)
                if d[0] == 'i':
                    return self.proj1(v[1], e)
            return ('at', v, i)
        if k == 'sl':
            return self.mkslice(v, e[1], e[2])
        raise Undecided('proj ' + str(k))

    def mkslice(self, v, s, l):
        if s == T0 and self.len_of_content(v) == l:
            return v
        if v[0] == 'b' and s[0] == 'i' and l[0] == 'i':
            return ('b', v[1][s[1]:s[1] + l[1]])
        if v[0] == 'arr' and s[0] == 'i' and l[0] == 'i':
            return ('arr', v[1][s[1]:s[1] + l[1]])
        if v[0] == 'slice':
            return self.mkslice(v[1], add(v[2], s), l)
        if v[0] == 'rep':
            return ('rep', v[1], l)
        return ('slice', v, s, l)

    def len_of_content(self, v):
        if v[0] == 'b':
            return ('i', len(v[1]))
        if v[0] == 'arr':
            return ('i', len(v[1]))
        if v[0] == 'rep':
            return v[2]
        if v[0] == 'slice':
            return v[3]
        if v[0] in ('upd', 'upds'):
            return self.len_of_content(v[1])
        if v[0] == 'mut':
            return self.len_of_content(v[-1])
        if v[0] == 'deref':
            return ('len', v[1])
        return ('len', v)

    def store_to(self, st, cell, proj, val, tyid):
        """tyid: type of the cell's content"""
        if not proj:
            st.store[cell] = val
            return
        base = self.load_cell(st, cell)
        st.store[cell] = self.upd(base, proj, val, tyid)

    def upd(self, base, proj, val, tyid):
        if not proj:
            return val
        e = proj[0]
        k = e[0]
        if k == 'v':
            if base[0] == 'adt' and base[2] == e[1]:
                if len(proj) == 1:
                    return val
                return self.upd_f(base, proj[1:], val, tyid, e[1], e[2])
            return self.upd_f(base, proj[1:], val, tyid, e[1], e[2])
        if k == 'f':
            return self.upd_f(base, proj, val, tyid, 0, None)
        if k == 'ix':
            i = e[1]
            et = None
            r = self.ty(tyid)
            if r and r['k'] in ('array', 'slice'):
                et = r['e']
            if base[0] == 'rep' and base[2][0] == 'i' and base[2][1] <= 64 and i[0] == 'i':
                base = ('arr', (base[1],) * base[2][1])
            if base[0] == 'arr' and i[0] == 'i' and 0 <= i[1] < len(base[1]):
                fs = list(base[1])
                fs[i[1]] = self.upd(fs[i[1]], proj[1:], val, et)
                return ('arr', tuple(fs))
            old = self.proj1(base, e)
            nv = self.upd(old, proj[1:], val, et)
            if base[0] == 'upd' and base[2] == i:
                base = base[1]
            return ('upd', base, i, nv)
        if k == 'sl':
            if len(proj) == 1:
                if e[1] == T0 and self.len_of_content(base) == e[2]:
                    return val
                return ('upds', base, e[1], e[2], val)
            raise Undecided('store through slice')
        raise Undecided('upd ' + str(k))

    def upd_f(self, base, proj, val, tyid, vi, vn):
        e = proj[0]
        if e[0] != 'f':
            raise Undecided('upd_f')
        fl = self.fields_of(tyid, vi)
        if base[0] == 'clo':
            fs = list(base[2])
            ft = fl[e[1]][1] if fl and e[1] < len(fl) else e[3]
            fs[e[1]] = self.upd(fs[e[1]], proj[1:], val, ft)
            return ('clo', base[1], tuple(fs))
        if fl is None:
            # opaque composite: functional update by name
            old = self.proj1(base, e)
            return ('updf', base, e[2], self.upd(old, proj[1:], val, e[3]))
        r = self.ty(tyid)
        if base[0] in ('adt', 'tup') and not (base[0] == 'adt' and base[2] != vi):
            fs = list(base[4] if base[0] == 'adt' else base[1])
            while len(fs) < len(fl):
                fs.append(('undef', 0))
        else:
            fs = [self.proj1(('as', base, vn) if vn is not None else base, ('f', i, n, t)) for i, (n, t) in enumerate(fl)]
        ft = fl[e[1]][1]
        fs[e[1]] = self.upd(fs[e[1]], proj[1:], val, ft)
        if r['k'] == 'adt':
            return self.mkadt(tyid, vi, fs)
        return ('tup', tuple(fs))

    # ------------------------------------------------------------ places
    def cell(self, fr, l):
        return ('L', fr.fid, l)

    def place(self, st, fr, p):
        """-> (cell, proj, content type of the cell, type of the place)"""
        cell = self.cell(fr, p[0])
        proj = ()
        rty = fr.fn.locals[p[0]][0]
        ty = rty
        vi = None
        for e in p[1:]:
            if e == '*':
                v = self.load(st, cell, proj)
                nt = self.deref_ty(ty)
                if v[0] == 'ref':
                    cell, proj = v[1], v[2]
                    rty = v[3] if len(v) > 3 else nt
                else:
                    cell, proj = ('H', v), ()
                    rty = nt
                ty = nt
                vi = None
                continue
            k = e[0]
            if k == 'v':
                proj = proj + (('v', e[1], self.vname(ty, e[1])),)
                vi = e[1]
            elif k == 'f':
                fl = self.fields_of(ty, vi or 0)
                name = fl[e[1]][0] if fl and e[1] < len(fl) else str(e[1])
                proj = proj + (('f', e[1], name, e[2]),)
                ty = e[2]
                vi = None
            elif k == 'i':
                i = self.load(st, self.cell(fr, e[1]), ())
                proj = self.pidx(st, cell, proj, i)
                ty = self.elem_ty(ty)
            elif k == 'ci':
                off = ('i', e[1])
                if e[3]:
                    off = sub(self.ptr_len(st, cell, proj, ty), off)
                proj = self.pidx(st, cell, proj, off)
                ty = self.elem_ty(ty)
            elif k == 'sub':
                n = self.ptr_len(st, cell, proj, ty)
                s = ('i', e[1])
                ln = sub(sub(n, ('i', e[2])), s) if e[3] else sub(('i', e[2]), s)
                proj = self.psub(proj, s, ln)
            else:
                raise Undecided('place ' + str(e))
        return cell, proj, rty, ty

    def elem_ty(self, ty):
        r = self.ty(ty)
        return r['e'] if r and r['k'] in ('array', 'slice') else None

    def pidx(self, st, cell, proj, i):
        if proj and proj[-1][0] == 'sl':
            s = proj[-1]
            return proj[:-1] + (('ix', add(s[1], i)),)
        return proj + (('ix', i),)

    def psub(self, proj, s, ln):
        if proj and proj[-1][0] == 'sl':
            o = proj[-1]
            return proj[:-1] + (('sl', add(o[1], s), ln),)
        return proj + (('sl', s, ln),)

    def ptr_len(self, st, cell, proj, ty=None):
        if proj and proj[-1][0] == 'sl':
            return proj[-1][2]
        r = self.ty(ty)
        if r and r['k'] == 'array' and r['n'] is not None:
            return ('i', r['n'])
        if not proj and cell[0] == 'H' :
            v = st.store.get(cell)
            return ('len', cell[1])
        v = self.load(st, cell, proj)
        return self.len_of_content(v)

    # ------------------------------------------------------------ values
    def const(self, fr, k):
        ty = k['ty']
        r = self.T[ty]
        if 'int' in k:
            return ('i', k['int'])
        if 'bytes' in k:
            return ('ref', ('K', ('b', bytes.fromhex(k['bytes']))), (), None)
        if 'refto' in k:
            v = self.const(fr, k['refto'])
            return ('ref', ('K', v), (), k['refto']['ty'])
        if 'elems' in k:
            es = tuple(self.const(fr, x) for x in k['elems'])
            if es and all(x[0] == 'i' for x in es) and r['k'] in ('array', 'slice') and self.T[r['e']]['s'] == 'u8':
                return ('b', bytes(x[1] for x in es))
            return ('arr', es)
        if 'variant' in k:
            return self.mkadt(ty, k['variant'], [self.const(fr, x) for x in k['fields']])
        if 'fields' in k:
            fs = tuple(self.const(fr, x) for x in k['fields'])
            if r['k'] == 'tuple':
                return ('tup', fs)
            return self.mkadt(ty, 0, fs)
        if 'fn' in k:
            return ('fn', k['fn']['path'], FnConst(k['fn']))
        if 'promoted' in k:
            p = ('P', fr.fn.key, k['promoted'])
            return ('ref', p, (), None) if False else self.promoted_ref(fr, k['promoted'])
        if r['k'] == 'tuple' and not r['es']:
            return UNIT
        if r['k'] == 'closure':
            key = [f for f in self.c.fns if f.startswith(r['path'] + '<')]
            if key:
                return ('clo', key[0], ())
        if r['k'] == 'adt' and len(r['variants']) == 1 and not r['variants'][0]['fields']:
            return self.mkadt(ty, 0, ())
        if 'const' in k:
            return ('app', 'const', (k['const'],))
        return ('k', str(sorted(k.items())), r['s'])

    def promoted_ref(self, fr, idx):
        v = self.promoted(fr.fn.key, idx)
        return v

    def promoted(self, key, idx):
        ck = (key, idx)
        if not hasattr(self, '_prom'):
            self._prom = {}
        if ck in self._prom:
            return self._prom[ck]
        from mir import Fn
        f = self.c.fns[key]
        pf = Fn(dict(f.promoted[idx], key='%s@promoted%d' % (key, idx), path=f.path))
        st = State()
        outs = self.run_fn(pf, [], st, 0, keep=True)
        if len(outs) == 1 and outs[0][0] == 'ret':
            v = outs[0][2]
            # promoted bodies return a reference to a local of theirs: move the content to a constant cell
            v = self.reify(outs[0][1], v)
        else:
            v = ('k', 'promoted', key, idx)
        self._prom[ck] = v
        return v

    def reify(self, st, v):
        if v[0] == 'ref':
            c = self.reify(st, self.load(st, v[1], v[2]))
            return ('ref', ('K', c), (), v[3] if len(v) > 3 else None)
        if v[0] == 'adt':
            return v[:4] + (tuple(self.reify(st, x) for x in v[4]),)
        if v[0] in ('tup', 'arr'):
            return (v[0], tuple(self.reify(st, x) for x in v[1]))
        return v

    def operand(self, st, fr, o):
        if 'c' in o or 'm' in o:
            cell, proj, _, ty = self.place(st, fr, o.get('c') or o.get('m'))
            v = self.load(st, cell, proj)
            return self.norm(st, v)
        if 'k' in o:
            return self.const(fr, o['k'])
        if 'rt' in o:
            return T0
        raise Undecided('operand')

    def norm(self, st, v):
        """replace a symbolic enum/int whose value is fully determined by facts"""
        f = st.facts.get(v)
        if f and f[0] == 'R' and len(f[1]) == 1 and f[1][0][0] == f[1][0][1]:
            return ('i', f[1][0][0])
        return v

    def op_ty(self, fr, o):
        if 'k' in o:
            return o['k']['ty']
        p = o.get('c') or o.get('m')
        if p is None:
            return None
        ty = fr.fn.locals[p[0]][0]
        vi = None
        for e in p[1:]:
            if e == '*':
                ty = self.deref_ty(ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.elem_ty(ty)
        return ty

    def is_unsigned(self, ty):
        r = self.ty(ty)
        return not r or r['k'] != 'int'

    def is_intlike(self, ty):
        r = self.ty(ty)
        return r and r['k'] in ('int', 'uint', 'bool', 'char')

    # ------------------------------------------------------------ facts
    def range_of(self, st, t):
        """over-approximate range of a term"""
        if t[0] == 'i':
            return ((t[1], t[1]),)
        f = st.facts.get(t)
        r = f[1] if f and f[0] == 'R' else FULL
        if t[0] == 'lin':
            lo = hi = t[2]
            for k, v in t[1]:
                kr = self.range_of(st, k)
                if not kr:
                    continue
                a, b = kr[0][0], kr[-1][1]
                if v < 0:
                    a, b = b, a
                lo = lo + a * v if lo != -INF and abs(a) != INF else -INF
                hi = hi + b * v if hi != INF and abs(b) != INF else INF
            r = r_and(r, ((lo, hi),))
            # facts about the same linear part with another constant
            base = mklin(dict(t[1]), 0)
            if base != t:
                f2 = st.facts.get(base)
                if f2 and f2[0] == 'R':
                    r = r_and(r, tuple((a + t[2], b + t[2]) for a, b in f2[1]))
            for k, v in t[1]:
                if k[0] == 'min':
                    for x in k[1:]:
                        d = dict(t[1])
                        d.pop(k)
                        alt = add(mklin(d, t[2]), scale(x, v))
                        ar = self.range_of(st, alt)
                        if ar:
                            if v > 0:
                                r = r_and(r, ((-INF, ar[-1][1]),))
                            else:
                                r = r_and(r, ((ar[0][0], INF),))
            return r
        if t[0] == 'min':
            ub = min(self.range_of(st, x)[-1][1] for x in t[1:])
            lb = min(self.range_of(st, x)[0][0] for x in t[1:])
            return r_and(r, ((lb, ub),))
        if t[0] in ('len', 'at', 'cast'):
            hi = INF
            if t[0] == 'cast' and t[1] in ('u8', 'u16', 'u32', 'u64'):
                hi = (1 << int(t[1][1:])) - 1
            r = r_and(r, ((0, hi),))
        elif t[0] == 'op' and t[1] == 'BitAnd':
            for x in t[2:]:
                if x[0] == 'i':
                    if x[1] > 0 and x[1] & (x[1] - 1) == 0:
                        r = r_and(r, ((0, 0), (x[1], x[1])))
                    else:
                        r = r_and(r, ((0, x[1]),))
        elif t[0] == 'op' and t[1] == 'Rem' and t[3][0] == 'i':
            r = r_and(r, ((0, t[3][1] - 1),))
        elif t[0] == 'op' and t[1] in ('Div', 'Shr'):
            a = self.range_of(st, t[2])
            if t[3][0] == 'i' and a:
                q = t[3][1] if t[1] == 'Div' else 1 << t[3][1]
                hi = a[-1][1] // q if a[-1][1] != INF else INF
                r = r_and(r, ((0, hi),))
        return r

    def truth(self, st, t):
        """True/False/None"""
        if t[0] == 'i':
            return bool(t[1])
        if t[0] == 'not':
            x = self.truth(st, t[1])
            return None if x is None else not x
        if t[0] == 'cmp':
            r = self.range_of(st, t[1])
            if t[3]:
                r = r_and(r, ((0, INF),))
            x = r_and(r, t[2])
            if not x:
                return False
            if x == r:
                return True
            # sign-flipped knowledge
            return None
        if t[0] == 'isv':
            f = st.facts.get(t[1])
            if f and f[0] == 'V':
                if f[1] == frozenset([t[2]]):
                    return True
                if t[2] not in f[1]:
                    return False
            return None
        f = st.facts.get(t)
        if f and f[0] == 'B':
            return f[1]
        if f and f[0] == 'R':
            if f[1] == ((0, 0),):
                return False
            if not r_and(f[1], ((0, 0),)):
                return True
        return None

    def assume(self, st, t, val):
        """refined copy of st or None; records the condition"""
        cur = self.truth(st, t)
        if cur is not None:
            return st if cur == val else None
        if t[0] == 'isv' and self.ty(t[3]) and self.ty(t[3])['k'] == 'adt':
            allv = self.variants_of(t[3])
            return self.assume_variant(st, t[1], t[3], [t[2]] if val else [x for x in allv if x != t[2]])
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        s = st.copy()
        if t[0] == 'cmp':
            r = t[2] if val else bool_not(t)[2]
            have = self.range_of(s, t[1])
            if t[3]:
                have = r_and(have, ((0, INF),))
            nr = r_and(have, r)
            if not nr:
                return None
            s.facts[t[1]] = ('R', nr)
            s.emit(('c', t[1], nr if len(have) == 1 and have[0][0] in (0, -INF) and have[0][1] == INF else nr))
            return s
        s.facts[t] = ('B', val)
        s.emit(('c', t, val))
        return s

    def variants_of(self, tyid):
        r = self.ty(tyid)
        if r and r['k'] == 'adt':
            return [v['name'] for v in r['variants']]
        return None

    def assume_variant_named(self, st, base, name, allv=('None', 'Some')):
        return self.assume_variant(st, base, None, [name], allv=allv)

    def assume_variant(self, st, base, tyid, names, record=True, allv=None):
        allv = allv or self.variants_of(tyid)
        f = st.facts.get(base)
        have = f[1] if f and f[0] == 'V' else (frozenset(allv) if allv else None)
        ns = frozenset(names)
        if have is not None:
            nn = have & ns
            if not nn:
                return None
            if nn == have:
                return st
        else:
            nn = ns
        s = st.copy()
        if allv:
            self.allv[base] = frozenset(allv)
        s.facts[base] = ('V', nn)
        if record:
            s.emit(('c', base, nn))
        return s

    def split_variants(self, st, v, tyid):
        """-> list of (state, variant name, vi) for an enum value"""
        if v[0] == 'adt':
            return [(st, v[3], v[2])]
        out = []
        r = self.ty(tyid)
        if not r or r['k'] != 'adt':
            raise Undecided('split on non adt')
        for vi, va in enumerate(r['variants']):
            s = self.assume_variant(st, v, tyid, [va['name']])
            if s is not None:
                out.append((s, va['name'], vi))
        return out

    # ------------------------------------------------------------ canonical view of values (for events)
    def canon(self, st, v, depth=0):
        if depth > 40:
            return TOP
        k = v[0]
        if k == 'ref':
            return self.canon(st, self.load(st, v[1], v[2]), depth + 1)
        if k == 'deref':
            return self.canon(st, v[1], depth + 1) if v[1][0] == 'ref' else ('in', self.canon2(st, v[1], depth + 1))
        if k == 'in':
            return v
        if k == 'len' and v[1][0] not in ('ref', 'deref'):
            return ('len', self.canon2(st, v[1], depth + 1))
        if ('H', v) in st.store:
            return self.canon(st, st.store[('H', v)], depth + 1)
        return self.canon2(st, v, depth)

    def canon2(self, st, v, depth):
        k = v[0]
        if k == 'adt':
            if not isinstance(v[2], int):
                return v            # already canonical
            if v[1].startswith(('std::vec::', 'alloc::', 'std::string::')):
                return ('adt', v[1], v[3], ())
            return ('adt', v[1], v[3], tuple(self.canon(st, x, depth + 1) for x in v[4]))
        if k in ('tup', 'arr'):
            return (k, tuple(self.canon(st, x, depth + 1) for x in v[1]))
        if k == 'clo':
            return ('clo', clo_name(v[1]))
        if k == 'it' and len(v) > 3 and v[1] == 'map' and v[3][0] in ('clo', 'fn', 'ref'):
            return ('it', 'map', self.canon(st, v[2], depth + 1), self.lam(self, st, v[3]))
        if k == 'it' and v[1] == 'lz':
            return self.canon(st, v[3], depth + 1)
        if k == 'fn':
            return ('fn', v[1])
        if k == 'i' or k == 'b' or k == 'top' or k == 'phi':
            return self.norm(st, v) if k == 'phi' else v
        nv = self.norm(st, v)
        if nv is not v:
            return nv
        return tuple(self.canon(st, x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS else
                     (self.canon_seq(st, x, depth) if isinstance(x, tuple) else x) for x in v)

    def canon_seq(self, st, x, depth):
        return tuple(self.canon(st, y, depth + 1) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in TAGS else
                     (self.canon_seq(st, y, depth) if isinstance(y, tuple) else y) for y in x)

    # ------------------------------------------------------------ execution
    def run_fn(self, fn, args, st, depth, keep=False):
        """-> list of (kind, state, value)"""
        if depth > 60:
            raise Undecided('call depth at ' + str(fn.key))
        if fn.key in self.stack and self.stack.count(fn.key) > 2:
            raise Undecided('recursion ' + fn.key)
        fn.cfg()
        fn.live()
        fr = Frame(fn, next(self.fidc), depth)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[('L', fr.fid, i + 1)] = a
        self.stack.append(fn.key)
        try:
            res = self.region(fr, 0, [st], None, None)
        finally:
            self.stack.pop()
        out = []
        for s in res['rets']:
            v = s.store.get(('L', fr.fid, 0), UNIT)
            v = self.norm(s, v)
            s = s.copy()
            if not keep:
                for c in [c for c in s.store if c[0] == 'L' and c[1] == fr.fid]:
                    del s.store[c]
            out.append(['ret', s, v])
        # merge returns with equal value and store
        if self.merge and len(out) > 1:
            groups = []
            for o in out:
                for g in groups:
                    if g[0][2] == o[2] and g[0][1].store == o[1].store and g[0][1].fault == o[1].fault:
                        g.append(o)
                        break
                else:
                    groups.append([o])
            out = [['ret', self.merge_states([x[1] for x in g]), g[0][2]] for g in groups]
        for s in res['panics']:
            out.append(['panic', s, None])
        return out

    def merge_states(self, ss):
        if len(ss) == 1:
            return ss[0]
        m = State()
        m.store = ss[0].store
        m.fault = ss[0].fault
        m.cnt = {}
        for s in ss:
            for k, n in s.cnt.items():
                m.cnt[k] = max(m.cnt.get(k, 0), n)
        facts = {}
        for k, v in ss[0].facts.items():
            ok = True
            cur = v
            for s in ss[1:]:
                o = s.facts.get(k)
                if o is None or o[0] != cur[0]:
                    ok = False
                    break
                if o == cur:
                    continue
                if cur[0] == 'V':
                    cur = ('V', cur[1] | o[1])
                elif cur[0] == 'R':
                    cur = ('R', r_or(cur[1], o[1]))
                else:
                    ok = False
                    break
            if ok:
                facts[k] = cur
        m.facts = facts
        ts = [s.trace for s in ss]
        n = 0
        while all(len(t) > n for t in ts) and all(t[n] == ts[0][n] for t in ts):
            n += 1
        sufs = [t[n:] for t in ts]
        # common tail
        tail = ()
        while all(sufs) and all(x[-1] == sufs[0][-1] for x in sufs):
            if sufs[0][-1][0] == 'c' :
                break
            tail = (sufs[0][-1],) + tail
            sufs = [x[:-1] for x in sufs]
        pre = ts[0][:n]
        sufs = list(dict.fromkeys(sufs))
        if all(it[0] == 'c' for x in sufs for it in x):
            cubes = self.simplify(pre, sufs)
            if len(cubes) == 1:
                mid = tuple(('c', k, v) for k, v in cubes[0])
            else:
                mid = (('alt', frozenset(tuple(('c', k, v) for k, v in c) for c in cubes)),)
            m.trace = pre + mid + tail
        else:
            m.trace = pre + (('alt', frozenset(sufs)),) + tail
        return m

    def full_constraint(self, t, v, pre):
        if isinstance(v, bool):
            return False
        if isinstance(v, frozenset):
            have = self.allv.get(t)
        else:
            have = self.range_of(EMPTY, t)
            if have in (FULL, ((0, INF),)):
                if v in (FULL, ((0, INF),)):
                    return True
        for it in pre:
            if it[0] == 'c' and it[1] == t:
                have = it[2]
        return have == v

    def simplify(self, pre, sufs):
        """disjunction of conjunctions of branch conditions, merged where two differ in one term only"""
        cubes = []
        for x in sufs:
            d = {}
            for it in x:
                d[it[1]] = it[2]
            cubes.append(d)
        changed = True
        while changed:
            changed = False
            for i in range(len(cubes)):
                for j in range(i + 1, len(cubes)):
                    a, b = cubes[i], cubes[j]
                    m = None
                    if a == b:
                        m = a
                    elif all(k in b and b[k] == v for k, v in a.items()):
                        m = a           # b implies a
                    elif all(k in a and a[k] == v for k, v in b.items()):
                        m = b
                    elif a.keys() == b.keys():
                        diff = [k for k in a if a[k] != b[k]]
                        if len(diff) == 1:
                            k = diff[0]
                            va, vb = a[k], b[k]
                            if isinstance(va, bool):
                                m = {x: y for x, y in a.items() if x != k}
                            elif isinstance(va, frozenset):
                                m = dict(a)
                                m[k] = va | vb
                            else:
                                m = dict(a)
                                m[k] = r_or(va, vb)
                            if k in m and self.full_constraint(k, m[k], pre):
                                del m[k]
                    if m is not None:
                        cubes[i] = m
                        del cubes[j]
                        changed = True
                        break
                if changed:
                    break
        out = []
        for c in cubes:
            out.append(tuple(sorted(c.items(), key=lambda kv: repr(kv[0]))))
        return out

    def prune(self, fr, b, s):
        live = fr.fn.live()[b]
        taken = fr.fn.taken
        dead = [c for c in s.store if c[0] == 'L' and c[1] == fr.fid and c[2] not in live and c[2] not in taken]
        if dead:
            s = s.copy()
            for c in dead:
                del s.store[c]
        return s

    def merge_at(self, fr, b, states):
        states = [self.prune(fr, b, s) for s in states]
        if not self.merge or len(states) == 1:
            return states
        if len(states) < 8:
            groups = []
            for s in states:
                for g in groups:
                    if g[0].fault == s.fault and g[0].store == s.store:
                        g.append(s)
                        break
                else:
                    groups.append([s])
        else:
            groups = {}
            for s in states:
                groups.setdefault((s.fault, frozenset(s.store.items())), []).append(s)
            groups = list(groups.values())
        return [self.merge_states(g) for g in groups]

    def region(self, fr, start, states, body, head):
        """worklist over blocks in RPO; body: allowed blocks (loop body) or None; head: loop head whose
        revisits are back edges"""
        fn = fr.fn
        work = {start: list(states)}
        res = {'rets': [], 'panics': [], 'backs': [], 'exits': []}
        first = True
        while work:
            b = min(work, key=lambda x: fn.rpo[x])
            sts = self.merge_at(fr, b, work.pop(b))
            for s in sts:
                self.nstates += 1
                if self.nstates > self.max_states:
                    raise Undecided('state limit')
                if b in fn.loops and not (b == head):
                    outs = self.loop(fr, b, s, res)
                else:
                    outs = self.block(fr, b, s, res)
                for (nb, ns) in outs:
                    if head is not None and nb == head:
                        res['backs'].append(ns)
                    elif body is not None and nb not in body:
                        res['exits'].append((nb, ns))
                    else:
                        if fn.rpo[nb] <= fn.rpo[b] and nb not in fn.loops:
                            raise Undecided('irreducible')
                        work.setdefault(nb, []).append(ns)
        return res

    def unrolled(self, fr, h, s, body):
        """a loop over an iterator with one element: its rounds one after the other, or None when it does not end by itself"""
        if not any(v[0] != 'phi' and has_once(v) for c, v in s.store.items()):
            return None
        acc = {'rets': [], 'panics': [], 'exits': []}
        todo = [s]
        for i in range(3):
            r = self.region(fr, h, todo, body, h)
            for k in acc:
                acc[k] += r[k]
            todo = r['backs']
            if not todo:
                return acc
            if len(todo) > 200:
                return None
        return None

    def loop(self, fr, h, s, res):
        body = fr.fn.loops[h]
        r = self.unrolled(fr, h, s, body)
        if r is not None:
            res['rets'] += r['rets']
            res['panics'] += r['panics']
            return r['exits']

        def once(g):
            return self.region(fr, h, [g], body, h)
        g, r = self.fixpoint(s, once, lambda r: r['backs'], '%s:%d' % (fr.fn.key, h))
        pre = s.trace
        n = len(g.trace)
        backs = r['backs']
        nexts = self.finish_phis(g, backs)
        if self.on_loop:
            self.on_loop(self, fr, h, g, backs)
        bodies = self.bodies(backs, n)
        item = ('loop', bodies, tuple(nexts))
        keep = any(has_event(b) for b in bodies)

        def fix(x):
            x = x.copy()
            x.trace = pre + ((item,) if keep else ()) + x.trace[n:]
            for b in backs:
                for k, c in b.cnt.items():
                    x.cnt[k] = max(x.cnt.get(k, 0), c)
            return x
        for x in r['rets']:
            res['rets'].append(fix(x))
        for x in r['panics']:
            res['panics'].append(fix(x))
        return [(b, fix(x)) for b, x in r['exits']]

    def bodies(self, backs, n):
        if not self.track_next:
            return frozenset(b.trace[n:] for b in backs)
        return frozenset(b.trace[n:] + (('next', tuple(x)),) for b, x in zip(backs, self.per_back))

    def finish_phis(self, g, backs):
        n0 = len(g.trace)
        mine = self.last_phis
        out = []
        per = self.per_back = [[] for _ in backs]
        for cell, v in g.store.items():
            for path, leaf in leaves(v):
                if leaf[0] == 'phi' and leaf in mine and self.phi[leaf[1]]['open']:
                    nx = set()
                    for i, b in enumerate(backs):
                        bv = b.store.get(cell, ('undef', cell))
                        for e in path:
                            bv = pick(bv, e)
                        bv = self.canon(b, bv)
                        nx.add(bv)
                        per[i].append((leaf, bv))
                    p = self.phi[leaf[1]]
                    p['next'] = frozenset(nx)
                    p['map'] = [(b.trace[n0:], [x for l, x in per[i] if l == leaf][-1]) for i, b in enumerate(backs)]
                    out.append(leaf)
        for l in out:
            self.phi[l[1]]['open'] = False
        return out

    def fixpoint(self, s, once, backs_of, name):
        g = s
        marks = {}
        for it in range(12):
            g2 = g.copy()
            snap_st = self.nstates
            r = once(g2)
            backs = backs_of(r)
            new = dict(g.store)
            changed = False
            facts = dict(g.facts)
            for b in backs:
                for cell, v in g.store.items():
                    bv = b.store.get(cell)
                    if bv is None:
                        bv = ('undef', cell)
                    cur = new[cell]
                    if bv != cur:
                        nv = self.widen(cur, bv, cell, (), marks, s)
                        if nv != cur:
                            new[cell] = nv
                            changed = True
                # new heap cells appearing in the loop
                for cell, v in b.store.items():
                    if cell not in g.store and cell[0] == 'H':
                        init = self.load_cell(g, cell)
                        cur = new.get(cell, init)
                        if v != cur:
                            nv = self.widen(cur, v, cell, (), marks, s)
                            new[cell] = nv
                            changed = True
                for k in list(facts):
                    o = b.facts.get(k)
                    if o != facts[k]:
                        if o is None:
                            # facts only disappear by merging: keep conservative
                            del facts[k]
                        elif o[0] == 'R' and facts[k][0] == 'R' or o[0] == 'V' and facts[k][0] == 'V':
                            pass  # refined inside the loop body on a term that is constant: still holds
                        else:
                            del facts[k]
            if not changed:
                self.last_phis = set(marks.values())
                return g, r
            g = g.copy()
            g.store = new
            g.facts = facts
        raise Undecided('loop fixpoint ' + name)

    def widen(self, cur, nv, cell, path, marks, s0):
        if cur == nv:
            return cur
        if cur[0] == 'phi' and (cell, path) in marks and marks[(cell, path)] == cur:
            return cur
        if cur[0] == nv[0] == 'adt' and cur[1:4] == nv[1:4] and len(cur[4]) == len(nv[4]):
            return cur[:4] + (tuple(self.widen(a, b, cell, path + (i,), marks, s0) for i, (a, b) in enumerate(zip(cur[4], nv[4]))),)
        if cur[0] == nv[0] and cur[0] in ('tup', 'arr') and len(cur[1]) == len(nv[1]):
            return (cur[0], tuple(self.widen(a, b, cell, path + (i,), marks, s0) for i, (a, b) in enumerate(zip(cur[1], nv[1]))))
        if cur[0] == nv[0] == 'clo' and cur[1] == nv[1]:
            return ('clo', cur[1], tuple(self.widen(a, b, cell, path + (i,), marks, s0) for i, (a, b) in enumerate(zip(cur[2], nv[2]))))
        if cur[0] == nv[0] == 'it' and cur[1] == nv[1] and len(cur) == len(nv):
            return ('it', cur[1]) + tuple(self.widen(a, b, cell, path + (i,), marks, s0) if isinstance(a, tuple) else a
                                          for i, (a, b) in enumerate(zip(cur[2:], nv[2:]), 2))
        if (cell, path) in marks:
            return marks[(cell, path)]
        u = next(self.phic)
        t = ('phi', u)
        self.phi[u] = {'init': self.canon(s0, cur), 'next': None, 'open': True}
        marks[(cell, path)] = t
        return t

    # ------------------------------------------------------------ one block
    def block(self, fr, b, st, res):
        fn = fr.fn
        self.visited.add((fn.key, b))
        bb = fn.bbs[b]
        if bb is None:
            return []
        st = st.copy()
        for s in bb['s']:
            if s[0] == '=':
                self.assign(st, fr, s[1], s[2])
            elif s[0] == 'dead':
                st.store.pop(('L', fr.fid, s[1]), None)
            elif s[0] == 'setd':
                cell, proj, rty, ty = self.place(st, fr, s[1])
                fl = self.fields_of(ty, s[2]) or []
                base = self.load(st, cell, proj)
                if base[0] == 'adt' and base[2] == s[2]:
                    continue
                self.store_to(st, cell, proj, self.mkadt(ty, s[2], [('undef', i) for i in range(len(fl))]), rty)
            else:
                raise Undecided('stmt ' + s[0])
        t = bb['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            res['rets'].append(st)
            return []
        if k == 'unreachable':
            return []
        if k == 'drop':
            if t[4] and t[4] in self.c.fns:
                cell, proj, rty, ty = self.place(st, fr, t[1])
                f = self.c.fns[t[4]]
                if f.local:
                    outs = self.run_fn(f, [('ref', cell, proj, rty)], st, fr.depth + 1)
                    r = []
                    for kk, s2, v in outs:
                        if kk == 'panic':
                            res['panics'].append(s2)
                        else:
                            r.append((t[2], s2))
                    return r
            return [(t[2], st)]
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            exp = t[2]
            if c[0] == 'ovf':
                self.note(fr, b, t[3], self.ovf_safe(st, c), t[6], st, t)
                return [(t[5], st)]
            tr = self.truth(st, c)
            self.note(fr, b, t[3], tr == exp, t[6], st, t)
            if tr is not None and tr != exp:
                p = st.copy()
                p.emit(('panic', t[3]))
                res['panics'].append(p)
                return []
            s2 = self.assume(st, c, exp)
            if s2 is not None and s2 is not st:
                s2.trace = st.trace      # not a branch of the program
            return [(t[5], s2)] if s2 is not None else []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'call':
            self.call_sites += 1
            args = [self.operand(st, fr, a) for a in t[2]]
            atys = [self.op_ty(fr, a) for a in t[2]]
            f = t[1]
            if 'k' in f and 'fn' in f['k']:
                cal = f['k']['fn']
                outs = self.call(st, fr, cal, args, atys, t)
            else:
                fv = self.operand(st, fr, f)
                outs = self.call_value(st, fr, fv, args, atys, t)
            r = []
            for kk, s2, v in outs:
                if kk == 'panic':
                    res['panics'].append(s2)
                elif t[4] is not None:
                    s2 = s2.copy()
                    cell, proj, rty, ty = self.place(s2, fr, t[3])
                    self.store_to(s2, cell, proj, v, rty)
                    r.append((t[4], s2))
                else:
                    res['panics'].append(s2)
            return r
        raise Undecided('term ' + k)

    def note(self, fr, b, kind, proven, span, st, t):
        k = (fr.fn.key, b, kind)
        o = self.oblig.get(k)
        desc = None
        if not proven:
            try:
                desc = tuple(self.canon(st, self.operand(st, fr, o2)) for o2 in t[4])
            except Exception:
                desc = None
        if o is None:
            self.oblig[k] = {'proven': bool(proven), 'span': span, 'desc': desc}
        else:
            o['proven'] = o['proven'] and bool(proven)
            if not proven and desc is not None:
                o['desc'] = desc

    def ovf_safe(self, st, c):
        _, opn, a, b, ty = c
        r = mkop(opn, a, b)
        rg = self.range_of(st, r)
        row = self.ty(ty)
        if not rg or not row or row['k'] not in ('uint', 'int'):
            return False
        bits = row['bits']
        lo, hi = (0, (1 << bits) - 1) if row['k'] == 'uint' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        if rg[0][0] >= lo and rg[-1][1] <= hi:
            return True
        if opn == 'Sub' and row['k'] == 'uint' and rg[0][0] >= 0:
            return True
        if opn == 'Add' and row['k'] == 'uint' and bits == 64:
            # index arithmetic bounded by a slice length cannot reach 2^64
            d, cst = lin(r)
            if cst < (1 << 32) and all(k[0] == 'len' or self.range_of(st, k)[-1][1] < (1 << 62) for k in d):
                return True
        return False

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        tr = self.ty(t[4])
        out = []
        if v[0] == 'i':
            for n, b in t[2]:
                if int(n) == v[1]:
                    return [(b, st)]
            return [(t[3], st)]
        if v[0] == 'discr':
            base, tyid = v[1], v[2]
            row = self.ty(tyid)
            dm = {va['discr']: va['name'] for va in row['variants']}
            seen = set()
            for n, b in t[2]:
                nm = dm.get(str(int(n)))
                if nm is None:
                    continue
                seen.add(nm)
                s = self.assume_variant(st, base, tyid, [nm])
                if s is not None:
                    out.append((b, s))
            rest = [x for x in dm.values() if x not in seen]
            if rest and not self.is_unreachable(fr, t[3]):
                s = self.assume_variant(st, base, tyid, rest)
                if s is not None:
                    out.append((t[3], s))
            return out
        if tr['k'] == 'bool':
            f = [b for n, b in t[2] if int(n) == 0]
            tb = [b for n, b in t[2] if int(n) == 1]
            fb = f[0] if f else t[3]
            tb = tb[0] if tb else t[3]
            s = self.assume(st, v, True)
            if s is not None:
                out.append((tb, s))
            s = self.assume(st, v, False)
            if s is not None:
                out.append((fb, s))
            return out
        # integer switch
        rest = FULL if tr['k'] == 'int' else ((0, INF),)
        for n, b in t[2]:
            n = int(n)
            if tr['k'] == 'int' and n >= 1 << (tr['bits'] - 1):
                n -= 1 << tr['bits']
            rest = r_and(rest, r_compl(((n, n),)))
            c = cmp_term('Eq', v, ('i', n), tr['k'] != 'int')
            s = self.assume(st, c, True)
            if s is not None:
                out.append((b, s))
        if not self.is_unreachable(fr, t[3]):
            d, cst = lin(v)
            s = st
            if v[0] == 'lin':
                for n, b in t[2]:
                    if s is not None:
                        s = self.assume(s, cmp_term('Eq', v, ('i', int(n)), tr['k'] != 'int'), False)
            else:
                s = self.assume(st, ('cmp', v, rest, tr['k'] != 'int'), True)
            if s is not None:
                out.append((t[3], s))
        return out

    def is_unreachable(self, fr, b):
        bb = fr.fn.bbs[b]
        return bb is None or (bb['t'][0] == 'unreachable' and not bb['s'])

    def assign(self, st, fr, p, r):
        k = r[0]
        if k == 'use':
            v = self.operand(st, fr, r[1])
        elif k == 'ref':
            cell, proj, rty, ty = self.place(st, fr, r[2])
            if cell[0] == 'H' and not proj:
                v = cell[1]          # &*p == p
            else:
                v = ('ref', cell, proj, rty)
        elif k == 'raw':
            cell, proj, rty, ty = self.place(st, fr, r[1])
            if cell[0] == 'H' and not proj:
                v = cell[1]
            else:
                v = ('ref', cell, proj, rty)
        elif k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            opn = r[1]
            uns = self.is_unsigned(ty)
            row = self.ty(ty)
            if opn.endswith('WithOverflow'):
                base = opn[:-len('WithOverflow')]
                v = ('tup', (mkop(base, a, b, uns), ('ovf', base, a, b, ty)))
            elif opn in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and not (self.is_intlike(ty)):
                v = ('eq',) + tuple(sorted((a, b), key=repr)) if opn in ('Eq', 'Ne') else ('op', opn, a, b)
                if opn in ('Eq', 'Ne') and a == b:
                    v = T1
                if opn == 'Ne':
                    v = bool_not(v)
            elif row and row['k'] == 'bool' and opn in ('Eq', 'Ne') and b[0] == 'i' and a[0] != 'i':
                v = a if (b[1] == 1) == (opn == 'Eq') else bool_not(a)
            elif row and row['k'] == 'bool' and opn in ('BitAnd', 'BitOr', 'BitXor'):
                v = self.boolop(st, opn, a, b)
            elif a[0] == 'discr' or b[0] == 'discr':
                # comparison of a discriminant with a constant
                d, c0 = (a, b) if a[0] == 'discr' else (b, a)
                v = ('op', opn, a, b)
                if c0[0] == 'i' and opn in ('Eq', 'Ne'):
                    row2 = self.ty(d[2])
                    nm = [va['name'] for va in row2['variants'] if int(va['discr']) == c0[1]]
                    if nm:
                        f = st.facts.get(d[1])
                        if f and f[0] == 'V':
                            if f[1] == frozenset(nm):
                                v = T1
                            elif nm[0] not in f[1]:
                                v = T0
                            else:
                                v = ('isv', d[1], nm[0], d[2])
                        else:
                            v = ('isv', d[1], nm[0], d[2])
                        if opn == 'Ne':
                            v = bool_not(v)
                elif a[0] == b[0] == 'discr' and opn == 'Eq' and a == b:
                    v = T1
            else:
                bits = row.get('bits') if row else None
                if opn in ('Offset',):
                    v = ('op', opn, a, b)
                else:
                    v = mkop(opn, a, b, uns, bits)
        elif k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                ty = self.ty(self.op_ty(fr, r[2]))
                if ty and ty['k'] == 'bool':
                    v = bool_not(a)
                elif a[0] == 'i' and ty and ty.get('bits'):
                    v = ('i', a[1] ^ ((1 << ty['bits']) - 1)) if ty['k'] == 'uint' else ('i', ~a[1])
                else:
                    v = ('op1', 'Not', a)
            elif r[1] == 'Neg':
                v = neg(a)
            elif r[1] == 'PtrMetadata':
                if a[0] == 'ref':
                    v = self.ptr_len(st, a[1], a[2], a[3] if not a[2] else None)
                else:
                    v = ('len', a)
            else:
                v = ('op1', r[1], a)
        elif k == 'cast':
            a = self.operand(st, fr, r[2])
            ck = r[1]
            to = self.ty(r[3])
            if 'IntToInt' in ck:
                v = self.intcast(st, a, self.ty(self.op_ty(fr, r[2])), to)
            elif 'Unsize' in ck or 'PtrToPtr' in ck or 'Transmute' in ck or 'Reify' in ck or 'MutToConst' in ck or 'ArrayToPointer' in ck or 'ClosureFnPointer' in ck or 'Subtype' in ck:
                v = a
                if v[0] == 'ref' and 'Unsize' in ck:
                    # array -> slice: make the length explicit
                    src = self.ty(self.deref_ty(self.op_ty(fr, r[2])))
                    if src and src['k'] == 'array' and not (v[2] and v[2][-1][0] == 'sl'):
                        n = src['n']
                        ln = ('i', n) if n is not None else ('len', ('ty', src['s']))
                        v = ('ref', v[1], v[2] + (('sl', T0, ln),), v[3])
            else:
                v = ('cast', to['s'], a)
        elif k == 'discr':
            cell, proj, rty, ty = self.place(st, fr, r[1])
            base = self.load(st, cell, proj)
            v = self.discr(st, base, ty)
        elif k == 'agg':
            h = r[1]
            vs = tuple(self.operand(st, fr, o) for o in r[2])
            if h[0] == 'tuple':
                v = ('tup', vs)
            elif h[0] == 'array':
                if vs and all(x[0] == 'i' for x in vs) and self.T[h[1]]['s'] == 'u8':
                    v = ('b', bytes(x[1] & 255 for x in vs))
                    v = ('arr', vs)
                else:
                    v = ('arr', vs)
            elif h[0] == 'adt':
                v = self.mkadt(h[1], h[2], vs)
            elif h[0] == 'closure':
                v = ('clo', h[1], vs)
            elif h[0] == 'rawptr':
                # (data ptr, metadata)
                a = vs[0]
                if len(vs) == 2 and a[0] == 'ref':
                    v = ('ref', a[1], self.psub(a[2], T0, vs[1]) if True else a[2], a[3])
                else:
                    v = ('app', 'rawptr', vs)
            else:
                v = ('app', 'agg', vs)
        elif k == 'repeat':
            a = self.operand(st, fr, r[1])
            n = ('i', int(r[2])) if r[2] is not None else ('k', 'n')
            v = ('rep', a, n)
        elif k == 'tls':
            v = ('app', 'tls', (r[1],))
        else:
            v = TOP
        if len(p) == 1:
            st.store[('L', fr.fid, p[0])] = v
        else:
            cell, proj, rty, ty = self.place(st, fr, p)
            if cell[0] == 'K':
                raise Undecided('write to constant')
            self.store_to(st, cell, proj, v, rty)

    def boolop(self, st, opn, a, b):
        ta, tb = self.truth(st, a), self.truth(st, b)
        if opn == 'BitAnd':
            if ta is False or tb is False:
                return T0
            if ta is True:
                return b
            if tb is True:
                return a
        if opn == 'BitOr':
            if ta is True or tb is True:
                return T1
            if ta is False:
                return b
            if tb is False:
                return a
        if opn == 'BitXor':
            if ta is False:
                return b
            if tb is False:
                return a
            if ta is True:
                return bool_not(b)
            if tb is True:
                return bool_not(a)
        return ('op', opn) + tuple(sorted((a, b), key=repr))

    def intcast(self, st, a, fro, to):
        if fro and fro['k'] == 'adt':
            # C-like enum cast: the operand is the enum
            if a[0] == 'adt':
                return ('i', int(fro['variants'][a[2]]['discr']))
        if a[0] == 'i':
            if to['k'] == 'uint':
                return ('i', a[1] & ((1 << to['bits']) - 1))
            if to['k'] == 'int':
                x = a[1] & ((1 << to['bits']) - 1)
                return ('i', x - (1 << to['bits']) if x >> (to['bits'] - 1) else x)
            return a
        if fro and fro['k'] == 'bool' or a[0] in ('cmp', 'not', 'eq'):
            return ('b2i', a)
        if a[0] == 'discr':
            # the number of a variant, kept as it is where every one fits
            row = next((r for r in self.T if r and r['k'] == 'adt' and r.get('path') == a[2]), None)
            if row and to['k'] in ('uint', 'int'):
                lo, hi = (0, 1 << to['bits']) if to['k'] == 'uint' else (-(1 << (to['bits'] - 1)), 1 << (to['bits'] - 1))
                if any(not lo <= int(v['discr']) < hi for v in row['variants']):
                    return ('cast', to['s'], a)
            return a
        if fro and fro['k'] in ('uint', 'char') and to['k'] in ('uint', 'int', 'char'):
            fb = fro.get('bits', 32)
            tb = to.get('bits', 32)
            if tb > fb or (tb == fb and to['k'] == fro['k']):
                return a
            r = self.range_of(st, a)
            if to['k'] == 'uint' and r and r[0][0] >= 0 and r[-1][1] < (1 << tb):
                return a
        if fro and fro['k'] == 'int' and to['k'] == 'int' and to['bits'] >= fro['bits']:
            return a
        return ('cast', to['s'], a)

    def discr(self, st, base, ty):
        row = self.ty(ty)
        if base[0] == 'adt':
            if row and row['k'] == 'adt' and base[2] < len(row['variants']):
                return ('i', int(row['variants'][base[2]]['discr']))
            return ('i', base[2])
        if row and row['k'] == 'adt' and len(row['variants']) == 1:
            return ('i', int(row['variants'][0]['discr']))
        f = st.facts.get(base)
        if f and f[0] == 'V' and len(f[1]) == 1 and row and row['k'] == 'adt':
            nm, = f[1]
            for va in row['variants']:
                if va['name'] == nm:
                    return ('i', int(va['discr']))
        if not row or row['k'] != 'adt':
            return ('app', 'discr', (base,))
        return ('discr', base, row['path'])

    # ------------------------------------------------------------ calls
    def fresh(self, st, name):
        n = st.cnt.get(name, 0)
        st.cnt[name] = n + 1
        return ('res', name, n)

    def call_value(self, st, fr, fv, args, atys, t):
        if fv[0] == 'clo':
            return self.call_closure(st, fr, fv, None, args)
        if fv[0] == 'fn':
            return self.call(st, fr, fv[2].d, args, atys, t)
        return self.opaque(st, fr, {'path': 'indirect', 'name': 'indirect', 'targs': [], 'trait': None}, [fv] + args, [None] + atys, t)

    def call_closure(self, st, fr, clo, ptr, args):
        """args: list of the closure's own arguments"""
        f = self.c.fns.get(clo[1])
        if f is None:
            raise Undecided('closure body missing ' + clo[1])
        st = st.copy()
        sty = self.ty(f.locals[1][0])
        own = ptr is None
        if sty['k'] == 'ref':
            if ptr is None:
                c = ('T', next(self.fidc))
                st.store[c] = clo
                ptr = ('ref', c, (), None)
            selfv = ptr
        else:
            selfv = clo
        outs = self.run_fn(f, [selfv] + list(args), st, fr.depth + 1)
        if sty['k'] == 'ref' and ptr[1][0] == 'T' and ptr[1] == ('T', ptr[1][1]) and not ptr[2] and own:
            for o in outs:
                o[1].store.pop(ptr[1], None)
        return outs

    def find_closure(self, st, v):
        """follow references to a closure/fn value -> (value, pointer)"""
        ptr = None
        for _ in range(8):
            if v[0] in ('clo', 'fn'):
                return v, ptr
            if v[0] == 'ref':
                ptr = v
                v = self.load(st, v[1], v[2])
            else:
                return None, None
        return None, None

    def closures_in(self, st, v, depth=0, seen=None):
        """pointers to all closures reachable from a value"""
        out = []
        if depth > 6:
            return out
        if v[0] == 'clo':
            return [(v, None)]
        if v[0] == 'ref':
            inner = self.load(st, v[1], v[2])
            if inner[0] == 'clo':
                return [(inner, v)]
            return self.closures_in(st, inner, depth + 1)
        if v[0] == 'adt':
            for x in v[4]:
                out += self.closures_in(st, x, depth + 1)
        if v[0] == 'tup':
            for x in v[1]:
                out += self.closures_in(st, x, depth + 1)
        return out

    def iters_in(self, st, v, depth=0):
        """pointers to the library iterators reachable from a value passed to the target"""
        if depth > 6:
            return []
        if v[0] == 'ref':
            inner = self.load(st, v[1], v[2])
            if inner[0] == 'it':
                return [(inner, v)]
            return self.iters_in(st, inner, depth + 1)
        out = []
        if v[0] in ('adt', 'tup'):
            for x in v[4] if v[0] == 'adt' else v[1]:
                out += self.iters_in(st, x, depth + 1)
        return out

    def steppable(self, st, fr, its):
        try:
            return all(self.it_step(self, st.copy(), fr, it) is not None for it, p in its)
        except Undecided:
            return False

    def call(self, st, fr, cal, args, atys, t):
        path = cal['path']
        name = cal['name']
        # closures and function values
        if cal.get('trait') in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and name in ('call_once', 'call_mut', 'call'):
            fv, ptr = self.find_closure(st, args[0])
            if fv is not None:
                tup = args[1]
                if tup[0] == 'tup':
                    cargs = list(tup[1])
                else:
                    raise Undecided('closure args')
                if fv[0] == 'clo':
                    return self.call_closure(st, fr, fv, ptr, cargs)
                return self.call(st, fr, fv[2].d, cargs, [None] * len(cargs), t)
            return self.opaque(st, fr, cal, args, atys, t)
        tok = self.tokens(cal)
        if tok:
            return self.do_token(st, fr, tok, cal, args, atys, t)
        ev = self.events(cal)
        if ev:
            return self.do_event(st, fr, ev, cal, args, atys, t)
        m = self.models.get(path) or STD_MODELS.get(path)
        if m is None and name and cal.get('trait'):
            m = self.models.get((cal['trait'], name)) or STD_MODELS.get((cal['trait'], name))
        if m is not None:
            r = m(self, st, fr, cal, args, atys, t)
            if r is not NotImplemented:
                return r
        at = self.atoms(cal)
        if at:
            return self.do_atom(st, fr, at, cal, args, atys, t)
        # constructor functions (Some, Ok, struct tuple constructors)
        key = cal.get('key')
        if path.startswith('core::panicking') or path.startswith('std::rt::panic') or path in PANICS or path.startswith('std::panicking'):
            s = st.copy()
            s.emit(('panic', path.split('::')[-1]))
            return [['panic', s, None]]
        f = self.c.fns.get(key) if key else None
        if f is not None and f.d['kind'] == 'Ctor' or f is None and path.startswith(('std::', 'core::')) and path.split('::')[-1] in ('Some', 'Ok', 'Err'):
            v = self.ctor(st, fr, cal, args, t)
            if v is not None:
                return [['ret', st, v]]
        if f is not None and not self.skip_body(cal, f):
            if f.d.get('spread') is not None:
                raise Undecided('spread')
            return self.run_fn(f, args, st, fr.depth + 1)
        return self.opaque(st, fr, cal, args, atys, t)

    def skip_body(self, cal, f):
        if f.d['kind'] == 'Ctor':
            return True
        return not f.local and cal['path'].startswith(NOINLINE)

    def dest_ty(self, fr, t):
        p = t[3]
        ty = fr.fn.locals[p[0]][0]
        for e in p[1:]:
            if e == '*':
                ty = self.deref_ty(ty)
            elif e[0] == 'f':
                ty = e[2]
        return ty

    def ctor(self, st, fr, cal, args, t):
        """value of a tuple-variant/struct constructor used as a function"""
        nm = cal['path'].split('::')[-1]
        tys = [self.dest_ty(fr, t)] if t is not None else []
        own = {'Some': 'std::option::Option', 'Ok': 'std::result::Result', 'Err': 'std::result::Result'}.get(nm) \
            if cal['path'].startswith(('std::', 'core::')) else None
        own = own or cal['path'].rsplit('::', 1)[0]
        if own not in self.ctor_tys:
            self.ctor_tys[own] = [i for i, r in (self.T.items() if isinstance(self.T, dict) else enumerate(self.T)) if r and r['k'] == 'adt' and r['path'] in (own, cal['path'])][:1]
        for ty in tys + self.ctor_tys[own]:
            row = self.ty(ty)
            if row and row['k'] == 'adt' and row['path'] in (own, cal['path'], own.replace('std::', 'core::')) or ty in tys and row and row['k'] == 'adt':
                for vi, va in enumerate(row['variants']):
                    if va['name'] == nm and len(va['fields']) == len(args):
                        return self.mkadt(ty, vi, args)
        return None

    def opaque(self, st, fr, cal, args, atys, t):
        """unknown callee: pure uninterpreted application if it gets no mutable references, else an
        uninterpreted effect"""
        nm = cal['path']
        if nm.rsplit('::', 1)[-1] == 'recv' and not cal.get('trait'):
            nm = 'recv'         # a foreign function, whatever module declares it
        self.opaque_used[nm] = self.opaque_used.get(nm, 0) + 1
        st = st.copy()
        if any(ty is not None and self.ty(ty)['k'] in ('ref', 'ptr') and self.ty(ty).get('mut') for ty in atys) or any(self.closures_in(st, a) for a in args) \
                or nm.startswith(('std::net::', 'std::os::unix::net::')) or nm.endswith('::last_os_error'):
            r = self.fresh(st, nm)
            st.emit(('e', 'opaque:' + nm, tuple(self.canon(st, a) for a in args), r[2]))
            self.havoc(st, args, atys, nm, r[2])
            return [['ret', st, r]]
        targs = tuple(self.T[x]['s'] for x in cal.get('targs', []))
        v = ('app', nm, tuple(self.canon(st, a) for a in args)) + ((targs,) if nm in TARG_FNS else ())
        return [['ret', st, v]]

    def havoc(self, st, args, atys, name, n):
        for i, (a, ty) in enumerate(zip(args, atys)):
            row = self.ty(ty) if ty is not None else None
            if a[0] == 'ref' and row and row['k'] in ('ref', 'ptr') and row.get('mut') and a[1][0] != 'K':
                inner = self.load(st, a[1], a[2])
                if inner[0] == 'clo' or inner[0] == 'fn':
                    continue
                if self.closures_in(st, inner):
                    continue
                self.write_ptr(st, a, ('mut', name, n, i, self.canon(st, inner)))
            elif a[0] not in ('ref', 'clo', 'fn', 'i', 'adt', 'tup') and row and row['k'] == 'ref' and row['mut']:
                e = self.ty(row['e'])
                if e and e['k'] in ('slice', 'array', 'str', 'int', 'uint', 'bool'):
                    st.store[('H', a)] = ('mut', name, n, i, ('deref', a))

    def write_ptr(self, st, ptr, val):
        """*ptr = val for a reference value; a slice pointer re-bases its whole buffer"""
        cell, proj = ptr[1], ptr[2]
        if proj and proj[-1][0] == 'sl':
            s, l = proj[-1][1], proj[-1][2]
            base = self.load(st, cell, proj[:-1])
            if s == T0 and self.len_of_content(base) == l:
                nv = val
            else:
                nv = ('upds', base, s, l, val)
            self.store_to(st, cell, proj[:-1], nv, ptr[3] if len(ptr) > 3 else None)
            return
        self.store_to(st, cell, proj, val, ptr[3] if len(ptr) > 3 else None)

    def do_token(self, st, fr, tok, cal, args, atys, t):
        st = st.copy()
        kind, take = tok
        self.locs.setdefault('reply ' + kind, set()).add('%s (%s)' % (t[5], fr.fn.path))
        a = tuple(self.canon(st, args[i]) for i in take)
        ok = st.copy()
        ok.emit(('t', kind, a))
        ty = self.dest_ty(fr, t)
        row = self.ty(ty)
        out = []
        if row and row['k'] == 'adt' and row['path'].endswith('result::Result'):
            out.append(['ret', ok, self.mkadt(ty, 0, (UNIT,))])
            if self.fault and not st.fault:
                bad = st.copy()
                bad.emit(('t!', kind, a))
                bad.fault = ('t', kind)
                out.append(['ret', bad, self.mkadt(ty, 1, (('sym', 'write-error'),))])
        else:
            if row and row['k'] == 'tuple':
                out.append(['ret', ok, UNIT])
            else:
                out.append(['ret', ok, ('sym', 'tok:' + kind)])
        return out

    def do_atom(self, st, fr, name, cal, args, atys, t):
        """uninterpreted (separately verified) function; mutable slice arguments are considered consumed"""
        st = st.copy()
        targs = ()
        for i in cal.get('targs') or ():
            row = self.ty(i)
            if row and row['k'] in ('uint', 'int'):
                targs += (('ty', {'usize': 'u64', 'isize': 'i64'}.get(row['s'], row['s'])),)
        v = ('app', name, tuple(self.canon(st, a) for a in args) + targs)
        for i, (a, aty) in enumerate(zip(args, atys)):
            row = self.ty(aty) if aty is not None else None
            if a[0] == 'ref' and row and row['k'] == 'ref' and row['mut'] and a[1][0] != 'K':
                inner = self.canon(st, a)
                self.write_ptr(st, a, ('mut', name, inner))
        return [['ret', st, v]]

    def do_event(self, st, fr, ev, cal, args, atys, t):
        kind = ev[0]
        name = ev[1]
        self.locs.setdefault(name, set()).add('%s (%s)' % (t[5], fr.fn.path))
        if kind == 'pure':
            cargs = tuple(self.canon(st, a) for a in args[ev[2]:])
            return [['ret', st, ('app', name, cargs) if cargs else ('gate', name)]]
        st = st.copy()
        cargs = tuple(anon(self.canon(st, a)) for a in args[ev[2]:])
        clos = []
        for a in args[ev[2]:]:
            clos += self.closures_in(st, a)
            its = self.iters_in(st, a)
            if its and self.steppable(st, fr, its):
                clos += its
                cargs = tuple(anon_it(x) for x in cargs)
        r = self.fresh(st, name)
        n = r[2]
        st.emit(('e', name, cargs, n))
        sts = self.callback_loop(st, fr, name, n, clos) if clos else [st]
        for st in sts:
            self.havoc(st, args[ev[2]:], atys[ev[2]:], name, n)
        outs = [['ret', st, r] for st in sts]
        if len(ev) > 3 and ev[3] == 'conn':
            # fault model for connection operations
            ty = self.dest_ty(fr, t)
            row = self.ty(ty)
            if row and row['k'] == 'adt' and row['path'].endswith('result::Result'):
                okv = UNIT if self.ty(row['args'][0])['s'] == '()' else ('vf', r, 'Ok', '0')
                outs = [['ret', st, self.mkadt(ty, 0, (okv,))]]
                if self.fault and not st.fault:
                    bad = st.copy()
                    bad.trace = bad.trace[:-1] + (('e!',) + bad.trace[-1][1:],) if bad.trace and bad.trace[-1][0] == 'e' else bad.trace
                    bad.fault = ('e', name)
                    outs.append(['ret', bad, self.mkadt(ty, 1, (('sym', 'conn-error:' + name),))])
        return outs

    def callback_loop(self, st, fr, name, n, clos):
        """the callee may invoke the closures any number of times"""
        base = st

        def once(g):
            backs = []
            ends = []
            for idx, (c, ptr) in enumerate(clos):
                if c[0] == 'it':
                    for s2, ni, x in self.it_step(self, g, fr, self.load(g, ptr[1], ptr[2])):
                        if ni == 'panic':
                            continue
                        s2 = s2.copy()
                        self.store_to(s2, ptr[1], ptr[2], ni, ptr[3])
                        if x is None:
                            ends.append(s2)
                            continue
                        if x != 'skip':
                            s2.emit(('cbret', ('yield', self.canon(s2, x))))
                        backs.append(s2)
                    continue
                f = self.c.fns.get(c[1])
                if f is None:
                    raise Undecided('closure body missing')
                cur = c if ptr is None else self.load(g, ptr[1], ptr[2])
                cargs = []
                for i in range(1, f.argc):
                    cargs.append(('cb', name, n, i - 1) if len(clos) == 1 else ('cb', name, n, i - 1, idx))
                outs = self.call_closure(g, fr, cur, ptr, cargs)
                for kk, s2, v in outs:
                    if kk == 'ret':
                        s2 = s2.copy()
                        if v != UNIT:
                            s2.emit(('cbret', self.canon(s2, v)))
                        backs.append(s2)
            return {'backs': backs, 'ends': ends}
        saved_fault = st.fault
        g, r = self.fixpoint(st, once, lambda r: r['backs'], name)
        backs = r['backs']
        k = len(g.trace)
        nexts = self.finish_phis(g, backs)
        bodies = self.bodies(backs, k)
        out = g.copy()
        out.trace = st.trace + (('loop', bodies, tuple(nexts)),)
        for b in backs:
            for kk, c in b.cnt.items():
                out.cnt[kk] = max(out.cnt.get(kk, 0), c)
        out.fault = st.fault
        if not r['ends']:
            return [out]
        # the callee stops early, or reads the iterator to its end
        drained = ('more', ('drained', name, n))
        outs = []
        early = self.assume(out, drained, False)
        for e in r['ends']:
            s = e.copy()
            s.trace = out.trace + e.trace[k:]
            s.fault = st.fault
            s.cnt = dict(out.cnt)
            s = self.assume(s, drained, True)
            if s is not None:
                outs.append(s)
        return [early] + outs


def anon(t):
    """without the names of closures: what a closure does is in the summary of the callbacks"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'clo':
            return ('clo',)
        return tuple(anon(x) for x in t)
    return t


def anon_it(t):
    """iterators handed to the target: what they yield is in the summary of the callbacks"""
    if isinstance(t, tuple):
        if t and t[0] == 'it':
            return ('it',)
        return tuple(anon_it(x) for x in t)
    return t


def clo_name(key):
    import re
    return re.sub(r'<.*', '', key)


class FnConst:
    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, FnConst) and self.d['path'] == o.d['path'] and self.d['key'] == o.d['key']

    def __hash__(self):
        return hash(self.d['path'])

    def __repr__(self):
        return 'FnConst(%s)' % self.d['path']


def has_once(v):
    if v[0] == 'it':
        return v[1] == 'once' and v[3][0] != 'phi' or any(isinstance(x, tuple) and x and has_once(x) for x in v[2:])
    if v[0] == 'adt':
        return len(v) > 4 and any(has_once(x) for x in v[4])
    return v[0] == 'tup' and any(has_once(x) for x in v[1])


def leaves(v, path=()):
    if v[0] == 'adt':
        for i, x in enumerate(v[4]):
            yield from leaves(x, path + (i,))
    elif v[0] in ('tup', 'arr'):
        for i, x in enumerate(v[1]):
            yield from leaves(x, path + (i,))
    elif v[0] == 'clo':
        for i, x in enumerate(v[2]):
            yield from leaves(x, path + (i,))
    elif v[0] == 'it':
        for i, x in enumerate(v[2:], 2):
            if isinstance(x, tuple) and not (x[:1] == ('adt',) and len(x) < 5):     # a type argument is no value
                yield from leaves(x, path + (i,))
    else:
        yield path, v


def pick(v, i):
    if v[0] == 'adt':
        return v[4][i] if i < len(v[4]) else TOP
    if v[0] in ('tup', 'arr'):
        return v[1][i] if i < len(v[1]) else TOP
    if v[0] == 'clo':
        return v[2][i]
    if v[0] == 'it':
        return v[i]
    return TOP


TAGS = {'i', 'b', 'sym', 'op', 'op1', 'adt', 'tup', 'arr', 'ref', 'clo', 'fn', 'app', 'gate', 'res', 'fld', 'vf', 'as', 'at', 'slice', 'len',
        'deref', 'lin', 'cmp', 'not', 'eq', 'isv', 'discr', 'cast', 'b2i', 'phi', 'rep', 'upd', 'upds', 'updf', 'mut', 'min', 'max', 'cb', 'it', 'item', 'k', 'top',
        'undef', 'bad', 'ovf', 'arg', 'lam', 'ty', 'in', 'more'}
PANICS = {'std::option::unwrap_failed', 'std::result::unwrap_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
          'core::option::expect_failed', 'std::option::expect_failed'}
NOINLINE = ('core::str::', 'std::str::', 'alloc::', 'std::string::', 'core::fmt', 'std::fmt', 'core::unicode', 'std::vec::', 'std::io::')
CTORS = set()
TARG_FNS = {'num_traits::NumCast::from', 'std::mem::size_of', 'num_traits::FromPrimitive::from_u8'}
STD_MODELS = {}
