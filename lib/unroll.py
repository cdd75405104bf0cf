"""Abstract interpretation with concrete control: loops with constant trip counts are unrolled, register and input bytes stay symbolic.
Used for the register files of gdbstub_arch, whose layouts are fixed by constants."""
from absint import *
import models
from models import as_ptr, as_ptr1, slen, elemptr, subptr, it_next as base_next, m_intoiter, some, none, ret, check_range

RES = 'std::result::Result'
OPT = 'std::option::Option'


def ok(v):
    return ('adt', RES, 0, 'Ok', (v,))


def err(v):
    return ('adt', RES, 1, 'Err', (v,))


def opt(v):
    return ('adt', OPT, 0, 'None', ()) if v is None else ('adt', OPT, 1, 'Some', (v,))


class Unroll(Interp):
    """psize: byte size of generic integer parameters"""

    def __init__(self, crate, psize=None, **kw):
        super().__init__(crate, **kw)
        self.merge = False
        self.psize = psize
        self.max_iter = 6000

    # ------------------------------------------------------------ control
    def loop(self, fr, h, s, res):
        body = fr.fn.loops[h]
        work, out = [s], []
        for _ in range(self.max_iter):
            r = self.region(fr, h, work, body, h)
            res['rets'] += r['rets']
            res['panics'] += r['panics']
            out += r['exits']
            work = r['backs']
            if not work:
                return out
            if len(work) > 32:
                raise Undecided('loop control depends on symbolic data')
        raise Undecided('loop bound')

    def merge_at(self, fr, b, states):
        return states

    # ------------------------------------------------------------ values
    def size(self, tyid):
        r = self.ty(tyid)
        if r is None:
            return None
        if r['k'] in ('int', 'uint', 'float'):
            return r['bits'] // 8 if r.get('bits') else {'f32': 4, 'f64': 8}.get(r['s'])
        if r['s'] in ('f32', 'f64'):
            return int(r['s'][1:]) // 8
        if r['k'] == 'param' or r['k'] == 'alias':
            return self.psize
        if r['k'] == 'array':
            e = self.size(r['e'])
            return e * r['n'] if e is not None and r['n'] is not None else None
        return None

    def symbolic(self, tyid, name, leaves):
        """a value of the type with one named symbol per register"""
        r = self.ty(tyid)
        n = self.size(tyid)
        if r['k'] == 'array':
            if r['n'] > 4096:
                raise Undecided('array size')
            return ('arr', tuple(self.symbolic(r['e'], '%s[%d]' % (name, i), leaves) for i in range(r['n'])))
        if r['k'] == 'adt' and len(r['variants']) == 1:
            return self.mkadt(tyid, 0, [self.symbolic(t, (name + '.' if name else '') + f, leaves) for f, t in self.fields_of(tyid, 0)])
        if r['k'] == 'tuple':
            return ('tup', tuple(self.symbolic(t, '%s.%d' % (name, i), leaves) for i, t in enumerate(r['es'])))
        if n is None:
            raise Undecided('register type ' + r['s'])
        leaves.append((name, n))
        return ('reg', name)

    def deref_all(self, st, v):
        for _ in range(6):
            if v[0] != 'ref':
                break
            v = self.load(st, v[1], v[2])
        return v

    def bytes_of(self, st, v, n):
        """the n bytes of an integer value, least significant first"""
        if v[0] == 'int' and len(v[1]) == n:
            return list(v[1])
        if v[0] == 'i':
            return [('i', (v[1] >> (8 * i)) & 255) for i in range(n)]
        if n == 1:
            return [v]
        return [('byte', v, i) for i in range(n)]

    def int_of(self, bs):
        bs = tuple(bs)
        if all(b[0] == 'i' for b in bs):
            return ('i', sum(b[1] << (8 * i) for i, b in enumerate(bs)))
        if len(bs) == 1:
            return bs[0]
        if bs[0][0] == 'byte' and all(b[0] == 'byte' and b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
            return bs[0][1]
        return ('int', bs)

    def elems(self, st, p, n):
        """the n elements a slice/array pointer points to"""
        return [self.load(st, *elemptr(self, st, p, ('i', i))[1:3]) for i in range(n)]

    # ------------------------------------------------------------ calls
    def call(self, st, fr, cal, args, atys, t):
        path, name = cal['path'], cal['name'] or cal['path'].split('::')[-1]
        f = getattr(self, 'c_' + name, None)
        if f is not None:
            r = f(st, fr, cal, args, atys, t)
            if r is not NotImplemented:
                return r
        return super().call(st, fr, cal, args, atys, t)

    def opaque(self, st, fr, cal, args, atys, t):
        if cal.get('trait') in ('std::ops::FnMut', 'std::ops::Fn', 'std::ops::FnOnce'):
            st = st.copy()
            a = args[1][1] if args[1][0] == 'tup' else (args[1],)
            st.emit(('w',) + tuple(a))
            return ret(st, UNIT)
        raise Undecided('call of %s is not modelled' % cal['path'])

    def c_size_of(self, st, fr, cal, a, tys, t):
        n = self.size(cal['targs'][0])
        return ret(st, ('i', n)) if n is not None else NotImplemented

    def to_bytes(self, st, fr, cal, a, tys, be):
        if len(a) == 2:         # LeBytes::to_le_bytes(&self, buf) -> Option<usize>
            if cal.get('trait') is None:
                return NotImplemented
            n = self.size(cal['targs'][0])
            if n is None:
                return NotImplemented
            bs = self.bytes_of(st, self.deref_all(st, a[0]), n)
            ln = slen(self, st, a[1], tys[1])
            if ln[0] != 'i':
                raise Undecided('buffer length')
            if ln[1] < n:
                return ret(st, opt(None))
            st = st.copy()
            p = as_ptr(self, st, a[1])
            for i, b in enumerate(bs[::-1] if be else bs):
                q = elemptr(self, st, p, ('i', i))
                self.store_to(st, q[1], q[2], b, q[3] if len(q) > 3 else None)
            return ret(st, opt(('i', n)))
        if len(a) != 1 or 'impl' not in cal['path']:
            return NotImplemented
        n = self.prim_size(cal, tys[0])
        if n is None:
            return NotImplemented
        bs = self.bytes_of(st, self.deref_all(st, a[0]), n)
        return ret(st, ('arr', tuple(bs[::-1] if be else bs)))

    def prim_size(self, cal, ty):
        import re
        m = re.search(r'<impl [iuf](\d+|size)>', cal['path'])
        if m:
            return 8 if m.group(1) == 'size' else int(m.group(1)) // 8
        return None

    def c_to_le_bytes(self, st, fr, cal, a, tys, t):
        return self.to_bytes(st, fr, cal, a, tys, False)

    def c_to_be_bytes(self, st, fr, cal, a, tys, t):
        return self.to_bytes(st, fr, cal, a, tys, True)

    def c_to_ne_bytes(self, st, fr, cal, a, tys, t):
        raise Undecided('native byte order')

    c_from_ne_bytes = c_to_ne_bytes

    def from_bytes(self, st, fr, cal, a, tys, be):
        if cal.get('trait'):
            n = self.size(cal['targs'][0])
            ln = slen(self, st, a[0], tys[0])
            if n is None or ln != ('i', n):
                raise Undecided('from_le_bytes of another length')
            bs = self.elems(st, a[0], n)
            return ret(st, opt(self.int_of(bs[::-1] if be else bs)))
        v = a[0]
        if v[0] == 'b':
            v = ('arr', tuple(('i', x) for x in v[1]))
        if v[0] != 'arr':
            raise Undecided('from_bytes of ' + v[0])
        return ret(st, self.int_of(v[1][::-1] if be else v[1]))

    def c_from_le_bytes(self, st, fr, cal, a, tys, t):
        return self.from_bytes(st, fr, cal, a, tys, False)

    def c_from_be_bytes(self, st, fr, cal, a, tys, t):
        return self.from_bytes(st, fr, cal, a, tys, True)

    def c_to_bits(self, st, fr, cal, a, tys, t):
        return ret(st, a[0])

    def c_from_bits(self, st, fr, cal, a, tys, t):
        return ret(st, a[0])

    def c_zero(self, st, fr, cal, a, tys, t):
        return ret(st, T0)

    def c_ne(self, st, fr, cal, a, tys, t):
        x, y = self.deref_all(st, a[0]), self.deref_all(st, a[1])
        if x[0] == 'int' and y[0] == 'i':
            # an integer equals zero iff every byte does: keep it as one condition
            c = ('eq', x, y)
            return ret(st, bool_not(c) if cal['name'] == 'ne' else c)
        return NotImplemented

    c_eq = c_ne

    def arr_n(self, st, cal):
        """N of the array in a slice -> array conversion"""
        for x in cal['targs'][::-1] if cal['name'] == 'try_into' else cal['targs']:
            r = self.ty(x)
            if r and r['k'] == 'ref':
                r2 = self.ty(r['e'])
                if r2 and r2['k'] == 'array':
                    return r2['n'], True
            if r and r['k'] == 'array':
                return r['n'], False
        return None, None

    def c_try_into(self, st, fr, cal, a, tys, t):
        n, byref = self.arr_n(st, cal)
        if n is None:
            return NotImplemented
        v = a[0]
        ln = slen(self, st, v, None)
        if ln[0] != 'i':
            raise Undecided('array conversion of a slice of unknown length')
        if ln[1] != n:
            return ret(st, err(('k', 'TryFromSliceError')))
        if byref:
            return ret(st, ok(v))
        return ret(st, ok(('arr', tuple(self.elems(st, v, n)))))

    c_try_from = c_try_into

    # ------------------------------------------------------------ iterators
    def c_chunks_exact(self, st, fr, cal, a, tys, t):
        if a[1][0] != 'i' or a[1][1] <= 0:
            raise Undecided('chunk size')
        p = as_ptr(self, st, a[0])
        return ret(st, ('it', 'chunks', p, a[1][1], T0, slen(self, st, a[0], tys[0])))

    def c_next(self, st, fr, cal, a, tys, t):
        if cal.get('trait') != 'std::iter::Iterator':
            return NotImplemented
        p = as_ptr1(self, a[0])
        it = self.load(st, p[1], p[2])
        while it[0] == 'ref':
            p = it
            it = self.load(st, p[1], p[2])
        rs = self.nexts(st, fr, it)
        if rs is None:
            return NotImplemented
        out = []
        for s, ni, x in rs:
            if ni == 'panic':
                out.append(['panic', s, None])
                continue
            s = s.copy()
            self.store_to(s, p[1], p[2], ni, p[3] if len(p) > 3 and p[3] is not None else self.deref_ty(tys[0]))
            out.append(['ret', s, opt(x)])
        return out

    def nexts(self, st, fr, it):
        if it[0] == 'it' and it[1] == 'chunks':
            _, _, p, n, pos, ln = it
            c = cmp_term('Le', add(pos, ('i', n)), ln)
            out = []
            g = self.assume(st, c, True)
            if g is not None:
                out.append((g, it[:4] + (add(pos, ('i', n)), ln), subptr(self, g, p, pos, ('i', n))))
            b = self.assume(st, c, False)
            if b is not None:
                out.append((b, it, None))
            return out
        if it[0] == 'it' and it[1] == 'map':
            r = self.nexts(st, fr, it[2])
            if r is None:
                return None
            out = []
            for s, ni, x in r:
                if x is None:
                    out.append((s, ('it', 'map', ni, it[3]), None))
                    continue
                if it[3][0] == 'fn':
                    d = it[3][2].d
                    outs, c = self.call(s, fr, d, [x], [None], None), None
                else:
                    c = ('T', next(self.fidc))
                    s = s.copy()
                    s.store[c] = it[3]
                    fv, _ = self.find_closure(s, ('ref', c, (), None))
                    if fv is None or fv[0] != 'clo':
                        return None
                    outs = self.call_closure(s, fr, fv, ('ref', c, (), None), [x])
                for kk, s2, v in outs:
                    if kk != 'ret':
                        out.append((s2, 'panic', None))
                        continue
                    s2 = s2.copy()
                    nc = s2.store.pop(c, it[3]) if c else it[3]
                    out.append((s2, ('it', 'map', ni, nc), v))
            return out
        if it[0] == 'it' and it[1] == 'enum':
            r = self.nexts(st, fr, it[2])
            if r is None:
                return None
            return [(s, ni if ni == 'panic' else ('it', 'enum', ni, add(it[3], T1) if x is not None else it[3]),
                     ('tup', (it[3], x)) if x is not None else None) for s, ni, x in r]
        if it[0] == 'it' and it[1] == 'zip':
            out = []
            for s, na, x in self.nexts(st, fr, it[2]) or []:
                if x is None or na == 'panic':
                    out.append((s, na if na == 'panic' else ('it', 'zip', na, it[3]), None))
                    continue
                for s2, nb, y in self.nexts(s, fr, it[3]) or []:
                    out.append((s2, nb if nb == 'panic' else ('it', 'zip', na, nb), ('tup', (x, y)) if y is not None else None))
            return out or None
        if it[0] == 'it' and it[1] == 'chain':
            out = []
            for s, na, x in self.nexts(st, fr, it[2]) or []:
                if x is not None or na == 'panic':
                    out.append((s, na if na == 'panic' else ('it', 'chain', na, it[3]), x))
                    continue
                for s2, nb, y in self.nexts(s, fr, it[3]) or []:
                    out.append((s2, nb if nb == 'panic' else ('it', 'chain', na, nb), y))
            return out or None
        if it[0] == 'it' and it[1] == 'copied':
            r = self.nexts(st, fr, it[2])
            if r is None:
                return None
            return [(s, ni if ni == 'panic' else ('it', 'copied', ni), None if x is None else self.load(s, x[1], x[2]) if x[0] == 'ref' else x) for s, ni, x in r]
        if it[0] == 'it' and it[1] in ('take', 'skip', 'rev', 'step_by'):
            return None
        if it[0] == 'it' and it[1] == 'slice' or it[0] == 'adt' and it[1].endswith('ops::Range'):
            return base_next(self, st, fr, it)
        if it[0] == 'adt' and it[1].endswith('RangeInclusive'):
            s, e, ex = it[4]
            if s[0] != 'i' or e[0] != 'i' or ex[0] != 'i':
                return None
            if ex[1] or s[1] > e[1]:
                return [(st, it, None)]
            if s[1] == e[1]:
                return [(st, it[:4] + ((s, e, T1),), s)]
            return [(st, it[:4] + ((add(s, T1), e, ex),), s)]
        return None

    def conv(self, st, v, ty=None):
        """the iterator a value converts into"""
        if v[0] == 'it' or v[0] == 'adt' and ('Range' in v[1]):
            return v
        if v[0] == 'ref':
            inner = self.load(st, v[1], v[2])
            if inner[0] == 'it':
                return None
            return models.it_slice(self, st, v, ty)
        return None

    def c_zip(self, st, fr, cal, a, tys, t):
        x, y = self.conv(st, a[0], None), self.conv(st, a[1], tys[1])
        if x is None or y is None:
            return NotImplemented
        return ret(st, ('it', 'zip', x, y))

    def c_chain(self, st, fr, cal, a, tys, t):
        x, y = self.conv(st, a[0], None), self.conv(st, a[1], tys[1])
        if x is None or y is None:
            return NotImplemented
        return ret(st, ('it', 'chain', x, y))

    def c_for_each(self, st, fr, cal, a, tys, t):
        if cal.get('trait') != 'std::iter::Iterator':
            return NotImplemented
        it = a[0]
        c = ('T', next(self.fidc))
        st = st.copy()
        st.store[c] = a[1]
        work, out = [(st, it)], []
        for _ in range(self.max_iter):
            nw = []
            for s, i in work:
                rs = self.nexts(s, fr, i)
                if rs is None:
                    raise Undecided('for_each over an unknown iterator')
                for s2, ni, x in rs:
                    if ni == 'panic':
                        out.append(['panic', s2, None])
                    elif x is None:
                        s2 = s2.copy()
                        s2.store.pop(c, None)
                        out.append(['ret', s2, UNIT])
                    else:
                        fv, p = self.find_closure(s2, ('ref', c, (), None))
                        if fv is None:
                            outs = self.opaque(s2, fr, {'trait': 'std::ops::FnMut', 'path': '', 'name': 'call_mut', 'targs': []}, [a[1], ('tup', (x,))], [None, None], t)
                        elif fv[0] == 'fn':
                            outs = self.call(s2, fr, fv[2].d, [x], [None], None)
                        else:
                            outs = self.call_closure(s2, fr, fv, p, [x])
                        for k, s3, v in outs:
                            if k == 'ret':
                                nw.append((s3, ni))
                            else:
                                out.append([k, s3, v])
            work = nw
            if not work:
                return out
            if len(work) > 32:
                raise Undecided('for_each control depends on symbolic data')
        raise Undecided('for_each bound')
