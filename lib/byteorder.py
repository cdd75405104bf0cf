"""C45: integers and byte buffers. The BeBytes/LeBytes impls are interpreted over MIR for every integer type and every buffer length up to two bytes
more than the integer has, the bytes of the buffer and of the integer being symbolic: the result has to consist of exactly those bits, in that order."""
import env
import funcs
import fviews
import gdbsem
import hexnum
import unroll
from absint import *

TY = r'[iu](8|16|32|64|128|size)'


class Bytes(hexnum.Num):
    top = ''

    def own(self, name):
        return NotImplemented

    def c_rev(self, st, fr, cal, a, tys, t):
        it = self.conv(st, a[0], tys[0])
        return ret2(st, ('it', 'rv', it)) if it is not None else NotImplemented

    def back(self, st, fr, it):
        """(state, iterator, last item)"""
        if it[0] == 'it' and it[1] == 'slice':
            if it[3][0] != 'i' or it[4][0] != 'i':
                return None
            if it[3][1] >= it[4][1]:
                return [(st, it, None)]
            e = ('i', it[4][1] - 1)
            return [(st, it[:4] + (e,), ('ref', it[2][1], self.pidx(st, it[2][1], it[2][2], e), it[2][3]))]
        if it[0] == 'it' and it[1] == 'copied':
            r = self.back(st, fr, it[2])
            return r and [(s, ('it', 'copied', ni), None if x is None else self.load(s, x[1], x[2])) for s, ni, x in r]
        if it[0] == 'it' and it[1] == 'rv':
            r = self.nexts(st, fr, it[2])
            return r and [(s, ni if ni == 'panic' else ('it', 'rv', ni), x) for s, ni, x in r]
        if it[0] == 'adt' and it[1].endswith('ops::Range'):
            s, e = it[4]
            if s[0] != 'i' or e[0] != 'i':
                return None
            return [(st, it, None)] if s[1] >= e[1] else [(st, it[:4] + ((s, ('i', e[1] - 1)),), ('i', e[1] - 1))]
        return None

    def nexts(self, st, fr, it):
        if it[0] == 'it' and it[1] == 'rv':
            r = self.back(st, fr, it[2])
            return r and [(s, ('it', 'rv', ni), x) for s, ni, x in r]
        if it[0] == 'it' and it[1] == 'take' and it[3][0] == 'i':
            if it[3][1] == 0:
                return [(st, it, None)]
            r = self.nexts(st, fr, it[2])
            return r and [(s, ni if ni == 'panic' else ('it', 'take', ni, ('i', it[3][1] - 1)), x) for s, ni, x in r]
        return super().nexts(st, fr, it)

    def c_take(self, st, fr, cal, a, tys, t):
        if cal.get('trait') != 'std::iter::Iterator' or a[1][0] != 'i':
            return NotImplemented
        return ret2(st, ('it', 'take', a[0], a[1]))

    def quant(self, st, fr, cal, a, tys, t):
        """any / all / position"""
        if cal.get('trait') != 'std::iter::Iterator':
            return NotImplemented
        it = self.load(st, a[0][1], a[0][2]) if a[0][0] == 'ref' else a[0]
        kind, out, work = cal['name'], [], [(st, it, 0)]
        for _ in range(64):
            nw = []
            for s, i, k in work:
                rs = self.nexts(s, fr, i)
                if rs is None:
                    raise Undecided('%s over an unknown iterator' % kind)
                for s2, ni, x in rs:
                    if ni == 'panic':
                        out.append(['panic', s2, None])
                    elif x is None:
                        out.append(['ret', s2, {'any': T0, 'all': T1}.get(kind) or unroll.opt(None)])
                    else:
                        for s3, yes in self.holds(s2, fr, a[1], x, kind == 'find'):
                            if yes is None:
                                out.append(['panic', s3, None])
                            elif kind == 'all':
                                nw.append((s3, ni, k + 1)) if yes else out.append(['ret', s3, T0])
                            elif yes:
                                out.append(['ret', s3, T1 if kind == 'any' else unroll.opt(x if kind == 'find' else ('i', k))])
                            else:
                                nw.append((s3, ni, k + 1))
            work = nw
            if not work:
                return out
        raise Undecided('iterator bound')

    c_any = c_all = c_position = c_find = quant

    def c_fold(self, st, fr, cal, a, tys, t):
        if cal.get('trait') != 'std::iter::Iterator':
            return NotImplemented
        out, work = [], [(st, a[0], a[1])]
        for _ in range(64):
            nw = []
            for s, i, acc in work:
                rs = self.nexts(s, fr, i)
                if rs is None:
                    raise Undecided('fold over an unknown iterator')
                for s2, ni, x in rs:
                    if ni == 'panic':
                        out.append(['panic', s2, None])
                    elif x is None:
                        out.append(['ret', s2, acc])
                    else:
                        c = ('T', next(self.fidc))
                        s2 = s2.copy()
                        s2.store[c] = a[2]
                        fv, _ = self.find_closure(s2, ('ref', c, (), None))
                        if fv is None or fv[0] != 'clo':
                            raise Undecided('fold of a function')
                        for kk, s3, v in self.call_closure(s2, fr, fv, ('ref', c, (), None), [acc, x]):
                            nw.append((s3, ni, v)) if kk == 'ret' else out.append([kk, s3, None])
            work = nw
            if not work:
                return out
        raise Undecided('iterator bound')

    def holds(self, st, fr, clo, x, byref=True):
        """the predicates of any, all and position take the item itself, those of find and the adaptors a reference to it"""
        if byref:
            yield from super().holds(st, fr, clo, x)
            return
        c = ('T', next(self.fidc))
        st = st.copy()
        st.store[c] = clo
        fv, _ = self.find_closure(st, ('ref', c, (), None))
        if fv is None or fv[0] != 'clo':
            raise Undecided('predicate')
        for kk, s, v in self.call_closure(st, fr, fv, ('ref', c, (), None), [x]):
            if kk != 'ret':
                yield s, None
                continue
            for tv in (True, False):
                g = self.assume(s, v, tv)
                if g is not None:
                    yield g, tv


ret2 = unroll.ret


class Opaque(Exception):
    pass


def elem(v, i):
    """element i of an array after updates of parts of it"""
    if v[0] == 'arr' and i < len(v[1]):
        return v[1][i]
    if v[0] == 'upds' and v[2][0] == 'i' and v[3][0] == 'i':
        return elem(v[4], i - v[2][1]) if 0 <= i - v[2][1] < v[3][1] else elem(v[1], i)
    raise Opaque(v)


def bits(st, t, w=128):
    """the low w bits of a term: 0, 1, or ('bit', byte, k)"""
    if t[0] == 'i':
        return [(t[1] >> k) & 1 for k in range(w)]
    if t[0] == 'at' and t[1][0] in ('upds', 'arr') and t[2][0] == 'i':
        return bits(st, elem(t[1], t[2][1]), w)
    if t[0] == 'arg':
        f = st.facts.get(t)
        if f and f[0] == 'R' and len(f[1]) == 1 and f[1][0][0] == f[1][0][1]:
            return bits(st, ('i', f[1][0][0]), w)
        return [('bit', t[1], k) if k < 8 else 0 for k in range(w)]
    if t[0] == 'int':
        out = []
        for b in t[1]:
            out += bits(st, b, 8)
        return (out + [0] * w)[:w]
    if t[0] == 'op':
        o, a, b = t[1:]
        if o.startswith('Shl') and b[0] == 'i':
            x = bits(st, a, w)
            return ([0] * b[1] + x)[:w]
        if o in ('BitOr', 'BitXor', 'BitAnd'):
            x, y = bits(st, a, w), bits(st, b, w)
            return [bit(o, p, q) for p, q in zip(x, y)]
        if o == 'Mul':
            for p, q in ((a, b), (b, a)):
                if q[0] == 'i' and q[1] > 0 and q[1] & (q[1] - 1) == 0:
                    return ([0] * (q[1].bit_length() - 1) + bits(st, p, w))[:w]
    if t[0] == 'cast' and t[1].lstrip('iu') in ('8', '16', '32', '64', '128', 'size'):
        n = {'size': 64}.get(t[1][1:]) or int(t[1][1:])
        x = bits(st, t[2], w)
        if n >= w:
            return x
        return x[:n] + [x[n - 1] if t[1][0] == 'i' else 0] * (w - n)
    if t[0] == 'lin':
        acc = bits(st, ('i', t[1]), w) if t[1] >= 0 else None
        for term, k in t[2]:
            if k <= 0 or k & (k - 1) or acc is None:
                raise Opaque(t)
            x = ([0] * (k.bit_length() - 1) + bits(st, term, w))[:w]
            if any(p != 0 and q != 0 for p, q in zip(acc, x)):
                raise Opaque(t)
            acc = [p if q == 0 else q for p, q in zip(acc, x)]
        return acc
    raise Opaque(t)


def bit(o, p, q):
    if o == 'BitAnd':
        return 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else opq(p, q)
    if p == 0:
        return q
    if q == 0:
        return p
    if o == 'BitOr':
        return 1 if p == 1 or q == 1 else p if p == q else opq(p, q)
    return 0 if p == q else opq(p, q)


def opq(p, q):
    raise Opaque((p, q))


def cases(n, be):
    """(buffer, expected bytes least significant first or None) for from_*"""
    for ln in range(n + 3):
        if ln <= n:
            buf = [('arg', 'b%d' % i) for i in range(ln)]
            yield buf, (buf[::-1] if be else buf)
            continue
        val = [('arg', 'b%d' % i) for i in range(n)]
        x = ln - n
        for j in [None] + list(range(x)):
            for v in (1, 16, 128, 255) if j is not None else (0,):
                extra = [T0] * x
                if j is not None:
                    extra[j] = ('i', v)
                yield (extra + val, None if j is not None else val[::-1]) if be else (val + extra, None if j is not None else val)
    # the bytes that do not fit may also all be set, the others zero
    z = [T0] * n
    e = [('i', 255)] * 2
    yield (e + z if be else z + e), None


def show_buf(b):
    return '[%s]' % ', '.join(str(x[1]) for x in b)


def seen(st, before):
    return any(k[0] == 'arg' and st.facts[k] != before.get(k) for k in st.facts)


def run(I, f, args, st):
    return I.run_fn(f, args, st, 0)


def setup(c, n):
    return Bytes(c, n, events=gdbsem.events, tokens=hexnum.tokens, atoms=gdbsem.atoms, models=gdbsem.MODELS), State()


def dec(ctx, c, f, ty, n, be):
    name = '%s::from_%s_bytes' % (ty, 'be' if be else 'le')
    for buf, want in cases(n, be):
        I, st = setup(c, n)
        for b in buf:
            if b[0] == 'arg':
                st.facts[b] = ('R', ((0, 255),))
        before = dict(st.facts)
        st.store[('T', 'buf')] = ('arr', tuple(buf))
        rs = run(I, f, [('ref', ('T', 'buf'), (('sl', T0, ('i', len(buf))),), None)], st)
        for kind, s, v in rs:
            ctx.count('paths')
            if kind == 'panic':
                ctx.violation(name + ':panic', '%s can panic for a buffer of %d bytes: %s' % (name, len(buf), show_buf(buf)))
                return
            if v[0] != 'adt' or v[3] not in ('Some', 'None'):
                raise Undecided('result ' + v[0])
            if (v[3] == 'None') != (want is None):
                ctx.violation(name + ':overflow', '%s of the buffer %s is %s where %s is due' % (
                    name, show_buf(buf), v[3], 'None (the number does not fit)' if want is None else 'Some: the number fits'))
                return
            if want is None:
                continue
            exp = []
            for b in want:
                exp += bits(s, b, 8)
            exp += [0] * (8 * n - len(exp))
            got = bits(s, v[4][0], 8 * n)
            if got != exp:
                k = [i for i in range(8 * n) if got[i] != exp[i]][0]
                msg = 'bit %d of %s of the buffer %s is %s where %s is due' % (k, name, show_buf(buf), sb(got[k]), sb(exp[k]))
                if seen(s, before) and got[k] not in (0, 1) or got[k] in (0, 1) and exp[k] not in (0, 1) and seen(s, before):
                    ctx.undecided(msg)
                else:
                    ctx.violation(name + ':bits', msg)
                return
        ctx.count('buffers')


def sb(b):
    return str(b) if b in (0, 1) else 'bit %d of %s' % (b[2], b[1])


def enc(ctx, c, f, ty, n, be):
    name = '%s::to_%s_bytes' % (ty, 'be' if be else 'le')
    for ln in list(range(n)) + [n, n + 1, n + 2]:
        I, st = setup(c, n)
        bs = [('arg', 'v%d' % i) for i in range(n)]
        for b in bs:
            st.facts[b] = ('R', ((0, 255),))
        buf = [('arg', 'old%d' % i) for i in range(ln)]
        st.store[('T', 'buf')] = ('arr', tuple(buf))
        rs = run(I, f, [bs[0] if n == 1 else ('int', tuple(bs)), ('ref', ('T', 'buf'), (('sl', T0, ('i', ln)),), None)], st)
        for kind, s, v in rs:
            ctx.count('paths')
            if kind == 'panic':
                ctx.violation(name + ':panic', '%s can panic for a buffer of %d bytes' % (name, ln))
                return
            if v[0] != 'adt' or v[3] not in ('Some', 'None'):
                raise Undecided('result ' + v[0])
            if (v[3] == 'None') != (ln < n):
                ctx.violation(name + ':room', '%s into a buffer of %d bytes returns %s' % (name, ln, v[3]))
                return
            if ln < n:
                continue
            if v[4][0] != ('i', n):
                if v[4][0][0] != 'i':
                    raise Undecided('length returned')
                ctx.violation(name + ':length', '%s into a buffer of %d bytes returns the length %d where %d bytes are due' % (name, ln, v[4][0][1], n))
                return
            p = ('ref', ('T', 'buf'), (), None)
            got = [I.load(s, *unroll.elemptr(I, s, p, ('i', i))[1:3]) for i in range(ln)]
            exp = (bs[::-1] if be else bs) + buf[n:]
            for i in range(n):
                if bits(s, got[i], 8) != bits(s, exp[i], 8):
                    ctx.violation(name + ':bytes', 'byte %d written by %s into a buffer of %d bytes is not byte %d of the number' % (i, name, ln, n - 1 - i if be else i))
                    return
        ctx.count('buffers')


def check(ctx):
    ctx.rule('Every BeBytes/LeBytes impl is interpreted over MIR for buffers of 0 up to n + 2 bytes (n: size of the integer), the bytes being symbolic: from_*_bytes has to '
             'return the integer made of the bits of the buffer in that byte order, padded with zero bytes on the most significant side, None if and only if a byte beyond '
             'its size is nonzero; to_*_bytes has to write the n bytes and return n, or None if the buffer is too small.')
    c = env.crate('std')
    for ty in fviews.INTS:
        n = {'size': 8}.get(ty[1:]) or int(ty[1:]) // 8
        for o in ('be', 'le'):
            for d, fn in (('from', dec), ('to', enc)):
                f = funcs.find_key(c, fviews.VIEWS['bytes.%s.%s_%s' % (ty, d, o)][1])
                if f is None:
                    ctx.undecided('%s::%s_%s_bytes is not in the current tree' % (ty, d, o))
                    continue
                try:
                    fn(ctx, c, f, ty, n, o == 'be')
                except (Undecided, Opaque) as e:
                    ctx.undecided('%s::%s_%s_bytes: %s' % (ty, d, o, str(e)[:200]))
