"""C03: hexadecimal numbers in replies. ResponseWriter::write_num is interpreted over MIR for every width of the number and every count of leading zero
bytes, the remaining bytes being symbolic (the first of them nonzero): the bytes it hands to write_hex have to be exactly those."""
import env
import fviews
import funcs
import gdbsem
import show
import unroll
from absint import *


class Num(unroll.Unroll):
    def c_is_zero(self, st, fr, cal, a, tys, t):
        v = self.deref_all(st, a[0])
        bs = v[1] if v[0] == 'int' else [v]
        if any(b[0] == 'i' and b[1] or st.facts.get(b, ('', 0))[1] == ((1, 255),) for b in bs):
            return unroll.ret(st, T0)
        if all(b == T0 for b in bs):
            return unroll.ret(st, T1)
        raise Undecided('is_zero of a symbolic number')

    def adaptor(self, st, fr, cal, a, tys, t):
        if cal.get('trait') != 'std::iter::Iterator' or a[0][0] != 'it':
            return NotImplemented
        return unroll.ret(st, ('it', 'lz', cal['name'], UNIT, a[0], a[1], T0, ('b', False)))

    c_filter = c_skip_while = c_take_while = adaptor

    def nexts(self, st, fr, it):
        if it[0] == 'it' and it[1] == 'lz' and it[2] in ('filter', 'skip_while', 'take_while'):
            return self.lazy(st, fr, it)
        return super().nexts(st, fr, it)

    def lazy(self, st, fr, it):
        kind, out = it[2], []
        if kind == 'take_while' and it[7] == ('b', True):
            return [(st, it, None)]
        todo = [(st, it)]
        for _ in range(40):
            nxt = []
            for s, cur in todo:
                rs = self.nexts(s, fr, cur[4])
                if rs is None:
                    return None
                for s2, ni, x in rs:
                    me = cur[:4] + (ni,) + cur[5:]
                    if ni == 'panic' or x is None:
                        out.append((s2, ni if ni == 'panic' else me, None))
                    elif kind == 'skip_while' and cur[7] == ('b', True):
                        out.append((s2, me, x))
                    else:
                        for s3, yes in self.holds(s2, fr, cur[5], x):
                            if yes is None:
                                out.append((s3, 'panic', None))
                            elif kind == 'skip_while':
                                nxt.append((s3, me)) if yes else out.append((s3, me[:7] + (('b', True),), x))
                            elif yes:
                                out.append((s3, me, x))
                            elif kind == 'filter':
                                nxt.append((s3, me))
                            else:
                                out.append((s3, me[:7] + (('b', True),), None))
            todo = nxt
            if not todo:
                return out
        raise Undecided('iterator bound')

    def holds(self, st, fr, clo, x):
        """(state, does the predicate hold for the item x) for every way"""
        c, cx = ('T', next(self.fidc)), ('T', next(self.fidc))
        st = st.copy()
        st.store[c], st.store[cx] = clo, x
        fv, _ = self.find_closure(st, ('ref', c, (), None))
        if fv is None or fv[0] != 'clo':
            raise Undecided('predicate')
        for kk, s, v in self.call_closure(st, fr, fv, ('ref', c, (), None), [('ref', cx, (), None)]):
            if kk != 'ret':
                yield s, None
                continue
            s = s.copy()
            s.store.pop(c, None)
            s.store.pop(cx, None)
            for tv in (True, False):
                g = self.assume(s, v, tv)
                if g is not None:
                    yield g, tv


def tokens(cal):
    if gdbsem.is_rw(cal) and cal['name'] in ('write_hex', 'write', 'write_str', 'write_hex_buf', 'write_dec'):
        return gdbsem.TOKENS[cal['name']]
    return None


def check(ctx):
    ctx.rule('ResponseWriter::write_num is interpreted over MIR for numbers of 1, 2, 4, 8 and 16 bytes, of which the first k are zero, the next is a symbolic nonzero byte and '
             'the others are arbitrary symbolic bytes: what it passes to write_hex are the bytes from the first nonzero one on, most significant first (for zero: one zero byte).')
    c = env.crate('std')
    f = funcs.find_key(c, fviews.RW + 'write_num')
    if f is None:
        fs = [x for x in c.fns if 'ResponseWriter' in x and '::write_num' in x and 'closure' not in x] if hasattr(c, 'fns') else []
        f = c.fns[fs[0]] if fs else None
    if f is None:
        ctx.undecided('ResponseWriter::write_num is not in the current tree')
        return
    for n in (1, 2, 4, 8, 16):
        for k in range(n + 1):
            I = Num(c, n, events=gdbsem.events, tokens=tokens, atoms=gdbsem.atoms, models=gdbsem.MODELS)
            st = State()
            bs = [T0] * k + [('arg', 'b%d' % i) for i in range(k, n)]
            for i in range(k, n):
                st.facts[bs[i]] = ('R', ((1 if i == k else 0, 255),))
            want = bs[k:] if k < n else [T0]
            if n == 1:
                arg = bs[0]
            else:
                arg = ('i', 0) if k == n else ('int', tuple(bs[::-1]))
            try:
                rs = I.run_fn(f, [('ref', ('T', 'rw'), (), None), arg], st, 0)
            except Undecided as e:
                ctx.undecided('write_num of %d bytes: %s' % (n, e))
                return
            for kind, s, v in rs:
                ctx.count('paths')
                if kind == 'panic':
                    ctx.violation('write_num:panic', 'write_num can panic for a number of %d bytes of which the first %d are zero' % (n, k))
                    return
                got = [x[2][0] for x in s.trace if x[0] == 't' and x[1] == 'hex']
                if [x for x in s.trace if x[0] == 't' and x[1] != 'hex']:
                    ctx.undecided('write_num writes something other than hex bytes')
                    return
                if got != want:
                    ctx.violation('write_num:digits', 'ResponseWriter::write_num writes %d of the bytes of a number (%s) where %s is due, for numbers of %d bytes of which '
                                  'the first %d are zero' % (len(got), ' '.join(show.P(x) for x in got), ' '.join(show.P(x) for x in want), n, k))
                    return
            ctx.count('numbers')
