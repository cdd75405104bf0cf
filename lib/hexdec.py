"""C04: decode_hex. The function is interpreted over MIR for short texts of symbolic digits, the generic number being a sum of multiples of values of digits; every sum
it can return is compared with the hexadecimal value of the digits."""
import env
import fviews
import funcs
import gdbsem
import show
import unroll
from absint import *
from models import slen, it_slice

OPT_NONE = unroll.opt(None)


def num(items, k):
    """sum of coefficient * value of a byte-sized term, and a constant"""
    d = {}
    for t, c in items:
        d[t] = d.get(t, 0) + c
    return ('gnum', tuple(sorted(((t, c) for t, c in d.items() if c), key=repr)), k)


class Hex(unroll.Unroll):
    def gnum(self, st, v):
        v = self.deref_all(st, v)
        return v if v[0] == 'gnum' else None

    def from_prim(self, st, fr, cal, a, tys, t):
        if cal.get('trait') != 'num_traits::FromPrimitive':
            return NotImplemented
        v = self.deref_all(st, a[0])
        return unroll.ret(st, unroll.opt(num((), v[1]) if v[0] == 'i' else num(((v, 1),), 0)))

    c_from_u8 = c_from_u16 = c_from_u32 = c_from_u64 = c_from_usize = from_prim

    def c_zero(self, st, fr, cal, a, tys, t):
        return unroll.ret(st, num((), 0)) if (cal.get('trait') or '').endswith('Zero') else super().c_zero(st, fr, cal, a, tys, t)

    def arith(self, st, x, y, op):
        if op == 'add':
            return num(x[1] + y[1], x[2] + y[2])
        if x[1]:
            x, y = y, x
        if x[1]:
            raise Undecided('product of two numbers')
        return num([(t, c * x[2]) for t, c in y[1]], y[2] * x[2])

    def checked(self, st, fr, cal, a, tys, t):
        x, y = self.gnum(st, a[0]), self.gnum(st, a[1])
        if x is None or y is None:
            return NotImplemented
        op = cal['name'].split('_')[-1]
        v = self.arith(st, x, y, op)
        out = unroll.ret(st.copy(), unroll.opt(v))
        if biggest(v) > 255:
            s = st.copy()
            s.emit(('overflow', v))
            out = out + unroll.ret(s, OPT_NONE)
        return out

    c_checked_add = c_checked_mul = checked

    def plain(self, st, fr, cal, a, tys, t):
        x, y = self.gnum(st, a[0]), self.gnum(st, a[1]) if len(a) > 1 else None
        if x is None or y is None:
            return NotImplemented
        v = self.arith(st, x, y, cal['name'])
        out = unroll.ret(st.copy(), v)
        return out + [['panic', st.copy(), None]] if biggest(v) > 255 else out

    c_add = c_mul = plain

    def c_clone(self, st, fr, cal, a, tys, t):
        v = self.gnum(st, a[0])
        return NotImplemented if v is None else unroll.ret(st, v)

    def c_rev(self, st, fr, cal, a, tys, t):
        it = a[0]
        if it[0] != 'it':
            return NotImplemented
        xs = []
        for _ in range(8):
            rs = self.nexts(st, fr, it)
            if rs is None or len(rs) != 1 or rs[0][1] == 'panic':
                return NotImplemented
            st, it, x = rs[0]
            if x is None:
                return unroll.ret(st, ('it', 'list', tuple(xs[::-1])))
            xs.append(x)
        return NotImplemented

    def nexts(self, st, fr, it):
        if it[0] == 'it' and it[1] == 'list':
            return [(st, ('it', 'list', it[2][1:]), it[2][0] if it[2] else None)]
        return super().nexts(st, fr, it)


def digit(b):
    c = chr(b)
    return int(c, 16) if c in '0123456789abcdefABCDEF' else 0 if c in 'xX' else None


def value(t, env):
    if t in env:
        return env[t]
    if t[0] == 'i':
        return t[1]
    if t[0] == 'lin':
        return sum(value(x, env) * c for x, c in t[1]) + t[2]
    if t[0] in ('cast', 'as') and len(t) >= 2 and isinstance(t[-1], tuple):
        return value(t[-1], env)
    raise Undecided('value of ' + show.P(t))


def biggest(v):
    """an upper bound of a number, every digit being at most 15"""
    return sum(c * 15 for _, c in v[1]) + v[2]


def symbols(t, ds):
    return {d for d in ds if d in set(walk(t))}


def walk(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from walk(x)


def allowed(st, d):
    f = st.facts.get(d)
    if f is None:
        return range(256)
    if f[0] != 'R':
        raise Undecided('facts about a digit')
    return [b for lo, hi in f[1] for b in range(int(max(lo, 0)), int(min(hi, 255)) + 1)]


def judge(st, v, ds):
    """what is wrong with the outcome v for the digits ds (None: nothing)"""
    sets = [allowed(st, d) for d in ds]
    if any(not s for s in sets):
        return None
    bad = any(all(digit(b) is None for b in s) for s in sets)
    some_bad = any(digit(b) is None for s in sets for b in s)
    if v[0] == 'adt' and v[3] == 'Err':
        if not ds or bad:
            return None
        ovs = [x[1] for x in st.trace if x[0] == 'overflow']
        if any(digit(b) is not None for s in sets for b in s) and not ovs and not some_bad:
            return 'refuses %s'
        # a number that fits a byte must not be reported as too big for a byte
        if len(ds) <= 2 and ovs and not some_bad:
            return 'reports as too big for a byte %s'
        return None
    if not (v[0] == 'adt' and v[3] == 'Ok'):
        raise Undecided('outcome')
    if not ds:
        return 'accepts %s'
    if bad or some_bad:
        return 'accepts %s'
    n = v[4][0]
    if n[0] != 'gnum':
        raise Undecided('number')
    k = n[2]
    used = set()
    for i, d in enumerate(ds):
        items = [(t, c) for t, c in n[1] if symbols(t, ds) == {d}]
        used |= {t for t, _ in items}
        want = 16 ** (len(ds) - 1 - i)
        diffs = {sum(c * value(t, {d: b}) for t, c in items) - want * digit(b) for b in sets[i]}
        if len(diffs) != 1:
            return 'gives a wrong number for %s'
        k += diffs.pop()
    if {t for t, _ in n[1]} - used:
        raise Undecided('number')
    return None if k == 0 else 'gives a wrong number for %s'


CLASSES = [((48, 57),), ((65, 70),), ((97, 102),), ((88, 88), (120, 120)), ((0, 47), (58, 64), (71, 87), (89, 96), (103, 119), (121, 255))]


def texts():
    yield ()
    for c in CLASSES:
        yield (c,)
    for c in CLASSES:
        for d in CLASSES:
            yield (c, d)
    yield (CLASSES[0], CLASSES[1], CLASSES[2])
    yield (CLASSES[2], CLASSES[3], CLASSES[0], CLASSES[1])
    for n in (5, 8, 9, 16, 17, 32, 33):
        yield (CLASSES[0],) * n


def check(ctx):
    ctx.rule('decode_hex is interpreted over MIR for texts of 0 to 4 symbolic bytes (and of 5 to 33 symbolic digits), each anywhere in a class (digits, upper case, lower case, x, anything else): it returns the sum of '
             'the digits weighted by powers of 16, fails for the empty text and for texts with a byte of the last class, and otherwise fails only for a sum beyond the number type.')
    c = env.crate('std')
    f = funcs.find_key(c, 'protocol::common::hex::decode_hex::<I>')
    if f is None:
        fs = [x for k, x in c.fns.items() if k.startswith('protocol::common::hex::decode_hex::<') and x.local]
        f = fs[0] if len(fs) == 1 else None
    if f is None:
        ctx.undecided('decode_hex is not in the current tree')
        return
    for text in texts():
        I = Hex(c, None, models=gdbsem.MODELS)
        st = State()
        ds = [('arg', 'd%d' % i) for i in range(len(text))]
        for d, r in zip(ds, text):
            st.facts[d] = ('R', r)
        st.store[('T', 'buf')] = ('arr', tuple(ds))
        try:
            for kind, s, v in I.run_fn(f, [('ref', ('T', 'buf'), (('sl', T0, ('i', len(ds))),), None)], st, 0):
                ctx.count('paths')
                if kind == 'panic':
                    raise Undecided('panic')
                w = judge(s, v, ds)
                if w:
                    ctx.violation('decode_hex:%d:%s' % (len(ds), w.split()[0]), 'decode_hex %s; it gives %s' % (
                        w % ('the empty text' if not ds else 'texts of %d bytes in %s' % (len(ds), ', '.join(
                            '/'.join('%02x-%02x' % x for x in r) for r in (text if len(set(text)) > 1 else text[:1])))), show.P(v)[:200]))
                    return
        except Undecided as e:
            ctx.undecided('decode_hex of %d bytes: %s' % (len(ds), e))
            return
        ctx.count('texts')
