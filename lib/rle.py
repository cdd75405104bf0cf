"""C02: the run-length encoder as a transducer. ResponseWriter::new / write / flush are interpreted over MIR for a run of one symbolic byte of every length,
followed by another symbolic byte: what is sent must decode to the run, and what stays pending must be the new byte."""
import env
import extract
import fviews
import funcs
import gdbsem
import show
import unroll
from absint import *

MAX_RUN = 230
DATA = ((1, 34), (37, 41), (43, 124), (126, 255))       # what can occur in a reply: # $ * } are escaped
RESERVED = {35: "'#'", 36: "'$'"}


class Enc:
    def __init__(self, c):
        self.c = c
        self.I = unroll.Unroll(c, None, events=gdbsem.events, tokens=None, atoms=gdbsem.atoms, models=gdbsem.MODELS)
        self.fn = {}
        for n in ('new', 'write', 'flush'):
            f = funcs.find_key(c, fviews.RW + n)
            if f is None:
                raise Undecided('ResponseWriter::%s is gone' % n)
            self.fn[n] = f
        self.ty = self.I.deref_ty(self.fn['write'].locals[1][0])
        self.cell = ('T', 'self')

    def new(self, on):
        rs = [x for x in self.I.run_fn(self.fn['new'], [('arg', 'conn'), ('i', on)], State(), 0)]
        if len(rs) != 1 or rs[0][0] != 'ret':
            raise Undecided('ResponseWriter::new')
        st = rs[0][1]
        st.store[self.cell] = rs[0][2]
        for b in 'cd':
            st.facts[('arg', b)] = ('R', DATA)
        return st

    def write(self, st, byte):
        """states after writing one byte successfully"""
        out = []
        for k, s, v in self.I.run_fn(self.fn['write'], [('ref', self.cell, (), self.ty), byte], st.copy(), 0):
            if k == 'panic':
                out.append((s, 'panic'))
            elif v[0] == 'adt' and v[3] == 'Ok':
                out.append((s, None))
            elif v[0] == 'adt' and v[3] == 'Err':
                pass                # a connection error
            else:
                raise Undecided('write returns ' + v[0])
        return out

    def flush(self, st):
        out = []
        for k, s, v in self.I.run_fn(self.fn['flush'], [st.store[self.cell]], st.copy(), 0):
            if k == 'panic':
                out.append((s, 'panic'))
            elif v[0] == 'adt' and v[3] == 'Ok':
                out.append((s, None))
        return out

    def sent(self, st):
        out = []
        for x in st.trace:
            if x[0] == 'e' and x[1] == 'conn.write':
                out.append(x[2][-1])
            elif x[0] == 'e' and x[1] == 'conn.write_all':
                raise Undecided('write_all')
        return out


def decode(bs):
    """-> (decoded bytes, None) or (.., complaint)"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if b == ('i', 42):
            if i + 1 == len(bs):
                return out, "a '*' with no repeat count"
            n = bs[i + 1]
            if n[0] != 'i':
                raise Undecided('a symbolic repeat count')
            if not out:
                return out, "a '*' with no byte to repeat"
            if not 32 <= n[1] <= 126:
                return out, 'the repeat count byte %d, which is not printable' % n[1]
            if n[1] in RESERVED:
                return out, 'the reserved repeat count byte %s' % RESERVED[n[1]]
            out += [out[-1]] * (n[1] - 29)
            i += 2
        else:
            out.append(b)
            i += 1
    return out, None


def body(bs):
    """strip the leading '$'"""
    if not bs:
        return bs
    if bs[0] != ('i', 36):
        raise Undecided('the first byte sent is not $')
    return bs[1:]


def fields(st, cell):
    v = st.store[cell]
    return tuple(x if x[0] in ('i', 'arg') else None for x in v[4])


def c02(ctx, cfg):
    c = env.crate(cfg)
    E = Enc(c)
    I = E.I
    C, D = ('arg', 'c'), ('arg', 'd')
    st = E.new(1)
    seen = {}
    where = E.fn['write'].d.get('span', '')
    for n in range(1, MAX_RUN + 1):
        nx = E.write(st, C)
        if any(p for _, p in nx):
            ctx.violation('rle:panic', '%s: writing a run of %d equal bytes can panic in ResponseWriter::write' % (where, n))
            return
        if len(nx) != 1:
            raise Undecided('a run of %d bytes forks into %d paths' % (n, len(nx)))
        st = nx[0][0]
        ctx.count('run_lengths')
        # the end of the run, by another byte
        for s, p in E.write(st, D):
            if I.truth(s, cmp_term('Eq', D, C)) is True or I.truth(s, cmp_term('Eq', C, D)) is True:
                continue
            if p:
                ctx.violation('rle:panic', '%s: ending a run of %d equal bytes can panic' % (where, n))
                continue
            ctx.count('paths')
            judge(ctx, where, n, body(E.sent(s)), [C] * n, 'a run of %d equal bytes' % n)
            # a byte that is still pending must come out when a third one arrives
            for s2, p2 in E.write(s, C):
                if p2 or I.truth(s2, cmp_term('Eq', D, C)) is True or I.truth(s2, cmp_term('Eq', C, D)) is True:
                    continue
                judge(ctx, where, n, body(E.sent(s2)), [C] * n + [D], 'a run of %d equal bytes and a single other one' % n)
        # the end of the run, by the end of the reply
        for s, p in E.flush(st):
            if p:
                ctx.violation('rle:panic', '%s: flushing after a run of %d equal bytes can panic' % (where, n))
                continue
            bs = body(E.sent(s))
            if ('i', 35) not in bs:
                ctx.violation('rle:flush', '%s: flushing a reply that ends in a run of %d equal bytes sends no \'#\'' % (where, n))
                continue
            i = bs.index(('i', 35))
            ctx.count('flushes')
            judge(ctx, where, n, bs[:i], [C] * n, 'a reply that ends in a run of %d equal bytes' % n)
            tail = bs[i + 1:]
            if len(tail) != 2:
                t, bad = decode(tail)
                if bad or len(t) != 2 or t[0] != t[1]:
                    ctx.violation('rle:checksum', '%s: after a run of %d equal bytes, the checksum is sent as %d bytes' % (where, n, len(tail)))
        f = fields(st, E.cell)
        if f in seen:
            ctx.sample('%s: the encoder state after a run of %d equals the one after %d, so longer runs repeat the same states' % (cfg, n, seen[f]))
            ctx.count('state_recurrences')
            break
        seen[f] = n


def judge(ctx, where, n, bs, want, what):
    got, bad = decode(bs)
    if bad:
        ctx.violation('rle:count', '%s: %s is encoded with %s' % (where, what, bad))
    elif got != want:
        ctx.violation('rle:loss', '%s: %s is encoded as %s, which decodes to %d bytes%s' % (
            where, what, ' '.join(show.P(x) for x in bs)[:200], len(got), '' if len(got) != len(want) else ' in another order'))


def check(ctx):
    ctx.rule("ResponseWriter::new, write and flush are interpreted over MIR with one symbolic byte repeated 1, 2, 3, ... times until the encoder's state recurs; after every "
             "length the run is ended by a different symbolic byte, and by the end of the reply. What was sent, decoded by the protocol's rule (a '*' repeats the byte before it "
             "n-29 more times), has to be the run; a repeat count has to be printable and not '#' or '$'.")
    for cfg in ('none',):
        try:
            c02(ctx, cfg)
        except (Undecided, env.CheckError) as e:
            ctx.undecided('run-length encoder (%s): %s' % (cfg, e))
    try:
        writers(ctx)
    except (Undecided, env.CheckError) as e:
        ctx.undecided('who encodes: %s' % e)


def writers(ctx):
    """every packet is encoded only if the target allows it"""
    ctx.rule('every ResponseWriter::new reached by interpreting representative packets and report_stop gets what Target::use_rle answered: not a constant true, another '
             'capability or the opposite.')
    c = env.crate('std')
    gdbsem.WRITERS.clear()
    for n in ('qRcmd', None, 'g', 'c'):
        extract.extract(c, n)
    fviews.summarise('sm.running.report_stop')
    seen = set()
    for fn, v, known in sorted(gdbsem.WRITERS, key=repr):
        seen.add(fn)
        ctx.count('reply_writers')
        if v == gdbsem.USE_RLE or v == T0 or v == T1 and known in (('B', True), ('R', ((1, 1),))):
            continue
        if v == T1 or v[0] == 'gate' or v[0] in ('not', 'op1') and gdbsem.USE_RLE in v:
            ctx.violation('writer:' + fn, '%s makes a reply writer that encodes runs %s, whether or not the target allows run-length encoding' % (
                fn, 'always' if v == T1 else 'depending on ' + show.P(v)))
        else:
            ctx.undecided('%s: the reply writer encodes runs depending on %s' % (fn, show.P(v)))
    if not seen:
        ctx.undecided('no reply writer was found')
