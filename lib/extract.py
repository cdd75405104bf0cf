"""Per-packet behavioural summaries: for every packet name, the set of (conditions -> effects, reply, outcome)
of parsing and handling a packet whose body starts with that name."""
import sys, os, time
sys.path.insert(0, os.path.dirname(__file__))
import mir
import gdbsem
from absint import *

NAMES = ("? D g G H k m M qAttached qfThreadInfo qsThreadInfo qSupported T vKill qXfer:features:read c s vCont X "
         "QStartNoAckMode p P ! qC QDisableRandomization QEnvironmentHexEncoded QEnvironmentReset QEnvironmentUnset "
         "QSetWorkingDir QStartupWithShell R vAttach vRun qRcmd qOffsets bc bs qXfer:memory-map:read qXfer:auxv:read "
         "qXfer:exec-file:read vFile:open vFile:close vFile:pread vFile:pwrite vFile:fstat vFile:unlink vFile:readlink "
         "vFile:setfs QCatchSyscalls qThreadExtraInfo qRegisterInfo qXfer:libraries-svr4:read QTDPsrc QTDP QTinit QTBuffer "
         "QTStart QTStop QTFrame qTBuffer qTStatus qTP qTfP qTsP qTfV qTsV z Z").split()

PKT = ('sym', 'pkt')
END = ('sym', 'end')
BODY = ('slice', ('in', PKT), T1, sub(END, T1))


def tyid(I, pred):
    for i, r in enumerate(I.T):
        if r and pred(r):
            return i
    return None


def initial(I, name):
    """state with a packet `$NAME...#cc` in the buffer"""
    st = State()
    # body_range = 1..end ; end+2 < len (checksum), end >= 1 + len(NAME)
    st.facts[END] = ('R', ((1 + (len(name) if name else 0), INF),))
    st.facts[('lin', tuple(sorted(((('len', PKT), 1), (END, -1)), key=repr)), 0)] = ('R', ((3, INF),))
    st.facts[('len', PKT)] = ('R', ((4 + (len(name) if name else 0), INF),))
    for i, ch in enumerate((name or '').encode()):
        st.facts[('at', ('deref', PKT), ('i', 1 + i))] = ('R', ((ch, ch),))
    return st


def packetbuf(I, fr_ty):
    """construct the PacketBuf value of type id fr_ty"""
    r = I.ty(fr_ty)
    fs = []
    for n, t in [(f[0], f[1]) for f in r['variants'][0]['fields']]:
        tr = I.ty(t)
        if tr['k'] == 'ref':
            fs.append(PKT)
        elif tr['k'] == 'adt' and 'Range' in tr['path']:
            fs.append(I.mkadt(t, 0, [T1, END]))
        else:
            return None
    return I.mkadt(fr_ty, 0, fs)


def find_fn(crate, suffix, pred=lambda f: True):
    c = [f for k, f in crate.fns.items() if f.local and k.split('<impl')[0].endswith(suffix) or f.local and k.endswith(suffix)]
    c = [f for f in c if pred(f)]
    return c


def parse_fn(crate):
    for k, f in crate.fns.items():
        if f.local and f.path.startswith('protocol::commands::Command') and f.path.endswith('::from_packet') and '::<T>' not in k and "<'_>" in k or \
                f.local and k == "protocol::commands::Command::<'a>::from_packet::<impl Target>":
            return f
    return None


def mentions(t, consts):
    return isinstance(t, tuple) and (t in consts or any(mentions(x, consts) for x in t))


def extract(crate, name, names=NAMES, **kw):
    I = gdbsem.make(crate, **kw)
    I.prefix = {'base': BODY, 'name': name.encode() if name else None, 'names': [n.encode() for n in names]}
    f = crate.fns["protocol::commands::Command::<'a>::from_packet::<impl Target>"]
    st = initial(I, name)
    pb = packetbuf(I, f.locals[2][0])
    outs = I.run_fn(f, [('arg', 'target'), pb], st, 0)
    consts = {('b', n.encode()) for n in names if len(n) > 1 and not (name and n.startswith(name))}
    for k, s, v in outs:
        for t in s.facts:
            if t[0] != 'phi' and mentions(t, consts):
                raise Undecided('packet names are recognised in a way this analysis does not follow: %s' % repr(t)[:200])
    hp = crate.fns['stub::core_impl::GdbStubImpl::<T, C>::handle_packet']
    paths = []
    for k, s, v in outs:
        if k == 'panic':
            paths.append(('panic', s, None))
            continue
        if v[0] != 'adt':
            raise Undecided('parse result')
        if v[3] == 'None':
            paths.append(('malformed', s, None))
            continue
        pk = I.mkadt(hp.locals[4][0], next(i for i, x in enumerate(I.ty(hp.locals[4][0])['variants']) if x['name'] == 'Command'), [v[4][0]])
        for k2, s2, v2 in I.run_fn(hp, [('arg', 'self'), ('arg', 'target'), ('sym', 'conn'), pk], s, 0):
            paths.append((k2, s2, v2))
    return I, paths


if __name__ == '__main__':
    c = mir.Crate(sys.argv[1])
    sel = sys.argv[2:] or NAMES
    tot = time.time()
    for n in sel:
        t = time.time()
        try:
            I, paths = extract(c, n)
            print('%-30s paths %4d states %6d  %.2fs opaque %s' % (n, len(paths), I.nstates, time.time() - t, I.opaque_used))
        except Undecided as e:
            print('%-30s UNDECIDED %s' % (n, e))
    print('total', time.time() - tot)
