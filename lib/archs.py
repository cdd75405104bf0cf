"""The built-in architectures (gdbstub_arch): register file layout, register numbering, target descriptions, breakpoint kinds, wiring."""
import json
import os
import re
import xml.etree.ElementTree as ET
import env
import mir
import summ
import unroll
from absint import *

X = ('arg', 'x')
LEN = ('len', X)
ID = ('arg', 'id')


# ---------------------------------------------------------------- reference: GDB's register files
# one entry per GDB register number, in order: (field of the Rust structure or None for bytes nobody keeps, size in bytes, RegId variant, payload)
def seq(leaf, n, size, var, first=0):
    return [((leaf % i) if leaf else None, size, var, (i + first,)) for i in range(n)]


def one(*items):
    return [(leaf, size, var, ()) for leaf, size, var in items]


SEGS = ['cs', 'ss', 'ds', 'es', 'fs', 'gs']
FPU = ['fctrl', 'fstat', 'ftag', 'fiseg', 'fioff', 'foseg', 'fooff', 'fop']


def x86(gprs, nxmm):
    return (gprs + [('segments.' + s, 4, 'Segment', (s.upper(),)) for s in SEGS] + seq('st[%d]', 8, 10, 'St')
            + [('fpu.' + s, 4, 'Fpu', (s.capitalize(),)) for s in FPU] + seq('xmm[%d]', nxmm, 16, 'Xmm') + one(('mxcsr', 4, 'Mxcsr')))


def mips(n, dsp):
    c = 'core.' if dsp else ''
    r = (seq(c + 'r[%d]', 32, n, 'Gpr') + one((c + 'cp0.status', n, 'Status'), (c + 'lo', n, 'Lo'), (c + 'hi', n, 'Hi'), (c + 'cp0.badvaddr', n, 'Badvaddr'),
                                              (c + 'cp0.cause', n, 'Cause'), (c + 'pc', n, 'Pc'))
         + seq(c + 'fpu.r[%d]', 32, n, 'Fpr') + one((c + 'fpu.fcsr', n, 'Fcsr'), (c + 'fpu.fir', n, 'Fir')))
    if dsp:
        r += one(*[('dsp.' + x, 4 if x == 'dspctl' else n, x.capitalize()) for x in ('hi1', 'lo1', 'hi2', 'lo2', 'hi3', 'lo3', 'dspctl', 'restart')])
    return r


FILES = {   # structure: {size of its parameter: layout}, byte order, program counter, padding bytes that may follow
    'ArmCoreRegs': ({None: seq('r[%d]', 13, 4, 'Gpr') + one(('sp', 4, 'Sp'), ('lr', 4, 'Lr'), ('pc', 4, 'Pc')) + seq(None, 8, 12, 'Fpr')
                     + one((None, 4, 'Fps'), ('cpsr', 4, 'Cpsr'))}, 'little', 'pc', 0),
    'AArch64CoreRegs': ({None: seq('x[%d]', 31, 8, 'X') + one(('sp', 8, 'Sp'), ('pc', 8, 'Pc'), ('cpsr', 4, 'Pstate')) + seq('v[%d]', 32, 16, 'V')
                         + [('fpsr', 4, 'System', (0b11_011_0100_0100_001,)), ('fpcr', 4, 'System', (0b11_011_0100_0100_000,))]}, 'little', 'pc', 0),
    'MipsCoreRegs': ({n: mips(n, False) for n in (4, 8)}, 'little', 'pc', 0),
    'MipsCoreRegsWithDsp': ({n: mips(n, True) for n in (4, 8)}, 'little', 'core.pc', 0),
    'Msp430Regs': ({n: one(('pc', n, 'Pc'), ('sp', n, 'Sp'), ('sr', n, 'Sr'), (None, n, 'Cg')) + seq('r[%d]', 12, n, 'Gpr') for n in (2, 4)}, 'little', 'pc', 0),
    'PowerPcCommonRegs': ({None: seq('r[%d]', 32, 4, None) + seq('f[%d]', 32, 8, None) + [(r, 4, None, ()) for r in ('pc', 'msr', 'cr', 'lr', 'ctr', 'xer', 'fpscr')]
                           + seq('vr[%d]', 32, 16, None) + [(r, 4, None, ()) for r in ('vscr', 'vrsave')]}, 'big', 'pc', 0),
    'RiscvCoreRegs': ({n: seq('x[%d]', 32, n, 'Gpr') + one(('pc', n, 'Pc')) for n in (4, 8)}, 'little', 'pc', 0),
    # (the bytes that follow are Linux' orig_eax, respectively orig_rax, fs_base and gs_base)
    'X86CoreRegs': ({None: x86(one(*[(r, 4, r.capitalize()) for r in ('eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi', 'eip', 'eflags')]), 8)}, 'little', 'eip', 4),
    'X86_64CoreRegs': ({None: x86(seq('regs[%d]', 16, 8, 'Gpr') + one(('rip', 8, 'Rip'), ('eflags', 4, 'Eflags')), 16)}, 'little', 'rip', 0x18),
    'X86SegmentRegs': ({None: [(s, 4, None, ()) for s in SEGS]}, 'little', None, 0),
    'X87FpuInternalRegs': ({None: [(s, 4, None, ()) for s in FPU]}, 'little', None, 0),
}

# RegId type -> register file, parameter size, numbers outside the register file: (first, last, variant, payload offset or None, size)
REGIDS = {
    'ArmCoreRegId': ('ArmCoreRegs', None, []),
    'AArch64RegId': ('AArch64CoreRegs', None, [(0x8000, 0xffff, 'System', 0, 8)]),
    'MipsRegId<u32>': ('MipsCoreRegsWithDsp', 4, []),
    'MipsRegId<u64>': ('MipsCoreRegsWithDsp', 8, []),
    'Msp430RegId<u16>': ('Msp430Regs', 2, []),
    'Msp430RegId<u32>': ('Msp430Regs', 4, []),
    'RiscvRegId<u32>': ('RiscvCoreRegs', 4, [(33, 64, 'Fpr', 33, 4), (65, 4160, 'Csr', 65, 4), (4161, 4161, 'Priv', None, 1)]),
    'RiscvRegId<u64>': ('RiscvCoreRegs', 8, [(33, 64, 'Fpr', 33, 8), (65, 4160, 'Csr', 65, 8), (4161, 4161, 'Priv', None, 1)]),
    'X86CoreRegId': ('X86CoreRegs', None, []),
    'X86_64CoreRegId': ('X86_64CoreRegs', None, []),
}

RISCV_NAMES = (['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 'fp', 's1'] + ['a%d' % i for i in range(8)] + ['s%d' % i for i in range(2, 12)]
               + ['t3', 't4', 't5', 't6', 'pc'])
AARCH64_NAMES = ['x%d' % i for i in range(31)] + ['sp', 'pc', 'cpsr'] + ['v%d' % i for i in range(32)] + ['fpsr', 'fpcr']

# Arch -> architecture name, features, names of the described registers (None: GDB's own), register file, RegId, address type, breakpoint kind
ARCHS = {
    'AArch64': ('aarch64', ['org.gnu.gdb.aarch64.core', 'org.gnu.gdb.aarch64.fpu', 'org.rust.gdb.arm.sys.regs'], AARCH64_NAMES,
                'AArch64CoreRegs', 'AArch64RegId', 'u64', 'usize'),
    'Armv4t': ('armv4t', [], None, 'ArmCoreRegs', 'ArmCoreRegId', 'u32', 'ArmBreakpointKind'),
    'Mips': ('mips', [], None, 'MipsCoreRegs<u32>', 'MipsRegId<u32>', 'u32', 'MipsBreakpointKind'),
    'MipsWithDsp': ('mips', ['org.gnu.gdb.mips.dsp'], None, 'MipsCoreRegsWithDsp<u32>', 'MipsRegId<u32>', 'u32', 'MipsBreakpointKind'),
    'Mips64': (None, None, None, 'MipsCoreRegs<u64>', 'MipsRegId<u64>', 'u64', 'MipsBreakpointKind'),
    'Mips64WithDsp': (None, None, None, 'MipsCoreRegsWithDsp<u64>', 'MipsRegId<u64>', 'u64', 'MipsBreakpointKind'),
    'Msp430': ('msp430', [], None, 'Msp430Regs<u16>', 'Msp430RegId<u16>', 'u16', 'usize'),
    'Msp430X': ('msp430x', [], None, 'Msp430Regs<u32>', 'Msp430RegId<u32>', 'u32', 'usize'),
    'PowerPcAltivec32': ('powerpc:common', ['org.gnu.gdb.power.core', 'org.gnu.gdb.power.fpu', 'org.gnu.gdb.power.altivec'], None,
                         'PowerPcCommonRegs', None, 'u32', 'usize'),
    'Riscv32': ('riscv', ['org.gnu.gdb.riscv.cpu'], RISCV_NAMES, 'RiscvCoreRegs<u32>', 'RiscvRegId<u32>', 'u32', 'usize'),
    'Riscv64': ('riscv', ['org.gnu.gdb.riscv.cpu'], RISCV_NAMES, 'RiscvCoreRegs<u64>', 'RiscvRegId<u64>', 'u64', 'usize'),
    'X86_64_SSE': ('i386:x86-64', ['org.gnu.gdb.i386.sse'], None, 'X86_64CoreRegs', 'X86_64CoreRegId', 'u64', 'usize'),
    'X86_SSE': ('i386:intel', ['org.gnu.gdb.i386.sse'], None, 'X86CoreRegs', 'X86CoreRegId', 'u32', 'usize'),
}

KINDS = {
    'ArmBreakpointKind': {2: 'Thumb16', 3: 'Thumb32', 4: 'Arm32'},
    'MipsBreakpointKind': {2: 'Mips16', 3: 'MicroMips16', 4: 'Mips32', 5: 'MicroMips32'},
}


def last(s):
    """type name without the module path: a::b::C<d::E> -> C<E>"""
    return re.sub(r'\b\w+::', '', s)


def method(c, ty, trait, name, generic=True):
    """the definition of <ty as trait>::name; ty without module path, `generic`: ty has (type) parameters in the definition"""
    hits = []
    for k, f in c.fns.items():
        m = re.match(r'<(.+?) as ([\w:]+)(<.*>)?>::(\w+)(::<.*>)?$', k)
        if not m or not f.local or m.group(4) != name or not m.group(2).endswith('::' + trait):
            continue
        t = last(m.group(1))
        if t == ty or generic and re.match(re.escape(ty) + r'<[A-Z]\w*>$', t) and not re.search(r'<[ui]\d+>', t):
            hits.append(f)
    return hits[0] if hits else None


def flat(v, leaf, out):
    """{leaf name: value} of a structure value"""
    if v[0] == 'adt':
        return False
    out[leaf] = v
    return True


# ---------------------------------------------------------------- C40
class Layout:
    def __init__(self, entries, order):
        self.bytes = []         # (leaf, byte index) or None
        self.pos = {}           # (leaf, byte index) -> offset
        for leaf, n, _, _ in entries:
            for i in range(n):
                b = n - 1 - i if order == 'big' else i
                if leaf is None:
                    self.bytes.append(None)
                else:
                    self.pos[(leaf, b)] = len(self.bytes)
                    self.bytes.append((leaf, b))
        self.n = len(self.bytes)


class LeafMap:
    """(name, size) of the symbolic leaves against the layout's leaves: byte arrays are split into one leaf per byte"""

    def __init__(self, leaves, lay):
        self.of = {}        # (symbol name, byte) -> (layout leaf, byte)
        sizes = {}
        for l, b in lay.pos:
            sizes[l] = max(sizes.get(l, 0), b + 1)
        self.extra = []
        seen = set()
        for name, n in leaves:
            m = re.match(r'(.*)\[(\d+)\]$', name)
            if name in sizes:
                if sizes[name] != n:
                    raise Undecided('%s has %d bytes' % (name, n))
                for i in range(n):
                    self.of[(name, i)] = (name, i)
                seen.add(name)
            elif m and m.group(1) in sizes and n == 1:
                self.of[(name, 0)] = (m.group(1), int(m.group(2)))
                seen.add(m.group(1))
            else:
                self.extra.append(name)
        self.missing = [l for l in sizes if l not in seen]


def byte_src(v):
    """(register symbol, byte) a serialised byte comes from; None: not recognised"""
    if v[0] == 'byte' and v[1][0] == 'reg':
        return (v[1][1], v[2])
    if v[0] == 'reg':
        return (v[1], 0)
    return None


def in_src(v):
    """the input offset a byte comes from"""
    if v[0] == 'at' and v[1] == ('deref', X) and v[2][0] == 'i':
        return v[2][1]
    return None


class Bytes(Exception):
    pass


def ev(t, L):
    """value of a condition's subject for an input of L bytes; raises Bytes when it depends on the input's content"""
    if t == LEN:
        return L
    if t[0] == 'i':
        return t[1]
    if t[0] == 'lin':
        return t[2] + sum(c * ev(x, L) for x, c in t[1])
    if t[0] == 'op' and len(t) == 4 and t[1] in summ.ARITH:
        return summ.ARITH[t[1]](ev(t[2], L), ev(t[3], L))
    if t[0] == 'cmp':
        a, b = ev(t[2], L), ev(t[3], L)
        return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Eq': a == b, 'Ne': a != b}[t[1]]
    if t[0] == 'eq':
        return ev(t[1], L) == ev(t[2], L)
    if t[0] == 'not':
        return not ev(t[1], L)
    raise Bytes()


def ev_or(t, L):
    try:
        return ev(t, L)
    except Bytes:
        return None


def input_bytes(t, out):
    o = in_src(t) if t and isinstance(t, tuple) and t[0] == 'at' else None
    if o is not None:
        out.add(o)
        return
    if isinstance(t, tuple):
        if t and t[0] == 'at':
            out.add(None)
        for x in t:
            input_bytes(x, out)


def holds(c, v):
    if isinstance(c, bool):
        return bool(v) == c
    if isinstance(c, tuple):
        return any(lo <= v <= hi for lo, hi in c)
    raise Undecided('condition %r' % (c,))


def conds(trace):
    for x in trace:
        if x[0] == 'c':
            yield x[1], x[2]
        elif x[0] not in ('w', 'panic'):
            raise Undecided('trace item %s' % x[0])


def run(c, f, args, psize, st=None):
    I = unroll.Unroll(c, psize)
    return I, I.run_fn(f, args, st or State(), 0)


def struct_state(c, f, psize):
    I = unroll.Unroll(c, psize)
    st, leaves = State(), []
    ty = I.deref_ty(f.locals[1][0])
    v = I.symbolic(ty, '', leaves)
    cell = ('T', 'self')
    st.store[cell] = v
    return I, st, ty, cell, leaves, v


def serialize(ctx, c, name, psize, f, entries, order, trailing):
    who = name + ('' if psize is None else '/%d' % psize)
    lay = Layout(entries, order)
    I, st, ty, cell, leaves, _ = struct_state(c, f, psize)
    lm = LeafMap(leaves, lay)
    if lm.missing:
        ctx.undecided('%s: no field for %s' % (who, ', '.join(lm.missing[:5])))
        return
    for kind, s, v in I.run_fn(f, [('ref', cell, (), ty), ('arg', 'x')], st, 0):
        ctx.count('paths')
        cs = list(conds(s.trace))
        if kind != 'ret':
            ctx.violation('%s:serialize-panic' % who, '%s::gdb_serialize can panic (%s)' % (name, s.trace[-1:]))
            continue
        w = [x[1] for x in s.trace if x[0] == 'w']
        got = []
        for x in w:
            if x[0] != 'adt' or x[3] not in ('Some', 'None'):
                raise Undecided('a written byte is ' + x[0])
            if x[3] == 'None':
                got.append(None)
                continue
            b = x[4][0]
            src = byte_src(b)
            if src is None and b[0] != 'i':
                raise Undecided('a written byte is %r' % (b,))
            got.append('the constant %d' % b[1] if b[0] == 'i' else lm.of.get(src, src))
        ctx.count('serialised bytes', len(got))
        want = lay.bytes
        tail = got[len(want):]
        if cs:
            raise Undecided('what is serialised depends on register values')
        bad = [i for i in range(min(len(got), len(want))) if got[i] != want[i]]
        if bad:
            i = bad[0]
            ctx.violation('%s:serialize' % who, '%s::gdb_serialize (%s): byte %d of the register file is %s, GDB expects %s (%d bytes differ)' % (
                name, f.d.get('span', ''), i, txt(got[i]), txt(want[i]), len(bad)))
        elif len(got) < len(want):
            ctx.violation('%s:serialize' % who, '%s::gdb_serialize emits %d bytes, the register file has %d: %s is missing' % (name, len(got), len(want), txt(want[len(got)])))
        elif any(b is not None for b in tail) or len(tail) > trailing:
            ctx.violation('%s:serialize' % who, '%s::gdb_serialize emits %d bytes, the register file has %d' % (name, len(got), len(want)))


def txt(b):
    return 'unavailable' if b is None else b if isinstance(b, str) else 'byte %d of %s' % (b[1], b[0])


def deserialize(ctx, c, name, psize, f, entries, order, trailing):
    who = name + ('' if psize is None else '/%d' % psize)
    lay = Layout(entries, order)
    I, st, ty, cell, leaves, init = struct_state(c, f, psize)
    lm = LeafMap(leaves, lay)
    if lm.missing:
        ctx.undecided('%s: no field for %s' % (who, ', '.join(lm.missing[:5])))
        return
    pads = {i for i, b in enumerate(lay.bytes) if b is None}
    paths = []
    for kind, s, v in I.run_fn(f, [('ref', cell, (), ty), X], st, 0):
        ctx.count('paths')
        res = 'panic' if kind != 'ret' else v[3] if v[0] == 'adt' and v[3] in ('Ok', 'Err') else None
        if res is None:
            raise Undecided('result of gdb_deserialize')
        cs = list(conds(s.trace))
        deps = set()
        for t, _ in cs:
            try:
                ev(t, lay.n)
            except Bytes:
                input_bytes(t, deps)
        vals = {}
        if res == 'Ok':
            collect(I, s.store[cell], init, vals)
        paths.append((res, cs, deps, vals))
    okseen, lens = {}, {}
    # what gdb_serialize sends has to be accepted; without the trailing bytes too, except where GDB always has them
    full = (lay.n + trailing,) if name == 'X86CoreRegs' else (lay.n, lay.n + trailing)
    for L in list(range(0, lay.n + trailing + 33)) + [lay.n + 1000, 4096, 65535, 65536]:
        for res, cs, deps, vals in paths:
            sat = True
            for t, k in cs:
                try:
                    if not holds(k, ev(t, L)):
                        sat = False
                        break
                except Bytes:
                    pass
            if not sat:
                continue
            ctx.count('lengths x paths')
            if res == 'panic':
                ctx.violation('%s:deserialize-panic' % who, '%s::gdb_deserialize can panic on %d bytes' % (name, L))
            elif res == 'Ok':
                okseen[L] = True
                lens.setdefault(id(vals), []).append(L)
                if L < lay.n:
                    ctx.violation('%s:short' % who, '%s::gdb_deserialize accepts %d bytes, the register file has %d' % (name, L, lay.n))
            elif L in full and not (deps and deps <= pads):
                if None in deps:
                    raise Undecided('the rejection of a full register file')
                ctx.violation('%s:reject' % who, '%s::gdb_deserialize rejects a full register file of %d bytes' % (name, L) + (' depending on bytes %s' % sorted(deps)[:4] if deps else ''))
    if full[0] not in okseen:
        ctx.violation('%s:reject' % who, '%s::gdb_deserialize accepts no register file of %d bytes' % (name, full[0]))
    for res, cs, deps, vals in paths:
        if res != 'Ok':
            continue
        for (sym, b), v in sorted(vals.items()):
            leaf = lm.of.get((sym, b))
            if leaf is None:
                continue
            ctx.count('deserialised bytes')
            o = in_src(v)
            if o == lay.pos[leaf]:
                continue
            if o is None and v[0] == 'at' and v[1] == ('deref', X):
                # a position relative to the end of the data
                ps = [(L, ev_or(v[2], L)) for L in lens.get(id(vals), ())]
                if all(x == lay.pos[leaf] for L, x in ps):
                    continue
                bad = [(L, x) for L, x in ps if x is not None and x != lay.pos[leaf]]
                if bad:
                    ctx.violation('%s:deserialize' % who, '%s::gdb_deserialize of %d bytes sets byte %d of %s from byte %d of the data; gdb_serialize\'s position is %d' % (
                        name, bad[0][0], leaf[1], leaf[0], bad[0][1], lay.pos[leaf]))
                    continue
            if o is None and v != ('kept',) and v[0] != 'i':
                raise Undecided('%s is read as %r' % (sym, v))
            ctx.violation('%s:deserialize' % who, '%s::gdb_deserialize sets byte %d of %s %s; gdb_serialize\'s position is %d' % (
                name, leaf[1], leaf[0], 'from byte %d of the data' % o if o is not None else 'to nothing' if v == ('kept',) else 'to a constant', lay.pos[leaf]))


def collect(I, v, init, out):
    """{(leaf, byte): value} comparing the final structure with the initial one"""
    if init[0] == 'reg':
        n = None
        if v == init:
            # the size is not known here; byte 0 speaks for the register
            out[(init[1], 0)] = ('kept',)
            return
        if v[0] == 'int':
            for i, b in enumerate(v[1]):
                out[(init[1], i)] = b
        else:
            out[(init[1], 0)] = v
        return
    if v[0] == 'ref':
        raise Undecided('register file by reference')
    kids = {'adt': 4, 'tup': 1, 'arr': 1}
    if init[0] not in kids:
        raise Undecided('register file structure')
    a = init[kids[init[0]]]
    if v[0] == 'b':
        v = ('arr', tuple(('i', x) for x in v[1]))
    if v[0] != init[0] or len(v[kids[v[0]]]) != len(a):
        raise Undecided('register file value %s' % v[0])
    for x, y in zip(v[kids[v[0]]], a):
        collect(I, x, y, out)


def pc(ctx, c, name, psize, f, want):
    I, st, ty, cell, leaves, _ = struct_state(c, f, psize)
    for kind, s, v in I.run_fn(f, [('ref', cell, (), ty)], st, 0):
        ctx.count('paths')
        if kind != 'ret' or v[0] not in ('reg', 'i'):
            raise Undecided('%s::pc' % name)
        if v != ('reg', want):
            ctx.violation('%s:pc' % name, '%s::pc returns %s, not %s' % (name, v[1], want))


def guarded(ctx, what, f, *a):
    try:
        f(ctx, *a)
    except Undecided as e:
        ctx.undecided('%s: %s' % (what, e))


def c40(ctx):
    ctx.rule('for every register file structure, the byte sequence gdb_serialize emits (all register bytes symbolic, loops unrolled) is exactly GDB\'s layout '
             '(registers, sizes, byte order, unavailable bytes); on every path of gdb_deserialize that succeeds every register byte comes from the layout\'s '
             'position; shorter input is rejected, a full register file accepted, nothing panics; pc() is the program counter')
    c = env.crate('arch', 'gdbstub_arch')
    for name, (lays, order, pcname, trailing) in FILES.items():
        fs = {m: method(c, name, 'Registers', m) for m in ('gdb_serialize', 'gdb_deserialize', 'pc')}
        if not all(fs.values()):
            ctx.violation('missing:' + name, 'no Registers implementation of %s found' % name)
            continue
        ctx.count('register files')
        ctx.sample('%s: %s' % (name, fs['gdb_serialize'].key))
        for psize, entries in lays.items():
            guarded(ctx, name, serialize, c, name, psize, fs['gdb_serialize'], entries, order, trailing)
            guarded(ctx, name, deserialize, c, name, psize, fs['gdb_deserialize'], entries, order, trailing)
            if pcname:
                guarded(ctx, name, pc, c, name, psize, fs['pc'], pcname)
    ctx.floor('register files', 11)
    others(ctx, c, 'Registers', FILES)


def others(ctx, c, trait, known):
    """implementations the reference does not know are reported as undecided"""
    for i in c.impls:
        if (i['trait_path'] or '').endswith('::' + trait):
            n = last(c.types[i['self']]['s'])
            if n not in known and re.sub(r'<.*', '', n) not in known and n not in ('()', 'usize'):
                ctx.undecided('no reference for the %s implementation of %s' % (trait, n))


# ---------------------------------------------------------------- C41
def ev_id(t, i):
    if t == ID:
        return i
    if t[0] == 'i':
        return t[1]
    if t[0] == 'lin':
        return t[2] + sum(c * ev_id(x, i) for x, c in t[1])
    if t[0] == 'op' and len(t) == 4 and t[1] in summ.ARITH:
        return summ.ARITH[t[1]](ev_id(t[2], i), ev_id(t[3], i))
    if t[0] == 'cmp':
        a, b = ev_id(t[2], i), ev_id(t[3], i)
        return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Eq': a == b, 'Ne': a != b}[t[1]]
    if t[0] == 'not':
        return not ev_id(t[1], i)
    if t[0] == 'cast':
        m = [x for x in t[1:] if isinstance(x, tuple)]
        ty = [x for x in t[1:] if isinstance(x, str)]
        if len(m) == 1 and ty and re.match(r'[ui]\d+$|usize$', ty[0]):
            return ev_id(m[0], i) % (1 << (64 if 'size' in ty[0] else int(ty[0][1:])))
    raise Undecided('term %r' % (t,))


def by_id(c, f, ids, conv):
    """{id: result} for the ids, and the result for everything above the last id"""
    I, outs = run(c, f, [ID], None)
    paths = [(k, list(conds(s.trace)), v) for k, s, v in outs]
    res = {}
    for i in ids:
        hit = [(k, v) for k, cs, v in paths if all(holds(x, ev_id(t, i)) for t, x in cs)]
        if len(hit) != 1:
            raise Undecided('%d paths for number %d' % (len(hit), i))
        res[i] = 'panic' if hit[0][0] != 'ret' else conv(hit[0][1], i)
    # every path that can be taken by larger numbers must not distinguish them any further
    top = max(ids)
    for k, cs, v in paths:
        hi = inf_ok = True
        for t, x in cs:
            if t == ID and isinstance(x, tuple):
                if all(b <= top for a, b in x):
                    hi = False
            elif not isinstance(x, bool) or t != ID:
                inf_ok = False
        if hi and not inf_ok:
            raise Undecided('numbers above %d' % top)
        if hi:
            res['above'] = 'panic' if k != 'ret' else conv(v, top + 1) if v[0] == 'adt' and v[3] != 'None' else None
            if res['above'] is not None and res['above'] != 'panic':
                res['above'] = ('some',)
    return res, len(paths)


def conv_reg(v, i):
    if v[0] != 'adt' or v[3] not in ('Some', 'None'):
        raise Undecided('result of from_raw_id')
    if v[3] == 'None':
        return None
    r, n = v[4][0][1]
    pay = []
    for p in r[4]:
        if p[0] == 'adt':
            pay.append(p[3])
        elif p[0] in ('k', 'phantom') or p == UNIT:
            continue
        else:
            pay.append(ev_id(p, i))
    if n[0] != 'adt':
        raise Undecided('size')
    if n[3] == 'None':
        return (r[3], tuple(pay), None)
    n = n[4][0]
    n = n[1] if n[0] == 'nz' else n
    return (r[3], tuple(pay), ev_id(n, i))


def spec_ids(tyname):
    fname, psize, extra = REGIDS[tyname]
    out = {i: (var, pay, n) for i, (leaf, n, var, pay) in enumerate(FILES[fname][0][psize])}
    for a, b, var, off, n in extra:
        for i in range(a, b + 1):
            out[i] = (var, () if off is None else (i - off,), n)
    return out


def show_reg(r):
    return 'no register' if r is None else 'a panic' if r == 'panic' else '%s%s of %s bytes' % (r[0], '(%s)' % ', '.join(map(str, r[1])) if r[1] else '', r[2])


def regid(ctx, c, tyname, f):
    spec = spec_ids(tyname)
    top = max(spec)
    ids = list(range(0, max(top + 300, 700))) + [65535 + k for k in range(0, 3) if top < 65535]
    ids = sorted(set(ids))
    got, n = by_id(c, f, ids, conv_reg)
    ctx.count('paths', n)
    for i in ids:
        ctx.count('register numbers')
        w, g = spec.get(i), got[i]
        if w != g:
            kind = 'size' if w and g and g != 'panic' and w[:2] == g[:2] else 'register'
            ctx.violation('%s:%d:%s' % (tyname, i, kind), '%s::from_raw_id(%d) is %s; register %d of the register file is %s' % (tyname, i, show_reg(g), i, show_reg(w)))
    if got.get('above') is not None:
        ctx.violation('%s:above' % tyname, '%s::from_raw_id maps numbers above %d' % (tyname, max(ids)))


def sysregs():
    return json.load(open(os.path.join(env.VERIF, 'spec', 'sysregs.json')))


def sysreg_encoding(ref, name):
    name = name.upper()
    if name in ref:
        return ref[name]
    if name.startswith('ICV_'):
        return ref.get('ICC_' + name[4:])
    return {'DBGDTRRX_EL0': ref.get('DBGDTRRX_EL0', ref.get('DBGDTRTX_EL0')), 'DBGDTRTX_EL0': ref.get('DBGDTRTX_EL0', ref.get('DBGDTRRX_EL0'))}.get(name)


def sysreg_consts(ctx, c):
    ref = sysregs()
    for k, v in c.consts.items():
        m = re.match(r'(.*::)?AArch64RegId::(\w+)$', k)
        if not m:
            continue
        name = m.group(2)
        try:
            enc = v['value']['fields'][0]['int']
        except (KeyError, IndexError, TypeError):
            ctx.undecided('AArch64RegId::%s is not a plain system register' % name)
            continue
        want = sysreg_encoding(ref, name)
        ctx.count('named system registers')
        if want is None:
            ctx.undecided('AArch64RegId::%s has no reference encoding' % name)
        elif want != enc:
            ctx.violation('AArch64RegId::%s' % name, 'AArch64RegId::%s is encoded as %#x; the architecture\'s encoding of %s is %#x' % (name, enc, name, want))


def c41(ctx):
    ctx.rule('RegId::from_raw_id, evaluated symbolically over all numbers, yields for each number the register at that position of GDB\'s register file (variant, '
             'payload) with that register\'s size, the listed registers outside the file, and nothing for every other number; the named AArch64 system registers '
             'have the architectural encoding (reference table generated from LLVM)')
    c = env.crate('arch', 'gdbstub_arch')
    for tyname in REGIDS:
        f = method(c, tyname, 'RegId', 'from_raw_id', False)
        if f is None:
            ctx.violation('missing:' + tyname, 'no RegId implementation of %s found' % tyname)
            continue
        ctx.count('register id types')
        guarded(ctx, tyname, regid, c, tyname, f)
    sysreg_consts(ctx, c)
    ctx.floor('register id types', 10)
    ctx.floor('named system registers', 500)
    others(ctx, c, 'RegId', REGIDS)


# ---------------------------------------------------------------- C44
def xml_of(c, f):
    I, outs = run(c, f, [], None)
    if len(outs) != 1 or outs[0][0] != 'ret' or list(conds(outs[0][1].trace)):
        raise Undecided('target_description_xml is not constant')
    _, s, v = outs[0]
    if v[0] != 'adt':
        raise Undecided('target_description_xml')
    if v[3] == 'None':
        return None
    t = v[4][0]
    for _ in range(4):
        if t[0] == 'ref':
            t = I.load(s, t[1], t[2])
    if t[0] != 'b':
        raise Undecided('target_description_xml is ' + t[0])
    return bytes(t[1]).decode('utf8')


def descr(ctx, c, arch, f):
    name, feats, regnames, fname, regid_, usize, _ = ARCHS[arch]
    x = xml_of(c, f)
    ctx.count('target descriptions')
    if x is None or name is None:
        if (x is None) != (name is None):
            ctx.violation('%s:xml' % arch, '%s %s a target description' % (arch, 'has' if x is not None else 'lacks'))
        return
    try:
        root = ET.fromstring(x.strip())
    except ET.ParseError as e:
        ctx.violation('%s:xml' % arch, 'the target description of %s is not well-formed XML: %s' % (arch, e))
        return
    a = root.find('architecture')
    got = a.text.strip() if a is not None and a.text else None
    if root.tag == 'feature' and got is None:
        # a bare feature document (RISC-V): GDB is given the architecture by the feature itself
        got = root.get('name', '').split('.')[3] if root.get('name', '').count('.') >= 3 else None
    if got != name:
        ctx.violation('%s:architecture' % arch, 'the target description of %s names the architecture %s, not %s' % (arch, got, name))
    fs = [root] if root.tag == 'feature' else root.findall('feature')
    if [y.get('name') for y in fs] != feats:
        ctx.violation('%s:features' % arch, 'the target description of %s has the features %s, not %s' % (arch, [y.get('name') for y in fs], feats))
    regs = {}
    num = 0
    for ft in fs:
        for r in ft.iter('reg'):
            num = int(r.get('regnum'), 0) if r.get('regnum') is not None else num
            if num in regs and not (num >= 0x8000 and arch == 'AArch64'):      # several system registers share an encoding
                ctx.violation('%s:regnum:%d' % (arch, num), 'the target description of %s gives the number %d to both %s and %s' % (arch, num, regs[num][0], r.get('name')))
            regs[num] = (r.get('name'), int(r.get('bitsize')))
            num += 1
    ctx.count('described registers', len(regs))
    if regnames is None:
        if regs:
            ctx.undecided('%s describes registers of its own' % arch)
        return
    psize = {'u32': 4, 'u64': 8}[usize] if fname.endswith('>') else None
    entries = FILES[re.sub('<.*', '', fname)][0][psize]
    for i, (leaf, n, var, pay) in enumerate(entries):
        want = (regnames[i], n * 8)
        if regs.get(i) != want:
            ctx.violation('%s:reg:%d' % (arch, i), 'the target description of %s says register %d is %s; the register file has %s of %d bits there' % (
                (arch, i, '%s of %d bits' % regs[i] if i in regs else 'absent') + want))
    if arch == 'AArch64':
        ref = sysregs()
        for i, (nm, bits) in sorted(regs.items()):
            if i < len(entries):
                continue
            want = sysreg_encoding(ref, nm)
            ctx.count('described system registers')
            if want is None:
                ctx.undecided('AArch64 describes %s, which has no reference encoding' % nm)
            elif want != i or bits != 64:
                ctx.violation('AArch64:sysreg:%s' % nm, 'the target description gives %s the number %d and %d bits; its encoding is %d, 64 bits' % (nm, i, bits, want))
        ctx.floor('described system registers', 500)
    elif set(regs) != set(range(len(entries))):
        ctx.violation('%s:extra' % arch, 'the target description of %s describes registers outside the register file' % arch)


def c44(ctx):
    ctx.rule('the constant target description of every architecture (as compiled) is well-formed XML naming the expected architecture and features; described '
             'registers have, number by number, the name and size of the register at that position of the register file, system registers their architectural encoding')
    c = env.crate('arch', 'gdbstub_arch')
    for arch in ARCHS:
        f = method(c, arch, 'Arch', 'target_description_xml')
        if f is None:
            if any(last(c.types[i['self']]['s']).split('<')[0] == arch and (i['trait_path'] or '').endswith('::Arch') for i in c.impls) and ARCHS[arch][0] is None:
                ctx.count('target descriptions')    # the default: no description
                continue
            ctx.violation('missing:' + arch, '%s has no target description' % arch)
            continue
        guarded(ctx, arch, descr, c, arch, f)
    ctx.floor('target descriptions', len(ARCHS))
    others(ctx, c, 'Arch', ARCHS)


# ---------------------------------------------------------------- C46: breakpoint kinds
def kinds(ctx, c, ty, f):
    def conv(v, i):
        if v[0] != 'adt' or v[3] not in ('Some', 'None'):
            raise Undecided('result of from_usize')
        return None if v[3] == 'None' else v[4][0][3]
    got, n = by_id(c, f, list(range(0, 600)) + [65536, 65538, (1 << 32) + 2, (1 << 32) + 4], conv)
    ctx.count('paths', n)
    for i, g in sorted((k, v) for k, v in got.items() if k != 'above'):
        ctx.count('kinds')
        if g != KINDS[ty].get(i):
            ctx.violation('%s:%d' % (ty, i), '%s::from_usize(%d) is %s, GDB\'s kind %d is %s' % (ty, i, g, i, KINDS[ty].get(i)))
    if got.get('above') is not None:
        ctx.violation('%s:above' % ty, '%s::from_usize maps numbers above 600' % ty)


def c46(ctx):
    ctx.rule('BreakpointKind::from_usize, evaluated symbolically over all numbers, maps exactly GDB\'s breakpoint kinds of the architecture')
    c = env.crate('arch', 'gdbstub_arch')
    for ty in KINDS:
        f = method(c, ty, 'BreakpointKind', 'from_usize')
        if f is None:
            ctx.violation('missing:' + ty, 'no BreakpointKind implementation of %s found' % ty)
            continue
        ctx.count('breakpoint kind types')
        guarded(ctx, ty, kinds, c, ty, f)
    g = env.crate('arch', 'gdbstub')
    f = method(g, 'usize', 'BreakpointKind', 'from_usize')
    if f is None:
        ctx.violation('missing:usize', 'usize is no BreakpointKind')
    else:
        I, outs = run(g, f, [ID], None)
        for k, s, v in outs:
            ctx.count('paths')
            if k != 'ret' or list(conds(s.trace)) or v[0] != 'adt' or v[3] != 'Some' or v[4][0] != ID:
                ctx.violation('usize:from_usize', 'usize::from_usize does not return the kind unchanged')
    ctx.floor('breakpoint kind types', 2)


# ---------------------------------------------------------------- C47: wiring
def c47(ctx):
    ctx.rule('the associated types of every Arch implementation are the register file, register ids, address type and breakpoint kind of that architecture')
    c = env.crate('arch', 'gdbstub_arch')
    seen = set()
    for i in c.impls:
        if not (i['trait_path'] or '').endswith('::Arch'):
            continue
        arch = last(c.types[i['self']]['s']).split('<')[0]
        if arch not in ARCHS:
            ctx.undecided('no reference for the architecture %s' % arch)
            continue
        seen.add(arch)
        ctx.count('architectures')
        name, feats, regnames, fname, rid, usize, kind = ARCHS[arch]
        for it, want in (('Usize', usize), ('Registers', fname), ('RegId', rid), ('BreakpointKind', kind)):
            got = [last(x[3]) for x in i['items'] if x[0] == it and x[3]]
            ctx.count('associated types')
            if want and got and got[0] != want:
                known = set(FILES) | {r.split('<')[0] for r in REGIDS} | set(KINDS) | {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', '()'}
                if got[0].split('<')[0] not in known:
                    ctx.undecided('%s::%s is %s' % (arch, it, got[0]))
                    continue
                ctx.violation('%s:%s' % (arch, it), '%s uses %s for %s; it has to be %s (%s)' % (arch, got[0], it, want, i['span']))
    for a in ARCHS:
        if a not in seen:
            ctx.violation('missing:' + a, 'the architecture %s is gone' % a)
    ctx.floor('architectures', len(ARCHS))
