"""The checks, by property id."""
import archs
import cross
import fviews
import golden
import panicfree
import byteorder
import calls
import hexdec
import hexnum
import rle
import rules
import signals
import wrap
import config
import deadcode
import loops
import features
import unsafety
import witness

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ---------------------------------------------------------------- per-packet behaviour (reviewed summaries)
PACKETS = {
    'C10': ['qSupported'],
    'C11': ['m', 'M', 'X'],
    'C12': ['g', 'G', 'p', 'P'],
    'C13': ['z', 'Z'],
    'C14': ['H'],
    'C15': ['c', 's', 'vCont'],
    'C29': ['vFile:open', 'vFile:close', 'vFile:pread', 'vFile:pwrite', 'vFile:fstat', 'vFile:unlink', 'vFile:readlink', 'vFile:setfs'],
    'C30': ['qXfer:features:read', 'qXfer:memory-map:read', 'qXfer:auxv:read', 'qXfer:exec-file:read', 'qXfer:libraries-svr4:read'],
    'C31': ['!', 'R', 'k', 'D', 'vRun', 'vAttach', 'vKill', 'qAttached', 'QDisableRandomization', 'QEnvironmentHexEncoded', 'QEnvironmentReset',
            'QEnvironmentUnset', 'QSetWorkingDir', 'QStartupWithShell'],
    'C32': ['QTDPsrc', 'QTDP', 'QTinit', 'QTBuffer', 'QTStart', 'QTStop', 'QTFrame', 'qTBuffer', 'qTStatus', 'qTP', 'qTfV', 'qTsV'],
    'C33': ['qTfP', 'qTsP'],
    'C34': ['QCatchSyscalls'],
    'C35': ['bc', 'bs'],
    'C36': ['qfThreadInfo', 'qsThreadInfo', 'T', 'qThreadExtraInfo', 'qC'],
    'C37': ['qRcmd'],
    'C38': ['qOffsets', 'qRegisterInfo'],
}


def packet_check(pid):
    def f(ctx):
        golden.check(ctx, PACKETS[pid])
        ctx.floor('packets', len(PACKETS[pid]))
    return f


for _p in PACKETS:
    CHECKS[_p] = packet_check(_p)


# ---------------------------------------------------------------- properties over all packets
@check('C10')
def c10(ctx):
    golden.check(ctx, PACKETS['C10'])
    golden.check(ctx, ['vCont'], kinds=('reply',))
    ctx.floor('packets', 2)


CHECKS['C08'] = cross.c08
CHECKS['C09'] = cross.c09
CHECKS['C14'] = cross.c14
CHECKS['C17'] = cross.c17


@check('C18')
def c18(ctx):
    cross.c18(ctx)
    fviews.check(ctx, vs('ext.err.'))


CHECKS['C25'] = cross.c25


# ---------------------------------------------------------------- function-level views
def vs(*prefixes):
    return [v for v in fviews.VIEWS if v.startswith(prefixes)]


FUNCS = {
    'C01': vs('rw.new', 'rw.flush', 'rw.inner_write', 'rw.write'),
    'C02': ['rw.flush', 'rw.write'],
    'C03': vs('rw.write_'),
    'C04': vs('hex.', 'tid.'),
    'C05': ['pump', 'none.pump', 'recv.new', 'packetbuf.new', 'packet.from_buf', 'sm.idle.incoming_data', 'sm.running.incoming_data'],
    'C16': ['finish_exec', 'sm.running.report_stop'],
    'C19': vs('run_state_machine.fault', 'run_blocking.fault', 'error.'),
    'C20': vs('sm.'),
    'C22': ['run_blocking', 'run_state_machine', 'run_blocking.fault', 'run_state_machine.fault'],
    'C23': ['stop_reason.from'],
    'C28': vs('conn.'),
    'C37': vs('console.', 'none.console.'),
    'C39': vs('stub.', 'builder.', 'none.builder.', 'mvec.', 'none.mvec.', 'pump', 'none.pump', 'recv.new'),
    'C45': vs('bytes.'),
    'C31': ['ext.args.next'], 'C32': ['ext.tp.source', 'ext.tp.action'], 'C33': ['ext.tp.state', 'ext.tp.source', 'ext.tp.action'], 'C34': ['ext.syscalls.next'],
    'C38': ['ext.lldb.done', 'ext.lldb.write'],
}
PACKETS['C16'] = ['?']


def func_check(pid):
    def f(ctx):
        if pid in PACKETS:
            golden.check(ctx, PACKETS[pid])
            ctx.floor('packets', len(PACKETS[pid]))
        fviews.check(ctx, FUNCS[pid])
        ctx.floor('functions', len(FUNCS[pid]))
    return f


for _p in FUNCS:
    CHECKS[_p] = func_check(_p)


@check('C03')
def c03(ctx):
    fviews.check(ctx, FUNCS['C03'])
    hexnum.check(ctx)
    ctx.floor('functions', len(FUNCS['C03']))


@check('C04')
def c04(ctx):
    fviews.check(ctx, FUNCS['C04'])
    hexdec.check(ctx)
    ctx.floor('functions', len(FUNCS['C04']))


@check('C45')
def c45(ctx):
    byteorder.check(ctx)
    fviews.check(ctx, FUNCS['C45'])
    ctx.floor('functions', len(FUNCS['C45']))


@check('C02')
def c02(ctx):
    rle.check(ctx)
    fviews.check(ctx, FUNCS['C02'])
    ctx.floor('functions', len(FUNCS['C02']))


CHECKS['C06'] = rules.c06
CHECKS['C07'] = rules.c07


@check('C19')
def c19(ctx):
    rules.c19(ctx)
    fviews.check(ctx, FUNCS['C19'])
    ctx.floor('functions', len(FUNCS['C19']))


@check('C43')
def c43(ctx):
    signals.c43(ctx)
    golden.check(ctx, ['vCont', '?'])
    fviews.check(ctx, ['finish_exec'])


@check('C48')
def c48(ctx):
    wrap.c48(ctx)
    fviews.check(ctx, vs('dfl.'))


@check('C49')
def c49(ctx):
    wrap.c49(ctx)
    fviews.check(ctx, ['ext.hostio.from_io'])


CHECKS['C42'] = features.c42
CHECKS['C50'] = config.c50
CHECKS['C21'] = witness.c21
CHECKS['C51'] = calls.c51
CHECKS['C52'] = calls.c52
CHECKS['C53'] = deadcode.c53
CHECKS['C54'] = loops.c54
CHECKS['C24'] = panicfree.c24
CHECKS['C26'] = unsafety.c26
CHECKS['C27'] = wrap.c27
CHECKS['C40'] = archs.c40
CHECKS['C41'] = archs.c41
CHECKS['C44'] = archs.c44
CHECKS['C46'] = archs.c46
CHECKS['C47'] = archs.c47


# ---------------------------------------------------------------- what the manifest says
GOLD_TECH = 'path-sensitive abstract interpretation of the compiled MIR, compared with a reviewed per-packet specification'
GOLD_NOTE = ('Decides, for every packet byte string and every target result on the enumerated abstract paths, which target calls are made with which '
             'arguments, what is replied, and how the session state changes. Trusts rustc\'s MIR, the models of core/alloc functions in lib/models.py and '
             'the reviewed specification spec/packets.json; a difference that the analysis cannot prove to be behavioural is counted as undecided.')
RULE_TECH = 'path-sensitive abstract interpretation of the compiled MIR; a declarative rule over the event sequence of every enumerated path'
RULE_NOTE = ('Every enumerated abstract path of handling every packet is judged by the rule given in the evidence (no specification of individual '
             'packets is involved). Trusts rustc\'s MIR and the models of core/alloc functions in lib/models.py; what the analysis cannot decide is '
             'counted as undecided and never reported.')
FUNC_TECH = 'path-sensitive abstract interpretation of the compiled MIR of the named functions, compared with reviewed per-function summaries'
FUNC_NOTE = ('Decides, for every input, which connection, buffer and user callbacks are invoked with which arguments, what is returned and which state is kept. '
             'Trusts rustc\'s MIR, the models of core/alloc functions in lib/models.py and the reviewed summaries in spec/functions.json; a '
             'difference that the analysis cannot prove to be behavioural is counted as undecided.')
CROSS_TECH = 'path-sensitive abstract interpretation of the compiled MIR over every packet, projected on the facts of this property and compared with a reviewed specification'
UNROLL_TECH = 'abstract interpretation of the compiled MIR with symbolic register and input bytes (constant loops unrolled), compared with a declarative layout table'
UNROLL_NOTE = ('Decides, for all register values, input bytes and register numbers, which byte goes where. Trusts rustc\'s MIR, the models of core functions in '
               'lib/models.py and lib/unroll.py, and the tables of GDB\'s register files in lib/archs.py (system register encodings: spec/sysregs.json, from LLVM).')
CONST_TECH = 'evaluation of the compiled constants and associated types out of the type-checked program, compared with a reference table'
DESCR = {'C06': (RULE_TECH, RULE_NOTE), 'C07': (RULE_TECH, RULE_NOTE), 'C19': (RULE_TECH, RULE_NOTE)}
for _p in FUNCS:
    if _p not in PACKETS and _p not in DESCR:
        DESCR[_p] = (FUNC_TECH, FUNC_NOTE)
for _p in ('C08', 'C09', 'C14', 'C17', 'C18', 'C25'):
    DESCR[_p] = (CROSS_TECH, GOLD_NOTE)
for _p in ('C40', 'C41', 'C44', 'C46'):
    DESCR[_p] = (UNROLL_TECH, UNROLL_NOTE)
DESCR['C02'] = ('abstract interpretation of the encoder over runs of one symbolic byte until its state recurs (a transducer), its output judged by the decoding rule of the '
                'protocol; path summaries of write and flush', 'Decides for every byte value and every run length, and every pair of adjacent runs: the state of the encoder is enumerated '
                'until it repeats. Trusts rustc\'s MIR and the models of core functions in lib/models.py.')
DESCR['C50'] = ('path-sensitive abstract interpretation of the MIR of three feature configurations, summaries compared with each other', RULE_NOTE)
DESCR['C42'] = ('type checking of every feature combination; linked-crate query on the type-checked program', 'Trusts rustc and cargo\'s feature resolution. Only the '
                'combinations listed in the evidence are distinct effective configurations; the host target is the only one checked.')
DESCR['C26'] = ('inventory of unsafe operations in the type-checked program; linear-entailment bounds analysis of every unchecked access on the enumerated abstract paths; comparison of '
                'the two configurations\' summaries', RULE_NOTE)
DESCR['C27'] = ('path-sensitive abstract interpretation of the MIR of every wrapper method, judged by a delegation rule', RULE_NOTE)
DESCR['C48'] = ('path-sensitive abstract interpretation of the MIR of every provided trait method, judged by a default-value rule and reviewed summaries', RULE_NOTE)
DESCR['C49'] = (CONST_TECH + '; abstract interpretation of the MIR of the error conversion', 'Trusts rustc\'s constant evaluation and the table of File-I/O numbers in lib/wrap.py.')
DESCR['C47'] = (CONST_TECH, 'Trusts rustc\'s type checker and the table of architectures in lib/archs.py.')
DESCR['C43'] = (CONST_TECH + '; abstract interpretation of the MIR of Display, stop replies and resume requests', 'Trusts rustc\'s constant evaluation and '
                'the reference table spec/signals.json (generated from the installed GDB\'s own signal list).')
DESCR['C21'] = ('type-level encoding: compile-fail witnesses (rejected line and error code checked) with accepted twins, two feature configurations', 'Trusts rustc\'s type, '
                'privacy and borrow checks. Covers the misuse programs listed in lib/witness.py, each generic over target and connection.')
DESCR['C24'] = ('call-graph reachability of the panic handler in the optimised LLVM IR of a harness that instantiates every extension with opaque methods, over 54 capability configurations',
                'Trusts rustc\'s and LLVM\'s code generation for the host target, and that a panic in core leads to the panic handler (a control panic must be found in each build).')
DESCR['C04'] = ('path-sensitive abstract interpretation of the MIR of the decoders, compared with reviewed summaries; interpretation of decode_hex over symbolic digits', FUNC_NOTE)
DESCR['C03'] = ('path-sensitive abstract interpretation of the MIR of every reply primitive, compared with reviewed summaries; interpretation of write_num over symbolic numbers', FUNC_NOTE)
DESCR['C45'] = ('abstract interpretation of the MIR of every impl over buffers of symbolic bytes, judged bit by bit; path summaries', 'Decides for every value of every integer '
                'type and every content of buffers of up to two bytes more than the integer. Trusts rustc\'s MIR and the models of core functions.')
DESCR['C53'] = ('query over the optimised LLVM IR (debug locations of every instruction, dead code markers) of a harness with each extension left out, %d configurations' % len(deadcode.configs()),
                'Trusts rustc\'s and LLVM\'s code generation for the host target and its debug locations; whole-program optimised builds only. Capabilities inside an extension (single host I/O '
                'operations and the like) are not covered.')
DESCR['C54'] = ('abstract interpretation of the MIR to a fixpoint at every loop; relation of the loop variables before and after each turn', 'Decides the loops of every packet\'s processing and '
                'of the functions interpreted on their own. A turn that changes something its conditions depend on, but not towards the end, is not reported; iterators of the standard library '
                'and the user\'s own operations are taken to end.')
DESCR['C51'] = ('effect analysis: query over every static item and every call site of the compiler\'s MIR', 'Complete for the statics and calls of gdbstub and gdbstub_arch in five '
                'builds; the dependencies (managed, num-traits, log, bitflags) are trusted not to keep state on their own, and the list of standard library functions with global effects is in lib/calls.py.')
DESCR['C52'] = ('call-graph cycle analysis (strongly connected components) over the compiler\'s MIR', 'Calls on the user\'s own target, connection, architecture and event loop are taken not to call back '
                'into the library; dependencies are trusted. Frame sizes are not bounded.')
NOT_APPLICABLE = {
    'C60': 'interoperation with a real GDB quantifies over the behaviour of a program that is not part of this source tree; no static argument over /repo can bound it',
    'C61': 'bounded time per byte depends on loop trip counts over runtime data and on the target\'s own methods; no sound static bound is in reach',
    'C62': 'correct emulation of arbitrary ARM programs is a functional property of an external emulator crate and of runtime program data',
}


def describe(pid):
    return DESCR.get(pid, (GOLD_TECH, GOLD_NOTE))
