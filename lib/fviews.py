"""Function-level views: the library functions whose complete input/output behaviour is summarised and reviewed (spec/functions.json)."""
import env
import funcs
import golden
import specio
import summ
from absint import Undecided

PRI = [('RecvPacketStateMachine::pump', 'pump', 0), ('::from_buf', 'from_buf', 0), ('::handle_packet', 'handle_packet', 0),
       ('::finish_exec', 'finish_exec', 0)]
SMI = "stub::state_machine::GdbStubStateMachineInner::<'a, stub::state_machine::state::"
LOOP = [('BlockingEventLoop::on_interrupt', 'on_interrupt', 0), ('BlockingEventLoop::wait_for_stop_reason', 'wait_for_stop_reason', 0)]
SMM = [('::incoming_data', 'sm.incoming_data', 0), ('::report_stop', 'sm.report_stop', 0), ('::interrupt_handled', 'sm.interrupt_handled', 0),
       ('::run_state_machine', 'run_state_machine', 0)]

RW = "protocol::response_writer::ResponseWriter::<'a, C>::"
HEX = 'protocol::common::hex::'
RWV = {'rw.' + n.split('::')[0]: ('std', RW + n, [], False) for n in (
    'new', 'flush', 'inner_write', 'write', 'write_str', 'write_hex', 'write_hex_buf', 'write_binary', 'write_num::<D>', 'write_dec::<D>',
    'write_specific_id_kind', 'write_specific_thread_id')}
HEXV = {'hex.' + n.split('::')[0]: ('std', HEX + n, [], False) for n in (
    'decode_hex::<I>', 'ascii2byte', 'is_hex', 'decode_hex_buf', 'decode_bin_buf')}

# view id -> (configuration, function key, callees treated as operations, public API?)
VIEWS = {
    'sm.idle.incoming_data': ('std', SMI + 'Idle<T>, T, C>::incoming_data', PRI, True),
    'sm.running.incoming_data': ('std', SMI + 'Running, T, C>::incoming_data', PRI, True),
    'sm.running.report_stop': ('std', SMI + 'Running, T, C>::report_stop::<impl IntoStopReason<T>>', PRI, True),
    'sm.ctrlc.interrupt_handled': ('std', SMI + 'CtrlCInterrupt, T, C>::interrupt_handled::<impl IntoStopReason<T>>', PRI, True),
    'sm.disconnected.get_reason': ('std', SMI + 'Disconnected, T, C>::get_reason', PRI, True),
    'sm.disconnected.return_to_idle': ('std', SMI + 'Disconnected, T, C>::return_to_idle', PRI, True),
    'run_state_machine': ('std', "stub::GdbStub::<'a, T, C>::run_state_machine", PRI, True),
    'run_blocking': ('std', "stub::GdbStub::<'a, T, C>::run_blocking::<E>", LOOP + SMM, True),
    'stub.new': ('std', "stub::GdbStub::<'a, T, C>::new", [], True),
    'stub.builder': ('std', "stub::GdbStub::<'a, T, C>::builder", [], True),
    'builder.new': ('std', "stub::builder::GdbStubBuilder::<'a, T, C>::new", [], True),
    'builder.with_packet_buffer': ('std', "stub::builder::GdbStubBuilder::<'a, T, C>::with_packet_buffer", [], True),
    'builder.packet_buffer_size': ('std', "stub::builder::GdbStubBuilder::<'a, T, C>::packet_buffer_size", [], True),
    'builder.build': ('std', "stub::builder::GdbStubBuilder::<'a, T, C>::build", [], True),
    'none.builder.new': ('none', "stub::builder::GdbStubBuilder::<'a, T, C>::new", [], True),
    'none.builder.with_packet_buffer': ('none', "stub::builder::GdbStubBuilder::<'a, T, C>::with_packet_buffer", [], True),
    'none.builder.build': ('none', "stub::builder::GdbStubBuilder::<'a, T, C>::build", [], True),
    'none.pump': ('none', 'protocol::recv_packet::RecvPacketStateMachine::pump', [], False),
    'pump': ('std', 'protocol::recv_packet::RecvPacketStateMachine::pump', [], False),
    'recv.new': ('std', 'protocol::recv_packet::RecvPacketStateMachine::new', [], False),
    'packetbuf.new': ('std', "protocol::packet::PacketBuf::<'a>::new", [], False),
    'packet.from_buf': ('std', "protocol::packet::Packet::<'a>::from_buf::<impl Target>", [('PacketBuf::<\'a>::new', 'PacketBuf::new', 0), ('::from_packet', 'Command::from_packet', 0)], False),
    'run_blocking.fault': ('std', "stub::GdbStub::<'a, T, C>::run_blocking::<E>", LOOP + SMM, True),
    'run_state_machine.fault': ('std', "stub::GdbStub::<'a, T, C>::run_state_machine", PRI, True),
    'finish_exec': ('std', "stub::core_impl::resume::<impl stub::core_impl::GdbStubImpl<T, C>>::finish_exec", [], False),
}


def only(*names):
    def f(cal):
        import gdbsem
        return gdbsem.tokens(cal) if cal['name'] in names else None
    return f


WR = [("ResponseWriter::<'a, C>::write", 'rw.write', 0), ("ResponseWriter::<'a, C>::write_hex", 'rw.write_hex', 0)]
KW = {'rw.' + n: {'tokens': only()} for n in ('flush', 'inner_write', 'write')}
KW.update({'rw.' + n: {'tokens': only('write')} for n in ('write_str', 'write_hex')})
KW.update({'rw.' + n: {'tokens': only('write', 'write_hex')} for n in ('write_hex_buf', 'write_binary', 'write_num', 'write_dec')})


TID = 'protocol::common::thread_id::'
for _n in ('ThreadId', 'IdKind'):
    VIEWS['tid.' + _n] = ('std', '<%s%s as std::convert::TryFrom<&[u8]>>::try_from' % (TID, _n), [], False)
    VIEWS['tid.mut.' + _n] = ('std', '<%s%s as std::convert::TryFrom<&mut [u8]>>::try_from' % (TID, _n), [], False)
for _a, _b in (('SpecificIdKind', 'IdKind'), ('SpecificThreadId', 'ThreadId'), ('ConcreteThreadId', 'ThreadId')):
    VIEWS['tid.%s.from.%s' % (_a, _b)] = ('std', '<%s%s as std::convert::TryFrom<%s%s>>::try_from' % (TID, _a, TID, _b), [], False)
VIEWS['tid.NonZero.from.IdKind'] = ('std', TID + '<impl std::convert::TryFrom<%sIdKind> for std::num::NonZero<usize>>::try_from' % TID, [], False)
CON = 'protocol::console_output::ConsoleOutput'
for _n in ('new', 'write_raw', 'flush'):
    VIEWS['console.' + _n] = ('std', CON + "::<'a>::" + _n, [], False)
VIEWS['console.write_str'] = ('std', '<' + CON + "<'_> as std::fmt::Write>::write_str", [], False)
VIEWS['console.drop'] = ('std', '<' + CON + "<'_> as std::ops::Drop>::drop", [], True)
VIEWS['none.console.write_raw'] = ('none', CON + "::<'a>::write_raw", [], False)
MV = "util::managed_vec::ManagedVec::<'a, 'b, T>::"
for _n in ('new_with_idx', 'push', "as_slice::<'c>"):
    VIEWS['mvec.' + _n.split(':')[0]] = ('std', MV + _n, [], False)
    if not _n.startswith('as_'):
        VIEWS['none.mvec.' + _n.split(':')[0]] = ('none', MV + _n, [], False)
VIEWS['stop_reason.from'] = ('std', '<stub::stop_reason::BaseStopReason<std::num::NonZero<usize>, U> as std::convert::From<stub::stop_reason::BaseStopReason<(), U>>>::from', [], True)
for _n in ('is_target_error', 'into_target_error', 'is_connection_error', 'into_connection_error'):
    VIEWS['error.' + _n] = ('std', 'stub::error::GdbStubError::<T, C>::' + _n, [], True)
for _n in ('conn_read', 'conn_write', 'conn_init'):
    VIEWS['error.' + _n] = ('std', 'stub::error::InternalError::<T, C>::' + _n, [], False)
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
for _i in INTS:
    for _o, _t in (('be', 'BeBytes'), ('le', 'LeBytes')):
        for _d in ('to', 'from'):
            VIEWS['bytes.%s.%s_%s' % (_i, _d, _o)] = ('std', '<%s as internal::%s_bytes::%s>::%s_%s_bytes' % (_i, _o, _t, _d, _o), [], False)
CI = 'conn::impls::'
CONN = {
    'box.Connection': (CI + "boxed::<impl conn::Connection for std::boxed::Box<(dyn conn::Connection<Error = E> + 'static)>>::", 0),
    'box.ConnectionExt': (CI + "boxed::<impl conn::Connection for std::boxed::Box<(dyn conn::ConnectionExt<Error = E> + 'static)>>::", 0),
    'box.ConnectionExt.ext': (CI + "boxed::<impl conn::ConnectionExt for std::boxed::Box<(dyn conn::ConnectionExt<Error = E> + 'static)>>::", 1),
    'mutref.Connection': (CI + '<impl conn::Connection for &mut dyn conn::Connection<Error = E>>::', 0),
    'mutref.ConnectionExt': (CI + '<impl conn::Connection for &mut dyn conn::ConnectionExt<Error = E>>::', 0),
    'mutref.ConnectionExt.ext': (CI + '<impl conn::ConnectionExt for &mut dyn conn::ConnectionExt<Error = E>>::', 1),
    'tcp': (CI + 'tcpstream::<impl conn::Connection for std::net::TcpStream>::', 0),
    'tcp.ext': (CI + 'tcpstream::<impl conn::ConnectionExt for std::net::TcpStream>::', 1),
    'unix': (CI + 'unixstream::<impl conn::Connection for std::os::unix::net::UnixStream>::', 0),
    'unix.ext': (CI + 'unixstream::<impl conn::ConnectionExt for std::os::unix::net::UnixStream>::', 1),
}
for _k, (_p, _e) in CONN.items():
    for _n in (('read', 'peek') if _e else ('write', 'write_all', 'flush', 'on_session_start')):
        if (_k, _n) != ('unix', 'on_session_start'):
            VIEWS['conn.%s.%s' % (_k, _n)] = ('std', _p + _n, [], True)
VIEWS['conn.unix.peekext'] = ('std', '<std::os::unix::net::UnixStream as conn::impls::unixstream::PeekExt>::peek', [], False)
DFL = {
    'dfl.target_description_xml': ('std', '<Self as arch::Arch>::target_description_xml', [], True),
    'dfl.lldb_register_info': ('std', '<Self as arch::Arch>::lldb_register_info', [], True),
    'dfl.write_all': ('std', '<Self as conn::Connection>::write_all', [], True),
    'dfl.on_session_start': ('std', '<Self as conn::Connection>::on_session_start', [], True),
    'dfl.is_thread_alive': ('std', '<Self as target::ext::base::multithread::MultiThreadBase>::is_thread_alive', [], True),
    'dfl.on_start': ('std', '<Self as target::ext::extended_mode::ExtendedMode>::on_start', [], True),
    'dfl.regid': ('std', '<() as arch::RegId>::from_raw_id', [], True),
    'dfl.bpkind': ('std', '<() as arch::BreakpointKind>::from_usize', [], True),
}
VIEWS.update(DFL)
TX = 'target::ext::'
VIEWS['ext.syscalls.next'] = ('std', '<%scatch_syscalls::SyscallNumbers<\'_, U> as std::iter::Iterator>::next' % TX, [], True)
VIEWS['ext.args.next'] = ('std', '<%sextended_mode::Args<\'_, \'args> as std::iter::Iterator>::next' % TX, [], True)
VIEWS['ext.hostio.from_io'] = ('std', '<%shost_io::HostIoError<E> as std::convert::From<std::io::Error>>::from' % TX, [], True)
VIEWS['ext.lldb.done'] = ('std', TX + "lldb_register_info_override::Callback::<'a>::done", [], True)
VIEWS['ext.lldb.write'] = ('std', TX + "lldb_register_info_override::Callback::<'a>::write", [], True)
VIEWS['ext.tp.source'] = ('std', TX + "tracepoints::SourceTracepoint::<'_, U>::get_owned::<'b>", [], True)
VIEWS['ext.tp.action'] = ('std', TX + "tracepoints::TracepointAction::<'_, U>::get_owned::<'b>", [], True)
VIEWS['ext.tp.state'] = ('std', '<%stracepoints::TracepointEnumerateState<U> as std::default::Default>::default' % TX, [], False)
VIEWS['ext.err.unit'] = ('std', '<target::TargetError<E> as std::convert::From<()>>::from', [], True)
VIEWS['ext.err.io'] = ('std', '<target::TargetError<E> as std::convert::From<std::io::Error>>::from', [], True)
# the pieces a packet consists of, consulted only when the comparison of the packet as a whole is left undecided
TPX = 'stub::core_impl::tracepoints::'
PARTS = {'QTDP': ['part.qtdp.parse', 'part.qtdp.create', 'part.qtdp.extend', 'part.qtdp.actions']}
VIEWS['part.qtdp.parse'] = ('std', "<protocol::commands::_QTDP::QTDP<'a> as protocol::commands::ParseCommand<'a>>::from_packet", [], False)
VIEWS['part.qtdp.create'] = ('std', TPX + '<impl target::ext::tracepoints::NewTracepoint<U>>::from_tdp', [], False)
VIEWS['part.qtdp.extend'] = ('std', TPX + "ExtendTracepoint::<'a, U>::from_tdp", [], False)
VIEWS['part.qtdp.actions'] = ('std', TPX + "ExtendTracepoint::<'a, U>::actions::<T, C, impl FnMut(&TracepointAction<'_, U>)>", [], False)
VIEWS.update(RWV)
VIEWS['rw.flush'] = VIEWS['rw.flush'][:2] + (WR, False)
VIEWS.update(HEXV)


def kw(vid):
    return KW.get(vid, {'fault': True} if vid.endswith('.fault') or vid.startswith(('conn.', 'error.', 'dfl.')) else {})


def summarise(vid):
    cfg, key, ev, public = VIEWS[vid]
    c = env.crate(cfg)
    f = funcs.find_key(c, key)
    if f is None:
        return None, None
    args = [('arg', 'a%d' % i) for i in range(f.argc)]
    I, paths = funcs.run(c, f, args, ev, **kw(vid))
    return I, summ.build(I, paths)


def parts(ctx, name):
    """findings for a packet whose whole could not be judged: exactly one of its pieces differs from its summary, and certainly so"""
    G = golden.fgold()
    out = []
    for vid in PARTS.get(name, ()):
        try:
            I, s = summarise(vid)
        except (Undecided, summ.TooBig):
            return []
        if s is None:
            return []
        fs = list(summ.compare(s, specio.thaw(G[vid]), base_vocab=golden.base_vocab()))
        if fs:
            out.append((vid, I, fs))
    if len(out) != 1 or not any(f.certain for f in out[0][2]):
        return []
    vid, I, fs = out[0]
    return [(golden.dkey(vid, f.diff), 'packet `%s`, function `%s` (the other pieces are unchanged): %s at %s' % (
        name, VIEWS[vid][1], f.text(), '; '.join(golden.where(I, f.diff)[:4]))) for f in fs if f.certain]


def check(ctx, vids, kinds=None, proj=None, flt=None):
    G = golden.fgold()
    ctx.rule('For every listed library function, all paths through it (inlined callees included, named operations kept symbolic, loops widened to '
             'fixpoints) are enumerated on the MIR; per path the conditions, operations with argument origins, result value and state updates are '
             'compared with the reviewed summary of that function under jointly satisfiable conditions.')
    for vid in vids:
        try:
            I, s = summarise(vid)
        except (Undecided, summ.TooBig) as e:
            ctx.undecided('function %s: %s' % (vid, e))
            continue
        if s is None:
            t = 'function %s (%s) is not in the current tree' % (vid, VIEWS[vid][1])
            if VIEWS[vid][3]:
                ctx.violation(vid + ':missing', t + ' although it is public API')
            else:
                ctx.undecided(t)
            continue
        g = specio.thaw(G[vid])
        ctx.count('functions')
        ctx.count('interpreted_states', I.nstates)
        ctx.count('behaviours', len(s.beh))
        pk = {} if proj is None else {'proj': proj}
        for f in summ.compare(s, g, base_vocab=golden.base_vocab(), **pk):
            if kinds is not None and f.diff.kind not in kinds or flt is not None and not flt(f):
                continue
            loc = golden.where(I, f.diff)
            text = 'function `%s`: %s' % (vid, f.text()) + (' at ' + '; '.join(loc[:4]) if loc else '')
            if f.certain:
                ctx.violation(golden.dkey(vid, f.diff), text)
            else:
                ctx.undecided(text[:300] + ' -- ' + f.why)
        for k in sorted(s.beh, key=repr)[:1]:
            ctx.sample('%s: %s -> %s' % (vid, ' '.join(summ.name_of(o) for o in k[0])[:150], summ.outs(k[1])[:200]))
