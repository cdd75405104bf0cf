#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CI = "src/stub/core_impl/"
PC = "src/protocol/commands/"
NOEND = "No existing test drives a whole packet through the stub; the unit tests only cover hex/argument helpers, the syscall-list parser and the register round trip of one architecture."

# ---------------------------------------------------------------- wire level
prop("C01", "Outgoing packets are framed and checksummed correctly",
 "Every reply the stub sends is '$', the body bytes, '#', and two hex digits giving the sum modulo 256 of exactly the body bytes that were sent, whether run-length encoding is on or off. Nothing else is ever written to the connection except single '+' acknowledgement bytes, and finishing a packet always flushes the connection.",
 ["inputs", "configurations"], "every reply body, RLE on and off, every feature configuration",
 "Tests never look at bytes produced by the packet writer. " + NOEND,
 ["src/protocol/response_writer.rs", "src/stub/core_impl.rs", "src/conn/mod.rs"],
 [("ResponseWriter::flush", "src/protocol/response_writer.rs"), ("inner_write is the only writer of body bytes", "src/protocol/response_writer.rs")],
 [("checksum", "running sum of body bytes", "ResponseWriter"), ("started", "'$' already sent", "ResponseWriter")], ["Connection::write", "Connection::flush"])
prop("C02", "Run-length encoding is lossless and never emits a reserved count byte",
 "With run-length encoding enabled, each run put on the wire is the character followed by '*' and a count byte n such that the receiver (count = n - 29 extra copies) reconstructs exactly the original run, and short runs are sent literally. A count byte is always a printable character and never '#' or '$'. Nothing is run-length encoded for a target that does not enable it.",
 ["inputs"], "every run length and every byte",
 "The tests never enable RLE on the writer; the faulty run lengths are two values out of about a hundred.",
 ["src/protocol/response_writer.rs"], [("ResponseWriter::write", "src/protocol/response_writer.rs")],
 [("rle_repeat", "pending copies of rle_char", "ResponseWriter")], ["Connection::write"])
prop("C03", "Number, hex and binary encodings of replies follow the protocol",
 "Hex bytes in replies are two lowercase hex digits, high nibble first; numbers are big-endian hex without leading zero bytes (zero is '00'); decimal numbers are plain decimal; and binary data escapes exactly '#', '$', '}' and '*' as '}' followed by the byte XOR 0x20. A thread id is written as 'p<pid>.<tid>' when a process id is given and '<tid>' otherwise, with '-1' meaning all.",
 ["inputs"], "every byte, number and thread id written into a reply",
 "The encoders have no unit tests; a wrong escape shows only for particular bytes.",
 ["src/protocol/response_writer.rs", "src/internal/be_bytes.rs"], [("write_hex/write_num/write_dec/write_binary/write_specific_thread_id", "src/protocol/response_writer.rs")])
prop("C04", "Incoming hex and binary arguments are decoded exactly",
 "A hex digit argument (thread ids included) accepts exactly [0-9a-fA-F] (plus 'x'/'X' read as zero) and rejects everything else; numbers that do not fit their type are rejected rather than wrapped; '}'-escaped binary data is decoded as the following byte XOR 0x20 and a dangling escape is rejected. Target-address sized arguments are big-endian and are rejected when they are wider than the target's address type.",
 ["inputs"], "every argument byte string",
 "Unit tests sample a handful of strings; overflow and invalid digits are not sampled.",
 ["src/protocol/common/hex.rs", "src/internal/be_bytes.rs"], [("decode_hex, decode_hex_buf, decode_bin_buf, ascii2byte, is_hex", "src/protocol/common/hex.rs"), ("BeBytes::from_be_bytes", "src/internal/be_bytes.rs")])
prop("C05", "Only complete, checksum-valid packets are acted upon",
 "A command packet is acted on only after its '#' and two checksum digits arrived and the transmitted checksum equals the modulo-256 sum of the body; otherwise the session reports a packet error and no target operation runs. Outside a packet, '+', '-' and 0x03 are recognised as ack, nack and interrupt, any other byte is an error, and a nack ends the session with an error.",
 ["inputs", "histories"], "every incoming byte sequence",
 NOEND,
 ["src/protocol/packet.rs", "src/protocol/recv_packet.rs", "src/stub/core_impl.rs"], [("RecvPacketStateMachine::pump", "src/protocol/recv_packet.rs"), ("PacketBuf::new", "src/protocol/packet.rs"), ("Packet::from_buf", "src/protocol/packet.rs")],
 [("state", "position in the incoming packet", "RecvPacketStateMachine")])
prop("C06", "Commands are acknowledged exactly until no-ack mode is negotiated",
 "Each received command packet is acknowledged with exactly one '+' sent before any part of its reply, and with none once no-ack mode is on; acks, nacks and interrupts are never acknowledged. No-ack mode is turned on only by QStartNoAckMode and only if the target permits it, and that command itself is still acknowledged and answered OK.",
 ["inputs", "histories"], "every packet sequence and target configuration",
 NOEND, ["src/stub/core_impl.rs", CI+"no_ack_mode.rs"], [("handle_packet", "src/stub/core_impl.rs"), ("handle_no_ack_mode", CI+"no_ack_mode.rs")],
 [("NO_ACK_MODE", "negotiated", "ProtocolFeatures")], ["Connection::write"])
prop("C07", "Each command gets exactly one complete, flushed reply",
 "Every command that does not resume the target is answered with exactly one reply packet, flushed before the stub waits for more input (only the kill commands outside extended mode go unanswered; console output packets of a monitor command come before its reply); an OK or error reply is never appended to reply content already produced. A command that resumes the target writes no reply of its own.",
 ["inputs", "fault_sequences"], "every command, every target result including errors at any point",
 "Needs a target operation to fail after part of the reply was produced; no test has a failing target.",
 ["src/stub/core_impl.rs", CI], [("HandlerStatus / NonFatalError epilogue", "src/stub/core_impl.rs")])
prop("C08", "Every protocol command is routed to its own operation",
 "Each protocol command name is recognised by its exact literal, no command is swallowed by another one whose name is a prefix of it, and the parsed command reaches only its own target operation. Any packet that matches no enabled command is answered with an empty reply without touching the target's operations (apart from the resume stub for a target without resume support).",
 ["inputs", "configurations"], "every packet name and every set of enabled extensions",
 NOEND, ["src/protocol/commands.rs", "src/stub/core_impl.rs"], [("commands! table", "src/protocol/commands.rs"), ("handle_command", "src/stub/core_impl.rs")])
prop("C09", "Extension commands are handled only if the target enables the extension",
 "A command belonging to an optional extension is parsed and handled only if the target reports that extension (and the sub-feature the command needs) as supported; otherwise it gets an empty reply and no method of the extension is called. This holds for every extension independently of which other extensions are enabled.",
 ["inputs", "configurations"], "every subset of extensions, every command",
 "The examples enable almost everything, so missing guards are invisible to them.",
 ["src/protocol/commands.rs", CI], [("support_* guards", "src/protocol/commands.rs and each handler")])
prop("C10", "qSupported and vCont? advertise exactly what the stub will accept",
 "The qSupported reply reports the real packet buffer size and lists each optional feature if and only if the target enables the extension that the corresponding commands are gated on, in the well-formed ';name+' syntax; vCont? lists stepping and range stepping if and only if the target supports them. A feature reported by the client is recorded as on for '+' and off for '-'.",
 ["inputs", "configurations"], "every subset of extensions",
 NOEND, [CI+"base.rs", CI+"resume.rs", PC+"_qSupported.rs"], [("Base::qSupported", CI+"base.rs"), ("vCont::Query", CI+"resume.rs")])
# ---------------------------------------------------------------- operations
prop("C11", "Memory commands access exactly the requested address and data",
 "A memory read calls the target with the packet's address, never a slice longer than the remaining requested length or the packet buffer, and replies with the hex of exactly the bytes the target reported as read; the whole requested length is read in consecutive chunks, ending early only after a short read or an error. Memory writes (hex and binary form) pass the packet's address and decoded data, and both use the selected thread on multi-threaded targets.",
 ["inputs"], "every address, length, data and chunking",
 NOEND, [CI+"base.rs", CI+"x_upcase_packet.rs", PC+"_m.rs", PC+"_m_upcase.rs", PC+"_x_upcase.rs"], [("Base::m, Base::M, X", CI+"base.rs")])
prop("C12", "Register commands access the selected thread's registers faithfully",
 "Register reads and writes (all registers or a single one) go to the currently selected thread on multi-threaded targets and use the architecture's own register encoding; values come from and go to the packet's register number and data unchanged. Unavailable register bytes are reported as 'xx', and a register value whose length disagrees with the architecture's register size is never sent.",
 ["inputs"], "every register id and value, single- and multi-threaded targets",
 NOEND, [CI+"base.rs", CI+"single_register_access.rs", PC+"_p.rs", PC+"_p_upcase.rs", PC+"_g_upcase.rs"], [("Base::g/G", CI+"base.rs"), ("handle_single_register_access", CI+"single_register_access.rs")])
prop("C13", "Breakpoint packets map to the matching breakpoint operation",
 "Types 0, 1, 2, 3, 4 of the insert/remove packets mean software breakpoint, hardware breakpoint, write, read and access watchpoint: insert calls the add operation and remove the remove operation of that kind with the packet's address and kind/length. Success is answered OK, refusal by the target with an error reply, and an unsupported or unknown type with an empty reply.",
 ["inputs", "configurations"], "every type, address and kind",
 NOEND, [CI+"breakpoints.rs", PC+"breakpoint.rs"], [("handle_breakpoint_common", CI+"breakpoints.rs")])
prop("C14", "Thread selection controls which thread each operation uses",
 "The thread chosen with Hg is used for memory and register access and the one chosen with Hc for c, s and reverse step; 'any' picks an existing active thread (error if none), 'all' is rejected for memory/register access, and reporting a stop with a thread selects that thread for both. No other command changes the selected threads.",
 ["inputs", "histories"], "every sequence of selections, stops and operations",
 NOEND, [CI+"base.rs", CI+"resume.rs", CI+"reverse_exec.rs", "src/stub/core_impl.rs"], [("current_mem_tid/current_resume_tid", "src/stub/core_impl.rs")],
 [("current_mem_tid", "thread for memory/register access", "GdbStubImpl"), ("current_resume_tid", "thread for resume", "GdbStubImpl")])
prop("C15", "Resume requests are translated to the right target resume calls",
 "On multi-threaded targets a resume request first clears earlier resume actions, then sets each listed thread's action (continue, step or range step with the packet's signal/range), and resumes exactly once and only if every action was accepted; on single-threaded targets it makes exactly one continue, step or range-step call. Stepping and range stepping are requested only if the target supports them, and malformed or unsupported actions end in an error without resuming.",
 ["inputs", "configurations"], "every action list",
 NOEND, [CI+"resume.rs", PC+"_vCont.rs"], [("do_vcont_single_thread/do_vcont_multi_thread", CI+"resume.rs"), ("ActionsBuf::iter", PC+"_vCont.rs")])
prop("C16", "Stop replies describe the reported stop reason exactly",
 "Each stop reason reported by the user is sent as its protocol stop reply (S, T, W or X with the given signal or exit code, thread id, and swbreak/hwbreak/watch/rwatch/awatch/replaylog/syscall_entry/syscall_return annotation with its value); process exit and termination also end the session with that same code. A stop reason whose extension the target has not enabled is rejected with an error.",
 ["inputs", "configurations"], "every stop reason and target configuration",
 NOEND, [CI+"resume.rs"], [("finish_exec, write_stop_common", CI+"resume.rs")])
prop("C17", "Process ids appear in thread ids exactly when multiprocess is negotiated",
 "Thread ids in replies carry a process id if and only if the client negotiated the multiprocess extension, and that process id is the target's current active pid (a fixed dummy pid when the target does not provide one). The negotiation flag changes only through qSupported.",
 ["inputs", "histories", "configurations"], "every negotiation history",
 NOEND, [CI+"base.rs", CI+"resume.rs", CI+"extended_mode.rs"], [("features.multiprocess()", CI+"base.rs"), ("get_current_pid", CI+"base.rs")])
prop("C18", "Target errors are reported as error replies or end the session, as classified",
 "A fatal target error always ends the session and is returned to the caller as that same target error; a non-fatal one is answered with an error reply (the given errno, 121 when unspecified, or the OS error number) and the session continues. No error returned by a target method is dropped.",
 ["inputs", "fault_sequences"], "every target method at every call, every error kind",
 "No test target ever returns an error.", ["src/stub/core_impl.rs", CI], [("TargetResultExt::handle_error", "src/stub/core_impl.rs")])
prop("C19", "Connection errors are never lost and keep their kind",
 "Every error from the connection's write or flush while answering ends the session with a connection error of kind write (unless the target method that was writing itself fails fatally), errors from reading end it with kind read, and errors from session start-up with kind init. No connection error is dropped or overwritten by a later success, including inside callbacks invoked by target methods.",
 ["fault_sequences"], "a connection failure at any single write, flush or read",
 "No test has a failing connection.", ["src/stub/error.rs", "src/stub/mod.rs", CI], [("ResponseWriterError -> InternalError::Connection(Write)", "src/stub/error.rs"), ("conn_read/conn_write/conn_init", "src/stub/error.rs")])
prop("C20", "The session state machine makes only the documented transitions",
 "A resume command moves an idle session to running, an interrupt byte moves idle or running sessions to the interrupt state remembering where it came from, reporting a stop moves running to idle (or disconnected when the target exited), and kill or detach moves to disconnected with that reason. An interrupt handled while idle returns to idle with its stop reason deferred, and a deferred stop reason is reported exactly once, right after the next resume.",
 ["inputs", "histories"], "every sequence of packets, stops and interrupts",
 NOEND, ["src/stub/state_machine.rs"], [("incoming_data, report_stop, interrupt_handled, return_to_idle", "src/stub/state_machine.rs")],
 [("deferred_ctrlc_stop_reason", "stop reason of an interrupt handled while idle", "state::Idle"), ("from_idle", "where the interrupt came from", "state::CtrlCInterrupt")])
prop("C21", "Session operations are only callable in the states that allow them",
 "Using the public API, a stop reason can be reported only on a running session, an interrupt acknowledged only in the interrupt state, data fed only to an idle or running session, and the disconnect reason read only when disconnected; each consumes the session value so a stale state cannot be reused. Users can neither construct states nor implement the sealed stop-reason conversion, and any violation is a compile error.",
 ["programs"], "every program using the public API",
 "Tests can only show that correct programs compile.", ["src/stub/state_machine.rs", "src/stub/stop_reason.rs"], [("typestate GdbStubStateMachineInner<S>", "src/stub/state_machine.rs"), ("private::Sealed", "src/stub/stop_reason.rs")])
prop("C22", "The blocking event loop drives the session faithfully",
 "The blocking runner reads a byte only while idle, waits for the target only while running, invokes the interrupt handler only in the interrupt state, feeds each outcome to the session in that state, and returns exactly when the session disconnects, with its reason. Errors of the target or connection seen by the loop end it with the corresponding target or read error, and the session starts only if software breakpoints are supported or explicitly opted out of.",
 ["histories", "fault_sequences"], "every event sequence",
 NOEND, ["src/stub/mod.rs"], [("run_blocking, run_state_machine", "src/stub/mod.rs")])
prop("C23", "Single-thread stop reasons convert to the same multi-thread stop reason",
 "A stop reason reported by a single-threaded target is treated as the same stop reason with the same signal, exit code, address, kind and position, attributed, where it names a thread at all, to the single default thread. No stop reason is changed into another one.",
 ["inputs"], "every stop reason",
 "Not tested.", ["src/stub/stop_reason.rs"], [("From<BaseStopReason<(), U>> for BaseStopReason<Tid, U>", "src/stub/stop_reason.rs")])
prop("C24", "The library contains no reachable panic in optimised no_std builds",
 "In an optimised build, no code path of the library reachable while driving a session with any set of enabled extensions contains a call into the panic machinery, whatever bytes the client sends.",
 ["inputs", "configurations"], "every byte sequence, every extension enabled",
 "The project's own check inspects one example that enables few extensions.", ["src/", "example_no_std"], [("bounds checks via get/split_at guards", "src/protocol/commands/*.rs")])
prop("C25", "Lengths returned by target methods are bounds-checked before use",
 "When a target method reports how many bytes it put into a buffer the stub handed it, the reply contains exactly that many bytes of that same buffer, and a reported length larger than the buffer ends the command with an error instead of a panic or an out-of-bounds read.",
 ["inputs", "fault_sequences"], "every returned length",
 "No test target misreports a length.", [CI+"base.rs", CI+"host_io.rs", CI+"auxv.rs", CI+"exec_file.rs", CI+"memory_map.rs", CI+"libraries.rs", CI+"target_xml.rs", CI+"thread_extra_info.rs", CI+"single_register_access.rs"], [("buf.get(..ret).ok_or(PacketBufferOverflow)", CI)])
prop("C26", "Unsafe code stays confined and disabled by paranoid_unsafe",
 "Unchecked memory access occurs only in the few reviewed places (packet body slicing, in-place hex decoding and the unix-socket peek), the ranges they use are established by checks made before, and no other unsafe operation exists in the library. With the paranoid_unsafe feature the library contains no unsafe code at all, and behaves identically (only peeking a unix socket is not available then).",
 ["inputs", "configurations"], "every build configuration",
 "Tests run without any memory checker and without that feature.", ["src/lib.rs", "src/protocol/packet.rs", "src/protocol/common/hex.rs", "src/conn/impls/unixstream.rs"], [("forbid(unsafe_code)", "src/lib.rs")])
prop("C27", "Wrapped targets behave exactly like the target they wrap",
 "A boxed target or a mutable reference to a target forwards every target method to the wrapped target's method of the same name and returns its result, so it enables exactly the same extensions and settings as the wrapped target.",
 ["configurations", "programs"], "every target method, every wrapper",
 "No test uses a wrapped target.", ["src/target/mod.rs"], [("impl_dyn_target!", "src/target/mod.rs")])
prop("C28", "Wrapped connections behave exactly like the connection they wrap",
 "A boxed connection or a mutable reference to one forwards each connection method to the wrapped connection's method of the same name with the same arguments and returns its result. The TCP and unix-socket connections read, peek and write exactly one byte per call without losing errors, and peeking never consumes input or blocks.",
 ["configurations", "programs"], "every connection method and wrapper",
 "No test uses a connection at all.", ["src/conn/impls/boxed.rs", "src/conn/impls/mod.rs", "src/conn/impls/tcpstream.rs", "src/conn/impls/unixstream.rs", "src/conn/mod.rs"], [("impl Connection/ConnectionExt", "src/conn/impls")])
# ---------------------------------------------------------------- extensions
prop("C29", "Host I/O requests reach the right file operation with the right reply",
 "Each vFile request calls only its own target file operation with the packet's arguments in order; success is answered 'F' with the result (plus ';' and the escaped data for reads, and the 64-byte big-endian stat layout for fstat), and a target errno is answered 'F-1,<errno>'. Fatal target errors end the session.",
 ["inputs", "fault_sequences"], "every vFile request and target result",
 NOEND, [CI+"host_io.rs", PC+"_vFile_open.rs", "src/target/ext/host_io.rs"], [("handle_host_io", CI+"host_io.rs")])
prop("C30", "Object transfers (qXfer) pass offset and length and end correctly",
 "Every qXfer read passes the packet's annex, offset and length to its own target operation and sends the returned bytes as 'm' plus escaped data, or 'l' when the target returned no data. The built-in target description is served from the requested offset, never past its end, and unknown annexes of it are not served.",
 ["inputs", "histories"], "every offset and length",
 NOEND, [CI+"auxv.rs", CI+"exec_file.rs", CI+"memory_map.rs", CI+"libraries.rs", CI+"target_xml.rs", "src/protocol/common/qxfer.rs"], [("QXferReadBase", "src/protocol/common/qxfer.rs")])
prop("C31", "Extended-mode requests reach the right operation",
 "Starting, restarting, attaching, running, killing, querying attachment and configuring ASLR, environment, working directory and shell each call only the matching target operation with the packet's arguments (an empty value meaning unset), and answer as the protocol requires. Attach requires current-pid support; kill ends the session unless the target asked to keep it, and detach always ends it.",
 ["inputs", "configurations"], "every extended-mode packet",
 NOEND, [CI+"extended_mode.rs", CI+"base.rs", PC+"_vRun.rs", PC+"_vAttach.rs"], [("handle_extended_mode", CI+"extended_mode.rs")])
prop("C32", "Tracepoint requests reach the right operation with the right data",
 "Each tracepoint packet calls its own target operation with the packet's numbers, addresses, options and actions; a tracepoint definition is completed exactly when the packet says no more packets follow; unsupported options are rejected before the target is told. Replies describing tracepoints, status, frames and buffer contents use the protocol's field order and keywords.",
 ["inputs", "histories"], "every tracepoint packet",
 NOEND, [CI+"tracepoints.rs", PC+"_QTDP.rs", PC+"_QTDPsrc.rs", PC+"_QTFrame.rs", PC+"_QTBuffer_upcase.rs"], [("handle_tracepoints", CI+"tracepoints.rs")])
prop("C33", "Tracepoint enumeration visits everything once and in order",
 "Enumerating tracepoints follows exactly the steps the target returns: from a tracepoint to its actions and sources with step numbers counting up from zero, to the next tracepoint, or to the end; requests after that get an empty reply. Starting a new enumeration always restarts from the first tracepoint.",
 ["histories"], "every sequence of enumeration steps",
 NOEND, [CI+"tracepoints.rs"], [("handle_tracepoint_state_machine_step", CI+"tracepoints.rs")], [("cursor", "enumeration position", "TracepointEnumerateState")])
prop("C34", "Syscall catching passes the exact requested filter",
 "QCatchSyscalls:0 disables catching, :1 without numbers catches all syscalls, and :1 with numbers passes exactly those numbers in order to the target; a number too large for the target is an error. Each is answered OK only if the target accepted it.",
 ["inputs"], "every syscall list",
 "Only the list parser is sampled.", [CI+"catch_syscalls.rs", PC+"_QCatchSyscalls.rs"], [("handle_catch_syscalls", CI+"catch_syscalls.rs")])
prop("C35", "Reverse execution requests run only the requested reverse operation",
 "Reverse continue and reverse step call the target's reverse-continue and reverse-step operation exactly once, the latter for the selected resume thread on multi-threaded targets and never for all threads; then the stub waits for the stop reason without replying.",
 ["inputs", "configurations"], "every target configuration",
 NOEND, [CI+"reverse_exec.rs"], [("handle_reverse_cont/handle_reverse_step", CI+"reverse_exec.rs")])
prop("C36", "Thread queries report exactly the target's threads",
 "The thread list contains every thread the target lists, once and in order, comma separated, followed by the end marker on the next request; the alive query answers OK exactly for threads the target says are alive (for single-threaded targets: the one default thread); extra info is the hex of what the target wrote.",
 ["inputs"], "every thread set",
 NOEND, [CI+"base.rs", CI+"thread_extra_info.rs"], [("Base::qfThreadInfo, Base::T", CI+"base.rs")])
prop("C37", "Monitor output is delivered completely and before the final OK",
 "Each piece of console output of a monitor command is sent as its own flushed 'O' packet with the hex of exactly that text, in order, and buffered output is sent when the console is flushed or dropped, so all of it precedes the final OK. The command passed to the target is the decoded packet argument.",
 ["inputs", "configurations"], "every output sequence, with and without alloc",
 NOEND, [CI+"monitor_cmd.rs", "src/protocol/console_output.rs"], [("callback in handle_monitor_cmd", CI+"monitor_cmd.rs"), ("ConsoleOutput drop/flush", "src/protocol/console_output.rs")])
prop("C38", "Section offsets and LLDB register info replies carry the target's values",
 "Section offset replies name each section with the offset the target gave (Bss falling back to the data offset when omitted), and register-info replies carry each field the target gave under its protocol keyword with the keyword for its encoding, format and generic role; absent optional fields are left out and the end is marked with an error reply.",
 ["inputs"], "every offsets value and register description",
 NOEND, [CI+"section_offsets.rs", CI+"lldb_register_info.rs"], [("handle_section_offsets", CI+"section_offsets.rs"), ("handle_lldb_register_info", CI+"lldb_register_info.rs")])
prop("C39", "Packet buffers are sized as configured",
 "Building a session uses exactly the provided buffer, truncated to the configured packet size, or an internally allocated buffer of the configured (default 4096) size; a configured size larger than the provided buffer, or no buffer without alloc, is an error. A packet larger than a provided buffer is rejected with an error and never overruns it (an allocated buffer grows instead).",
 ["inputs", "configurations"], "every buffer and size",
 "Not tested.", ["src/stub/builder.rs", "src/util/managed_vec.rs", "src/protocol/recv_packet.rs"], [("GdbStubBuilder::build", "src/stub/builder.rs"), ("ManagedVec::push", "src/util/managed_vec.rs")])
# ---------------------------------------------------------------- architectures
prop("C40", "Register file serialisation and deserialisation agree for every architecture",
 "For every built-in architecture, serialising a register file emits every register exactly once in GDB's order with the target's byte order, and deserialising reads back the same registers from the same byte positions, rejecting input that is too short and accepting a full register file. The reported program counter is the architecture's program counter register.",
 ["inputs"], "every register value",
 "One x86 round-trip test samples a few values; other architectures have none.", ["gdbstub_arch/src"], [("gdb_serialize/gdb_deserialize", "gdbstub_arch/src/*/reg")])
prop("C41", "Register numbering agrees with the register file layout for every architecture",
 "For every built-in architecture, a raw GDB register number maps to the register that occupies that position in the serialised register file, with that register's size, and numbers outside the register file map only to registers outside it or to nothing. Named AArch64 system registers have their architectural encoding.",
 ["inputs"], "every register number",
 "Two x86 tests compare total sizes only.", ["gdbstub_arch/src"], [("RegId::from_raw_id", "gdbstub_arch/src/*/reg/id.rs")])
prop("C42", "The library builds in every supported feature configuration",
 "The library compiles for no_std without alloc, with alloc, with std, with paranoid_unsafe and with trace-pkt on or off, and in the no_std configurations uses neither std nor heap allocation.",
 ["configurations"], "every feature combination",
 "Tests build only two configurations.", ["Cargo.toml", "src/lib.rs"], [("cfg(feature) gates", "src/lib.rs")])
prop("C43", "Signals have GDB's numbering",
 "Every named signal constant has the number GDB's remote protocol assigns to it, no two names share a number, and a signal is sent and received by that number unchanged.",
 ["inputs"], "every signal", "Not tested.", ["src/common/signal.rs"], [("Signal constants", "src/common/signal.rs")])
prop("C44", "Target description XML agrees with the architecture's registers",
 "Where an architecture ships a full register description, the described registers, their order and their bit sizes match the serialised register file; otherwise the description names the architecture GDB expects.",
 ["configurations"], "every built-in architecture", "Not tested.", ["gdbstub_arch/src"], [("Arch::target_description_xml", "gdbstub_arch/src/*/mod.rs")])
prop("C45", "Byte-order helpers are exact inverses",
 "Writing an integer in big- or little-endian order into a buffer and reading it back yields the same integer for every supported width. Shorter input is the integer whose missing most significant bytes are zero. A buffer too small for the integer is rejected, and so is input longer than the integer unless the bytes beyond its size - the first ones in big-endian, the last ones in little-endian order - are all zero.",
 ["inputs"], "every integer type and value", "Two unit tests sample a few values.", ["src/internal/be_bytes.rs", "src/internal/le_bytes.rs"], [("BeBytes, LeBytes", "src/internal")])
prop("C46", "Breakpoint kinds of ARM and MIPS have GDB's meaning",
 "For ARM, breakpoint kind 2 is a 16-bit Thumb, 3 a 32-bit Thumb and 4 a 32-bit ARM breakpoint; for MIPS, kinds 2 to 5 are 16-bit MIPS16, 16-bit microMIPS, 32-bit MIPS and 32-bit microMIPS breakpoints. Every other kind is rejected, and architectures without kinds of their own hand the number to the target unchanged.",
 ["inputs"], "every breakpoint kind", "Not tested.", ["gdbstub_arch/src/arm/mod.rs", "gdbstub_arch/src/mips/mod.rs", "src/arch.rs"], [("BreakpointKind::from_usize", "gdbstub_arch/src/*/mod.rs")])
prop("C47", "Every built-in architecture uses its own register file and widths",
 "Each built-in architecture is defined with the address width, register file, register identifiers and breakpoint kinds of that architecture: 16- and 32-bit variants for MSP430 and MSP430X, 32- and 64-bit variants for MIPS, RISC-V and x86, 64-bit for AArch64 and 32-bit for ARMv4T and PowerPC.",
 ["configurations"], "every built-in architecture", "Not tested.", ["gdbstub_arch/src"], [("impl Arch", "gdbstub_arch/src/*/mod.rs")])
prop("C48", "Optional features default to absent and settings to their documented values",
 "An optional capability of a target is reported as absent unless the target implements the method that provides it, and asking for it does nothing else. Packet features (no-ack mode, binary writes, resume stub, run-length encoding, target description, LLDB register info) are on by default and implicit software breakpoints off. By default a thread is alive exactly if the target lists it, entering extended mode and starting a session do nothing, writing a buffer writes each of its bytes in order up to the first error, and an architecture offers no description.",
 ["configurations", "inputs"], "every target trait and default method", "Test targets implement few extensions.", ["src/target/mod.rs", "src/target/ext", "src/conn/mod.rs", "src/arch.rs"], [("provided trait methods", "src/target/ext")])
prop("C49", "Host I/O numbers are those of GDB's File-I/O protocol",
 "Every host I/O error, open flag and file mode bit has the number the File-I/O protocol (or LLDB's extension of it) gives the name, independent of the host's own numbering, and a standard I/O error is mapped to the protocol error of the same meaning, or to the unknown error.",
 ["inputs"], "every flag, mode bit, errno and I/O error kind", "Not tested.", ["src/target/ext/host_io.rs"], [("HostIoErrno, HostIoOpenFlags, HostIoOpenMode, From<io::Error>", "src/target/ext/host_io.rs")])
prop("C50", "Protocol behaviour does not depend on the feature configuration",
 "For the same packets and the same target behaviour, the stub makes the same target calls, sends the same replies and keeps the same session state whether it is built with std, with alloc only, or without an allocator. The only differences are those inherent in the configuration: console output is buffered and packet buffers grow only with an allocator, and std I/O errors exist only with std.",
 ["inputs", "configurations"], "every packet, in each of three configurations",
 "Tests run in the std configuration only.", ["src/"], [("cfg(feature) alternatives", "src/")])
prop("C51", "Sessions share no hidden state and have no effects of their own",
 "Everything a session remembers lives in the objects the user passes around (the stub, the target, the connection): neither crate has mutable, thread-local or interior-mutable static data, so any number of sessions in one process, in sequence or in parallel, cannot influence each other. And the library never acts on anything but the session's target and connection: it does not print to the standard streams, open files or sockets, read the environment or the clock, start threads or change process-wide hooks (log records go through the log facade).",
 ["schedules", "histories", "configurations"], "every interleaving of sessions in one process, every feature configuration",
 "Each test runs at most one session and would not notice a leftover from another one.", ["src/", "gdbstub_arch/src/"],
 [("GdbStubImpl holds the session state", "src/stub/core_impl.rs"), ("static DESCRIPTION_XML", "gdbstub_arch/src/aarch64/mod.rs")])
prop("C52", "The library never recurses",
 "No function of gdbstub or gdbstub_arch can call itself, directly or through other functions of the library, so that the stack the stub needs is bounded by its longest call chain whatever bytes arrive and whatever the target returns (the user's own target, connection and event loop methods aside).",
 ["inputs", "histories"], "every call path through both crates", "A recursion on packet contents or on target results shows only with inputs long enough to exhaust the stack.",
 ["src/", "gdbstub_arch/src/"], [("loops instead of recursion", "src/stub/run_blocking.rs"), ("pump handles one byte at a time", "src/protocol/recv_packet.rs")])
prop("C53", "Unimplemented extensions leave no code in optimised builds",
 "You don't pay for what you don't use: in an optimised build, a target that does not implement a protocol extension carries no packet parsing, packet handling or stop reason code of that extension; whether an extension is available is settled by the target's support_ method at compile time, never by state kept at run time.",
 ["configurations", "programs"], "every extension left out of an otherwise complete target, and a target with no extension at all",
 "Tests run unoptimised builds and see only behaviour; code that is merely unreachable at run time passes all of them.", ["src/protocol/commands.rs", "src/stub/core_impl/", "src/util/dead_code_marker.rs"],
 [("commands! checks the extension before the packet", "src/protocol/commands.rs"), ("guard_* stop reasons", "src/stub/core_impl/resume.rs"), ("__dead_code_marker", "src/util/dead_code_marker.rs")])
prop("C54", "No loop goes round for ever",
 "Whatever a packet contains and whatever the target answers - an error, or a length of zero where more was asked for - no loop of the library turns without changing anything that decides whether it goes on: apart from waiting for data from the connection or for the target to stop, every loop makes progress on every turn.",
 ["inputs", "target answers"], "every packet, every answer of every operation of the target, every loop of the library",
 "Only a stub that never answers again shows it, and only for the one packet or answer that makes a turn stand still.", ["src/stub/core_impl/base.rs", "src/protocol/response_writer.rs", "src/stub/core_impl/tracepoints.rs"],
 [("m: the memory read loop", "src/stub/core_impl/base.rs"), ("write: run-length encoding", "src/protocol/response_writer.rs"), ("parse_raw_actions", "src/stub/core_impl/tracepoints.rs")])
# ---------------------------------------------------------------- not reachable statically
prop("C60", "A real GDB client interoperates with the stub",
 "A GDB client connected to the stub can complete a debugging session using every feature the stub advertises.",
 ["histories"], "every client behaviour", "No client in the tests.", ["src/"], [("whole protocol", "src/")])
prop("C61", "The stub answers in bounded time",
 "The stub processes each incoming byte in time bounded by the packet buffer size plus the target's own work, and never blocks on the connection other than through its read, write and flush calls.",
 ["schedules", "inputs"], "every input", "Not tested.", ["src/"], [("no loops on client-controlled counts without target calls", "src/")])
prop("C62", "The example emulators behave as their documentation says",
 "The bundled ARM emulators execute programs correctly while being debugged.",
 ["programs"], "every emulated program", "No emulator tests.", ["examples/"], [("examples", "examples/")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
