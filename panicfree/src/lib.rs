// A debugging session over a target that implements every extension, all of whose methods are opaque.
// Only compiled (never run): the check looks at the optimised code of everything reachable from `drive`.
#![no_std]
#![allow(unused)]
use core::mem::MaybeUninit;
use core::num::NonZeroUsize;
extern "C" {
    /// unknown code: may read and write everything reachable from its arguments
    fn __unknown(args: *const (), result: *mut ());
    fn __panicked() -> !;
}
#[inline(always)]
fn any<A, R>(a: A) -> R {
    unsafe {
        let mut r = MaybeUninit::<R>::uninit();
        __unknown(&a as *const A as *const (), r.as_mut_ptr() as *mut ());
        r.assume_init()
    }
}
use gdbstub::arch::{Arch, RegId, Registers};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::state_machine::GdbStubStateMachine as SM;
use gdbstub::stub::*;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::*;
use gdbstub::target::ext::{breakpoints::*, catch_syscalls::*, extended_mode::*, host_io::*, monitor_cmd::*, section_offsets::*, thread_extra_info::*, tracepoints::*};
use gdbstub::target::ext::{auxv::*, exec_file::*, libraries::*, lldb_register_info_override::*, memory_map::*, target_description_xml_override::*};
use gdbstub::target::{Target, TargetError, TargetResult};

// ON: which capabilities are enabled (bit n: the n-th on(n) below); U: the address type
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/config.rs"));
#[inline(always)]
fn on(n: u32) -> bool { ON >> n & 1 != 0 }
pub struct E(u32);
#[derive(Debug)]
pub enum A {}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Regs([u8; 16]);
impl Registers for Regs {
    type ProgramCounter = U;
    fn pc(&self) -> U { any(self) }
    fn gdb_serialize(&self, mut f: impl FnMut(Option<u8>)) { while any(()) { f(any(self)) } }
    fn gdb_deserialize(&mut self, b: &[u8]) -> Result<(), ()> { any((self, b)) }
}
#[derive(Debug)]
pub struct Rid(usize);
impl RegId for Rid {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> { any(id) }
}
impl Arch for A {
    type Usize = U;
    type Registers = Regs;
    type BreakpointKind = usize;
    type RegId = Rid;
    fn target_description_xml() -> Option<&'static str> { any(()) }
    fn lldb_register_info(id: usize) -> Option<gdbstub::arch::lldb::RegisterInfo<'static>> { any(id) }
}
pub struct T(u32);
impl Target for T {
    type Arch = A;
    type Error = E;
    fn base_ops(&mut self) -> BaseOps<'_, A, E> { if on(0) { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { on(1) }
    fn use_no_ack_mode(&self) -> bool { on(2) }
    fn use_x_upcase_packet(&self) -> bool { on(3) }
    fn use_resume_stub(&self) -> bool { on(4) }
    fn use_rle(&self) -> bool { on(5) }
    fn use_target_description_xml(&self) -> bool { on(6) }
    fn use_lldb_register_info(&self) -> bool { on(7) }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> { if on(8) { Some(self) } else { None } }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> { if on(9) { Some(self) } else { None } }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> { if on(10) { Some(self) } else { None } }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> { if on(11) { Some(self) } else { None } }
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> { if on(12) { Some(self) } else { None } }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> { if on(13) { Some(self) } else { None } }
    fn support_memory_map(&mut self) -> Option<MemoryMapOps<'_, Self>> { if on(14) { Some(self) } else { None } }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> { if on(15) { Some(self) } else { None } }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> { if on(16) { Some(self) } else { None } }
    fn support_exec_file(&mut self) -> Option<ExecFileOps<'_, Self>> { if on(17) { Some(self) } else { None } }
    fn support_auxv(&mut self) -> Option<AuxvOps<'_, Self>> { if on(18) { Some(self) } else { None } }
    fn support_libraries_svr4(&mut self) -> Option<LibrariesSvr4Ops<'_, Self>> { if on(19) { Some(self) } else { None } }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> { if on(20) { Some(self) } else { None } }
}
impl SingleThreadBase for T {
    fn read_registers(&mut self, x1: &mut Regs) -> TargetResult<(), Self> { any((self, x1, )) }
    fn write_registers(&mut self, x1: &Regs) -> TargetResult<(), Self> { any((self, x1, )) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> { if on(21) { Some(self) } else { None } }
    fn read_addrs(&mut self, x1: U, x2: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, )) }
    fn write_addrs(&mut self, x1: U, x2: &[u8]) -> TargetResult<(), Self> { any((self, x1, x2, )) }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> { if on(22) { Some(self) } else { None } }
}
impl SingleRegisterAccess<()> for T {
    fn read_register(&mut self, x1: (), x2: Rid, x3: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, )) }
    fn write_register(&mut self, x1: (), x2: Rid, x3: &[u8]) -> TargetResult<(), Self> { any((self, x1, x2, x3, )) }
}
impl SingleRegisterAccess<Tid> for T {
    fn read_register(&mut self, x1: Tid, x2: Rid, x3: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, )) }
    fn write_register(&mut self, x1: Tid, x2: Rid, x3: &[u8]) -> TargetResult<(), Self> { any((self, x1, x2, x3, )) }
}
impl SingleThreadResume for T {
    fn resume(&mut self, x1: Option<Signal>) -> Result<(), E> { any((self, x1, )) }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> { if on(23) { Some(self) } else { None } }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> { if on(24) { Some(self) } else { None } }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> { if on(25) { Some(self) } else { None } }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> { if on(26) { Some(self) } else { None } }
}
impl SingleThreadSingleStep for T { fn step(&mut self, x1: Option<Signal>) -> Result<(), E> { any((self, x1, )) } }
impl SingleThreadRangeStepping for T { fn resume_range_step(&mut self, x1: U, x2: U) -> Result<(), E> { any((self, x1, x2, )) } }
impl ReverseCont<()> for T { fn reverse_cont(&mut self) -> Result<(), E> { any((self, )) } }
impl ReverseStep<()> for T { fn reverse_step(&mut self, x1: ()) -> Result<(), E> { any((self, x1, )) } }
impl ReverseCont<Tid> for T { fn reverse_cont(&mut self) -> Result<(), E> { any((self, )) } }
impl ReverseStep<Tid> for T { fn reverse_step(&mut self, x1: Tid) -> Result<(), E> { any((self, x1, )) } }
impl MultiThreadBase for T {
    fn read_registers(&mut self, x1: &mut Regs, x2: Tid) -> TargetResult<(), Self> { any((self, x1, x2, )) }
    fn write_registers(&mut self, x1: &Regs, x2: Tid) -> TargetResult<(), Self> { any((self, x1, x2, )) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> { if on(27) { Some(self) } else { None } }
    fn read_addrs(&mut self, x1: U, x2: &mut [u8], x3: Tid) -> TargetResult<usize, Self> { any((self, x1, x2, x3, )) }
    fn write_addrs(&mut self, x1: U, x2: &[u8], x3: Tid) -> TargetResult<(), Self> { any((self, x1, x2, x3, )) }
    fn list_active_threads(&mut self, x1: &mut dyn FnMut(Tid)) -> Result<(), E> { any((self, x1, )) }
    fn is_thread_alive(&mut self, x1: Tid) -> Result<bool, E> { any((self, x1, )) }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> { if on(28) { Some(self) } else { None } }
    fn support_thread_extra_info(&mut self) -> Option<ThreadExtraInfoOps<'_, Self>> { if on(29) { Some(self) } else { None } }
}
impl ThreadExtraInfo for T { fn thread_extra_info(&self, x1: Tid, x2: &mut [u8]) -> Result<usize, E> { any((self, x1, x2, )) } }
impl MultiThreadResume for T {
    fn resume(&mut self) -> Result<(), E> { any((self, )) }
    fn clear_resume_actions(&mut self) -> Result<(), E> { any((self, )) }
    fn set_resume_action_continue(&mut self, x1: Tid, x2: Option<Signal>) -> Result<(), E> { any((self, x1, x2, )) }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> { if on(30) { Some(self) } else { None } }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> { if on(31) { Some(self) } else { None } }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> { if on(32) { Some(self) } else { None } }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> { if on(33) { Some(self) } else { None } }
}
impl MultiThreadSingleStep for T { fn set_resume_action_step(&mut self, x1: Tid, x2: Option<Signal>) -> Result<(), E> { any((self, x1, x2, )) } }
impl MultiThreadRangeStepping for T { fn set_resume_action_range_step(&mut self, x1: Tid, x2: U, x3: U) -> Result<(), E> { any((self, x1, x2, x3, )) } }
impl Breakpoints for T {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> { if on(34) { Some(self) } else { None } }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> { if on(35) { Some(self) } else { None } }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> { if on(36) { Some(self) } else { None } }
}
impl SwBreakpoint for T {
    fn add_sw_breakpoint(&mut self, x1: U, x2: usize) -> TargetResult<bool, Self> { any((self, x1, x2, )) }
    fn remove_sw_breakpoint(&mut self, x1: U, x2: usize) -> TargetResult<bool, Self> { any((self, x1, x2, )) }
}
impl HwBreakpoint for T {
    fn add_hw_breakpoint(&mut self, x1: U, x2: usize) -> TargetResult<bool, Self> { any((self, x1, x2, )) }
    fn remove_hw_breakpoint(&mut self, x1: U, x2: usize) -> TargetResult<bool, Self> { any((self, x1, x2, )) }
}
impl HwWatchpoint for T {
    fn add_hw_watchpoint(&mut self, x1: U, x2: U, x3: WatchKind) -> TargetResult<bool, Self> { any((self, x1, x2, x3, )) }
    fn remove_hw_watchpoint(&mut self, x1: U, x2: U, x3: WatchKind) -> TargetResult<bool, Self> { any((self, x1, x2, x3, )) }
}
impl CatchSyscalls for T {
    fn enable_catch_syscalls(&mut self, x1: Option<SyscallNumbers<'_, U>>) -> TargetResult<(), Self> { any((self, x1, )) }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> { any((self, )) }
}
impl Auxv for T { fn get_auxv(&self, x1: u64, x2: usize, x3: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, )) } }
impl MemoryMap for T { fn memory_map_xml(&self, x1: u64, x2: usize, x3: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, )) } }
impl LibrariesSvr4 for T { fn get_libraries_svr4(&self, x1: u64, x2: usize, x3: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, )) } }
impl ExecFile for T { fn get_exec_file(&self, x1: Option<Pid>, x2: u64, x3: usize, x4: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, x4, )) } }
impl TargetDescriptionXmlOverride for T { fn target_description_xml(&self, x1: &[u8], x2: u64, x3: usize, x4: &mut [u8]) -> TargetResult<usize, Self> { any((self, x1, x2, x3, x4, )) } }
impl LldbRegisterInfoOverride for T {
    fn lldb_register_info<'a>(&mut self, x1: usize, x2: Callback<'a>) -> Result<CallbackToken<'a>, E> { any((self, x1, x2, )) }
}
impl SectionOffsets for T {
    fn get_section_offsets(&mut self) -> Result<Offsets<U>, E> { any((self, )) }
}
impl MonitorCmd for T {
    fn handle_monitor_cmd(&mut self, x1: &[u8], x2: ConsoleOutput<'_>) -> Result<(), E> { any((self, x1, x2, )) }
}
impl ExtendedMode for T {
    fn run(&mut self, x1: Option<&[u8]>, x2: Args<'_, '_>) -> TargetResult<Pid, Self> { any((self, x1, x2, )) }
    fn attach(&mut self, x1: Pid) -> TargetResult<(), Self> { any((self, x1, )) }
    fn query_if_attached(&mut self, x1: Pid) -> TargetResult<AttachKind, Self> { any((self, x1, )) }
    fn kill(&mut self, x1: Option<Pid>) -> TargetResult<ShouldTerminate, Self> { any((self, x1, )) }
    fn restart(&mut self) -> Result<(), E> { any((self, )) }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> { if on(37) { Some(self) } else { None } }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> { if on(38) { Some(self) } else { None } }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> { if on(39) { Some(self) } else { None } }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> { if on(40) { Some(self) } else { None } }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> { if on(41) { Some(self) } else { None } }
}
impl ConfigureAslr for T { fn cfg_aslr(&mut self, x1: bool) -> TargetResult<(), Self> { any((self, x1, )) } }
impl ConfigureEnv for T {
    fn set_env(&mut self, x1: &[u8], x2: Option<&[u8]>) -> TargetResult<(), Self> { any((self, x1, x2, )) }
    fn remove_env(&mut self, x1: &[u8]) -> TargetResult<(), Self> { any((self, x1, )) }
    fn reset_env(&mut self) -> TargetResult<(), Self> { any((self, )) }
}
impl ConfigureStartupShell for T { fn cfg_startup_with_shell(&mut self, x1: bool) -> TargetResult<(), Self> { any((self, x1, )) } }
impl ConfigureWorkingDir for T { fn cfg_working_dir(&mut self, x1: Option<&[u8]>) -> TargetResult<(), Self> { any((self, x1, )) } }
impl CurrentActivePid for T { fn current_active_pid(&mut self) -> Result<Pid, E> { any((self, )) } }
impl HostIo for T {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> { if on(42) { Some(self) } else { None } }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> { if on(43) { Some(self) } else { None } }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> { if on(44) { Some(self) } else { None } }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> { if on(45) { Some(self) } else { None } }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> { if on(46) { Some(self) } else { None } }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> { if on(47) { Some(self) } else { None } }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> { if on(48) { Some(self) } else { None } }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> { if on(49) { Some(self) } else { None } }
}
impl HostIoOpen for T { fn open(&mut self, x1: &[u8], x2: HostIoOpenFlags, x3: HostIoOpenMode) -> HostIoResult<u32, Self> { any((self, x1, x2, x3, )) } }
impl HostIoClose for T { fn close(&mut self, x1: u32) -> HostIoResult<(), Self> { any((self, x1, )) } }
impl HostIoPread for T { fn pread(&mut self, x1: u32, x2: usize, x3: u64, x4: &mut [u8]) -> HostIoResult<usize, Self> { any((self, x1, x2, x3, x4, )) } }
impl HostIoPwrite for T { fn pwrite(&mut self, x1: u32, x2: U, x3: &[u8]) -> HostIoResult<U, Self> { any((self, x1, x2, x3, )) } }
impl HostIoFstat for T { fn fstat(&mut self, x1: u32) -> HostIoResult<HostIoStat, Self> { any((self, x1, )) } }
impl HostIoUnlink for T { fn unlink(&mut self, x1: &[u8]) -> HostIoResult<(), Self> { any((self, x1, )) } }
impl HostIoReadlink for T { fn readlink(&mut self, x1: &[u8], x2: &mut [u8]) -> HostIoResult<usize, Self> { any((self, x1, x2, )) } }
impl HostIoSetfs for T { fn setfs(&mut self, x1: FsKind) -> HostIoResult<(), Self> { any((self, x1, )) } }
impl Tracepoints for T {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> { any((self, )) }
    fn tracepoint_create_begin(&mut self, x1: NewTracepoint<U>) -> TargetResult<(), Self> { any((self, x1, )) }
    fn tracepoint_create_continue(&mut self, x1: Tracepoint, x2: &TracepointAction<'_, U>) -> TargetResult<(), Self> { any((self, x1, x2, )) }
    fn tracepoint_create_complete(&mut self, x1: Tracepoint) -> TargetResult<(), Self> { any((self, x1, )) }
    fn tracepoint_status(&self, x1: Tracepoint, x2: U) -> TargetResult<TracepointStatus, Self> { any((self, x1, x2, )) }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> { any((self, )) }
    fn tracepoint_enumerate_start(&mut self, x1: Option<Tracepoint>, x2: &mut dyn FnMut(&NewTracepoint<U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> { any((self, x1, x2, )) }
    fn tracepoint_enumerate_action(&mut self, x1: Tracepoint, x2: u64, x3: &mut dyn FnMut(&TracepointAction<'_, U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> { any((self, x1, x2, x3, )) }
    fn trace_buffer_configure(&mut self, x1: TraceBufferConfig) -> TargetResult<(), Self> { any((self, x1, )) }
    fn trace_buffer_request(&mut self, x1: u64, x2: usize, x3: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> { any((self, x1, x2, x3, )) }
    fn trace_experiment_status(&self, x1: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> { any((self, x1, )) }
    fn trace_experiment_info(&self, x1: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> { any((self, x1, )) }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> { any((self, )) }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> { any((self, )) }
    fn select_frame(&mut self, x1: FrameRequest<U>, x2: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> { any((self, x1, x2, )) }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> { if on(50) { Some(self) } else { None } }
}
impl TracepointSource for T {
    fn tracepoint_attach_source(&mut self, x1: SourceTracepoint<'_, U>) -> TargetResult<(), Self> { any((self, x1, )) }
    fn tracepoint_enumerate_source(&mut self, x1: Tracepoint, x2: u64, x3: &mut dyn FnMut(&SourceTracepoint<'_, U>)) -> TargetResult<TracepointEnumerateStep<U>, Self> { any((self, x1, x2, x3, )) }
}


pub struct C(u32);
impl Connection for C {
    type Error = E;
    fn write(&mut self, b: u8) -> Result<(), E> { any((self, b)) }
    fn flush(&mut self) -> Result<(), E> { any(self) }
    fn on_session_start(&mut self) -> Result<(), E> { any(self) }
}
impl ConnectionExt for C {
    fn read(&mut self) -> Result<u8, E> { any(self) }
    fn peek(&mut self) -> Result<Option<u8>, E> { any(self) }
}
pub enum Loop {}
impl run_blocking::BlockingEventLoop for Loop {
    type Target = T;
    type Connection = C;
    type StopReason = MultiThreadStopReason<U>;
    fn wait_for_stop_reason(t: &mut T, c: &mut C) -> Result<run_blocking::Event<Self::StopReason>, run_blocking::WaitForStopReasonError<E, E>> { any((t, c)) }
    fn on_interrupt(t: &mut T) -> Result<Option<Self::StopReason>, E> { any(t) }
}
/// set up a session over a caller provided buffer and drive it to its end
#[no_mangle]
pub fn drive(buf: &mut [u8], c: C, t: &mut T, out: &mut MaybeUninit<Result<DisconnectReason, GdbStubError<E, E>>>) -> bool {
    let mut b = GdbStubBuilder::new(c).with_packet_buffer(buf);
    if any(()) { b = b.packet_buffer_size(any(())); }
    let stub = match b.build() { Ok(s) => s, Err(_) => return false };
    *out = MaybeUninit::new(stub.run_blocking::<Loop>(t));
    true
}
/// what the target may do with the objects it is handed
#[no_mangle]
pub fn helpers(a: Args<'_, '_>, s: SyscallNumbers<'_, U>, cb: Callback<'_>, o: ConsoleOutput<'_>) {
    for x in a { any::<_, ()>(x) }
    for x in s { any::<_, ()>(x) }
    let mut o = o;
    while any(()) { o.write_raw(any(())); o.write_str_(); }
    let _ = if any(()) { cb.done() } else { cb.write(any(())) };
}
trait W { fn write_str_(&mut self); }
impl W for ConsoleOutput<'_> { fn write_str_(&mut self) { use core::fmt::Write; let _ = self.write_str(any(())); } }
/// the interrupt, stop and disconnected transitions of the state machine interface
#[no_mangle]
pub fn single(g: state_machine::GdbStubStateMachine<'_, T, C>, t: &mut T, out: &mut Option<Result<state_machine::GdbStubStateMachine<'_, T, C>, GdbStubError<E, E>>>) {
    use state_machine::GdbStubStateMachine::*;
    let r = match g {
        Idle(g) => g.incoming_data(t, any(())),
        Running(g) => if any(()) { g.report_stop(t, any::<_, SingleThreadStopReason<U>>(())) } else { g.incoming_data(t, any(())) },
        CtrlCInterrupt(g) => g.interrupt_handled(t, any::<_, Option<SingleThreadStopReason<U>>>(())),
        Disconnected(g) => Ok(g.return_to_idle()),
    };
    any::<_, ()>((out, r))
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! { unsafe { __panicked() } }
/// control: must be found
#[no_mangle]
pub fn control(b: &[u8], i: usize) -> u8 { b[i] }
