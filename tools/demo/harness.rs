// Scripted connection + recording target used by the demonstrations of planted bugs.
#![allow(dead_code, unused)]
use gdbstub::arch::{Arch, RegId, Registers};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::conn::Connection;
use gdbstub::stub::state_machine::GdbStubStateMachine as SM;
use gdbstub::stub::*;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::*;
use gdbstub::target::ext::{breakpoints::*, catch_syscalls::*, extended_mode::*, host_io::*, monitor_cmd::*, section_offsets::*, thread_extra_info::*, tracepoints::*};
use gdbstub::target::ext::{auxv::*, exec_file::*, libraries::*, lldb_register_info_override::*, memory_map::*, target_description_xml_override::*};
use gdbstub::target::{Target, TargetError, TargetResult};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::num::NonZeroUsize;

#[derive(Debug)]
pub enum A {}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Regs(pub Vec<Option<u8>>);
impl Registers for Regs {
    type ProgramCounter = u32;
    fn pc(&self) -> u32 { 0 }
    fn gdb_serialize(&self, mut f: impl FnMut(Option<u8>)) { for b in &self.0 { f(*b) } }
    fn gdb_deserialize(&mut self, b: &[u8]) -> Result<(), ()> {
        if b.len() < 4 { return Err(()); }
        self.0 = b.iter().map(|x| Some(*x)).collect();
        Ok(())
    }
}
#[derive(Debug)]
pub struct Rid(pub usize);
impl RegId for Rid {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        match id { 0..=9 => Some((Rid(id), NonZeroUsize::new(4))), 10..=15 => Some((Rid(id), None)), _ => None }
    }
}
impl Arch for A {
    type Usize = u32;
    type Registers = Regs;
    type BreakpointKind = usize;
    type RegId = Rid;
    fn target_description_xml() -> Option<&'static str> { Some("<target version=\"1.0\"><architecture>mock</architecture></target>") }
}

/// what a scripted method returns
#[derive(Clone, Copy, Debug)]
pub enum R { Ok, Num(u64), False, NonFatal, Errno(u8), Fatal(&'static str) }

#[derive(Default)]
pub struct T {
    pub log: RefCell<Vec<String>>,
    pub off: HashSet<&'static str>,
    pub on: HashSet<&'static str>,
    pub script: RefCell<HashMap<&'static str, VecDeque<R>>>,
    pub threads: Vec<usize>,
    pub enumst: TracepointEnumerateState<u32>,
    pub regs: Regs,
    pub mem: Vec<u8>,
    pub console: Vec<Vec<u8>>,
}
impl T {
    pub fn new() -> T {
        let mut t = T::default();
        t.threads = vec![1, 2];
        t.regs = Regs((0..8).map(|x| Some(x * 17)).collect());
        t.mem = (0..=255).collect();
        t
    }
    pub fn multi() -> T { let mut t = T::new(); t.on.insert("multi"); t }
    pub fn without(mut self, f: &'static str) -> T { self.off.insert(f); self }
    pub fn with(mut self, f: &'static str) -> T { self.on.insert(f); self }
    pub fn ret(self, m: &'static str, r: R) -> T { self.script.borrow_mut().entry(m).or_default().push_back(r); self }
    pub fn en(&self, f: &str) -> bool { !self.off.contains(f) }
    pub fn l(&self, m: &'static str, a: String) -> R {
        self.log.borrow_mut().push(if a.is_empty() { m.to_string() } else { format!("{} {}", m, a) });
        self.script.borrow_mut().get_mut(m).and_then(|q| q.pop_front()).unwrap_or(R::Ok)
    }
    fn tr(&self, m: &'static str, a: String) -> Result<u64, TargetError<&'static str>> {
        match self.l(m, a) {
            R::Ok => Ok(u64::MAX), R::Num(n) => Ok(n), R::False => Ok(0),
            R::NonFatal => Err(TargetError::NonFatal), R::Errno(e) => Err(TargetError::Errno(e)), R::Fatal(e) => Err(TargetError::Fatal(e)),
        }
    }
    fn er(&self, m: &'static str, a: String) -> Result<u64, &'static str> {
        match self.l(m, a) { R::Ok => Ok(u64::MAX), R::Num(n) => Ok(n), R::False => Ok(0), R::Fatal(e) => Err(e), _ => Err("scripted") }
    }
    fn hr(&self, m: &'static str, a: String) -> Result<u64, HostIoError<&'static str>> {
        match self.l(m, a) {
            R::Ok => Ok(u64::MAX), R::Num(n) => Ok(n), R::False => Ok(0),
            R::Fatal(e) => Err(HostIoError::Fatal(e)), _ => Err(HostIoError::Errno(HostIoErrno::ENOENT)),
        }
    }
    fn fill(&self, off: u64, len: usize, buf: &mut [u8], r: u64) -> usize {
        if r != u64::MAX { for b in buf.iter_mut() { *b = 0x41 } return r as usize; }
        let d = &self.mem[(off as usize).min(self.mem.len())..];
        let n = d.len().min(len).min(buf.len());
        buf[..n].copy_from_slice(&d[..n]);
        n
    }
}
macro_rules! sup { ($n:ident, $t:ty) => { fn $n(&mut self) -> Option<$t> { if self.en(stringify!($n)) { Some(self) } else { None } } } }
impl Target for T {
    type Arch = A;
    type Error = &'static str;
    fn base_ops(&mut self) -> BaseOps<'_, A, &'static str> { if self.on.contains("multi") { BaseOps::MultiThread(self) } else { BaseOps::SingleThread(self) } }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool { self.on.contains("guard") }
    fn use_no_ack_mode(&self) -> bool { self.en("noack") }
    fn use_x_upcase_packet(&self) -> bool { self.en("X") }
    fn use_resume_stub(&self) -> bool { self.en("resume_stub") }
    fn use_rle(&self) -> bool { self.on.contains("rle") }
    fn use_target_description_xml(&self) -> bool { self.en("xml") }
    fn use_lldb_register_info(&self) -> bool { self.en("lldb") }
    sup!(support_breakpoints, BreakpointsOps<'_, Self>);
    sup!(support_monitor_cmd, MonitorCmdOps<'_, Self>);
    sup!(support_extended_mode, ExtendedModeOps<'_, Self>);
    sup!(support_section_offsets, SectionOffsetsOps<'_, Self>);
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> { if self.on.contains("xml_override") { Some(self) } else { None } }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> { if self.on.contains("lldb_override") { Some(self) } else { None } }
    sup!(support_memory_map, MemoryMapOps<'_, Self>);
    sup!(support_catch_syscalls, CatchSyscallsOps<'_, Self>);
    sup!(support_host_io, HostIoOps<'_, Self>);
    sup!(support_exec_file, ExecFileOps<'_, Self>);
    sup!(support_auxv, AuxvOps<'_, Self>);
    sup!(support_libraries_svr4, LibrariesSvr4Ops<'_, Self>);
    sup!(support_tracepoints, TracepointsOps<'_, Self>);
}
impl SingleThreadBase for T {
    fn read_registers(&mut self, r: &mut Regs) -> TargetResult<(), Self> { self.tr("read_registers", "".into())?; *r = self.regs.clone(); Ok(()) }
    fn write_registers(&mut self, r: &Regs) -> TargetResult<(), Self> { self.tr("write_registers", format!("{:?}", r.0.iter().map(|x| x.unwrap()).collect::<Vec<_>>()))?; Ok(()) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> { if self.en("sra") { Some(self) } else { None } }
    fn read_addrs(&mut self, a: u32, d: &mut [u8]) -> TargetResult<usize, Self> { let r = self.tr("read_addrs", format!("{:x} {}", a, d.len()))?; let n = d.len(); Ok(self.fill(a as u64, n, d, r)) }
    fn write_addrs(&mut self, a: u32, d: &[u8]) -> TargetResult<(), Self> { self.tr("write_addrs", format!("{:x} {:?}", a, d))?; Ok(()) }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> { if self.en("resume") { Some(self) } else { None } }
}
impl SingleRegisterAccess<()> for T {
    fn read_register(&mut self, _: (), r: Rid, b: &mut [u8]) -> TargetResult<usize, Self> { let x = self.tr("read_register", format!("{} {}", r.0, b.len()))?; b[..4].copy_from_slice(&[1, 2, 3, r.0 as u8]); Ok(if x == u64::MAX { 4 } else { x as usize }) }
    fn write_register(&mut self, _: (), r: Rid, b: &[u8]) -> TargetResult<(), Self> { self.tr("write_register", format!("{} {:?}", r.0, b))?; Ok(()) }
}
impl SingleRegisterAccess<Tid> for T {
    fn read_register(&mut self, t: Tid, r: Rid, b: &mut [u8]) -> TargetResult<usize, Self> { let x = self.tr("read_register", format!("t{} {} {}", t, r.0, b.len()))?; b[..4].copy_from_slice(&[1, 2, 3, r.0 as u8]); Ok(if x == u64::MAX { 4 } else { x as usize }) }
    fn write_register(&mut self, t: Tid, r: Rid, b: &[u8]) -> TargetResult<(), Self> { self.tr("write_register", format!("t{} {} {:?}", t, r.0, b))?; Ok(()) }
}
impl SingleThreadResume for T {
    fn resume(&mut self, s: Option<Signal>) -> Result<(), &'static str> { self.er("resume", format!("{:?}", s.map(|s| s.0)))?; Ok(()) }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> { if self.en("step") { Some(self) } else { None } }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> { if self.en("range") { Some(self) } else { None } }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> { if self.en("rstep") { Some(self) } else { None } }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> { if self.en("rcont") { Some(self) } else { None } }
}
impl SingleThreadSingleStep for T { fn step(&mut self, s: Option<Signal>) -> Result<(), &'static str> { self.er("step", format!("{:?}", s.map(|s| s.0)))?; Ok(()) } }
impl SingleThreadRangeStepping for T { fn resume_range_step(&mut self, a: u32, b: u32) -> Result<(), &'static str> { self.er("resume_range_step", format!("{:x} {:x}", a, b))?; Ok(()) } }
impl ReverseCont<()> for T { fn reverse_cont(&mut self) -> Result<(), &'static str> { self.er("reverse_cont", "".into())?; Ok(()) } }
impl ReverseStep<()> for T { fn reverse_step(&mut self, _: ()) -> Result<(), &'static str> { self.er("reverse_step", "".into())?; Ok(()) } }
impl ReverseCont<Tid> for T { fn reverse_cont(&mut self) -> Result<(), &'static str> { self.er("reverse_cont", "".into())?; Ok(()) } }
impl ReverseStep<Tid> for T { fn reverse_step(&mut self, t: Tid) -> Result<(), &'static str> { self.er("reverse_step", format!("t{}", t))?; Ok(()) } }
impl MultiThreadBase for T {
    fn read_registers(&mut self, r: &mut Regs, t: Tid) -> TargetResult<(), Self> { self.tr("read_registers", format!("t{}", t))?; *r = self.regs.clone(); Ok(()) }
    fn write_registers(&mut self, r: &Regs, t: Tid) -> TargetResult<(), Self> { self.tr("write_registers", format!("t{} {:?}", t, r.0.iter().map(|x| x.unwrap()).collect::<Vec<_>>()))?; Ok(()) }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> { if self.en("sra") { Some(self) } else { None } }
    fn read_addrs(&mut self, a: u32, d: &mut [u8], t: Tid) -> TargetResult<usize, Self> { let r = self.tr("read_addrs", format!("t{} {:x} {}", t, a, d.len()))?; let n = d.len(); Ok(self.fill(a as u64, n, d, r)) }
    fn write_addrs(&mut self, a: u32, d: &[u8], t: Tid) -> TargetResult<(), Self> { self.tr("write_addrs", format!("t{} {:x} {:?}", t, a, d))?; Ok(()) }
    fn list_active_threads(&mut self, f: &mut dyn FnMut(Tid)) -> Result<(), &'static str> { self.er("list_active_threads", "".into())?; for t in self.threads.clone() { f(Tid::new(t).unwrap()) } Ok(()) }
    fn is_thread_alive(&mut self, t: Tid) -> Result<bool, &'static str> { let r = self.er("is_thread_alive", format!("t{}", t))?; Ok(r != 0) }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> { if self.en("resume") { Some(self) } else { None } }
    fn support_thread_extra_info(&mut self) -> Option<ThreadExtraInfoOps<'_, Self>> { if self.en("extra") { Some(self) } else { None } }
}
impl ThreadExtraInfo for T { fn thread_extra_info(&self, t: Tid, b: &mut [u8]) -> Result<usize, &'static str> { let r = self.er("thread_extra_info", format!("t{}", t))?; b[..4].copy_from_slice(b"info"); Ok(if r == u64::MAX { 4 } else { r as usize }) } }
impl MultiThreadResume for T {
    fn resume(&mut self) -> Result<(), &'static str> { self.er("resume", "".into())?; Ok(()) }
    fn clear_resume_actions(&mut self) -> Result<(), &'static str> { self.er("clear", "".into())?; Ok(()) }
    fn set_resume_action_continue(&mut self, t: Tid, s: Option<Signal>) -> Result<(), &'static str> { self.er("set_continue", format!("t{} {:?}", t, s.map(|s| s.0)))?; Ok(()) }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> { if self.en("step") { Some(self) } else { None } }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> { if self.en("range") { Some(self) } else { None } }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> { if self.en("rstep") { Some(self) } else { None } }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> { if self.en("rcont") { Some(self) } else { None } }
}
impl MultiThreadSingleStep for T { fn set_resume_action_step(&mut self, t: Tid, s: Option<Signal>) -> Result<(), &'static str> { self.er("set_step", format!("t{} {:?}", t, s.map(|s| s.0)))?; Ok(()) } }
impl MultiThreadRangeStepping for T { fn set_resume_action_range_step(&mut self, t: Tid, a: u32, b: u32) -> Result<(), &'static str> { self.er("set_range", format!("t{} {:x} {:x}", t, a, b))?; Ok(()) } }
impl Breakpoints for T {
    sup!(support_sw_breakpoint, SwBreakpointOps<'_, Self>);
    sup!(support_hw_breakpoint, HwBreakpointOps<'_, Self>);
    sup!(support_hw_watchpoint, HwWatchpointOps<'_, Self>);
}
impl SwBreakpoint for T {
    fn add_sw_breakpoint(&mut self, a: u32, k: usize) -> TargetResult<bool, Self> { Ok(self.tr("add_sw", format!("{:x} {}", a, k))? != 0) }
    fn remove_sw_breakpoint(&mut self, a: u32, k: usize) -> TargetResult<bool, Self> { Ok(self.tr("remove_sw", format!("{:x} {}", a, k))? != 0) }
}
impl HwBreakpoint for T {
    fn add_hw_breakpoint(&mut self, a: u32, k: usize) -> TargetResult<bool, Self> { Ok(self.tr("add_hw", format!("{:x} {}", a, k))? != 0) }
    fn remove_hw_breakpoint(&mut self, a: u32, k: usize) -> TargetResult<bool, Self> { Ok(self.tr("remove_hw", format!("{:x} {}", a, k))? != 0) }
}
impl HwWatchpoint for T {
    fn add_hw_watchpoint(&mut self, a: u32, n: u32, k: WatchKind) -> TargetResult<bool, Self> { Ok(self.tr("add_watch", format!("{:x} {} {:?}", a, n, k))? != 0) }
    fn remove_hw_watchpoint(&mut self, a: u32, n: u32, k: WatchKind) -> TargetResult<bool, Self> { Ok(self.tr("remove_watch", format!("{:x} {} {:?}", a, n, k))? != 0) }
}
impl CatchSyscalls for T {
    fn enable_catch_syscalls(&mut self, f: Option<SyscallNumbers<'_, u32>>) -> TargetResult<(), Self> { let a = format!("{:?}", f.map(|f| f.collect::<Vec<_>>())); self.tr("enable_catch", a)?; Ok(()) }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> { self.tr("disable_catch", "".into())?; Ok(()) }
}
impl Auxv for T { fn get_auxv(&self, o: u64, n: usize, b: &mut [u8]) -> TargetResult<usize, Self> { let r = self.tr("get_auxv", format!("{} {}", o, n))?; Ok(self.fill(o, n, b, r)) } }
impl MemoryMap for T { fn memory_map_xml(&self, o: u64, n: usize, b: &mut [u8]) -> TargetResult<usize, Self> { let r = self.tr("memory_map", format!("{} {}", o, n))?; Ok(self.fill(o, n, b, r)) } }
impl LibrariesSvr4 for T { fn get_libraries_svr4(&self, o: u64, n: usize, b: &mut [u8]) -> TargetResult<usize, Self> { let r = self.tr("libraries", format!("{} {}", o, n))?; Ok(self.fill(o, n, b, r)) } }
impl ExecFile for T { fn get_exec_file(&self, p: Option<Pid>, o: u64, n: usize, b: &mut [u8]) -> TargetResult<usize, Self> { let r = self.tr("exec_file", format!("{:?} {} {}", p, o, n))?; Ok(self.fill(o, n, b, r)) } }
impl TargetDescriptionXmlOverride for T { fn target_description_xml(&self, x: &[u8], o: u64, n: usize, b: &mut [u8]) -> TargetResult<usize, Self> { let r = self.tr("xml", format!("{:?} {} {}", String::from_utf8_lossy(x), o, n))?; Ok(self.fill(o, n, b, r)) } }
impl LldbRegisterInfoOverride for T {
    fn lldb_register_info<'a>(&mut self, id: usize, c: Callback<'a>) -> Result<CallbackToken<'a>, &'static str> {
        use gdbstub::arch::lldb::*;
        let r = self.er("lldb", format!("{}", id))?;
        if id >= 2 { return Ok(c.done()); }
        Ok(c.write(Register { name: "r0", alt_name: Some("a0"), bitsize: 32, offset: 4 * id, encoding: Encoding::Uint, format: Format::Hex, set: "General", gcc: Some(1), dwarf: Some(2), generic: Some(Generic::Pc), container_regs: Some(&[1, 2]), invalidate_regs: Some(&[3]) }))
    }
}
impl SectionOffsets for T {
    fn get_section_offsets(&mut self) -> Result<Offsets<u32>, &'static str> {
        Ok(match self.er("offsets", "".into())? { 1 => Offsets::Sections { text: 0x10, data: 0x20, bss: Some(0x30) }, 2 => Offsets::Segments { text_seg: 0x40, data_seg: Some(0x50) }, 3 => Offsets::Segments { text_seg: 0x40, data_seg: None }, _ => Offsets::Sections { text: 0x10, data: 0x20, bss: None } })
    }
}
impl MonitorCmd for T {
    fn handle_monitor_cmd(&mut self, c: &[u8], mut o: ConsoleOutput<'_>) -> Result<(), &'static str> {
        let r = self.er("monitor", String::from_utf8_lossy(c).into_owned());
        for x in &self.console { o.write_raw(x); if self.on.contains("flush") { o.flush() } }
        r.map(|_| ())
    }
}
impl ExtendedMode for T {
    fn run(&mut self, f: Option<&[u8]>, a: Args<'_, '_>) -> TargetResult<Pid, Self> { let s = format!("{:?} {:?}", f.map(|f| String::from_utf8_lossy(f).into_owned()), a.map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>()); self.tr("run", s)?; Ok(Pid::new(7).unwrap()) }
    fn attach(&mut self, p: Pid) -> TargetResult<(), Self> { self.tr("attach", format!("{}", p))?; Ok(()) }
    fn query_if_attached(&mut self, p: Pid) -> TargetResult<AttachKind, Self> { Ok(if self.tr("query_if_attached", format!("{}", p))? == 0 { AttachKind::Run } else { AttachKind::Attach }) }
    fn kill(&mut self, p: Option<Pid>) -> TargetResult<ShouldTerminate, Self> { Ok(if self.tr("kill", format!("{:?}", p))? == 0 { ShouldTerminate::No } else { ShouldTerminate::Yes }) }
    fn restart(&mut self) -> Result<(), &'static str> { self.er("restart", "".into())?; Ok(()) }
    sup!(support_configure_aslr, ConfigureAslrOps<'_, Self>);
    sup!(support_configure_env, ConfigureEnvOps<'_, Self>);
    sup!(support_configure_startup_shell, ConfigureStartupShellOps<'_, Self>);
    sup!(support_configure_working_dir, ConfigureWorkingDirOps<'_, Self>);
    sup!(support_current_active_pid, CurrentActivePidOps<'_, Self>);
}
impl ConfigureAslr for T { fn cfg_aslr(&mut self, e: bool) -> TargetResult<(), Self> { self.tr("aslr", format!("{}", e))?; Ok(()) } }
impl ConfigureEnv for T {
    fn set_env(&mut self, k: &[u8], v: Option<&[u8]>) -> TargetResult<(), Self> { self.tr("set_env", format!("{:?} {:?}", String::from_utf8_lossy(k), v.map(|v| String::from_utf8_lossy(v).into_owned())))?; Ok(()) }
    fn remove_env(&mut self, k: &[u8]) -> TargetResult<(), Self> { self.tr("remove_env", format!("{:?}", String::from_utf8_lossy(k)))?; Ok(()) }
    fn reset_env(&mut self) -> TargetResult<(), Self> { self.tr("reset_env", "".into())?; Ok(()) }
}
impl ConfigureStartupShell for T { fn cfg_startup_with_shell(&mut self, e: bool) -> TargetResult<(), Self> { self.tr("shell", format!("{}", e))?; Ok(()) } }
impl ConfigureWorkingDir for T { fn cfg_working_dir(&mut self, d: Option<&[u8]>) -> TargetResult<(), Self> { self.tr("wd", format!("{:?}", d.map(|v| String::from_utf8_lossy(v).into_owned())))?; Ok(()) } }
impl CurrentActivePid for T { fn current_active_pid(&mut self) -> Result<Pid, &'static str> { let r = self.er("active_pid", "".into())?; Ok(Pid::new(if r == u64::MAX { 5 } else { r as usize }).unwrap()) } }
impl HostIo for T {
    sup!(support_open, HostIoOpenOps<'_, Self>);
    sup!(support_close, HostIoCloseOps<'_, Self>);
    sup!(support_pread, HostIoPreadOps<'_, Self>);
    sup!(support_pwrite, HostIoPwriteOps<'_, Self>);
    sup!(support_fstat, HostIoFstatOps<'_, Self>);
    sup!(support_unlink, HostIoUnlinkOps<'_, Self>);
    sup!(support_readlink, HostIoReadlinkOps<'_, Self>);
    sup!(support_setfs, HostIoSetfsOps<'_, Self>);
}
impl HostIoOpen for T { fn open(&mut self, f: &[u8], fl: HostIoOpenFlags, m: HostIoOpenMode) -> HostIoResult<u32, Self> { let r = self.hr("open", format!("{:?} {:x} {:o}", String::from_utf8_lossy(f), fl.bits(), m.bits()))?; Ok(if r == u64::MAX { 3 } else { r as u32 }) } }
impl HostIoClose for T { fn close(&mut self, fd: u32) -> HostIoResult<(), Self> { self.hr("close", format!("{}", fd))?; Ok(()) } }
impl HostIoPread for T { fn pread(&mut self, fd: u32, n: usize, o: u64, b: &mut [u8]) -> HostIoResult<usize, Self> { let r = self.hr("pread", format!("{} {} {} {}", fd, n, o, b.len()))?; Ok(self.fill(o, n, b, r)) } }
impl HostIoPwrite for T { fn pwrite(&mut self, fd: u32, o: u32, d: &[u8]) -> HostIoResult<u32, Self> { let r = self.hr("pwrite", format!("{} {} {:?}", fd, o, d))?; Ok(if r == u64::MAX { d.len() as u32 } else { r as u32 }) } }
impl HostIoFstat for T { fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> { self.hr("fstat", format!("{}", fd))?; Ok(HostIoStat { st_dev: 1, st_ino: 2, st_mode: HostIoOpenMode::from_bits(0o644).unwrap(), st_nlink: 4, st_uid: 5, st_gid: 6, st_rdev: 7, st_size: 8, st_blksize: 9, st_blocks: 10, st_atime: 11, st_mtime: 12, st_ctime: 13 }) } }
impl HostIoUnlink for T { fn unlink(&mut self, f: &[u8]) -> HostIoResult<(), Self> { self.hr("unlink", format!("{:?}", String::from_utf8_lossy(f)))?; Ok(()) } }
impl HostIoReadlink for T { fn readlink(&mut self, f: &[u8], b: &mut [u8]) -> HostIoResult<usize, Self> { let r = self.hr("readlink", format!("{:?}", String::from_utf8_lossy(f)))?; let n = b.len().min(20); Ok(self.fill(0x20, n, b, r)) } }
impl HostIoSetfs for T { fn setfs(&mut self, f: FsKind) -> HostIoResult<(), Self> { self.hr("setfs", format!("{:?}", match f { FsKind::Stub => None, FsKind::Pid(p) => Some(p) }))?; Ok(()) } }
impl Tracepoints for T {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> { self.tr("tp_init", "".into())?; Ok(()) }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<u32>) -> TargetResult<(), Self> { self.tr("tp_begin", format!("{} {} {:x} {} {}", t.number.0, t.enabled, t.addr, t.step_count, t.pass_count))?; Ok(()) }
    fn tracepoint_create_continue(&mut self, t: Tracepoint, a: &TracepointAction<'_, u32>) -> TargetResult<(), Self> { self.tr("tp_continue", format!("{} {:?}", t.0, a))?; Ok(()) }
    fn tracepoint_create_complete(&mut self, t: Tracepoint) -> TargetResult<(), Self> { self.tr("tp_complete", format!("{}", t.0))?; Ok(()) }
    fn tracepoint_status(&self, t: Tracepoint, a: u32) -> TargetResult<TracepointStatus, Self> { self.tr("tp_status", format!("{} {:x}", t.0, a))?; Ok(TracepointStatus { hit_count: 3, bytes_used: 0x40 }) }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<u32> { &mut self.enumst }
    fn tracepoint_enumerate_start(&mut self, t: Option<Tracepoint>, f: &mut dyn FnMut(&NewTracepoint<u32>)) -> TargetResult<TracepointEnumerateStep<u32>, Self> {
        let r = self.tr("tp_enum_start", format!("{:?}", t.map(|t| t.0)))?;
        f(&NewTracepoint { number: Tracepoint(1), enabled: true, addr: 0x1000, step_count: 2, pass_count: 3 });
        Ok(self.tpstep(r))
    }
    fn tracepoint_enumerate_action(&mut self, t: Tracepoint, s: u64, f: &mut dyn FnMut(&TracepointAction<'_, u32>)) -> TargetResult<TracepointEnumerateStep<u32>, Self> {
        let r = self.tr("tp_enum_action", format!("{} {}", t.0, s))?;
        f(&TracepointAction::Memory { basereg: None, offset: 0x10, length: 4 });
        Ok(self.tpstep(r))
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> { self.tr("tp_buffer_cfg", format!("{:?}", c))?; Ok(()) }
    fn trace_buffer_request(&mut self, o: u64, n: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> { self.tr("tp_buffer_req", format!("{} {}", o, n))?; f(&mut [1, 2, 3]); Ok(()) }
    fn trace_experiment_status(&self, f: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> { self.tr("tp_exp_status", "".into())?; f(ExperimentStatus::Running); Ok(()) }
    fn trace_experiment_info(&self, f: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> { self.tr("tp_exp_info", "".into())?; f(ExperimentExplanation::Frames(5)); Ok(()) }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> { self.tr("tp_start", "".into())?; Ok(()) }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> { self.tr("tp_stop", "".into())?; Ok(()) }
    fn select_frame(&mut self, r: FrameRequest<u32>, f: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> { self.tr("tp_frame", format!("{:?}", r))?; f(FrameDescription::FrameNumber(7)); f(FrameDescription::Hit(Tracepoint(1))); Ok(()) }
    sup!(support_tracepoint_source, TracepointSourceOps<'_, Self>);
}
impl T {
    fn tpstep(&self, r: u64) -> TracepointEnumerateStep<u32> {
        match r { 1 => TracepointEnumerateStep::Action, 2 => TracepointEnumerateStep::Source, 3 => TracepointEnumerateStep::Next { tp: Tracepoint(2), addr: 0x2000 }, _ => TracepointEnumerateStep::Done }
    }
}
impl TracepointSource for T {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, u32>) -> TargetResult<(), Self> { self.tr("tp_source", format!("{:?}", s))?; Ok(()) }
    fn tracepoint_enumerate_source(&mut self, t: Tracepoint, s: u64, f: &mut dyn FnMut(&SourceTracepoint<'_, u32>)) -> TargetResult<TracepointEnumerateStep<u32>, Self> {
        let r = self.tr("tp_enum_source", format!("{} {}", t.0, s))?;
        Ok(self.tpstep(r))
    }
}

/// in-memory connection: `out` is what the stub wrote ("|" marks a flush); `fail_at` makes the n-th write fail
#[derive(Default)]
pub struct C { pub out: Vec<u8>, pub n: usize, pub fail_at: Option<usize>, pub fail_flush: bool }
impl Connection for C {
    type Error = &'static str;
    fn write(&mut self, b: u8) -> Result<(), &'static str> {
        self.n += 1;
        if Some(self.n) == self.fail_at { return Err("write failed"); }
        self.out.push(b);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), &'static str> { if self.fail_flush { return Err("flush failed"); } self.out.push(0); Ok(()) }
}
pub fn pkt(s: &[u8]) -> Vec<u8> {
    let mut v = vec![b'$'];
    v.extend(s);
    v.push(b'#');
    v.extend(format!("{:02x}", s.iter().fold(0u8, |a, b| a.wrapping_add(*b))).bytes());
    v
}
/// body of the last packet in the output, after removing acks and checking framing
pub fn replies(out: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while i < out.len() {
        match out[i] {
            b'$' => {
                let e = i + out[i..].iter().position(|b| *b == b'#').expect("unterminated packet");
                let body = &out[i + 1..e];
                let sum = body.iter().fold(0u8, |a, b| a.wrapping_add(*b));
                assert_eq!(format!("{:02x}", sum).as_bytes(), &out[e + 1..e + 3], "checksum");
                v.push(String::from_utf8_lossy(body).into_owned());
                i = e + 3;
            }
            b'+' | 0 => i += 1,
            x => panic!("unexpected byte {:?} on the wire", x as char),
        }
    }
    v
}
pub enum End { Idle, Running, CtrlC, Disc(DisconnectReason), Err(String), ConnErr(bool), TargetErr(&'static str) }
pub struct Out { pub raw: Vec<u8>, pub end: String, pub log: Vec<String> }
impl Out {
    pub fn last(&self) -> String { replies(&self.raw).pop().unwrap_or_else(|| "<none>".into()) }
    pub fn all(&self) -> Vec<String> { replies(&self.raw) }
}
pub type St<'a> = SM<'a, T, C>;
pub fn name(s: &St<'_>) -> String {
    match s { SM::Idle(_) => "idle".into(), SM::Running(_) => "running".into(), SM::CtrlCInterrupt(_) => "ctrlc".into(), SM::Disconnected(d) => format!("disconnected {:?}", d.get_reason()) }
}
pub fn err(e: &GdbStubError<&'static str, &'static str>) -> String {
    if let Some(x) = e.is_connection_error().then(|| ()) { return format!("connection error: {}", e); }
    if e.is_target_error() { return format!("target error: {}", e); }
    format!("error: {}", e)
}
pub fn start<'a>(t: &mut T, c: C) -> St<'a> {
    GdbStub::<'a, T, C>::builder(c).packet_buffer_size(4096).build().unwrap().run_state_machine(t).unwrap()
}
pub fn feed<'a>(mut s: St<'a>, t: &mut T, bytes: &[u8]) -> Result<St<'a>, String> {
    for b in bytes {
        s = match s {
            SM::Idle(x) => x.incoming_data(t, *b).map_err(|e| err(&e))?,
            SM::Running(x) => x.incoming_data(t, *b).map_err(|e| err(&e))?,
            o => return Err(format!("data in state {}", name(&o))),
        }
    }
    Ok(s)
}
/// sends the packets in order to a fresh session; returns what was written, the final state and the target's call log
pub fn session(t: &mut T, pkts: &[&[u8]]) -> Out { session_c(t, C::default(), pkts) }
pub fn session_c(t: &mut T, c: C, pkts: &[&[u8]]) -> Out {
    let mut s = start(t, c);
    let mut raw = vec![];
    for p in pkts {
        match feed(s, t, &pkt(p)) {
            Ok(x) => s = x,
            Err(e) => return Out { raw, end: e, log: t.log.borrow().clone() },
        }
        raw = match &mut s { SM::Idle(x) => x.borrow_conn().out.clone(), SM::Running(x) => x.borrow_conn().out.clone(), SM::CtrlCInterrupt(x) => x.borrow_conn().out.clone(), SM::Disconnected(x) => x.borrow_conn().out.clone() };
    }
    let end = name(&s);
    Out { raw, end, log: t.log.borrow().clone() }
}
