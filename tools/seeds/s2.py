H = 'mod harness;\nuse harness::*;\n'
TP = 'src/stub/core_impl/tracepoints.rs'
RW = 'src/protocol/response_writer.rs'
SEEDS = [
 dict(id='qtdp-mem-action-hang', property='C54', needs='a tracepoint extension whose actions include a memory range (M) action', breaks='the stub loops for ever on the unsupported action instead of reporting it',
      edits=[(TP, "                    return Err(Error::TracepointFeatureUnimplemented(b'M'));", "                    continue;")],
      demo=H + '''fn main(){
let (tx,rx)=std::sync::mpsc::channel();
std::thread::spawn(move||{ let mut t=T::new(); let o=session(&mut t,&[b"QTDP:-1:1000:R0003M-1,0,4",b"?"]); println!("{:?}",o.all()); let _=tx.send(()); });
if rx.recv_timeout(std::time::Duration::from_secs(20)).is_err() { println!("hangs"); std::process::exit(1); } }'''),
 dict(id='rle-count-tilde', property='C02', needs='a reply with a run of 99 equal characters, with run-length encoding on', breaks='a run of 99 is encoded with count byte 127, which GDB does not accept',
      edits=[(RW, "(ASCII_FIRST_PRINT - 4 + (self.rle_repeat + 1)) <= ASCII_LAST_PRINT", "(ASCII_FIRST_PRINT - 4 + self.rle_repeat) <= ASCII_LAST_PRINT")],
      demo=H + '''fn main(){ let mut t=T::new().with("rle"); t.mem=vec![0;0x10000]; let o=session(&mut t,&[b"m1000,200"]); println!("{:?}",o.raw); assert!(o.raw.iter().all(|b|*b<127)); }'''),
 dict(id='checksum-saturates', property='C01', needs='a reply whose characters add up to more than 255', breaks='the checksum sticks at 255 instead of wrapping',
      edits=[(RW, "self.checksum = self.checksum.wrapping_add(byte);", "self.checksum = self.checksum.saturating_add(byte);")],
      demo=H + '''fn main(){ let mut t=T::new(); let o=session(&mut t,&[b"qSupported:xmlRegisters=i386"]); let raw=&o.raw; 
let s=raw.iter().rposition(|b|*b==b'$').unwrap(); let e=s+raw[s..].iter().position(|b|*b==b'#').unwrap();
let c=raw[s+1..e].iter().fold(0u8,|a,b|a.wrapping_add(*b)); println!("{}",String::from_utf8_lossy(raw)); assert_eq!(format!("{:02x}",c).as_bytes(),&raw[e+1..e+3]); }'''),
 dict(id='qoffsets-zero-bss', property='C38', needs='a target whose bss offset is below its data offset', breaks='qOffsets reports the data offset for the bss',
      edits=[('src/stub/core_impl/section_offsets.rs', "let bss = bss.unwrap_or(data);", "let bss = bss.filter(|bss| *bss <= data).unwrap_or(data);")],
      demo=H + '''fn main(){ let mut t=T::new().ret("offsets",R::Num(1)); let o=session(&mut t,&[b"qOffsets"]); println!("{:?}",o.all()); assert!(o.last().contains("Bss=30"),"{:?}",o.last()); }'''),
 dict(id='catch-skip-oversize', property='C34', needs='a syscall number too large for the target in the middle of a QCatchSyscalls list', breaks='the numbers after the unrepresentable one are still taken, and the error is forgotten',
      edits=[('src/stub/core_impl/catch_syscalls.rs', """                            .take_while(|x| {
                                error = x.is_none();
                                !error
                            })
                            .flatten();""", """                            .filter_map(|x| {
                                error = x.is_none();
                                x
                            });""")],
      demo=H + '''fn main(){ let mut t=T::new(); let o=session(&mut t,&[b"QCatchSyscalls:1;1;1ffffffff;3"]); println!("{:?} {:?}",o.log,o.all()); assert!(!o.log.iter().any(|l|l.contains("3")),"{:?}",o.log); }'''),
 dict(id='noack-static', property='C51', needs='two sessions in one process, the first of which negotiates no-ack mode', breaks='the second session does not acknowledge packets although it never negotiated no-ack mode',
      edits=[('src/stub/core_impl/no_ack_mode.rs', "                self.features.set_no_ack_mode(true);\n", "                self.features.set_no_ack_mode(true);\n                NO_ACK.store(true, core::sync::atomic::Ordering::Relaxed);\n"),
             ('src/stub/core_impl/no_ack_mode.rs', "use crate::protocol::commands::ext::NoAckMode;\n", "use crate::protocol::commands::ext::NoAckMode;\n\npub(super) static NO_ACK: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);\n"),
             ('src/stub/core_impl.rs', "if !self.features.no_ack_mode() {", "if !self.features.no_ack_mode()\n                    && !no_ack_mode::NO_ACK.load(core::sync::atomic::Ordering::Relaxed)\n                {")],
      demo=H + '''fn main(){ let mut t=T::new(); let o=session(&mut t,&[b"QStartNoAckMode",b"?"]); let mut t=T::new(); let p=session(&mut t,&[b"?"]); println!("{:?} {:?}",String::from_utf8_lossy(&o.raw),String::from_utf8_lossy(&p.raw)); assert_eq!(p.raw[0],b'+'); }'''),
 dict(id='qc-last-thread', property='C36', needs='qC on a multi-threaded target with several threads before any thread was selected', breaks='qC names the last thread instead of the first',
      edits=[('src/stub/core_impl/extended_mode.rs', """                                    if first_tid.is_some() {
                                        return Ok(());
                                    }
""", "")],
      demo=H + '''fn main(){ let mut t=T::multi(); t.threads=vec![1,2,3]; let o=session(&mut t,&[b"qC"]); println!("{:?}",o.all()); assert!(o.last().ends_with("1"),"{:?}",o.last()); }'''),
 dict(id='monitor-first-error', property='C19', needs='a console output whose first packet cannot be sent', breaks='the connection error of an earlier console packet is forgotten when a later one succeeds',
      edits=[('src/stub/core_impl/monitor_cmd.rs', """                    if let Err(e) = e {
                        err = Err(e)
                    }""", """                    err = e;""")],
      demo=H + '''fn main(){ let mut t=T::new().with("flush"); t.console=vec![b"ab".to_vec(),b"cd".to_vec()]; let c=C{fail_at:Some(4),..Default::default()}; let o=session_c(&mut t,c,&[b"qRcmd,6162"]); println!("{:?} {:?}",o.end,String::from_utf8_lossy(&o.raw)); assert!(format!("{:?}",o.end).contains("write failed")); }'''),
]
