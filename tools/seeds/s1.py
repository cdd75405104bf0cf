H = 'mod harness;\nuse harness::*;\n'
B = 'src/stub/core_impl/base.rs'
SEEDS = [
 dict(id='m-third-chunk', property='C11', needs='a read at least three packet buffers long', breaks='third and later chunks of a memory read come from the wrong address',
      edits=[(B, 'i += chunk_size;', 'i = chunk_size;')],
      demo=H + '''fn main(){ let mut t=T::new(); t.mem=vec![7;0x10000]; let o=session(&mut t,&[b"m1000,5000"]); 
let mut a=0x1000u32; for l in o.log.iter().filter(|l|l.starts_with("read_addrs")) { println!("{}",l); let v:Vec<&str>=l.split(' ').collect(); let at=u32::from_str_radix(v[1],16).unwrap(); let n:u32=v[2].parse().unwrap(); assert_eq!(at,a,"chunk address"); a+=n; } assert_eq!(a,0x6000); }'''),
 dict(id='hg-any-tid', property='C14', needs='an `Hc0` after `Hg` on a multi-threaded target', breaks='`Hc0` also changes the thread used for memory and register access',
      edits=[(B, 'Some(tid) => self.current_resume_tid = SpecificIdKind::WithId(tid),', 'Some(tid) => {\n                                self.current_resume_tid = SpecificIdKind::WithId(tid);\n                                self.current_mem_tid = tid;\n                            }')],
      demo=H + '''fn main(){ let mut t=T::multi(); let o=session(&mut t,&[b"Hg2",b"Hc0",b"m1000,4"]); println!("{:?}",o.log); assert!(o.log.last().unwrap().contains("t2"),"{:?}",o.log); }'''),
 dict(id='vcont-signal-all', property='C15', needs='a vCont with two actions, the first of which carries a signal, on a multi-threaded target', breaks='the signal of an earlier action leaks into later actions',
      edits=[('src/stub/core_impl/resume.rs', '''        ops.clear_resume_actions().map_err(Error::TargetError)?;

        for action in actions.iter() {
            use crate::protocol::commands::_vCont::VContKind;
''', '''        ops.clear_resume_actions().map_err(Error::TargetError)?;

        let mut last_signal = None;
        for action in actions.iter() {
            use crate::protocol::commands::_vCont::VContKind;
'''), ('src/stub/core_impl/resume.rs', '''                    let signal = match action.kind {
                        VContKind::StepWithSig(sig) => Some(sig),
                        _ => None,
                    };
''', '''                    let signal = match action.kind {
                        VContKind::StepWithSig(sig) => Some(sig),
                        _ => last_signal,
                    };
'''), ('src/stub/core_impl/resume.rs', '''                    let signal = match action.kind {
                        VContKind::ContinueWithSig(sig) => Some(sig),
                        _ => None,
                    };

                    match action.thread''', '''                    let signal = match action.kind {
                        VContKind::ContinueWithSig(sig) => Some(sig),
                        _ => None,
                    };
                    last_signal = signal;

                    match action.thread''')],
      demo=H + '''fn main(){ let mut t=T::multi(); let o=session(&mut t,&[b"vCont;C0b:1;s:2"]); println!("{:?}",o.log); assert!(o.log.iter().any(|l|l.starts_with("set_step")&&l.contains("t2 None")),"{:?}",o.log); }'''),
 dict(id='z-read-access', property='C13', needs='removing an access watchpoint (z4)', breaks='an access watchpoint is removed as a read watchpoint',
      edits=[('src/stub/core_impl/breakpoints.rs', '''                    CmdKind::Remove => ops.remove_hw_watchpoint(addr, len, kind),''', '''                    CmdKind::Remove => {
                        let kind = match kind {
                            WatchKind::Write => WatchKind::Write,
                            _ => WatchKind::Read,
                        };
                        ops.remove_hw_watchpoint(addr, len, kind)
                    }''')],
      demo=H + '''fn main(){ let mut t=T::new(); let o=session(&mut t,&[b"z4,1000,4"]); println!("{:?}",o.log); assert!(o.log.iter().any(|l|l.contains("ReadWrite")),"{:?}",o.log); }'''),
 dict(id='fstat-ids', property='C29', needs='an fstat of a file whose uid and gid differ', breaks='fstat reply has uid and gid exchanged',
      edits=[('src/stub/core_impl/host_io.rs', '''                        res.write_binary(&stat.st_uid.to_be_bytes())?;
                        res.write_binary(&stat.st_gid.to_be_bytes())?;''', '''                        res.write_binary(&stat.st_gid.to_be_bytes())?;
                        res.write_binary(&stat.st_uid.to_be_bytes())?;''')],
      demo=H + '''fn main(){ let mut t=T::new(); let o=session(&mut t,&[b"vFile:fstat:3"]); let raw=&o.raw; let p=raw.iter().position(|b|*b==b';').unwrap(); let st=&raw[p+1..]; println!("{:?}",st); assert_eq!(&st[16..24],&[0,0,0,5,0,0,0,6]); }'''),
 dict(id='catch-overflow-drop', property='C34', needs='a syscall number wider than the target address type in the middle of a list', breaks='an oversized syscall number silently truncates the list instead of being an error',
      edits=[('src/stub/core_impl/catch_syscalls.rs', None, None)], demo=''),
 dict(id='threads-comma', property='C36', needs='three or more threads', breaks='the separating comma is missing from the third thread on',
      edits=[(B, '''                                if !first {
                                    res.write_str(",")?
                                }
                                first = false;''', '''                                if !first {
                                    res.write_str(",")?
                                }
                                first = !first;''')],
      demo=H + '''fn main(){ let mut t=T::multi(); t.threads=vec![1,2,3]; let o=session(&mut t,&[b"qfThreadInfo"]); println!("{:?}",o.last()); assert_eq!(o.last(),"m01,02,03"); }'''),
]
SEEDS = [s for s in SEEDS if s['edits'][0][1] is not None]
