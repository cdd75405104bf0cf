From 572e5bebf4567a113bb5a6e032183277beca61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 01/14] fix: delegate support_libraries_svr4 in dyn Target
 wrappers

---
 src/target/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/target/mod.rs b/src/target/mod.rs
index f7a5b51..b6ae5a9 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -745,6 +745,8 @@ macro_rules! impl_dyn_target {
             __delegate_support!(exec_file);
             __delegate_support!(auxv);
             __delegate_support!(tracepoints);
+
+            __delegate!(fn support_libraries_svr4(&mut self) -> Option<ext::libraries::LibrariesSvr4Ops<'_, Self>>);
         }
     };
 }
-- 
2.43.0


From c365fe7c4bd9f027d56e0e57ceb3859b30ce8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 02/14] fix: never emit '#' or '$' as an RLE count byte

---
 src/protocol/response_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/response_writer.rs b/src/protocol/response_writer.rs
index 42c2a20..1967c98 100644
--- a/src/protocol/response_writer.rs
+++ b/src/protocol/response_writer.rs
@@ -135,7 +135,7 @@ impl<'a, C: Connection + 'a> ResponseWriter<'a, C> {
                         }
                     }
                     // RLE would output an invalid char ('#' or '$')
-                    6 | 7 => {
+                    7 | 8 => {
                         self.inner_write(self.rle_char)?;
                         self.rle_repeat -= 1;
                         continue;
-- 
2.43.0


From 0556a8fbff5b979cbb44961a0cab2f699778a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 03/14] fix: don't drop write errors of Arch-provided LLDB
 register info

---
 src/stub/core_impl/lldb_register_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index 676991d..bd2b15c 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -126,13 +126,13 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         },
                     )
                     .map_err(Error::TargetError)?;
-                    err?;
                 } else if let Some(reg) = T::Arch::lldb_register_info(cmd.reg_id) {
                     match reg {
                         LLDBRegisterInfo::Register(reg) => cb(Some(reg)),
                         LLDBRegisterInfo::Done => cb(None),
                     };
                 }
+                err?;
                 HandlerStatus::Handled
             }
         };
-- 
2.43.0


From b6b3b3ec3d69a6137307fd2376f73a1e57213db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 04/14] fix: don't panic on empty register lists in LLDB
 register info

---
 src/stub/core_impl/lldb_register_info.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stub/core_impl/lldb_register_info.rs b/src/stub/core_impl/lldb_register_info.rs
index bd2b15c..8d1414e 100644
--- a/src/stub/core_impl/lldb_register_info.rs
+++ b/src/stub/core_impl/lldb_register_info.rs
@@ -87,17 +87,19 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             }
                             if let Some(c_regs) = reg.container_regs {
                                 res.write_str(";container-regs:")?;
-                                res.write_num(c_regs[0])?;
-                                for reg in c_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in c_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
                             if let Some(i_regs) = reg.invalidate_regs {
                                 res.write_str(";invalidate-regs:")?;
-                                res.write_num(i_regs[0])?;
-                                for reg in i_regs.iter().skip(1) {
-                                    res.write_str(",")?;
+                                for (i, reg) in i_regs.iter().enumerate() {
+                                    if i != 0 {
+                                        res.write_str(",")?;
+                                    }
                                     res.write_num(*reg)?;
                                 }
                             }
-- 
2.43.0


From 2f4f02fad718b95ea85cf61f230cf0d444615492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 05/14] fix: don't lose connection errors raised inside
 tracepoint callbacks

---
 src/stub/core_impl/tracepoints.rs | 130 +++++++++++++++---------------
 1 file changed, 64 insertions(+), 66 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 1637698..9c903d2 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -393,7 +393,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTStatus(_) => {
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut has_status = false;
-                ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
+                let ret = ops.trace_experiment_status(&mut |status: ExperimentStatus<'_>| {
                     // If the target implementation calls us multiple times, then
                     // we would erroneously serialize an invalid response. Guard
                     // against it in the simplest way.
@@ -405,24 +405,27 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     } else {
                         has_status = true;
                     }
-                })
-                .handle_error()?;
+                });
+                if let Some(e) = err.take() {
+                    return Err(e);
+                }
+                ret.handle_error()?;
                 if has_status {
                     // Only bother trying to get info if we also have a status
-                    ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
-                        if let Err(e) = res
-                            .write_str(";")
-                            .map_err(|e| e.into())
-                            .and_then(|()| explanation.write::<T, C>(res))
-                        {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
-                }
-
-                if let Some(e) = err {
-                    return Err(e);
+                    let ret =
+                        ops.trace_experiment_info(&mut |explanation: ExperimentExplanation<'_>| {
+                            if let Err(e) = res
+                                .write_str(";")
+                                .map_err(|e| e.into())
+                                .and_then(|()| explanation.write::<T, C>(res))
+                            {
+                                err = Some(e)
+                            }
+                        });
+                    if let Some(e) = err {
+                        return Err(e);
+                    }
+                    ret.handle_error()?;
                 }
             }
             Tracepoints::qTP(qtp) => {
@@ -501,15 +504,16 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
             Tracepoints::qTBuffer(buf) => {
                 let qTBuffer { offset, length } = buf;
                 let mut wrote: Result<bool, Error<T::Error, C::Error>> = Ok(false);
-                ops.trace_buffer_request(offset, length, &mut |data| {
+                let ret = ops.trace_buffer_request(offset, length, &mut |data| {
                     if let Err(e) = res.write_hex_buf(data) {
                         wrote = Err(e.into())
-                    } else {
+                    } else if wrote.is_ok() {
                         wrote = Ok(true)
                     }
-                })
-                .handle_error()?;
-                if !wrote? {
+                });
+                let wrote = wrote?;
+                ret.handle_error()?;
+                if !wrote {
                     res.write_str("l")?;
                 }
             }
@@ -534,7 +538,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                 let parsed_req = parsed_qtframe.ok_or(Error::TargetMismatch)?;
                 let mut err: Result<_, Error<T::Error, C::Error>> = Ok(());
                 let mut any_results = false;
-                ops.select_frame(parsed_req, &mut |desc| {
+                let ret = ops.select_frame(parsed_req, &mut |desc| {
                     let e = (|| -> Result<_, _> {
                         match desc {
                             FrameDescription::FrameNumber(n) => {
@@ -552,8 +556,9 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     if let Err(e) = e {
                         err = Err(e)
                     }
-                })
-                .handle_error()?;
+                });
+                err?;
+                ret.handle_error()?;
                 if !any_results {
                     res.write_str("F-1")?;
                 }
@@ -571,21 +576,20 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
 
                 let mut err: Option<Error<T::Error, C::Error>> = None;
                 let mut started = None;
-                let step = ops
-                    .tracepoint_enumerate_start(None, &mut |ctp| {
-                        // We need to know what tracepoint to begin stepping, since the
-                        // target will just tell us there's TracepointEnumerateStep::More
-                        // otherwise.
-                        started = Some((ctp.number, ctp.addr));
-                        let e = ctp.write::<T, C>(res);
-                        if let Err(e) = e {
-                            err = Some(e)
-                        }
-                    })
-                    .handle_error()?;
+                let step = ops.tracepoint_enumerate_start(None, &mut |ctp| {
+                    // We need to know what tracepoint to begin stepping, since the
+                    // target will just tell us there's TracepointEnumerateStep::More
+                    // otherwise.
+                    started = Some((ctp.number, ctp.addr));
+                    let e = ctp.write::<T, C>(res);
+                    if let Err(e) = e {
+                        err = Some(e)
+                    }
+                });
                 if let Some(e) = err {
                     return Err(e);
                 }
+                let step = step.handle_error()?;
                 if let Some((tp, addr)) = started {
                     ops.tracepoint_enumerate_state().cursor =
                         Some(TracepointEnumerateCursor::New { tp, addr });
@@ -606,40 +610,34 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     Some(TracepointEnumerateCursor::New { tp, .. }) => {
                         // If we don't have any progress, the last packet was
                         // a Next(tp) and we need to start reporting a new tracepoint
-                        Some(
-                            ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
-                                let e = ctp.write::<T, C>(res);
-                                if let Err(e) = e {
-                                    err = Some(e)
-                                }
-                            })
-                            .handle_error()?,
-                        )
+                        Some(ops.tracepoint_enumerate_start(Some(tp), &mut |ctp| {
+                            let e = ctp.write::<T, C>(res);
+                            if let Err(e) = e {
+                                err = Some(e)
+                            }
+                        }))
                     }
                     Some(TracepointEnumerateCursor::Action { tp, addr, step }) => {
                         // Otherwise we should be continuing the advance the current tracepoint.
-                        Some(
-                            ops.tracepoint_enumerate_action(tp, step, &mut |action| {
-                                let e = action.write::<T, C>(tp, addr, res);
-                                if let Err(e) = e {
-                                    err = Some(e)
-                                }
-                            })
-                            .handle_error()?,
-                        )
+                        Some(ops.tracepoint_enumerate_action(tp, step, &mut |action| {
+                            let e = action.write::<T, C>(tp, addr, res);
+                            if let Err(e) = e {
+                                err = Some(e)
+                            }
+                        }))
                     }
                     Some(TracepointEnumerateCursor::Source { tp, step, .. }) => {
                         if let Some(supports_sources) = ops.support_tracepoint_source() {
-                            Some(
-                                supports_sources
-                                    .tracepoint_enumerate_source(tp, step, &mut |src| {
-                                        let e = src.write::<T, C>(res);
-                                        if let Err(e) = e {
-                                            err = Some(e)
-                                        }
-                                    })
-                                    .handle_error()?,
-                            )
+                            Some(supports_sources.tracepoint_enumerate_source(
+                                tp,
+                                step,
+                                &mut |src| {
+                                    let e = src.write::<T, C>(res);
+                                    if let Err(e) = e {
+                                        err = Some(e)
+                                    }
+                                },
+                            ))
                         } else {
                             // If the target doesn't support tracepoint sources but told
                             // us to enumerate one anyways, then the target has an error.
@@ -652,7 +650,7 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     return Err(e);
                 }
                 if let Some(step) = step {
-                    self.handle_tracepoint_state_machine_step(target, step)?;
+                    self.handle_tracepoint_state_machine_step(target, step.handle_error()?)?;
                 }
             }
 
-- 
2.43.0


From 85d256489e47ab835d940bc7cdded3835f870b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 06/14] fix: don't let a later QTDP action mask the first
 target error

---
 src/stub/core_impl/tracepoints.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 9c903d2..ff6de9c 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -464,6 +464,10 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                         let tp = extend_tracepoint.number;
                         let mut err: Option<Error<T::Error, C::Error>> = None;
                         let more = extend_tracepoint.actions(|action| {
+                            // Don't let a later result mask the first error.
+                            if err.is_some() {
+                                return;
+                            }
                             if let Err(e) =
                                 ops.tracepoint_create_continue(tp, action).handle_error()
                             {
-- 
2.43.0


From 3088d0616ca79afbae9f41f9bf83315aed3cbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 07/14] fix: reject overflowing expression lengths in QTDP
 actions

---
 src/stub/core_impl/tracepoints.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index ff6de9c..0b34bb3 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -161,10 +161,11 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                     );
                     let len: usize =
                         decode_hex(len_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
-                    if rem.len() < len * 2 {
-                        return Err(Error::PacketParse(MalformedCommand));
-                    }
-                    let (expr_bytes, next_bytes) = rem.split_at_mut(len * 2);
+                    let len = match len.checked_mul(2) {
+                        Some(len) if len <= rem.len() => len,
+                        _ => return Err(Error::PacketParse(MalformedCommand)),
+                    };
+                    let (expr_bytes, next_bytes) = rem.split_at_mut(len);
                     let expr =
                         decode_hex_buf(expr_bytes).or(Err(Error::PacketParse(MalformedCommand)))?;
                     (f)(&TracepointAction::Expression {
-- 
2.43.0


From ac381d5b0ea56148f0179d3d02ed8f21e80351d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 08/14] fix: stop multi-chunk memory reads at short reads and
 errors

A memory read larger than the packet buffer is performed in chunks. When a
chunk came back short, or failed with a non-fatal error, the following chunk
(or the error reply) was appended to the data already written, so the client
saw bytes at the wrong offset.
---
 src/stub/core_impl/base.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/stub/core_impl/base.rs b/src/stub/core_impl/base.rs
index b42e1f0..5e395ed 100644
--- a/src/stub/core_impl/base.rs
+++ b/src/stub/core_impl/base.rs
@@ -303,7 +303,14 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                             ops.read_addrs(addr, data, self.current_mem_tid)
                         }
                     }
-                    .handle_error()?;
+                    .handle_error();
+
+                    let data_len = match data_len {
+                        Ok(data_len) => data_len,
+                        // part of the reply has already been sent, so report what was read so far
+                        Err(Error::NonFatalError(_)) if i != 0 => break,
+                        Err(e) => return Err(e),
+                    };
 
                     n -= chunk_size;
                     i += chunk_size;
@@ -311,6 +318,11 @@ impl<T: Target, C: Connection> GdbStubImpl<T, C> {
                     // TODO: add more specific error variant?
                     let data = data.get(..data_len).ok_or(Error::PacketBufferOverflow)?;
                     res.write_hex_buf(data)?;
+
+                    // data following a short read would end up at the wrong offset
+                    if data_len < chunk_size {
+                        break;
+                    }
                 }
                 HandlerStatus::Handled
             }
-- 
2.43.0


From b1e3b6305ae32b01a4a88af76769ee647ccdf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 09/14] fix: transfer the AArch64 FPSR before the FPCR, as the
 target description says

---
 gdbstub_arch/src/aarch64/reg/aarch64_core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
index e72f596..0220415 100644
--- a/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
+++ b/gdbstub_arch/src/aarch64/reg/aarch64_core.rs
@@ -48,15 +48,15 @@ impl Registers for AArch64CoreRegs {
         for reg in self.v.iter() {
             write_bytes!(reg);
         }
-        write_bytes!(self.fpcr);
         write_bytes!(self.fpsr);
+        write_bytes!(self.fpcr);
     }
 
     fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
         const CPSR_OFF: usize = core::mem::size_of::<u64>() * 33;
         const FPSIMD_OFF: usize = CPSR_OFF + core::mem::size_of::<u32>();
-        const FPCR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
-        const END: usize = FPCR_OFF + core::mem::size_of::<u32>() * 2;
+        const FPSR_OFF: usize = FPSIMD_OFF + core::mem::size_of::<u128>() * 32;
+        const END: usize = FPSR_OFF + core::mem::size_of::<u32>() * 2;
 
         if bytes.len() < END {
             return Err(());
@@ -78,7 +78,7 @@ impl Registers for AArch64CoreRegs {
 
         self.cpsr = regs.next().ok_or(())?;
 
-        let mut regs = bytes[FPSIMD_OFF..FPCR_OFF]
+        let mut regs = bytes[FPSIMD_OFF..FPSR_OFF]
             .chunks_exact(core::mem::size_of::<u128>())
             .map(|c| u128::from_le_bytes(c.try_into().unwrap()));
 
@@ -86,12 +86,12 @@ impl Registers for AArch64CoreRegs {
             *reg = regs.next().ok_or(())?
         }
 
-        let mut regs = bytes[FPCR_OFF..]
+        let mut regs = bytes[FPSR_OFF..]
             .chunks_exact(core::mem::size_of::<u32>())
             .map(|c| u32::from_le_bytes(c.try_into().unwrap()));
 
-        self.fpcr = regs.next().ok_or(())?;
         self.fpsr = regs.next().ok_or(())?;
+        self.fpcr = regs.next().ok_or(())?;
 
         Ok(())
     }
-- 
2.43.0


From d2a0a39ac8166611d208e5963751096c38185b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 10/14] fix: encoding of the AArch64 system register BRBCR_EL2

---
 gdbstub_arch/src/aarch64/reg/id.rs   | 2 +-
 gdbstub_arch/src/aarch64/sysregs.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdbstub_arch/src/aarch64/reg/id.rs b/gdbstub_arch/src/aarch64/reg/id.rs
index c10e6ce..1c1f2bf 100644
--- a/gdbstub_arch/src/aarch64/reg/id.rs
+++ b/gdbstub_arch/src/aarch64/reg/id.rs
@@ -1806,7 +1806,7 @@ impl AArch64RegId {
     /// Branch Record Buffer Control Register (EL1)
     pub const BRBCR_EL1: Self = Self::System(0b10_001_1001_0000_000);
     /// Branch Record Buffer Control Register (EL2)
-    pub const BRBCR_EL2: Self = Self::System(0b10_001_1001_0000_000);
+    pub const BRBCR_EL2: Self = Self::System(0b10_100_1001_0000_000);
     /// Branch Record Buffer Function Control Register
     pub const BRBFCR_EL1: Self = Self::System(0b10_001_1001_0000_001);
     /// Branch Record Buffer Timestamp Register
diff --git a/gdbstub_arch/src/aarch64/sysregs.xml b/gdbstub_arch/src/aarch64/sysregs.xml
index bd643ee..e5538bd 100644
--- a/gdbstub_arch/src/aarch64/sysregs.xml
+++ b/gdbstub_arch/src/aarch64/sysregs.xml
@@ -350,7 +350,7 @@
   <reg name="BRBSRC31_EL1" bitsize="64" regnum="35965" group="system"/>
   <reg name="BRBTGT31_EL1" bitsize="64" regnum="35966" group="system"/>
   <reg name="BRBCR_EL1" bitsize="64" regnum="35968" group="system"/>
-  <reg name="BRBCR_EL2" bitsize="64" regnum="35968" group="system"/>
+  <reg name="BRBCR_EL2" bitsize="64" regnum="42112" group="system"/>
   <reg name="BRBFCR_EL1" bitsize="64" regnum="35969" group="system"/>
   <reg name="BRBTS_EL1" bitsize="64" regnum="35970" group="system"/>
   <reg name="BRBINFINJ_EL1" bitsize="64" regnum="35976" group="system"/>
-- 
2.43.0


From d98b92ffcf3dfe1a7d9b7aded7ae10a55a17ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 11/14] fix: size of the ARM FPA registers

---
 gdbstub_arch/src/arm/reg/id.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gdbstub_arch/src/arm/reg/id.rs b/gdbstub_arch/src/arm/reg/id.rs
index 10f7c26..c48365c 100644
--- a/gdbstub_arch/src/arm/reg/id.rs
+++ b/gdbstub_arch/src/arm/reg/id.rs
@@ -33,6 +33,11 @@ impl RegId for ArmCoreRegId {
             25 => Self::Cpsr,
             _ => return None,
         };
-        Some((reg, Some(NonZeroUsize::new(4)?)))
+        let size = match reg {
+            // the (legacy) FPA registers are in extended precision format
+            Self::Fpr(_) => 12,
+            _ => 4,
+        };
+        Some((reg, Some(NonZeroUsize::new(size)?)))
     }
 }
-- 
2.43.0


From 6e113f2b446edc356504795d99fd6ad6498d0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 12/14] fix: build without std when the alloc feature is
 enabled

SourceTracepoint::get_owned called to_owned() through ToOwned, which is only
in the prelude when std is linked.
---
 src/target/ext/tracepoints.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/target/ext/tracepoints.rs b/src/target/ext/tracepoints.rs
index d051e59..c2ea206 100644
--- a/src/target/ext/tracepoints.rs
+++ b/src/target/ext/tracepoints.rs
@@ -115,13 +115,14 @@ pub struct SourceTracepoint<'a, U> {
 impl<U: Copy> SourceTracepoint<'_, U> {
     /// Allocate an owned copy of this structure.
     pub fn get_owned<'b>(&self) -> SourceTracepoint<'b, U> {
+        use core::ops::Deref;
         SourceTracepoint {
             number: self.number,
             addr: self.addr,
             kind: self.kind,
             start: self.start,
             slen: self.slen,
-            bytes: ManagedSlice::Owned(self.bytes.to_owned()),
+            bytes: ManagedSlice::Owned(self.bytes.deref().into()),
         }
     }
 }
-- 
2.43.0


From eadd12bfd5f774fbf8d46d92f87edb6aaa52615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 13/14] fix: avoid panicking slice operations in
 vFile:readlink, qTBuffer and QTDP parsing

The optimised no_std code kept calls into the panic machinery for the
slicing in these three places, contrary to the library's promise.
---
 src/protocol/commands/_qTBuffer.rs       |  3 +--
 src/protocol/commands/_vFile_readlink.rs | 12 ++++++++++--
 src/stub/core_impl/tracepoints.rs        |  5 ++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/protocol/commands/_qTBuffer.rs b/src/protocol/commands/_qTBuffer.rs
index b46117b..dbb9da4 100644
--- a/src/protocol/commands/_qTBuffer.rs
+++ b/src/protocol/commands/_qTBuffer.rs
@@ -9,8 +9,7 @@ pub struct qTBuffer {
 impl<'a> ParseCommand<'a> for qTBuffer {
     #[inline(always)]
     fn from_packet(buf: PacketBuf<'a>) -> Option<Self> {
-        let (buf, body_range) = buf.into_raw_buf();
-        let body = &buf[body_range];
+        let body = buf.into_body();
         match body {
             [b':', body @ ..] => {
                 let mut req_opts = body.split(|b| *b == b',');
diff --git a/src/protocol/commands/_vFile_readlink.rs b/src/protocol/commands/_vFile_readlink.rs
index 4488e47..2141a23 100644
--- a/src/protocol/commands/_vFile_readlink.rs
+++ b/src/protocol/commands/_vFile_readlink.rs
@@ -11,8 +11,16 @@ impl<'a> ParseCommand<'a> for vFileReadlink<'a> {
     #[inline(always)]
     fn from_packet(buf: PacketBuf<'a>) -> Option<Self> {
         let (buf, body_range) = buf.into_raw_buf();
-        // TODO: rewrite to avoid panic
-        let (body, buf) = buf[body_range.start..].split_at_mut(body_range.end - body_range.start);
+
+        // checked explicitly, as the compiler won't elide the panics otherwise
+        let (body, buf) = {
+            let buf = buf.get_mut(body_range.start..)?;
+            let body_len = body_range.end - body_range.start;
+            if body_len > buf.len() {
+                return None;
+            }
+            buf.split_at_mut(body_len)
+        };
 
         if body.is_empty() {
             return None;
diff --git a/src/stub/core_impl/tracepoints.rs b/src/stub/core_impl/tracepoints.rs
index 0b34bb3..20dcc5a 100644
--- a/src/stub/core_impl/tracepoints.rs
+++ b/src/stub/core_impl/tracepoints.rs
@@ -133,11 +133,10 @@ impl<'a, U: BeBytes> ExtendTracepoint<'a, U> {
                 Some([b'R', mask @ ..]) => {
                     let mask_end = mask
                         .iter()
-                        .enumerate()
-                        .find(|(_i, b)| matches!(b, b'S' | b'R' | b'M' | b'X'));
+                        .position(|b| matches!(b, b'S' | b'R' | b'M' | b'X'));
                     // We may or may not have another action after our mask
                     let mask = if let Some(mask_end) = mask_end {
-                        let (mask_bytes, next) = mask.split_at_mut(mask_end.0);
+                        let (mask_bytes, next) = mask.split_at_mut(mask_end);
                         unparsed = Some(next);
                         decode_hex_buf(mask_bytes).or(Err(Error::PacketParse(MalformedCommand)))?
                     } else {
-- 
2.43.0


From 2234d963fa938f4532ea37441d2cc4a3d199f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 14/14] fix: LeBytes::from_le_bytes took the value from the
 wrong end of oversized buffers

---
 src/internal/le_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/le_bytes.rs b/src/internal/le_bytes.rs
index fa12499..cfb1fb9 100644
--- a/src/internal/le_bytes.rs
+++ b/src/internal/le_bytes.rs
@@ -28,7 +28,7 @@ macro_rules! impl_to_le_bytes {
                     let len = core::mem::size_of::<$num>();
 
                     let buf = if buf.len() > len {
-                        let (extra, buf) = buf.split_at(buf.len() - len);
+                        let (buf, extra) = buf.split_at(len);
                         if extra.iter().any(|&b| b != 0) {
                             return None
                         }
-- 
2.43.0

