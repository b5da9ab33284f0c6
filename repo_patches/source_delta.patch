From 963801dbf809f9681c1e1dce6b9fdc32b5cf3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 01/53] fix: wrap the input address of the poseidon2 ecall

The guest may hash a buffer that wraps around the 32-bit address space, and
the recorded memory addresses already wrap; reading it overflowed instead.
---
 runner/src/poseidon2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
-- 
2.43.0


From 9b4de15fea697665e86943e7466fcf0798e7b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 02/53] fix: accept code and data in the last word of the
 address space

Building a program whose bytes end at 0xFFFF_FFFF overflowed while stepping
to the address after the last one.
---
 runner/src/code.rs | 2 +-
 runner/src/elf.rs  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..9fc0728 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,7 +39,7 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
+            for (i, byte) in (addr..=u32::MAX).zip(bytes.iter_mut()) {
                 *byte = m.get(&i).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..edec5cf 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -49,7 +49,7 @@ impl From<HashMap<u32, u32>> for Program {
         }
         let image: HashMap<u32, u8> = image
             .iter()
-            .flat_map(move |(k, v)| (*k..).zip(v.to_le_bytes()))
+            .flat_map(move |(k, v)| (*k..=u32::MAX).zip(v.to_le_bytes()))
             .collect::<HashMap<u32, u8>>();
         Self {
             entry_point: 0_u32,
@@ -82,8 +82,8 @@ impl From<HashMap<u32, u32>> for Data {
                 .iter()
                 .flat_map(move |(k, v)| {
                     (u64::from(*k)..)
-                        .map(|k| u32::try_from(k).unwrap())
                         .zip(v.to_le_bytes())
+                        .map(|(k, v)| (u32::try_from(k).unwrap(), v))
                 })
                 .collect(),
         )
@@ -209,7 +209,7 @@ impl Program {
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
-                Ok((vaddr..).zip(
+                Ok((vaddr..=u32::MAX).zip(
                     chain!(&input[offset..][..min_size], repeat(&0u8))
                         .take(max_size)
                         .copied(),
-- 
2.43.0


From 982e71189fff2f47875f0f7d7f4fbb2317dc27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 03/53] fix: reject ELF images whose segments lie outside the
 file

---
 runner/src/elf.rs | 57 ++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index edec5cf..3355569 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -98,27 +98,19 @@ impl Program {
     /// Same as `Program::internal_load_elf`
     pub fn vanilla_load_elf(input: &[u8]) -> Result<Program> {
         let (_, entry_point, segments) = Program::parse_and_validate_elf(input)?;
-        Ok(Program::internal_load_elf(
-            input,
-            entry_point,
-            segments,
-            |flags, _| {
-                (flags & elf::abi::PF_R == elf::abi::PF_R)
-                    && (flags & elf::abi::PF_W == elf::abi::PF_NONE)
-            },
-        ))
+        Program::internal_load_elf(input, entry_point, segments, |flags, _| {
+            (flags & elf::abi::PF_R == elf::abi::PF_R)
+                && (flags & elf::abi::PF_W == elf::abi::PF_NONE)
+        })
     }
 
     /// Mozak load-elf - expect "_mozak_*" symbols in link
     /// # Errors
     /// Same as `Program::internal_load_elf`
-    /// # Panics
-    /// Same as `Program::internal_load_elf`
-    #[must_use]
     pub fn mozak_load_elf(
         input: &[u8],
         (_elf, entry_point, segments): (ElfBytes<LittleEndian>, u32, SegmentTable<LittleEndian>),
-    ) -> Program {
+    ) -> Result<Program> {
         // Information related to the `check_program_flags`
         // `&& (!mozak_memory.is_mozak_ro_memory_address(ph))` --> this line is used to
         // filter RO-addresses related to the mozak-ROM. Currently we don't
@@ -156,24 +148,28 @@ impl Program {
     }
 
     /// Initialize a RISC Program from a validated ELF file.
+    ///
+    /// # Errors
+    /// Will return `Err` if a segment lies outside of the file or of the 32-bit
+    /// address space.
     #[allow(clippy::similar_names)]
     fn internal_load_elf(
         input: &[u8],
         entry_point: u32,
         segments: SegmentTable<LittleEndian>,
         check_program_flags: fn(flags: u32, program_headers: &ProgramHeader) -> bool,
-    ) -> Program {
+    ) -> Result<Program> {
         let ro_memory = Data(Program::extract_elf_data(
             check_program_flags,
             input,
             &segments,
-        ));
+        )?);
 
         let rw_memory = Data(Program::extract_elf_data(
             |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
             input,
             &segments,
-        ));
+        )?);
 
         // Because we are implementing a modified Harvard Architecture, we make an
         // independent copy of the executable segments. In practice,
@@ -183,21 +179,21 @@ impl Program {
             |flags, _| flags & elf::abi::PF_X == elf::abi::PF_X,
             input,
             &segments,
-        ));
+        )?);
 
-        Program {
+        Ok(Program {
             entry_point,
             ro_memory,
             rw_memory,
             ro_code,
-        }
+        })
     }
 
     fn extract_elf_data(
         check_program_flags: fn(flags: u32, program_headers: &ProgramHeader) -> bool,
         input: &[u8],
         segments: &SegmentTable<LittleEndian>,
-    ) -> HashMap<u32, u8> {
+    ) -> Result<HashMap<u32, u8>> {
         segments
             .iter()
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
@@ -205,19 +201,26 @@ impl Program {
                 let file_size: usize = program_header.p_filesz.try_into()?;
                 let mem_size: usize = program_header.p_memsz.try_into()?;
                 let vaddr: u32 = program_header.p_vaddr.try_into()?;
-                let offset = program_header.p_offset.try_into()?;
+                let offset: usize = program_header.p_offset.try_into()?;
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
+                ensure!(
+                    u64::from(vaddr) + u64::try_from(max_size)? <= 1 << 32,
+                    "Segment exceeds the 32-bit address space"
+                );
+                let data = offset
+                    .checked_add(min_size)
+                    .and_then(|end| input.get(offset..end))
+                    .ok_or_else(|| anyhow!("Segment data lies outside of the file"))?;
                 Ok((vaddr..=u32::MAX).zip(
-                    chain!(&input[offset..][..min_size], repeat(&0u8))
+                    chain!(data, repeat(&0u8))
                         .take(max_size)
                         .copied(),
                 ))
             })
             .flatten_ok()
             .try_collect()
-            .expect("extract elf data should always succeed")
     }
 
     /// Loads a [`Program`] from static ELF.
@@ -225,14 +228,8 @@ impl Program {
     /// # Errors
     /// Will return `Err` if the ELF file is invalid or if the entrypoint is
     /// invalid.
-    ///
-    /// # Panics
-    /// When `Program::load_elf` or index as address is not cast-able to be u32
-    /// cast-able
     pub fn mozak_load_program(elf_bytes: &[u8]) -> Result<Program> {
-        let program =
-            Program::mozak_load_elf(elf_bytes, Program::parse_and_validate_elf(elf_bytes)?);
-        Ok(program)
+        Program::mozak_load_elf(elf_bytes, Program::parse_and_validate_elf(elf_bytes)?)
     }
 
     /// Creates a [`Program`] with [`Code`].
-- 
2.43.0


From dfc3d926d5cb24e7d4513e56f66d04296a52b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 04/53] fix: merkleize addresses that differ in their top bit

---
 sdk/src/common/merkle.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..ee77f61 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -17,16 +17,20 @@ pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Ha
     hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
 }
 
+/// The node `height_incr` levels above `addr`. Two addresses which differ in
+/// their most significant bit only meet at the root, `u64::BITS` levels up.
+fn ancestor(addr: u64, height_incr: u32) -> u64 { addr.checked_shr(height_incr).unwrap_or(0) }
+
 // Merkles all the closest relatives once, returns the next merge increment
 fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u32 {
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = ancestor(left.0, height_incr);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = ancestor(right.0, height_incr);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +42,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = ancestor(right.0, height_incr);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 0c5f6f28a2d576fadde08c12321c439ac7b2c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 05/53] fix: wrap the addresses load_u32 reads

---
 runner/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/state.rs b/runner/src/state.rs
index 06d1d93..7753755 100644
--- a/runner/src/state.rs
+++ b/runner/src/state.rs
@@ -396,7 +396,7 @@ impl<F: RichField> State<F> {
         const WORD_SIZE: usize = 4;
         let mut bytes = [0_u8; WORD_SIZE];
         for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
-            *byte = self.load_u8(addr + i);
+            *byte = self.load_u8(addr.wrapping_add(i));
         }
         u32::from_le_bytes(bytes)
     }
-- 
2.43.0


From aefe4135bbff5ed02c331716bbb47eda3f99ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 06/53] fix: load readable and writable segments that are
 executable too

---
 runner/src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 3355569..e0ab97c 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -166,7 +166,10 @@ impl Program {
         )?);
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| {
+                let read_write = elf::abi::PF_R | elf::abi::PF_W;
+                flags & read_write == read_write
+            },
             input,
             &segments,
         )?);
-- 
2.43.0


From 20ac418521df7dfb2079cb3c760cd54c80bfd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 07/53] fix: wrap the message address of the logging ecalls

---
 runner/src/ecall.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runner/src/ecall.rs b/runner/src/ecall.rs
index afef451..23f9ab3 100644
--- a/runner/src/ecall.rs
+++ b/runner/src/ecall.rs
@@ -103,8 +103,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         panic!(
             "VM panicked with msg: {}",
@@ -120,8 +120,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         log::debug!(
             "VM TRACE LOG: {}",
-- 
2.43.0


From f6ca42affd9ca15b9ce4b97a134ac7c1e902cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 08/53] fix: treat writes to read-only CSRs as illegal
 instructions

---
 runner/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runner/src/decode.rs b/runner/src/decode.rs
index b0c64c4..c25baa7 100644
--- a/runner/src/decode.rs
+++ b/runner/src/decode.rs
@@ -237,6 +237,10 @@ pub fn decode_instruction(pc: u32, word: u32) -> Result<Instruction, DecodingErr
             // For RISC-V this would be EBREAK,
             // but so far we implemented it as a no-op.
             (0x0, 0x1) => nop,
+            // CSRs numbered 0xC00 and up are read-only: writing one is illegal. Compilers
+            // emit just that (`unimp` is `csrrw zero, cycle, zero`) where a program must
+            // not continue, e.g. after an abort.
+            (0x1 | 0x5, 0xC00..) => return default(),
             // For RISC-V this would be (Op::CSRRW, itype),
             // but so far we implemented it as a no-op.
             (0x1, _) => nop,
-- 
2.43.0


From 2ee5457d8f05dfe432205a40dcb6f397ddb79789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 09/53] fix: refuse calls a program did not make while it
 receives

---
 sdk/src/mozakvm/calltape.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index e1d175a..92c6410 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -96,21 +96,21 @@ impl Call for CallTape {
             // Well, once we are sure that we were not the caller, we can
             // either be a callee in which case we process and send information
             // back or we continue searching.
+            // First, ensure that we are not the caller, no-one can call
+            // themselves. (Even if they can w.r.t. self-calling extension,
+            // the `caller` field would remain distinct)
+            let caller: ProgramIdentifier = zcd_cpcmsg
+                .caller
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            assert!(caller != self.self_prog_id);
+
             let callee: ProgramIdentifier = zcd_cpcmsg
                 .callee
                 .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
                 .unwrap();
 
             if self.self_prog_id == callee {
-                // First, ensure that we are not the caller, no-one can call
-                // themselves. (Even if they can w.r.t. self-calling extension,
-                // the `caller` field would remain distinct)
-                let caller: ProgramIdentifier = zcd_cpcmsg
-                    .caller
-                    .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
-                    .unwrap();
-                assert!(caller != self.self_prog_id);
-
                 // Before accepting, make sure that caller was a part of castlist
                 assert!(self.is_casted_actor(&caller));
 
-- 
2.43.0


From 5f6a05e01960605c70bec7447e2e46bdecdb9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 10/53] fix: let a program make calls after others exchanged
 messages

---
 sdk/src/mozakvm/calltape.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index 92c6410..c298790 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -38,6 +38,18 @@ impl Call for CallTape {
         R: CallReturn,
         <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
         <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
+        // Skip the messages others exchanged in between, e.g. while they were
+        // resolving an earlier call of ours
+        let is_other = |id: &<ProgramIdentifier as Archive>::Archived| {
+            let id: ProgramIdentifier =
+                id.deserialize(Strategy::<_, Panic>::wrap(&mut ())).unwrap();
+            id != self.self_prog_id
+        };
+        self.index += self.reader.unwrap()[self.index..]
+            .iter()
+            .take_while(|msg| is_other(&msg.caller) && is_other(&msg.callee))
+            .count();
+
         // Ensure we aren't validating past the length of the event tape
         assert!(self.index < self.reader.as_ref().unwrap().len());
 
-- 
2.43.0


From e3406cef46903e3842b530266666660c19fb6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 11/53] fix: read and seek input tapes as their std::io traits
 promise

---
 sdk/src/mozakvm/inputtape.rs | 69 ++++++++++++------------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..b16f77a 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -25,33 +25,19 @@ impl std::io::Read for RandomAccessEcallTape {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // While we want the whole buffer to be filled, it may
         // not be possible due to us reaching the end of tape
-        // at times. Hence `required_bytes` encodes the desired
-        // request, while `serviced_bytes` encode the actual
+        // at times. Hence `serviced_bytes` encodes the actual
         // serviced len.
-        let required_bytes = buf.len();
-        let mut serviced_bytes = required_bytes;
-        if (self.read_offset + required_bytes) > self.size_hint {
-            serviced_bytes = self.size_hint - self.read_offset;
-        }
+        let start = self.read_offset;
+        let serviced_bytes = buf.len().min(self.size_hint - start);
+        let end = start + serviced_bytes;
 
         // In cases where `Seek` was used, we may be reading from
         // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
-        }
-
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
+        // bytes already from the `ECALL` mechanism; or we may have
+        // skipped bytes, which we need to get as well. These are
+        // the actual bytes we get from doing an `ECALL`
         let old_len = self.internal_buf.len();
+        let remaining_from_ecall = end.saturating_sub(old_len);
         self.internal_buf.resize(old_len + remaining_from_ecall, 0);
 
         // TODO: maybe move out this function into `ecall.rs` somehow?
@@ -64,9 +50,8 @@ impl std::io::Read for RandomAccessEcallTape {
             );
         };
 
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
-        self.read_offset += serviced_bytes;
+        buf[..serviced_bytes].copy_from_slice(&self.internal_buf[start..end]);
+        self.read_offset = end;
 
         Ok(serviced_bytes)
     }
@@ -75,29 +60,19 @@ impl std::io::Read for RandomAccessEcallTape {
 #[cfg(feature = "stdread")]
 impl std::io::Seek for RandomAccessEcallTape {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Start(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset = usize::try_from(x).unwrap();
-                },
-            std::io::SeekFrom::End(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = 0;
-                } else {
-                    self.read_offset = self.size_hint - usize::try_from(x).unwrap() - 1;
-                },
-            std::io::SeekFrom::Current(x) => {
-                if x + i64::try_from(self.read_offset).unwrap()
-                    >= self.size_hint.try_into().unwrap()
-                {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset += usize::try_from(x).unwrap();
-                }
-            }
+        let (base, offset) = match pos {
+            std::io::SeekFrom::Start(x) => (0, i64::try_from(x).unwrap_or(i64::MAX)),
+            std::io::SeekFrom::End(x) => (self.size_hint, x),
+            std::io::SeekFrom::Current(x) => (self.read_offset, x),
+        };
+        let target = i64::try_from(base).unwrap().saturating_add(offset);
+        if target < 0 {
+            return Err(std::io::ErrorKind::InvalidInput.into());
         }
+        // Seeking past the end of the tape stops at its end
+        self.read_offset = usize::try_from(target)
+            .unwrap_or(usize::MAX)
+            .min(self.size_hint);
         Ok(self.read_offset as u64)
     }
 }
-- 
2.43.0


From 7a30d6be3be61e0824fe8a8ea99c2d0d8ca4786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 12/53] fix: serialize calls of any size

The `Panic` error strategy panics on the first failed allocation, so rkyv
never got to fall back to the heap when a value or a call tape needed more
than the 256 bytes of scratch space.
---
 cli/src/runner.rs          | 8 +++++---
 sdk/src/common/traits.rs   | 4 ++--
 sdk/src/native/calltape.rs | 8 +++++---
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/cli/src/runner.rs b/cli/src/runner.rs
index 25df3cb..48b9f57 100644
--- a/cli/src/runner.rs
+++ b/cli/src/runner.rs
@@ -17,7 +17,7 @@ use mozak_sdk::common::types::{
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::RichField;
 use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Strategy};
 use rkyv::ser::AllocSerializer;
 use starky::config::StarkConfig;
 
@@ -114,8 +114,10 @@ pub fn raw_tapes_from_system_tape<F: std::io::Read>(
     {
         fn serialise<T>(tape: &T, dgb_string: &str) -> Vec<u8>
         where
-            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Panic>>, {
-            let tape_bytes = rkyv::to_bytes::<_, 256, _>(tape).unwrap().into();
+            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Failure>>, {
+            // `Failure` rather than `Panic`, so that tapes which do not fit in the
+            // scratch space fall back to the heap
+            let tape_bytes = rkyv::to_bytes::<_, 256, Failure>(tape).unwrap().into();
             length_prefixed_bytes(tape_bytes, dgb_string)
         }
 
diff --git a/sdk/src/common/traits.rs b/sdk/src/common/traits.rs
index 3bc0c67..0448e03 100644
--- a/sdk/src/common/traits.rs
+++ b/sdk/src/common/traits.rs
@@ -1,4 +1,4 @@
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Panic, Strategy};
 use rkyv::ser::allocator::{AllocationTracker, GlobalAllocator};
 use rkyv::ser::{AllocSerializer, Composite};
 use rkyv::util::AlignedVec;
@@ -8,7 +8,7 @@ use crate::common::types::{Event, ProgramIdentifier};
 
 pub trait RkyvSerializable = rkyv::Serialize<
         Strategy<Composite<AlignedVec, AllocationTracker<GlobalAllocator>, Panic>, Panic>,
-    > + Serialize<Strategy<AllocSerializer<256>, Panic>>;
+    > + Serialize<Strategy<AllocSerializer<256>, Failure>>;
 pub trait CallArgument = Sized + RkyvSerializable;
 pub trait CallReturn = ?Sized + Clone + Default + RkyvSerializable + Archive;
 
diff --git a/sdk/src/native/calltape.rs b/sdk/src/native/calltape.rs
index 540f1f8..d996e1a 100644
--- a/sdk/src/native/calltape.rs
+++ b/sdk/src/native/calltape.rs
@@ -1,7 +1,7 @@
 use std::cell::RefCell;
 use std::rc::Rc;
 
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Panic, Strategy};
 use rkyv::Deserialize;
 
 use crate::common::traits::{Call, CallArgument, CallReturn, SelfIdentify};
@@ -45,7 +45,9 @@ impl Call for CallTape {
         let msg = CrossProgramCall {
             caller: self.get_self_identity(),
             callee: recipient_program,
-            argument: rkyv::to_bytes::<_, 256, _>(&argument).unwrap().into(),
+            // `Failure` rather than `Panic`, so that values which do not fit in the
+            // scratch space fall back to the heap
+            argument: rkyv::to_bytes::<_, 256, Failure>(&argument).unwrap().into(),
             return_: RawMessage::default(), // Unfilled: we have to still resolve it
         };
 
@@ -61,7 +63,7 @@ impl Call for CallTape {
         self.set_self_identity(recipient_program);
         let resolved_value = resolver(argument);
         self.writer[inserted_idx].return_ =
-            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();
+            rkyv::to_bytes::<_, 256, Failure>(&resolved_value).unwrap().into();
         self.identity_stack.borrow_mut().rm_identity();
 
         resolved_value
-- 
2.43.0


From 488e01014735971bcb2a1044ae7485271d9925b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 13/53] Let a verification build read what a lookup consists of

---
 circuits/src/stark/mozak_stark.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..0b6218a 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -545,6 +545,14 @@ impl<Row> TableWithTypedOutput<Row> {
     }
 }
 
+#[cfg(mozak_verif)]
+impl<Row> TableWithTypedOutput<Row> {
+    /// What a lookup reads: the table, the columns and the filter.
+    pub fn parts(&self) -> (TableKind, &Row, &Column) {
+        (self.kind, &self.columns, &self.filter_column)
+    }
+}
+
 impl<Row> Neg for TableWithTypedOutput<Row> {
     type Output = Self;
 
-- 
2.43.0


From b4e9b5a84417ec3c490479a8c3508d4cb8baf1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 14/53] fix: tie the value LW loads and SW stores to memory

---
 circuits/src/cpu/memory.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..6102b0e 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -27,6 +27,10 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     // `mem_access_raw` in case `dst_sign_bit` is set
     cb.always(lv.inst.ops.lh * (lv.dst_value - (lv.mem_value_raw + lv.dst_sign_bit * 0xFFFF_0000)));
 
+    // LW and SW move the whole word without changing it.
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
+    cb.always(lv.inst.ops.sw * (lv.mem_value_raw - lv.op1_value));
+
     let and_gadget = and_gadget(&lv.xor);
     // SB/SH uses only least significant 8/16 bit from RS1 register.
     cb.always((lv.inst.ops.sb + lv.inst.ops.sh) * (and_gadget.input_a - lv.op1_value));
-- 
2.43.0


From ec077dfbf7bb198ba02195abab321d7a5f514d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 15/53] fix: range check the operands of a taken BLTU

---
 circuits/src/stark/mozak_stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 0b6218a..1e201f8 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -716,6 +716,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From b24e45e86e432a8f901821c4e9384f2312b036f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 16/53] fix: recognise the overflowing division -2^31 / -1

---
 circuits/src/cpu/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..c44749b 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -276,7 +276,7 @@ fn generate_div_row<F: RichField>(row: &mut CpuState<F>, inst: &Instruction, aux
         row.quotient_value = from_u32(quotient_full_range as u32);
         row.quotient_sign = F::from_bool(quotient_full_range.is_negative());
         row.skip_check_quotient_sign = F::from_bool(quotient_full_range == 0);
-        if dividend_full_range == -2 ^ 31 && divisor_full_range == -1 {
+        if dividend_full_range == i64::from(i32::MIN) && divisor_full_range == -1 {
             // Special case for dividend == -2^31, divisor == -1:
             // quotient_sign == 1 (quotient = -2^31).
             row.skip_check_quotient_sign = F::ONE;
-- 
2.43.0


From fe0f2079b2f0a95aadc20ab136d4ab41f50fede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 17/53] fix: range check the comparison of SLT and SLTU

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..f1ba42d 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -307,7 +307,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From e48a1cf498e4be7dc81a937134efdab7edd9c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 18/53] fix: look up the XOR that SB and SH take their value
 from

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index f1ba42d..0116aee 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -411,7 +411,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
-- 
2.43.0


From f60263585cbae478ce46b941937e7e6de11206ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 19/53] fix: constrain the next pc in the last row of the CPU
 table, too

---
 circuits/src/cpu/jalr.rs  | 2 +-
 circuits/src/cpu/stark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 2b31e23..e2dcc41 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -28,7 +28,7 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     // Check: the wrapped op1, op2 sum is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-    cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
+    cb.always(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
 
 #[cfg(test)]
diff --git a/circuits/src/cpu/stark.rs b/circuits/src/cpu/stark.rs
index d34744c..229bb64 100644
--- a/circuits/src/cpu/stark.rs
+++ b/circuits/src/cpu/stark.rs
@@ -34,7 +34,7 @@ impl<F, const D: usize> HasNamedColumns for CpuStark<F, D> {
 /// Ensure that if opcode is straight line, then program counter is incremented
 /// by 4.
 fn pc_ticks_up<'a, P: Copy>(lv: &CpuState<Expr<'a, P>>, cb: &mut ConstraintBuilder<Expr<'a, P>>) {
-    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
+    cb.always(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
 }
 
 /// Enforce that selectors of opcode are one-hot encoded.
-- 
2.43.0


From dae346fd23f1d14469def2b725feac96d0f97f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 20/53] fix: constrain the cubes that the Poseidon2 S-boxes
 multiply by

---
 circuits/src/poseidon2/stark.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..5ad7938 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -149,10 +149,9 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     for r in 0..(ROUNDS_F / 2) {
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (i, item) in state.iter_mut().enumerate() {
-            sbox_p(
-                item,
-                &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
-            );
+            let qube = lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i];
+            constraints.always(*item * *item * *item - qube);
+            sbox_p(item, &qube);
         }
         matmul_external12(&mut state);
         for (i, state_i) in state.iter_mut().enumerate() {
@@ -164,7 +163,9 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        let qube = lv.s_box_input_qube_partial_rounds[i];
+        constraints.always(state[0] * state[0] * state[0] - qube);
+        sbox_p(&mut state[0], &qube);
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -181,10 +182,9 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
         let r = (ROUNDS_F / 2) + i;
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (j, item) in state.iter_mut().enumerate() {
-            sbox_p(
-                item,
-                &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
-            );
+            let qube = lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j];
+            constraints.always(*item * *item * *item - qube);
+            sbox_p(item, &qube);
         }
         matmul_external12(&mut state);
         for (j, state_j) in state.iter_mut().enumerate() {
-- 
2.43.0


From 2c8c1734eee0b987532588c241774f7d1a631f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 21/53] fix: take the address of an event tape read from its
 register

---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From 4b40f66b126d07ca698639bb30d5f143cff9bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 22/53] fix: bind the bytes of a tape read to its call

---
 circuits/src/storage_device/stark.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..c7d2c68 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -53,6 +53,17 @@ fn generate_constraints<'a, T: Copy>(
     constraints.always(lv.is_lv_and_nv_are_memory_rows * (nv.addr - added) * (nv.addr - wrapped));
     // nv.size == lv.size - 1 (not-wrapped)
     constraints.transition(nv.is_lv_and_nv_are_memory_rows * (nv.size - (lv.size - 1)));
+    // A memory row continues the row before it: same clock, and one byte less to go.
+    constraints.always(nv.ops.is_memory_store * (1 - lv.is_executed()));
+    constraints.always(nv.ops.is_memory_store * (nv.clk - lv.clk));
+    constraints.always(nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
+    // ..and there is a memory row for every byte to go.
+    constraints.always(lv.is_executed() * lv.size * (1 - nv.ops.is_memory_store));
+    // Without a memory row before it, a memory row starts at the address of the
+    // storage device row; otherwise it has the next address.
+    constraints.always(
+        lv.ops.is_memory_store * (nv.ops.is_memory_store - lv.is_lv_and_nv_are_memory_rows),
+    );
     // Edge cases:
     //  a) - storage_device with size = 0: <-- this case is solved since CTL from
     // CPU        a.1) is_lv_and_nv_are_memory_rows = 0 (no memory rows
-- 
2.43.0


From 0f070ba2b49f44f4df99cb0f6f4f8abb4c89ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 23/53] fix: make the index of a commitment byte its position

---
 circuits/src/tape_commitments/stark.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/circuits/src/tape_commitments/stark.rs b/circuits/src/tape_commitments/stark.rs
index 3c55b75..e9f9650 100644
--- a/circuits/src/tape_commitments/stark.rs
+++ b/circuits/src/tape_commitments/stark.rs
@@ -2,6 +2,7 @@ use std::marker::PhantomData;
 
 use expr::{Expr, ExprBuilder, StarkFrameTyped};
 use mozak_circuits_derive::StarkNameDisplay;
+use mozak_sdk::core::constants::DIGEST_BYTES;
 use plonky2::field::extension::{Extendable, FieldExtension};
 use plonky2::field::packed::PackedField;
 use plonky2::hash::hash_types::RichField;
@@ -19,6 +20,7 @@ fn generate_constraints<'a, T: Copy>(
     vars: &StarkFrameTyped<TapeCommitments<Expr<'a, T>>, NoColumns<Expr<'a, T>>>,
 ) -> ConstraintBuilder<Expr<'a, T>> {
     let lv: &TapeCommitments<Expr<'a, T>> = &vars.local_values;
+    let nv: &TapeCommitments<Expr<'a, T>> = &vars.next_values;
     let mut constraint = ConstraintBuilder::default();
     constraint.always(lv.is_event_commitment_tape_row.is_binary());
     constraint.always(lv.is_castlist_commitment_tape_row.is_binary());
@@ -29,6 +31,25 @@ fn generate_constraints<'a, T: Copy>(
     constraint.always(
         lv.castlist_commitment_tape_multiplicity * (1 - lv.is_castlist_commitment_tape_row),
     );
+
+    // The rows of a commitment are in order: from the first row to the last, the
+    // index counts from 0 to `DIGEST_BYTES - 1`, and starts over for the next
+    // commitment.
+    let last_index = i64::try_from(DIGEST_BYTES - 1).unwrap();
+    let index = lv.commitment_byte_row.index;
+    let next_index = nv.commitment_byte_row.index;
+    let is_counting = next_index - index - 1;
+    constraint.first_row(index);
+    constraint.last_row(index - last_index);
+    constraint.transition(is_counting * next_index);
+    constraint.transition(is_counting * (index - last_index));
+    // Only then does a row belong to another commitment than the one before it.
+    constraint.transition(
+        next_index * (nv.is_event_commitment_tape_row - lv.is_event_commitment_tape_row),
+    );
+    constraint.transition(
+        next_index * (nv.is_castlist_commitment_tape_row - lv.is_castlist_commitment_tape_row),
+    );
     constraint
 }
 
-- 
2.43.0


From 192cf23808956cbeafe87fc9c227cb71d44bc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 24/53] fix: run a Poseidon2 sponge to the end of its input

---
 circuits/src/poseidon2_sponge/stark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/poseidon2_sponge/stark.rs b/circuits/src/poseidon2_sponge/stark.rs
index e16fdc4..b74b872 100644
--- a/circuits/src/poseidon2_sponge/stark.rs
+++ b/circuits/src/poseidon2_sponge/stark.rs
@@ -76,8 +76,12 @@ fn generate_constraints<'a, T: Copy>(
 
     // Clk should not change within a sponge
     constraints.transition(nv.ops.is_permute * (lv.clk - nv.clk));
+    // ..and neither should the address of its output.
+    constraints.transition(nv.ops.is_permute * (lv.output_addr - nv.output_addr));
 
     let not_last_sponge = (1 - lv.gen_output) * (lv.ops.is_permute + lv.ops.is_init_permute);
+    // A sponge goes on until it generates output, and only then
+    constraints.always(not_last_sponge - nv.ops.is_permute);
     // if current row consumes input and its not last sponge then next row must have
     // length decreases by RATE, note that only actual execution row can consume
     // input
-- 
2.43.0


From dbb9417eb4b94bd3f1a54d5aae231e80c3db68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 25/53] fix: initialise a register only before its first use

---
 circuits/src/register/general/stark.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index bb36756..c6ade7b 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -78,6 +78,11 @@ fn generate_constraints<'a, T: Copy>(
     // Constraint 5: Address either stays the same or increments by 1.
     constraints.transition((nv.addr - lv.addr) * (nv.addr - lv.addr - 1));
 
+    // An init starts a new address, so that nothing but a write changes the value
+    // of a register.  (Except for `x31`: the register init table ends in copies of
+    // its last row, so there may be more of the same init before any use.)
+    constraints.transition(nv.ops.is_init * (nv.addr - lv.addr - 1) * (1 - lv.ops.is_init));
+
     // Constraint 6: addresses go from 1 to 31.
     constraints.first_row(lv.addr - 1);
     constraints.last_row(lv.addr - 31);
-- 
2.43.0


From 578591ea3d5a09fb066e17fcaed04d53ae8ec047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 26/53] fix: continue after an ECALL with the next instruction

---
 circuits/src/cpu/ecall.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..d319c90 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -19,6 +19,10 @@ pub(crate) fn constraints<'a, P: Copy>(
     }
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
+    // All but a halt go on with the next instruction.
+    cb.always(
+        (lv.inst.ops.ecall - lv.ecall_selectors.is_halt) * (lv.new_pc - (lv.inst.pc + 4)),
+    );
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
-- 
2.43.0


From ae7b09d2ed7bbe9a22eda63dd494df3c4f40c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 27/53] fix: restrict the sign of a quotient to 0 and 1

---
 circuits/src/cpu/div.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/cpu/div.rs b/circuits/src/cpu/div.rs
index 65a5468..b568f1d 100644
--- a/circuits/src/cpu/div.rs
+++ b/circuits/src/cpu/div.rs
@@ -50,6 +50,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     );
 
     // We also need to make sure quotient_sign and remainder_sign are set correctly.
+    cb.always(quotient_sign.is_binary());
     cb.always(remainder_sign.is_binary());
     cb.always(dividend_sign.is_binary());
 
-- 
2.43.0


From dfb576101b94e94c9bef3f80bf8a27efb868176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 28/53] fix: take an instruction's signedness from the program

---
 circuits/src/cpu/columns.rs           | 8 ++++----
 circuits/src/cpu/signed_comparison.rs | 5 +++++
 circuits/src/ops/add/mod.rs           | 6 +++---
 circuits/src/ops/blt_taken/mod.rs     | 6 +++---
 circuits/src/program/columns.rs       | 7 ++++---
 5 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 0116aee..0a2d3ff 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -439,18 +439,18 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             // Combine columns into a single column.
             // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within 5
             //   bits.
-            // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+            // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each, and
+            //   are combined into 3 bits.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
             // - imm_value: This field requires 32 bits.
-            // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
+            // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than the
             // size of the Goldilocks field.
             // Note: The imm_value field, having more than 5 bits, must be positioned as the last
             // column in the list to ensure the correct functioning of 'reduce_with_powers'.
             inst_data: ColumnWithTypedInput::reduce_with_powers(
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
-                    inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op1_signed + inst.is_op2_signed * 2 + inst.is_dst_signed * 4,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
diff --git a/circuits/src/cpu/signed_comparison.rs b/circuits/src/cpu/signed_comparison.rs
index 6c4130b..921f0c7 100644
--- a/circuits/src/cpu/signed_comparison.rs
+++ b/circuits/src/cpu/signed_comparison.rs
@@ -27,6 +27,11 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    // The program's ROM holds the three flags combined in one number.
+    cb.always(lv.inst.is_op1_signed.is_binary());
+    cb.always(lv.inst.is_op2_signed.is_binary());
+    cb.always(lv.inst.is_dst_signed.is_binary());
+
     cb.always(lv.op1_sign_bit.is_binary());
     cb.always(lv.op2_sign_bit.is_binary());
 
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 2d9a71c..7f60e4d 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -110,10 +110,11 @@ pub mod columns {
                 // Combine columns into a single column.
                 // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within
                 //   5 bits.
-                // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+                // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each,
+                //   and are combined into 3 bits.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
                 // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
+                // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than
                 // the size of the Goldilocks field.
                 // Note: The imm_value field, having more than 5 bits, must be positioned as the
                 // last column in the list to ensure the correct functioning of
@@ -125,7 +126,6 @@ pub mod columns {
                         // TODO: use a struct here to name the components, and make IntoIterator,
                         // like we do with our stark tables.
                         ColumnWithTypedInput::constant(0),
-                        ColumnWithTypedInput::constant(0),
                         inst.rs1_selected,
                         inst.rs2_selected,
                         inst.rd_selected,
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 1b931a0..2127dd9 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -102,10 +102,11 @@ pub mod columns {
                 // Combine columns into a single column.
                 // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within
                 //   5 bits.
-                // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+                // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each,
+                //   and are combined into 3 bits.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
                 // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
+                // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than
                 // the size of the Goldilocks field.
                 // Note: The imm_value field, having more than 5 bits, must be positioned as the
                 // last column in the list to ensure the correct functioning of
@@ -117,7 +118,6 @@ pub mod columns {
                         // TODO: use a struct here to name the components, and make IntoIterator,
                         // like we do with our stark tables.
                         ColumnWithTypedInput::constant(0),
-                        ColumnWithTypedInput::constant(0),
                         inst.rs1_selected,
                         inst.rs2_selected,
                         ColumnWithTypedInput::constant(0),
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..8e69d20 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -19,7 +19,7 @@ pub struct ProgramRom<T> {
     pub pc: T,
     /// `inst_data` include:
     /// - ops: This is an internal opcode, not the opcode from RISC-V
-    /// - `is_op1_signed` and `is_op2_signed`
+    /// - `is_op1_signed`, `is_op2_signed` and `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
     /// - `imm_value`
     pub inst_data: T,
@@ -41,8 +41,9 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
             inst_data: reduce_with_powers(
                 [
                     ascending_sum(inst.ops),
-                    inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op1_signed
+                        + inst.is_op2_signed * F::TWO
+                        + inst.is_dst_signed * F::from_canonical_u8(4),
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-- 
2.43.0


From 98aa43bc9373c5cd094b296d9e7536fca4b84807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 29/53] fix: take the sign of a loaded byte or half word from
 its value

---
 circuits/src/cpu/columns.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 0a2d3ff..b200911 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -321,8 +321,17 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // The sign bit of a loaded byte or half word is that of its value, scaled up to 32 bits.
+        (
+            CPU.mem_value_raw * (1 << 24) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lb,
+        ),
+        (
+            CPU.mem_value_raw * (1 << 16) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
-- 
2.43.0


From f5f0794856d26fceddbde99400034682a58a5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 30/53] fix: prove jumps to odd targets

---
 circuits/src/cpu/columns.rs    | 3 +++
 circuits/src/cpu/generation.rs | 3 +++
 circuits/src/cpu/jalr.rs       | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index b200911..494e657 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -242,6 +242,9 @@ pub struct CpuState<T> {
     pub io_addr: T,
     pub io_size: T,
 
+    /// Least significant bit of the sum that JALR jumps to. It is cleared.
+    pub jump_target_lsb: T,
+
     pub ecall_selectors: EcallSelectors<T>,
 }
 pub(crate) const CPU: &CpuState<ColumnWithTypedInput<CpuState<i64>>> = &COL_MAP;
diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index c44749b..43ae62c 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -105,6 +105,9 @@ pub fn generate_cpu_trace<F: RichField>(record: &ExecutionRecord<F>) -> Vec<CpuS
             mem_value_raw: from_u32(aux.mem.unwrap_or_default().raw_value),
             io_addr: F::from_canonical_u32(io.addr),
             io_size: F::from_canonical_usize(io.data.len()),
+            jump_target_lsb: F::from_bool(
+                inst.op == Op::JALR && aux.op1.wrapping_add(aux.op2) & 1 == 1,
+            ),
             ecall_selectors: EcallSelectors {
                 is_poseidon2: F::from_bool(aux.poseidon2.is_some()),
                 is_private_tape: F::from_bool(matches!(
diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index e2dcc41..cbf9b02 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -22,7 +22,10 @@ pub(crate) fn constraints<'a, P: Copy>(
         lv.inst.ops.jalr * (destination - return_address) * (destination - wrapped_return_address),
     );
 
-    let jump_target = lv.op1_value + lv.op2_value;
+    // JALR clears the least significant bit of its target. As the program has
+    // instructions at even addresses only, this makes the choice deterministic.
+    cb.always(lv.jump_target_lsb.is_binary());
+    let jump_target = lv.op1_value + lv.op2_value - lv.jump_target_lsb;
     let wrapped_jump_target = jump_target - (1 << 32);
     let new_pc = lv.new_pc;
 
-- 
2.43.0


From 4a6c4e55ad82cc17a28a0c257a12b57a99558f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 31/53] fix: prove programs that log a trace message

---
 circuits/src/cpu/columns.rs    | 1 +
 circuits/src/cpu/ecall.rs      | 1 +
 circuits/src/cpu/generation.rs | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 494e657..bc1264b 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -162,6 +162,7 @@ pub struct EcallSelectors<T> {
     pub is_halt: T,
     pub is_poseidon2: T,
     pub is_self_prog_id_tape: T,
+    pub is_vm_trace_log: T,
 }
 
 make_col_map!(CpuState);
diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index d319c90..7e3d954 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -23,6 +23,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     cb.always(
         (lv.inst.ops.ecall - lv.ecall_selectors.is_halt) * (lv.new_pc - (lv.inst.pc + 4)),
     );
+    cb.always(lv.ecall_selectors.is_vm_trace_log * (lv.op1_value - i64::from(ecall::VM_TRACE_LOG)));
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 43ae62c..bb60329 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -138,6 +138,10 @@ pub fn generate_cpu_trace<F: RichField>(record: &ExecutionRecord<F>) -> Vec<CpuS
                     (inst.op, io.op),
                     (Op::ECALL, StorageDeviceOpcode::StoreSelfProgIdTape)
                 )),
+                is_vm_trace_log: F::from_bool(matches!(
+                    (inst.op, state.registers[usize::from(REG_A0)]),
+                    (Op::ECALL, ecall::VM_TRACE_LOG)
+                )),
                 is_halt: F::from_bool(matches!(
                     (inst.op, state.registers[usize::from(REG_A0)]),
                     (Op::ECALL, ecall::HALT)
-- 
2.43.0


From 1ea4a558e03ef3510afabcba27a7fa973d75f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 32/53] fix: prove hashes of buffers at the end of the address
 space

---
 circuits/src/poseidon2_sponge/generation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/src/poseidon2_sponge/generation.rs b/circuits/src/poseidon2_sponge/generation.rs
index 2f97532..51a5df0 100644
--- a/circuits/src/poseidon2_sponge/generation.rs
+++ b/circuits/src/poseidon2_sponge/generation.rs
@@ -40,7 +40,8 @@ fn unroll_sponge_data<F: RichField>(row: &Row<F>) -> Vec<Poseidon2Sponge<F>> {
             output: sponge_datum.output,
             gen_output: sponge_datum.gen_output,
         });
-        input_addr += rate_size;
+        // A buffer may end where the address space does.
+        input_addr = input_addr.wrapping_add(rate_size);
         input_len -= rate_size;
     }
 
-- 
2.43.0


From 11d2ecdc0306eb9a1f4a087abef365f6a09b971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 33/53] fix: prove a tape read that follows an empty one

The constraint took the row after an empty read for its first byte. What it
is there for (a first byte that others follow is marked so) holds for all
memory rows since rows are bound to their call.
---
 circuits/src/storage_device/stark.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index c7d2c68..973efe4 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -81,10 +81,6 @@ fn generate_constraints<'a, T: Copy>(
     //  1) is_binary(storage_device or memory)
     //  2) if nv.is_storage_device() == 1: lv.size == 0
 
-    // If lv.is_storage_device() == 1 && nv.size != 0:
-    //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
-
     constraints
 }
 
-- 
2.43.0


From 317078dc0e4ce5f15a3e941d03cc2e0fb1216147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 34/53] fix: range check the immediate of an instruction

---
 circuits/src/cpu/columns.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index bc1264b..4e566b4 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -314,6 +314,9 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
+        // The lookup of an instruction packs all its parts into one value: out of range, an
+        // immediate could make up for any other part.
+        (CPU.inst.imm_value, CPU.is_running()),
         // apply range constraints for the sign bits of each operand
         // TODO(Matthias): these are a bit suspicious, because the filter also appears in the data.
         // Carefully review!
-- 
2.43.0


From 0bd9567fa7611f82231ac7dd1ccc8ef09101b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 35/53] fix: look up an instruction's immediate in a column of
 its own

Packed with the other parts and unbounded, an immediate could make up for
any of them. This replaces the range check of the previous commit.
---
 circuits/src/cpu/columns.rs       | 13 ++++---------
 circuits/src/ops/add/mod.rs       | 11 ++++-------
 circuits/src/ops/blt_taken/mod.rs | 11 ++++-------
 circuits/src/program/columns.rs   |  4 ++--
 4 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 4e566b4..db86a50 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -314,9 +314,6 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
-        // The lookup of an instruction packs all its parts into one value: out of range, an
-        // immediate could make up for any other part.
-        (CPU.inst.imm_value, CPU.is_running()),
         // apply range constraints for the sign bits of each operand
         // TODO(Matthias): these are a bit suspicious, because the filter also appears in the data.
         // Carefully review!
@@ -458,11 +455,7 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each, and
             //   are combined into 3 bits.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-            // - imm_value: This field requires 32 bits.
-            // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than the
-            // size of the Goldilocks field.
-            // Note: The imm_value field, having more than 5 bits, must be positioned as the last
-            // column in the list to ensure the correct functioning of 'reduce_with_powers'.
+            // The total bit requirement is 5 * 5 = 25 bits.
             inst_data: ColumnWithTypedInput::reduce_with_powers(
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
@@ -470,10 +463,12 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-                    inst.imm_value,
                 ],
                 1 << 5,
             ),
+            // Nothing else bounds the immediate here, so it cannot share a column: out of range,
+            // it could make up for any other part.
+            imm_value: inst.imm_value,
         },
         CPU.is_running(),
     )
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 7f60e4d..d58c827 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -113,12 +113,7 @@ pub mod columns {
                 // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each,
                 //   and are combined into 3 bits.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
+                // The total bit requirement is 5 * 5 = 25 bits.
                 inst_data: ColumnWithTypedInput::reduce_with_powers(
                     [
                         // TODO: don't hard-code ADD like this.
@@ -129,10 +124,12 @@ pub mod columns {
                         inst.rs1_selected,
                         inst.rs2_selected,
                         inst.rd_selected,
-                        inst.imm_value,
                     ],
                     1 << 5,
                 ),
+                // Nothing else bounds the immediate here, so it cannot share a column: out of range,
+                // it could make up for any other part.
+                imm_value: inst.imm_value,
             },
             ADD.is_running,
         )
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 2127dd9..c5efb0e 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -105,12 +105,7 @@ pub mod columns {
                 // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each,
                 //   and are combined into 3 bits.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
-                // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than
-                // the size of the Goldilocks field.
-                // Note: The imm_value field, having more than 5 bits, must be positioned as the
-                // last column in the list to ensure the correct functioning of
-                // 'reduce_with_powers'.
+                // The total bit requirement is 5 * 5 = 25 bits.
                 inst_data: ColumnWithTypedInput::reduce_with_powers(
                     [
                         // TODO: don't hard-code BLTU like this.
@@ -121,10 +116,12 @@ pub mod columns {
                         inst.rs1_selected,
                         inst.rs2_selected,
                         ColumnWithTypedInput::constant(0),
-                        inst.imm_value,
                     ],
                     1 << 5,
                 ),
+                // Nothing else bounds the immediate here, so it cannot share a column: out of range,
+                // it could make up for any other part.
+                imm_value: inst.imm_value,
             },
             COL_MAP.is_running,
         )
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 8e69d20..fe9f3d7 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -21,8 +21,8 @@ pub struct ProgramRom<T> {
     /// - ops: This is an internal opcode, not the opcode from RISC-V
     /// - `is_op1_signed`, `is_op2_signed` and `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
-    /// - `imm_value`
     pub inst_data: T,
+    pub imm_value: T,
 }
 
 impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
@@ -47,10 +47,10 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-                    inst.imm_value,
                 ],
                 1 << 5,
             ),
+            imm_value: inst.imm_value,
         }
     }
 }
-- 
2.43.0


From 161f23cefe742fdbcb66f4d11c0f8e3c5f322999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:59 +0000
Subject: [PATCH 36/53] fix: accept only the canonical bytes of a Poseidon2
 digest

---
 circuits/src/poseidon2_output_bytes/columns.rs | 10 ++++++++++
 circuits/src/poseidon2_output_bytes/stark.rs   | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/circuits/src/poseidon2_output_bytes/columns.rs b/circuits/src/poseidon2_output_bytes/columns.rs
index e9c4e9a..6ff02c3 100644
--- a/circuits/src/poseidon2_output_bytes/columns.rs
+++ b/circuits/src/poseidon2_output_bytes/columns.rs
@@ -22,6 +22,9 @@ pub struct Poseidon2OutputBytes<F> {
     pub output_addr: F,
     pub output_fields: [F; FIELDS_COUNT],
     pub output_bytes: [F; BYTES_COUNT],
+    /// For each field, the inverse of `u32::MAX` minus its upper four bytes, if
+    /// any.
+    pub upper_inv: [F; FIELDS_COUNT],
 }
 
 pub const NUM_POSEIDON2_OUTPUT_BYTES_COLS: usize = Poseidon2OutputBytes::<()>::NUMBER_OF_COLUMNS;
@@ -39,12 +42,19 @@ impl<F: RichField> From<&Poseidon2Sponge<F>> for Vec<Poseidon2OutputBytes<F>> {
                 .collect::<Vec<F>>()
                 .try_into()
                 .expect("must have 32 bytes");
+            let upper_inv = output_fields.map(|x| {
+                let upper = F::from_canonical_u64(x.to_canonical_u64() >> 32);
+                (F::from_canonical_u32(u32::MAX) - upper)
+                    .try_inverse()
+                    .unwrap_or_default()
+            });
             return vec![Poseidon2OutputBytes {
                 is_executed: F::ONE,
                 clk: value.clk,
                 output_addr: value.output_addr,
                 output_fields,
                 output_bytes,
+                upper_inv,
             }];
         }
         vec![]
diff --git a/circuits/src/poseidon2_output_bytes/stark.rs b/circuits/src/poseidon2_output_bytes/stark.rs
index b3ba8d4..a9f2119 100644
--- a/circuits/src/poseidon2_output_bytes/stark.rs
+++ b/circuits/src/poseidon2_output_bytes/stark.rs
@@ -46,6 +46,17 @@ fn generate_constraints<'a, T: Copy>(
                 256,
             ) - lv.output_fields[i],
         );
+        // The bytes of a number from the modulus on stand for a field, too. The modulus
+        // is `u32::MAX` times 2^32 plus 1, so we only accept an upper half of
+        // `u32::MAX` with a lower half of 0.
+        let half = |from: usize| {
+            Expr::reduce_with_powers::<Vec<Expr<'a, T>>>(
+                lv.output_bytes[from..from + 4].into(),
+                256,
+            )
+        };
+        let (lower, upper) = (half(start_index), half(start_index + 4));
+        constraints.always(lower * ((i64::from(u32::MAX) - upper) * lv.upper_inv[i] - 1));
     }
 
     constraints
-- 
2.43.0


From 9e98f39950eeb78228ceaf44dc5ca033af83d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 37/53] fix: a row of the add table is there once or not at all

---
 circuits/src/ops/add/stark.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/src/ops/add/stark.rs b/circuits/src/ops/add/stark.rs
index f4a19e9..e1ebcf3 100644
--- a/circuits/src/ops/add/stark.rs
+++ b/circuits/src/ops/add/stark.rs
@@ -34,6 +34,9 @@ fn generate_constraints<'a, T: Copy, U>(
     let lv = vars.local_values;
     let mut constraints = ConstraintBuilder::default();
 
+    // Otherwise rows of a step could cancel each other in our lookups.
+    constraints.always(lv.is_running.is_binary());
+
     let added = lv.op1_value + lv.op2_value + lv.inst.imm_value;
     let wrapped = added - (1 << 32);
 
-- 
2.43.0


From 7ab804c017d62d6a70070e816b7690b60cf0eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 38/53] fix: a row of the BLTU table is there once or not at
 all

---
 circuits/src/ops/blt_taken/stark.rs | 78 +++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 4 deletions(-)

diff --git a/circuits/src/ops/blt_taken/stark.rs b/circuits/src/ops/blt_taken/stark.rs
index 15f6b8e..1833cc8 100644
--- a/circuits/src/ops/blt_taken/stark.rs
+++ b/circuits/src/ops/blt_taken/stark.rs
@@ -1,7 +1,77 @@
+use std::marker::PhantomData;
+
+use expr::{Expr, ExprBuilder, StarkFrameTyped};
+use mozak_circuits_derive::StarkNameDisplay;
+use plonky2::field::extension::{Extendable, FieldExtension};
+use plonky2::field::packed::PackedField;
+use plonky2::hash::hash_types::RichField;
+use plonky2::iop::ext_target::ExtensionTarget;
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use starky::constraint_consumer::{ConstraintConsumer, RecursiveConstraintConsumer};
+use starky::evaluation_frame::StarkFrame;
+use starky::stark::Stark;
+
 use super::columns::BltTaken;
-use crate::columns_view::NumberOfColumns;
-use crate::unstark::Unstark;
+use crate::columns_view::{HasNamedColumns, NumberOfColumns};
+use crate::expr::{build_ext, build_packed, ConstraintBuilder};
 
+#[derive(Copy, Clone, Default, StarkNameDisplay)]
 #[allow(clippy::module_name_repetitions)]
-pub type BltTakenStark<F, const D: usize> =
-    Unstark<F, D, BltTaken<F>, { BltTaken::<()>::NUMBER_OF_COLUMNS }>;
+pub struct BltTakenStark<F, const D: usize> {
+    pub _f: PhantomData<F>,
+}
+
+impl<F, const D: usize> HasNamedColumns for BltTakenStark<F, D> {
+    type Columns = BltTaken<F>;
+}
+
+const COLUMNS: usize = BltTaken::<()>::NUMBER_OF_COLUMNS;
+const PUBLIC_INPUTS: usize = 0;
+
+fn generate_constraints<'a, T: Copy, U>(
+    vars: &StarkFrameTyped<BltTaken<Expr<'a, T>>, Vec<U>>,
+) -> ConstraintBuilder<Expr<'a, T>> {
+    let lv = vars.local_values;
+    let mut constraints = ConstraintBuilder::default();
+
+    // Otherwise rows of a step could cancel each other in our lookups.
+    constraints.always(lv.is_running.is_binary());
+
+    constraints
+}
+
+impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for BltTakenStark<F, D> {
+    type EvaluationFrame<FE, P, const D2: usize> = StarkFrame<P, P::Scalar, COLUMNS, PUBLIC_INPUTS>
+
+  where
+      FE: FieldExtension<D2, BaseField = F>,
+      P: PackedField<Scalar = FE>;
+    type EvaluationFrameTarget =
+        StarkFrame<ExtensionTarget<D>, ExtensionTarget<D>, COLUMNS, PUBLIC_INPUTS>;
+
+    fn eval_packed_generic<FE, P, const D2: usize>(
+        &self,
+        vars: &Self::EvaluationFrame<FE, P, D2>,
+        constraint_consumer: &mut ConstraintConsumer<P>,
+    ) where
+        FE: FieldExtension<D2, BaseField = F>,
+        P: PackedField<Scalar = FE>, {
+        let expr_builder = ExprBuilder::default();
+        let vars = expr_builder.to_typed_starkframe(vars);
+        let constraints = generate_constraints(&vars);
+        build_packed(constraints, constraint_consumer);
+    }
+
+    fn eval_ext_circuit(
+        &self,
+        circuit_builder: &mut CircuitBuilder<F, D>,
+        vars: &Self::EvaluationFrameTarget,
+        constraint_consumer: &mut RecursiveConstraintConsumer<F, D>,
+    ) {
+        let expr_builder = ExprBuilder::default();
+        let constraints = generate_constraints(&expr_builder.to_typed_starkframe(vars));
+        build_ext(constraints, circuit_builder, constraint_consumer);
+    }
+
+    fn constraint_degree(&self) -> usize { 3 }
+}
-- 
2.43.0


From ba6f13f41a28bf7bc148395777507a52f0830282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 39/53] fix: a tape read from the last row on stores at its
 address, too

---
 circuits/src/storage_device/stark.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 973efe4..ce9a7ce 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -73,7 +73,8 @@ fn generate_constraints<'a, T: Copy>(
     // If lv.is_storage_device() == 1 && lv.size != 0:
     //      lv.addr == nv.addr       <-- next row address must be the same !!!
     //      lv.size === nv.size - 1  <-- next row size is decreased
-    constraints.transition(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));
+    // (That goes for the last row, too, as the first row continues it like any other.)
+    constraints.always(lv.ops.is_storage_device * lv.size * (nv.addr - lv.addr));
     constraints.transition(lv.ops.is_storage_device * lv.size * (nv.size - (lv.size - 1)));
     // If lv.is_storage_device() == 1 && lv.size == 0:
     //      nv.is_memory() == 0 <-- next op can be only io - since size == 0
-- 
2.43.0


From 738a4271601cbd3360f828cd138eb837c2ed47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 40/53] fix: hold writes to the object's owner and ensures to
 its new data

A match only compared the owner with the events' when ownership changed
hands, so a program could write to an object that it does not own, and it
only compared the new data when there was a write, so an Ensure of any
value was accepted.
---
 recproofs/src/circuits/match_delta.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..cc94701 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -180,6 +180,8 @@ where
         builder.connect(compare_delta_targets.object_flags, acc_flags);
         let acc_flags = SplitFlags::split(&mut builder, acc_flags);
         let has_owner = builder.is_nonzero(acc_flags.owner);
+        let has_old_owner = builder.or(acc_flags.write, has_owner);
+        let has_new_data = builder.is_nonzero(acc_flags.new_data);
         // old owner
         {
             let acc_old_owner = accumulate_event_circuit
@@ -190,7 +192,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
@@ -232,7 +234,7 @@ where
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From 650da285a9ba6dd655fcb6ec07078990bda765a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:19 +0000
Subject: [PATCH 41/53] fix: hold the owner of an object for changes of its
 credits, too

---
 .../src/circuits/accumulate_delta/core.rs     | 41 +++++++++++++++----
 recproofs/src/circuits/match_delta.rs         | 12 +++---
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta/core.rs b/recproofs/src/circuits/accumulate_delta/core.rs
index d1d4a3d..e083dd3 100644
--- a/recproofs/src/circuits/accumulate_delta/core.rs
+++ b/recproofs/src/circuits/accumulate_delta/core.rs
@@ -463,6 +463,10 @@ impl SubCircuitInputs {
         let right_has_owner = builder.is_nonzero(right_flags.owner);
         let left_has_old_owner = builder.or(left_flags.write, left_has_owner);
         let right_has_old_owner = builder.or(right_flags.write, right_has_owner);
+        let left_has_credits = builder.is_nonzero(left.credit_delta);
+        let right_has_credits = builder.is_nonzero(right.credit_delta);
+        let left_has_old_owner = builder.or(left_has_old_owner, left_has_credits);
+        let right_has_old_owner = builder.or(right_has_old_owner, right_has_credits);
 
         // Enforce restrictions on all the object fields
         maybe_connect(builder, self.old_owner, left_has_old_owner, left.old_owner);
@@ -566,7 +570,23 @@ fn merge_branch_helper<F: RichField, W>(
     flags: impl Into<BitFlags<EventFlags>>,
 ) -> [F; 4] {
     let flags = flags.into();
-    match (l_flags.intersects(flags), r_flags.intersects(flags)) {
+    merge_present_helper(
+        l,
+        l_flags.intersects(flags),
+        r,
+        r_flags.intersects(flags),
+        f,
+    )
+}
+
+fn merge_present_helper<F: RichField, W>(
+    l: W,
+    l_present: bool,
+    r: W,
+    r_present: bool,
+    f: impl Fn(W) -> [F; 4],
+) -> [F; 4] {
+    match (l_present, r_present) {
         (false, false) => [F::ZERO; 4],
         (true, false) => f(l),
         (false, true) => f(r),
@@ -592,7 +612,13 @@ impl<F: RichField> BranchWitnessValue<F> {
         Self {
             address: left.address,
             object_flags: left.object_flags | right.object_flags,
-            old_owner: merge_branch(&left, &right, |c| c.old_owner, old_owner),
+            old_owner: merge_present_helper(
+                &left,
+                left.object_flags.intersects(old_owner) || left.credit_delta != 0,
+                &right,
+                right.object_flags.intersects(old_owner) || right.credit_delta != 0,
+                |c| c.old_owner,
+            ),
             new_owner: merge_branch(&left, &right, |c| c.new_owner, new_owner),
             old_data: merge_branch(&left, &right, |c| c.old_data, old_data),
             new_data: merge_branch(&left, &right, |c| c.new_data, new_data),
@@ -690,13 +716,14 @@ impl BranchSubCircuit {
         let new_data = EventFlags::WriteFlag | EventFlags::EnsureFlag;
 
         // Get the object fields based on the flags
-        let old_owner = merge_branch_helper(
+        let left_credits = indices.credit_delta.get_field(left_inputs);
+        let right_credits = indices.credit_delta.get_field(right_inputs);
+        let old_owner = merge_present_helper(
             left_inputs,
-            left_flags,
+            left_flags.intersects(old_owner) || left_credits.is_nonzero(),
             right_inputs,
-            right_flags,
+            right_flags.intersects(old_owner) || right_credits.is_nonzero(),
             |inputs| indices.old_owner.get_field(inputs),
-            old_owner,
         );
         let new_owner = merge_branch_helper(
             left_inputs,
@@ -730,8 +757,6 @@ impl BranchSubCircuit {
         witness.set_target_arr(&targets.new_data, &new_data);
 
         // Handle the credits
-        let left_credits = indices.credit_delta.get_field(left_inputs);
-        let right_credits = indices.credit_delta.get_field(right_inputs);
         let credits = left_credits + right_credits;
         witness.set_target(targets.credit_delta, credits);
 
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index cc94701..36dbdfc 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -181,6 +181,13 @@ where
         let acc_flags = SplitFlags::split(&mut builder, acc_flags);
         let has_owner = builder.is_nonzero(acc_flags.owner);
         let has_old_owner = builder.or(acc_flags.write, has_owner);
+        let acc_credit_delta = accumulate_event_circuit
+            .partial_state
+            .indices
+            .credit_delta
+            .get_target(&targets.accumulate_event.public_inputs);
+        let has_credits = builder.is_nonzero(acc_credit_delta);
+        let has_old_owner = builder.or(has_old_owner, has_credits);
         let has_new_data = builder.is_nonzero(acc_flags.new_data);
         // old owner
         {
@@ -240,11 +247,6 @@ where
         }
         // credit delta
         {
-            let acc_credit_delta = accumulate_event_circuit
-                .partial_state
-                .indices
-                .credit_delta
-                .get_target(&targets.accumulate_event.public_inputs);
             let calc_credit_delta = builder.sub(
                 compare_delta_targets.new_credits,
                 compare_delta_targets.old_credits,
-- 
2.43.0


From b897b252af82d2229e559b30842108990bb342ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:23 +0000
Subject: [PATCH 42/53] Let a verification build read the proof of the state
 tree

---
 node/src/block_proposer/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..bef37d1 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -600,6 +600,13 @@ impl<'a> State<'a> {
     }
 }
 
+#[cfg(mozak_verif)]
+impl<'a> State<'a> {
+    /// The proof of what became of the whole tree since it was finalized.
+    #[must_use]
+    pub fn root_proof(&self) -> &BranchProof { &self.root.proof }
+}
+
 #[cfg(test)]
 pub mod test {
     use super::{AuxStateData, BranchProof, Operation, State};
-- 
2.43.0


From 5fa05be26a0f5710c8943980672b69a2c0b5cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:33 +0000
Subject: [PATCH 43/53] fix: a branch that lost a child is proved anew when the
 block is finalized

---
 node/src/block_proposer/state.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index bef37d1..83b15f8 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -465,7 +465,11 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        let outcome = self.finalize_branch(root, BranchAddress::root(root.height));
+        // The root always remains, even if it no longer has any children
+        if let FinalizeOutcome::Prune = outcome {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -473,13 +477,17 @@ impl AuxStateData {
         branch: &mut SparseMerkleBranch,
         addr: BranchAddress,
     ) -> FinalizeOutcome {
+        let mut pruned = false;
+
         let left_outcome = if let Some(mut left) = branch.left.take() {
             let outcome = match (&mut *left, addr.child(Dir::Left)) {
                 (SparseMerkleNode::Branch(branch), Ok(addr)) => self.finalize_branch(branch, addr),
                 (SparseMerkleNode::Leaf(leaf), Err(addr)) => self.finalize_leaf(leaf, addr),
                 (_, _) => unreachable!("bad address or tree"),
             };
-            if !matches!(outcome, FinalizeOutcome::Prune) {
+            if matches!(outcome, FinalizeOutcome::Prune) {
+                pruned = true;
+            } else {
                 branch.left = Some(left);
             }
             outcome
@@ -493,7 +501,9 @@ impl AuxStateData {
                 (SparseMerkleNode::Leaf(leaf), Err(addr)) => self.finalize_leaf(leaf, addr),
                 (_, _) => unreachable!("bad address or tree"),
             };
-            if !matches!(outcome, FinalizeOutcome::Prune) {
+            if matches!(outcome, FinalizeOutcome::Prune) {
+                pruned = true;
+            } else {
                 branch.right = Some(right);
             }
             outcome
@@ -501,7 +511,11 @@ impl AuxStateData {
             FinalizeOutcome::Prune
         };
 
-        let outcome = left_outcome + right_outcome;
+        let outcome = match left_outcome + right_outcome {
+            // This branch remains, but its proof is still about the child it lost
+            FinalizeOutcome::NoOp if pruned => FinalizeOutcome::Recalc,
+            outcome => outcome,
+        };
 
         if let FinalizeOutcome::Recalc = outcome {
             self.recalc_branch_helper(branch);
-- 
2.43.0


From eccc0acb5d3a9cd3fa74e7ca3e34b223f71bb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 44/53] fix: let branch addresses reach the root of all 64 bits

---
 node/src/block_proposer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..35d4c7d 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -109,6 +109,15 @@ where
     }
 }
 
+/// The top bits of `addr`, once the bottom `n` are removed. The root is all of
+/// the bits above the leaves, so there `n` may be the number of bits.
+fn remove_bottom_bits(addr: u64, n: usize) -> u64 {
+    u32::try_from(n)
+        .ok()
+        .and_then(|n| addr.checked_shr(n))
+        .unwrap_or(0)
+}
+
 /// A partial address which is constructed starting at the root and moving
 /// downward, adding on one bit at a time based on a provided direction
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -182,7 +191,7 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        self.addr.0 = remove_bottom_bits(self.addr.0, n);
         self.height += n;
         self
     }
@@ -220,7 +229,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = remove_bottom_bits(child.addr.0, delta);
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,7 +238,7 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
+        let addr = Address(child.addr.0 & (u64::MAX >> (u64::BITS as usize - delta)));
         match (addr.next(delta - 1).1, lhs_is_parent) {
             (Dir::Left, true) => BranchAddressComparison::LeftChild,
             (Dir::Right, true) => BranchAddressComparison::RightChild,
-- 
2.43.0


From 2fda04471c8b14c37656a8f4f11a222490becad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 45/53] fix: a path of no bits is none

---
 node/src/block_proposer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 35d4c7d..a4fee48 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -74,7 +74,7 @@ where
         + BitAndAssign,
 {
     pub fn path(addr: T, bits: usize) -> Option<Self> {
-        (bits != 0).then_some(Self {
+        (bits != 0).then(|| Self {
             height: bits - 1,
             addr,
         })
-- 
2.43.0


From 5092ae1c2fc2acf8c9b01f5eb59a2a078ab0a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:51 +0000
Subject: [PATCH 46/53] fix: take the programs of a cast of any size

---
 node/src/block_proposer/transactions.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..0335039 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -539,6 +539,27 @@ enum ProcessedTx {
     },
 }
 
+/// The path to the `index`-th of `len` items in a tree built by `reduce_tree`.
+///
+/// The left side of every branch there holds a power of two of items, as many
+/// as leave something for the right side.
+fn cast_path(mut index: usize, mut len: usize) -> Option<AddressPath<usize>> {
+    let (mut addr, mut bits) = (0, 0);
+    while len > 1 {
+        let left = 1 << (len - 1).ilog2();
+        addr <<= 1;
+        bits += 1;
+        if index < left {
+            len = left;
+        } else {
+            addr |= 1;
+            index -= left;
+            len -= left;
+        }
+    }
+    AddressPath::path(addr, bits)
+}
+
 impl<'a> TransactionAccumulator<'a> {
     /// Create an empty accumulator
     #[must_use]
@@ -691,10 +712,9 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_path(cast_index, cast_list.len()),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From ff132c3e9c7ef8c9606317ff8cedf14d1a9cb2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 47/53] fix: merge several events of an object with those of
 another program

---
 node/src/block_proposer.rs              |  3 +++
 node/src/block_proposer/transactions.rs | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index a4fee48..013d8c5 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -155,6 +155,9 @@ impl BranchAddress {
         }
     }
 
+    /// Whether this is the address of a leaf
+    fn is_leaf(self) -> bool { self.height == 0 }
+
     /// Find the common ancestor between `self` and `rhs`
     #[must_use]
     pub fn common_ancestor(mut self, mut rhs: Self) -> Self {
diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 0335039..c676015 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -303,23 +303,29 @@ impl AuxTransactionData {
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
-            // LHS-Leaf equal to RHS-Leaf
-            (left @ EventNode::Leaf { .. }, right @ EventNode::Leaf { .. }, Equal)
+            // LHS and RHS are about the same object, one of them a single event
+            (left @ EventNode::Leaf { .. }, right, Equal)
+            | (left, right @ EventNode::Leaf { .. }, Equal)
             // LHS to the left of RHS
             | (left, right, RightSibling | RightCousin) => {
                 let (proof, event) = self.simple_merge(left, right);
                 (Either::Left(Cow::Owned(proof)), event)
             }
+            // LHS and RHS are about the same object, both several events
+            (left, right, Equal) if left.address().is_leaf() => {
+                let (proof, event) = self.simple_merge(left, right);
+                (Either::Left(Cow::Owned(proof)), event)
+            }
 
             // Simple reverse merges
             // LHS to the right of RHS
-- 
2.43.0


From 0b47db19e2e1df1dc1a5474debebd9f24cc44bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:34 +0000
Subject: [PATCH 48/53] fix: match an object with when it was last updated
 before the block

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From 3cb9a4d840576b3f6159cc36916755cdc2f3ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:19 +0000
Subject: [PATCH 49/53] fix: match a program's events of an object in the shape
 of its event tree

A program's proof hashes its events of one object together as a balanced
tree, but they were matched one after the other, so a block with four of
them from one program could not be proved.
---
 node/src/block_proposer/matches.rs | 43 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index ee3eb95..003870e 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -10,7 +10,9 @@ use mozak_sdk::common::types::{CanonicalEvent, ProgramIdentifier};
 use plonky2::field::types::PrimeField64;
 use plonky2::plonk::circuit_data::CircuitConfig;
 
-use super::{convert_event, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey};
+use super::{
+    convert_event, reduce_tree, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey,
+};
 use crate::{C, D, F};
 
 type AccumulateLeafCircuit = accumulate_delta::LeafCircuit<F, C, D>;
@@ -88,32 +90,43 @@ impl<'a> Matches<'a> {
         id: &ProgramIdentifier,
         events: &[CanonicalEvent],
     ) {
-        let accum = self.ongoing_accum.entry(key).or_default();
-        for event in events {
-            use std::collections::hash_map::Entry;
+        let acc_leaf = &self.aux.accumulate_leaf_circuit;
+        let acc_branch = &self.aux.accumulate_branch_circuit;
 
+        // The events of each object, merged as they are in the event tree of the
+        // program
+        let mut program_events = HashMap::<_, Vec<_>>::new();
+        for event in events {
             let event = convert_event(id, event);
-            let proof = self
-                .aux
-                .accumulate_leaf_circuit
+            let proof = acc_leaf
                 .prove(
-                    &self.aux.accumulate_branch_circuit,
+                    acc_branch,
                     event.address,
                     event.owner,
                     event.ty,
                     event.value,
                 )
                 .unwrap();
-            match accum.events.entry(Address(event.address)) {
+            program_events
+                .entry(Address(event.address))
+                .or_default()
+                .push(Either::Left(proof));
+        }
+
+        let accum = self.ongoing_accum.entry(key).or_default();
+        for (address, proofs) in program_events {
+            use std::collections::hash_map::Entry;
+
+            let merge = |l: AccumulateProof, r: AccumulateProof| {
+                Either::Right(acc_branch.prove(&l, &r).unwrap())
+            };
+            let proof = reduce_tree(proofs, |x| x, |x| x, merge).unwrap();
+            match accum.events.entry(address) {
                 Entry::Vacant(v) => {
-                    v.insert(Either::Left(proof));
+                    v.insert(proof);
                 }
                 Entry::Occupied(mut o) => {
-                    let proof = self
-                        .aux
-                        .accumulate_branch_circuit
-                        .prove(o.get(), &proof)
-                        .unwrap();
+                    let proof = acc_branch.prove(o.get(), &proof).unwrap();
                     *o.get_mut() = Either::Right(proof);
                 }
             }
-- 
2.43.0


From 590a0e6830cc228ab8d216a897ee9dbb44ab1e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:25 +0000
Subject: [PATCH 50/53] fix: check the shape of the openings of every table of
 a batch proof

---
 circuits/src/stark/batch_verifier.rs | 10 +++++++++-
 circuits/src/stark/verifier.rs       | 28 ++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 182d048..2b75fa6 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -22,7 +22,9 @@ use crate::stark::batch_prover::{
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::proof::{BatchProof, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
-use crate::stark::verifier::{verify_quotient_polynomials, verify_stark_proof_with_challenges};
+use crate::stark::verifier::{
+    validate_openings_shape, verify_quotient_polynomials, verify_stark_proof_with_challenges,
+};
 
 #[allow(clippy::too_many_lines)]
 pub fn batch_verify_proof<F, C, const D: usize>(
@@ -143,6 +145,12 @@ where
         } else {
             // Verifying quotient polynomials of the batched stark proof (for all starks but
             // public starks). Batched FRI proof for the openings to be done later.
+            validate_openings_shape(
+                stark,
+                &all_proof.proofs[kind].openings,
+                config,
+                ctl_vars_per_table[kind].len(),
+            )?;
             verify_quotient_polynomials(
                 stark,
                 degree_bits[kind],
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 6aade2c..171239e 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -242,6 +242,26 @@ where
         opening_proof: _,
     } = proof;
 
+    let degree_bits = proof.recover_degree_bits(config);
+    let fri_params = config.fri_params(degree_bits);
+    let cap_height = fri_params.config.cap_height;
+
+    ensure!(trace_cap.height() == cap_height);
+    ensure!(ctl_zs_cap.height() == cap_height);
+    ensure!(quotient_polys_cap.height() == cap_height);
+
+    validate_openings_shape(stark, openings, config, num_ctl_zs)
+}
+
+pub(crate) fn validate_openings_shape<F, S, const D: usize>(
+    stark: &S,
+    openings: &StarkOpeningSet<F, D>,
+    config: &StarkConfig,
+    num_ctl_zs: usize,
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+    S: Stark<F, D>, {
     let StarkOpeningSet {
         local_values,
         next_values,
@@ -251,14 +271,6 @@ where
         quotient_polys,
     } = openings;
 
-    let degree_bits = proof.recover_degree_bits(config);
-    let fri_params = config.fri_params(degree_bits);
-    let cap_height = fri_params.config.cap_height;
-
-    ensure!(trace_cap.height() == cap_height);
-    ensure!(ctl_zs_cap.height() == cap_height);
-    ensure!(quotient_polys_cap.height() == cap_height);
-
     ensure!(local_values.len() == S::COLUMNS);
     ensure!(next_values.len() == S::COLUMNS);
     ensure!(ctl_zs.len() == num_ctl_zs);
-- 
2.43.0


From 79da3ae6e34e5dc5a05f8c491b0f139ac955a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:26 +0000
Subject: [PATCH 51/53] fix: check that a proof has the public values the
 verifier expects, and no others

---
 circuits/src/public_sub_table.rs     | 24 ++++++++++++++++++++++++
 circuits/src/stark/batch_verifier.rs |  8 +++++++-
 circuits/src/stark/verifier.rs       |  8 +++++++-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index 9d901a1..1a1a205 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -11,6 +11,7 @@
 //! CTL to `combine`, since the procedure is preceded by commitment to trace
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
+use anyhow::{ensure, Result};
 use itertools::{iproduct, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
@@ -142,6 +143,29 @@ pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
     )
 }
 
+/// Checks that there are values for every one of `public_sub_tables`, and for
+/// nothing else.
+///
+/// # Errors
+/// Errors if they are not.
+pub fn validate_public_sub_table_values_shape<F>(
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValues<F>>>,
+) -> Result<()> {
+    let mut values = public_sub_table_values.each_ref().map(|v| v.iter());
+    for public_sub_table in public_sub_tables {
+        let rows = values[public_sub_table.table.kind].next();
+        ensure!(
+            rows.is_some_and(|rows| rows.len() == public_sub_table.num_rows
+                && rows
+                    .iter()
+                    .all(|row| row.len() == public_sub_table.table.columns.len()))
+        );
+    }
+    ensure!(values.iter_mut().all(|values| values.next().is_none()));
+    Ok(())
+}
+
 /// For each `PublicSubTableValues`, returns the compressed value
 /// created according to each `challenge`
 #[must_use]
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 2b75fa6..881ffcf 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -15,7 +15,9 @@ use super::mozak_stark::{
     all_kind, all_starks, MozakStark, TableKind, TableKindArray, TableKindSetBuilder,
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+};
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
 };
@@ -111,6 +113,10 @@ where
         &ctl_challenges,
     );
 
+    validate_public_sub_table_values_shape(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
     let reduced_public_sub_tables_values =
         reduce_public_sub_tables_values(&all_proof.public_sub_table_values, &ctl_challenges);
 
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 171239e..e9f1981 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -17,7 +17,9 @@ use starky::stark::{LookupConfig, Stark};
 use super::mozak_stark::{all_starks, MozakStark, TableKind, TableKindSetBuilder};
 use super::proof::AllProof;
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+};
 use crate::stark::poly::eval_vanishing_poly;
 use crate::stark::proof::{AllProofChallenges, StarkOpeningSet, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
@@ -46,6 +48,10 @@ where
         &ctl_challenges,
     );
 
+    validate_public_sub_table_values_shape(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
     let reduced_public_sub_tables_values =
         reduce_public_sub_tables_values(&all_proof.public_sub_table_values, &ctl_challenges);
 
-- 
2.43.0


From 82f2dd6d900e67f695fdff2afdde024b36035f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:26 +0000
Subject: [PATCH 52/53] fix: bind the values a proof makes public to their
 order

---
 circuits/src/public_sub_table.rs         | 34 +++++++++++++++---------
 circuits/src/tape_commitments/columns.rs | 10 +++++--
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index 1a1a205..f19733d 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -12,7 +12,7 @@
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
 use anyhow::{ensure, Result};
-use itertools::{iproduct, Itertools};
+use itertools::{chain, iproduct, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
 use plonky2::field::types::Field;
@@ -28,6 +28,9 @@ use crate::stark::permutation::challenge::{GrandProductChallenge, GrandProductCh
 /// Specifies a Subtable with `table.columns` and `table.filter_column`
 /// which the prover wants to make public. We include `num_rows` since
 /// it cannot be computed from `table` alone.
+/// The last of `table.columns` numbers the rows of the Subtable, from 0 on: a
+/// sum does not remember the order of its terms. As the verifier knows these
+/// numbers, they are not part of the values made public.
 #[derive(Clone, Debug)]
 pub struct PublicSubTable {
     pub table: Table,
@@ -48,6 +51,9 @@ impl PublicSubTable {
             * num_challenges
     }
 
+    /// Number of values each row makes public
+    fn num_values(&self) -> usize { self.table.columns.len() - 1 }
+
     /// Get `PublicSubTableValues` corresponding to `self`
     #[must_use]
     pub fn get_values<F: Field>(
@@ -55,12 +61,9 @@ impl PublicSubTable {
         trace: &TableKindArray<Vec<PolynomialValues<F>>>,
     ) -> PublicSubTableValues<F> {
         let trace_table = &trace[self.table.kind];
-        let columns = self
-            .table
-            .columns
-            .clone()
-            .into_iter()
-            .map(|col| col.map(F::from_noncanonical_i64))
+        let columns = self.table.columns[..self.num_values()]
+            .iter()
+            .map(|col| col.clone().map(F::from_noncanonical_i64))
             .collect_vec();
         let filter = self
             .table
@@ -108,7 +111,7 @@ impl PublicSubTable {
     ) -> PublicSubTableValuesTarget {
         (0..self.num_rows)
             .map(|_| {
-                (0..self.table.columns.len())
+                (0..self.num_values())
                     .map(|_| builder.add_virtual_target())
                     .collect_vec()
             })
@@ -159,7 +162,7 @@ pub fn validate_public_sub_table_values_shape<F>(
             rows.is_some_and(|rows| rows.len() == public_sub_table.num_rows
                 && rows
                     .iter()
-                    .all(|row| row.len() == public_sub_table.table.columns.len()))
+                    .all(|row| row.len() == public_sub_table.num_values()))
         );
     }
     ensure!(values.iter_mut().all(|values| values.next().is_none()));
@@ -184,7 +187,11 @@ pub fn reduce_public_sub_tables_values<F: Field>(
                     .map(|sub_table| {
                         sub_table
                             .iter()
-                            .map(|row| challenge.combine(row).inverse())
+                            .enumerate()
+                            .map(|(i, row)| {
+                                let index = F::from_canonical_usize(i);
+                                challenge.combine(chain!(row, [&index])).inverse()
+                            })
                             .sum()
                     })
                     .collect_vec()
@@ -200,8 +207,11 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
 ) -> Target {
     let all_targets = targets
         .iter()
-        .map(|row| {
-            let mut combined = reduce_with_powers_circuit(builder, row, challenge.beta);
+        .enumerate()
+        .map(|(i, row)| {
+            let index = builder.constant(F::from_canonical_usize(i));
+            let row = chain!(row, [&index]).copied().collect_vec();
+            let mut combined = reduce_with_powers_circuit(builder, &row, challenge.beta);
             combined = builder.add(combined, challenge.gamma);
             builder.inverse(combined)
         })
diff --git a/circuits/src/tape_commitments/columns.rs b/circuits/src/tape_commitments/columns.rs
index 0b63820..6288e58 100644
--- a/circuits/src/tape_commitments/columns.rs
+++ b/circuits/src/tape_commitments/columns.rs
@@ -66,7 +66,10 @@ pub fn lookup_for_event_tape_commitment() -> TableWithTypedOutput<TapeCommitment
 pub fn make_event_commitment_tape_public() -> PublicSubTable {
     PublicSubTable {
         table: TapeCommitmentsTable::new(
-            vec![TAPE_COMMITMENTS.commitment_byte_row.byte],
+            vec![
+                TAPE_COMMITMENTS.commitment_byte_row.byte,
+                TAPE_COMMITMENTS.commitment_byte_row.index,
+            ],
             TAPE_COMMITMENTS.is_event_commitment_tape_row,
         ),
         num_rows: DIGEST_BYTES,
@@ -77,7 +80,10 @@ pub fn make_event_commitment_tape_public() -> PublicSubTable {
 pub fn make_castlist_commitment_tape_public() -> PublicSubTable {
     PublicSubTable {
         table: TapeCommitmentsTable::new(
-            vec![TAPE_COMMITMENTS.commitment_byte_row.byte],
+            vec![
+                TAPE_COMMITMENTS.commitment_byte_row.byte,
+                TAPE_COMMITMENTS.commitment_byte_row.index,
+            ],
             TAPE_COMMITMENTS.is_castlist_commitment_tape_row,
         ),
         num_rows: DIGEST_BYTES,
-- 
2.43.0


From 838d022083c1320045b20c09c7acb836d840dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:26 +0000
Subject: [PATCH 53/53] fix: let the challenges of a proof depend on what it
 makes public

---
 circuits/src/public_sub_table.rs         | 67 +++++++++++++++---------
 circuits/src/stark/batch_prover.rs       | 24 ++++++---
 circuits/src/stark/batch_verifier.rs     |  7 ++-
 circuits/src/stark/proof.rs              |  9 +++-
 circuits/src/stark/prover.rs             | 24 ++++++---
 circuits/src/stark/recursive_verifier.rs | 41 ++++++++++-----
 6 files changed, 117 insertions(+), 55 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index f19733d..1017725 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -119,31 +119,49 @@ impl PublicSubTable {
     }
 }
 
+/// The values of `public_sub_tables`, per table
+#[must_use]
+pub fn public_sub_table_values<F: RichField>(
+    trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
+    public_sub_tables: &[PublicSubTable],
+) -> TableKindArray<Vec<PublicSubTableValues<F>>> {
+    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
+    for public_sub_table in public_sub_tables {
+        public_sub_table_values_per_table[public_sub_table.table.kind]
+            .push(public_sub_table.get_values(trace_poly_values));
+    }
+    public_sub_table_values_per_table
+}
+
+/// Everything a proof makes public, in the order the challenger observes it:
+/// what is public must be settled before the challenges are known.
+#[must_use]
+pub fn observed_public_values<T: Copy>(
+    public_inputs: &[T],
+    public_sub_table_values: &TableKindArray<Vec<Vec<Vec<T>>>>,
+) -> Vec<T> {
+    chain!(
+        public_inputs,
+        public_sub_table_values.iter().flatten().flatten().flatten()
+    )
+    .copied()
+    .collect_vec()
+}
+
 #[must_use]
 #[allow(clippy::module_name_repetitions)]
-pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
+pub fn public_sub_table_data<F: RichField, const D: usize>(
     trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
     public_sub_tables: &[PublicSubTable],
     ctl_challenges: &GrandProductChallengeSet<F>,
-) -> (
-    TableKindArray<CtlData<F>>,
-    TableKindArray<Vec<PublicSubTableValues<F>>>,
-) {
+) -> TableKindArray<CtlData<F>> {
     let mut public_sub_table_data_per_table = all_kind!(|_kind| CtlData::default());
-    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
     for (&challenge, public_sub_table) in iproduct!(&ctl_challenges.challenges, public_sub_tables) {
         public_sub_table_data_per_table[public_sub_table.table.kind]
             .zs_columns
             .push(public_sub_table.get_ctlz_data(trace_poly_values, challenge));
     }
-    for public_sub_table in public_sub_tables {
-        public_sub_table_values_per_table[public_sub_table.table.kind]
-            .push(public_sub_table.get_values(trace_poly_values));
-    }
-    (
-        public_sub_table_data_per_table,
-        public_sub_table_values_per_table,
-    )
+    public_sub_table_data_per_table
 }
 
 /// Checks that there are values for every one of `public_sub_tables`, and for
@@ -219,20 +237,24 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
     builder.add_many(all_targets)
 }
 
-pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>, const D: usize>(
+pub fn public_sub_table_values_targets<F: RichField + Extendable<D>, const D: usize>(
     builder: &mut CircuitBuilder<F, D>,
     public_sub_tables: &[PublicSubTable],
-    ctl_challenges: &GrandProductChallengeSet<Target>,
-) -> (
-    TableKindArray<Vec<PublicSubTableValuesTarget>>,
-    TableKindArray<Vec<Target>>,
-) {
+) -> TableKindArray<Vec<PublicSubTableValuesTarget>> {
     let mut public_sub_table_values_targets = TableKindArray::<Vec<_>>::default();
     for public_sub_table in public_sub_tables {
         let targets = public_sub_table.to_targets(builder);
         public_sub_table_values_targets[public_sub_table.table.kind].push(targets);
     }
+    public_sub_table_values_targets
+}
 
+pub fn reduced_public_sub_table_targets<F: RichField + Extendable<D>, const D: usize>(
+    builder: &mut CircuitBuilder<F, D>,
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values_targets: &TableKindArray<Vec<PublicSubTableValuesTarget>>,
+    ctl_challenges: &GrandProductChallengeSet<Target>,
+) -> TableKindArray<Vec<Target>> {
     let mut reduced_public_sub_table_targets = TableKindArray::<Vec<_>>::default();
 
     for challenge in &ctl_challenges.challenges {
@@ -247,8 +269,5 @@ pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>,
                 .push(reduce_public_sub_table_targets(builder, challenge, targets));
         }
     }
-    (
-        public_sub_table_values_targets,
-        reduced_public_sub_table_targets,
-    )
+    reduced_public_sub_table_targets
 }
diff --git a/circuits/src/stark/batch_prover.rs b/circuits/src/stark/batch_prover.rs
index 7902312..08120ff 100644
--- a/circuits/src/stark/batch_prover.rs
+++ b/circuits/src/stark/batch_prover.rs
@@ -1,5 +1,6 @@
 #![allow(clippy::too_many_lines)]
 
+use std::borrow::Borrow;
 use std::collections::HashMap;
 
 use anyhow::{ensure, Result};
@@ -37,7 +38,9 @@ use super::proof::{BatchProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{
+    observed_public_values, public_sub_table_data, public_sub_table_values,
+};
 use crate::stark::mozak_stark::{all_kind, all_starks, PublicInputs};
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -445,6 +448,14 @@ where
     let bmt_trace_cap = batch_trace_commitments.batch_merkle_tree.cap.clone();
     challenger.observe_cap(&bmt_trace_cap);
 
+    // Add everything made public.
+    let public_sub_table_values =
+        public_sub_table_values(&traces_poly_values, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&observed_public_values(
+        public_inputs.borrow(),
+        &public_sub_table_values,
+    ));
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -456,12 +467,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            &traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F, D>(
+        &traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let (proofs, batch_stark_proof) = batch_prove_with_commitments(
         mozak_stark,
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 881ffcf..0d59960 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -16,7 +16,7 @@ use super::mozak_stark::{
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
 use crate::public_sub_table::{
-    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+    observed_public_values, reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
@@ -51,7 +51,10 @@ where
     }
     challenger.observe_cap(&all_proof.batch_stark_proof.trace_cap);
 
-    // TODO: Observe public values.
+    challenger.observe_elements(&observed_public_values(
+        all_proof.public_inputs.borrow(),
+        &all_proof.public_sub_table_values,
+    ));
 
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
 
diff --git a/circuits/src/stark/proof.rs b/circuits/src/stark/proof.rs
index bcbca47..5e2b613 100644
--- a/circuits/src/stark/proof.rs
+++ b/circuits/src/stark/proof.rs
@@ -1,3 +1,5 @@
+use std::borrow::Borrow;
+
 use itertools::{chain, Itertools};
 use mozak_sdk::common::types::ProgramIdentifier;
 use mozak_sdk::core::constants::DIGEST_BYTES;
@@ -21,7 +23,7 @@ use serde::{Deserialize, Serialize};
 use starky::config::StarkConfig;
 
 use super::mozak_stark::{all_kind, PublicInputs, TableKind, TableKindArray};
-use crate::public_sub_table::PublicSubTableValues;
+use crate::public_sub_table::{observed_public_values, PublicSubTableValues};
 use crate::stark::permutation::challenge::{GrandProductChallengeSet, GrandProductChallengeTrait};
 
 #[allow(clippy::module_name_repetitions)]
@@ -397,7 +399,10 @@ impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> A
             challenger.observe_cap(&proof.trace_cap);
         }
 
-        // TODO: Observe public values.
+        challenger.observe_elements(&observed_public_values(
+            self.public_inputs.borrow(),
+            &self.public_sub_table_values,
+        ));
 
         let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
         challenger.compact();
diff --git a/circuits/src/stark/prover.rs b/circuits/src/stark/prover.rs
index e1a7362..943cae0 100644
--- a/circuits/src/stark/prover.rs
+++ b/circuits/src/stark/prover.rs
@@ -1,5 +1,6 @@
 #![allow(clippy::too_many_lines)]
 
+use std::borrow::Borrow;
 use std::fmt::Display;
 
 use anyhow::{ensure, Result};
@@ -33,7 +34,9 @@ use super::proof::{AllProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{
+    observed_public_values, public_sub_table_data, public_sub_table_values,
+};
 use crate::stark::mozak_stark::PublicInputs;
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -141,6 +144,14 @@ where
         challenger.observe_cap(cap);
     }
 
+    // Add everything made public.
+    let public_sub_table_values =
+        public_sub_table_values(traces_poly_values, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&observed_public_values(
+        public_inputs.borrow(),
+        &public_sub_table_values,
+    ));
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -152,12 +163,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F, D>(
+        traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let proofs = timed!(
         timing,
diff --git a/circuits/src/stark/recursive_verifier.rs b/circuits/src/stark/recursive_verifier.rs
index a127163..322b3bb 100644
--- a/circuits/src/stark/recursive_verifier.rs
+++ b/circuits/src/stark/recursive_verifier.rs
@@ -37,7 +37,8 @@ use crate::cross_table_lookup::{
     verify_cross_table_lookups_and_public_sub_table_circuit, CrossTableLookup, CtlCheckVarsTarget,
 };
 use crate::public_sub_table::{
-    public_sub_table_values_and_reduced_targets, PublicSubTable, PublicSubTableValuesTarget,
+    observed_public_values, public_sub_table_values_targets, reduced_public_sub_table_targets,
+    PublicSubTable, PublicSubTableValuesTarget,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances_target, batch_reduction_arity_bits, sort_degree_bits,
@@ -338,18 +339,25 @@ where
     }
     challenger.observe_cap(&batch_stark_proof_target.trace_cap);
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&observed_public_values(
+        &stark_proof_with_pis_target[TableKind::CpuSkeleton].public_inputs,
+        &public_sub_table_values_targets,
+    ));
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_table_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
@@ -599,18 +607,25 @@ where
         challenger.observe_cap(&pi.proof.trace_cap);
     }
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    challenger.observe_elements(&observed_public_values(
+        &stark_proof_with_pis_target[TableKind::CpuSkeleton].public_inputs,
+        &public_sub_table_values_targets,
+    ));
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_table_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
-- 
2.43.0

