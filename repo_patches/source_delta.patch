From db5b947174e07d38f9eec8d33b8526e1361387b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 01/47] fix: J1 and J2 were swapped in the offset of
 conditional branches (B T3)

---
 src/thumb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..a98a093 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -468,8 +468,8 @@ pub fn analyze(
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From bce200072a7b8b5259dda53e2141fda2486670fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 02/47] fix: ThumbExpandImm(0b0001:imm8) is 0x00XY00XY

---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index a98a093..0ce9cff 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -600,7 +600,10 @@ fn thumb_expand_imm(imm12: u16) -> u32 {
         match (imm12 >> 8) & 0b0011 {
             0b00 => u32::from(imm12 & 0b0000_1111_1111),
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => {
+                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+                (imm8 << 16) | imm8
+            }
 
             0b10 => {
                 let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-- 
2.43.0


From 1c6811ff52d06e1162f5e090f45d86a6d5ccb007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 03/47] fix: BKPT was decoded as a 32-bit instruction

---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 0ce9cff..7ada83b 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
-- 
2.43.0


From dc1968239ae9da61e3a275bbf5fae17f7e8a2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 04/47] fix: STMDB without writeback does not modify SP

---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 7ada83b..41c29eb 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -386,7 +386,7 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
-                && matches(first, "0b11101_00_100_x_0_xxxx")
+                && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
                 // A7.7.157      STMDB, STMFD
-- 
2.43.0


From 25e3f675bd88c30e7e642bee0fd38d61b246347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 05/47] fix: SUBW SP, SP, #imm12 (SUB T3) was not recognized as
 a stack adjustment

---
 src/thumb.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 41c29eb..de52dbc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -424,6 +424,21 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11110_x_101010_1101")
+                && matches(second, "0b0_xxx_1101_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                // e.g. 'f2ad 4d04       subw    sp, sp, #1028   ; 0x404'
+                modifies_sp = true;
+
+                let imm8 = u64::from(second[0]);
+                let imm3 = u64::from((second[1] >> 4) & 0b0111);
+                let i = u64::from((first[1] >> 2) & 1);
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += (i << 11) | (imm3 << 8) | imm8;
+                }
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From 973104a13e588b65f2fd8c11e3662fbcdf2aaa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 06/47] fix: SP adjustments by a register (ADD SP, Rm; SUB.W
 SP, SP, Rm) were ignored

---
 src/thumb.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index de52dbc..e44e09a 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -92,6 +92,16 @@ pub fn analyze(
             continue;
         } else if matches(first, "0b000_11_0_0_xxx_xxx_xxx") {
             // A7.7.4 ADD (register) - T1
+            continue;
+        } else if matches(first, "0b010001_00_1_xxxx_101") {
+            // NOTE we break the alphabetical order because the rule for `ADD (register)` overlaps
+            // with this one
+            // A7.7.6  ADD (SP plus register) - T2, i.e. `add sp, <Rm>`
+            // e.g. '44a5            add     sp, r4' where `r4` was loaded from a literal pool; this
+            // is how big stack frames are allocated on ARMv6-M
+            modifies_sp = true;
+            stack = None;
+
             continue;
         } else if matches(first, "0b010001_00_x_xxxx_xxx") {
             // A7.7.4 ADD (register) - T2
@@ -439,6 +449,13 @@ pub fn analyze(
                 if let Some(stack) = stack.as_mut() {
                     *stack += (i << 11) | (imm3 << 8) | imm8;
                 }
+            } else if v7
+                && matches(first, "0b11101_01_1101_x_1101")
+                && matches(second, "0b0_xxx_1101_xx_xx_xxxx")
+            {
+                // A7.7.174      SUB (SP minus register) - T1, i.e. `sub.w sp, sp, <Rm>`
+                modifies_sp = true;
+                stack = None;
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From 47e9bc23aa6d5903b34bb7d96b0358ddfe4acb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 07/47] fix: do not panic when a literal pool is followed by
 another data tag

---
 src/thumb.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index e44e09a..df33a88 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -56,14 +56,9 @@ pub fn analyze(
             if tags[needle].1 == Tag::Data {
                 // start of a data section
 
-                if let Some(tag) = tags.get(needle + 1) {
-                    assert_eq!(
-                        tag.1,
-                        Tag::Thumb,
-                        "BUG: expected a thumb tag at {:#10x} but found another data tag",
-                        tag.0
-                    );
-
+                // NOTE consecutive data tags (e.g. a literal pool followed by a constant) delimit a
+                // single data region that ends at the next thumb tag
+                if let Some(tag) = tags[needle..].iter().find(|tag| tag.1 == Tag::Thumb) {
                     // skip the data section
                     let end = tag.0;
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
-- 
2.43.0


From 1670e32219725ab8e11e1a4e1795cf80c2295bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 08/47] fix: functions that share a local symbol name were
 conflated in the machine code analysis

---
 src/main.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..990cb58 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -456,7 +456,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // add all real nodes
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
-    let mut addr2name = BTreeMap::new();
+    let mut addr2index = BTreeMap::new();
     for (address, sym) in &symbols.defined {
         let names = sym.names();
         // filter out tags
@@ -491,9 +491,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             aliases.insert(name, canonical_name);
         }
 
-        let _out = addr2name.insert(address, canonical_name);
-        debug_assert!(_out.is_none());
-
         let stack = stack_sizes.get(canonical_name).cloned();
         if stack.is_none() {
             if !target_.is_thumb() {
@@ -510,6 +507,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
+        let _out = addr2index.insert(*address, idx);
+        debug_assert!(_out.is_none());
 
         if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
@@ -822,7 +821,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     target_ == Target::Thumbv7m,
                     &tags,
                 );
-                let caller = indices[canonical_name];
+                // NOTE local symbols (e.g. outlined functions) may share a name so go through the address
+                let caller = addr2index[&u64::from(address)];
 
                 // sanity check
                 if let Some(stack) = our_stack {
@@ -917,11 +917,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
-                    let name = addr2name
+                    let callee = *addr2index
                         .get(&addr)
                         .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                    let callee = indices[*name];
                     if !callees_seen.contains(&callee) {
                         g.add_edge(caller, callee, ());
                         callees_seen.insert(callee);
@@ -935,11 +934,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         // intra-function B branches are not function calls
                     } else {
                         // address may be off by one due to the thumb bit being set
-                        let name = addr2name
+                        let callee = *addr2index
                             .get(&(addr as u64))
                             .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                        let callee = indices[*name];
                         if !callees_seen.contains(&callee) {
                             g.add_edge(caller, callee, ());
                             callees_seen.insert(callee);
-- 
2.43.0


From 3aaded0eb895a8b1d65c865a9f979fc5c52343c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 09/47] fix: do not panic when a function is not in the .text
 section

---
 src/main.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 990cb58..a937f53 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -28,7 +28,11 @@ use petgraph::{
     Direction, Graph,
 };
 use walkdir::WalkDir;
-use xmas_elf::{sections::SectionData, symbol_table::Entry, ElfFile};
+use xmas_elf::{
+    sections::{SectionData, ShType, SHF_ALLOC},
+    symbol_table::Entry,
+    ElfFile,
+};
 
 use crate::{
     ir::{FnSig, Item, Stmt, Type},
@@ -790,13 +794,30 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         tags.sort_by(|a, b| a.0.cmp(&b.0));
 
-        if let Some(sect) = elf.find_section_by_name(".text") {
-            let stext = sect.address() as u32;
-            let text = sect.raw_data(&elf);
+        // NOTE not all functions live in `.text`, e.g. functions that run from RAM do not
+        let sections = elf
+            .section_iter()
+            .filter(|sect| sect.flags() & SHF_ALLOC != 0 && sect.get_type() != Ok(ShType::NoBits))
+            .collect::<Vec<_>>();
 
+        if !sections.is_empty() {
             for (address, sym) in &symbols.defined {
                 let address = *address as u32;
                 let canonical_name = aliases[&sym.names()[0]];
+
+                let sect = sections.iter().find(|sect| {
+                    u64::from(address) >= sect.address()
+                        && u64::from(address) - sect.address() < sect.size()
+                });
+                let sect = if let Some(sect) = sect {
+                    sect
+                } else {
+                    warn!("machine code of `{}` not found", canonical_name);
+                    continue;
+                };
+                let stext = sect.address() as u32;
+                let text = sect.raw_data(&elf);
+
                 let mut size = sym.size() as u32;
 
                 if size == 0 {
@@ -946,7 +967,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
             }
         } else {
-            error!(".text section not found")
+            error!("no loadable section found")
         }
     }
 
-- 
2.43.0


From 24915d571b33affc47cc347c0fa6241e400aed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 10/47] fix: the code of assembler symbols without size was not
 analyzed

---
 src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a937f53..ae6be55 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -821,13 +821,22 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 let mut size = sym.size() as u32;
 
                 if size == 0 {
-                    // try harder at finding out the size of this symbol
+                    // try harder at finding out the size of this symbol; it ends, at the latest,
+                    // where the next function starts or where the section ends
+                    let end = symbols
+                        .defined
+                        .keys()
+                        .map(|next| *next as u32)
+                        .find(|next| *next > address)
+                        .unwrap_or(u32::MAX);
+                    size = cmp::min(end, stext + text.len() as u32) - address;
+
                     if let Ok(needle) = tags.binary_search_by(|tag| tag.0.cmp(&address)) {
                         let start = tags[needle];
                         if start.1 == Tag::Thumb {
                             if let Some(end) = tags.get(needle + 1) {
                                 if end.1 == Tag::Thumb {
-                                    size = end.0 - start.0;
+                                    size = cmp::min(size, end.0 - start.0);
                                 }
                             }
                         }
-- 
2.43.0


From 9d8d7d0a71a9b631f2e4c442663ac31c9e3f673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 11/47] fix: do not panic on functions whose inline assembly
 both branches and uses the stack

---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ae6be55..9a49c49 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -867,6 +867,16 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     );
                 }
 
+                if our_stack.is_none()
+                    && modifies_sp
+                    && fns_containing_asm.contains(&canonical_name)
+                    && g[caller].local == Local::Exact(0)
+                {
+                    // LLVM's stack usage analysis ignores inline asm, so its result is wrong here
+                    // and our analysis gave up
+                    g[caller].local = Local::Unknown;
+                }
+
                 // check the correctness of `modifies_sp` and `our_stack`
                 // also override LLVM's results when they appear to be wrong
                 if let Local::Exact(ref mut llvm_stack) = g[caller].local {
-- 
2.43.0


From ed05e2fc4e5b8fb45f4c011c19e1908c72c980d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 12/47] fix: do not panic when a function with a hash in its
 name is undefined

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9a49c49..6d3eecb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -739,6 +739,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         if let Some(idx) = indices.get(*func) {
                             *idx
                         } else {
+                            let demangled = rustc_demangle::demangle(func).to_string();
+                            if let Some(dehashed) = dehash(&demangled) {
+                                *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
+                            }
+
                             let idx = g.add_node(Node(*func, None, false));
                             indices.insert((*func).into(), idx);
 
@@ -1257,7 +1262,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let demangled = rustc_demangle::demangle(&node.name).to_string();
 
         if let Some(dehashed) = dehash(&demangled) {
-            if ambiguous[dehashed] == 1 {
+            if ambiguous.get(dehashed) == Some(&1) {
                 node.name = Cow::Owned(dehashed.to_owned());
             }
         }
-- 
2.43.0


From 310d6f0f4c94be7a70c30cc14e5e2770fa52325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 13/47] fix: only strip hashes, not any 17 characters that
 start with h, from function names

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6d3eecb..6a170db 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1544,7 +1544,11 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .map(|hash| {
+                hash.strip_prefix("::h")
+                    .map(|hash| hash.bytes().all(|byte| byte.is_ascii_hexdigit()))
+                    .unwrap_or(false)
+            })
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From b33b4b1ee4e592fba2cba51a906f5721872860ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 14/47] fix: backslashes in function names were not escaped in
 the DOT output

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a170db..115a48e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1412,7 +1412,7 @@ where
     fn write_char(&mut self, c: char) -> fmt::Result {
         match (|| -> io::Result<()> {
             match c {
-                '"' => write!(self.writer, "\\")?,
+                '"' | '\\' => write!(self.writer, "\\")?,
                 _ => {}
             }
 
-- 
2.43.0


From 4ff9ba56c40a97265edce5a84a22fd5bba59ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 15/47] fix: llvm.memmove lowers to memmove, not to memset

---
 src/main.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 115a48e..0fddbff 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -649,9 +649,26 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
+                    if func.starts_with("llvm.memmove.") {
+                        if let Some(callee) = indices.get("memmove") {
+                            call(*callee);
+                        }
+
+                        // ARMv7-R and the like use these
+                        if let Some(callee) = indices.get("__aeabi_memmove") {
+                            call(*callee);
+                        }
+
+                        if let Some(callee) = indices.get("__aeabi_memmove4") {
+                            call(*callee);
+                        }
+
+                        continue;
+                    }
+
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
+                    if func.starts_with("llvm.memset.") {
                         if let Some(callee) = indices.get("memset") {
                             call(*callee);
                         }
-- 
2.43.0


From ba71b5756b2774ea2db30efcd753d7d08748933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 16/47] fix: calls to memory routines, and start points, were
 not resolved through aliases

---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0fddbff..54567e1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -510,7 +510,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
 
         let idx = g.add_node(Node(canonical_name, stack, false));
-        indices.insert(canonical_name.into(), idx);
+        // NOTE the function can be referred to by any of its names
+        for name in names.iter().copied() {
+            indices.insert(name.into(), idx);
+        }
         let _out = addr2index.insert(*address, idx);
         debug_assert!(_out.is_none());
 
@@ -1143,7 +1146,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 })
                 .collect::<Vec<_>>();
 
-            if hits.len() > 1 {
+            if hits.iter().any(|key| indices[*key] != indices[hits[0]]) {
                 error!("multiple matches for `{}`: {:?}", start, hits);
                 None
             } else {
-- 
2.43.0


From 2b7da0f761bc3bbd4f3722baff20ac923c83168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 17/47] fix: calls through a bitcast symbol could add the same
 edge twice

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 54567e1..c1133e3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -595,7 +595,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         idx
                     };
 
-                    g.add_edge(caller, callee, ());
+                    if !callees_seen.contains(&callee) {
+                        callees_seen.insert(callee);
+                        g.add_edge(caller, callee, ());
+                    }
                 }
 
                 Stmt::DirectCall(func) => {
-- 
2.43.0


From 5941896d228442bec3f732a639d003e24865b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 18/47] fix: a start point without hash also matched functions
 nested in modules that start with h

---
 src/main.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c1133e3..f16fb4f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1134,14 +1134,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     if let Some(start) = &args.start {
         let start: &str = start;
         let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
             let hits = indices
                 .keys()
                 .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
+                    if dehash(&rustc_demangle::demangle(key).to_string()) == Some(start) {
                         Some(key)
                     } else {
                         None
-- 
2.43.0


From f08258a2e5f78f8c741b5c90919c1381c533d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 19/47] fix: functions of the application take precedence over
 compiler_builtins' functions of the same name

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f16fb4f..386f345 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -343,7 +343,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     for item in items.into_iter().chain(compiler_builtins_items) {
         match item {
             Item::Define(def) => {
-                defines.insert(def.name, def);
+                // NOTE application first: its functions take precedence over `compiler_builtins`' weak ones
+                defines.entry(def.name).or_insert(def);
             }
 
             Item::Declare(decl) => {
@@ -387,11 +388,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         {
             buf.clear();
             entry.read_to_end(&mut buf)?;
-            stack_sizes.extend(
-                stack_sizes::analyze_object(&buf)?
-                    .into_iter()
-                    .map(|(name, stack)| (name.to_owned(), stack)),
-            );
+            for (name, stack) in stack_sizes::analyze_object(&buf)? {
+                // NOTE the application's functions take precedence over `compiler_builtins`' weak ones
+                stack_sizes.entry(name.to_owned()).or_insert(stack);
+            }
         }
     }
 
-- 
2.43.0


From 11fd97f995b04c094062ceb58ded4936a9b0c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 20/47] fix: indirect calls that match no known function were
 silently ignored

---
 src/main.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 386f345..19ddef4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -425,6 +425,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut indices = BTreeMap::<Cow<str>, _>::new();
 
     let mut indirects: HashMap<FnSig, Indirect> = HashMap::new();
+    // signatures of indirect calls that no known function has -> callers
+    let mut unmatched: HashMap<FnSig, HashSet<NodeIndex>> = HashMap::new();
     // functions that could be called by `ArgumentV1.formatter`
     let mut fmts = HashSet::new();
 
@@ -781,12 +783,18 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::IndirectCall(sig) => {
+                    let mut has_callees = false;
                     for (key_sig, indirect) in &mut indirects {
                         if key_sig.loosely_equal(sig) {
+                            has_callees = true;
                             indirect.called = true;
                             indirect.callers.insert(caller);
                         }
                     }
+
+                    if !has_callees {
+                        unmatched.entry(sig.clone()).or_default().insert(caller);
+                    }
                 }
 
                 Stmt::Label | Stmt::Comment | Stmt::Other => {}
@@ -1074,6 +1082,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             })
     };
 
+    // what these call is unknown but the calls must not be ignored
+    for (sig, callers) in unmatched {
+        let indirect = indirects.entry(sig).or_default();
+        indirect.called = true;
+        indirect.callers = callers;
+    }
+
     for (mut sig, indirect) in indirects {
         if !indirect.called {
             continue;
@@ -1115,14 +1130,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             g.add_edge(*caller, call, ());
         }
 
-        if has_untyped_symbols {
-            // add an edge between this and a potential extern / untyped symbol
-            let extern_sym = g.add_node(Node("?", None, false));
-            g.add_edge(call, extern_sym, ());
-        } else {
+        if has_untyped_symbols || callees.is_empty() {
             if callees.is_empty() {
                 error!("BUG? no callees for `{}`", name);
             }
+
+            // add an edge between this and a potential extern / untyped symbol
+            let extern_sym = g.add_node(Node("?", None, false));
+            g.add_edge(call, extern_sym, ());
         }
 
         for callee in callees {
-- 
2.43.0


From e3592491dfe7563ab2c7a03c074fa7eacc1a5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 21/47] fix: invoke instructions that can not be parsed were
 silently ignored

---
 src/ir/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..7377b4a 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -266,7 +266,7 @@ fn other(i: &str) -> IResult<&str, Stmt> {
     let i = separated_list1(
         space1,
         map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
+            if i == "call" || i == "invoke" {
                 Err(())
             } else {
                 Ok(())
-- 
2.43.0


From 7d1851a62b29618c952d6e2799731c666e59d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 22/47] fix: escapes in quoted function names were not decoded

---
 src/ir.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/ir.rs b/src/ir.rs
index 3c0b36d..4971387 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -128,7 +128,7 @@ struct Global<'a>(Option<&'a str>);
 fn global(i: &str) -> IResult<&str, Global> {
     let i = char('@')(i)?.0;
     let (i, s) = alt((
-        map(string, |s| Some(s.0)),
+        map(string, |s| Some(unescape(s.0))),
         map(digit1, |_| None),
         map(ident, |i| Some(i.0)),
     ))(i)?;
@@ -277,7 +277,7 @@ pub struct Function<'a>(pub &'a str);
 
 fn function(i: &str) -> IResult<&str, Function> {
     let i = char('@')(i)?.0;
-    let (i, name) = name(i)?;
+    let (i, name) = alt((map(string, |s| unescape(s.0)), name))(i)?;
     Ok((i, Function(name)))
 }
 
@@ -302,6 +302,40 @@ fn string(i: &str) -> IResult<&str, String> {
     Ok((i, String(x)))
 }
 
+// LLVM prints `\` as `\\`, and `"` and bytes that are not printable as `\xx`, but symbol tables contain
+// the bytes themselves
+fn unescape(s: &str) -> &str {
+    if !s.contains('\\') {
+        return s;
+    }
+
+    let mut bytes = vec![];
+    let mut i = s.as_bytes();
+    while let Some((first, rest)) = i.split_first() {
+        let hex = rest.get(..2).and_then(|hex| core::str::from_utf8(hex).ok());
+        match hex.map(|hex| u8::from_str_radix(hex, 16)) {
+            _ if *first == b'\\' && rest.first() == Some(&b'\\') => {
+                bytes.push(b'\\');
+                i = &rest[1..];
+            }
+            Some(Ok(byte)) if *first == b'\\' => {
+                bytes.push(byte);
+                i = &rest[2..];
+            }
+            _ => {
+                bytes.push(*first);
+                i = rest;
+            }
+        }
+    }
+
+    // NOTE leaked because everything else borrows from the IR; these names are rare
+    let s: &str = Box::leak(std::string::String::from_utf8_lossy(&bytes).into_owned().into_boxed_str());
+
+    // this prefix means that the name must not be mangled; it's not part of the symbol name
+    s.strip_prefix('\u{1}').unwrap_or(s)
+}
+
 #[cfg(test)]
 mod tests {
     use super::{Alias, Comment, FnSig, GetElementPtr, Ident, Local, String, Type};
-- 
2.43.0


From 6e2c2b27928cf1a8180a154b9f5bf953fd7e10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 23/47] fix: do not panic on undefined symbols with a
 sym@VERSION version

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 19ddef4..1599654 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -413,7 +413,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         .undefined
         .into_iter()
         .map(|sym| {
-            if let Some(name) = sym.rsplit("@@").nth(1) {
+            // `sym@@VERSION` or, as printed by newer linkers, `sym@VERSION`
+            if let Some(name) = sym.split('@').next() {
                 name
             } else {
                 sym
-- 
2.43.0


From 6d523d6e1adb4ec2e6a563372ab6d664361ce9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 24/47] fix: pointers to functions returning a function pointer
 were not parsed

---
 src/ir/ty.rs | 108 +++++++++++++++++++++++----------------------------
 1 file changed, 49 insertions(+), 59 deletions(-)

diff --git a/src/ir/ty.rs b/src/ir/ty.rs
index 69d6c6f..259dad4 100644
--- a/src/ir/ty.rs
+++ b/src/ir/ty.rs
@@ -246,30 +246,20 @@ fn struct_(i: &str) -> IResult<&str, Type> {
 pub fn type_(i: &str) -> IResult<&str, Type> {
     let (i, void) = opt(tag("void"))(i)?;
 
-    if void.is_some() {
+    let (mut i, mut ty) = if void.is_some() {
         // this must be a function
         let i = space1(i)?.0;
-        let (mut i, inputs) = fn_inputs(i)?;
-        let mut ty = Type::Fn(FnSig {
-            inputs,
-            output: None,
-        });
-
-        // is this a function pointer?
-        loop {
-            let (i_, star) = opt(char('*'))(i)?;
-
-            if star.is_none() {
-                break;
-            } else {
-                i = i_;
-                ty = Type::Pointer(Box::new(ty));
-            }
-        }
-
-        Ok((i, ty))
+        let (i, inputs) = fn_inputs(i)?;
+
+        (
+            i,
+            Type::Fn(FnSig {
+                inputs,
+                output: None,
+            }),
+        )
     } else {
-        let (mut i, mut ty) = alt((
+        alt((
             array,
             packed_struct,
             struct_,
@@ -280,52 +270,52 @@ pub fn type_(i: &str) -> IResult<&str, Type> {
             integer,
             varargs,
             mvt_vector,
-        ))(i)?;
+        ))(i)?
+    };
 
-        // is this a pointer?
-        loop {
-            let (i_, star) = opt(char('*'))(i)?;
+    // is this a pointer?
+    loop {
+        let (i_, star) = opt(char('*'))(i)?;
 
-            if star.is_none() {
-                break;
-            } else {
-                i = i_;
-                ty = Type::Pointer(Box::new(ty));
-            }
+        if star.is_none() {
+            break;
+        } else {
+            i = i_;
+            ty = Type::Pointer(Box::new(ty));
         }
+    }
 
-        // is this a function?
-        loop {
-            let (i_, inputs) = opt(|i| {
-                let i = space1(i)?.0;
-                fn_inputs(i)
-            })(i)?;
-
-            if let Some(inputs) = inputs {
-                i = i_;
-                ty = Type::Fn(FnSig {
-                    inputs,
-                    output: Some(Box::new(ty)),
-                });
-
-                // is this a function pointer?
-                loop {
-                    let (i_, star) = opt(char('*'))(i)?;
-
-                    if star.is_none() {
-                        break;
-                    } else {
-                        i = i_;
-                        ty = Type::Pointer(Box::new(ty));
-                    }
+    // is this a function?
+    loop {
+        let (i_, inputs) = opt(|i| {
+            let i = space1(i)?.0;
+            fn_inputs(i)
+        })(i)?;
+
+        if let Some(inputs) = inputs {
+            i = i_;
+            ty = Type::Fn(FnSig {
+                inputs,
+                output: Some(Box::new(ty)),
+            });
+
+            // is this a function pointer?
+            loop {
+                let (i_, star) = opt(char('*'))(i)?;
+
+                if star.is_none() {
+                    break;
+                } else {
+                    i = i_;
+                    ty = Type::Pointer(Box::new(ty));
                 }
-            } else {
-                break;
             }
+        } else {
+            break;
         }
-
-        Ok((i, ty))
     }
+
+    Ok((i, ty))
 }
 
 fn fn_inputs(i: &str) -> IResult<&str, Vec<Type>> {
-- 
2.43.0


From 51d900bdf50653af8162dea2b057dc251009fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 25/47] fix: --target must take precedence over the target of
 the cargo configuration

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1599654..f2861c5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -144,7 +144,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
     let target_flag = args.target.as_deref();
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
     {
@@ -355,7 +355,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     // we know how to analyze the machine code in the ELF file for these targets thus we have more
     // information and need less LLVM-IR hacks
-- 
2.43.0


From f6bfb7d0dc083f1a8e13e54dacf54a6b97247eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 26/47] fix: build output that is not UTF-8 made the tool fail

---
 src/main.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f2861c5..0e48026 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -236,20 +236,22 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     }
 
     let mut child = cargo.spawn()?;
-    let stderr = BufReader::new(child.stderr.take().unwrap());
+    let mut stderr = BufReader::new(child.stderr.take().unwrap());
     let mut compiler_builtins_rlib_path = None;
     let mut compiler_builtins_ll_path = None;
-    for line in stderr.lines() {
-        let line = line?;
-        if line.starts_with(wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER) {
-            let path = &line[wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER.len()..];
+    // NOTE what the build prints is not necessarily UTF-8 and must be forwarded as is
+    let mut line = vec![];
+    while stderr.read_until(b'\n', &mut line)? != 0 {
+        let text = String::from_utf8_lossy(&line);
+        let text = text.strip_suffix('\n').unwrap_or(&text);
+        if let Some(path) = text.strip_prefix(wrapper::COMPILER_BUILTINS_RLIB_PATH_MARKER) {
             compiler_builtins_rlib_path = Some(path.to_string());
-        } else if line.starts_with(wrapper::COMPILER_BUILTINS_LL_PATH_MARKER) {
-            let path = &line[wrapper::COMPILER_BUILTINS_LL_PATH_MARKER.len()..];
+        } else if let Some(path) = text.strip_prefix(wrapper::COMPILER_BUILTINS_LL_PATH_MARKER) {
             compiler_builtins_ll_path = Some(path.to_string());
         } else {
-            eprintln!("{}", line);
+            io::stderr().write_all(&line)?;
         }
+        line.clear();
     }
 
     let status = child.wait()?;
-- 
2.43.0


From 1c5a8832b8ad0643e3f960a9db291d90800d3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 27/47] fix: the wrapper panicked on arguments that are not
 UTF-8

---
 src/wrapper.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 5d0b5f4..918775b 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -23,12 +23,17 @@ pub(crate) const COMPILER_BUILTINS_LL_PATH_MARKER: &str =
     "@CARGO_CALL_STACK:compiler_builtins_ll_path@";
 
 pub(crate) fn wrapper() -> anyhow::Result<i32> {
-    let mut args = env::args().skip(1);
+    // NOTE arguments, e.g. paths, are not necessarily UTF-8 and must reach the compiler as they are
+    let mut args = env::args_os().skip(1);
     let rustc_path = args.next().unwrap();
     let mut rustc = Command::new(&rustc_path);
 
     let rustc_args = args.collect::<Vec<_>>();
-    let args = RustcArgs::parse(&mut rustc_args.iter().map(|s| &**s))?;
+    let args = rustc_args
+        .iter()
+        .map(|arg| arg.to_string_lossy())
+        .collect::<Vec<_>>();
+    let args = RustcArgs::parse(&mut args.iter().map(|s| &**s))?;
 
     for ext in &args.extern_crates {
         match (&*ext.crate_name, &ext.path) {
@@ -53,7 +58,7 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
 
     let status = rustc
         .status()
-        .map_err(|e| anyhow!("failed to spawn `{}`: {}", rustc_path, e))?;
+        .map_err(|e| anyhow!("failed to spawn `{}`: {}", rustc_path.to_string_lossy(), e))?;
     Ok(status.code().unwrap_or(-1))
 }
 
-- 
2.43.0


From 5abef6f5d06ae14146a031eba7c78ce53d6a6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 28/47] fix: the wrapper refused to run the compiler without
 --crate-name

---
 src/wrapper.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 918775b..f05ba51 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -150,7 +150,8 @@ impl RustcArgs {
 
         Ok(Self {
             extra_filename: extra_filename.unwrap_or_default(),
-            crate_name: crate_name.ok_or_else(|| anyhow!("missing `--crate-name` argument"))?,
+            // NOTE there is none in queries like `rustc -vV`, which build scripts may send through us
+            crate_name: crate_name.unwrap_or_default(),
             out_dir,
             extern_crates,
         })
-- 
2.43.0


From 75a1182d10425b3b008d89de82492d55c1e9f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 29/47] fix: the source of the requested artifact was not
 touched, so a stale build could be analyzed

---
 src/main.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0e48026..78f95db 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -210,23 +210,38 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     cargo.env("RUSTC_WRAPPER", env::current_exe()?);
     cargo.stderr(Stdio::piped());
 
-    // "touch" some source file to trigger a rebuild
+    // "touch" the crate roots that the requested artifact may be built from to trigger a rebuild
     let root = project.toml().parent().expect("UNREACHABLE");
     let now = FileTime::from_system_time(SystemTime::now());
-    if !filetime::set_file_times(root.join("src/main.rs"), now, now).is_ok() {
-        if !filetime::set_file_times(root.join("src/lib.rs"), now, now).is_ok() {
-            // look for some rust source file and "touch" it
-            let src = root.join("src");
-            let haystack = if src.exists() { &src } else { root };
-
-            for entry in WalkDir::new(haystack) {
-                let entry = entry?;
-                let path = entry.path();
-
-                if path.extension().map(|ext| ext == "rs").unwrap_or(false) {
-                    filetime::set_file_times(path, now, now)?;
-                    break;
-                }
+    let dir = root.join(if args.example.is_some() {
+        "examples"
+    } else {
+        "src/bin"
+    });
+    let crate_roots = [
+        root.join("src/main.rs"),
+        root.join("src/lib.rs"),
+        dir.join(format!("{}.rs", file)),
+        dir.join(file).join("main.rs"),
+    ];
+    let mut touched = false;
+    for path in &crate_roots {
+        touched |= filetime::set_file_times(path, now, now).is_ok();
+    }
+    if !touched {
+        // unconventional layout; look for rust source files and "touch" them
+        let src = root.join("src");
+        let haystack = if src.exists() { &src } else { root };
+
+        for entry in WalkDir::new(haystack)
+            .into_iter()
+            .filter_entry(|entry| entry.path() != project.target_dir())
+        {
+            let entry = entry?;
+            let path = entry.path();
+
+            if path.extension().map(|ext| ext == "rs").unwrap_or(false) {
+                filetime::set_file_times(path, now, now)?;
             }
         }
     }
-- 
2.43.0


From 6b3fbb8dd021881622aa25d9ce4bccfd1b1bc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 30/47] fix: CBZ, CBNZ, TBB and TBH are branches

---
 src/thumb.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index df33a88..17db8cc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -189,7 +189,18 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
-            continue;
+            let imm6 = (i32::from((first[1] >> 1) & 1) << 5) | i32::from(first[0] >> 3);
+
+            // offset is computed from the address of the *next* instruction; adjust
+            // accordingly
+            let imm32 = (imm6 << 1) + 2 * i + 4;
+
+            if (imm32 as usize) < bytes.len() {
+                // this is an `if`; give up the stack usage analysis
+                stack = None;
+            }
+
+            bs.push(imm32);
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
             continue;
@@ -477,6 +488,13 @@ pub fn analyze(
                 if let Some(stack) = stack.as_mut() {
                     *stack += u64::from(imm32);
                 }
+            } else if v7
+                && matches(first, "0b11101_00_0_1_1_0_1_xxxx")
+                && matches(second, "0b11110000_000_x_xxxx")
+            {
+                // A7.7.185      TBB, TBH - T1
+                // this is a `match`; give up the stack usage analysis
+                stack = None;
             } else if v7
                 && matches(first, "0b11110_x_xxxxxxxxxx")
                 && matches(second, "0b10_x_0_x_xxxxxxxxxxx")
-- 
2.43.0


From fcaf17e1604b75591e90013bca9de5826896639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 31/47] fix: MOV PC, Rm is an indirect branch

---
 src/thumb.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 17db8cc..c0233e9 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -272,7 +272,13 @@ pub fn analyze(
             continue;
         } else if matches(first, "0b010001_10_x_xxxx_xxx") {
             // A7.7.76  MOV (register) - T1
-            continue;
+            let rd = ((first[0] >> 4) & 0b1000) | (first[0] & 0b0111);
+            let rm = (first[0] >> 3) & 0b1111;
+
+            // `mov pc, <Rm>` is a branch; `mov pc, lr` is just a `return`
+            if rd == 0b1111 && rm != 0b1110 {
+                indirect = true;
+            }
         } else if matches(first, "0b000_00_00000_xxx_xxx") {
             // A7.7.76  MOV (register) - T2
             continue;
-- 
2.43.0


From 7a33b08655384a2286e0c145a0aa2842939e1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 32/47] fix: STRD with writeback was not recognized as a stack
 adjustment

---
 src/thumb.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index c0233e9..898e839 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -595,6 +595,15 @@ pub fn analyze(
                 imm32 += 2 * i + 4;
 
                 bls.push(imm32);
+            } else if v7 && matches(first, "0b11101_00_x_0_1_1_0_1101") {
+                // A7.7.163      STRD (immediate) - T1
+                // (writeback, post/pre-increment, subtract immediate)
+                // e.g. 'e96d 4502       strd    r4, r5, [sp, #-8]!'
+                modifies_sp = true;
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += 4 * u64::from(second[0]);
+                }
             } else if matches(first, "0b11111_0000100_xxxx")
                 && matches(second, "0bxxxx_1x01_xxxxxxxx")
             {
-- 
2.43.0


From ac639c29b5bf8d5ad5ae0226ef59a830c01f2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 33/47] fix: 'cargo call-stack' passed its own subcommand name
 on as the start point

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 78f95db..cba431d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -131,7 +131,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     Builder::from_env(Env::default().default_filter_or("warn")).init();
 
-    let args = Args::parse();
+    // NOTE `cargo call-stack` passes the name of the subcommand as the first argument
+    let args = Args::parse_from(
+        env::args_os()
+            .enumerate()
+            .filter(|(i, arg)| *i != 1 || arg != "call-stack")
+            .map(|(_, arg)| arg),
+    );
     let profile = Profile::Release;
 
     let file = match (&args.example, &args.bin) {
-- 
2.43.0


From 38801b8d8f484f2ec94fad65e773cfc2e03c935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 34/47] fix: the source of an artifact in an unconventional
 place was not touched when src/main.rs belongs to another one

---
 src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cba431d..389b8c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -224,22 +224,21 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     } else {
         "src/bin"
     });
+    let main_rs = root.join("src/main.rs");
+    // NOTE this one is only the root of the binary that has the name of the package
+    let is_main = args.bin.as_deref() == Some(project.name());
+    let mut touched = filetime::set_file_times(&main_rs, now, now).is_ok() && is_main;
     let crate_roots = [
-        root.join("src/main.rs"),
         root.join("src/lib.rs"),
         dir.join(format!("{}.rs", file)),
         dir.join(file).join("main.rs"),
     ];
-    let mut touched = false;
     for path in &crate_roots {
         touched |= filetime::set_file_times(path, now, now).is_ok();
     }
     if !touched {
         // unconventional layout; look for rust source files and "touch" them
-        let src = root.join("src");
-        let haystack = if src.exists() { &src } else { root };
-
-        for entry in WalkDir::new(haystack)
+        for entry in WalkDir::new(root)
             .into_iter()
             .filter_entry(|entry| entry.path() != project.target_dir())
         {
-- 
2.43.0


From 2386ccfeb48ce9e39adbcd91963082d114c65555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 35/47] fix: an indirect call of a variadic function was
 matched against a wrong signature

---
 src/ir/define.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 7377b4a..ebc4f34 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -253,6 +253,11 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
+    // variadic calls spell out the whole type of the callee, e.g. `call i32 (i8*, ...) %f(i8* %x, i32 1)`
+    if let Some(Type::Fn(sig)) = output {
+        return Ok((i, Stmt::IndirectCall(sig)));
+    }
+
     Ok((
         i,
         Stmt::IndirectCall(FnSig {
-- 
2.43.0


From 77d9dcfb20378d8faeb66c3529233dcde5571f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 36/47] fix: declared functions that format something may be
 called through a formatter too

---
 src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 389b8c9..92450b6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -565,6 +565,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
             .next()
         {
+            if formats(&sig) {
+                fmts.insert(idx);
+            }
+
             indirects.entry(sig).or_default().callees.insert(idx);
         } else if !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
@@ -1642,3 +1646,14 @@ fn is_outlined_function(name: &str) -> bool {
         false
     }
 }
+
+// whether this is the signature of `fn(&_, &mut fmt::Formatter) -> fmt::Result`
+fn formats(sig: &FnSig) -> bool {
+    match (&sig.inputs[..], sig.output.as_ref()) {
+        ([Type::Pointer(..), Type::Pointer(fmt)], Some(output)) => {
+            **fmt == Type::Alias("core::fmt::Formatter") && **output == Type::Integer(1)
+        }
+
+        _ => false,
+    }
+}
-- 
2.43.0


From acf0615b32cc418963a63b132ec4c3761edba785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 37/47] fix: the canonical signature of formatters takes a
 pointer

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 92450b6..ab4d31f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1135,7 +1135,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // canonicalize the signature
                     if one_true_void != "fmt::Void" {
-                        sig.inputs[0] = Type::Alias("fmt::Void");
+                        sig.inputs[0] = Type::Pointer(Box::new(Type::Alias("fmt::Void")));
                     }
 
                     &fmts
-- 
2.43.0


From 4f3a454423d05cff146f66399c7ecd707b8569d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 38/47] fix: which type stands for all receivers of formatters
 does not depend on hashing

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ab4d31f..3536e2e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1098,7 +1098,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     None
                 }
             })
-            .next()
+            // (do not depend on the iteration order of `indirects`)
+            .min()
             .or_else(|| {
                 if all_maybe_void.len() == 1 {
                     // we got a random type!
-- 
2.43.0


From 4e04d24fdf386ee789e53249df71a829b9c245f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 39/47] fix: a formatter's pseudo receiver type is known from
 the calls, too

---
 src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3536e2e..1ed4130 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1061,6 +1061,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         );
     }
 
+    // what these call is unknown but the calls must not be ignored
+    for (sig, callers) in unmatched {
+        let indirect = indirects.entry(sig).or_default();
+        indirect.called = true;
+        indirect.callers = callers;
+    }
+
     // this is a bit weird but for some reason `ArgumentV1.formatter` sometimes lowers to different
     // LLVM types. In theory it should always be: `i1 (*%fmt::Void, *&core::fmt::Formatter)*` but
     // sometimes the type of the first argument is `%fmt::Void`, sometimes it's `%core::fmt::Void`,
@@ -1110,13 +1117,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             })
     };
 
-    // what these call is unknown but the calls must not be ignored
-    for (sig, callers) in unmatched {
-        let indirect = indirects.entry(sig).or_default();
-        indirect.called = true;
-        indirect.callers = callers;
-    }
-
     for (mut sig, indirect) in indirects {
         if !indirect.called {
             continue;
-- 
2.43.0


From 01bb4febf311800b1317a3c07f4ba4817078991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:01 +0000
Subject: [PATCH 40/47] fix: do not shorten a name to the name of another
 function

Only names that end in a hash were counted when looking for ambiguous
ones, so `app::foo::h0123456789abcdef` became `app::foo` although another
function has exactly that name.
---
 src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1ed4130..5773b7b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -529,10 +529,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             has_stack_usage_info = true;
         }
 
+        // NOTE names without a hash are shown as they are; they count, too
         let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        if let Some(dehashed) = dehash(&demangled) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
+        let path = dehash(&demangled).unwrap_or(&demangled);
+        *ambiguous.entry(path.to_string()).or_insert(0) += 1;
 
         let idx = g.add_node(Node(canonical_name, stack, false));
         // NOTE the function can be referred to by any of its names
@@ -792,9 +792,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             *idx
                         } else {
                             let demangled = rustc_demangle::demangle(func).to_string();
-                            if let Some(dehashed) = dehash(&demangled) {
-                                *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-                            }
+                            let path = dehash(&demangled).unwrap_or(&demangled);
+                            *ambiguous.entry(path.to_string()).or_insert(0) += 1;
 
                             let idx = g.add_node(Node(*func, None, false));
                             indices.insert((*func).into(), idx);
-- 
2.43.0


From 8c5fbb0e367eb4936e585f8ba081b91d996a83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:01 +0000
Subject: [PATCH 41/47] fix: only take the hash of a mangled name for a hash

The last component of a name that carries none, e.g. of those in the v0
mangling, may look like one. It was dropped.
---
 src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5773b7b..2be062c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -531,7 +531,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         // NOTE names without a hash are shown as they are; they count, too
         let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        let path = dehash(&demangled).unwrap_or(&demangled);
+        let path = path_of(canonical_name, &demangled).unwrap_or(&demangled);
         *ambiguous.entry(path.to_string()).or_insert(0) += 1;
 
         let idx = g.add_node(Node(canonical_name, stack, false));
@@ -792,7 +792,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             *idx
                         } else {
                             let demangled = rustc_demangle::demangle(func).to_string();
-                            let path = dehash(&demangled).unwrap_or(&demangled);
+                            let path = path_of(func, &demangled).unwrap_or(&demangled);
                             *ambiguous.entry(path.to_string()).or_insert(0) += 1;
 
                             let idx = g.add_node(Node(*func, None, false));
@@ -1179,7 +1179,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let hits = indices
                 .keys()
                 .filter_map(|key| {
-                    if dehash(&rustc_demangle::demangle(key).to_string()) == Some(start) {
+                    if path_of(key, &rustc_demangle::demangle(key).to_string()) == Some(start) {
                         Some(key)
                     } else {
                         None
@@ -1322,7 +1322,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     for node in g.node_weights_mut() {
         let demangled = rustc_demangle::demangle(&node.name).to_string();
 
-        if let Some(dehashed) = dehash(&demangled) {
+        if let Some(dehashed) = path_of(&node.name, &demangled) {
             if ambiguous.get(dehashed) == Some(&1) {
                 node.name = Cow::Owned(dehashed.to_owned());
             }
@@ -1597,6 +1597,13 @@ struct Indirect {
     callees: HashSet<NodeIndex>,
 }
 
+// the path of a symbol whose name ends in a hash
+//
+// NOTE the last component of other names, e.g. of those in the v0 mangling, may just look like one
+fn path_of<'a>(symbol: &str, demangled: &'a str) -> Option<&'a str> {
+    dehash(demangled).filter(|path| format!("{:#}", rustc_demangle::demangle(symbol)) == *path)
+}
+
 // removes hashes like `::hfc5adc5d79855638`, if present
 fn dehash(demangled: &str) -> Option<&str> {
     const HASH_LENGTH: usize = 19;
-- 
2.43.0


From 36fe86c3c3fb8f861b06c614976f9f2add6ee061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:01 +0000
Subject: [PATCH 42/47] fix: memory intrinsics may be lowered to the routines
 for 8-byte aligned data

LLVM calls e.g. `__aeabi_memcpy8` when both pointers are 8-byte aligned
(ARMv7-R and the like).
---
 src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 2be062c..72a6782 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -681,6 +681,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memcpy8") {
+                            call(*callee);
+                        }
+
                         continue;
                     }
 
@@ -698,6 +702,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memmove8") {
+                            call(*callee);
+                        }
+
                         continue;
                     }
 
@@ -717,6 +725,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memset8") {
+                            call(*callee);
+                        }
+
                         if let Some(callee) = indices.get("memclr") {
                             call(*callee);
                         }
@@ -729,6 +741,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             call(*callee);
                         }
 
+                        if let Some(callee) = indices.get("__aeabi_memclr8") {
+                            call(*callee);
+                        }
+
                         continue;
                     }
 
-- 
2.43.0


From 2b716485cf3a079fe089935b4bd73edf079f0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 43/47] fix: a function folded with an outlined one can still
 be called through a pointer

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 72a6782..48f1824 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -570,7 +570,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             }
 
             indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !is_outlined_function(canonical_name) {
+        } else if !names.iter().all(|name| is_outlined_function(name)) {
             // ^ functions produced by LLVM's function outliner are never called through function
             // pointers (as of LLVM 14.0.6)
             has_untyped_symbols = true;
-- 
2.43.0


From ea7f3b71263284b498afc18deee327fe820a2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 44/47] fix: merged functions of different types can be called
 through pointers of any of them

---
 src/main.rs | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 48f1824..d2d044a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -542,39 +542,32 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let _out = addr2index.insert(*address, idx);
         debug_assert!(_out.is_none());
 
-        if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
-            // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
-            match (&def.sig.inputs[..], def.sig.output.as_ref()) {
-                ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
-                    if **fmt == Type::Alias("core::fmt::Formatter")
-                        && **output == Type::Integer(1) =>
-                {
-                    fmts.insert(idx);
-                }
+        // NOTE functions of different types may have been merged, e.g. by the linker; each of the names
+        // has its own type
+        let sigs = names
+            .iter()
+            .filter_map(|name| {
+                defines
+                    .get(name)
+                    .map(|def| def.sig.clone())
+                    .or_else(|| declares.get(name).and_then(|decl| decl.sig.clone()))
+            })
+            .collect::<Vec<_>>();
 
-                _ => {}
-            }
+        if sigs.is_empty() && !names.iter().all(|name| is_outlined_function(name)) {
+            // ^ functions produced by LLVM's function outliner are never called through function
+            // pointers (as of LLVM 14.0.6)
+            has_untyped_symbols = true;
+            warn!("no type information for `{}`", canonical_name);
+        }
 
-            indirects
-                .entry(def.sig.clone())
-                .or_default()
-                .callees
-                .insert(idx);
-        } else if let Some(sig) = names
-            .iter()
-            .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-            .next()
-        {
+        for sig in sigs {
+            // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
             if formats(&sig) {
                 fmts.insert(idx);
             }
 
             indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !names.iter().all(|name| is_outlined_function(name)) {
-            // ^ functions produced by LLVM's function outliner are never called through function
-            // pointers (as of LLVM 14.0.6)
-            has_untyped_symbols = true;
-            warn!("no type information for `{}`", canonical_name);
         }
     }
 
-- 
2.43.0


From af873e2ad01d01970f6a304280f4fc0e201943d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 45/47] fix: symbols only called through a bitcast count when
 names are shortened

---
 src/main.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d2d044a..d58845e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -612,9 +612,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     } else {
                         warn!("no stack information for `{}`", sym);
 
-                        let idx = g.add_node(Node(sym, None, false));
-                        indices.insert(Cow::Borrowed(sym), idx);
-                        idx
+                        add_external(&mut g, &mut indices, &mut ambiguous, sym)
                     };
 
                     if !callees_seen.contains(&callee) {
@@ -800,14 +798,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         if let Some(idx) = indices.get(*func) {
                             *idx
                         } else {
-                            let demangled = rustc_demangle::demangle(func).to_string();
-                            let path = path_of(func, &demangled).unwrap_or(&demangled);
-                            *ambiguous.entry(path.to_string()).or_insert(0) += 1;
-
-                            let idx = g.add_node(Node(*func, None, false));
-                            indices.insert((*func).into(), idx);
-
-                            idx
+                            add_external(&mut g, &mut indices, &mut ambiguous, func)
                         }
                     };
 
@@ -1606,6 +1597,22 @@ struct Indirect {
     callees: HashSet<NodeIndex>,
 }
 
+// adds the node of a function that is not part of the program
+fn add_external<'a>(
+    g: &mut DiGraph<Node<'a>, ()>,
+    indices: &mut BTreeMap<Cow<'a, str>, NodeIndex>,
+    ambiguous: &mut HashMap<String, u32>,
+    name: &'a str,
+) -> NodeIndex {
+    let demangled = rustc_demangle::demangle(name).to_string();
+    let path = path_of(name, &demangled).unwrap_or(&demangled);
+    *ambiguous.entry(path.to_string()).or_insert(0) += 1;
+
+    let idx = g.add_node(Node(name, None, false));
+    indices.insert(name.into(), idx);
+    idx
+}
+
 // the path of a symbol whose name ends in a hash
 //
 // NOTE the last component of other names, e.g. of those in the v0 mangling, may just look like one
-- 
2.43.0


From 7bf4863d439563e6f1edb01807bfa9be33cc6da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 46/47] fix: calls of an undefined memcmp are calls

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d58845e..2fcb23a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -781,7 +781,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // if the intrinsic has no corresponding node (symbol in the output ELF) assume
                     // that it has been lowered to machine code
                     const SYMBOLLESS_INTRINSICS: &[&str] = &["memcmp"];
-                    if SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func) {
+                    if SYMBOLLESS_INTRINSICS.contains(func)
+                        && !indices.contains_key(*func)
+                        && !symbols.undefined.contains(func)
+                    {
                         continue;
                     }
 
-- 
2.43.0


From 838717bb6bb6ccbc1811f4bb8a48da6d89a484ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 47/47] fix: memory intrinsics can lower to calls of undefined
 symbols

---
 src/main.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 2fcb23a..ed8d62e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -643,6 +643,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
+                    // NOTE memory routines may be undefined symbols, too
+                    if !target_.is_thumb() {
+                        for routine in symbols.undefined.iter().copied() {
+                            if may_lower_to(func, routine) && !indices.contains_key(routine) {
+                                add_external(&mut g, &mut indices, &mut ambiguous, routine);
+                            }
+                        }
+                    }
+
                     let mut call = |callee| {
                         if !callees_seen.contains(&callee) {
                             g.add_edge(caller, callee, ());
@@ -1616,6 +1625,21 @@ fn add_external<'a>(
     idx
 }
 
+// whether the memory intrinsic may lower to a call to the library routine
+fn may_lower_to(intrinsic: &str, routine: &str) -> bool {
+    let routine = match routine.strip_prefix("__aeabi_") {
+        Some(name) => name.strip_suffix(&['4', '8'][..]).unwrap_or(name),
+        None => routine,
+    };
+
+    match routine {
+        "memcpy" => intrinsic.starts_with("llvm.memcpy."),
+        "memmove" => intrinsic.starts_with("llvm.memmove."),
+        "memset" | "memclr" => intrinsic.starts_with("llvm.memset."),
+        _ => false,
+    }
+}
+
 // the path of a symbol whose name ends in a hash
 //
 // NOTE the last component of other names, e.g. of those in the v0 mangling, may just look like one
-- 
2.43.0

