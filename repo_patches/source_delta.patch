From 3e5ec489fd74db563ef477af09c3044ff0d37cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 01/17] fix: report a length past the end of the input instead
 of panicking

---
 src/serialization/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..9a7548e 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,7 +85,7 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
@@ -98,7 +98,7 @@ impl<'a> ByteStream<'a> {
         let length = self.size_t()? as usize;
         let start = self.offset;
 
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
-- 
2.43.0


From 49401121d92d6f11943098f44df760b77068c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 02/17] fix: write strings with bytes above 0x7F unchanged

---
 src/serialization/writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..dfcf0d6 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -41,8 +41,12 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        // Every byte of a Lua string is stored as one character, see
+        // `ByteStream::string`.
+        let bytes: Vec<u8> = value.chars().map(|character| character as u8).collect();
+
+        self.size_t(bytes.len() as i64);
+        self.slice(&bytes);
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From f2f9687092f9747b605386922e5df8df75592dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 03/17] fix: convert input that matches the output format in
 everything but version or settings

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..c82bc58 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,7 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
     // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    if version == LuaVersion::Lua51 && input_format == *output_format && settings.lua51 == settings.output && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
-- 
2.43.0


From 4dfa08102cf32b0242c44af08ef4e44fe439da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 04/17] fix: recognize 32-bit floating point numbers in Lua 5.0
 headers

---
 src/format/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..eb9b2dd 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,11 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                let expected = match number_width {
+                    BitWidth::Bit32 => f64::from(31415926.535897933_f32),
+                    BitWidth::Bit64 => 31415926.535897933,
+                };
+                value != expected
             }
         };
 
-- 
2.43.0


From fc4f6d88eab0d887310c901d164932806ed08d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 05/17] fix: keep the number of upvalues of functions without
 upvalue names

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..0d36e76 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From ee78bc80f50b30a3a1469483e1d8fdedf2b00119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 06/17] fix: keep the instructions of functions without line
 info

---
 src/function/convert.rs | 12 +++++++++++-
 src/function/upcast.rs  | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..e62d5fe 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -16,6 +16,10 @@ pub(crate) fn convert(
 
     let mut builder = FunctionBuilder::default();
 
+    // Stripped functions don't have any line info.
+    let is_stripped = line_info.is_empty();
+    let line_info = line_info.into_iter().chain(std::iter::repeat(0));
+
     for (instruction, line_number) in instructions.into_iter().zip(line_info) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
@@ -104,7 +108,13 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    if is_stripped {
+        line_info.clear();
+    }
+
+    Ok((instructions, line_info))
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..c60945a 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -15,6 +15,10 @@ pub(crate) fn upcast(
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
+    // Stripped functions don't have any line info.
+    let is_stripped = line_info.is_empty();
+    let line_info = line_info.into_iter().chain(std::iter::repeat(0));
+
     for (instruction, line_number) in instructions.into_iter().zip(line_info) {
         builder.set_line_number(line_number);
 
@@ -354,7 +358,13 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    if is_stripped {
+        line_info.clear();
+    }
+
+    Ok((instructions, line_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From cacccafeb05af7895c5db72945de1b22d872d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 07/17] fix: adjust jumps to removed instructions and jumps
 that leave the function

---
 src/function/builder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..cb35290 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -86,15 +86,23 @@ impl FunctionBuilder {
             false => (destination.abs(), 0),
         };
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+        let direction = destination.signum();
+
+        while steps > 0 {
+            let index = match direction.is_positive() {
+                true => context_index.checked_add(offset),
+                false => context_index.checked_sub(offset),
+            };
+
+            // The jump leaves the function, so there is nothing more to adjust.
+            let Some(context) = index.and_then(|index| self.contexts.get(index)) else {
+                break;
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
             steps += context.line_weight - 1;
+            // If the destination was removed, `steps` is negative and we jump to the
+            // instruction that took its place.
+            destination += (context.line_weight - steps.min(0)) * direction;
             offset += 1;
         }
 
-- 
2.43.0


From c70374d63d2aab5074e73411d37740f0fb0f1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 08/17] fix: handle loops without a valid body and variadic
 functions without instructions

---
 src/function/builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index cb35290..9bbaf31 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,7 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
@@ -110,14 +110,15 @@ impl FunctionBuilder {
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-        if bx.is_positive() {
+        if !bx.is_negative() {
             return Err(LunifyError::UnexpectedForwardJump);
         }
 
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        // A jump to before the first instruction is clamped.
+        Ok(((program_counter as i64) + new_bx).max(0) as usize)
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From 4d87766a99dc1cb5f4b42a544930fe8581d9c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 09/17] fix: avoid overflows when determining the stack slots
 used by an instruction

---
 src/function/builder.rs           |  2 +-
 src/function/instruction/lua51.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 9bbaf31..cdfb0e7 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -138,7 +138,7 @@ impl FunctionBuilder {
             // we make space for the instructions that push the values onto the
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
-                let new_stack_size = destination.end + 1;
+                let new_stack_size = destination.end.saturating_add(1);
                 match new_stack_size <= settings.output.stack_limit {
                     true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
                     false => return Err(LunifyError::StackTooLarge(new_stack_size)),
diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..21da86a 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -114,7 +114,7 @@ impl Instruction {
             Instruction::SetUpValue { .. } => None,
             Instruction::SetTable { a, .. } => Some(a..a),
             Instruction::NewTable { a, .. } => Some(a..a),
-            Instruction::_Self { a, .. } => Some(a..a + 1),
+            Instruction::_Self { a, .. } => Some(a..a.saturating_add(1)),
             Instruction::Add { a, .. } => Some(a..a),
             Instruction::Subtract { a, .. } => Some(a..a),
             Instruction::Multiply { a, .. } => Some(a..a),
@@ -131,16 +131,16 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.saturating_add(c.0).saturating_sub(1)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
-            Instruction::ForLoop { a, .. } => Some(a..a + 3),
-            Instruction::ForPrep { a, .. } => Some(a..a + 2),
-            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a + 2 + c.0),
+            Instruction::ForLoop { a, .. } => Some(a..a.saturating_add(3)),
+            Instruction::ForPrep { a, .. } => Some(a..a.saturating_add(2)),
+            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a.saturating_add(2 + c.0)),
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max(a.saturating_add(b.0).saturating_sub(1))),
         }
     }
 }
-- 
2.43.0


From 8f337d01974eafd7c5de8ef23fd79a8d9fe6fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 10/17] fix: accept SETLIST as the first instruction of a
 function

---
 src/function/convert.rs | 2 +-
 src/function/upcast.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index e62d5fe..bae5f5f 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -51,7 +51,7 @@ pub(crate) fn convert(
 
                 // Go back until we find some instruction that moves data to a stack position
                 // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
+                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
                     let instruction = builder.get_instruction(instruction_index);
 
                     // It might technically be possible for the element on slot A to be on the stack
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index c60945a..cec5557 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -263,7 +263,7 @@ pub(crate) fn upcast(
 
                 // Go back until we find some instruction that moves data to a stack position
                 // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
+                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
                     let instruction = builder.get_instruction(instruction_index);
 
                     // It might technically be possible for the element on slot A to be on the stack
-- 
2.43.0


From 4dbfe5e257879eea4b49f4ef85fe249023e3acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 11/17] fix: keep full pages of Lua 5.0 table constructors on
 their page

---
 src/function/upcast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index cec5557..824c817 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -240,8 +240,8 @@ pub(crate) fn upcast(
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
                 let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
+                let page = bx / settings.output.fields_per_flush;
+                let offset = bx % settings.output.fields_per_flush + 1;
 
                 // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
                 // of `SETLISTO` is used when b is equal to zero.
-- 
2.43.0


From 87b966209b6374238f79a5900968961a0840e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 12/17] fix: keep full and open pages of Lua 5.1 table
 constructors on their page

---
 src/function/convert.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index bae5f5f..8ff108a 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -28,9 +28,14 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
+                // If c is 0, the page number is stored in the following instruction because it
+                // is too big for the operand.
+                let input_page = c.0.checked_sub(1).ok_or(LunifyError::ValueTooBigForOperand)?;
+                // If b is 0, there is an unknown number of values on the stack.
+                let is_open = b.0 == 0;
+                let flat_index = b.0.max(1) + (settings.lua51.fields_per_flush * input_page);
+                let mut output_page = (flat_index - 1) / settings.output.fields_per_flush;
+                let offset = (flat_index - 1) % settings.output.fields_per_flush + 1;
 
                 // If b was 0 before, we need to keep it that way.
                 let b = match b.0 {
@@ -41,7 +46,7 @@ pub(crate) fn convert(
                 // Good case: we are on the first page and the number of entries is smaller than
                 // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
                 // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
+                if output_page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
                     builder.instruction(lua51::Instruction::SetList {
                         a,
                         mode: BC(Generic(b), Generic(1)),
@@ -92,6 +97,11 @@ pub(crate) fn convert(
                                 builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
                                 instruction_index += 1;
                             }
+
+                            // Without a known number of values, the page is the one we ended up on.
+                            if is_open {
+                                output_page = page - 1;
+                            }
                         }
 
                         break;
@@ -101,7 +111,7 @@ pub(crate) fn convert(
                 // Append the original instruction.
                 builder.instruction(lua51::Instruction::SetList {
                     a,
-                    mode: BC(Generic(b), Generic(page + 1)),
+                    mode: BC(Generic(b), Generic(output_page + 1)),
                 });
             }
             instruction => builder.instruction(instruction),
-- 
2.43.0


From 5061f64764e45d34acb611a848058c56493890ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 13/17] fix: reject instruction layouts that are wider than an
 instruction

---
 src/function/instruction/operand/layout.rs | 10 ++++++++++
 src/lib.rs                                 |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..50991ae 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -59,6 +59,11 @@ pub struct InstructionLayout {
 }
 
 impl InstructionLayout {
+    /// Number of bits used by an instruction.
+    pub(crate) fn size(&self) -> u64 {
+        self.opcode.size + self.a.size + self.b.size + self.c.size
+    }
+
     /// Create a memory layout from a list of [`OperandType`]s.
     ///# Example
     ///
@@ -125,6 +130,11 @@ impl InstructionLayout {
             }
         }
 
+        // Instructions are at most 64 bits wide.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
diff --git a/src/lib.rs b/src/lib.rs
index c82bc58..e3bc0d4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,6 +52,11 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
         return Err(LunifyError::InputTooLong);
     }
 
+    // Instructions that are wider than the output format allows would be truncated.
+    if settings.output.layout.size() > u64::from(u8::from(output_format.instruction_width)) * 8 {
+        return Err(LunifyError::InvalidInstructionLayout);
+    }
+
     let mut byte_writer = ByteWriter::new(output_format);
 
     byte_writer.slice(settings.output.binary_signature.as_bytes());
-- 
2.43.0


From 910751a2a5a4dff45ac4f5eaf3122546909d5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 14/17] fix: report numbers that can't be represented as an
 integer or float

---
 src/number.rs               |  4 ++--
 src/serialization/writer.rs | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..462eb6e 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -12,7 +12,7 @@ impl Number {
     pub(crate) fn as_integer(self) -> Result<i64, LunifyError> {
         match self {
             Number::Integer(value) => Ok(value),
-            Number::Float(value) => match value == value.round() {
+            Number::Float(value) => match value == value.round() && value as i64 as i128 == value as i128 {
                 true => Ok(value as i64),
                 false => Err(LunifyError::FloatPrecisionLoss),
             },
@@ -22,7 +22,7 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            Number::Integer(value) => match value as f64 as i128 == value as i128 {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dfcf0d6..b23bbc8 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -34,7 +34,15 @@ impl<'a> ByteWriter<'a> {
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
+            true => {
+                let value = value.as_integer()?;
+
+                if self.format.number_width == BitWidth::Bit32 && i32::try_from(value).is_err() {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, value, number_width, i32)
+            }
             false => to_slice!(self, value.as_float()?, number_width, f32),
         }
         Ok(())
-- 
2.43.0


From 7d38fef255abce42a8488bcb6cdfe3102b339ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 15/17] fix: store the values of table constructors at the
 correct index for all page sizes

---
 src/function/builder.rs | 104 ++++++++++++++++++++++++++++++++++++++--
 src/function/convert.rs |  86 ++-------------------------------
 src/function/upcast.rs  |  83 ++++----------------------------
 3 files changed, 112 insertions(+), 161 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index cdfb0e7..f22212a 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,4 @@
+use super::instruction::{Generic, LuaInstruction, Register, Unused, BC};
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -72,14 +73,109 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
-        &mut self.contexts[index].instruction
-    }
-
     pub(super) fn get_program_counter(&self) -> usize {
         self.contexts.len()
     }
 
+    /// Append a `SETLIST` instruction for the values of the table `a` starting
+    /// at `first_index`. Since the number of values that can be stored at once
+    /// might differ from the input, the previous instructions are modified to
+    /// store the values at the correct page. `count` is `None` if the number of
+    /// values on the stack is unknown.
+    pub(super) fn set_list(&mut self, a: u64, first_index: u64, count: Option<u64>, fields_per_flush: u64) {
+        let mut page = first_index / fields_per_flush + 1;
+        let mut pending = first_index % fields_per_flush;
+
+        // Go back until we find the creation of the table or the previous `SETLIST`,
+        // because that is where the setup starts.
+        let program_counter = self.get_program_counter();
+        let start = (0..program_counter.saturating_sub(1)).rev().find(|index| {
+            matches!(self.contexts[*index].instruction, Instruction::NewTable { a: table, .. } | Instruction::SetList { a: table, .. } if table == a)
+        });
+        let mut index = start.map_or(0, |index| index + 1);
+
+        // If the previous page isn't full yet, remove the `SETLIST` instruction and add
+        // our values to that page.
+        match start {
+            Some(start) if pending != 0 && matches!(self.contexts[start].instruction, Instruction::SetList { .. }) => {
+                self.remove_instruction(start);
+                index = start;
+
+                for context in &mut self.contexts[index..] {
+                    context.instruction.move_stack_accesses(a + 1, pending as i64);
+                }
+            }
+            _ => pending = 0,
+        }
+
+        let mut remaining = match (count, self.contexts.last()) {
+            (Some(count), _) => pending + count,
+            // The last value is always a function call or a variadic argument.
+            (None, Some(context)) => match context.instruction {
+                Instruction::Call { a: last, .. } | Instruction::VarArg { a: last, .. } => last.saturating_sub(a).min(u8::MAX as u64),
+                _ => 0,
+            },
+            (None, None) => 0,
+        };
+
+        while remaining > fields_per_flush {
+            // The page is full after the last instruction that writes its last value.
+            let last_register = a + fields_per_flush;
+            let writes_last = |context: &InstructionContext| {
+                let destination = context.instruction.stack_destination();
+                matches!(destination, Some(destination) if destination.start <= last_register && last_register <= destination.end)
+            };
+            let Some(offset) = self.contexts[index..].iter().rposition(writes_last) else {
+                break;
+            };
+            index += offset + 1;
+
+            // The upvalues of a closure can't be separated from it.
+            let is_upvalue = |instruction| matches!(instruction, Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. });
+            while matches!(self.contexts.get(index), Some(context) if is_upvalue(context.instruction)) {
+                index += 1;
+            }
+
+            let set_list = Instruction::SetList {
+                a,
+                mode: BC(Generic(fields_per_flush), Generic(page)),
+            };
+
+            match &mut self.contexts[index - 1].instruction {
+                // A single `LOADNIL` might set values of multiple pages.
+                Instruction::LoadNil { mode: BC(end, _), .. } if end.0 > last_register => {
+                    let mode = BC(Register(end.0), Unused);
+                    end.0 = last_register;
+                    self.insert_extra_instruction(index, Instruction::LoadNil { a: last_register + 1, mode });
+                    self.insert_extra_instruction(index, set_list);
+                }
+                _ => {
+                    self.insert_extra_instruction(index, set_list);
+
+                    // Jumps to the next value need to land on the `SETLIST` instruction.
+                    if index + 1 < self.contexts.len() {
+                        self.contexts[index].line_weight -= 1;
+                        self.contexts[index + 1].line_weight += 1;
+                    }
+                }
+            }
+            index += 1;
+
+            for context in &mut self.contexts[index..] {
+                context.instruction.move_stack_accesses(a + 1, -(fields_per_flush as i64));
+            }
+
+            remaining -= fields_per_flush;
+            page += 1;
+        }
+
+        let count = count.map_or(0, |_| remaining);
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(Generic(count), Generic(page)),
+        });
+    }
+
     fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
         let (mut steps, mut offset) = match destination.is_positive() {
             true => (destination + 1, 1),
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 8ff108a..7f7672b 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,5 +1,5 @@
 use super::builder::FunctionBuilder;
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -32,87 +32,9 @@ pub(crate) fn convert(
                 // is too big for the operand.
                 let input_page = c.0.checked_sub(1).ok_or(LunifyError::ValueTooBigForOperand)?;
                 // If b is 0, there is an unknown number of values on the stack.
-                let is_open = b.0 == 0;
-                let flat_index = b.0.max(1) + (settings.lua51.fields_per_flush * input_page);
-                let mut output_page = (flat_index - 1) / settings.output.fields_per_flush;
-                let offset = (flat_index - 1) % settings.output.fields_per_flush + 1;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if output_page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-
-                            // Without a known number of values, the page is the one we ended up on.
-                            if is_open {
-                                output_page = page - 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(output_page + 1)),
-                });
+                let count = (b.0 != 0).then_some(b.0);
+
+                builder.set_list(a, settings.lua51.fields_per_flush * input_page, count, settings.output.fields_per_flush);
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 824c817..4e7fda8 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,6 +1,6 @@
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -239,82 +239,15 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = bx / settings.output.fields_per_flush;
-                let offset = bx % settings.output.fields_per_flush + 1;
-
-                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
-                // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
+                let offset = bx % settings.lua50.fields_per_flush;
 
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
+                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction.
+                let count = match instruction {
+                    lua50::Instruction::SetListO { .. } => None,
+                    _ => Some(offset + 1),
+                };
 
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, bx - offset, count, settings.output.fields_per_flush);
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From 0231a3c7bea644d6b1048befcb6b5f2736ec248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 16/17] fix: don't reserve an unused register for the results
 of a function call

---
 src/function/instruction/lua51.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 21da86a..807cb79 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,7 +131,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.saturating_add(c.0).saturating_sub(1)),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.max(a.saturating_add(c.0).saturating_sub(2))),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a.saturating_add(3)),
-- 
2.43.0


From f7d5ba217191c92d79febb26cd3bf5ce54a4eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 17/17] fix: count the registers of VARARG correctly

The operand B is the number of values plus one, so the last register that
is written is A+B-2. One register too many was reserved, and a function
that needs exactly the maximum number of registers was rejected.
---
 src/function/instruction/lua51.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 807cb79..e5df35f 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -140,7 +140,7 @@ impl Instruction {
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max(a.saturating_add(b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max(a.saturating_add(b.0).saturating_sub(2))),
         }
     }
 }
-- 
2.43.0

