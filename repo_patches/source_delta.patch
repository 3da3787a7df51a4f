From 72b304af454d263c20baf189d1b96b1baac9f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 01/22] fix: report input too short for oversized string
 lengths instead of panicking

---
 src/serialization/stream.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..58f194e 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,26 +85,17 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
 
-        if self.offset > self.data.len() {
-            return Err(LunifyError::InputTooShort);
-        }
+        // The length might come from the byte code, so it can be arbitrarily big.
+        self.offset = start.saturating_add(length);
 
-        Ok(&self.data[start..self.offset])
+        self.data.get(start..self.offset).ok_or(LunifyError::InputTooShort)
     }
 
     pub fn string(&mut self) -> Result<String, LunifyError> {
-        let length = self.size_t()? as usize;
-        let start = self.offset;
-
-        self.offset += length;
-
-        if self.offset > self.data.len() {
-            return Err(LunifyError::InputTooShort);
-        }
+        let length = usize::try_from(self.size_t()?).map_err(|_| LunifyError::InputTooShort)?;
 
-        Ok(self.data[start..self.offset].iter().map(|&byte| byte as char).collect())
+        Ok(self.slice(length)?.iter().map(|&byte| byte as char).collect())
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From e369d5e80b6c87cb683acd665cd6845c331a517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 02/22] fix: only return the input unchanged when it is
 complete and nothing needs conversion

---
 src/lib.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..cd537fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,14 +36,6 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
 
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
-    // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
-        #[cfg(feature = "debug")]
-        println!("\n======== Done ========\n");
-
-        return Ok(input_bytes.to_vec());
-    }
-
     byte_stream.set_format(input_format);
 
     let root_function = Function::from_byte_stream(&mut byte_stream, version, settings)?;
@@ -52,6 +44,19 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
         return Err(LunifyError::InputTooLong);
     }
 
+    // If the input is already in the correct format, return it as is.
+    let is_matching = version == LuaVersion::Lua51
+        && input_format == *output_format
+        && settings.lua51 == settings.output
+        && input_bytes.starts_with(settings.output.binary_signature.as_bytes());
+
+    if is_matching && !cfg!(test) {
+        #[cfg(feature = "debug")]
+        println!("\n======== Done ========\n");
+
+        return Ok(input_bytes.to_vec());
+    }
+
     let mut byte_writer = ByteWriter::new(output_format);
 
     byte_writer.slice(settings.output.binary_signature.as_bytes());
-- 
2.43.0


From 675ebe014a77bf3d17fe6ff21bdc79e5d89918f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 03/22] fix: write strings byte for byte instead of as UTF-8

---
 src/serialization/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..4b4a57a 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -41,8 +41,10 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        // Every character is one byte of the input, so it has to be written as a single
+        // byte again. Writing the UTF-8 representation would change the string.
+        self.size_t(value.chars().count() as i64);
+        self.data.extend(value.chars().map(|character| character as u8));
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From 83d446fc90ab51130c7f30518cf8d4f0e4ad8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 04/22] fix: keep the upvalue count of functions without debug
 information

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..0d36e76 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From 5c7eacf8731fda69d83c68dd9c4a6c7aaa01282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 05/22] fix: convert instructions of functions without line
 information

---
 src/function/convert.rs | 14 ++++++++++++--
 src/function/upcast.rs  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..c51823b 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -16,7 +16,12 @@ pub(crate) fn convert(
 
     let mut builder = FunctionBuilder::default();
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // If the debug information is stripped there is no line info, but all the
+    // instructions still need to be converted.
+    let is_stripped = line_info.is_empty();
+    let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
+
+    for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
 
@@ -104,7 +109,12 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match is_stripped {
+        true => Ok((instructions, Vec::new())),
+        false => Ok((instructions, line_info)),
+    }
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..d4d99a8 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -15,7 +15,12 @@ pub(crate) fn upcast(
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // If the debug information is stripped there is no line info, but all the
+    // instructions still need to be converted.
+    let is_stripped = line_info.is_empty();
+    let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
+
+    for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         builder.set_line_number(line_number);
 
         match instruction {
@@ -354,7 +359,12 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match is_stripped {
+        true => Ok((instructions, Vec::new())),
+        false => Ok((instructions, line_info)),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1176f23c5962d6b1c5da0a7415246a22377071a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 06/22] fix: return errors instead of panicking on damaged
 jumps and calls

---
 src/error.rs                      |  3 ++
 src/function/builder.rs           | 50 +++++++++++++++++++++----------
 src/function/convert.rs           |  2 +-
 src/function/instruction/lua51.rs |  2 +-
 src/function/upcast.rs            |  2 +-
 5 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..b2afb3e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,4 +55,7 @@ pub enum LunifyError {
     /// The Lua 5.0 `FORLOOP` instruction specified a positive jump, even though
     /// we expect it to always be negative.
     UnexpectedForwardJump,
+    /// The Lua 5.0 `FORLOOP` instruction specified a jump to a destination
+    /// before the start of the function.
+    InvalidJumpDestination,
 }
diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..8e5e238 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,7 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
@@ -61,7 +61,11 @@ impl FunctionBuilder {
     pub(super) fn remove_instruction(&mut self, index: usize) {
         let removed = self.contexts.remove(index);
         self.line_info.remove(index);
-        self.contexts[index].line_weight += removed.line_weight - 1;
+
+        // If the byte code is damaged there might not be any instruction left.
+        if let Some(context) = self.contexts.get_mut(index) {
+            context.line_weight += removed.line_weight - 1;
+        }
     }
 
     pub(super) fn last_instruction_fixed(&mut self) {
@@ -80,36 +84,52 @@ impl FunctionBuilder {
         self.contexts.len()
     }
 
-    fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
-        let (mut steps, mut offset) = match destination.is_positive() {
-            true => (destination + 1, 1),
-            false => (destination.abs(), 0),
+    fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
+        let is_forward = !destination.is_negative();
+
+        // Number of instructions of the original byte code that still need to be
+        // passed. When jumping forward this includes the destination, so that extra
+        // instructions in front of the destination are skipped.
+        let mut steps = match is_forward {
+            true => destination + 1,
+            false => destination.abs(),
         };
+        // Number of instructions of the new byte code that were already passed.
+        let mut offset = 0;
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+        while steps > 0 {
+            let index = match is_forward {
+                true => context_index.checked_add(offset + 1),
+                false => context_index.checked_sub(offset),
+            };
+
+            // The destination is outside of the function. That can only happen if the byte
+            // code is damaged, so we just leave it outside of the function.
+            let Some(context) = index.and_then(|index| self.contexts.get(index)) else {
+                break;
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
             steps += context.line_weight - 1;
             offset += 1;
         }
 
-        destination + final_offset
+        let distance = offset as i64 + steps.max(0);
+
+        match is_forward {
+            true => distance - 1 + final_offset,
+            false => final_offset - distance,
+        }
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-        if bx.is_positive() {
+        if !bx.is_negative() {
             return Err(LunifyError::UnexpectedForwardJump);
         }
 
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        usize::try_from(program_counter as i64 + new_bx).map_err(|_| LunifyError::InvalidJumpDestination)
     }
 
     pub(super) fn finalize(
diff --git a/src/function/convert.rs b/src/function/convert.rs
index c51823b..b796acb 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -52,7 +52,7 @@ pub(crate) fn convert(
 
                 // Go back until we find some instruction that moves data to a stack position
                 // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
+                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
                     let instruction = builder.get_instruction(instruction_index);
 
                     // It might technically be possible for the element on slot A to be on the stack
diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..45cf889 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,7 +131,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..(a + c.0).saturating_sub(1)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index d4d99a8..f3e1dc4 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -264,7 +264,7 @@ pub(crate) fn upcast(
 
                 // Go back until we find some instruction that moves data to a stack position
                 // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
+                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
                     let instruction = builder.get_instruction(instruction_index);
 
                     // It might technically be possible for the element on slot A to be on the stack
-- 
2.43.0


From d4116af0989610225e9569a5529f49b054740f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 07/22] fix: keep the extra word of Lua 5.1 table assignments
 with a large page

---
 src/function/convert.rs           |  6 +++++
 src/function/instruction/lua51.rs |  6 +++++
 src/function/mod.rs               | 40 ++++++++++++++++++++++++++-----
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index b796acb..b4ef441 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -29,6 +29,12 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
+                // The page is too big for the C operand and stored in an extra word, so the page
+                // might not fit the C operand with another `fields_per_flush` either.
+                if c.0 == 0 {
+                    return Err(LunifyError::ValueTooBigForOperand);
+                }
+
                 let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
                 let page = flat_index / settings.output.fields_per_flush;
                 let offset = flat_index % settings.output.fields_per_flush;
diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 45cf889..e0706d7 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -97,6 +97,12 @@ lua_instructions! {
 }
 
 impl Instruction {
+    /// `SetList` stores the page in the following word if it is too big for the
+    /// C operand, which is then set to zero.
+    pub(crate) fn has_extra_word(&self) -> bool {
+        matches!(self, Instruction::SetList { mode: BC(_, c), .. } if c.0 == 0)
+    }
+
     /// Get the stack index that a given instruction will move data into.
     /// `SetTable` and `SetList` are technically not moving any data, but rather
     /// modifying it, but we need this behavior for detecting the correct
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0d36e76..24fa725 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -34,12 +34,22 @@ pub(crate) struct Function {
 }
 
 impl Function {
-    fn get_instructions<T>(byte_stream: &mut ByteStream, settings: &Settings, layout: &InstructionLayout) -> Result<Vec<T>, LunifyError>
+    /// Get all instructions, as well as the position and value of all extra
+    /// words. Extra words are not instructions, so they are represented by a
+    /// copy of the instruction they belong to.
+    #[allow(clippy::type_complexity)]
+    fn get_instructions<T>(
+        byte_stream: &mut ByteStream,
+        settings: &Settings,
+        layout: &InstructionLayout,
+        has_extra_word: fn(&T) -> bool,
+    ) -> Result<(Vec<T>, Vec<(usize, u64)>), LunifyError>
     where
-        T: LuaInstruction + Debug,
+        T: LuaInstruction + Copy + Debug,
     {
         let instruction_count = byte_stream.integer()?;
         let mut instructions = Vec::new();
+        let mut extra_words = Vec::new();
 
         #[cfg(feature = "debug")]
         println!("instruction_count: {instruction_count}");
@@ -48,6 +58,14 @@ impl Function {
         println!("\n======== Instructions ========");
 
         for _program_counter in 0..instruction_count as usize {
+            if extra_words.last().map_or(true, |&(position, _)| position + 1 != instructions.len()) {
+                if let Some(instruction) = instructions.last().copied().filter(has_extra_word) {
+                    extra_words.push((instructions.len(), byte_stream.instruction()?));
+                    instructions.push(instruction);
+                    continue;
+                }
+            }
+
             let instruction = T::from_byte_stream(byte_stream, settings, layout)?;
 
             #[cfg(feature = "debug")]
@@ -56,7 +74,7 @@ impl Function {
             instructions.push(instruction);
         }
 
-        Ok(instructions)
+        Ok((instructions, extra_words))
     }
 
     fn get_constants(byte_stream: &mut ByteStream) -> Result<Vec<Constant>, LunifyError> {
@@ -224,7 +242,12 @@ impl Function {
         }
 
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
-            let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
+            let (instructions, extra_words) = Self::get_instructions(
+                byte_stream,
+                settings,
+                &settings.lua51.layout,
+                lua51::Instruction::has_extra_word,
+            )?;
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings)?;
             let line_info = Self::get_line_info(byte_stream)?;
@@ -234,7 +257,12 @@ impl Function {
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
             let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
-            let instructions = Self::strip_instructions(instructions, settings)?;
+            let mut instructions = Self::strip_instructions(instructions, settings)?;
+
+            // `convert` only accepts extra words if it doesn't move any instructions.
+            for (position, extra_word) in extra_words {
+                instructions[position] = extra_word;
+            }
 
             (instructions, constants, functions, line_info, local_variables, upvalues)
         } else {
@@ -243,7 +271,7 @@ impl Function {
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings)?;
-            let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
+            let (instructions, _) = Self::get_instructions(byte_stream, settings, &settings.lua50.layout, |_| false)?;
 
             if is_variadic != 0 {
                 // Lua 5.1 uses an addition flag called `VARARG_ISVARARG` for variadic functions
-- 
2.43.0


From f45275b8e8ca30a4d6150e3d4ebae98e0d8ad8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 08/22] fix: recognize the Lua 5.0 test number in single
 precision

---
 src/format/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..43201ed 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -93,8 +93,10 @@ impl Format {
             LuaVersion::Lua51 => byte_stream.byte()? == 1,
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
+                // Just like in Lua 5.0, only the integral part of the number is compared,
+                // because the fraction can't be represented by small numbers.
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                value.trunc() != 31415926.0
             }
         };
 
-- 
2.43.0


From c0938b609db0f9bd644f2b027879b7f6667d55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 09/22] fix: reject instruction layouts that exceed 64 bits

---
 src/function/instruction/operand/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..008b621 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -135,6 +135,11 @@ impl InstructionLayout {
             return Err(LunifyError::InvalidInstructionLayout);
         }
 
+        // Make sure that all operands fit into the biggest supported instruction.
+        if offset > u64::BITS as u64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let bx_size = b.size + c.size;
         let bx_position = u64::min(b.position, c.position);
         let bx = OperandLayout::new(bx_size, bx_position);
-- 
2.43.0


From bc617cd8a7944a551e4fc9716123ea887932d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 10/22] fix: report numbers that do not fit the requested
 number type

---
 src/number.rs               |  8 ++++++--
 src/serialization/writer.rs | 20 ++++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..99dc30c 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -8,12 +8,16 @@ pub(crate) enum Number {
     Integer(i64),
 }
 
+/// The first float that is too big for an integer.
+const TWO_POW_63: f64 = 9223372036854775808.0;
+
 impl Number {
     pub(crate) fn as_integer(self) -> Result<i64, LunifyError> {
         match self {
             Number::Integer(value) => Ok(value),
             Number::Float(value) => match value == value.round() {
-                true => Ok(value as i64),
+                true if value >= -TWO_POW_63 && value < TWO_POW_63 => Ok(value as i64),
+                true => Err(LunifyError::IntegerOverflow),
                 false => Err(LunifyError::FloatPrecisionLoss),
             },
         }
@@ -22,7 +26,7 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            Number::Integer(value) => match value as f64 as i128 == value as i128 {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 4b4a57a..01e7746 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -34,8 +34,24 @@ impl<'a> ByteWriter<'a> {
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
-            false => to_slice!(self, value.as_float()?, number_width, f32),
+            true => {
+                let value = value.as_integer()?;
+
+                if self.format.number_width == BitWidth::Bit32 && i32::try_from(value).is_err() {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, value, number_width, i32)
+            }
+            false => {
+                let float = value.as_float()?;
+
+                if self.format.number_width == BitWidth::Bit32 && matches!(value, Number::Integer(..)) && float as f32 as f64 != float {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, float, number_width, f32)
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 0759a6075d749f1bc112560bc9fbe53015ca6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 11/22] fix: report integers and instructions that do not fit
 the requested width

---
 src/error.rs                |  2 +-
 src/function/mod.rs         | 12 ++++++------
 src/serialization/writer.rs | 21 +++++++++++++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b2afb3e..9ef6ece 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -40,7 +40,7 @@ pub enum LunifyError {
     /// represented when `is_number_integral` is set to true.
     FloatPrecisionLoss,
     /// The byte code contains an integral value that is too big to be
-    /// represented when `is_number_integral` is set to false.
+    /// represented in the output format.
     IntegerOverflow,
     /// The byte code is truncated.
     InputTooShort,
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 24fa725..10cac25 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -315,8 +315,8 @@ impl Function {
     pub(crate) fn write(self, byte_writer: &mut ByteWriter) -> Result<(), LunifyError> {
         // function
         byte_writer.string(&self.source_file);
-        byte_writer.integer(self.line_defined);
-        byte_writer.integer(self.last_line_defined);
+        byte_writer.checked_integer(self.line_defined)?;
+        byte_writer.checked_integer(self.last_line_defined)?;
         byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
@@ -325,7 +325,7 @@ impl Function {
         // instructions
         byte_writer.integer(self.instructions.len() as i64);
         for instruction in self.instructions {
-            byte_writer.instruction(instruction);
+            byte_writer.checked_instruction(instruction)?;
         }
 
         // constants
@@ -362,15 +362,15 @@ impl Function {
         // line info
         byte_writer.integer(self.line_info.len() as i64);
         for line_info in self.line_info {
-            byte_writer.integer(line_info);
+            byte_writer.checked_integer(line_info)?;
         }
 
         // local variables
         byte_writer.integer(self.local_variables.len() as i64);
         for local_variable in self.local_variables {
             byte_writer.string(&local_variable.name);
-            byte_writer.integer(local_variable.start_program_counter);
-            byte_writer.integer(local_variable.end_program_counter);
+            byte_writer.checked_integer(local_variable.start_program_counter)?;
+            byte_writer.checked_integer(local_variable.end_program_counter)?;
         }
 
         // upvalues
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 01e7746..82f87b5 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -24,6 +24,17 @@ impl<'a> ByteWriter<'a> {
         to_slice!(self, value, integer_width, i32)
     }
 
+    /// Write an integer from the byte code that might not fit the requested
+    /// width.
+    pub fn checked_integer(&mut self, value: i64) -> Result<(), LunifyError> {
+        if self.format.integer_width == BitWidth::Bit32 && i32::try_from(value).is_err() {
+            return Err(LunifyError::IntegerOverflow);
+        }
+
+        self.integer(value);
+        Ok(())
+    }
+
     pub fn size_t(&mut self, value: i64) {
         to_slice!(self, value, size_t_width, i32)
     }
@@ -32,6 +43,16 @@ impl<'a> ByteWriter<'a> {
         to_slice!(self, instruction, instruction_width, u32)
     }
 
+    /// Write an instruction that might not fit the requested width.
+    pub fn checked_instruction(&mut self, instruction: u64) -> Result<(), LunifyError> {
+        if self.format.instruction_width == BitWidth::Bit32 && u32::try_from(instruction).is_err() {
+            return Err(LunifyError::ValueTooBigForOperand);
+        }
+
+        self.instruction(instruction);
+        Ok(())
+    }
+
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
             true => {
-- 
2.43.0


From b93a004fd4f31774255339e4e5cf3e1679734d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 12/22] fix: limit the nesting of functions instead of
 overflowing the stack

---
 src/error.rs        |  3 +++
 src/function/mod.rs | 26 ++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 9ef6ece..b2ddadd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -58,4 +58,7 @@ pub enum LunifyError {
     /// The Lua 5.0 `FORLOOP` instruction specified a jump to a destination
     /// before the start of the function.
     InvalidJumpDestination,
+    /// The byte code contains more functions nested in each other than Lua
+    /// supports.
+    FunctionNestingTooDeep,
 }
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 10cac25..9765423 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,10 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum number of functions that can be nested in each other. This is the
+/// same as the limit of the Lua interpreter (`LUAI_MAXCCALLS`).
+const MAXIMUM_NESTING: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -132,7 +136,12 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        nesting: usize,
+    ) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -140,7 +149,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as usize {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::from_nested(byte_stream, version, settings, nesting)?;
             functions.push(function);
         }
 
@@ -216,6 +225,15 @@ impl Function {
     }
 
     pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+        Self::from_nested(byte_stream, version, settings, 1)
+    }
+
+    fn from_nested(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings, nesting: usize) -> Result<Self, LunifyError> {
+        // Damaged byte code can contain arbitrarily many nested functions.
+        if nesting > MAXIMUM_NESTING {
+            return Err(LunifyError::FunctionNestingTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -249,7 +267,7 @@ impl Function {
                 lua51::Instruction::has_extra_word,
             )?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, nesting + 1)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -270,7 +288,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, nesting + 1)?;
             let (instructions, _) = Self::get_instructions(byte_stream, settings, &settings.lua50.layout, |_| false)?;
 
             if is_variadic != 0 {
-- 
2.43.0


From ccf3855ae1c809fe87b42a74109b96d4b63b7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 13/22] fix: check the stack size before expanding generic for
 loops

---
 src/function/upcast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f3e1dc4..d8b5514 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -114,6 +114,13 @@ pub(crate) fn upcast(
                     let call_base = a + variable_count + 2;
                     let constant_nil = constant_manager.constant_nil();
 
+                    // The number of variables might come from damaged byte code, so make sure that
+                    // they fit the stack before emitting an instruction for every one of them.
+                    let stack_size = call_base + u64::max(variable_count, 3);
+                    if stack_size > settings.output.stack_limit {
+                        return Err(LunifyError::StackTooLarge(stack_size));
+                    }
+
                     // Move the iterator function, the table and the index to our call base.
                     builder.instruction(lua51::Instruction::Move {
                         a: call_base,
-- 
2.43.0


From a8a65f8a43823ac9e4908ec2cc7074a90f155f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 14/22] fix: report the stack as too large instead of
 overflowing on damaged registers

---
 src/function/builder.rs           |  2 +-
 src/function/instruction/lua51.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 8e5e238..b92a234 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -149,7 +149,7 @@ impl FunctionBuilder {
             // we make space for the instructions that push the values onto the
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
-                let new_stack_size = destination.end + 1;
+                let new_stack_size = destination.end.saturating_add(1);
                 match new_stack_size <= settings.output.stack_limit {
                     true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
                     false => return Err(LunifyError::StackTooLarge(new_stack_size)),
diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index e0706d7..1e6ddab 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -120,7 +120,7 @@ impl Instruction {
             Instruction::SetUpValue { .. } => None,
             Instruction::SetTable { a, .. } => Some(a..a),
             Instruction::NewTable { a, .. } => Some(a..a),
-            Instruction::_Self { a, .. } => Some(a..a + 1),
+            Instruction::_Self { a, .. } => Some(a..a.saturating_add(1)),
             Instruction::Add { a, .. } => Some(a..a),
             Instruction::Subtract { a, .. } => Some(a..a),
             Instruction::Multiply { a, .. } => Some(a..a),
@@ -137,16 +137,16 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..(a + c.0).saturating_sub(1)),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.saturating_add(c.0).saturating_sub(1)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
-            Instruction::ForLoop { a, .. } => Some(a..a + 3),
-            Instruction::ForPrep { a, .. } => Some(a..a + 2),
-            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a + 2 + c.0),
+            Instruction::ForLoop { a, .. } => Some(a..a.saturating_add(3)),
+            Instruction::ForPrep { a, .. } => Some(a..a.saturating_add(2)),
+            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a.saturating_add(2).saturating_add(c.0)),
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max(a.saturating_add(b.0).saturating_sub(1))),
         }
     }
 }
-- 
2.43.0


From 8ec38f56d427c90dbc28266484bbb34590cbc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 15/22] fix: ignore failures to write trace output instead of
 panicking

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index cd537fd..ff5ee26 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,16 @@
 #![deny(rustdoc::broken_intra_doc_links)]
 #![deny(missing_docs)]
 
+/// Tracing must never influence a conversion, so unlike `std::println` this
+/// doesn't panic if the output can't be written.
+#[cfg(feature = "debug")]
+macro_rules! println {
+    ($($arguments:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arguments)*);
+    }};
+}
+
 mod error;
 mod number;
 #[macro_use]
-- 
2.43.0


From b2834bbbfd3cb958366956153da8bb87a3a873ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:27 +0000
Subject: [PATCH 16/22] fix: regroup the elements of tables when the fields per
 flush change

Elements were dropped, overwritten or added at the wrong index whenever a table
constructor did not consist of single loads, or ended in a call.
---
 src/error.rs            |   2 +
 src/function/builder.rs | 150 +++++++++++++++++++++++++++++++++++++++-
 src/function/convert.rs |  89 ++++--------------------
 src/function/upcast.rs  |  81 ++--------------------
 4 files changed, 173 insertions(+), 149 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b2ddadd..4725e48 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -61,4 +61,6 @@ pub enum LunifyError {
     /// The byte code contains more functions nested in each other than Lua
     /// supports.
     FunctionNestingTooDeep,
+    /// The instructions that initialize a table are damaged.
+    InvalidSetList,
 }
diff --git a/src/function/builder.rs b/src/function/builder.rs
index b92a234..d824c40 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,4 @@
+use super::instruction::{Generic, LuaInstruction, Register, BC};
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -68,6 +69,153 @@ impl FunctionBuilder {
         }
     }
 
+    /// The first register that the last instruction puts any number of values
+    /// in.
+    pub(super) fn open_register(&self) -> Option<u64> {
+        match self.contexts.last()?.instruction {
+            Instruction::Call { a, mode: BC(_, c) } if c.0 == 0 => Some(a),
+            Instruction::VarArg { a, mode: BC(b, _) } if b.0 == 0 => Some(a),
+            _ => None,
+        }
+    }
+
+    /// Insert an instruction that is executed right after the instruction before
+    /// it. Jumps to the instruction at `index` will land on the inserted
+    /// instruction instead.
+    fn insert_executed_instruction(&mut self, index: usize, instruction: Instruction) {
+        let mut context = InstructionContext::new_extra(instruction);
+        let line_number = self.line_info.get(index - 1).copied().unwrap_or(self.line_number);
+
+        if let Some(next) = self.contexts.get_mut(index) {
+            std::mem::swap(&mut context.line_weight, &mut next.line_weight);
+        }
+
+        self.contexts.insert(index, context);
+        self.line_info.insert(index, line_number);
+    }
+
+    /// Add the elements in the registers following `a` to the table in `a`.
+    ///
+    /// The byte code we are converting adds elements to the table in batches of
+    /// a different size than the output, so unless all of the elements fit the
+    /// first batch they need to be regrouped. Elements that were already added
+    /// but didn't fill the batch of the output are kept on the stack for
+    /// longer, and if there are more elements than the size of the batch we
+    /// add them as soon as they are on the stack.
+    ///
+    /// * `first_element`: Number of elements that were added to the table
+    ///   already.
+    /// * `element_count`: Number of elements on the stack. If `is_open` is set,
+    ///   the last one is a call or `...` and might be any number of elements.
+    pub(super) fn set_list(
+        &mut self,
+        a: u64,
+        first_element: u64,
+        element_count: u64,
+        is_open: bool,
+        settings: &Settings,
+    ) -> Result<(), LunifyError> {
+        let fields_per_flush = settings.output.fields_per_flush;
+        let mut page = 1;
+        let mut count = element_count;
+
+        // There is no stack that is able to hold that many elements.
+        if a.saturating_add(element_count) > u8::MAX as u64 || fields_per_flush == 0 {
+            return Err(LunifyError::InvalidSetList);
+        }
+
+        if first_element != 0 {
+            let mut start = self.get_program_counter();
+
+            // Find the instruction that added the previous elements.
+            let added_count = loop {
+                start = start.checked_sub(1).ok_or(LunifyError::InvalidSetList)?;
+
+                match self.contexts[start].instruction {
+                    Instruction::SetList { a: table, mode: BC(b, c) } if table == a => {
+                        page = c.0;
+                        break b.0;
+                    }
+                    Instruction::NewTable { a: table, .. } if table == a => return Err(LunifyError::InvalidSetList),
+                    _ => continue,
+                }
+            };
+
+            let is_expected = added_count != 0 && (page - 1).checked_mul(fields_per_flush) == first_element.checked_sub(added_count);
+            if !is_expected {
+                return Err(LunifyError::InvalidSetList);
+            }
+
+            if added_count < fields_per_flush {
+                // The batch of the output is not full yet, so keep the elements on the stack.
+                self.remove_instruction(start);
+                self.move_elements(start, a, added_count as i64);
+                count += added_count;
+            } else {
+                page += 1;
+            }
+        }
+
+        while count > fields_per_flush {
+            let register = a + fields_per_flush;
+
+            // Find the instruction that put the last element of the batch on the stack.
+            // None of the following elements will touch that register anymore.
+            let mut index = self
+                .contexts
+                .iter()
+                .rposition(|context| matches!(context.instruction.stack_destination(), Some(range) if range.start <= register && range.end >= register))
+                .ok_or(LunifyError::InvalidSetList)?;
+
+            match self.contexts[index].instruction {
+                // Elements that are nil are put on the stack by a single instruction, which
+                // might include elements of the next batch.
+                Instruction::LoadNil { a: first, mode: BC(last, unused) } if last.0 > register => {
+                    *self.get_instruction(index) = Instruction::LoadNil {
+                        a: first,
+                        mode: BC(Register(register), unused),
+                    };
+                    self.insert_executed_instruction(index + 1, Instruction::LoadNil {
+                        a: register + 1,
+                        mode: BC(last, unused),
+                    });
+                }
+                // The instructions following a closure specify the upvalues, they don't put any
+                // elements on the stack.
+                Instruction::Closure { .. } => {
+                    while let Some(Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. }) =
+                        self.contexts.get(index + 1).map(|context| context.instruction)
+                    {
+                        index += 1;
+                    }
+                }
+                _ => {}
+            }
+
+            self.insert_executed_instruction(index + 1, Instruction::SetList {
+                a,
+                mode: BC(Generic(fields_per_flush), Generic(page)),
+            });
+            self.move_elements(index + 2, a, -(fields_per_flush as i64));
+
+            count -= fields_per_flush;
+            page += 1;
+        }
+
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(Generic(if is_open { 0 } else { count }), Generic(page)),
+        });
+        Ok(())
+    }
+
+    /// Move all stack accesses above the table in `a`.
+    fn move_elements(&mut self, start: usize, a: u64, offset: i64) {
+        for context in &mut self.contexts[start..] {
+            context.instruction.move_stack_accesses(a + 1, offset);
+        }
+    }
+
     pub(super) fn last_instruction_fixed(&mut self) {
         self.contexts.last_mut().unwrap().is_fixed = true;
     }
@@ -76,7 +224,7 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
+    fn get_instruction(&mut self, index: usize) -> &mut Instruction {
         &mut self.contexts[index].instruction
     }
 
diff --git a/src/function/convert.rs b/src/function/convert.rs
index b4ef441..8c1f00e 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,5 +1,5 @@
 use super::builder::FunctionBuilder;
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -35,81 +35,22 @@ pub(crate) fn convert(
                     return Err(LunifyError::ValueTooBigForOperand);
                 }
 
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
+                let first_element = settings
+                    .lua51
+                    .fields_per_flush
+                    .checked_mul(c.0 - 1)
+                    .ok_or(LunifyError::InvalidSetList)?;
+
+                // If b is 0 the last element is a call or `...`, which is always the previous
+                // instruction.
+                let is_open = b.0 == 0;
+                let element_count = match is_open {
+                    true => builder.open_register().and_then(|register| register.checked_sub(a)),
+                    false => Some(b.0),
                 };
+                let element_count = element_count.filter(|count| *count != 0).ok_or(LunifyError::InvalidSetList)?;
 
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, first_element, element_count, is_open, settings)?;
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index d8b5514..4000232 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,6 +1,6 @@
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -247,82 +247,15 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
-                // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
+                let first_element = match settings.lua50.fields_per_flush {
+                    0 => return Err(LunifyError::InvalidSetList),
+                    fields_per_flush => bx - bx % fields_per_flush,
                 };
 
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
+                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction.
+                let is_open = matches!(instruction, lua50::Instruction::SetListO { .. });
 
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, first_element, bx - first_element + 1, is_open, settings)?;
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From 205110eb1bd78765eca1ae912c2882676d72c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 17/22] fix: move the range of local variables along with their
 instructions

Error messages named the wrong variable after instructions were inserted or
removed in front of it.
---
 src/function/builder.rs | 29 +++++++++++++++++++++++++++++
 src/function/convert.rs | 20 ++++++++++++++++++++
 src/function/mod.rs     | 13 +++++++++----
 src/function/upcast.rs  | 26 ++++++++++++++++++++++++++
 4 files changed, 84 insertions(+), 4 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index d824c40..e86c506 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,4 +1,5 @@
 use super::instruction::{Generic, LuaInstruction, Register, BC};
+use super::local::LocalVariable;
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -280,6 +281,34 @@ impl FunctionBuilder {
         usize::try_from(program_counter as i64 + new_bx).map_err(|_| LunifyError::InvalidJumpDestination)
     }
 
+    /// Move the range of local variables along with the instructions.
+    pub(super) fn adjust_local_variables(&self, local_variables: &mut [LocalVariable]) {
+        // New position of every original instruction, and of their end.
+        let mut positions = Vec::new();
+
+        for (index, context) in self.contexts.iter().enumerate() {
+            for _ in context.line_weight..1 {
+                positions.push(index as i64);
+            }
+        }
+
+        positions.push(self.contexts.len() as i64);
+
+        // Parameters are there from the very first instruction, so the start of the
+        // function never moves. If the byte code is damaged the range might be outside
+        // of the function, in that case we just leave it there.
+        let adjust = |program_counter: &mut i64| {
+            if *program_counter > 0 {
+                *program_counter = positions.get(*program_counter as usize).copied().unwrap_or(*program_counter);
+            }
+        };
+
+        for local_variable in local_variables {
+            adjust(&mut local_variable.start_program_counter);
+            adjust(&mut local_variable.end_program_counter);
+        }
+    }
+
     pub(super) fn finalize(
         mut self,
         maximum_stack_size: &mut u8,
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 8c1f00e..c759c61 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,12 +1,31 @@
 use super::builder::FunctionBuilder;
 use crate::function::instruction::BC;
+use crate::function::local::LocalVariable;
 use crate::{lua51, LunifyError, Settings};
 
+/// Same as [`convert_function`], for a function without local variables.
+#[cfg(test)]
 pub(crate) fn convert(
     instructions: Vec<lua51::Instruction>,
     line_info: Vec<i64>,
     maximum_stack_size: &mut u8,
     settings: &Settings,
+) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+    convert_function(
+        instructions,
+        line_info,
+        &mut [],
+        maximum_stack_size,
+        settings,
+    )
+}
+
+pub(crate) fn convert_function(
+    instructions: Vec<lua51::Instruction>,
+    line_info: Vec<i64>,
+    local_variables: &mut [LocalVariable],
+    maximum_stack_size: &mut u8,
+    settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
     // If `fields_per_flush` is the same, there is nothing to convert, so return
     // early.
@@ -56,6 +75,7 @@ pub(crate) fn convert(
         };
     }
 
+    builder.adjust_local_variables(local_variables);
     let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
 
     match is_stripped {
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 9765423..857e6da 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -8,11 +8,15 @@ mod upcast;
 use std::fmt::Debug;
 
 use self::constant::Constant;
+#[cfg(test)]
 use self::convert::convert;
+use self::convert::convert_function;
 use self::instruction::LuaInstruction;
 pub use self::instruction::{lua50, lua51, InstructionLayout, OperandType, Settings};
 use self::local::LocalVariable;
+#[cfg(test)]
 use self::upcast::upcast;
+use self::upcast::upcast_function;
 use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
@@ -269,12 +273,12 @@ impl Function {
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting + 1)?;
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
 
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
-            let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            let (instructions, line_info) = convert_function(instructions, line_info, &mut local_variables, &mut maximum_stack_size, settings)?;
             let mut instructions = Self::strip_instructions(instructions, settings)?;
 
             // `convert` only accepts extra words if it doesn't move any instructions.
@@ -285,7 +289,7 @@ impl Function {
             (instructions, constants, functions, line_info, local_variables, upvalues)
         } else {
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting + 1)?;
@@ -298,9 +302,10 @@ impl Function {
             }
 
             // Up-cast instructions from Lua 5.0 to Lua 5.1.
-            let (instructions, line_info) = upcast(
+            let (instructions, line_info) = upcast_function(
                 instructions,
                 line_info,
+                &mut local_variables,
                 &mut constants,
                 &mut maximum_stack_size,
                 parameter_count,
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 4000232..9f76100 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,8 +1,11 @@
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
+use super::local::LocalVariable;
 use crate::LunifyError;
 
+/// Same as [`upcast_function`], for a function without local variables.
+#[cfg(test)]
 pub(crate) fn upcast(
     instructions: Vec<lua50::Instruction>,
     line_info: Vec<i64>,
@@ -11,6 +14,28 @@ pub(crate) fn upcast(
     parameter_count: u8,
     is_variadic: bool,
     settings: &Settings,
+) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+    upcast_function(
+        instructions,
+        line_info,
+        &mut [],
+        constants,
+        maximum_stack_size,
+        parameter_count,
+        is_variadic,
+        settings,
+    )
+}
+
+pub(crate) fn upcast_function(
+    instructions: Vec<lua50::Instruction>,
+    line_info: Vec<i64>,
+    local_variables: &mut [LocalVariable],
+    constants: &mut Vec<Constant>,
+    maximum_stack_size: &mut u8,
+    parameter_count: u8,
+    is_variadic: bool,
+    settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
@@ -299,6 +324,7 @@ pub(crate) fn upcast(
         });
     }
 
+    builder.adjust_local_variables(local_variables);
     let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
 
     match is_stripped {
-- 
2.43.0


From cba93f5a69304c35790b8ef142678bd7d6a3bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 18/22] fix: keep elements of a table whose condition jumps
 into the next element

When the elements of a table are regrouped, a SETLIST might be inserted between
two elements. The compiler combines the jump at the end of an element like
`a == b or c` with the jump at the start of an element like `false and d`, so
the SETLIST in between was never executed.
---
 src/function/builder.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index e86c506..f36f6cc 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -193,6 +193,7 @@ impl FunctionBuilder {
                 _ => {}
             }
 
+            self.shorten_jumps(a, index + 1);
             self.insert_executed_instruction(index + 1, Instruction::SetList {
                 a,
                 mode: BC(Generic(fields_per_flush), Generic(page)),
@@ -210,6 +211,26 @@ impl FunctionBuilder {
         Ok(())
     }
 
+    /// An element that is the result of a condition (e.g. `a == b or c`) might
+    /// be finished by a jump to the next element. If that one starts with a
+    /// jump as well (e.g. `false and a`) both of them are combined to a single
+    /// jump, which never passes the instructions between the two elements.
+    /// Make the jumps from the elements of the table in `a` that are in front
+    /// of `index` land there instead, from there the second jump is taken.
+    fn shorten_jumps(&mut self, a: u64, index: usize) {
+        let mut distance = 0;
+
+        for context in self.contexts[..index].iter_mut().rev() {
+            match &mut context.instruction {
+                Instruction::NewTable { a: table, .. } if *table == a => break,
+                Instruction::Jump { mode, .. } if !context.is_fixed => mode.0 = mode.0.min(distance),
+                _ => {}
+            }
+
+            distance += 1 - context.line_weight;
+        }
+    }
+
     /// Move all stack accesses above the table in `a`.
     fn move_elements(&mut self, start: usize, a: u64, offset: i64) {
         for context in &mut self.contexts[start..] {
-- 
2.43.0


From 393d107420b4755722126aaf2143d228db396014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 19/22] fix: end of a generic for loop is visible to closures
 capturing the variable

Lua 5.0 sets the variable to nil when the iteration ends, but TFORLOOP of Lua 5.1
leaves it at the last value. Use the instructions for multiple variables if there
is a closure that might notice.
---
 src/function/builder.rs | 19 +++++++++++++++++++
 src/function/upcast.rs  |  6 ++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index f36f6cc..4088b2b 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -80,6 +80,25 @@ impl FunctionBuilder {
         }
     }
 
+    /// Check if there is a closure that captures `register`.
+    pub(super) fn is_captured(&self, register: u64) -> bool {
+        let mut is_upvalue = false;
+
+        // The instructions following a closure specify its upvalues.
+        self.contexts.iter().any(|context| match context.instruction {
+            Instruction::Closure { .. } => {
+                is_upvalue = true;
+                false
+            }
+            Instruction::Move { a: 0, mode: BC(b, _) } if is_upvalue => b.0 == register,
+            Instruction::GetUpValue { a: 0, .. } => false,
+            _ => {
+                is_upvalue = false;
+                false
+            }
+        })
+    }
+
     /// Insert an instruction that is executed right after the instruction before
     /// it. Jumps to the instruction at `index` will land on the inserted
     /// instruction instead.
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 9f76100..3a0929b 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -124,8 +124,10 @@ pub(crate) fn upcast_function(
                 // the subsequent moves are done by `MOVE` instructions.
 
                 // If the argument count is 1 (`argument count = c - 1`), we can just map
-                // directly to Lua 5.1 `TFORLOOP`.
-                if c.0 == 0 {
+                // directly to Lua 5.1 `TFORLOOP`. The only difference is that Lua 5.1 doesn't
+                // set the variable to nil at the end of the iteration, which a closure that
+                // captured the variable would notice.
+                if c.0 == 0 && !builder.is_captured(a + 2) {
                     builder.instruction(lua51::Instruction::TForLoop {
                         a,
                         mode: BC(Unused, Generic(c.0 + 1)),
-- 
2.43.0


From 9962f1fa16b08e58f370ae7854a177053baa9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 20/22] fix: numeric for loops whose limit or step is a string

Lua 5.0 converts the limit and the step, and raises an error if they are not
numbers. FORLOOP of Lua 5.1 doesn't, it reads them as numbers no matter what they
are. Use FORPREP to check and convert them before entering the loop.
---
 src/function/builder.rs | 52 ++++++++++++++++++++++++++++++++++++++++-
 src/function/upcast.rs  |  4 ++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 4088b2b..6cae13d 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,4 +1,4 @@
-use super::instruction::{Generic, LuaInstruction, Register, BC};
+use super::instruction::{ConstantRegister, Generic, LuaInstruction, Register, SignedBx, Unused, BC};
 use super::local::LocalVariable;
 use super::Settings;
 use crate::lua51::Instruction;
@@ -80,6 +80,56 @@ impl FunctionBuilder {
         }
     }
 
+    /// Convert the limit and the step of the numeric for loop in `a` to numbers
+    /// before entering the loop. Returns the new position of the body of the
+    /// loop.
+    ///
+    /// The instructions in front of the body are always a `SUB` followed by the
+    /// `JMP` to the `FORLOOP` instruction. The limit and the step are converted
+    /// by `FORPREP`, which also does the subtraction. Since the initial value
+    /// might not be a number we keep the `SUB` instruction and restore the
+    /// result. The only register that is not used by the loop yet is RA+3.
+    pub(super) fn prepare_for_loop(&mut self, a: u64, position: usize) -> usize {
+        let Some(start) = position.checked_sub(2) else {
+            return position;
+        };
+
+        let is_subtraction = matches!(
+            self.contexts[start].instruction,
+            Instruction::Subtract { a: index, mode: BC(b, c) }
+                if index == a && b == ConstantRegister(a, false) && c == ConstantRegister(a + 2, false)
+        );
+        let is_jump = matches!(self.contexts[start + 1].instruction, Instruction::Jump { .. });
+
+        if !is_subtraction || !is_jump {
+            return position;
+        }
+
+        let instructions = [
+            Instruction::Move {
+                a: a + 3,
+                mode: BC(Register(a), Unused),
+            },
+            Instruction::ForPrep { a, mode: SignedBx(0) },
+            Instruction::Move {
+                a,
+                mode: BC(Register(a + 3), Unused),
+            },
+        ];
+
+        for (offset, instruction) in instructions.into_iter().enumerate() {
+            let context = InstructionContext {
+                is_fixed: true,
+                ..InstructionContext::new_extra(instruction)
+            };
+
+            self.contexts.insert(start + 1 + offset, context);
+            self.line_info.insert(start + 1 + offset, self.line_number);
+        }
+
+        position + instructions.len()
+    }
+
     /// Check if there is a closure that captures `register`.
     pub(super) fn is_captured(&self, register: u64) -> bool {
         let mut is_upvalue = false;
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 3a0929b..31b7ae9 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -106,6 +106,10 @@ pub(crate) fn upcast_function(
                 // make the old Bx invalid.
                 let position = builder.adjusted_jump_destination(mode.0)?;
 
+                // Lua 5.1 expects that the limit and the step are numbers, while Lua 5.0 checks
+                // and converts them. Therefore we need to do that before entering the loop.
+                let position = builder.prepare_for_loop(a, position);
+
                 // Instruction to restore RA+3 if we take the jump.
                 // This instruction is actually inserted *before* the `SETGLOBAL` instruction,
                 // but this works because of the way that for loops are
-- 
2.43.0


From 9fc494ca92889cd51ad75939813e570629f1f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 21/22] fix: functions that need more stack than the output has
 are refused

---
 src/function/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 857e6da..a5d3374 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -318,6 +318,11 @@ impl Function {
             (instructions, constants, functions, line_info, local_variables, upvalues)
         };
 
+        // The input might be allowed to use more of the stack than the output.
+        if maximum_stack_size as u64 > settings.output.stack_limit {
+            return Err(LunifyError::StackTooLarge(maximum_stack_size as u64));
+        }
+
         Ok(Self {
             source_file,
             line_defined,
-- 
2.43.0


From 12cc8ed249a103db7b6d88e97cbf1c2c90bca42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 22/22] fix: refuse instruction layouts that no specification
 describes when deserializing

---
 src/function/instruction/operand/layout.rs | 52 ++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 008b621..0d4dce8 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -49,6 +49,7 @@ pub enum OperandType {
 /// Memory layout of instructions inside the Lua byte code (`SIZE_*`, `POS_*`).
 #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "UncheckedLayout"))]
 pub struct InstructionLayout {
     pub(crate) opcode: OperandLayout,
     pub(crate) a: OperandLayout,
@@ -156,6 +157,57 @@ impl InstructionLayout {
     }
 }
 
+/// An [`InstructionLayout`] that was deserialized but not yet validated.
+#[cfg(feature = "serde")]
+#[derive(Deserialize)]
+#[serde(rename = "InstructionLayout")]
+struct UncheckedLayout {
+    opcode: OperandLayout,
+    a: OperandLayout,
+    b: OperandLayout,
+    c: OperandLayout,
+    bx: OperandLayout,
+    signed_offset: i64,
+}
+
+#[cfg(feature = "serde")]
+impl TryFrom<UncheckedLayout> for InstructionLayout {
+    type Error = &'static str;
+
+    fn try_from(unchecked: UncheckedLayout) -> Result<Self, Self::Error> {
+        let UncheckedLayout {
+            opcode,
+            a,
+            b,
+            c,
+            bx,
+            signed_offset,
+        } = unchecked;
+        let layout = Self {
+            opcode,
+            a,
+            b,
+            c,
+            bx,
+            signed_offset,
+        };
+
+        let mut operands = [
+            (opcode.position, OperandType::Opcode(opcode.size)),
+            (a.position, OperandType::A(a.size)),
+            (b.position, OperandType::B(b.size)),
+            (c.position, OperandType::C(c.size)),
+        ];
+        operands.sort_by_key(|(position, _)| *position);
+
+        // Only accept what could have been created from a specification.
+        match Self::from_specification(operands.map(|(_, operand)| operand)) {
+            Ok(expected) if expected == layout => Ok(layout),
+            _ => Err("invalid instruction layout"),
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::function::instruction::operand::OperandLayout;
-- 
2.43.0

