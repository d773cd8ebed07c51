From 35d13fae11737292c057e0eee6202422451b56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 01/86] verif: guarded step-budget hook (cfg verif_hooks)

---
 cordy-sys/src/compiler/parser/core/mod.rs |  6 +++++
 cordy-sys/src/compiler/scanner.rs         |  2 ++
 cordy-sys/src/lib.rs                      |  3 +++
 cordy-sys/src/verif.rs                    | 29 +++++++++++++++++++++++
 cordy-sys/src/vm/mod.rs                   |  3 +++
 cordy-sys/src/vm/value/mod.rs             |  4 ++++
 6 files changed, 47 insertions(+)
 create mode 100644 cordy-sys/src/verif.rs

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..25c968a 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -134,6 +134,8 @@ impl<'a> Parser<'a> {
 
     /// Specialization of `peek()`, does not consume newlines, for checking if a specific syntax token is on the same line as the preceding one.
     pub fn peek_no_newline(&self) -> Option<&ScanToken> {
+        #[cfg(verif_hooks)]
+        crate::verif::tick();
         if self.error_recovery {
             return None
         }
@@ -152,6 +154,8 @@ impl<'a> Parser<'a> {
     pub fn peek3(&self) -> Option<&ScanToken> { self.peek_lookahead(2) }
 
     fn peek_lookahead(&self, mut lookahead: u8) -> Option<&ScanToken> {
+        #[cfg(verif_hooks)]
+        crate::verif::tick();
         if !self.error_recovery {
             for (_, token) in &self.input {
                 if token != &NewLine {
@@ -177,6 +181,8 @@ impl<'a> Parser<'a> {
     /// Advances and returns the next incoming token.
     /// Will also advance past any newline tokens, and so the advanced token will be the next token _after_ any newlines between the last token and the next.
     pub fn advance_both(&mut self) -> Option<(Location, ScanToken)> {
+        #[cfg(verif_hooks)]
+        crate::verif::tick();
         if self.error_recovery {
             return None
         }
diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..dd1d39a 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -591,6 +591,8 @@ impl<'a> Scanner<'a> {
 
     /// Inspects the next character and returns it, without consuming it
     fn peek(&mut self) -> Option<char> {
+        #[cfg(verif_hooks)]
+        crate::verif::tick();
         self.chars.peek().copied()
     }
 }
diff --git a/cordy-sys/src/lib.rs b/cordy-sys/src/lib.rs
index 953cfa0..c91fc2a 100644
--- a/cordy-sys/src/lib.rs
+++ b/cordy-sys/src/lib.rs
@@ -10,6 +10,9 @@ pub mod repl;
 pub mod util;
 pub mod vm;
 
+#[cfg(verif_hooks)]
+pub mod verif;
+
 mod reporting;
 mod trace;
 mod core;
diff --git a/cordy-sys/src/verif.rs b/cordy-sys/src/verif.rs
new file mode 100644
index 0000000..fd36514
--- /dev/null
+++ b/cordy-sys/src/verif.rs
@@ -0,0 +1,29 @@
+//! Verification hook: a per-thread step budget. Only present when built with `--cfg verif_hooks`.
+//! Once the budget is exhausted, `tick()` panics with a `FuelExhausted` payload, which turns a diverging computation into a deterministic outcome.
+
+use std::cell::Cell;
+
+/// The panic payload raised when the step budget is exhausted
+pub struct FuelExhausted;
+
+thread_local! {
+    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Sets the number of steps the current thread may still take
+pub fn set_fuel(fuel: u64) {
+    FUEL.with(|f| f.set(fuel));
+}
+
+/// The number of steps the current thread may still take
+pub fn fuel() -> u64 {
+    FUEL.with(|f| f.get())
+}
+
+#[inline]
+pub(crate) fn tick() {
+    FUEL.with(|f| match f.get() {
+        0 => std::panic::panic_any(FuelExhausted),
+        n => f.set(n - 1),
+    });
+}
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..485585c 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -250,6 +250,9 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                 }
             }
 
+            #[cfg(verif_hooks)]
+            crate::verif::tick();
+
             // Fetch the current opcode, and always increment the IP immediately after
             let op: Opcode = unsafe {
                 // Skipping the bounds check gave a ~3% performance improvement on a spin-loop benchmark, so this is worth doing.
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..ba9a7ed 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -922,6 +922,8 @@ impl Iterator for Iterable {
     type Item = ValuePtr;
 
     fn next(&mut self) -> Option<Self::Item> {
+        #[cfg(verif_hooks)]
+        crate::verif::tick();
         match self {
             Iterable::Str(it) => it.next().map(|u| u.to_value()),
             Iterable::Unit(it) => it.take(),
@@ -949,6 +951,8 @@ impl Iterator for IterableRev {
     type Item = ValuePtr;
 
     fn next(&mut self) -> Option<Self::Item> {
+        #[cfg(verif_hooks)]
+        crate::verif::tick();
         match &mut self.0 {
             Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
             Iterable::Unit(it) => it.take(),
-- 
2.43.0


From d5280fe0a7974fad8828e7a48d5483040ffb4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/86] fix: report 'return' outside of a function as a compile
 error

---
 cordy-sys/src/compiler/parser/errors.rs | 2 ++
 cordy-sys/src/compiler/parser/mod.rs    | 3 +++
 cordy-sys/src/reporting.rs              | 1 +
 3 files changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/errors.rs b/cordy-sys/src/compiler/parser/errors.rs
index 8e75dff..405ccf0 100644
--- a/cordy-sys/src/compiler/parser/errors.rs
+++ b/cordy-sys/src/compiler/parser/errors.rs
@@ -65,6 +65,7 @@ impl ParserError {
             LValueVarEmptyUsedOutsideAssignment |
             BreakOutsideOfLoop |
             ContinueOutsideOfLoop |
+            ReturnOutsideOfFunction |
             StructNotInGlobalScope |
             NonDefaultParameterAfterDefaultParameter |
             ParameterAfterVarParameter |
@@ -130,6 +131,7 @@ pub enum ParserErrorType {
     LValueVarEmptyUsedOutsideAssignment,
     BreakOutsideOfLoop,
     ContinueOutsideOfLoop,
+    ReturnOutsideOfFunction,
     StructNotInGlobalScope,
     NonDefaultParameterAfterDefaultParameter,
     ParameterAfterVarParameter,
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..f7f3e3d 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -708,6 +708,9 @@ impl Parser<'_> {
         trace::trace_parser!("rule <return-statement>");
         self.push_delayed_pop();
         self.advance(); // Consume `return`
+        if self.function_depth == 0 {
+            self.semantic_error(ReturnOutsideOfFunction);
+        }
         match self.peek() {
             Some(CloseBrace) => { // Allow a bare return, but only when followed by a `}` or `;`, which we can recognize and discard properly.
                  self.push(Nil);
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..ac3d773 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -470,6 +470,7 @@ impl AsError for ParserError {
             LValueEmptyUsedOutsideAssignment => String::from("Expected an expression, got '_' instead"),
             LValueVarEmptyUsedOutsideAssignment => String::from("Expected an expression, got '*_' instead"),
             BreakOutsideOfLoop => String::from("Invalid 'break' statement outside of an enclosing loop"),
+            ReturnOutsideOfFunction => String::from("Invalid 'return' statement outside of an enclosing function"),
             ContinueOutsideOfLoop => String::from("Invalid 'continue' statement outside of an enclosing loop"),
             StructNotInGlobalScope => String::from("'struct' statements can only be present in global scope"),
             NonDefaultParameterAfterDefaultParameter => String::from("Non-default argument cannot follow default argument"),
-- 
2.43.0


From fb68941664feaab2bf5ad4447e5bc6d9220a9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/86] fix: index of an already captured upvalue in an
 intermediate function

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..08fcd48 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1367,9 +1367,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From 4f813f7d81321d69a242b597ae1ed172e20437d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 04/86] fix: assignment to a bound 'self' field from within a
 pattern

---
 cordy-sys/src/compiler/parser/semantic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 08fcd48..4bb7915 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -645,6 +645,12 @@ impl LValueReference {
             LValueReference::Global(index) => ParserStoreOp::Bound(StoreOp::Global(index)),
             LValueReference::UpValue(index) => ParserStoreOp::Bound(StoreOp::UpValue(index)),
 
+            lvalue @ LValueReference::ThisField { field_index, .. } => {
+                // Push `self`, which is the target of the field assignment. The field can then be assigned like any other field
+                parser.push_store_lvalue_prefix(&lvalue, parser.prev_location());
+                ParserStoreOp::Bound(StoreOp::Field(field_index))
+            }
+
             LValueReference::LateBinding(mut binding) => {
                 let index = binding.index;
 
-- 
2.43.0


From cda061ba8622e579cdfad4f5d9cb334ffb699edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 05/86] fix: late bound assignments in a pattern which resolve
 to a method or a global

---
 cordy-sys/src/compiler/parser/semantic.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 4bb7915..229eeca 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1077,7 +1077,7 @@ impl<'a> Parser<'a> {
                             self.insert(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
@@ -1092,6 +1092,13 @@ impl<'a> Parser<'a> {
         for binding in self.late_bindings.drain(..) {
             if let Some(fallback) = binding.fallback {
                 match binding.ty {
+                    ReferenceType::StorePattern(pattern_index) => self.patterns[pattern_index].visit(&mut |op| {
+                        if let ParserStoreOp::LateBoundGlobal(index) = op {
+                            if *index == binding.index {
+                                *op = ParserStoreOp::Bound(StoreOp::Global(fallback))
+                            }
+                        }
+                    }),
                     ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
                     _ => panic!()
-- 
2.43.0


From 6660c6307647f33298759747eb315683416528f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 06/86] fix: late bound assignments in a pattern containing
 another pattern

---
 cordy-sys/src/compiler/parser/semantic.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 229eeca..bcd49fe 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -547,9 +547,7 @@ impl LValue {
                 None
             }
             LValue::Terms(_) => {
-                let index = parser.patterns.len();
-                let pattern = self.build_pattern(parser, index);
-                let pattern_id = parser.declare_pattern(pattern);
+                let pattern_id = LValue::declare_built_pattern(self.into_terms(), parser);
 
                 parser.push(ExecPattern(pattern_id));
                 parser.push(Pop); // Push the final pop
@@ -564,9 +562,16 @@ impl LValue {
     /// 2. The output will be handled as part of codegen, and thus does not need to emit code
     /// 3. This always returns the pattern index
     pub(super) fn emit_expression_destructuring(terms: Vec<LValue>, parser: &mut Parser) -> u32 {
+        LValue::declare_built_pattern(terms, parser)
+    }
+
+    /// Builds and declares a pattern, returning the pattern ID.
+    /// The index of the pattern is reserved before it is built, as building may declare other patterns (through expressions within array or field terms)
+    fn declare_built_pattern(terms: Vec<LValue>, parser: &mut Parser) -> u32 {
         let index = parser.patterns.len();
-        let pattern = LValue::do_build_pattern(terms, parser, index);
-        parser.declare_pattern(pattern)
+        let pattern_id = parser.declare_pattern(Pattern::new(0, false));
+        parser.patterns[index] = LValue::do_build_pattern(terms, parser, index);
+        pattern_id
     }
 
     fn build_pattern(self, parser: &mut Parser, pattern_index: usize) -> Pattern<ParserStoreOp> {
-- 
2.43.0


From 929fa7bd0e113960b249417cd6707486eff8843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 07/86] fix: order of late bound references at the same
 position

---
 cordy-sys/src/compiler/parser/core/graph.rs | 31 +++++++++++++--------
 cordy-sys/src/compiler/parser/core/mod.rs   |  2 ++
 cordy-sys/src/compiler/parser/semantic.rs   | 20 ++++++-------
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..56f7172 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -118,8 +118,16 @@ impl<'a> Parser<'a> {
     }
 
     pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
+    pub fn replace(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_replace(at, loc, opcode, &mut self.functions) }
 
-    /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Replaces the placeholder pushed by a late binding at the `OpcodeId` with the provided instruction.
+    ///
+    /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
+    pub fn do_replace(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
+        functions[at.function_id].code.blocks[at.code_id.block_id].replace(at.code_id.opcode_id, loc, opcode);
+    }
+
+    /// Inserts the provided instruction immediately before the `OpcodeId`, and shifts all other code forward.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
     pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
@@ -289,17 +297,18 @@ impl Block {
         opcode_id
     }
 
+    fn index_of(&self, id: usize) -> usize {
+        self.code.iter().position(|(i, _, _)| i == &id).expect("Late bindings always have a placeholder opcode")
+    }
+
+    fn replace(&mut self, id: usize, loc: Location, opcode: Opcode) {
+        let index = self.index_of(id);
+        self.code[index] = (id, loc, opcode);
+    }
+
     fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+        let index = self.index_of(id);
+        self.code.insert(index, (self.code.len(), loc, opcode));
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 25c968a..7103ec0 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -241,6 +241,7 @@ impl<'a> Parser<'a> {
             LValueReference::LateBinding(mut binding) => {
                 binding.update(ReferenceType::Load(self.next_opcode()));
                 self.late_bindings.push(*binding);
+                self.push_at(Opcode::placeholder(), loc); // Replaced when the binding is resolved
             }
 
             LValueReference::Invalid => {},
@@ -279,6 +280,7 @@ impl<'a> Parser<'a> {
             LValueReference::LateBinding(mut binding) => {
                 binding.update(ReferenceType::Store(self.next_opcode()));
                 self.late_bindings.push(*binding);
+                self.push_at(Opcode::placeholder(), loc); // Replaced when the binding is resolved
             }
 
             LValueReference::Invalid => {},
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index bcd49fe..5cc1bc1 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1043,8 +1043,8 @@ impl<'a> Parser<'a> {
 
                 // Update the binding if possible
                 match (binding.ty, &result) {
-                    (ReferenceType::Load(at), LateBound::Local(index)) => self.insert(at, binding.loc, PushGlobal(*index)),
-                    (ReferenceType::Store(at), LateBound::Local(index)) => self.insert(at, binding.loc, StoreGlobal(*index, false)),
+                    (ReferenceType::Load(at), LateBound::Local(index)) => self.replace(at, binding.loc, PushGlobal(*index)),
+                    (ReferenceType::Store(at), LateBound::Local(index)) => self.replace(at, binding.loc, StoreGlobal(*index, false)),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
                         // Need to update all the matching late bound globals in the pattern
                         let pattern = &mut self.patterns[pattern_index];
@@ -1063,15 +1063,15 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
+                                // Load `self` first, and then replace the reference point with the method access
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
+                                    self.insert(at.clone(), binding.loc, PushLocal(index));
+                                    self.replace(at, binding.loc, GetMethod(*function_id))
                                 }
                                 LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
+                                    self.insert(at.clone(), binding.loc, PushUpValue(index));
+                                    self.replace(at, binding.loc, GetMethod(*function_id))
                                 },
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
@@ -1079,7 +1079,7 @@ impl<'a> Parser<'a> {
                         } else {
                             // If the current method is a non-self method, then references to it just use the function ID
                             // Both self methods and non-self methods can call it this way.
-                            self.insert(at, binding.loc, Constant(*function_id));
+                            self.replace(at, binding.loc, Constant(*function_id));
                         }
                     },
                     (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
@@ -1104,8 +1104,8 @@ impl<'a> Parser<'a> {
                             }
                         }
                     }),
-                    ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
-                    ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
+                    ReferenceType::Load(at) => Parser::do_replace(at, binding.loc, PushGlobal(fallback), &mut self.functions),
+                    ReferenceType::Store(at) => Parser::do_replace(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
                     _ => panic!()
                 }
             } else if binding.error {
-- 
2.43.0


From b6c293701b842ded856d9694e82001c8a7b03dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 08/86] fix: composition assignment to a field

---
 cordy-sys/src/compiler/parser/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 5bb5dd4..f5d4c85 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -249,7 +249,13 @@ impl<'a> Parser<'a> {
                 self.emit_expr(*lhs);
                 self.push_at(GetFieldPeek(field_index), loc);
                 self.emit_expr(*rhs);
-                self.push_at(Binary(op), loc);
+                match op {
+                    BinaryOp::NotEqual => { // Marker to indicate this is a `lhs->field .= rhs`
+                        self.push(Swap);
+                        self.push_at(Call(1, false), loc);
+                    },
+                    op => self.push_at(Binary(op), loc),
+                }
                 self.push_at(SetField(field_index), loc);
             },
             Expr(loc, ExprType::Assignment(lvalue, rhs)) => {
-- 
2.43.0


From 8a2117ddfb9db588caeb5cc5834c5b49276d11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 09/86] fix: operands of an asserted comparison may be any
 expression

---
 cordy-sys/src/compiler/parser/codegen.rs | 2 +-
 cordy-sys/src/compiler/parser/mod.rs     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index f5d4c85..6ee3f22 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -61,7 +61,7 @@ impl<'a> Parser<'a> {
     ///
     /// This will, for many expression fragments, emit semantic errors and return `Expr::nil()`, as the fragments do not
     /// need to be visible to the optimizer in the event an error was raised.
-    fn process_expr(&mut self, expr: Expr) -> Expr {
+    pub fn process_expr(&mut self, expr: Expr) -> Expr {
         expr.walk(&mut Process(self))
     }
 
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index f7f3e3d..c074df4 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -972,7 +972,9 @@ impl Parser<'_> {
         // If we parse an expression that has a top-level compare operation, we use AssertCompare, which performs the comparison (and thus can report both sides of the assert value)
         let branch_type = match self.parse_expr() {
             Expr(_, ExprType::Binary(op @ (BinaryOp::Equal | BinaryOp::NotEqual | BinaryOp::GreaterThan | BinaryOp::GreaterThanEqual | BinaryOp::LessThan | BinaryOp::LessThanEqual), lhs, rhs, swap)) => {
-                self.emit_binary_op_args(*lhs, *rhs, swap);
+                let lhs = self.process_expr(*lhs);
+                let rhs = self.process_expr(*rhs);
+                self.emit_binary_op_args(lhs, rhs, swap);
                 BranchType::AssertCompare(CompareOp::from(op))
             }
             e => {
-- 
2.43.0


From 1f9d489001fc0bb024fee123cc47f51e696a0c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 10/86] fix: discard the value of an expression statement
 before a 'do' loop body, not in it

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index c074df4..7ea6442 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -825,6 +825,7 @@ impl Parser<'_> {
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
     fn parse_do_while_statement(&mut self) {
+        self.push_delayed_pop();
         self.advance(); // Consume `do`
 
         let jump = self.begin_loop();
-- 
2.43.0


From bfe432e999afa99e6aac5e16372314b509c5f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 11/86] fix: discard the value of an 'elif then else'
 expression following an 'if' block

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 7ea6442..18f50b8 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -773,6 +773,7 @@ impl Parser<'_> {
                 let jump = self.branch_forward();
                 self.join_forward(jump_if_false, BranchType::JumpIfFalsePop);
                 self.parse_if_statement();
+                self.push_delayed_pop(); // `elif ... then ... else ...` leaves a value, which the other branches do not
                 self.join_forward(jump, BranchType::Jump);
             },
             Some(KeywordElse) => {
-- 
2.43.0


From f766f7f701f210d9557b9acc22edd3bd8380a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 12/86] fix: index and slice strings by characters rather than
 bytes

---
 cordy-sys/src/vm/value/mod.rs   | 2 +-
 cordy-sys/src/vm/value/slice.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index ba9a7ed..5584d72 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1007,7 +1007,7 @@ impl<'a> Indexable<'a> {
 
     pub fn len(&self) -> usize {
         match self {
-            Indexable::Str(it) => it.len(),
+            Indexable::Str(it) => it.chars().count(),
             Indexable::List(it) => it.len(),
             Indexable::Vector(it) => it.len(),
         }
diff --git a/cordy-sys/src/vm/value/slice.rs b/cordy-sys/src/vm/value/slice.rs
index 0140be6..eab1268 100644
--- a/cordy-sys/src/vm/value/slice.rs
+++ b/cordy-sys/src/vm/value/slice.rs
@@ -101,7 +101,7 @@ impl Sliceable<'_> {
     /// Returns the length of the original value being sliced.
     pub fn len(&self) -> usize {
         match self {
-            Sliceable::Str(it, _) => it.len(),
+            Sliceable::Str(it, _) => it.chars().count(),
             Sliceable::List(it, _) => it.len(),
             Sliceable::Vector(it, _) => it.len(),
         }
-- 
2.43.0


From 8469f318f7bd53f312e3755295f562d1469990b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 13/86] fix: assertion messages which are not strings

---
 cordy-sys/src/reporting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index ac3d773..5bfacb2 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -291,12 +291,12 @@ impl AsError for RuntimeError {
                 let mut any = false;
                 if !reason.is_nil() {
                     error.push(' ');
-                    error.push_str(reason.as_str_slice());
+                    error.push_str(&reason.to_str());
                     any = true;
                 }
                 if !message.is_nil() {
                     error.push(if any { '\n' } else { ' '});
-                    error.push_str(message.as_str_slice())
+                    error.push_str(&message.to_str());
                 }
                 error
             },
-- 
2.43.0


From 616c8b388b6f605f802c24cb3018d2e5e8b66ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 14/86] fix: highlighting of a continued token which starts
 with whitespace, or follows a non-ASCII prefix

---
 cordy-sys/src/syntax.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/syntax.rs b/cordy-sys/src/syntax.rs
index c70d7a7..3ba2d9c 100644
--- a/cordy-sys/src/syntax.rs
+++ b/cordy-sys/src/syntax.rs
@@ -43,7 +43,7 @@ pub fn scan<Fmt : Formatter>(input: String, prefix: &String, fmt: &mut Fmt) {
 
     // The index of the next character of `chars` to be consumed
     // We start at the length of the `prefix`, so we don't output anything that occurred before the prefix
-    let mut index = prefix.len();
+    let mut index = prefix.chars().count();
 
     for (loc, ty) in scan {
         if index > loc.end() {
@@ -76,7 +76,7 @@ fn consume_whitespace_and_comment<
     F : FnMut(&mut Peekable<Chars>, &mut usize) -> bool,
     Fmt : Formatter
 >(chars: &mut Peekable<Chars>, output: &mut Fmt, index: &mut usize, mut end: F) {
-    while let Some(' ' | '\t' | '\r' | '\n') = chars.peek() {
+    while end(chars, index) && matches!(chars.peek(), Some(' ' | '\t' | '\r' | '\n')) {
         output.push(chars.next().unwrap());
         *index += 1;
     }
-- 
2.43.0


From 2b038dbf2e2d991c353fbd12a768530c10b14cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 15/86] fix: block comments which open or close with more than
 one '*'

---
 cordy-sys/src/compiler/scanner.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index dd1d39a..1be824a 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -399,17 +399,12 @@ impl<'a> Scanner<'a> {
                            }
                            Some('*') => {
                                let start: usize = self.cursor;
+                               self.skip(); // The opening `*`, which cannot also be part of the closing `*/`
                                loop {
                                    match self.advance() {
-                                       Some('*') => {
-                                           match self.advance() {
-                                               Some('/') => break,
-                                               Some(_) => {},
-                                               None => {
-                                                   self.push_err_at(start, 2, UnterminatedBlockComment);
-                                                   break
-                                               }
-                                           }
+                                       Some('*') if self.peek() == Some('/') => {
+                                           self.skip();
+                                           break
                                        },
                                        Some(_) => {},
                                        None => {
-- 
2.43.0


From 87381a4b7fe5160ba6dbe05133f9271040673f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 16/86] fix: default arguments which reference variables of an
 enclosing scope or function

---
 cordy-sys/src/compiler/parser/mod.rs      | 23 +++++++++++++++++++----
 cordy-sys/src/compiler/parser/semantic.rs |  7 +++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 18f50b8..6b23593 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -420,7 +420,7 @@ impl Parser<'_> {
         let function_id = self.functions.len() - 1;
         let handle_id = self.declare_native(module_name.to_owned(), method_name, params.args.len());
 
-        self.locals.push(Locals::new(Some(function_id)));
+        self.locals.push(params.locals.with_function(function_id));
         self.function_depth += 1;
         self.scope_depth += 1;
 
@@ -516,7 +516,8 @@ impl Parser<'_> {
             args: Vec::new(),
             default_args: Vec::new(),
             variadic: false,
-            instance: false
+            instance: false,
+            locals: Locals::new(None),
         };
 
         self.expect(OpenParen);
@@ -583,7 +584,7 @@ impl Parser<'_> {
                 },
                 Some(Equals) => {
                     self.advance(); // Consume `=`
-                    params.default_args.push(self.parse_expr()); // Parse an expression
+                    self.parse_default_argument(&mut params);
                 },
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
@@ -598,6 +599,20 @@ impl Parser<'_> {
         params
     }
 
+    /// Default arguments are evaluated by the function they belong to, so any references in them must be resolved from within that function.
+    fn parse_default_argument(&mut self, params: &mut ParserFunctionParameters) {
+        self.locals.push(std::mem::replace(&mut params.locals, Locals::new(None)));
+        self.function_depth += 1;
+        self.scope_depth += 1;
+
+        let arg = self.parse_expr();
+        params.default_args.push(arg);
+
+        self.scope_depth -= 1;
+        self.function_depth -= 1;
+        params.locals = self.locals.pop().unwrap();
+    }
+
     fn parse_function_body_and_emit(&mut self, params: ParserFunctionParameters) {
         let closed_locals = self.parse_function_body(params);
         self.emit_closure_and_closed_locals(closed_locals);
@@ -611,7 +626,7 @@ impl Parser<'_> {
         // In addition, we let parameters have their own scope depth one outside locals to the function
         // This lets us 1) declare parameters here, in the right scope,
         // and 2) avoid popping parameters at the end of a function call (as they're handled by the `Return` opcode instead)
-        self.locals.push(Locals::new(Some(self.functions.len() - 1)));
+        self.locals.push(params.locals.with_function(self.functions.len() - 1));
         self.function_depth += 1;
         self.scope_depth += 1;
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 5cc1bc1..817baae 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -77,6 +77,11 @@ impl Locals {
         Locals { locals: Vec::new(), upvalues: Vec::new(), loops: Vec::new(), func }
     }
 
+    /// Attaches the function `func` to this `Locals`, if it was created before the function was.
+    pub(super) fn with_function(self, func: usize) -> Locals {
+        Locals { func: Some(func), ..self }
+    }
+
     /// Returns the length of the locals, effectively the number of variables declared in this frame.
     /// `locals[0].len()` will be the number of global variables, for a given `Locals` stack.
     pub fn len(&self) -> usize {
@@ -734,6 +739,8 @@ pub struct ParserFunctionParameters {
     pub variadic: bool,
     /// If `true`, this function has an explicit `self` parameter as it's first argument
     pub instance: bool,
+    /// The locals of the function, which includes any upvalues captured through the function by closures within default arguments
+    pub locals: Locals,
 }
 
 
-- 
2.43.0


From 850b46289a17563b57ff456183771415d2b1e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 17/86] fix: break and continue in the 'else' of a loop belong
 to the enclosing loop

---
 cordy-sys/src/compiler/parser/mod.rs      | 12 ++++++++----
 cordy-sys/src/compiler/parser/semantic.rs |  9 +++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 6b23593..9678035 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -830,13 +830,14 @@ impl Parser<'_> {
         self.join_reverse(jump, BranchType::Jump);
         self.join_forward(branch, BranchType::JumpIfFalsePop); // Fix the initial conditional jump
 
+        let ended = self.end_loop_body();
         if let Some(KeywordElse) = self.peek() { // Parse `while {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.end_loop(ended);
     }
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
@@ -855,13 +856,14 @@ impl Parser<'_> {
             self.join_reverse(jump, BranchType::JumpIfTruePop); // Jump back to origin
         }
 
+        let ended = self.end_loop_body();
         if let Some(KeywordElse) = self.peek() { // Parse do { } while <expr> else { }
             self.advance(); // Consume `else`
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.end_loop(ended);
     }
 
     fn parse_loop_statement(&mut self) {
@@ -884,7 +886,8 @@ impl Parser<'_> {
         self.push_delayed_pop(); // Loops can't return a value
         self.join_reverse(jump, BranchType::Jump);
 
-        self.end_loop();
+        let ended = self.end_loop_body();
+        self.end_loop(ended);
     }
 
     fn parse_for_statement(&mut self) {
@@ -938,13 +941,14 @@ impl Parser<'_> {
         self.pop_locals(Some(self.scope_depth), true, true, false);
         self.scope_depth -= 1;
 
+        let ended = self.end_loop_body();
         if let Some(KeywordElse) = self.peek() { // Parse `for {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.end_loop(ended);
     }
 
     fn parse_break_statement(&mut self) {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 817baae..edbe030 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -891,9 +891,14 @@ impl<'a> Parser<'a> {
         loop_start
     }
 
+    /// Marks the end of the body of a loop. Any `else` statement attached to the loop is not part of it, so `break` and `continue` there refer to an enclosing loop.
+    pub fn end_loop_body(&mut self) -> Loop {
+        self.current_locals_mut().loops.pop().unwrap()
+    }
+
     /// Marks the end of a loop, at the point where `break` statements should jump to (so after any `else` statements attached to the loop)
-    pub fn end_loop(&mut self) {
-        for jump in self.current_locals_mut().loops.pop().unwrap().break_ids {
+    pub fn end_loop(&mut self, ended: Loop) {
+        for jump in ended.break_ids {
             self.join_forward(jump, BranchType::Jump);
         }
     }
-- 
2.43.0


From c6cfd8609671b425d97c42a475b6435f7172c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 18/86] fix: print, vector, min and max called with the
 arguments of another function

---
 cordy-sys/src/core/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..c796665 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -580,8 +580,8 @@ impl InvokeArg1 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg1::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique => Ok(InvokeArg1::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
+                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique | UniqueNonEmpty => Ok(InvokeArg1::Native(f.as_native())),
+                Iter | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
                 Arg2 => Ok(InvokeArg1::Arg2Par1(f.as_native())),
                 Arg3 => Ok(InvokeArg1::Arg3Par1(f.as_native())),
                 Arg0 => IncorrectArgumentsNativeFunction(f.as_native(), 1).err(),
@@ -618,8 +618,8 @@ impl InvokeArg2 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg2::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg1To2 | Arg1To3 | Arg2 | Unique => Ok(InvokeArg2::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
+                Arg1To2 | Arg1To3 | Arg2 => Ok(InvokeArg2::Native(f.as_native())),
+                Unique | Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
                 Arg3 => Ok(InvokeArg2::Arg3Par1(f.as_native())),
                 Arg0 | Arg0To1 | Arg1 => IncorrectArgumentsNativeFunction(f.as_native(), 2).err(),
                 Invalid => ValueIsNotFunctionEvaluable(f).err(),
-- 
2.43.0


From f6dfdb80529b005c93ee9eaa9f5e8f09db24cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 19/86] fix: unrolled expressions in slice literals and dict
 values

---
 cordy-sys/src/compiler/parser/mod.rs | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 9678035..a3f2e47 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1525,6 +1525,7 @@ impl Parser<'_> {
     }
 
     fn parse_expr_1_slice_literal(&mut self, loc_start: Location, arg1: Expr) -> Expr {
+        let arg1 = self.check_slice_literal_arg(arg1);
         self.advance(); // Consume `:`
 
         let arg2: Expr = match self.peek() {
@@ -1533,7 +1534,7 @@ impl Parser<'_> {
                 let loc_end = self.advance_with();
                 return Expr::slice_literal(loc_start | loc_end, arg1, Expr::nil(), None);
             }
-            _ => self.parse_comma_expr_arg(), // As we consumed `:`, we require a second expression
+            _ => self.parse_slice_literal_arg(), // As we consumed `:`, we require a second expression
         };
 
         // Consumed `[` <expression> `:` <expression> so far
@@ -1555,13 +1556,26 @@ impl Parser<'_> {
         // Consumed `[` <expression> `:` <expression> `:` so far
         let arg3: Expr = match self.peek() {
             Some(CloseSquareBracket) => Expr::nil(),
-            _ => self.parse_comma_expr_arg(),
+            _ => self.parse_slice_literal_arg(),
         };
 
         self.expect(CloseSquareBracket);
         Expr::slice_literal(loc_start | self.prev_location(), arg1, arg2, Some(arg3))
     }
 
+    fn parse_slice_literal_arg(&mut self) -> Expr {
+        let arg = self.parse_comma_expr_arg();
+        self.check_slice_literal_arg(arg)
+    }
+
+    fn check_slice_literal_arg(&mut self, arg: Expr) -> Expr {
+        if arg.is_unroll() {
+            self.semantic_error(UnrollNotAllowedInSlice);
+            return Expr::nil();
+        }
+        arg
+    }
+
     /// Parses either a `dict` or `set` literal.
     /// Literals default to being sets, unless a `:` is present in any entry. This means empty literals, and literals with only unrolled terms default to sets.
     fn parse_expr_1_dict_or_set_literal(&mut self) -> Expr {
@@ -1585,14 +1599,14 @@ impl Parser<'_> {
                 match is_dict {
                     Some(true) => {
                         self.expect(Colon);
-                        args.push(self.parse_comma_expr_arg());
+                        args.push(self.parse_dict_literal_value());
                     },
                     Some(false) => {}, // Set does not have any `:` arguments
                     None => { // Still undetermined if it is a dict, or set -> based on this argument we can know definitively
                         is_dict = Some(match self.peek() { // Found a `:`, so we know this is now a dict
                             Some(Colon) => {
                                 self.advance();
-                                args.push(self.parse_comma_expr_arg());
+                                args.push(self.parse_dict_literal_value());
                                 true
                             },
                             _ => false,
@@ -1611,6 +1625,13 @@ impl Parser<'_> {
         if is_dict.unwrap_or(false) { Expr::dict(loc, args) } else { Expr::set(loc, args) }
     }
 
+    fn parse_dict_literal_value(&mut self) -> Expr {
+        match self.peek() {
+            Some(Ellipsis) => self.parse_expr(), // Unrolled expressions are not allowed as a single value, so this will raise an error
+            _ => self.parse_comma_expr_arg(),
+        }
+    }
+
     fn parse_inline_if_then_else(&mut self) -> Expr {
         trace::trace_parser!("rule <expr-1-inline-if-then-else>");
 
-- 
2.43.0


From ba1d4b016ee090d41ef9eb969cb3e0b52e1dc3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 20/86] fix: evaluating a list as a function of itself

---
 cordy-sys/src/vm/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 485585c..6680071 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -807,11 +807,14 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                 }
                 let arg = self.pop();
                 let func = self.pop();
-                let list = func.as_list().borrow();
-                if list.len() != 1 {
-                    return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
-                }
-                let index = list[0].clone();
+                let index = {
+                    // `arg` may be the same list, so this borrow must not outlive the access
+                    let list = func.as_list().borrow();
+                    if list.len() != 1 {
+                        return ValueErrorEvalListMustHaveUnitLength(list.len()).err()
+                    }
+                    list[0].clone()
+                };
                 let result = core::get_index(self, &arg, index)?;
                 self.push(result);
                 Ok(FunctionType::Native)
-- 
2.43.0


From ef163af5a0216d48abc732fb2a72290845c50786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 21/86] fix: rationals which are equal to an int must hash as
 that int

---
 cordy-sys/src/vm/value/ptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..a140bfd 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -569,10 +569,10 @@ impl Hash for ValuePtr {
             Type::Complex => hash!(as_complex),
             #[cfg(feature = "rational")]
             Type::Rational => {
-                // If rationals are expressible as 64-bit integers, they must hash identical to those
+                // If rationals are expressible as an `int`, they must hash identical to those
                 let value = self.as_rational();
                 match value.numer().to_i64() {
-                    Some(int) if value.denom() == &SmallInteger::from(0) => (int as u64).hash(state),
+                    Some(int) if value.denom() == &SmallInteger::from(1) && MIN_INT <= int && int <= MAX_INT => from_i64(int).hash(state),
                     _ => value.hash(state),
                 }
             },
-- 
2.43.0


From 7da30ef8e87834340f85a29bf627e76b9f11f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 22/86] fix: hash of set and dict must not depend on order,
 equality of heap must not depend on its internal order

---
 cordy-sys/src/vm/value/collections.rs | 52 ++++++++++++++++++---------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..cfa9a02 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -1,9 +1,9 @@
 use std::cell::Cell;
 use std::cmp::{Ordering, Reverse};
-use std::collections::{BinaryHeap, VecDeque};
+use std::collections::{BinaryHeap, HashMap, VecDeque};
 use std::hash::{Hash, Hasher};
 use std::ops::{Deref, DerefMut};
-use fxhash::FxBuildHasher;
+use fxhash::{FxBuildHasher, FxHasher};
 use indexmap::{IndexMap, IndexSet};
 
 use crate::core::InvokeArg0;
@@ -60,6 +60,21 @@ impl Vector {
 }
 
 
+/// Hashes a collection for which equality does not depend on the order of the elements, so neither can the hash.
+fn hash_unordered<T : Hash, H : Hasher>(iter: impl Iterator<Item=T>, state: &mut H) {
+    let mut len: usize = 0;
+    let mut sum: u64 = 0;
+    for v in iter {
+        let mut hasher = FxHasher::default();
+        v.hash(&mut hasher);
+        len += 1;
+        sum = sum.wrapping_add(hasher.finish());
+    }
+    len.hash(state);
+    sum.hash(state);
+}
+
+
 /// # Set
 ///
 /// A set is a unique, hash-based, insertion-ordered collection of elements. All three properties are provided by `IndexSet`, based on Python's `set`
@@ -115,11 +130,7 @@ impl Ord for Set {
 impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
-            Some(it) => {
-                for v in &it.set {
-                    v.hash(state)
-                }
-            },
+            Some(it) => hash_unordered(it.set.iter(), state),
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
         }
     }
@@ -178,11 +189,7 @@ impl Ord for Dict {
 impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
-            Some(it) => {
-                for v in &it.dict {
-                    v.hash(state)
-                }
-            },
+            Some(it) => hash_unordered(it.dict.iter(), state),
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
         }
     }
@@ -220,10 +227,25 @@ impl Heap {
     }
 }
 
+// Two heaps are equal if they contain the same values, the same number of times. The internal order of the heap, which depends on
+// the history of operations, is not considered.
 impl Eq for Heap {}
 impl PartialEq<Self> for Heap {
     fn eq(&self, other: &Self) -> bool {
-        self.len() == other.len() && self.iter().zip(other.iter()).all(|(x, y)| x == y)
+        if self.len() != other.len() {
+            return false
+        }
+        let mut counts: HashMap<&ValuePtr, usize, FxBuildHasher> = HashMap::with_capacity_and_hasher(self.len(), FxBuildHasher::default());
+        for Reverse(v) in self.iter() {
+            *counts.entry(v).or_insert(0) += 1;
+        }
+        other.iter().all(|Reverse(v)| match counts.get_mut(v) {
+            Some(count) if *count > 0 => {
+                *count -= 1;
+                true
+            },
+            _ => false
+        })
     }
 }
 
@@ -238,8 +260,6 @@ impl Ord for Heap {
 
 impl Hash for Heap {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for v in &self.heap {
-            v.hash(state)
-        }
+        hash_unordered(self.heap.iter(), state)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 62eee9fb55a6d46b23c85855b77ef0b8c87557c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 23/86] fix: length and reverse iteration of range and
 enumerate

---
 cordy-sys/src/vm/value/mod.rs   | 61 +++++++++++++++++++--------------
 cordy-sys/src/vm/value/range.rs | 19 +++++-----
 2 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 5584d72..eb23803 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -882,11 +882,11 @@ impl Iterable {
     pub fn reverse(self) -> IterableRev {
         let len: usize = self.len();
         match self {
-            Iterable::Range(_, it) => IterableRev(it.reverse().to_iter()),
-            Iterable::Collection(_, it) => IterableRev(Iterable::Collection(len, it)),
-            Iterable::RawVector(_, it) => IterableRev(Iterable::RawVector(len, it)),
-            Iterable::Enumerate(_, it) => IterableRev(Iterable::Enumerate(len, Box::new(it.reverse().0))),
-            it => IterableRev(it)
+            Iterable::Range(_, it) => IterableRev::Iter(it.reverse().to_iter()),
+            Iterable::Collection(_, it) => IterableRev::Iter(Iterable::Collection(len, it)),
+            Iterable::RawVector(_, it) => IterableRev::Iter(Iterable::RawVector(len, it)),
+            Iterable::Enumerate(_, it) => IterableRev::Enumerate(len, Box::new(it.reverse())),
+            it => IterableRev::Iter(it)
         }
     }
 }
@@ -896,11 +896,17 @@ impl Iterable {
 /// As most of our iterators are weirdly stateful, we can't support simple reverse iteration via `next_back()`
 /// Instead, we wrap them in this type, by calling `Iterable.reverse()`. This then supports iteration in reverse.
 #[derive(Debug)]
-pub struct IterableRev(Iterable);
+pub enum IterableRev {
+    Iter(Iterable),
+    Enumerate(usize, Box<IterableRev>),
+}
 
 impl IterableRev {
     pub fn len(&self) -> usize {
-        self.0.len()
+        match self {
+            IterableRev::Iter(it) => it.len(),
+            IterableRev::Enumerate(_, it) => it.len(),
+        }
     }
 }
 
@@ -953,28 +959,31 @@ impl Iterator for IterableRev {
     fn next(&mut self) -> Option<Self::Item> {
         #[cfg(verif_hooks)]
         crate::verif::tick();
-        match &mut self.0 {
-            Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
-            Iterable::Unit(it) => it.take(),
-            Iterable::Collection(index, it) => {
-                if *index == 0 {
-                    return None
+        match self {
+            IterableRev::Iter(it) => match it {
+                Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
+                Iterable::Unit(it) => it.take(),
+                Iterable::Collection(index, it) => {
+                    if *index == 0 {
+                        return None
+                    }
+                    *index -= 1;
+                    Iterable::get(it, *index)
                 }
-                *index -= 1;
-                Iterable::get(it, *index)
-            }
-            Iterable::RawVector(index, it) => {
-                if *index == 0 {
-                    return None
+                Iterable::RawVector(index, it) => {
+                    if *index == 0 {
+                        return None
+                    }
+                    *index -= 1;
+                    it.get(*index).cloned()
                 }
+                Iterable::Range(it, range) => range.next(it),
+                Iterable::Enumerate(_, _) => unreachable!(), // Reversed as `IterableRev::Enumerate`
+            },
+            IterableRev::Enumerate(index, it) => {
+                let ret = it.next()?;
                 *index -= 1;
-                it.get(*index).cloned()
-            }
-            Iterable::Range(it, range) => range.next(it),
-            Iterable::Enumerate(index, it) => {
-                let ret = (*it).next().map(|u| (u, index.to_value()).to_value());
-                *index += 1;
-                ret
+                Some((index.to_value(), ret).to_value())
             },
         }
     }
diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index 56a6d29..6002a66 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -62,19 +62,16 @@ impl Range {
     pub(super) fn reverse(self) -> Range {
         match self.step.cmp(&0) {
             Ordering::Equal => self,
-            Ordering::Greater => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start + 1,
-                -self.step
-            ),
-            Ordering::Less => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start - 1,
-                -self.step
-            )
+            Ordering::Greater => Range::new(self.last(), self.start - 1, -self.step),
+            Ordering::Less => Range::new(self.last(), self.start + 1, -self.step)
         }
     }
 
+    /// Returns the last value produced by a non-empty range
+    fn last(&self) -> i64 {
+        self.start + (self.len() as i64 - 1) * self.step
+    }
+
     /// Advances the `Range`, based on the external `current` value.
     /// The `current` value is the one that will be returned, and internally advanced to the next value.
     pub(super) fn next(&self, current: &mut i64) -> Option<ValuePtr> {
@@ -112,7 +109,7 @@ impl Range {
         // Since this type ensures that the range is non-empty, we can do simple checked arithmetic
         match self.step {
             0 => 0,
-            _ => (self.start.abs_diff(self.stop) / self.step.unsigned_abs()) as usize
+            _ => self.start.abs_diff(self.stop).div_ceil(self.step.unsigned_abs()) as usize
         }
     }
 
-- 
2.43.0


From 20aa8538604d831d395bcfcc633b5dcc207f2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 24/86] fix: ord() and char() of characters outside of ASCII,
 or 32 bits

---
 cordy-sys/src/core/strings.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 2fef6a7..b46a35b 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -195,7 +195,7 @@ pub fn chr(value: ValuePtr) -> ValueResult {
     if i <= 0 {
         return ValueErrorInvalidCharacterOrdinal(i).err()
     }
-    match char::from_u32(i as u32) {
+    match u32::try_from(i).ok().and_then(char::from_u32) {
         Some(c) => c.to_value().ok(),
         None => ValueErrorInvalidCharacterOrdinal(i).err()
     }
@@ -203,8 +203,9 @@ pub fn chr(value: ValuePtr) -> ValueResult {
 
 pub fn ord(value: ValuePtr) -> ValueResult {
     let text = value.as_str_checked()?;
-    match text.len() {
-        1 => (text.chars().next().unwrap() as u32 as i64)
+    let mut chars = text.chars();
+    match (chars.next(), chars.next()) {
+        (Some(c), None) => (c as u32 as i64)
             .to_value()
             .ok(),
         _ => TypeErrorArgMustBeChar(value).err(),
-- 
2.43.0


From a3dc96ff60d786291c191bc2f9edf5dbcfba8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 25/86] fix: permutations and combinations of zero elements

---
 cordy-sys/src/core/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..51610ad 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -308,7 +308,7 @@ pub fn reverse(args: impl Iterator<Item=ValuePtr>) -> ValuePtr {
 
 pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Permutations).err();
     }
     args.to_iter()?
@@ -320,7 +320,7 @@ pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
 
 pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
     args.to_iter()?
-- 
2.43.0


From 23a635b42f30d330bce5b79b6df0b1e2a01f1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 26/86] fix: set difference preserves the order of the
 remaining elements

---
 cordy-sys/src/core/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 51610ad..b2018d4 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -675,7 +675,7 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
             // this.difference(other) := remove everything from this that is in other
             let mut set = this.as_set().borrow_mut();
             for e in other.to_iter()? {
-                set.remove(&e);
+                set.shift_remove(&e);
             }
             drop(set);
             this.ok()
-- 
2.43.0


From 7dafd414ce30c27ba65b74f0399323b6f9201b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 27/86] fix: set operations between a set and itself, or values
 which contain it

---
 cordy-sys/src/core/collections.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index b2018d4..a39e8f6 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -643,9 +643,13 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            // N.B. `other` is consumed first, as it might need to borrow `this`
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.insert(e);
+            for e in other {
+                if let Err(e) = set.insert_checked(e) {
+                    return ValueResult::from(e)
+                }
             }
             drop(set);
             this.ok()
@@ -659,10 +663,12 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
-            let mut set = this.as_set().borrow_mut();
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
-            set.retain(|e| other.contains(e));
-            drop(set);
+            let set = this.as_set().borrow().iter()
+                .filter(|e| other.contains(*e))
+                .cloned()
+                .collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            **this.as_set().borrow_mut() = set;
             this.ok()
         },
         _ => TypeErrorArgMustBeSet(this).err()
@@ -673,11 +679,12 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
-            let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.shift_remove(&e);
-            }
-            drop(set);
+            let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            let set = this.as_set().borrow().iter()
+                .filter(|e| !other.contains(*e))
+                .cloned()
+                .collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            **this.as_set().borrow_mut() = set;
             this.ok()
         },
         _ => TypeErrorArgMustBeSet(this).err()
-- 
2.43.0


From 2b4c49fbac06a19a36ae0cb31d059df46d072ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 28/86] fix: pushing a heap onto itself

---
 cordy-sys/src/core/collections.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index a39e8f6..b253aa9 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -473,7 +473,12 @@ pub fn push(value: ValuePtr, target: ValuePtr) -> ValueResult {
             Ok(_) => {},
             Err(e) => return ValueResult::from(e),
         }
-        Type::Heap => target.as_heap().borrow_mut().push(Reverse(value)),
+        Type::Heap => {
+            // N.B. The heap is not borrowed while the push occurs, as it may compare against (values which contain) itself
+            let mut heap = std::mem::take(&mut **target.as_heap().borrow_mut());
+            heap.push(Reverse(value));
+            **target.as_heap().borrow_mut() = heap;
+        },
         _ => return TypeErrorArgMustBeIterable(target).err()
     }
     target.ok()
-- 
2.43.0


From 92f0aa8f992bba7e464e8e8a60080f23325990af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 29/86] fix: representation of strings which contain
 unprintable characters

---
 cordy-sys/src/vm/value/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index eb23803..9d5fb3a 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -231,8 +231,22 @@ impl ValuePtr {
                 Cow::from("")
             ),
             Type::ShortStr | Type::LongStr => {
-                let escaped = format!("{:?}", self.as_str_slice());
-                Cow::from(format!("'{}'", &escaped[1..escaped.len() - 1]))
+                // N.B. Only escape sequences which are supported by string literals can be used here
+                let str = self.as_str_slice();
+                let mut escaped = String::with_capacity(str.len() + 2);
+                escaped.push('\'');
+                for c in str.chars() {
+                    match c {
+                        '\\' => escaped.push_str("\\\\"),
+                        '"' => escaped.push_str("\\\""),
+                        '\n' => escaped.push_str("\\n"),
+                        '\r' => escaped.push_str("\\r"),
+                        '\t' => escaped.push_str("\\t"),
+                        c => escaped.push(c)
+                    }
+                }
+                escaped.push('\'');
+                Cow::from(escaped)
             },
 
             Type::List => recursive_guard!(
-- 
2.43.0


From b816a4c1ab31effacdfa2a7a1a237e1aab6be808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 30/86] fix: regular expression searches skip past an empty
 match, and regular expressions which fail at runtime raise an error

---
 cordy-sys/src/core/strings.rs | 93 ++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index b46a35b..078de1d 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -3,8 +3,7 @@ use std::str::Chars;
 use fancy_regex::{Captures, Matches, Regex};
 
 use crate::core::InvokeArg1;
-use crate::util;
-use crate::vm::{ErrorPtr, ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
+use crate::vm::{AnyResult, ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
 
 use RuntimeError::{*};
 
@@ -35,19 +34,33 @@ pub fn replace<VM: VirtualInterface>(vm: &mut VM, pattern: ValuePtr, replacer: V
     let text = target.as_str_checked()?;
     if replacer.is_evaluable() {
         let replacer: InvokeArg1 = InvokeArg1::from(replacer)?;
-        let mut err = None;
-        let replaced: ValuePtr = regex.replace_all(text, |captures: &Captures| {
+        replace_all(&regex, text, |captures, result| {
             let arg: ValuePtr = as_result(captures);
-            util::catch::<String>(&mut err,
-                || Ok(String::from(replacer.invoke(arg, vm)?.as_str_checked()?)),
-                String::new())
-        }).to_value();
-        util::join::<ValuePtr, ErrorPtr, ValueResult>(replaced, err)
+            result.push_str(replacer.invoke(arg, vm)?.as_str_checked()?);
+            Ok(())
+        })
     } else {
-        regex.replace_all(text, replacer.as_str_checked()?)
-            .to_value()
-            .ok()
+        let replacer = replacer.as_str_checked()?;
+        replace_all(&regex, text, |captures, result| {
+            captures.expand(replacer, result);
+            Ok(())
+        })
+    }
+}
+
+/// This is identical to `Regex::replace_all()`, except both the regex and the replacement are able to fail.
+fn replace_all(regex: &Regex, text: &str, mut replacer: impl FnMut(&Captures, &mut String) -> AnyResult) -> ValueResult {
+    let mut result = String::with_capacity(text.len());
+    let mut last: usize = 0;
+    for captures in regex.captures_iter(text) {
+        let captures = captures.or_else(|e| err_regex(regex, e))?;
+        let found = captures.get(0).unwrap();
+        result.push_str(&text[last..found.start()]);
+        replacer(&captures, &mut result)?;
+        last = found.end();
     }
+    result.push_str(&text[last..]);
+    result.to_value().ok()
 }
 
 pub fn search(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
@@ -55,23 +68,22 @@ pub fn search(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
     let text: &str = target.as_str_checked()?;
 
     let mut start: usize = 0;
-    std::iter::from_fn(move || {
-        match regex.captures_from_pos(text, start).unwrap() {
-            Some(captures) => {
-                let end = captures.get(0).unwrap().end();
-                if start == end {
-                    // If we match a zero-length group, this regex will run infinitely - so the only sensible way to handle this here is to abort
-                    // Regex captures are greedy by default, so this will trigger only,
-                    // - If we can *only* match an empty string, which will return nothing
-                    // - If we've already matched the whole string, and now are matching *against* an empty string, which will return the existing match
-                    return None
-                }
-                start = end;
-                Some(as_result(&captures))
-            },
-            None => None
+    let mut matches: Vec<ValuePtr> = Vec::new();
+    while let Some(captures) = regex.captures_from_pos(text, start).or_else(|e| err_regex(&regex, e))? {
+        let end = captures.get(0).unwrap().end();
+        if start == end {
+            // If we match a zero-length group, this regex will run infinitely - so the only sensible way to handle this here is to ignore
+            // the match, and continue the search from the next character.
+            match text[start..].chars().next() {
+                Some(c) => start += c.len_utf8(),
+                None => break,
+            }
+        } else {
+            start = end;
+            matches.push(as_result(&captures));
         }
-    }).to_list().ok()
+    }
+    matches.into_iter().to_list().ok()
 }
 
 pub fn split(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
@@ -86,11 +98,21 @@ pub fn split(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
     let regex: Regex = compile_regex(pattern)?;
 
     fancy_split(&regex, target.as_str_checked()?)
-        .map(|u| u.to_value())
+        .map(|u| match u {
+            Ok(u) => Ok(u.to_value()),
+            Err(e) => err_regex(&regex, e)
+        })
+        .collect::<ErrorResult<Vec<ValuePtr>>>()?
+        .into_iter()
         .to_list()
         .ok()
 }
 
+#[cold]
+fn err_regex<T>(regex: &Regex, err: fancy_regex::Error) -> ErrorResult<T> {
+    ValueErrorCannotCompileRegex(String::from(regex.as_str()), err.to_string()).err()
+}
+
 fn as_result(captures: &Captures) -> ValuePtr {
     if captures.len() == 1 {
         captures.get(0)
@@ -140,9 +162,9 @@ struct FancySplit<'r, 't> {
 }
 
 impl<'r, 't> Iterator for FancySplit<'r, 't> {
-    type Item = &'t str;
+    type Item = Result<&'t str, fancy_regex::Error>;
 
-    fn next(&mut self) -> Option<&'t str> {
+    fn next(&mut self) -> Option<Self::Item> {
         let text = self.finder.text();
         match self.finder.next() {
             None => {
@@ -151,15 +173,18 @@ impl<'r, 't> Iterator for FancySplit<'r, 't> {
                 } else {
                     let s = &text[self.last..];
                     self.last = text.len() + 1; // Next call will return None
-                    Some(s)
+                    Some(Ok(s))
                 }
             }
             Some(Ok(m)) => {
                 let matched = &text[self.last..m.start()];
                 self.last = m.end();
-                Some(matched)
+                Some(Ok(matched))
             },
-            _ => None
+            Some(Err(e)) => {
+                self.last = text.len() + 1; // Next call will return None
+                Some(Err(e))
+            }
         }
     }
 }
-- 
2.43.0


From 324f68b511826b7e32bbf9a725a6ffd193f0cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 31/86] fix: string formatting pads strings to the left, like
 Python, and does not panic for large widths

---
 cordy-sys/src/core/strings.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 078de1d..875fdc9 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -321,7 +321,11 @@ impl<'a> StringFormatter<'a> {
                         }
                     }
 
-                    let padding: usize = if buffer.is_empty() { 0 } else { buffer.parse::<usize>().unwrap() };
+                    let padding: usize = match buffer.parse::<usize>() {
+                        Ok(padding) => padding,
+                        Err(_) if buffer.is_empty() => 0,
+                        Err(_) => return ValueErrorValueWouldBeTooLarge.err()
+                    };
 
                     let text = match (self.peek(), is_zero_padded) {
                         (Some('d'), false) => format!("{:width$}", self.arg()?.as_int_checked()?, width = padding),
@@ -330,8 +334,7 @@ impl<'a> StringFormatter<'a> {
                         (Some('x'), true) => format!("{:0width$x}", self.arg()?.as_int_checked()?, width = padding),
                         (Some('b'), false) => format!("{:width$b}", self.arg()?.as_int_checked()?, width = padding),
                         (Some('b'), true) => format!("{:0width$b}", self.arg()?.as_int_checked()?, width = padding),
-                        (Some('s'), true) => format!("{:width$}", self.arg()?.to_str(), width = padding),
-                        (Some('s'), false) => format!("{:0width$}", self.arg()?.to_str(), width = padding),
+                        (Some('s'), _) => format!("{:>width$}", self.arg()?.to_str(), width = padding),
                         (c, _) => return ValueErrorInvalidFormatCharacter(c.cloned()).err(),
                     };
 
-- 
2.43.0


From d3f01da5b38453f2adcbc4d5db0c87a9a60bd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 32/86] fix: powers with an exponent larger than 32 bits

---
 cordy-sys/src/vm/operator.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 178ab1b..cf018ae 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -253,14 +253,14 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Bool | Int, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_int().pow(rhs as u32).to_value().ok(),
+                true => pow_wrapping(lhs.as_int(), rhs, 1).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
         (Complex, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_complex().powu(rhs as u32).to_value().ok(),
+                true => pow_wrapping(*lhs.as_complex(), rhs, ComplexType::new(1, 0)).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
@@ -281,6 +281,21 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     }
 }
 
+/// Computes `base ** exp`, by squaring, for any non-negative `exp`. The result wraps, the same as any other integer operation.
+fn pow_wrapping<T : Copy + std::ops::Mul<Output=T>>(mut base: T, mut exp: i64, one: T) -> T {
+    let mut result: T = one;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            result = result * base;
+        }
+        exp >>= 1;
+        if exp > 0 {
+            base = base * base;
+        }
+    }
+    result
+}
+
 /// When `invert = true`, this is a `binary_is_not` operator
 pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
     (match rhs.ty() {
-- 
2.43.0


From f7717611d217869c50676706a516d2092e6bcba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 33/86] fix: zero raised to a negative power, as a rational

---
 cordy-sys/src/vm/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index cf018ae..e52a7f9 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -268,6 +268,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Rational, Bool | Int) => {
             let lhs = lhs.to_rational();
             match i32::try_from(rhs.as_int()) {
+                Ok(rhs) if rhs < 0 && lhs.is_zero() => ValueErrorDivideByZero.err(),
                 Ok(rhs) => lhs.pow(rhs).to_value().ok(),
                 Err(_) => ValueErrorValueWouldBeTooLarge.err()
             }
-- 
2.43.0


From cf7df51224dec0b4b965ae3704410363ea9302d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 34/86] fix: repeating a string or list too many times is an
 error

---
 cordy-sys/src/vm/operator.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index e52a7f9..e8c7682 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -159,7 +159,19 @@ fn binary_str_repeat(string: ValuePtr, repeat: ValuePtr) -> ValueResult {
     if i < 0 {
         ValueErrorBinaryOpMustNotBeNegative(string, BinaryOp::Mul, i).err()
     } else {
-        string.as_str_slice().repeat(i as usize).to_value().ok()
+        let string = string.as_str_slice();
+        match check_repeat(string.len(), i) {
+            true => string.repeat(i as usize).to_value().ok(),
+            false => ValueErrorValueWouldBeTooLarge.err()
+        }
+    }
+}
+
+/// Returns `true` if repeating a value of `len` bytes, `repeat` times, is a valid size for an allocation
+fn check_repeat(len: usize, repeat: i64) -> bool {
+    match len.checked_mul(repeat as usize) {
+        Some(size) => size <= isize::MAX as usize,
+        None => false
     }
 }
 
@@ -169,6 +181,9 @@ fn binary_list_repeat(list: ValuePtr, repeat: ValuePtr, deep: bool) -> ValueResu
         ValueErrorBinaryOpMustNotBeNegative(list, if deep { BinaryOp::Pow } else { BinaryOp::Mul }, i).err()
     } else {
         let list = list.as_list().borrow();
+        if !check_repeat(list.len() * std::mem::size_of::<ValuePtr>(), i) {
+            return ValueErrorValueWouldBeTooLarge.err()
+        }
         let iter = list.iter()
             .cycle()
             .take(i as usize * list.len())
-- 
2.43.0


From 8c928ea33026f9eac87968da7975869b26c06970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 35/86] fix: strings which represent integers outside of the
 range of int

---
 cordy-sys/src/core/math.rs    | 8 ++++++--
 cordy-sys/src/core/strings.rs | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 78fd6da..91ed7a2 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -16,11 +16,15 @@ pub fn convert_to_int(target: ValuePtr, default: Option<ValuePtr>) -> ValueResul
         Type::Nil => 0i64.to_value().ok(),
         Type::Bool => target.as_int().to_value().ok(),
         Type::Int => target.ok(),
-        Type::ShortStr | Type::LongStr => match target.as_str_slice().parse::<i64>() {
+        Type::ShortStr | Type::LongStr => match match target.as_str_slice().parse::<i64>() {
+            Ok(i) if i < ValuePtr::MIN_INT => Err(String::from("number too small to fit in target type")),
+            Ok(i) if i > ValuePtr::MAX_INT => Err(String::from("number too large to fit in target type")),
+            it => it.map_err(|err| err.to_string())
+        } {
             Ok(i) => i.to_value().ok(),
             Err(err) => match default {
                 Some(a2) => a2.ok(),
-                None => ValueErrorCannotConvertStringToIntBadParse(target, err.to_string()).err(),
+                None => ValueErrorCannotConvertStringToIntBadParse(target, err).err(),
             },
         },
         #[cfg(feature = "rational")]
diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 875fdc9..8eef7ed 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -241,7 +241,7 @@ pub fn hex(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:x}", value.as_precise_int()).to_value().ok(),
         Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 16).ok() {
-            Some(int) => int.to_value().ok(),
+            Some(int) if ValuePtr::MIN_INT <= int && int <= ValuePtr::MAX_INT => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         },
         _ => TypeErrorArgMustBeIntOrStr(value).err()
@@ -252,7 +252,7 @@ pub fn bin(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:b}", value.as_precise_int()).to_value().ok(),
         Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 2).ok() {
-            Some(int) => int.to_value().ok(),
+            Some(int) if ValuePtr::MIN_INT <= int && int <= ValuePtr::MAX_INT => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         }
         _ => TypeErrorArgMustBeIntOrStr(value).err()
-- 
2.43.0


From c09d426b970f572103adba3f112358e643a207ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 36/86] fix: 'x is typeof(x)' must hold for ranges, enumerates,
 memoized functions and field accessors

---
 cordy-sys/src/vm/operator.rs  | 2 ++
 cordy-sys/src/vm/value/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index e8c7682..8a3c139 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -330,6 +330,8 @@ pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
             NativeFunction::Vector => lhs.is_vector(),
             NativeFunction::Iterable => lhs.is_iterable(),
             NativeFunction::Heap => lhs.is_heap(),
+            NativeFunction::Range => lhs.is_range(),
+            NativeFunction::Enumerate => lhs.is_enumerate(),
             NativeFunction::Any => true,
             _ => return TypeErrorBinaryIs(lhs, rhs).err()
         },
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9d5fb3a..70b7413 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -122,7 +122,7 @@ impl Type {
     fn is_evaluable(self) -> bool {
         use Type::{*};
         match self {
-            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice => true,
+            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice | Memoized | GetField => true,
             _ => false
         }
     }
-- 
2.43.0


From c5e512d74493dd4f2249702492d92c4ecd901484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 37/86] fix: equality and hash of partial functions and
 closures must include their arguments and environment

---
 cordy-sys/src/core/mod.rs      |  2 +-
 cordy-sys/src/vm/value/func.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index c796665..53916ef 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -482,7 +482,7 @@ impl Argument {
 ///
 /// This *should be* optimize-able, given that we already perform a dispatch against the function once, when creating the partial function. So, we use `PartialArgument` to represent that state, post-dispatch.
 /// We can also create partial argument types that have an explicit number of partial arguments
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, Eq, PartialEq, Hash)]
 pub enum PartialArgument {
     Arg2Par1(ValuePtr),
     Arg3Par1(ValuePtr),
diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 8242472..49ca00e 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -178,13 +178,14 @@ impl ValuePtr {
 impl Eq for PartialFunction {}
 impl PartialEq<Self> for PartialFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.args == other.args
     }
 }
 
 impl Hash for PartialFunction {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.func.hash(state)
+        self.func.hash(state);
+        self.args.hash(state);
     }
 }
 
@@ -245,9 +246,12 @@ impl ValuePtr {
     }
 }
 
+// Two closures are equal if they are the same function, with the same (not only equal) captured variables
 impl PartialEq for Closure {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func &&
+            self.environment.len() == other.environment.len() &&
+            self.environment.iter().zip(other.environment.iter()).all(|(l, r)| Rc::ptr_eq(l, r))
     }
 }
 
@@ -312,12 +316,13 @@ impl PartialNativeFunction {
 impl Eq for PartialNativeFunction {}
 impl PartialEq<Self> for PartialNativeFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.partial == other.partial
     }
 }
 
 impl Hash for PartialNativeFunction {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.func.hash(state);
+        self.partial.hash(state);
     }
 }
\ No newline at end of file
-- 
2.43.0


From cd40e314a36fa02617376c2ec9c720a7fde187f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 38/86] fix: number of arguments expected by partial, memoized
 and field access functions used in sort_by, min_by and max_by

---
 cordy-sys/src/vm/value/func.rs | 2 +-
 cordy-sys/src/vm/value/mod.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 49ca00e..39435dc 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -309,7 +309,7 @@ impl PartialNativeFunction {
     }
 
     pub fn min_nargs(&self) -> u32 {
-        self.func.min_nargs()
+        self.partial.min_nargs()
     }
 }
 
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 70b7413..7480873 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -407,7 +407,8 @@ impl ValuePtr {
             Type::PartialNativeFunction => Some(self.as_partial_native().min_nargs()),
             Type::Closure => Some(self.as_closure().borrow_func().min_args()),
             Type::StructType => Some(self.as_struct_type().num_fields()),
-            Type::Slice => Some(1),
+            Type::Slice | Type::GetField => Some(1),
+            Type::Memoized => self.as_memoized().borrow().func.min_nargs(),
             _ => None,
         }
     }
-- 
2.43.0


From d60795d827b1d998730d973a986e094fe7bd8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 39/86] fix: group_by with a size much larger than the iterable

---
 cordy-sys/src/core/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index b253aa9..284d131 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -268,12 +268,12 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
             }
             let size: usize = i as usize;
             let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(1 + iter.len() / size); // Accurate guess
-            let mut group: Vec<ValuePtr> = Vec::with_capacity(size);
+            let mut group: Vec<ValuePtr> = Vec::new();
             for value in iter {
                 group.push(value);
                 if group.len() == size {
                     groups.push_back(group.to_value());
-                    group = Vec::with_capacity(size);
+                    group = Vec::new();
                 }
             }
             if !group.is_empty() {
-- 
2.43.0


From 6c9dd510288cc55134762608f808c344d983ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 40/86] fix: an error raised by a function used in sort_by,
 min_by or max_by stops the operation

---
 cordy-sys/src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index fcb4ab0..f0fff65 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -23,6 +23,9 @@ pub fn strip_line_ending(buffer: &mut String) {
 /// N.B. This did not work without specifying the types `Box<RuntimeError>` exactly. I do not know why.
 #[inline(always)]
 pub fn catch<T>(err: &mut Option<ErrorPtr>, f: impl FnOnce() -> ErrorResult<T>, default: T) -> T {
+    if err.is_some() {
+        return default // An error has already occurred, so don't invoke the function again
+    }
     match f().branch() {
         ControlFlow::Continue(e) => e,
         ControlFlow::Break(Err(e)) => {
-- 
2.43.0


From b3ff6dab8ab9997bcb57014cb888efac34d3e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 41/86] fix: bounds of slices are clamped, identical to Python

---
 cordy-sys/src/core/collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 284d131..6b390d8 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -102,8 +102,10 @@ pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePt
     let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
     let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
 
-    let abs_start: i64 = to_index(length, low);
-    let abs_stop: i64 = to_index(length, high);
+    // Bounds outside of the target are clamped to the closest bound.
+    let (min, max) = if step > 0 { (0, length) } else { (-1, length - 1) };
+    let abs_start: i64 = to_index(length, low).clamp(min, max);
+    let abs_stop: i64 = to_index(length, high).clamp(min, max);
     let abs_step: usize = step.unsigned_abs() as usize;
 
     if step > 0 {
-- 
2.43.0


From a60a248a864e0c212d5293bb8f966c4621b11e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 42/86] fix: copying a dictionary preserves its default

---
 cordy-sys/src/core/collections.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 6b390d8..22dfbd3 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -796,6 +796,9 @@ fn copy_recursive(it: &ValuePtr, objects: &mut HashMap<usize, ValuePtr, FxBuildH
                 for (key, value) in elements {
                     copy.insert(key, value);
                 }
+                if let Some(default) = it.as_dict().borrow().get_default() {
+                    copy.set_default(default.clone());
+                }
 
                 ptr.clone()
             }
-- 
2.43.0


From 51f3e7805bbb604c2ec382e757bbb75c42da47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 43/86] fix: accessing the default of a dictionary with a key
 that contains the dictionary

---
 cordy-sys/src/core/collections.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 22dfbd3..2b50b18 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -54,11 +54,11 @@ fn get_dict_index<VM : VirtualInterface>(vm: &mut VM, dict: &ValuePtr, key: Valu
     // We go through the `.entry()` API again in this case
     let new_value: ValuePtr = default_factory.invoke(vm)?;
     let mut dict = dict.borrow_mut();
-
-    dict.entry(key)
-        .or_insert(new_value)
-        .clone()
-        .ok()
+    if let Some(existing_value) = dict.get(&key) {
+        return existing_value.clone().ok()
+    }
+    dict.insert_checked(key, new_value.clone())?;
+    new_value.ok()
 }
 
 pub fn set_index(target: &ValuePtr, index: ValuePtr, value: ValuePtr) -> AnyResult {
-- 
2.43.0


From bac7e7a2d4f690776dc5c6db04df689be21dd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 44/86] fix: only line endings are replaced when reading from
 external sources, and errors reading from stdin are raised

---
 cordy-sys/src/core/mod.rs |  6 +++---
 cordy-sys/src/vm/mod.rs   | 24 +++++++++++++++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 53916ef..763622e 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -826,8 +826,8 @@ pub fn invoke_partial<VM : VirtualInterface>(f: &PartialNativeFunction, nargs: u
 
 fn invoke_arg0<VM : VirtualInterface>(f: NativeFunction, vm: &mut VM) -> ValueResult {
     match f {
-        Read => vm.read().to_value().ok(),
-        ReadLine => vm.read_line().to_value().ok(),
+        Read => vm.read()?.replace("\r\n", "\n").to_value().ok(),
+        ReadLine => vm.read_line()?.to_value().ok(),
         Print => {
             vm.println0();
             ValuePtr::nil().ok()
@@ -854,7 +854,7 @@ fn invoke_arg1<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, vm: &mut
         ReadText => {
             let path = a1.as_str_checked()?;
             match fs::read_to_string::<&str>(path) {
-                Ok(text) => text.replace('\r', "").to_value().ok(),
+                Ok(text) => text.replace("\r\n", "\n").to_value().ok(),
                 Err(err) => IOError(err.to_string()).err(),
             }
         },
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 6680071..18dfe45 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -121,8 +121,8 @@ pub trait VirtualInterface {
     fn println(&mut self, str: &str);
     fn print(&mut self, str: &str);
 
-    fn read_line(&mut self) -> String;
-    fn read(&mut self) -> String;
+    fn read_line(&mut self) -> ErrorResult<String>;
+    fn read(&mut self) -> ErrorResult<String>;
 
     fn get_envs(&self) -> ValuePtr;
     fn get_env(&self, name: &str) -> ValuePtr;
@@ -970,17 +970,23 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     fn println(&mut self, str: &str) { writeln!(&mut self.write, "{}", str).unwrap(); }
     fn print(&mut self, str: &str) { write!(&mut self.write, "{}", str).unwrap(); }
 
-    fn read_line(&mut self) -> String {
+    fn read_line(&mut self) -> ErrorResult<String> {
         let mut buf = String::new();
-        self.read.read_line(&mut buf).unwrap();
-        util::strip_line_ending(&mut buf);
-        buf
+        match self.read.read_line(&mut buf) {
+            Ok(_) => {
+                util::strip_line_ending(&mut buf);
+                Ok(buf)
+            },
+            Err(err) => IOError(err.to_string()).err()
+        }
     }
 
-    fn read(&mut self) -> String {
+    fn read(&mut self) -> ErrorResult<String> {
         let mut buf = String::new();
-        self.read.read_to_string(&mut buf).unwrap();
-        buf
+        match self.read.read_to_string(&mut buf) {
+            Ok(_) => Ok(buf),
+            Err(err) => IOError(err.to_string()).err()
+        }
     }
 
     fn get_envs(&self) -> ValuePtr {
-- 
2.43.0


From d9781e4fc40ff304f1219f395220be7ca4e8eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 45/86] fix: instances of different structs are not ordered

---
 cordy-sys/src/vm/value/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 7480873..1e2da8b 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -740,11 +740,14 @@ impl StructImpl {
     }
 }
 
-// Struct ordering is based on fields, like a vector
+// Struct ordering is based on fields, like a vector. Instances of different structs are of different types, and so are not ordered
 impl_partial_ord!(StructImpl);
 impl Ord for StructImpl {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.values.cmp(&other.values)
+        match self.owner == other.owner {
+            true => self.values.cmp(&other.values),
+            false => Ordering::Equal
+        }
     }
 }
 
-- 
2.43.0


From 1d541989ad7e0a8145d48197daf6fedaeba0c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 46/86] fix: variadic arguments of a partially evaluated
 function

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 18dfe45..0d1f4fe 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -769,7 +769,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 55255a21a69f433d6cf03a6baa68f75d867b753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 47/86] fix: shifts by more than the width of an integer

---
 cordy-sys/src/vm/operator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 8a3c139..78d63e3 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -419,10 +419,11 @@ pub fn binary_right_shift(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// Performs a binary shift either left or right, based on the sign of `rhs`. Positive values shift left, negative values shift right.
 #[inline]
 fn i64_left_shift(lhs: i64, rhs: i64) -> i64 {
+    // Shifting by more than the width of the integer shifts out every bit, other than the sign when shifting right
     if rhs >= 0 {
-        lhs << rhs
+        if rhs < 64 { lhs << rhs } else { 0 }
     } else {
-        lhs >> (-rhs)
+        lhs >> rhs.unsigned_abs().min(63)
     }
 }
 
-- 
2.43.0


From 577952c4e7148c6e634b08a8f22f9b53a882a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 48/86] fix: optimizer reordered expressions that can exit or
 raise an error

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..2d257b1 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,3 +1,4 @@
+use crate::compiler::parser::semantic::LValueReference;
 use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
 use crate::core::NativeFunction;
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
@@ -170,13 +171,14 @@ impl Expr {
 
     fn purity(&self) -> Purity {
         match &self.1 {
-            ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            // Loading a late bound variable can raise an error, if the variable is not yet declared
+            ExprType::LValue(LValueReference::LateBinding(_)) => Purity::None,
             ExprType::LValue(_) => Purity::Weak,
 
-            ExprType::Unary(_, arg) => arg.purity(),
-            ExprType::Binary(_, lhs, rhs, _) | ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
+            // N.B. Operators (other than those which have been folded), and unrolling, can raise an error - so they have a visible side effect
+            ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
             ExprType::Literal(_, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
-            ExprType::Unroll(arg) => arg.purity(),
             ExprType::IfThenElse(condition, if_true, if_false) => condition.purity().min(if_true.purity()).min(if_false.purity()),
 
             ExprType::Call { unroll: true, .. } => Purity::None,
-- 
2.43.0


From 631476c7704349313da35d016e1440385d1b0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 49/86] fix: the value of an assignment to an element was the
 collection, rather than the assigned value

---
 cordy-sys/src/vm/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 0d1f4fe..4d73f62 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -384,8 +384,9 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     trace::trace_interpreter!("vm::run StoreArray array={}, index={}, value={}", self.stack[self.stack.len() - 3].as_debug_str(), self.stack[self.stack.len() - 2].as_debug_str(), self.stack.last().unwrap().as_debug_str());
                     let a3: ValuePtr = self.pop();
                     let a2: ValuePtr = self.pop();
-                    let a1: &ValuePtr = self.peek(0); // Leave this on the stack when done
-                    core::set_index(a1, a2, a3)?;
+                    let a1: ValuePtr = self.pop();
+                    core::set_index(&a1, a2, a3.clone())?;
+                    self.push(a3); // The result of the assignment is the assigned value
                 },
 
                 InitGlobal => {
-- 
2.43.0


From 6db6b6f1b275e9d61812088d181532da6829d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 50/86] fix: close upvalues captured after a return statement

---
 cordy-sys/src/vm/mod.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 4d73f62..9a67118 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -310,6 +310,14 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    // Locals which were captured after (in source order) this `return` statement, will not have been lifted yet
+                    if self.open_upvalues.keys().any(|index| *index >= frame.frame_pointer) {
+                        let open: Vec<usize> = self.open_upvalues.keys().copied().filter(|index| *index >= frame.frame_pointer).collect();
+                        for index in open {
+                            self.lift_upvalue(index);
+                        }
+                    }
+
                     self.stack.swap_remove(frame.frame_pointer - 1); // This removes the function, and drops it, and it gets automatically replaced with the return value
                     self.stack.truncate(frame.frame_pointer); // Drop all values above the frame pointer
                     self.ip = frame.return_ip; // And jump to the return address
@@ -425,15 +433,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                 LiftUpValue(index) => {
                     let index = self.frame_pointer() + index as usize;
-                    if let Some(upvalue) = self.open_upvalues.remove(&index) {
-                        let value: ValuePtr = self.stack[index].clone();
-                        let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
-                        let closed: UpValue = match unboxed {
-                            UpValue::Open(_) => UpValue::Closed(value),
-                            UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
-                        };
-                        (*upvalue).replace(closed);
-                    }
+                    self.lift_upvalue(index);
                 },
 
                 InitIterable => {
@@ -709,6 +709,19 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
         self.call_stack[self.call_stack.len() - 1].frame_pointer
     }
 
+    /// Closes the upvalue which is open for the given (absolute) `index` in the stack, if there is one.
+    fn lift_upvalue(&mut self, index: usize) {
+        if let Some(upvalue) = self.open_upvalues.remove(&index) {
+            let value: ValuePtr = self.stack[index].clone();
+            let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
+            let closed: UpValue = match unboxed {
+                UpValue::Open(_) => UpValue::Closed(value),
+                UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
+            };
+            (*upvalue).replace(closed);
+        }
+    }
+
     fn invoke_and_spin(&mut self, nargs: u32) -> ValueResult {
         match self.invoke(nargs)? {
             FunctionType::Native => {},
-- 
2.43.0


From 5daa1a1d346ebf2cd2b2271b5d6b0d9f88b38698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 51/86] fix: close over the variables of a for loop at a
 continue statement

---
 cordy-sys/src/compiler/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index a3f2e47..f47f10b 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -973,8 +973,12 @@ impl Parser<'_> {
         match self.current_locals_mut().top_loop() {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
-                let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                let outer_depth: u32 = loop_stmt.enclosing_scope();
+                let inner_depth: u32 = loop_stmt.inner_scope();
+
+                // The variables of a `for` loop are not popped, but they are unique for each iteration of the loop, so must be lifted
+                self.pop_locals(Some(outer_depth), false, false, true);
+                self.pop_locals(Some(inner_depth), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From cd92dd9b95f950218b9cc3bdc807bbb296a486b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 52/86] fix: closures captured the stack slot of variables
 which are no longer in scope

---
 cordy-sys/src/compiler/parser/semantic.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index edbe030..9c98477 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -99,8 +99,12 @@ impl Locals {
     }
 
     /// Enumerates the current locals' `upvalues`, and emits the correct `CloseLocal` or `CloseUpValue` tokens for each.
+    ///
+    /// Upvalues of locals which went out of scope still take up an index, but cannot be referenced, so any other upvalue is closed in their place
     pub(super) fn closed_locals(&self) -> Vec<Opcode> {
+        let placeholder = self.upvalues.iter().find(|upvalue| !upvalue.popped);
         self.upvalues.iter()
+            .filter_map(|upvalue| if upvalue.popped { placeholder } else { Some(upvalue) })
             .map(|upvalue| if upvalue.is_local { CloseLocal(upvalue.index) } else { CloseUpValue(upvalue.index) })
             .collect::<Vec<Opcode>>()
     }
@@ -189,11 +193,14 @@ struct UpValue {
     /// Either a reference to an index in the enclosing function's `locals` (which are stack offset),
     /// or a reference to the enclosing function's `upvalues` (which can be accessed via stack offset 0 -> upvalues, if it is a closure
     index: u32,
+
+    /// `true` if this references a local variable which is no longer in scope
+    popped: bool,
 }
 
 impl UpValue {
     fn new(is_local: bool, index: u32) -> UpValue {
-        UpValue { is_local, index }
+        UpValue { is_local, index, popped: false }
     }
 }
 
@@ -1180,10 +1187,13 @@ impl<'a> Parser<'a> {
                     self.current_locals_mut().locals.pop().unwrap();
 
                     // And pop any matching upvalues
-                    if let Some(upvalue) = self.current_locals_mut().upvalues.last() {
-                        if upvalue.index == local_index && upvalue.is_local {
-                            self.current_locals_mut().upvalues.pop().unwrap();
-                        }
+                    // If this is not the last upvalue, the index of the others must not change, so we can only mark this as no longer in scope
+                    let upvalues = &mut self.current_locals_mut().upvalues;
+                    if let Some(upvalue) = upvalues.iter_mut().find(|upvalue| upvalue.index == local_index && upvalue.is_local) {
+                        upvalue.popped = true;
+                    }
+                    while upvalues.last().is_some_and(|upvalue| upvalue.popped) {
+                        upvalues.pop().unwrap();
                     }
                 }
             }
@@ -1376,8 +1386,9 @@ impl<'a> Parser<'a> {
         // Capture the local at index `local_index` in the function at `local_depth`
         // If it already exists (is `is_local` and has the same `index` as the target), just grab the upvalue index, otherwise add it and bubble up
         let mut maybe_index: Option<usize> = None;
-        for (i, upvalue) in self.locals[local_depth as usize].upvalues.iter().enumerate() {
+        for (i, upvalue) in self.locals[local_depth as usize].upvalues.iter_mut().enumerate() {
             if upvalue.index == local_index && upvalue.is_local {
+                upvalue.popped = false;
                 maybe_index = Some(i);
                 break
             }
-- 
2.43.0


From db75f17bb5bb93ef6952473dfb674419863c26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 53/86] fix: memoized functions which take themselves as an
 argument panic

---
 cordy-sys/src/core/mod.rs     | 10 ++++++----
 cordy-sys/src/vm/value/mod.rs | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 763622e..7ed5755 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -1071,7 +1071,7 @@ pub fn invoke_memoized<VM : VirtualInterface>(vm: &mut VM, nargs: u32) -> ValueR
         // We cannot use the `.entry()` API, as that requires we mutably borrow the cache during the call to `vm.invoke_func()`
         // We only lookup by key once (in the cached case), and twice (in the uncached case)
         let borrow = memoized.borrow();
-        if let Some(ret) = borrow.cache.get(&args) {
+        if let Some(ret) = borrow.cache.borrow().get(&args) {
             return ret.clone().ok();
         }
         borrow.func.clone()
@@ -1081,11 +1081,13 @@ pub fn invoke_memoized<VM : VirtualInterface>(vm: &mut VM, nargs: u32) -> ValueR
     let ret: ValuePtr = vm.invoke_func(func, &args)?;
 
     // The above computation might've entered a value into the cache - so we have to go through `.entry()` again
-    return memoized.borrow_mut().cache
-        .entry(args)
+    // Only borrow the cache mutably, not the function, as hashing the arguments may require hashing the function
+    let borrow = memoized.borrow();
+    let mut cache = borrow.cache.borrow_mut();
+    cache.entry(args)
         .or_insert(ret)
         .clone()
-        .ok();
+        .ok()
 }
 
 
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 1e2da8b..b3c3f76 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+use std::cell::RefCell;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{HashMap, VecDeque};
 use std::fmt::Debug;
@@ -166,7 +167,7 @@ impl ValuePtr {
     pub fn memoized(func: ValuePtr) -> ValuePtr {
         MemoizedImpl {
             func,
-            cache: HashMap::with_hasher(FxBuildHasher::default()),
+            cache: RefCell::new(HashMap::with_hasher(FxBuildHasher::default())),
         }.to_value()
     }
 
@@ -1011,10 +1012,18 @@ impl FusedIterator for Iterable {}
 impl FusedIterator for IterableRev {}
 
 
-#[derive(Eq, PartialEq, Debug, Clone)]
+/// The `cache` is mutable on its own, and not part of the identity of the function, as the keys and values within may refer to the function itself.
+#[derive(Debug, Clone)]
 pub struct MemoizedImpl {
     pub func: ValuePtr,
-    pub cache: HashMap<Vec<ValuePtr>, ValuePtr, FxBuildHasher>
+    pub cache: RefCell<HashMap<Vec<ValuePtr>, ValuePtr, FxBuildHasher>>
+}
+
+impl Eq for MemoizedImpl {}
+impl PartialEq for MemoizedImpl {
+    fn eq(&self, other: &Self) -> bool {
+        self.func == other.func
+    }
 }
 
 impl Hash for MemoizedImpl {
-- 
2.43.0


From 9f5739275033039e3b212525cd64c48c87bb04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 54/86] fix: nested assignment patterns may begin with a
 variadic element

---
 cordy-sys/src/compiler/parser/semantic.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 9c98477..fbd2a60 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -392,10 +392,24 @@ impl LValue {
                 .map(|lvalue| LValue::Terms(vec![lvalue])),
 
             // Otherwise, all comma expressions produce the same level of indirection
-            ExprType::Comma { args, .. } => args.into_iter()
-                .map(|Expr(_, expr)| LValue::from(expr, false))
-                .collect::<Result<Vec<LValue>, ParserErrorType>>()
-                .map(LValue::Terms),
+            ExprType::Comma { args, .. } => {
+                let many = args.len() > 1;
+                args.into_iter()
+                    .map(|Expr(_, expr)| match expr {
+                        // `(*x, ...)` was parsed as a partially evaluated operator, as at the time the parse was ambiguous
+                        ExprType::Call { f, mut args, unroll: false }
+                            if many
+                            && matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
+                            && args.len() == 1 && matches!(args[0], Expr(_, ExprType::LValue(_)))
+                            => LValue::from(args.pop().unwrap().1, false).map(|lvalue| match lvalue {
+                                LValue::Named(it) => LValue::VarNamed(it),
+                                it => it
+                            }),
+                        expr => LValue::from(expr, false)
+                    })
+                    .collect::<Result<Vec<LValue>, ParserErrorType>>()
+                    .map(LValue::Terms)
+            },
 
             // These are produced by the parser in some situations, so we have to handle them,
             // as at the time the parse was ambiguous
-- 
2.43.0


From faf793da56c23199b117e379f3444691bde12876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 55/86] fix: late bound names are only bound to methods of
 their own module

---
 cordy-sys/src/compiler/parser/semantic.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index fbd2a60..1fd261d 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -256,6 +256,8 @@ pub struct LateBinding {
     /// A fallback binding. If this is present, an error should never be raised, and the fallback should be used instead.
     /// The fallback here will always be a global, and this will be the index
     fallback: Option<u32>,
+    /// The depth of the innermost module enclosing this reference, which has not ended yet. A method can only be bound by a reference within its own module.
+    module_depth: u32,
     /// If true, an error should be raised. Represents the state of the error recovery mode when hit
     error: bool,
 }
@@ -273,11 +275,12 @@ impl LateBinding {
         let index = parser.late_binding_next_index;
         let loc = parser.prev_location();
         let error = !parser.error_recovery;
+        let module_depth = parser.module_depth;
         let this = parser.resolve_reference(Reference::LateThis);
 
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, module_depth, error })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -971,6 +974,11 @@ impl<'a> Parser<'a> {
 
         // Decrement module depth
         self.module_depth -= 1;
+
+        // Any references left within this module can no longer be bound to a method of this, or any later module
+        for binding in &mut self.late_bindings {
+            binding.module_depth = binding.module_depth.min(self.module_depth);
+        }
     }
 
     /// Declares a function with a given name and arguments.
@@ -1071,7 +1079,12 @@ impl<'a> Parser<'a> {
 
             // If the binding matches, it will be declared here
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            // Note that a method only matches references from within the module it is declared in
+            let visible = match &result {
+                LateBound::Local(_) => true,
+                LateBound::Method { .. } => binding.module_depth >= self.module_depth,
+            };
+            if visible && binding.name == name {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
-- 
2.43.0


From 655266edd3e7fd591f1a60d38a72c0fd7d41e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 56/86] fix: do not fold string repeats and formats which
 produce very large constants

---
 .../src/compiler/parser/expr/optimizer.rs     | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 2d257b1..d2813db 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,6 +1,7 @@
 use crate::compiler::parser::semantic::LValueReference;
 use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
 use crate::core::NativeFunction;
+use crate::vm::operator::BinaryOp;
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
 
 
@@ -34,7 +35,13 @@ impl Visitor for Optimizer {
 
             Expr(loc, ExprType::Binary(op, lhs, rhs, swap)) => match lhs.into_const() {
                 Ok(lhs) => match rhs.into_const() {
-                    Ok(rhs) => Expr::result(loc, if swap { op.apply(rhs, lhs) } else { op.apply(lhs, rhs) }),
+                    Ok(rhs) => {
+                        let (x, y) = if swap { (rhs, lhs) } else { (lhs, rhs) };
+                        match can_fold(op, &x, &y) {
+                            true => Expr::result(loc, op.apply(x, y)),
+                            false => Expr::value(loc, x).binary(loc, op, Expr::value(loc, y), false),
+                        }
+                    },
                     Err(rhs) => Expr::value(loc, lhs).binary(loc, op, rhs, swap),
                 },
                 Err(lhs) => lhs.binary(loc, op, *rhs, swap),
@@ -204,6 +211,24 @@ impl Expr {
     }
 }
 
+/// The maximum length of a string which may be the result of repeating or formatting a string as part of constant folding
+const MAX_FOLDED_STR_LEN: usize = 4096;
+
+/// Returns `false` if applying this operator to these constants could produce an unreasonably large constant. These are left to be evaluated at runtime (if they are at all).
+fn can_fold(op: BinaryOp, lhs: &ValuePtr, rhs: &ValuePtr) -> bool {
+    fn is_foldable_repeat(string: &ValuePtr, repeat: &ValuePtr) -> bool {
+        string.as_str_slice().len().saturating_mul(repeat.as_int().max(0) as usize) <= MAX_FOLDED_STR_LEN
+    }
+
+    match op {
+        BinaryOp::Mul if lhs.is_str() && rhs.is_int() => is_foldable_repeat(lhs, rhs),
+        BinaryOp::Mul if lhs.is_int() && rhs.is_str() => is_foldable_repeat(rhs, lhs),
+        // Format specifiers are allowed to have a width of up to three digits
+        BinaryOp::Mod if lhs.is_str() => !lhs.as_str_slice().as_bytes().windows(4).any(|u| u.iter().all(u8::is_ascii_digit)),
+        _ => true,
+    }
+}
+
 fn any_unroll(args: &[Expr]) -> bool {
     args.iter().any(|u| u.is_unroll())
 }
-- 
2.43.0


From 78a74d495fda5857775e96da18d904aa8d9a0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 57/86] fix: check slice bounds in order, before the sliced
 value

---
 cordy-sys/src/core/collections.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 2b50b18..87df450 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -81,26 +81,30 @@ pub fn set_index(target: &ValuePtr, index: ValuePtr, value: ValuePtr) -> AnyResu
 pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePtr) -> ValueResult {
 
     #[inline]
-    fn unwrap_or(ptr: ValuePtr, default: i64) -> ErrorResult<i64> {
+    fn check(ptr: ValuePtr) -> ErrorResult<Option<i64>> {
         if ptr.is_int() {
-            Ok(ptr.as_int())
+            Ok(Some(ptr.as_int()))
         } else if ptr.is_nil() {
-            Ok(default)
+            Ok(None)
         } else {
             TypeErrorArgMustBeInt(ptr).err()
         }
     }
 
+    // Check the bounds before the target, in order - `x . [a:b:c]` has to be identical to `x[a:b:c]`, and the former creates the slice first
+    let low: Option<i64> = check(low)?;
+    let high: Option<i64> = check(high)?;
+    let step: i64 = check(step)?.unwrap_or(1);
+
     let mut slice = target.to_slice()?;
     let length: i64 = slice.len() as i64;
 
-    let step: i64 = unwrap_or(step, 1)?;
     if step == 0 {
         return ValueErrorStepCannotBeZero.err()
     }
 
-    let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
-    let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
+    let low: i64 = low.unwrap_or(if step > 0 { 0 } else { -1 });
+    let high: i64 = high.unwrap_or(if step > 0 { length } else { -length - 1 });
 
     // Bounds outside of the target are clamped to the closest bound.
     let (min, max) = if step > 0 { (0, length) } else { (-1, length - 1) };
-- 
2.43.0


From e384a44edf8db10e77b19cfddbb08ca3e1bff11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 58/86] fix: count characters, not bytes, when reporting error
 locations

---
 cordy-sys/src/reporting.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 5bfacb2..9f99d0a 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -201,7 +201,7 @@ impl SourceEntry {
         }
 
         let (start_col, end_col) = if loc.is_empty() {
-            let last_col: usize = index.lines[end_lineno].len();
+            let last_col: usize = index.lines[end_lineno].chars().count();
             (last_col + 1, last_col + 3)
         } else {
             (loc.start - index.starts[start_lineno], loc.end() - index.starts[end_lineno])
@@ -229,7 +229,7 @@ impl SourceEntry {
         } else {
             // For multi-line errors, just point directly up across the entire bottom line
             let longest_line_len: usize = (start_lineno..=end_lineno)
-                .map(|u| index.lines[u].len())
+                .map(|u| index.lines[u].chars().count())
                 .max()
                 .unwrap();
             if longest_line_len > 0 {
@@ -250,7 +250,7 @@ impl SourceEntry {
             for line in self.text.split('\n') {
                 lines.push(String::from(line.strip_suffix('\r').unwrap_or(line)));
                 starts.push(start);
-                start += line.len() + 1;
+                start += line.chars().count() + 1; // Locations are counted in characters, not bytes
             }
 
             starts.push(start);
-- 
2.43.0


From 8f121ffa99635507c40bb569530dce17e0e35087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 59/86] fix: report errors which end with the first character
 of a line, and unterminated tokens, at their exact location

---
 cordy-sys/src/compiler/scanner.rs | 9 +++++----
 cordy-sys/src/reporting.rs        | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index 1be824a..e6a32fa 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -335,7 +335,7 @@ impl<'a> Scanner<'a> {
                                    None => {
                                        // Manually report this error at the source point, not at the destination point of the string
                                        // It makes it much easier to read.
-                                       self.push_err_at(start, 1, UnterminatedStringLiteral);
+                                       self.push_err_at(start, UnterminatedStringLiteral);
                                        break
                                    }
                                }
@@ -408,7 +408,7 @@ impl<'a> Scanner<'a> {
                                        },
                                        Some(_) => {},
                                        None => {
-                                           self.push_err_at(start, 2, UnterminatedBlockComment);
+                                           self.push_err_at(start, UnterminatedBlockComment);
                                            break
                                        }
                                    }
@@ -542,12 +542,13 @@ impl<'a> Scanner<'a> {
     }
 
     /// Reports an error at a given source point, not until the end. Used for 'unterminated' errors, as it makes them easier to read.
-    fn push_err_at(&mut self, start: usize, width: u32, error: ScanErrorType) {
+    /// The `start` is the cursor after consuming the first character of the unterminated token.
+    fn push_err_at(&mut self, start: usize, error: ScanErrorType) {
         // Manually report this error at the source point, not at the destination point of the string
         // It makes it much easier to read.
         self.errors.push(ScanError {
             error,
-            loc: Location::new(start, (self.cursor - start) as u32 + width, self.index)
+            loc: Location::new(start - 1, (self.cursor - start + 1) as u32, self.index)
         });
     }
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 9f99d0a..3442707 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -170,7 +170,7 @@ impl SourceEntry {
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-            while index.starts[end_lineno + 1] < loc.end() {
+            while index.starts[end_lineno + 1] <= loc.end() {
                 end_lineno += 1;
             }
         }
-- 
2.43.0


From 35f3cff8d21aecb2fd68895701f86480fefe64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 60/86] fix: location of calls to min and max when optimised

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index d2813db..5968371 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -73,7 +73,7 @@ impl Visitor for Optimizer {
                     },
 
                     // This is a special case, for `min(int)` and `max(int)`, we can replace this with a compile time constant
-                    Expr(loc, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
+                    Expr(_, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
                         if let Expr(_, ExprType::NativeFunction(NativeFunction::Int)) = args[0] {
                             Expr::int(loc, if native_f == NativeFunction::Min { ValuePtr::MIN_INT } else { ValuePtr::MAX_INT })
                         } else {
-- 
2.43.0


From 40ec7fe5d6b70a0790ecc2cb6fc5a8f6daff9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 61/86] fix: operands of folded operators were swapped

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 5968371..f15441e 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -35,12 +35,10 @@ impl Visitor for Optimizer {
 
             Expr(loc, ExprType::Binary(op, lhs, rhs, swap)) => match lhs.into_const() {
                 Ok(lhs) => match rhs.into_const() {
-                    Ok(rhs) => {
-                        let (x, y) = if swap { (rhs, lhs) } else { (lhs, rhs) };
-                        match can_fold(op, &x, &y) {
-                            true => Expr::result(loc, op.apply(x, y)),
-                            false => Expr::value(loc, x).binary(loc, op, Expr::value(loc, y), false),
-                        }
+                    // N.B. `swap` only affects the order of evaluation of the operands, which doesn't matter for constants
+                    Ok(rhs) => match can_fold(op, &lhs, &rhs) {
+                        true => Expr::result(loc, op.apply(lhs, rhs)),
+                        false => Expr::value(loc, lhs).binary(loc, op, Expr::value(loc, rhs), false),
                     },
                     Err(rhs) => Expr::value(loc, lhs).binary(loc, op, rhs, swap),
                 },
-- 
2.43.0


From 4fda50f0176726ca21e399fdb03b83f131938d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 62/86] fix: overflow in division of complex numbers

---
 cordy-sys/src/vm/operator.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 78d63e3..7eeca27 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -206,7 +206,7 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         },
         (Bool | Int | Complex, Bool | Int | Complex) => {
             let rhs = rhs.to_complex();
-            match rhs.norm_sqr() == 0 {
+            match rhs.re == 0 && rhs.im == 0 {
                 true => ValueErrorDivideByZero.err(),
                 false => c64_div_floor(lhs.to_complex(), rhs).to_value().ok()
             }
@@ -230,10 +230,13 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// This is a clone of that but using `floor_div` provided by `num-integer`, which keeps consistency with how we define division for `complex / int`
 #[inline]
 fn c64_div_floor(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
-    let norm_sqr = rhs.norm_sqr();
-    let re = lhs.re * rhs.re + lhs.im * rhs.im;
-    let im = lhs.im * rhs.re - lhs.re * rhs.im;
-    ComplexType::new(num_integer::div_floor(re, norm_sqr), num_integer::div_floor(im, norm_sqr))
+    // N.B. The intermediate products must not overflow, so use `i128` here
+    let (a, b) = (lhs.re as i128, lhs.im as i128);
+    let (c, d) = (rhs.re as i128, rhs.im as i128);
+    let norm_sqr = c * c + d * d;
+    let re = a * c + b * d;
+    let im = b * c - a * d;
+    ComplexType::new(num_integer::div_floor(re, norm_sqr) as i64, num_integer::div_floor(im, norm_sqr) as i64)
 }
 
 pub fn binary_mod(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
-- 
2.43.0


From 87612adf191060f5d5585f5e8edf6187bfb9df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 63/86] fix: operator sections as arguments and elements
 followed by a comma or bracket

---
 cordy-sys/src/compiler/parser/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index f47f10b..e2b6949 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1871,13 +1871,10 @@ impl Parser<'_> {
                 }
                 _ => None
             };
-            if maybe_op.is_some() && (if long { self.peek3() } else { self.peek2() }) == Some(&CloseParen) {
-                break;
-            }
             match maybe_op {
                 Some(op) => {
                     // Based on `long`, might need to peek two or three ahead to verify if this is a partial evaluation, instead of operator.
-                    if (if long { self.peek3() } else { self.peek2() }) == Some(&CloseParen) {
+                    if matches!(if long { self.peek3() } else { self.peek2() }, Some(Comma | CloseParen | CloseBrace | CloseSquareBracket)) {
                         break
                     }
 
@@ -1903,7 +1900,7 @@ impl Parser<'_> {
                 Some(Minus) => Some(BinaryOp::Sub),
                 _ => None
             };
-            if maybe_op.is_some() && self.peek2() == Some(&CloseParen) {
+            if maybe_op.is_some() && matches!(self.peek2(), Some(Comma | CloseParen | CloseBrace | CloseSquareBracket)) {
                 break
             }
             match maybe_op {
@@ -1926,7 +1923,7 @@ impl Parser<'_> {
                 Some(RightShift) => Some(BinaryOp::RightShift),
                 _ => None
             };
-            if maybe_op.is_some() && self.peek2() == Some(&CloseParen) {
+            if maybe_op.is_some() && matches!(self.peek2(), Some(Comma | CloseParen | CloseBrace | CloseSquareBracket)) {
                 break
             }
             match maybe_op {
@@ -1950,7 +1947,7 @@ impl Parser<'_> {
                 Some(BitwiseXor) => Some(BinaryOp::Xor),
                 _ => None
             };
-            if maybe_op.is_some() && self.peek2() == Some(&CloseParen) {
+            if maybe_op.is_some() && matches!(self.peek2(), Some(Comma | CloseParen | CloseBrace | CloseSquareBracket)) {
                 break
             }
             match maybe_op {
@@ -1992,7 +1989,7 @@ impl Parser<'_> {
                 Some(NotEquals) => Some(CompareOp::NotEqual),
                 _ => None
             };
-            if maybe_op.is_some() && self.peek2() == Some(&CloseParen) {
+            if maybe_op.is_some() && matches!(self.peek2(), Some(Comma | CloseParen | CloseBrace | CloseSquareBracket)) {
                 break
             }
             match maybe_op {
@@ -2016,7 +2013,7 @@ impl Parser<'_> {
                 Some(LogicalOr) => Some(BinaryOp::Or),
                 _ => None,
             };
-            if maybe_op.is_some() && self.peek2() == Some(&CloseParen) {
+            if maybe_op.is_some() && matches!(self.peek2(), Some(Comma | CloseParen | CloseBrace | CloseSquareBracket)) {
                 break
             }
             match maybe_op {
-- 
2.43.0


From f4c8ffc467a96ca619acf5bb8bc37aa7b020baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 64/86] fix: integer literals out of the 63-bit range are
 rejected

---
 cordy-sys/src/compiler/scanner.rs | 4 ++++
 cordy-sys/src/reporting.rs        | 1 +
 2 files changed, 5 insertions(+)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index e6a32fa..2a1730e 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -6,6 +6,7 @@ use std::str::Chars;
 use crate::core::NativeFunction;
 use crate::reporting::{AsErrorWithContext, Location};
 use crate::SourceView;
+use crate::vm::MAX_INT;
 
 use self::ScanErrorType::{*};
 use self::ScanToken::{*};
@@ -57,6 +58,7 @@ impl AsErrorWithContext for ScanError {
 pub enum ScanErrorType {
     InvalidNumericPrefix(char),
     InvalidNumericValue(ParseIntError),
+    IntegerTooLarge,
     InvalidCharacter(char),
     UnterminatedStringLiteral,
     UnterminatedBlockComment,
@@ -519,6 +521,8 @@ impl<'a> Scanner<'a> {
         }
 
         match i64::from_str_radix(buffer.as_str(), radix) {
+            // Integers are 63-bit. The magnitude of the minimum value is allowed, as it is needed to write that value
+            Ok(value) if !is_complex && value > MAX_INT + 1 => self.push_err(0, len, IntegerTooLarge),
             Ok(value) => self.push(len, if is_complex { ComplexLiteral(value) } else { IntLiteral(value) }),
             Err(e) => self.push_err(0, len, InvalidNumericValue(e))
         }
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 3442707..b1fd5e3 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -489,6 +489,7 @@ impl AsError for ScanError {
         match &self.error {
             InvalidNumericPrefix(c) => format!("Invalid numeric prefix: '0{}'", c),
             InvalidNumericValue(e) => format!("Invalid numeric value: {}", e),
+            IntegerTooLarge => String::from("Invalid numeric value: number too large to fit in target type"),
             InvalidCharacter(c) => format!("Invalid character: '{}'", c),
             UnterminatedStringLiteral => String::from("Unterminated string literal (missing a closing quote)"),
             UnterminatedBlockComment => String::from("Unterminated block comment (missing a closing '*/')"),
-- 
2.43.0


From 34b3fbda44e2185a9e3c9ec2380535dbe3366178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 65/86] fix: multi-line string literal as the argument of a
 bare call

---
 cordy-sys/src/compiler/parser/core/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 7103ec0..dc74a0f 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -139,10 +139,16 @@ impl<'a> Parser<'a> {
         if self.error_recovery {
             return None
         }
-        if let Some((_, token)) = self.input.iter().next() {
-            return Some(token)
+        let mut newline: Option<&(Location, ScanToken)> = None;
+        for next in &self.input {
+            match next {
+                (_, NewLine) => newline = newline.or(Some(next)),
+                // Newlines within a string literal are before it in the input, but they don't end the line the literal is on
+                (loc, token @ StringLiteral(_)) if newline.map_or(true, |(it, _)| loc.start() < it.start()) => return Some(token),
+                (_, token) => return Some(newline.map_or(token, |(_, it)| it)),
+            }
         }
-        None
+        newline.map(|(_, it)| it)
     }
 
     /// Peeks at the next incoming token.
-- 
2.43.0


From f6fd729680148fe3cb4f44bd859ea00f43bc789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 66/86] fix: Regex search skips empty matches wherever they are
 found

---
 cordy-sys/src/core/strings.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 8eef7ed..9ad3815 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -70,16 +70,16 @@ pub fn search(pattern: ValuePtr, target: ValuePtr) -> ValueResult {
     let mut start: usize = 0;
     let mut matches: Vec<ValuePtr> = Vec::new();
     while let Some(captures) = regex.captures_from_pos(text, start).or_else(|e| err_regex(&regex, e))? {
-        let end = captures.get(0).unwrap().end();
-        if start == end {
+        let found = captures.get(0).unwrap();
+        if found.start() == found.end() {
             // If we match a zero-length group, this regex will run infinitely - so the only sensible way to handle this here is to ignore
             // the match, and continue the search from the next character.
-            match text[start..].chars().next() {
-                Some(c) => start += c.len_utf8(),
+            match text[found.end()..].chars().next() {
+                Some(c) => start = found.end() + c.len_utf8(),
                 None => break,
             }
         } else {
-            start = end;
+            start = found.end();
             matches.push(as_result(&captures));
         }
     }
-- 
2.43.0


From d14220ef589446ae1836053d97d982b2bdb24beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 67/86] fix: allocation in advance for functions of long
 iterables

---
 cordy-sys/src/core/collections.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 87df450..e6f5520 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -12,6 +12,11 @@ use crate::core::NativeFunction::{Combinations, Max, MaxBy, Min, MinBy, Peek, Pe
 
 use RuntimeError::{*};
 
+/// The capacity to allocate in advance, for a collection which might hold `len` elements. A lazy iterable may be much longer than what fits in memory, and what is actually collected from it.
+fn capacity(len: usize) -> usize {
+    len.min(1 << 16)
+}
+
 
 pub fn get_index<VM : VirtualInterface>(vm: &mut VM, target: &ValuePtr, index: ValuePtr) -> ValueResult {
     if target.is_dict() {
@@ -273,7 +278,7 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
                 return ValueErrorValueMustBePositive(i).err()
             }
             let size: usize = i as usize;
-            let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(1 + iter.len() / size); // Accurate guess
+            let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(capacity(1 + iter.len() / size)); // Accurate guess
             let mut group: Vec<ValuePtr> = Vec::new();
             for value in iter {
                 group.push(value);
@@ -291,12 +296,12 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
             // Otherwise, we assume this is a group_by(f), in which case we assume the function to be a item -> key, and create a dictionary of keys -> vector of values
             // For capacity, we guess that we're halving. That seems to be a reasonable compromise between overestimating, and optimal values.
             let size = iter.len();
-            let mut groups: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(size / 2, FxBuildHasher::default());
+            let mut groups: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(capacity(size / 2), FxBuildHasher::default());
             let by: InvokeArg1 = InvokeArg1::from(by)?;
             for value in iter {
                 let key = by.invoke(value.clone(), vm)?;
                 groups.entry(key)
-                    .or_insert_with(|| Vec::with_capacity(size / 4).to_value()) // Rough guess
+                    .or_insert_with(|| Vec::new().to_value())
                     .as_vector() // This is safe because we should only have vectors in the map
                     .borrow_mut()
                     .push(value);
@@ -360,7 +365,7 @@ fn predicate<VM : VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr, is
 
 pub fn map<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> ValueResult {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(capacity(len));
     let f: InvokeArg1 = InvokeArg1::from(f)?;
     for r in args.to_iter()? {
         acc.push_back(f.invoke(r, vm)?);
@@ -370,7 +375,7 @@ pub fn map<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> Va
 
 pub fn filter<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) -> ValueResult {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(capacity(len));
     let f: InvokeArg1 = InvokeArg1::from(f)?;
     for r in args.to_iter()? {
         let ret = f.invoke(r.clone(), vm)?;
@@ -383,7 +388,7 @@ pub fn filter<VM: VirtualInterface>(vm: &mut VM, f: ValuePtr, args: ValuePtr) ->
 
 pub fn flat_map<VM>(vm: &mut VM, f: Option<ValuePtr>, args: ValuePtr) -> ValueResult where VM : VirtualInterface {
     let len: usize = args.len().unwrap_or(0);
-    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(len);
+    let mut acc: VecDeque<ValuePtr> = VecDeque::with_capacity(capacity(len));
     let f: Option<InvokeArg1> = match f {
         Some(f) => Some(InvokeArg1::from(f)?),
         None => None,
@@ -411,7 +416,7 @@ pub fn zip(args: impl Iterator<Item=ValuePtr>) -> ValueResult {
         .map(|u| u.len())
         .min()
         .unwrap_or(0);
-    let mut acc = VecDeque::with_capacity(size);
+    let mut acc = VecDeque::with_capacity(capacity(size));
     loop {
         let mut vec = Vec::with_capacity(iters.len());
         for iter in &mut iters {
@@ -704,7 +709,7 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
 
 pub fn counter(it: ValuePtr) -> ValueResult {
     let iter = it.to_iter()?;
-    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(iter.len(), FxBuildHasher::default());
+    let mut counter: IndexMap<ValuePtr, ValuePtr, FxBuildHasher> = IndexMap::with_capacity_and_hasher(capacity(iter.len()), FxBuildHasher::default());
     for elem in iter {
         counter.entry(elem)
             .and_modify(|e| {
-- 
2.43.0


From 2854e7573ed765cf325d8d58c1f3240c7ef1b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 68/86] fix: continue an input which ends after the parenthesis
 of a call

---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index e2b6949..6f6e774 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1714,7 +1714,10 @@ impl Parser<'_> {
                     match self.peek2() {
                         Some(CloseParen) => expr = expr.call(self.advance_with() | self.advance_with(), vec![]),
                         Some(_) => expr = expr.call_with(self.parse_comma_expr()),
-                        _ => self.error_with(ExpectedCommaOrEndOfArguments),
+                        _ => {
+                            self.advance(); // The error is at whatever follows the `(`, which is the end of input
+                            self.error_with(ExpectedCommaOrEndOfArguments)
+                        },
                     }
                 },
                 Some(OpenSquareBracket) => {
-- 
2.43.0


From 4c6197f3115d5628511fae3c02c57163ac464964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 69/86] fix: recover the interactive mode from errors within
 declarations, blocks and calls

---
 cordy-sys/src/vm/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 9a67118..e7a0a33 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -228,8 +228,20 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
     pub fn run_recovery(&mut self, locals: usize) {
         self.call_stack.truncate(1);
-        self.stack.truncate(locals);
+
+        // Closures may have captured locals of blocks and functions which were left by an error
+        let open: Vec<usize> = self.open_upvalues.keys().copied().collect();
+        for index in open {
+            self.lift_upvalue(index);
+        }
+
+        // Only initialized globals are retained. Ones which an error left declared, but without a value, are `nil`
+        self.stack.truncate(self.global_count);
+        self.stack.resize_with(locals, ValuePtr::nil);
+        self.global_count = locals;
+
         self.literal_stack.clear();
+        self.unroll_stack.clear();
         self.ip = self.code.len();
     }
 
-- 
2.43.0


From 30039cf0516bb8c4f2ead576be98da1d502bbaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 70/86] fix: compare and hash values which contain themselves
 without recursing forever

---
 cordy-sys/src/vm/value/ptr.rs | 102 +++++++++++++++++++++++++++-------
 1 file changed, 83 insertions(+), 19 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index a140bfd..7b60d42 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -1,4 +1,4 @@
-use std::cell::{Cell, UnsafeCell};
+use std::cell::{Cell, RefCell, UnsafeCell};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Formatter};
 use std::hash::{Hash, Hasher};
@@ -9,6 +9,8 @@ use std::ptr::NonNull;
 #[cfg(feature = "rational")] use rug::integer::SmallInteger;
 #[cfg(feature = "rational")] use rug::rational::SmallRational;
 
+use fxhash::FxHasher;
+
 use crate::core::NativeFunction;
 use crate::util::impl_partial_ord;
 use crate::vm::{Function, Iterable, RuntimeError, StructTypeImpl};
@@ -336,6 +338,11 @@ impl PartialEq for ValuePtr {
             ($f:ident) => { other_ty == ty && self.$f() == other.$f() };
         }
 
+        // Types which may contain themselves
+        macro_rules! eq_rec {
+            ($f:ident) => { other_ty == ty && compare_recursive(self, other, true, || self.$f() == other.$f()) };
+        }
+
         match ty {
             Type::Nil |
             Type::Bool |
@@ -370,12 +377,12 @@ impl PartialEq for ValuePtr {
             Type::PartialNativeFunction => eq!(as_partial_native),
             Type::Slice => eq!(as_slice),
             Type::LongStr => ty == other_ty && self.as_prefix::<String>() == other.as_prefix::<String>(),
-            Type::List => eq!(as_list),
-            Type::Set => eq!(as_set),
-            Type::Dict => eq!(as_dict),
-            Type::Heap => eq!(as_heap),
-            Type::Vector => eq!(as_vector),
-            Type::Struct => eq!(as_struct),
+            Type::List => eq_rec!(as_list),
+            Type::Set => eq_rec!(as_set),
+            Type::Dict => eq_rec!(as_dict),
+            Type::Heap => eq_rec!(as_heap),
+            Type::Vector => eq_rec!(as_vector),
+            Type::Struct => eq_rec!(as_struct),
             Type::StructType => eq!(as_struct_type),
             Type::Memoized => eq!(as_memoized),
             Type::Function => eq!(as_function),
@@ -399,6 +406,13 @@ impl Ord for ValuePtr {
             };
         }
 
+        // Types which may contain themselves
+        macro_rules! cmp_rec {
+            ($ty:ident, $inner:ident) => {
+                compare_recursive(self, other, Ordering::Equal, || cmp!($ty, $inner))
+            };
+        }
+
         let ty: Type = self.ty();
         match ty {
             // Types that convert to int compare with their integral values, then by the ordinal of their type.
@@ -475,12 +489,12 @@ impl Ord for ValuePtr {
             // If the type is the same, they check the ordering between the same types
             Type::Range => cmp!(Range, Range),
             Type::Enumerate => cmp!(Enumerate, Enumerate),
-            Type::List => cmp!(List, List),
-            Type::Set => cmp!(Set, Set),
-            Type::Dict => cmp!(Dict, Dict),
-            Type::Heap => cmp!(Heap, Heap),
-            Type::Vector => cmp!(Vector, Vector),
-            Type::Struct => cmp!(Struct, StructImpl),
+            Type::List => cmp_rec!(List, List),
+            Type::Set => cmp_rec!(Set, Set),
+            Type::Dict => cmp_rec!(Dict, Dict),
+            Type::Heap => cmp_rec!(Heap, Heap),
+            Type::Vector => cmp_rec!(Vector, Vector),
+            Type::Struct => cmp_rec!(Struct, StructImpl),
 
             // Any other types are not explicitly ordered
             _ => Ordering::Equal
@@ -551,6 +565,50 @@ impl Drop for ValuePtr {
 }
 
 
+thread_local! {
+    /// The pairs of values which are currently being compared, by `Eq` or `Ord`. See `compare_recursive()`
+    static COMPARING: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
+    /// The values which are currently being hashed, and if any of them was found to contain itself. See `hash_recursive()`
+    static HASHING: RefCell<(Vec<usize>, bool)> = const { RefCell::new((Vec::new(), false)) };
+}
+
+/// Compares two values which may contain themselves. As such values are infinitely nested, a pair of values that is reached again while it
+/// is being compared provides no (further) difference, and is considered `equal`.
+fn compare_recursive<T, F: FnOnce() -> T>(lhs: &ValuePtr, rhs: &ValuePtr, equal: T, compare: F) -> T {
+    let pair = (lhs.as_ptr_value(), rhs.as_ptr_value());
+    if pair.0 == pair.1 || COMPARING.with_borrow(|pairs| pairs.contains(&pair)) {
+        return equal
+    }
+    COMPARING.with_borrow_mut(|pairs| pairs.push(pair));
+    let ret = compare();
+    COMPARING.with_borrow_mut(|pairs| pairs.pop());
+    ret
+}
+
+/// Hashes a value which may contain itself. Two such values may be equal without being composed of the same number of objects, so if any
+/// value is found to contain itself, then the whole (outermost) value hashes to the same constant.
+fn hash_recursive<H: Hasher, F: FnOnce(&mut FxHasher)>(value: &ValuePtr, state: &mut H, hash: F) {
+    let ptr = value.as_ptr_value();
+    if HASHING.with_borrow(|(values, _)| values.contains(&ptr)) {
+        HASHING.with_borrow_mut(|(_, recursive)| *recursive = true);
+        return
+    }
+
+    let mut inner = FxHasher::default();
+
+    HASHING.with_borrow_mut(|(values, _)| values.push(ptr));
+    hash(&mut inner);
+    let recursive = HASHING.with_borrow_mut(|(values, recursive)| {
+        values.pop();
+        match values.is_empty() {
+            true => std::mem::take(recursive),
+            false => false,
+        }
+    });
+
+    state.write_u64(if recursive { 0 } else { inner.finish() });
+}
+
 /// `Hash` just needs to call the hash methods on the underlying type.
 /// Again, for inline types we can just hash the tag directly.
 impl Hash for ValuePtr {
@@ -558,6 +616,12 @@ impl Hash for ValuePtr {
         macro_rules! hash {
             ($f:ident) => { self.$f().hash(state) };
         }
+
+        // Types which may contain themselves
+        macro_rules! hash_rec {
+            ($f:ident) => { hash_recursive(self, state, |state| self.$f().hash(state)) };
+        }
+
         match self.ty() {
             Type::Nil |
             Type::Bool |
@@ -582,12 +646,12 @@ impl Hash for ValuePtr {
             Type::Slice => hash!(as_slice),
             Type::Range => hash!(as_range),
             Type::LongStr => self.as_prefix::<String>().hash(state),
-            Type::List => hash!(as_list),
-            Type::Set => hash!(as_set),
-            Type::Dict => hash!(as_dict),
-            Type::Heap => hash!(as_heap),
-            Type::Vector => hash!(as_vector),
-            Type::Struct => hash!(as_struct),
+            Type::List => hash_rec!(as_list),
+            Type::Set => hash_rec!(as_set),
+            Type::Dict => hash_rec!(as_dict),
+            Type::Heap => hash_rec!(as_heap),
+            Type::Vector => hash_rec!(as_vector),
+            Type::Struct => hash_rec!(as_struct),
             Type::StructType => hash!(as_struct_type),
             Type::Memoized => hash!(as_memoized),
             Type::Function => hash!(as_function),
-- 
2.43.0


From cfccd205e83f000914296c91a059cbde94f549d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 71/86] fix: report errors at the end of input at the place
 where the input ends

---
 cordy-sys/src/compiler/parser/core/mod.rs |  3 ++-
 cordy-sys/src/reporting.rs                | 24 ++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index dc74a0f..df883a0 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -363,8 +363,9 @@ impl<'a> Parser<'a> {
     }
 
     /// Returns the source location of the next token, aka the one in `peek()`
+    /// At the end of input, this is the (empty) location after the last token.
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(|| self.prev_location().after())
     }
 
     pub fn synthetic_name(&mut self) -> String {
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b1fd5e3..b52a046 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -31,6 +31,11 @@ impl Location {
         Location::new(0, 0, 0)
     }
 
+    /// Returns the empty location which directly follows this location, i.e. for errors at the end of input.
+    pub fn after(&self) -> Location {
+        if self.is_empty() { *self } else { Location::new(self.end(), 0, self.index) }
+    }
+
     /// Returns the start pointer of the location, inclusive
     pub fn start(&self) -> usize { self.start }
 
@@ -45,6 +50,9 @@ impl BitOr for Location {
     type Output = Location;
 
     fn bitor(self, rhs: Self) -> Self::Output {
+        if self.is_empty() { return rhs }
+        if rhs.is_empty() { return self }
+
         debug_assert_eq!(self.index, rhs.index);
 
         let start = self.start.min(rhs.start);
@@ -55,13 +63,7 @@ impl BitOr for Location {
 
 impl BitOrAssign for Location {
     fn bitor_assign(&mut self, rhs: Self) {
-        debug_assert_eq!(self.index, rhs.index);
-
-        let start = self.start.min(rhs.start);
-        let end = self.end().max(rhs.end());
-
-        self.start = start;
-        self.width = (end - start + 1) as u32;
+        *self = *self | rhs;
     }
 }
 
@@ -158,15 +160,19 @@ impl SourceEntry {
         if loc.is_empty() {
             None
         } else {
-            Some(self.index().starts.partition_point(|u| u <= &loc.start) - 1)
+            Some(self.start_lineno(loc))
         }
     }
 
+    fn start_lineno(&self, loc: Location) -> usize {
+        self.index().starts.partition_point(|u| u <= &loc.start) - 1
+    }
+
     fn format<E : AsErrorWithContext>(&self, view: &SourceView, error: &E) -> String {
         let mut text = error.as_error();
         let index: Ref<'_, SourceIndex> = self.index();
         let loc = error.location();
-        let start_lineno = self.lineno(loc).unwrap_or(0);
+        let start_lineno = self.start_lineno(loc);
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-- 
2.43.0


From 2e42d2af8e3589f0f07fc40666140786b75ad658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 72/86] fix: count all arguments when a partial function of
 three arguments is given too many

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 7ed5755..8198afd 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -627,8 +627,8 @@ impl InvokeArg2 {
             Type::PartialNativeFunction => {
                 let (f, partial) = f.as_partial_native().consume();
                 match partial {
-                    PartialArgument::Arg2Par1(_) |
-                    PartialArgument::Arg3Par2(_, _) => IncorrectArgumentsNativeFunction(f, 3).err(),
+                    PartialArgument::Arg2Par1(_) => IncorrectArgumentsNativeFunction(f, 3).err(),
+                    PartialArgument::Arg3Par2(_, _) => IncorrectArgumentsNativeFunction(f, 4).err(),
                     PartialArgument::Arg3Par1(arg) => Ok(InvokeArg2::NativePar1(f, arg)),
                 }
             },
-- 
2.43.0


From b4612ec8cbdb42895786d45a48058e0e41e0a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 73/86] fix: reject a second variadic parameter, and defaults
 of variadic parameters

---
 cordy-sys/src/compiler/parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 6f6e774..bfa6023 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -551,6 +551,9 @@ impl Parser<'_> {
                 }
                 Some(LValue::VarNamed(reference)) => {
                     // A `*<name>` argument gets treated as a default argument value of an empty vector, and we set the `var_arg` flag
+                    if params.variadic {
+                        self.semantic_error(ParameterAfterVarParameter);
+                    }
                     params.args.push(LValue::Named(reference)); // Convert to a `Named()`
                     params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
                     params.variadic = true;
@@ -578,11 +581,11 @@ impl Parser<'_> {
             // Default Arguments
             match self.peek() {
                 // Sugar for `= nil`, so mark this as a default argument
-                Some(QuestionMark) => {
+                Some(QuestionMark) if !params.variadic => {
                     self.advance(); // Consume `?`
                     params.default_args.push(Expr(Location::empty(), ExprType::Nil));
                 },
-                Some(Equals) => {
+                Some(Equals) if !params.variadic => {
                     self.advance(); // Consume `=`
                     self.parse_default_argument(&mut params);
                 },
-- 
2.43.0


From 5569aef2cb83380bf3a9a1f90e7f09abce8ef6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:35 +0000
Subject: [PATCH 74/86] fix: report compile errors at the token they name
 rather than at the line break before it

---
 cordy-sys/src/compiler/parser/core/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index df883a0..4cb0be2 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -365,7 +365,7 @@ impl<'a> Parser<'a> {
     /// Returns the source location of the next token, aka the one in `peek()`
     /// At the end of input, this is the (empty) location after the last token.
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(|| self.prev_location().after())
+        self.input.iter().find(|(_, token)| token != &NewLine).map(|&(loc, _)| loc).unwrap_or_else(|| self.prev_location().after())
     }
 
     pub fn synthetic_name(&mut self) -> String {
-- 
2.43.0


From f4c653e24050c42b0bfc6ac54c8f7cdd64b4b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:42 +0000
Subject: [PATCH 75/86] fix: name the 'module' keyword in errors as it is
 written

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b52a046..519350a 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -543,7 +543,7 @@ impl AsError for ScanToken {
             KeywordStruct => String::from("'struct' keyword"),
             KeywordExit => String::from("'exit' keyword"),
             KeywordAssert => String::from("'assert' keyword"),
-            KeywordModule => String::from("'mod' keyword"),
+            KeywordModule => String::from("'module' keyword"),
             KeywordSelf => String::from("'self' keyword"),
             KeywordNative => String::from("'native' keyword"),
 
-- 
2.43.0


From fa725e9f02e009baee06efb38586ab151354d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 76/86] fix: combinations() of more elements than there are, or
 than fit in memory

---
 cordy-sys/src/core/collections.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index e6f5520..08ba625 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -334,7 +334,11 @@ pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
-    args.to_iter()?
+    let items: Vec<ValuePtr> = args.to_iter()?.collect();
+    if n as usize > items.len() {
+        return VecDeque::new().to_value().ok(); // No need to allocate space for `n` elements, as there are not that many
+    }
+    items.into_iter()
         .combinations(n as usize)
         .map(|u| u.to_value())
         .to_list()
-- 
2.43.0


From a4dc8ff7568060dd00b1f25c3eaf55366cd0c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 77/86] fix: a set or dict which is compared while a key which
 contains it is inserted or removed

---
 cordy-sys/src/vm/value/collections.rs | 25 +++++++++++++------------
 cordy-sys/src/vm/value/ptr.rs         |  6 +++++-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index cfa9a02..a86a475 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -92,10 +92,9 @@ impl Set {
     }
 
     pub fn insert_checked(&mut self, value: ValuePtr) -> AnyResult {
-        match guard_recursive_hash(|| self.insert(value)) {
-            false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
-        }
+        guard_recursive_hash(&value)?;
+        self.insert(value);
+        Ok(())
     }
 }
 
@@ -154,10 +153,9 @@ impl Dict {
     }
 
     pub fn insert_checked(&mut self, key: ValuePtr, value: ValuePtr) -> AnyResult {
-        match guard_recursive_hash(|| self.insert(key, value)) {
-            false => Ok(()),
-            true => ValueErrorRecursiveHash.err()
-        }
+        guard_recursive_hash(&key)?;
+        self.insert(key, value);
+        Ok(())
     }
 
     pub fn set_default(&mut self, default: InvokeArg0) {
@@ -201,12 +199,15 @@ thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
 }
 
-/// Returns `true` if a recursive hash error occurred.
+/// Returns an error if `value`, which is about to be inserted, includes the collection it is inserted to - which must be mutably borrowed.
 #[inline]
-fn guard_recursive_hash<T, F : FnOnce() -> T>(f: F) -> bool {
+fn guard_recursive_hash(value: &ValuePtr) -> AnyResult {
     FLAG_RECURSIVE_HASH.with(|cell| cell.set(false));
-    f();
-    FLAG_RECURSIVE_HASH.with(|cell| cell.get())
+    value.hash(&mut FxHasher::default());
+    match FLAG_RECURSIVE_HASH.with(|cell| cell.get()) {
+        false => Ok(()),
+        true => ValueErrorRecursiveHash.err()
+    }
 }
 
 
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index 7b60d42..ef21bee 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -827,7 +827,11 @@ impl<T : ConstValue> Prefix<T> {
 impl<T : Eq + Value> Eq for Prefix<T> {}
 impl<T : Eq + Value> PartialEq for Prefix<T> {
     fn eq(&self, other: &Self) -> bool {
-        *self.borrow() == *other.borrow()
+        // A value which is being modified may be compared with the keys of a set or dict which contains it
+        match (self.try_borrow(), other.try_borrow()) {
+            (Some(lhs), Some(rhs)) => *lhs == *rhs,
+            _ => false
+        }
     }
 }
 
-- 
2.43.0


From c1913e2f770ee931fbd9764cea47b79e3337cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:20 +0000
Subject: [PATCH 78/86] fix: comparing and hashing deeply nested values takes
 time linear in the depth

---
 cordy-sys/src/vm/value/ptr.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index ef21bee..aa3b4b7 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -1,5 +1,6 @@
 use std::cell::{Cell, RefCell, UnsafeCell};
 use std::cmp::Ordering;
+use std::collections::HashSet;
 use std::fmt::{Debug, Formatter};
 use std::hash::{Hash, Hasher};
 use std::marker::PhantomData;
@@ -9,7 +10,7 @@ use std::ptr::NonNull;
 #[cfg(feature = "rational")] use rug::integer::SmallInteger;
 #[cfg(feature = "rational")] use rug::rational::SmallRational;
 
-use fxhash::FxHasher;
+use fxhash::{FxBuildHasher, FxHasher};
 
 use crate::core::NativeFunction;
 use crate::util::impl_partial_ord;
@@ -567,21 +568,20 @@ impl Drop for ValuePtr {
 
 thread_local! {
     /// The pairs of values which are currently being compared, by `Eq` or `Ord`. See `compare_recursive()`
-    static COMPARING: RefCell<Vec<(usize, usize)>> = const { RefCell::new(Vec::new()) };
+    static COMPARING: RefCell<HashSet<(usize, usize), FxBuildHasher>> = RefCell::new(HashSet::default());
     /// The values which are currently being hashed, and if any of them was found to contain itself. See `hash_recursive()`
-    static HASHING: RefCell<(Vec<usize>, bool)> = const { RefCell::new((Vec::new(), false)) };
+    static HASHING: RefCell<(HashSet<usize, FxBuildHasher>, bool)> = RefCell::new((HashSet::default(), false));
 }
 
 /// Compares two values which may contain themselves. As such values are infinitely nested, a pair of values that is reached again while it
 /// is being compared provides no (further) difference, and is considered `equal`.
 fn compare_recursive<T, F: FnOnce() -> T>(lhs: &ValuePtr, rhs: &ValuePtr, equal: T, compare: F) -> T {
     let pair = (lhs.as_ptr_value(), rhs.as_ptr_value());
-    if pair.0 == pair.1 || COMPARING.with_borrow(|pairs| pairs.contains(&pair)) {
+    if pair.0 == pair.1 || !COMPARING.with_borrow_mut(|pairs| pairs.insert(pair)) {
         return equal
     }
-    COMPARING.with_borrow_mut(|pairs| pairs.push(pair));
     let ret = compare();
-    COMPARING.with_borrow_mut(|pairs| pairs.pop());
+    COMPARING.with_borrow_mut(|pairs| pairs.remove(&pair));
     ret
 }
 
@@ -589,17 +589,16 @@ fn compare_recursive<T, F: FnOnce() -> T>(lhs: &ValuePtr, rhs: &ValuePtr, equal:
 /// value is found to contain itself, then the whole (outermost) value hashes to the same constant.
 fn hash_recursive<H: Hasher, F: FnOnce(&mut FxHasher)>(value: &ValuePtr, state: &mut H, hash: F) {
     let ptr = value.as_ptr_value();
-    if HASHING.with_borrow(|(values, _)| values.contains(&ptr)) {
+    if !HASHING.with_borrow_mut(|(values, _)| values.insert(ptr)) {
         HASHING.with_borrow_mut(|(_, recursive)| *recursive = true);
         return
     }
 
     let mut inner = FxHasher::default();
 
-    HASHING.with_borrow_mut(|(values, _)| values.push(ptr));
     hash(&mut inner);
     let recursive = HASHING.with_borrow_mut(|(values, recursive)| {
-        values.pop();
+        values.remove(&ptr);
         match values.is_empty() {
             true => std::mem::take(recursive),
             false => false,
-- 
2.43.0


From 92923cbbaf6447869aa1bed38549a01dbc5fe804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 79/86] fix: several native modules in one program

---
 cordy-sys/src/compiler/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index bfa6023..3776baf 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -387,6 +387,7 @@ impl Parser<'_> {
         self.advance(); // Consume `native`
         self.expect(KeywordModule);
 
+        let instance_type = self.declare_type(); // Has no instances, but identifies the module
         let constructor_type = self.declare_type();
         let module_name = self.begin_module(true); // Consumes name
 
@@ -405,7 +406,7 @@ impl Parser<'_> {
             }
         }
         self.expect_resync(CloseBrace);
-        self.end_module(u32::MAX, constructor_type);
+        self.end_module(instance_type, constructor_type);
     }
 
     fn parse_native_module_function(&mut self, constructor_type: u32, module_name: &str) {
-- 
2.43.0


From f2832d09fb4e86a2efb45838a168a96ed50b9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 80/86] fix: ERR() and AS_BOOL(bool x, ..) in cordy.h

---
 cordy/cordy.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy/cordy.h b/cordy/cordy.h
index 8a470a9..d06d634 100644
--- a/cordy/cordy.h
+++ b/cordy/cordy.h
@@ -82,7 +82,7 @@ typedef struct cordy_value_s {
 #define _VALUE(type, value_field, value) ((cordy_value_t) { .ty = type, .value_field = value })
 
 // Macros that construct a new cordy_value_t
-#define ERR(x) ERR(#x)
+#define ERR(x) _ERR(#x)
 #define _ERR(x) _VALUE(TY_ERR, str_value, x)
 #define NIL() _VALUE(TY_NIL, int_value, 0)
 #define BOOL(x) _VALUE(TY_BOOL, bool_value, x)
@@ -162,6 +162,7 @@ do {                                                \
 #define _DECL_cordy_value_t _DECL_
 #define _DECL_cordy_vec_t _DECL_
 #define _DECL_bool _DECL_
+#define _DECL__Bool _DECL_ // In C, `bool` may be a macro
 #define _DECL_int64_t _DECL_
 #define _DECL_str_t _DECL_
 
-- 
2.43.0


From 90ebd680e18765773234f552da8f79c1da540786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:13 +0000
Subject: [PATCH 81/86] fix: passing a list which contains itself to a native
 function

---
 cordy/src/ffi.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 48c256d..2e737d6 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -132,6 +132,11 @@ fn call(f: ExternFunc, args: Vec<ValuePtr>) -> ValueResult {
 
 
 fn to_value(ptr: ValuePtr) -> Result<CordyValue, String> {
+    to_value_nested(ptr, &mut Vec::new())
+}
+
+/// The `parents` are the lists and vectors which contain this value
+fn to_value_nested(ptr: ValuePtr, parents: &mut Vec<usize>) -> Result<CordyValue, String> {
     match ptr.ty() {
         Type::Nil => to_value_int(CordyType::Nil, 0),
         Type::Bool => to_value_int(CordyType::Bool, ptr.as_bool() as i64),
@@ -142,8 +147,18 @@ fn to_value(ptr: ValuePtr) -> Result<CordyValue, String> {
                 Err(e) => Err(format!("String is not FFI compatible : {}", e))
             }
         },
-        Type::Vector => to_value_array(ptr.as_vector().borrow().iter().cloned()),
-        Type::List => to_value_array(ptr.as_list().borrow().iter().cloned()),
+        Type::Vector | Type::List => {
+            if parents.contains(&ptr.as_ptr_value()) {
+                return Err(String::from("FFI array must not contain itself"))
+            }
+            parents.push(ptr.as_ptr_value());
+            let ret = match ptr.ty() {
+                Type::Vector => to_value_array(ptr.as_vector().borrow().iter().cloned(), parents),
+                _ => to_value_array(ptr.as_list().borrow().iter().cloned(), parents),
+            };
+            parents.pop();
+            ret
+        },
         _ => Err(String::from("FFI Type must be a primitive nil, bool, or int")),
     }
 }
@@ -156,8 +171,8 @@ fn to_value_str(str: CString) -> CordyValue {
     CordyValue { ty: CordyType::Str, value: CordyValueUnion { str: str.into_raw() }}
 }
 
-fn to_value_array<I : Iterator<Item=ValuePtr>>(iter: I) -> Result<CordyValue, String> {
-    let vec: Vec<CordyValue> = iter.map(to_value).collect::<Result<Vec<CordyValue>, String>>()?;
+fn to_value_array<I : Iterator<Item=ValuePtr>>(iter: I, parents: &mut Vec<usize>) -> Result<CordyValue, String> {
+    let vec: Vec<CordyValue> = iter.map(|value| to_value_nested(value, parents)).collect::<Result<Vec<CordyValue>, String>>()?;
     let (ptr, len, capacity) = vec.into_raw_parts();
     Ok(CordyValue { ty: CordyType::Array, value: CordyValueUnion { vec: CordyValueArray { ptr, len, capacity } }})
 }
-- 
2.43.0


From 937e89b8510e9f1b3f20e75fdb2e1a0718c5fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 82/86] fix: functions which native libraries call back use the
 C calling convention

---
 cordy/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 2e737d6..6de1e63 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -218,7 +218,7 @@ fn from_value(value: CordyValue) -> ValueResult {
 /// Note that there are several invariants that **must** be checked by the caller, as errors are not handled:
 /// - The string provided must be valid UTF-8
 /// - Any allocations or null-byte issues must resolve
-fn cordy_api_str(str: *const c_char) -> CordyValue {
+extern "C" fn cordy_api_str(str: *const c_char) -> CordyValue {
     unsafe {
         let str = CStr::from_ptr(str).to_str().unwrap();
         let c_str = CString::new(str.as_bytes()).unwrap();
@@ -227,14 +227,14 @@ fn cordy_api_str(str: *const c_char) -> CordyValue {
     }
 }
 
-fn cordy_api_vec(capacity: usize) -> CordyValue {
+extern "C" fn cordy_api_vec(capacity: usize) -> CordyValue {
     let vec = Vec::with_capacity(capacity);
     let (ptr, len, capacity) = vec.into_raw_parts();
     CordyValue { ty: CordyType::Array, value: CordyValueUnion { vec: CordyValueArray { ptr, len, capacity } }}
 }
 
 /// Frees a `cordy_value_t`. The value should not be used after this.
-fn cordy_api_free(value: CordyValue) {
+extern "C" fn cordy_api_free(value: CordyValue) {
     match value.ty {
         CordyType::Str => {
             unsafe {
-- 
2.43.0


From 1aefbf80602b4339c1923eb719a9819e561b9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 83/86] fix: booleans returned by native functions consist of
 one byte

---
 cordy/src/ffi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy/src/ffi.rs b/cordy/src/ffi.rs
index 6de1e63..812396d 100644
--- a/cordy/src/ffi.rs
+++ b/cordy/src/ffi.rs
@@ -37,6 +37,7 @@ struct CordyValueArray {
 
 #[repr(C)]
 union CordyValueUnion {
+    bool: u8,
     int: i64,
     str: *const c_char,
     vec: CordyValueArray
@@ -189,7 +190,7 @@ fn from_value(value: CordyValue) -> ValueResult {
                 }.err()
             }
             CordyType::Nil => ValuePtr::nil().ok(),
-            CordyType::Bool => (value.value.int != 0).to_value().ok(),
+            CordyType::Bool => (value.value.bool != 0).to_value().ok(),
             CordyType::Int => value.value.int.to_value().ok(),
             CordyType::Str => {
                 // Strings are passed and give ownership to Cordy
-- 
2.43.0


From dedcd9ae85341a45431500355718c8e4c9973127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:13 +0000
Subject: [PATCH 84/86] fix: report a command line argument that is not valid
 unicode instead of panicking

---
 cordy/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy/src/main.rs b/cordy/src/main.rs
index e50c7a4..c2d8796 100644
--- a/cordy/src/main.rs
+++ b/cordy/src/main.rs
@@ -54,8 +54,10 @@ const FORMAT_COLORS: &str = "\
 
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
-    let mut options: Options = match parse_args(args) {
+    let args: Result<Vec<String>, String> = std::env::args_os()
+        .map(|arg| arg.into_string().map_err(|arg| format!("Argument is not valid unicode: {:?}", arg)))
+        .collect();
+    let mut options: Options = match args.and_then(parse_args) {
         Ok(args) => args,
         Err(err) => {
             eprintln!("{}", err);
-- 
2.43.0


From 63b80c7bd029ca76527867e3cbe92e2bfee3a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 85/86] fix: env() skips environment variables that are not
 valid unicode instead of panicking

---
 cordy-sys/src/vm/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index e7a0a33..af2ea20 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -1016,7 +1016,9 @@ impl <R : BufRead, W : Write, F : FunctionInterface> VirtualInterface for Virtua
     }
 
     fn get_envs(&self) -> ValuePtr {
-        std::env::vars().map(|(k, v)| (k.to_value(), v.to_value())).to_dict()
+        std::env::vars_os()
+            .filter_map(|(k, v)| Some((k.into_string().ok()?.to_value(), v.into_string().ok()?.to_value())))
+            .to_dict()
     }
 
     fn get_env(&self, name: &str) -> ValuePtr {
-- 
2.43.0


From 5777e3633b323314d48157fe5c07c1a0ba8dd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:01 +0000
Subject: [PATCH 86/86] fix: `max=` only assigns if the right hand side is
 larger

---
 cordy-sys/src/vm/operator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 7eeca27..54e2bd6 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -64,7 +64,7 @@ impl BinaryOp {
             BinaryOp::GreaterThanEqual => (lhs >= rhs).to_value().ok(),
             BinaryOp::Equal => (lhs == rhs).to_value().ok(),
             BinaryOp::NotEqual => (lhs != rhs).to_value().ok(),
-            BinaryOp::Max => std::cmp::max(lhs, rhs).ok(),
+            BinaryOp::Max => (if rhs > lhs { rhs } else { lhs }).ok(), // Unlike `std::cmp::max`, this only assigns if the right hand side is larger
             BinaryOp::Min => std::cmp::min(lhs, rhs).ok(),
         }
     }
-- 
2.43.0

