From 13ce064ff87bb06a96ecdbe5e2eef7c24b547e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 01/37] Add instrumented atomics for verification under
 cfg(pen_verif)

---
 lib/ffi/src/arc/arc_block.rs |   7 +-
 lib/ffi/src/lib.rs           |   2 +
 lib/ffi/src/verif.rs         | 194 +++++++++++++++++++++++++++++++++++
 3 files changed, 202 insertions(+), 1 deletion(-)
 create mode 100644 lib/ffi/src/verif.rs

diff --git a/lib/ffi/src/arc/arc_block.rs b/lib/ffi/src/arc/arc_block.rs
index b7c497a..a6dc31d 100644
--- a/lib/ffi/src/arc/arc_block.rs
+++ b/lib/ffi/src/arc/arc_block.rs
@@ -2,9 +2,14 @@ use alloc::alloc::{alloc, dealloc};
 use core::{
     alloc::Layout,
     ptr::{drop_in_place, null, NonNull},
-    sync::atomic::{fence, AtomicIsize, Ordering},
+    sync::atomic::Ordering,
 };
 
+#[cfg(pen_verif)]
+use crate::verif::{fence, AtomicIsize};
+#[cfg(not(pen_verif))]
+use core::sync::atomic::{fence, AtomicIsize};
+
 const UNIQUE_COUNT: isize = 0;
 const SYNCHRONIZED_UNIQUE_COUNT: isize = -1;
 // The static count is also synchronized.
diff --git a/lib/ffi/src/lib.rs b/lib/ffi/src/lib.rs
index 139716c..8f28aa5 100644
--- a/lib/ffi/src/lib.rs
+++ b/lib/ffi/src/lib.rs
@@ -20,6 +20,8 @@ mod number;
 pub mod runtime;
 mod string;
 mod type_information;
+#[cfg(pen_verif)]
+pub mod verif;
 
 pub use any::*;
 pub use arc::*;
diff --git a/lib/ffi/src/verif.rs b/lib/ffi/src/verif.rs
new file mode 100644
index 0000000..32cbd03
--- /dev/null
+++ b/lib/ffi/src/verif.rs
@@ -0,0 +1,194 @@
+//! Instrumented atomics for verification, compiled only with `--cfg pen_verif`.
+//!
+//! They behave exactly as the ones of `core::sync::atomic` but report each
+//! operation to an observer before and after it takes place.
+
+use core::{
+    mem::transmute,
+    ptr::null_mut,
+    sync::atomic::{self, AtomicPtr, Ordering},
+};
+
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Operation {
+    Load(Ordering),
+    Store(Ordering),
+    ReadModifyWrite(Ordering),
+    Fence(Ordering),
+}
+
+#[derive(Clone, Copy, Debug)]
+pub struct Event {
+    /// Whether the operation has been done.
+    pub done: bool,
+    /// An address of an atomic variable or 0 for fences.
+    pub address: usize,
+    pub operation: Operation,
+    /// Values before and after the operation, valid only when it is done.
+    pub old: isize,
+    pub new: isize,
+}
+
+pub type Observer = fn(Event);
+
+static OBSERVER: AtomicPtr<()> = AtomicPtr::new(null_mut());
+
+pub fn set_observer(observer: Option<Observer>) {
+    OBSERVER.store(
+        observer.map_or(null_mut(), |observer| observer as *mut ()),
+        Ordering::SeqCst,
+    );
+}
+
+fn observe(event: Event) {
+    let observer = OBSERVER.load(Ordering::SeqCst);
+
+    if !observer.is_null() {
+        (unsafe { transmute::<*mut (), Observer>(observer) })(event);
+    }
+}
+
+fn start(address: usize, operation: Operation) {
+    observe(Event {
+        done: false,
+        address,
+        operation,
+        old: 0,
+        new: 0,
+    });
+}
+
+fn finish(address: usize, operation: Operation, old: isize, new: isize) {
+    observe(Event {
+        done: true,
+        address,
+        operation,
+        old,
+        new,
+    });
+}
+
+pub fn fence(ordering: Ordering) {
+    start(0, Operation::Fence(ordering));
+    atomic::fence(ordering);
+    finish(0, Operation::Fence(ordering), 0, 0);
+}
+
+#[derive(Debug)]
+#[repr(transparent)]
+pub struct AtomicIsize(atomic::AtomicIsize);
+
+impl AtomicIsize {
+    pub const fn new(value: isize) -> Self {
+        Self(atomic::AtomicIsize::new(value))
+    }
+
+    fn address(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn get_mut(&mut self) -> &mut isize {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> isize {
+        self.0.into_inner()
+    }
+
+    pub fn load(&self, ordering: Ordering) -> isize {
+        start(self.address(), Operation::Load(ordering));
+        let value = self.0.load(ordering);
+        finish(self.address(), Operation::Load(ordering), value, value);
+        value
+    }
+
+    pub fn store(&self, value: isize, ordering: Ordering) {
+        start(self.address(), Operation::Store(ordering));
+        let old = self.0.load(Ordering::Relaxed);
+        self.0.store(value, ordering);
+        finish(self.address(), Operation::Store(ordering), old, value);
+    }
+
+    fn modify(&self, ordering: Ordering, operate: impl Fn(isize) -> isize) -> isize {
+        let operation = Operation::ReadModifyWrite(ordering);
+
+        start(self.address(), operation);
+        let old = self
+            .0
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |value| {
+                Some(operate(value))
+            })
+            .unwrap();
+        finish(self.address(), operation, old, operate(old));
+        old
+    }
+
+    pub fn fetch_add(&self, value: isize, ordering: Ordering) -> isize {
+        self.modify(ordering, |old| old.wrapping_add(value))
+    }
+
+    pub fn fetch_sub(&self, value: isize, ordering: Ordering) -> isize {
+        self.modify(ordering, |old| old.wrapping_sub(value))
+    }
+
+    pub fn fetch_max(&self, value: isize, ordering: Ordering) -> isize {
+        self.modify(ordering, |old| old.max(value))
+    }
+
+    pub fn fetch_min(&self, value: isize, ordering: Ordering) -> isize {
+        self.modify(ordering, |old| old.min(value))
+    }
+
+    pub fn swap(&self, value: isize, ordering: Ordering) -> isize {
+        self.modify(ordering, |_| value)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: isize,
+        new: isize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<isize, isize> {
+        start(self.address(), Operation::ReadModifyWrite(success));
+        let result = self.0.compare_exchange(current, new, success, failure);
+        match result {
+            Ok(old) => finish(
+                self.address(),
+                Operation::ReadModifyWrite(success),
+                old,
+                new,
+            ),
+            Err(old) => finish(self.address(), Operation::Load(failure), old, old),
+        }
+        result
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: isize,
+        new: isize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<isize, isize> {
+        self.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn fetch_update(
+        &self,
+        success: Ordering,
+        failure: Ordering,
+        mut update: impl FnMut(isize) -> Option<isize>,
+    ) -> Result<isize, isize> {
+        let mut old = self.load(failure);
+
+        while let Some(new) = update(old) {
+            match self.compare_exchange(old, new, success, failure) {
+                Ok(old) => return Ok(old),
+                Err(value) => old = value,
+            }
+        }
+
+        Err(old)
+    }
+}
-- 
2.43.0


From c7717e27956981de876eb868b3a343d44c6ab610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/37] fix: copy shared buffers before giving mutable access
 to them

---
 lib/ffi/src/arc/arc_buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/ffi/src/arc/arc_buffer.rs b/lib/ffi/src/arc/arc_buffer.rs
index 037f453..fd4c9c0 100644
--- a/lib/ffi/src/arc/arc_buffer.rs
+++ b/lib/ffi/src/arc/arc_buffer.rs
@@ -47,6 +47,11 @@ impl ArcBuffer {
     }
 
     pub fn as_slice_mut(&mut self) -> &mut [u8] {
+        // Other references to the same buffer must not observe changes.
+        if !self.block.is_null() && self.block.get_mut().is_none() {
+            *self = Self::from(self.as_slice());
+        }
+
         unsafe {
             if self.block.is_null() {
                 slice::from_raw_parts_mut(core::ptr::NonNull::dangling().as_ptr(), 0)
-- 
2.43.0


From 4cdcf12290bd81e2a240ea4a00d344d5772ab323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 03/37] fix: keep parentheses around right operands of equal
 priority when formatting

---
 lib/format/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index e05ac8a..a3313f3 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -823,12 +823,17 @@ fn compile_binary_operation<'a>(
 ) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-        compile_operand(context, operation.lhs(), operation.operator()),
+        compile_operand(context, operation.lhs(), |priority| {
+            priority < operator_priority(operation.operator())
+        }),
         builder.indent(builder.sequence([
             line(),
             compile_binary_operator(operation.operator()),
             " ".into(),
-            compile_operand(context, operation.rhs(), operation.operator()),
+            // Binary operators are left associative.
+            compile_operand(context, operation.rhs(), |priority| {
+                priority <= operator_priority(operation.operator())
+            }),
         ])),
     ]);
 
@@ -841,7 +846,7 @@ fn compile_binary_operation<'a>(
 fn compile_operand<'a>(
     context: &mut Context<'a>,
     operand: &'a Expression,
-    parent_operator: BinaryOperator,
+    is_grouped: impl Fn(usize) -> bool,
 ) -> Document<'a> {
     let document = compile_expression(context, operand);
 
@@ -849,7 +854,7 @@ fn compile_operand<'a>(
         Expression::BinaryOperation(operation) => Some(operation),
         _ => None,
     }
-    .map(|operand| operator_priority(operand.operator()) < operator_priority(parent_operator))
+    .map(|operand| is_grouped(operator_priority(operand.operator())))
     .unwrap_or_default()
     {
         context
-- 
2.43.0


From 17dd6fab93fe16023defca70c56d3e92e9ed1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 04/37] fix: keep parentheses around operations with suffixes
 when formatting

---
 lib/format/src/lib.rs | 56 +++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index a3313f3..795268d 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -475,7 +475,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::BinaryOperation(operation) => compile_binary_operation(context, operation),
         Expression::Call(call) => {
             let separator = builder.sequence([",".into(), line()]);
-            let function = compile_expression(context, call.function());
+            let function = compile_suffix_operand(context, call.function());
             let arguments = builder.sequence(
                 call.arguments()
                     .iter()
@@ -646,28 +646,58 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             ])
         }
         Expression::RecordDeconstruction(deconstruction) => builder.sequence([
-            compile_expression(context, deconstruction.expression()),
+            match deconstruction.expression() {
+                // A dot right after a number is a part of the number.
+                expression @ Expression::Number(_) => builder.sequence([
+                    "(".into(),
+                    compile_expression(context, expression),
+                    ")".into(),
+                ]),
+                expression => compile_suffix_operand(context, expression),
+            },
             ".".into(),
             deconstruction.name().into(),
         ]),
         Expression::String(string) => builder.strings(["\"", string.value(), "\""]),
-        Expression::UnaryOperation(operation) => {
-            let operand = compile_expression(context, operation.expression());
-            let operand = if matches!(operation.expression(), Expression::BinaryOperation(_)) {
-                builder.sequence(["(".into(), operand, ")".into()])
-            } else {
-                operand
-            };
+        Expression::UnaryOperation(operation) => match operation.operator() {
+            UnaryOperator::Not => {
+                let operand = compile_expression(context, operation.expression());
 
-            match operation.operator() {
-                UnaryOperator::Not => builder.sequence(["!".into(), operand]),
-                UnaryOperator::Try => builder.sequence([operand, "?".into()]),
+                builder.sequence([
+                    "!".into(),
+                    if matches!(operation.expression(), Expression::BinaryOperation(_)) {
+                        builder.sequence(["(".into(), operand, ")".into()])
+                    } else {
+                        operand
+                    },
+                ])
             }
-        }
+            UnaryOperator::Try => builder.sequence([
+                compile_suffix_operand(context, operation.expression()),
+                "?".into(),
+            ]),
+        },
         Expression::Variable(variable) => variable.name().into(),
     }
 }
 
+// Suffixes bind tighter than any other operators.
+fn compile_suffix_operand<'a>(context: &mut Context<'a>, operand: &'a Expression) -> Document<'a> {
+    let document = compile_expression(context, operand);
+
+    if match operand {
+        Expression::BinaryOperation(_) => true,
+        Expression::UnaryOperation(operation) => operation.operator() == UnaryOperator::Not,
+        _ => false,
+    } {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
 fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-- 
2.43.0


From 9af2a1afa3bb2173758f8f91c6d206472dfd17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 05/37] fix: keep parentheses around the last function types of
 unions when formatting

---
 lib/format/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 795268d..392ace9 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -309,11 +309,10 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
             let union = builder.sequence(
                 types
                     .iter()
-                    .enumerate()
-                    .map(|(index, type_)| {
+                    .map(|type_| {
                         let document = compile_type(context, type_);
 
-                        if index != types.len() - 1 && matches!(type_, Type::Function(_)) {
+                        if matches!(type_, Type::Function(_)) {
                             builder.sequence(["(".into(), document, ")".into()])
                         } else {
                             document
-- 
2.43.0


From 5440b42de71017d2bc5c037f55903258d83f22c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 06/37] fix: keep parentheses which separate expressions from
 preceding syntax when formatting

---
 lib/format/src/lib.rs | 96 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 89 insertions(+), 7 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 392ace9..c2c308a 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -404,6 +404,7 @@ fn are_arguments_flat(arguments: &[Argument], position: &Position) -> bool {
 
 fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a> {
     let builder = context.builder();
+    let mut previous_expression = None;
     let statements = builder.sequence(
         block
             .statements()
@@ -421,7 +422,9 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                 // TODO Use end positions of spans when they are available.
                 let line_count = next_position.line_number() as isize
                     - statement.position().line_number() as isize;
-                let statement_document = compile_statement(context, statement);
+                let statement_document = compile_statement(context, statement, previous_expression);
+
+                previous_expression = Some(statement.expression());
 
                 let extra_line = if (count_lines(&statement_document)
                     + context
@@ -444,7 +447,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
             line(),
             statements,
             compile_line_comment(context, block.expression().position(), |context| {
-                compile_expression(context, block.expression())
+                compile_statement_expression(context, block.expression(), previous_expression)
             }),
         ])),
         line(),
@@ -452,21 +455,84 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
     ])
 }
 
-fn compile_statement<'a>(context: &mut Context<'a>, statement: &'a Statement) -> Document<'a> {
+fn compile_statement<'a>(
+    context: &mut Context<'a>,
+    statement: &'a Statement,
+    previous_expression: Option<&Expression>,
+) -> Document<'a> {
     let builder = context.builder();
 
     builder.sequence([
         if let Some(name) = statement.name() {
-            builder.strings([name, " = "])
+            builder.sequence([
+                builder.strings([name, " = "]),
+                compile_expression(context, statement.expression()),
+            ])
         } else {
-            empty()
+            compile_statement_expression(context, statement.expression(), previous_expression)
         },
-        compile_expression(context, statement.expression()),
         compile_suffix_comment(context, statement.position()),
         builder.r#break(line()),
     ])
 }
 
+fn compile_statement_expression<'a>(
+    context: &mut Context<'a>,
+    expression: &'a Expression,
+    previous_expression: Option<&Expression>,
+) -> Document<'a> {
+    let document = compile_expression(context, expression);
+
+    if previous_expression
+        .map(|previous| is_continuous(previous, expression))
+        .unwrap_or_default()
+    {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
+// Checks if an expression would be parsed as a part of a previous one.
+fn is_continuous(previous: &Expression, expression: &Expression) -> bool {
+    match first_operand(expression) {
+        Expression::Number(number) => match number.value() {
+            NumberRepresentation::FloatingPoint(string) => string.starts_with(['+', '-']),
+            NumberRepresentation::Binary(_) | NumberRepresentation::Hexadecimal(_) => false,
+        },
+        Expression::Map(map) => {
+            map.elements().is_empty() && matches!(last_operand(previous), Expression::Variable(_))
+        }
+        _ => false,
+    }
+}
+
+fn first_operand(expression: &Expression) -> &Expression {
+    match expression {
+        Expression::BinaryOperation(operation) => first_operand(operation.lhs()),
+        Expression::Call(call) => first_operand(call.function()),
+        Expression::RecordDeconstruction(deconstruction) => {
+            first_operand(deconstruction.expression())
+        }
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Try => {
+            first_operand(operation.expression())
+        }
+        _ => expression,
+    }
+}
+
+fn last_operand(expression: &Expression) -> &Expression {
+    match expression {
+        Expression::BinaryOperation(operation) => last_operand(operation.rhs()),
+        Expression::UnaryOperation(operation) if operation.operator() == UnaryOperator::Not => {
+            last_operand(operation.expression())
+        }
+        _ => expression,
+    }
+}
+
 fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression) -> Document<'a> {
     let builder = context.builder();
 
@@ -703,7 +769,7 @@ fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
         builder.sequence(if_.branches().iter().map(|branch| {
             builder.sequence([
                 "if ".into(),
-                compile_expression(context, branch.condition()),
+                compile_condition(context, branch.condition()),
                 " ".into(),
                 compile_block(context, branch.block()),
                 " else ".into(),
@@ -723,6 +789,22 @@ fn compile_if<'a>(context: &mut Context<'a>, if_: &'a If) -> Document<'a> {
     )
 }
 
+fn compile_condition<'a>(context: &mut Context<'a>, condition: &'a Expression) -> Document<'a> {
+    let document = compile_expression(context, condition);
+
+    // A bracket right after the keyword starts a list pattern.
+    if matches!(
+        first_operand(condition),
+        Expression::List(_) | Expression::ListComprehension(_)
+    ) {
+        context
+            .builder()
+            .sequence(["(".into(), document, ")".into()])
+    } else {
+        document
+    }
+}
+
 fn compile_if_type<'a>(context: &mut Context<'a>, if_: &'a IfType) -> Document<'a> {
     let builder = context.builder();
     let document = builder.sequence([
-- 
2.43.0


From fdd92374932fa974ccbbb285251fbfa484519c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 07/37] fix: decide blank lines and line breaks on where
 expressions begin so that formatting is stable

---
 lib/format/src/lib.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index c2c308a..a1623b6 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -381,7 +381,7 @@ fn compile_signature<'a>(
 
     builder.sequence([
         "\\(".into(),
-        if flat {
+        if flat && !is_broken(&arguments) {
             builder.flatten(arguments)
         } else {
             builder.r#break(builder.sequence([
@@ -414,22 +414,21 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .statements()
                     .iter()
                     .skip(1)
-                    .map(|statement| statement.position())
-                    .chain([block.expression().position()]),
+                    .map(|statement| statement.position().line_number())
+                    .chain([first_line_number(block.expression())]),
             )
-            .map(|(statement, next_position)| {
+            .map(|(statement, next_line_number)| {
                 let block_comment = compile_block_comment(context, statement.position());
                 // TODO Use end positions of spans when they are available.
-                let line_count = next_position.line_number() as isize
-                    - statement.position().line_number() as isize;
+                let line_count =
+                    next_line_number as isize - statement.position().line_number() as isize;
                 let statement_document = compile_statement(context, statement, previous_expression);
 
                 previous_expression = Some(statement.expression());
 
                 let extra_line = if (count_lines(&statement_document)
-                    + context
-                        .peek_comments_before(next_position.line_number())
-                        .count()) as isize
+                    + context.peek_comments_before(next_line_number).count())
+                    as isize
                     >= line_count
                 {
                     empty()
@@ -523,6 +522,10 @@ fn first_operand(expression: &Expression) -> &Expression {
     }
 }
 
+fn first_line_number(expression: &Expression) -> usize {
+    first_operand(expression).position().line_number()
+}
+
 fn last_operand(expression: &Expression) -> &Expression {
     match expression {
         Expression::BinaryOperation(operation) => last_operand(operation.rhs()),
@@ -556,7 +559,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
                 function,
                 "(".into(),
                 if call.arguments().is_empty()
-                    || Some(call.function().position().line_number())
+                    || Some(call.position().line_number())
                         == call
                             .arguments()
                             .first()
-- 
2.43.0


From 69f3f43a869264da648c8a5268628e00d9ad1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 08/37] fix: keep comments apart and in place when formatting

---
 lib/format/src/lib.rs | 179 +++++++++++++++++++++++++++++++++---------
 1 file changed, 143 insertions(+), 36 deletions(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index a1623b6..7c323d0 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -336,17 +336,19 @@ fn compile_type<'a>(context: &Context<'a>, type_: &'a Type) -> Document<'a> {
 
 fn compile_lambda<'a>(context: &mut Context<'a>, lambda: &'a Lambda) -> Document<'a> {
     let builder = context.builder();
+    let signature = compile_signature(
+        context,
+        lambda.arguments(),
+        lambda.result_type(),
+        lambda.position(),
+    );
+    let flat = !is_broken(&signature);
 
     builder.sequence([
-        compile_signature(
-            context,
-            lambda.arguments(),
-            lambda.result_type(),
-            lambda.position(),
-        ),
+        signature,
         " ".into(),
         flatten_if(
-            are_arguments_flat(lambda.arguments(), lambda.position())
+            flat && are_arguments_flat(lambda.arguments(), lambda.position())
                 && lambda.position().line_number()
                     == lambda.body().expression().position().line_number(),
             builder.allocate(compile_block(context, lambda.body())),
@@ -361,7 +363,8 @@ fn compile_signature<'a>(
     position: &Position,
 ) -> Document<'a> {
     let builder = context.builder();
-    let flat = are_arguments_flat(arguments, position);
+    let flat = are_arguments_flat(arguments, position)
+        && !has_comment_before(context, arguments.last().map(Argument::position));
     let separator = builder.sequence([",".into(), line()]);
 
     let arguments = builder.sequence(
@@ -418,19 +421,25 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
                     .chain([first_line_number(block.expression())]),
             )
             .map(|(statement, next_line_number)| {
-                let block_comment = compile_block_comment(context, statement.position());
-                // TODO Use end positions of spans when they are available.
-                let line_count =
-                    next_line_number as isize - statement.position().line_number() as isize;
+                let block_comment = compile_block_comment(
+                    context,
+                    last(
+                        statement.position(),
+                        first_operand(statement.expression()).position(),
+                    ),
+                );
                 let statement_document = compile_statement(context, statement, previous_expression);
 
                 previous_expression = Some(statement.expression());
 
-                let extra_line = if (count_lines(&statement_document)
-                    + context.peek_comments_before(next_line_number).count())
-                    as isize
-                    >= line_count
-                {
+                // TODO Use end positions of spans when they are available.
+                let line_count = context
+                    .peek_comments_before(next_line_number)
+                    .next()
+                    .map(|comment| comment.position().line_number())
+                    .unwrap_or(next_line_number) as isize
+                    - statement.position().line_number() as isize;
+                let extra_line = if count_lines(&statement_document) as isize >= line_count {
                     empty()
                 } else {
                     line()
@@ -445,7 +454,7 @@ fn compile_block<'a>(context: &mut Context<'a>, block: &'a Block) -> Document<'a
         builder.indent(builder.sequence([
             line(),
             statements,
-            compile_line_comment(context, block.expression().position(), |context| {
+            compile_expression_comment(context, block.expression(), |context| {
                 compile_statement_expression(context, block.expression(), previous_expression)
             }),
         ])),
@@ -470,7 +479,10 @@ fn compile_statement<'a>(
         } else {
             compile_statement_expression(context, statement.expression(), previous_expression)
         },
-        compile_suffix_comment(context, statement.position()),
+        compile_suffix_comment(
+            context,
+            last(statement.position(), last_position(statement.expression())),
+        ),
         builder.r#break(line()),
     ])
 }
@@ -526,6 +538,21 @@ fn first_line_number(expression: &Expression) -> usize {
     first_operand(expression).position().line_number()
 }
 
+fn last<'a>(one: &'a Position, other: &'a Position) -> &'a Position {
+    if one.line_number() < other.line_number() {
+        other
+    } else {
+        one
+    }
+}
+
+fn last_position(expression: &Expression) -> &Position {
+    match expression {
+        Expression::BinaryOperation(operation) => last_position(operation.rhs()),
+        _ => expression.position(),
+    }
+}
+
 fn last_operand(expression: &Expression) -> &Expression {
     match expression {
         Expression::BinaryOperation(operation) => last_operand(operation.rhs()),
@@ -544,11 +571,13 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::Call(call) => {
             let separator = builder.sequence([",".into(), line()]);
             let function = compile_suffix_operand(context, call.function());
+            let commented =
+                has_comment_before(context, call.arguments().last().map(Expression::position));
             let arguments = builder.sequence(
                 call.arguments()
                     .iter()
                     .map(|argument| {
-                        compile_line_comment(context, argument.position(), |context| {
+                        compile_expression_comment(context, argument, |context| {
                             compile_expression(context, argument)
                         })
                     })
@@ -564,6 +593,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
                             .arguments()
                             .first()
                             .map(|expression| expression.position().line_number())
+                        && !commented
                         && !is_broken(&arguments)
                 {
                     builder.flatten(arguments)
@@ -599,9 +629,16 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         Expression::Lambda(lambda) => compile_lambda(context, lambda),
         Expression::List(list) => compile_list(context, list),
         Expression::ListComprehension(comprehension) => {
+            let commented = has_comment_before(
+                context,
+                comprehension
+                    .branches()
+                    .last()
+                    .map(ListComprehensionBranch::position),
+            );
             let elements = builder.sequence([
                 line(),
-                compile_line_comment(context, comprehension.element().position(), |context| {
+                compile_expression_comment(context, comprehension.element(), |context| {
                     compile_expression(context, comprehension.element())
                 }),
                 line(),
@@ -650,6 +687,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
                 compile_type(context, comprehension.type_()),
                 if comprehension.position().line_number()
                     == comprehension.element().position().line_number()
+                    && !commented
                     && !is_broken(&elements)
                 {
                     builder.flatten(elements)
@@ -669,11 +707,13 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
         },
         Expression::Record(record) => {
             let separator = builder.sequence([",".into(), line()]);
+            let commented =
+                has_comment_before(context, record.fields().last().map(RecordField::position));
             let elements = builder.sequence(
                 record
                     .record()
                     .map(|record| {
-                        compile_line_comment(context, record.position(), |context| {
+                        compile_expression_comment(context, record, |context| {
                             builder.sequence(["...".into(), compile_expression(context, record)])
                         })
                     })
@@ -701,6 +741,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
                             record.fields().first().map(|field| field.position())
                         }
                         .map(|position| position.line_number())
+                        && !commented
                         && !is_broken(&elements)
                 {
                     builder.flatten(elements)
@@ -723,6 +764,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
                 ]),
                 expression => compile_suffix_operand(context, expression),
             },
+            compile_inner_comment(context, deconstruction.position()),
             ".".into(),
             deconstruction.name().into(),
         ]),
@@ -742,6 +784,7 @@ fn compile_expression<'a>(context: &mut Context<'a>, expression: &'a Expression)
             }
             UnaryOperator::Try => builder.sequence([
                 compile_suffix_operand(context, operation.expression()),
+                compile_inner_comment(context, operation.position()),
                 "?".into(),
             ]),
         },
@@ -849,17 +892,28 @@ fn compile_if_type<'a>(context: &mut Context<'a>, if_: &'a IfType) -> Document<'
 fn compile_list<'a>(context: &mut Context<'a>, list: &'a List) -> Document<'a> {
     let builder = context.builder();
     let separator = Document::from(",");
+    let commented = has_comment_before(context, list.elements().last().map(ListElement::position));
     let elements = builder.sequence(
         list.elements()
             .iter()
             .map(|element| {
                 builder.sequence([
                     line(),
-                    compile_line_comment(context, element.position(), |context| match element {
-                        ListElement::Multiple(expression) => builder
-                            .sequence(["...".into(), compile_expression(context, expression)]),
-                        ListElement::Single(expression) => compile_expression(context, expression),
-                    }),
+                    match element {
+                        ListElement::Multiple(expression) => {
+                            compile_expression_comment(context, expression, |context| {
+                                builder.sequence([
+                                    "...".into(),
+                                    compile_expression(context, expression),
+                                ])
+                            })
+                        }
+                        ListElement::Single(expression) => {
+                            compile_expression_comment(context, expression, |context| {
+                                compile_expression(context, expression)
+                            })
+                        }
+                    },
                 ])
             })
             .intersperse(separator.clone()),
@@ -874,6 +928,7 @@ fn compile_list<'a>(context: &mut Context<'a>, list: &'a List) -> Document<'a> {
                     .elements()
                     .first()
                     .map(|element| element.position().line_number())
+                && !commented
                 && !is_broken(&elements)
         {
             builder.flatten(elements)
@@ -892,21 +947,32 @@ fn compile_map<'a>(context: &mut Context<'a>, map: &'a Map) -> Document<'a> {
         compile_type(context, map.value_type()),
     ]);
     let separator = Document::from(",");
+    let commented = has_comment_before(context, map.elements().last().map(MapElement::position));
     let elements = builder.sequence(
         map.elements()
             .iter()
             .map(|element| {
                 builder.sequence([
                     line(),
-                    compile_line_comment(context, element.position(), |context| match element {
-                        MapElement::Multiple(expression) => builder
-                            .sequence(["...".into(), compile_expression(context, expression)]),
-                        MapElement::Single(entry) => builder.sequence([
-                            compile_expression(context, entry.key()),
-                            ": ".into(),
-                            compile_expression(context, entry.value()),
-                        ]),
-                    }),
+                    match element {
+                        MapElement::Multiple(expression) => {
+                            compile_expression_comment(context, expression, |context| {
+                                builder.sequence([
+                                    "...".into(),
+                                    compile_expression(context, expression),
+                                ])
+                            })
+                        }
+                        MapElement::Single(entry) => {
+                            compile_line_comment(context, entry.position(), |context| {
+                                builder.sequence([
+                                    compile_expression(context, entry.key()),
+                                    ": ".into(),
+                                    compile_expression(context, entry.value()),
+                                ])
+                            })
+                        }
+                    },
                 ])
             })
             .intersperse(separator.clone()),
@@ -921,6 +987,7 @@ fn compile_map<'a>(context: &mut Context<'a>, map: &'a Map) -> Document<'a> {
                     .elements()
                     .first()
                     .map(|element| element.position().line_number())
+                && !commented
                 && !is_broken(&elements)
         {
             builder.flatten(elements)
@@ -942,6 +1009,7 @@ fn compile_binary_operation<'a>(
         }),
         builder.indent(builder.sequence([
             line(),
+            compile_block_comment(context, first_operand(operation.rhs()).position()),
             compile_binary_operator(operation.operator()),
             " ".into(),
             // Binary operators are left associative.
@@ -997,6 +1065,17 @@ fn compile_binary_operator(operator: BinaryOperator) -> Document<'static> {
     .into()
 }
 
+fn has_comment_before(context: &Context, position: Option<&Position>) -> bool {
+    position
+        .map(|position| {
+            context
+                .peek_comments_before(position.line_number())
+                .next()
+                .is_some()
+        })
+        .unwrap_or_default()
+}
+
 fn compile_line_comment<'a>(
     context: &mut Context<'a>,
     position: &Position,
@@ -1009,9 +1088,37 @@ fn compile_line_comment<'a>(
     ])
 }
 
+fn compile_expression_comment<'a>(
+    context: &mut Context<'a>,
+    expression: &Expression,
+    document: impl Fn(&mut Context<'a>) -> Document<'a>,
+) -> Document<'a> {
+    context.builder().sequence([
+        compile_block_comment(context, first_operand(expression).position()),
+        document(context),
+        compile_suffix_comment(context, last_position(expression)),
+    ])
+}
+
+fn compile_inner_comment<'a>(context: &mut Context<'a>, position: &Position) -> Document<'a> {
+    let builder = context.builder();
+    let comment = compile_block_comment(context, position);
+
+    if is_broken(&comment) {
+        builder.indent(builder.sequence([builder.r#break(line()), comment]))
+    } else {
+        empty()
+    }
+}
+
 fn compile_suffix_comment<'a>(context: &mut Context<'a>, position: &Position) -> Document<'a> {
     let builder = context.builder();
 
+    // Comments on previous lines cannot share the same line.
+    if has_comment_before(context, Some(position)) {
+        return empty();
+    }
+
     builder.sequence(
         context
             .drain_current_comment(position.line_number())
-- 
2.43.0


From 7887fc964ed80c862a097bc9991d981a0828dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 09/37] fix: keep parentheses around maps which look like
 records of previous variables when formatting

---
 lib/format/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/format/src/lib.rs b/lib/format/src/lib.rs
index 7c323d0..c68c5fb 100644
--- a/lib/format/src/lib.rs
+++ b/lib/format/src/lib.rs
@@ -513,8 +513,10 @@ fn is_continuous(previous: &Expression, expression: &Expression) -> bool {
             NumberRepresentation::FloatingPoint(string) => string.starts_with(['+', '-']),
             NumberRepresentation::Binary(_) | NumberRepresentation::Hexadecimal(_) => false,
         },
+        // Empty maps and maps that begin with elements of other maps look like records.
         Expression::Map(map) => {
-            map.elements().is_empty() && matches!(last_operand(previous), Expression::Variable(_))
+            matches!(map.elements().first(), None | Some(MapElement::Multiple(_)))
+                && matches!(last_operand(previous), Expression::Variable(_))
         }
         _ => false,
     }
-- 
2.43.0


From 872526f6c63423d29dc8e45d440f1616c5ca6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 10/37] fix: accept texts of only white space when parsing
 comments

---
 lib/parse/src/parser.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/parse/src/parser.rs b/lib/parse/src/parser.rs
index 138eb84..65ebdf8 100644
--- a/lib/parse/src/parser.rs
+++ b/lib/parse/src/parser.rs
@@ -56,19 +56,21 @@ pub fn module(input: Input) -> IResult<Module> {
 
 pub fn comments(input: Input) -> IResult<Vec<Comment>> {
     map(
-        all_consuming(many0((
+        all_consuming(preceded(
             multispace0,
-            alt((
-                map(comment, Some),
-                map(raw_string_literal, |_| None),
-                map(none_of("\"#"), |_| None),
+            many0((
+                alt((
+                    map(comment, Some),
+                    map(raw_string_literal, |_| None),
+                    map(none_of("\"#"), |_| None),
+                )),
+                multispace0,
             )),
-            multispace0,
-        ))),
+        )),
         |comments| {
             comments
                 .into_iter()
-                .flat_map(|(_, comment, _)| comment)
+                .flat_map(|(comment, _)| comment)
                 .collect()
         },
     )
-- 
2.43.0


From 7773a3ac6a3ed919f0f0c7c2479d5acb752fbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 11/37] fix: do not document definitions with comments behind
 other code

---
 lib/doc/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/doc/src/lib.rs b/lib/doc/src/lib.rs
index 083902c..704bc36 100644
--- a/lib/doc/src/lib.rs
+++ b/lib/doc/src/lib.rs
@@ -89,7 +89,11 @@ fn compile_package(
                 .map(|(path, (module, comments))| {
                     compile_module(
                         &Context {
-                            comments: comments.to_vec(),
+                            comments: comments
+                                .iter()
+                                .filter(|comment| is_line_comment(comment))
+                                .cloned()
+                                .collect(),
                             configuration: configuration.clone(),
                         },
                         path,
@@ -221,6 +225,18 @@ fn compile_function_definition(context: &Context, definition: &FunctionDefinitio
     )
 }
 
+// Comments behind codes do not document what comes on next lines.
+fn is_line_comment(comment: &Comment) -> bool {
+    let position = comment.position();
+
+    position
+        .line()
+        .as_bytes()
+        .iter()
+        .take(position.column_number() - 1)
+        .all(u8::is_ascii_whitespace)
+}
+
 fn compile_first_block_comment(
     context: &Context,
     position: Option<&Position>,
-- 
2.43.0


From b27e69fb3125a6a13208ee3674703e73e0738fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 12/37] fix: keep keys of maps reachable after deletion

A node left with a single entry which is a node itself was moved to an
upper level although its entries are indexed for its own level.
---
 packages/prelude/Map.pen | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/prelude/Map.pen b/packages/prelude/Map.pen
index a01543b..8d2e519 100644
--- a/packages/prelude/Map.pen
+++ b/packages/prelude/Map.pen
@@ -246,10 +246,11 @@ deleteKey = \(ctx MapContext, hamt hamt, key any, layer number, level number) ha
 }
 
 normalizeHamt = \(h hamt) entry {
-  if e = getSingleEntry(h, 1, none) as none {
-    h
-  } else {
+  # Nodes cannot be moved because their entries are indexed for their levels.
+  if e = getSingleEntry(h, 1, none) as keyValue {
     e
+  } else {
+    h
   }
 }
 
-- 
2.43.0


From bae180b2d54584956784337cf945eae4b6a7f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 13/37] fix: hash elements of lists rather than their nodes

Maps with keys of lists could not be made because the hash function of
elements was given nodes of lists.
---
 packages/prelude/List.pen | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/prelude/List.pen b/packages/prelude/List.pen
index e3e6280..755fd98 100644
--- a/packages/prelude/List.pen
+++ b/packages/prelude/List.pen
@@ -123,7 +123,7 @@ hashNode = \(f \(any) number, node \() node | none, h number) number {
     hashNode(
       f,
       n.rest,
-      _pen_prelude_combine_hashes(h, f(n)),
+      _pen_prelude_combine_hashes(h, f(n.first())),
     )
   } else {
     h
-- 
2.43.0


From 6e2b5fa9ae1e1e733a9bb6c03bb9a9ee32e6610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 14/37] fix: visit conditions of list comprehensions (types
 used only there were not compiled)

---
 lib/hir/src/analysis/expression_visitor.rs | 4 ++++
 lib/hir/src/analysis/type_visitor.rs       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/hir/src/analysis/expression_visitor.rs b/lib/hir/src/analysis/expression_visitor.rs
index 2f19277..32eeaf0 100644
--- a/lib/hir/src/analysis/expression_visitor.rs
+++ b/lib/hir/src/analysis/expression_visitor.rs
@@ -78,6 +78,10 @@ fn visit_expression<'a>(expression: &'a Expression, visit: &mut impl FnMut(&'a E
                 for iteratee in branch.iteratees() {
                     visit_expression(iteratee.expression());
                 }
+
+                if let Some(condition) = branch.condition() {
+                    visit_expression(condition);
+                }
             }
 
             visit_expression(comprehension.element());
diff --git a/lib/hir/src/analysis/type_visitor.rs b/lib/hir/src/analysis/type_visitor.rs
index 25c8cc3..7e3aae3 100644
--- a/lib/hir/src/analysis/type_visitor.rs
+++ b/lib/hir/src/analysis/type_visitor.rs
@@ -162,6 +162,10 @@ fn visit_expression<'a>(expression: &'a Expression, visit: &mut impl FnMut(&'a T
 
                     visit_expression(iteratee.expression(), visit);
                 }
+
+                if let Some(condition) = branch.condition() {
+                    visit_expression(condition, visit);
+                }
             }
 
             visit_expression(comprehension.element(), visit);
-- 
2.43.0


From 75849019ef8f484b4b795ae801c8167277b9e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 15/37] fix: check lists of list comprehensions without the
 names which they bind

---
 lib/hir/src/analysis/type_checker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/hir/src/analysis/type_checker.rs b/lib/hir/src/analysis/type_checker.rs
index 231cbb1..ed0f00d 100644
--- a/lib/hir/src/analysis/type_checker.rs
+++ b/lib/hir/src/analysis/type_checker.rs
@@ -322,6 +322,8 @@ fn check_expression(
                     ));
                 }
 
+                let mut branch_variables = variables.clone();
+
                 for (name, iteratee) in branch.names().iter().zip(branch.iteratees()) {
                     let position = iteratee.position();
                     let type_ = iteratee
@@ -335,7 +337,7 @@ fn check_expression(
                         type_.position(),
                     )?;
 
-                    variables = variables.insert(
+                    branch_variables = branch_variables.insert(
                         name.into(),
                         types::Function::new(
                             vec![],
@@ -354,6 +356,8 @@ fn check_expression(
                     );
                 }
 
+                variables = branch_variables;
+
                 if let Some(condition) = branch.condition() {
                     check_subsumption(
                         &check_expression(condition, &variables)?,
-- 
2.43.0


From 67f6fccfbd688a53c4a913b04e7047f1aaaab7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 16/37] fix: rename variables which shadow arguments of global
 functions (inlining aliases captured them)

---
 lib/mir/src/analysis/alpha_conversion.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/mir/src/analysis/alpha_conversion.rs b/lib/mir/src/analysis/alpha_conversion.rs
index a264221..808443a 100644
--- a/lib/mir/src/analysis/alpha_conversion.rs
+++ b/lib/mir/src/analysis/alpha_conversion.rs
@@ -43,7 +43,18 @@ pub fn transform(module: &Module) -> Module {
                             definition.arguments().to_vec(),
                             definition.result_type().clone(),
                             transform_expression(
-                                &Context::new(name_counts.clone()),
+                                &Context::new(
+                                    name_counts
+                                        .iter()
+                                        .map(|(&name, &count)| (name, count))
+                                        .chain(
+                                            definition
+                                                .arguments()
+                                                .iter()
+                                                .map(|argument| (argument.name(), 1)),
+                                        )
+                                        .collect(),
+                                ),
                                 definition.body(),
                                 &Default::default(),
                             ),
-- 
2.43.0


From 915f8772098dc05cf7116055f6510d2b88f69f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 17/37] fix: evaluate operands of equality operations on none

---
 .../equal_operation/expression.rs             | 40 +++++++++++++++----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/hir-mir/src/transformation/equal_operation/expression.rs b/lib/hir-mir/src/transformation/equal_operation/expression.rs
index f9239c6..901d368 100644
--- a/lib/hir-mir/src/transformation/equal_operation/expression.rs
+++ b/lib/hir-mir/src/transformation/equal_operation/expression.rs
@@ -1,21 +1,45 @@
 use super::operation;
 use crate::{context::Context, error::CompileError};
-use hir::{analysis::AnalysisError, ir::*};
+use hir::{
+    analysis::{type_canonicalizer, AnalysisError},
+    ir::*,
+    types::Type,
+};
 
 pub fn transform(
     context: &Context,
     operation: &EqualityOperation,
 ) -> Result<Expression, CompileError> {
     Ok(if operation.operator() == EqualityOperator::Equal {
-        operation::transform(
-            context,
+        let position = operation.position();
+        let type_ = type_canonicalizer::canonicalize(
             operation
                 .type_()
-                .ok_or_else(|| AnalysisError::TypeNotInferred(operation.position().clone()))?,
-            operation.lhs(),
-            operation.rhs(),
-            operation.position(),
-        )?
+                .ok_or_else(|| AnalysisError::TypeNotInferred(position.clone()))?,
+            context.types(),
+        )?;
+        let equal =
+            operation::transform(context, &type_, operation.lhs(), operation.rhs(), position)?;
+
+        if matches!(type_, Type::None(_)) {
+            // Evaluate operands although their values are known.
+            Let::new(
+                None,
+                Some(type_.clone()),
+                operation.lhs().clone(),
+                Let::new(
+                    None,
+                    Some(type_),
+                    operation.rhs().clone(),
+                    equal,
+                    position.clone(),
+                ),
+                position.clone(),
+            )
+            .into()
+        } else {
+            equal
+        }
     } else {
         operation.clone().into()
     })
-- 
2.43.0


From 9f6edb190f5d796b0ae3b9db615c8ba62e58738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 18/37] fix: find an empty pattern in an empty string

The index of a pattern was looked for among the byte indices of characters,
of which an empty string has none.
---
 packages/core/ffi/src/string/utf8.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/packages/core/ffi/src/string/utf8.rs b/packages/core/ffi/src/string/utf8.rs
index ced9f91..afa51f1 100644
--- a/packages/core/ffi/src/string/utf8.rs
+++ b/packages/core/ffi/src/string/utf8.rs
@@ -41,13 +41,7 @@ fn find(string: ffi::ByteString, pattern: ffi::ByteString) -> Option<usize> {
     let pattern = str::from_utf8(pattern.as_slice()).ok()?;
     let index = string.find(pattern)?;
 
-    Some(
-        string
-            .char_indices()
-            .enumerate()
-            .find(|(_, (byte_index, _))| byte_index == &index)?
-            .0,
-    )
+    Some(string[..index].chars().count())
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 8b7b49589e4dcd305b8e0d93f4f921c27020460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 19/37] fix: slice bytes from an index less than one

A zero, a fraction or a negative number as the start of a slice whose end is
in the string underflowed and aborted the program.
---
 packages/core/ffi/src/string/byte.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/core/ffi/src/string/byte.rs b/packages/core/ffi/src/string/byte.rs
index 28e6e25..9b6283d 100644
--- a/packages/core/ffi/src/string/byte.rs
+++ b/packages/core/ffi/src/string/byte.rs
@@ -9,13 +9,13 @@ fn _pen_core_byte_slice(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    let start = f64::from(start) as usize;
+    let start = (f64::from(start) - 1.0).max(0.0) as usize;
     let end = f64::from(end).min(string.as_slice().len() as f64) as usize;
 
-    if start > end || start > string.as_slice().len() || end == 0 {
+    if start >= end {
         "".into()
     } else {
-        string.as_slice()[start - 1..end].into()
+        string.as_slice()[start..end].into()
     }
 }
 
-- 
2.43.0


From 864d1ed0da081468e1fe23cb2600c2b9c0572637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 20/37] fix: keep slices of string views in their view

A slice of a view could begin before the view, and a slice with an end before
its start aborted the program when the view was converted into a string.
---
 packages/core/String/Byte/View.pen |  4 ++--
 packages/core/ffi/src/view.rs      | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/packages/core/String/Byte/View.pen b/packages/core/String/Byte/View.pen
index b38acfa..2e976a2 100644
--- a/packages/core/String/Byte/View.pen
+++ b/packages/core/String/Byte/View.pen
@@ -55,11 +55,11 @@ Seek = \(v View, n number) View {
 
 # Slice a view.
 Slice = \(v View, start number, end number) View {
-  e = Number'Minimum(v.start + end - 1, v.end)
+  e = Number'Maximum(Number'Minimum(v.start + end - 1, v.end), v.start - 1)
 
   View{
     value: v.value,
-    start: Number'Minimum(v.start + start - 1, e + 1),
+    start: Number'Minimum(Number'Maximum(v.start + start - 1, v.start), e + 1),
     end: e,
   }
 }
diff --git a/packages/core/ffi/src/view.rs b/packages/core/ffi/src/view.rs
index fb35f09..857f981 100644
--- a/packages/core/ffi/src/view.rs
+++ b/packages/core/ffi/src/view.rs
@@ -5,11 +5,9 @@ fn _pen_core_view_starts_with(
     end: ffi::Number,
     prefix: ffi::ByteString,
 ) -> ffi::Boolean {
-    let string = string.as_slice();
-    let start = f64::from(start) as usize - 1;
-    let prefix = prefix.as_slice();
-
-    (&string[start..(start + prefix.len()).min(f64::from(end) as usize)] == prefix).into()
+    slice(string.as_slice(), start, end)
+        .starts_with(prefix.as_slice())
+        .into()
 }
 
 #[ffi::bindgen]
@@ -18,7 +16,13 @@ fn _pen_core_view_to_string(
     start: ffi::Number,
     end: ffi::Number,
 ) -> ffi::ByteString {
-    string.as_slice()[f64::from(start) as usize - 1..f64::from(end) as usize].into()
+    slice(string.as_slice(), start, end).into()
+}
+
+fn slice(string: &[u8], start: ffi::Number, end: ffi::Number) -> &[u8] {
+    string
+        .get((f64::from(start) - 1.0) as usize..f64::from(end) as usize)
+        .unwrap_or_default()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 110ba07f86edae8c2efa5b4edda8b2a64f1a18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 21/37] fix: give no character for negative code points and NaN

They were taken for the code point zero.
---
 packages/core/ffi/src/character.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/core/ffi/src/character.rs b/packages/core/ffi/src/character.rs
index bda2cf6..15fe26d 100644
--- a/packages/core/ffi/src/character.rs
+++ b/packages/core/ffi/src/character.rs
@@ -4,9 +4,15 @@ const INVALID_CODE_POINT: ffi::Number = ffi::Number::new(f64::NAN);
 
 #[ffi::bindgen]
 fn _pen_core_character_from_code_point(code_point: ffi::Number) -> ffi::ByteString {
-    char::from_u32(f64::from(code_point) as u32)
-        .map(ffi::ByteString::from)
-        .unwrap_or_default()
+    let code_point = f64::from(code_point);
+
+    if code_point >= 0.0 {
+        char::from_u32(code_point as u32)
+            .map(ffi::ByteString::from)
+            .unwrap_or_default()
+    } else {
+        Default::default()
+    }
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 9e247e44a27c2fcb6fadf783194525b4d7ff7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 22/37] fix: shift integers by their width or more

Shifts by 64 or more bits overflowed, which aborted the program or shifted by
the remainder of the count.
---
 packages/core/ffi/src/bit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/core/ffi/src/bit.rs b/packages/core/ffi/src/bit.rs
index be91cfb..2060b68 100644
--- a/packages/core/ffi/src/bit.rs
+++ b/packages/core/ffi/src/bit.rs
@@ -22,12 +22,18 @@ fn _pen_core_bit_not(x: ffi::Number) -> ffi::Number {
 
 #[ffi::bindgen]
 fn _pen_core_bit_left_shift(x: ffi::Number, count: ffi::Number) -> ffi::Number {
-    unsafe { transmute(transmute::<ffi::Number, u64>(x) << (f64::from(count) as u64)) }
+    shift(x, count, u64::checked_shl)
 }
 
 #[ffi::bindgen]
 fn _pen_core_bit_right_shift(x: ffi::Number, count: ffi::Number) -> ffi::Number {
-    unsafe { transmute(transmute::<ffi::Number, u64>(x) >> (f64::from(count) as u64)) }
+    shift(x, count, u64::checked_shr)
+}
+
+fn shift(x: ffi::Number, count: ffi::Number, shift: fn(u64, u32) -> Option<u64>) -> ffi::Number {
+    unsafe {
+        transmute(shift(transmute::<ffi::Number, u64>(x), f64::from(count) as u32).unwrap_or(0))
+    }
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 9d753434492b731b74e80047ffb0f2267219de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 23/37] fix: resolve escapes of string literals in one pass

---
 lib/ast-hir/src/string.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/lib/ast-hir/src/string.rs b/lib/ast-hir/src/string.rs
index 24ebad3..6115efd 100644
--- a/lib/ast-hir/src/string.rs
+++ b/lib/ast-hir/src/string.rs
@@ -1,23 +1,20 @@
 use regex::bytes::{Captures, Regex};
 use std::{str, sync::LazyLock};
 
-static HEX_CHARACTER_REGEX: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"\\x([0-9a-fA-F][0-9a-fA-F])").unwrap());
+static ESCAPE_REGEX: LazyLock<Regex> =
+    LazyLock::new(|| Regex::new(r#"\\(x([0-9a-fA-F]{2})|[\\"nrt])"#).unwrap());
 
 pub fn compile(string: &str) -> Vec<u8> {
-    HEX_CHARACTER_REGEX
-        .replace_all(
-            string
-                .replace("\\\\", "\\")
-                .replace("\\\"", "\"")
-                .replace("\\n", "\n")
-                .replace("\\r", "\r")
-                .replace("\\t", "\t")
-                .as_bytes(),
-            |captures: &Captures| {
-                vec![u8::from_str_radix(str::from_utf8(&captures[1]).unwrap(), 16).unwrap()]
-            },
-        )
+    ESCAPE_REGEX
+        .replace_all(string.as_bytes(), |captures: &Captures| {
+            vec![match captures[1][0] {
+                b'n' => b'\n',
+                b'r' => b'\r',
+                b't' => b'\t',
+                b'x' => u8::from_str_radix(str::from_utf8(&captures[2]).unwrap(), 16).unwrap(),
+                character => character,
+            }]
+        })
         .into()
 }
 
-- 
2.43.0


From 73e7e2d29b96b75164959f730a9c7bc0461b886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 24/37] fix: make every access to test states atomic

---
 packages/test/ffi/src/lib.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/packages/test/ffi/src/lib.rs b/packages/test/ffi/src/lib.rs
index c76ef43..70855be 100644
--- a/packages/test/ffi/src/lib.rs
+++ b/packages/test/ffi/src/lib.rs
@@ -1,6 +1,7 @@
 #![no_std]
 
 use alloc::sync::Arc;
+use core::hint;
 use core::sync::atomic::{AtomicBool, Ordering};
 use crossbeam::atomic::AtomicCell;
 
@@ -14,16 +15,29 @@ struct State(ffi::Arc<ffi::Any>);
 struct StateInner(Arc<StateInnerInner>);
 
 struct StateInnerInner {
-    cell: AtomicCell<ffi::Any>,
+    // This is none only while a thread is accessing a value.
+    cell: AtomicCell<Option<ffi::Any>>,
     frozen: AtomicBool,
 }
 
+impl StateInnerInner {
+    fn take(&self) -> ffi::Any {
+        loop {
+            if let Some(value) = self.cell.take() {
+                return value;
+            }
+
+            hint::spin_loop();
+        }
+    }
+}
+
 #[ffi::bindgen]
 fn _pen_test_state_new() -> State {
     State(ffi::Arc::new(
         StateInner(
             StateInnerInner {
-                cell: AtomicCell::new(default_value()),
+                cell: AtomicCell::new(Some(default_value())),
                 frozen: false.into(),
             }
             .into(),
@@ -41,16 +55,19 @@ fn _pen_test_state_freeze(state: State) {
 #[ffi::bindgen]
 fn _pen_test_state_get(state: State) -> ffi::Any {
     let inner: &StateInner = state.0.as_ref().try_into().unwrap();
-    let value = inner.0.cell.swap(default_value());
+    let value = inner.0.take();
 
-    inner.0.cell.swap(value.clone());
+    inner.0.cell.store(Some(value.clone()));
     value
 }
 
 #[ffi::bindgen]
 fn _pen_test_state_set(state: State, value: ffi::Any) {
     let inner: &StateInner = state.0.as_ref().try_into().unwrap();
-    inner.0.cell.swap(value);
+    let old_value = inner.0.take();
+
+    inner.0.cell.store(Some(value));
+    drop(old_value);
 }
 
 fn default_value() -> ffi::Any {
-- 
2.43.0


From 2f100fac69277312d92f3c86d295d1b0fafebd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 25/37] fix: synchronize values stored in test states

---
 packages/test/ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/test/ffi/src/lib.rs b/packages/test/ffi/src/lib.rs
index 70855be..7dcd6ef 100644
--- a/packages/test/ffi/src/lib.rs
+++ b/packages/test/ffi/src/lib.rs
@@ -64,6 +64,9 @@ fn _pen_test_state_get(state: State) -> ffi::Any {
 #[ffi::bindgen]
 fn _pen_test_state_set(state: State, value: ffi::Any) {
     let inner: &StateInner = state.0.as_ref().try_into().unwrap();
+    // Values in a state can be shared among threads.
+    (value.type_information().synchronize_fn())(*value.payload());
+
     let old_value = inner.0.take();
 
     inner.0.cell.store(Some(value));
-- 
2.43.0


From fc84441c2944f081ca33eb596c7af2558c13059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 26/37] fix: decode JSON escapes, exponents and carriage
 returns

---
 packages/json/Decode.pen | 126 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 122 insertions(+), 4 deletions(-)

diff --git a/packages/json/Decode.pen b/packages/json/Decode.pen
index 2ca7fd5..545a080 100644
--- a/packages/json/Decode.pen
+++ b/packages/json/Decode.pen
@@ -1,4 +1,5 @@
 import Core'Boolean
+import Core'Character
 import Core'Number
 import Core'String
 import Core'String'Byte
@@ -103,8 +104,8 @@ stringCharacters = \(v View) stringsResult | error {
 }
 
 stringCharacter = \(v View) stringResult | error {
-  if w = raw(v, "\\\"") as View {
-    stringResult{string: "\"", input: w}
+  if w = raw(v, "\\") as View {
+    escape(w)
   } else {
     if View'Length(v) == 0 {
       error("unexpected end of string")
@@ -114,12 +115,101 @@ stringCharacter = \(v View) stringResult | error {
   }
 }
 
+escape = \(v View) stringResult | error {
+  if w = raw(v, "u") as View {
+    codePoint(w)
+  } else {
+    s = {string: string
+      "\"": "\"",
+      "\\": "\\",
+      "/": "/",
+      "b": "\x08",
+      "f": "\x0c",
+      "n": "\n",
+      "r": "\r",
+      "t": "\t",
+    }
+
+    if s = s[View'ToString(View'Slice(v, 1, 1))] {
+      stringResult{string: s, input: View'Seek(v, 1)}
+    } else {
+      error("invalid escape sequence")
+    }
+  }
+}
+
+codePoint = \(v View) stringResult | error {
+  n = codeUnit(v)?
+  v = View'Seek(v, 4)
+
+  if n < 0xd800 | n > 0xdfff {
+    stringResult{string: Character'FromCodePoint(n), input: v}
+  } else {
+    v = raw(v, "\\u")?
+    m = codeUnit(v)?
+
+    if n > 0xdbff | m < 0xdc00 | m > 0xdfff {
+      error("invalid surrogate pair")
+    } else {
+      stringResult{
+        string: Character'FromCodePoint(0x10000 + (n - 0xd800) * 0x400 + m - 0xdc00),
+        input: View'Seek(v, 4),
+      }
+    }
+  }
+}
+
+codeUnit = \(v View) number | error {
+  hexadecimalDigits(v, 4, 0)
+}
+
+hexadecimalDigits = \(v View, n number, x number) number | error {
+  if n == 0 {
+    x
+  } else {
+    hexadecimalDigits(View'Seek(v, 1), n - 1, x * 16 + hexadecimalDigit(v)?)
+  }
+}
+
+hexadecimalDigit = \(v View) number | error {
+  digits = {string: number
+    "0": 0,
+    "1": 1,
+    "2": 2,
+    "3": 3,
+    "4": 4,
+    "5": 5,
+    "6": 6,
+    "7": 7,
+    "8": 8,
+    "9": 9,
+    "a": 10,
+    "b": 11,
+    "c": 12,
+    "d": 13,
+    "e": 14,
+    "f": 15,
+    "A": 10,
+    "B": 11,
+    "C": 12,
+    "D": 13,
+    "E": 14,
+    "F": 15,
+  }
+
+  if n = digits[View'ToString(View'Slice(v, 1, 1))] {
+    n
+  } else {
+    error("hexadecimal digit expected")
+  }
+}
+
 number = \(v View) valueResult | error {
   i = View'Start(v)
 
   v = if w = token(v, "-") as View { w } else { v }
   v = integer(v)?
-  v = if w = raw(v, ".") as View { digits(w) } else { v }
+  v = exponent(fraction(v)?)?
 
   valueResult{
     value: Value'New(
@@ -141,6 +231,34 @@ integer = \(v View) View | error {
   }
 }
 
+fraction = \(v View) View | error {
+  if w = raw(v, ".") as View {
+    someDigits(w)
+  } else {
+    v
+  }
+}
+
+exponent = \(v View) View | error {
+  if View'StartsWith(v, "e") | View'StartsWith(v, "E") {
+    v = View'Seek(v, 1)
+
+    someDigits(
+      if View'StartsWith(v, "+") | View'StartsWith(v, "-") { View'Seek(v, 1) } else { v },
+    )
+  } else {
+    v
+  }
+}
+
+someDigits = \(v View) View | error {
+  if v = digit(v) as View {
+    digits(v)
+  } else {
+    error("digit expected")
+  }
+}
+
 digits = \(v View) View {
   if w = digit(v) as View {
     digits(w)
@@ -249,7 +367,7 @@ raw = \(v View, s string) View | error {
 }
 
 blank = \(v View) View {
-  if View'StartsWith(v, " ") | View'StartsWith(v, "\t") | View'StartsWith(v, "\n") {
+  if View'StartsWith(v, " ") | View'StartsWith(v, "\t") | View'StartsWith(v, "\n") | View'StartsWith(v, "\r") {
     blank(View'Seek(v, 1))
   } else {
     v
-- 
2.43.0


From 3814cd8f31307c4cda6aa3de9b1aa20a71869bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 27/37] fix: escape control characters in JSON strings

---
 packages/json/Encode.pen     |  7 ++-----
 packages/json/ffi/src/lib.rs | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/packages/json/Encode.pen b/packages/json/Encode.pen
index d3e5577..67c507d 100644
--- a/packages/json/Encode.pen
+++ b/packages/json/Encode.pen
@@ -1,10 +1,10 @@
 import Core'Number
 import Core'String
-import Core'String'Utf8
 
 import 'Value { Value }
 
 import foreign "c" _pen_json_encode_number \(number) string
+import foreign "c" _pen_json_encode_string \(string) string
 
 type objectEntry {
   key string
@@ -33,10 +33,7 @@ value = \(v Value) [string] {
 }
 
 string = \(s string) [string] {
-  s = Utf8'Replace(s, "\\", "\\\\")
-  s = Utf8'Replace(s, "\"", "\\\"")
-
-  [string "\"", s, "\""]
+  [string "\"", _pen_json_encode_string(s), "\""]
 }
 
 array = \(vs [Value]) [string] {
diff --git a/packages/json/ffi/src/lib.rs b/packages/json/ffi/src/lib.rs
index cb12766..fe20131 100644
--- a/packages/json/ffi/src/lib.rs
+++ b/packages/json/ffi/src/lib.rs
@@ -2,7 +2,7 @@
 
 extern crate alloc;
 
-use alloc::string::ToString;
+use alloc::{format, string::ToString, vec::Vec};
 use core::str;
 
 #[ffi::bindgen]
@@ -19,6 +19,24 @@ fn _pen_json_encode_number(number: ffi::Number) -> ffi::ByteString {
     f64::from(number).to_string().into()
 }
 
+#[ffi::bindgen]
+fn _pen_json_encode_string(string: ffi::ByteString) -> ffi::ByteString {
+    let mut bytes = Vec::new();
+
+    for &byte in string.as_slice() {
+        match byte {
+            b'"' | b'\\' => bytes.extend([b'\\', byte]),
+            b'\n' => bytes.extend(b"\\n"),
+            b'\r' => bytes.extend(b"\\r"),
+            b'\t' => bytes.extend(b"\\t"),
+            0..=0x1f => bytes.extend(format!("\\u{byte:04x}").bytes()),
+            _ => bytes.push(byte),
+        }
+    }
+
+    bytes.into()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From d158b674ccf9f87f1df6906330ba9279f1a82306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 28/37] Revert "fix: synchronize values stored in test states"

This reverts commit 2f100fac69277312d92f3c86d295d1b0fafebd36.
---
 packages/test/ffi/src/lib.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/packages/test/ffi/src/lib.rs b/packages/test/ffi/src/lib.rs
index 7dcd6ef..70855be 100644
--- a/packages/test/ffi/src/lib.rs
+++ b/packages/test/ffi/src/lib.rs
@@ -64,9 +64,6 @@ fn _pen_test_state_get(state: State) -> ffi::Any {
 #[ffi::bindgen]
 fn _pen_test_state_set(state: State, value: ffi::Any) {
     let inner: &StateInner = state.0.as_ref().try_into().unwrap();
-    // Values in a state can be shared among threads.
-    (value.type_information().synchronize_fn())(*value.payload());
-
     let old_value = inner.0.take();
 
     inner.0.cell.store(Some(value));
-- 
2.43.0


From 55a6c3c95eb12076040737459a097b2d12df05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:06 +0000
Subject: [PATCH 29/37] Revert "fix: make every access to test states atomic"

This reverts commit 73e7e2d29b96b75164959f730a9c7bc0461b886b.
---
 packages/test/ffi/src/lib.rs | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/packages/test/ffi/src/lib.rs b/packages/test/ffi/src/lib.rs
index 70855be..c76ef43 100644
--- a/packages/test/ffi/src/lib.rs
+++ b/packages/test/ffi/src/lib.rs
@@ -1,7 +1,6 @@
 #![no_std]
 
 use alloc::sync::Arc;
-use core::hint;
 use core::sync::atomic::{AtomicBool, Ordering};
 use crossbeam::atomic::AtomicCell;
 
@@ -15,29 +14,16 @@ struct State(ffi::Arc<ffi::Any>);
 struct StateInner(Arc<StateInnerInner>);
 
 struct StateInnerInner {
-    // This is none only while a thread is accessing a value.
-    cell: AtomicCell<Option<ffi::Any>>,
+    cell: AtomicCell<ffi::Any>,
     frozen: AtomicBool,
 }
 
-impl StateInnerInner {
-    fn take(&self) -> ffi::Any {
-        loop {
-            if let Some(value) = self.cell.take() {
-                return value;
-            }
-
-            hint::spin_loop();
-        }
-    }
-}
-
 #[ffi::bindgen]
 fn _pen_test_state_new() -> State {
     State(ffi::Arc::new(
         StateInner(
             StateInnerInner {
-                cell: AtomicCell::new(Some(default_value())),
+                cell: AtomicCell::new(default_value()),
                 frozen: false.into(),
             }
             .into(),
@@ -55,19 +41,16 @@ fn _pen_test_state_freeze(state: State) {
 #[ffi::bindgen]
 fn _pen_test_state_get(state: State) -> ffi::Any {
     let inner: &StateInner = state.0.as_ref().try_into().unwrap();
-    let value = inner.0.take();
+    let value = inner.0.cell.swap(default_value());
 
-    inner.0.cell.store(Some(value.clone()));
+    inner.0.cell.swap(value.clone());
     value
 }
 
 #[ffi::bindgen]
 fn _pen_test_state_set(state: State, value: ffi::Any) {
     let inner: &StateInner = state.0.as_ref().try_into().unwrap();
-    let old_value = inner.0.take();
-
-    inner.0.cell.store(Some(value));
-    drop(old_value);
+    inner.0.cell.swap(value);
 }
 
 fn default_value() -> ffi::Any {
-- 
2.43.0


From 8a77e27f3d2bcc0e3e8191bf92dbf28b2ebd1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 30/37] fix: refuse try operations in functions whose results
 are only errors

---
 lib/hir/src/analysis/try_operation_validator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/hir/src/analysis/try_operation_validator.rs b/lib/hir/src/analysis/try_operation_validator.rs
index 92d52ce..8568821 100644
--- a/lib/hir/src/analysis/try_operation_validator.rs
+++ b/lib/hir/src/analysis/try_operation_validator.rs
@@ -1,5 +1,10 @@
 use super::{context::AnalysisContext, error::AnalysisError};
-use crate::{analysis::type_subsumption_checker, ir::*, types, types::Type};
+use crate::{
+    analysis::{type_canonicalizer, type_subsumption_checker},
+    ir::*,
+    types,
+    types::Type,
+};
 
 pub fn validate(context: &AnalysisContext, module: &Module) -> Result<(), AnalysisError> {
     for definition in module.function_definitions() {
@@ -133,7 +138,10 @@ fn validate_expression(
                         &types::Error::new(position.clone()).into(),
                         result_type,
                         context.types(),
-                    )? {
+                    )? || matches!(
+                        type_canonicalizer::canonicalize(result_type, context.types())?,
+                        Type::Error(_)
+                    ) {
                         return Err(AnalysisError::InvalidTryOperation(position.clone()));
                     }
                 } else {
-- 
2.43.0


From 8279179ea7038d25c4111257833c12c54f0c5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 31/37] fix: refuse equality operations on collections which
 cannot be compared

---
 .../src/transformation/equal_operation/operation.rs  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/hir-mir/src/transformation/equal_operation/operation.rs b/lib/hir-mir/src/transformation/equal_operation/operation.rs
index 2479f8b..c8dd35b 100644
--- a/lib/hir-mir/src/transformation/equal_operation/operation.rs
+++ b/lib/hir-mir/src/transformation/equal_operation/operation.rs
@@ -54,6 +54,12 @@ fn transform_canonical(
         )
         .into(),
         Type::List(list_type) => {
+            if !type_comparability_checker::check(type_, context.types(), context.records())? {
+                return Err(
+                    AnalysisError::TypeNotComparable(position.clone(), type_.clone()).into(),
+                );
+            }
+
             let any_list_type = collection_type::transform_list(context, position)?;
 
             Call::new(
@@ -83,6 +89,12 @@ fn transform_canonical(
             .into()
         }
         Type::Map(map_type) => {
+            if !type_comparability_checker::check(type_, context.types(), context.records())? {
+                return Err(
+                    AnalysisError::TypeNotComparable(position.clone(), type_.clone()).into(),
+                );
+            }
+
             let any_map_type = collection_type::transform_map(context, position)?;
 
             Call::new(
-- 
2.43.0


From 9161dba05a37f59344939566b018a3b11b551ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 32/37] fix: refuse map types whose keys cannot be compared

---
 lib/hir-mir/src/transformation/map_context/module.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/hir-mir/src/transformation/map_context/module.rs b/lib/hir-mir/src/transformation/map_context/module.rs
index 3c0849e..0630c94 100644
--- a/lib/hir-mir/src/transformation/map_context/module.rs
+++ b/lib/hir-mir/src/transformation/map_context/module.rs
@@ -42,6 +42,13 @@ fn transform_map_context_function_definition(
     map_type: &types::Map,
 ) -> Result<FunctionDefinition, CompileError> {
     let position = map_type.position();
+
+    if !type_comparability_checker::check(map_type.key(), context.types(), context.records())? {
+        return Err(
+            AnalysisError::TypeNotComparable(position.clone(), map_type.key().clone()).into(),
+        );
+    }
+
     let context_type = collection_type::transform_map_context(context, position)?;
     let name = context_function_name(map_type, context.types())?;
 
-- 
2.43.0


From fb04da053d23e0996375a0b535dcfc018f72fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:59 +0000
Subject: [PATCH 33/37] fix: Write to files before reporting that bytes were
 written

tokio's files hand bytes to a background task, so that a write reported success before and even
when the file was not writable, and sizes and contents read afterwards through its path were stale.
---
 packages/os/ffi/library/src/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/os/ffi/library/src/file.rs b/packages/os/ffi/library/src/file.rs
index cb9de6b..a590bfc 100644
--- a/packages/os/ffi/library/src/file.rs
+++ b/packages/os/ffi/library/src/file.rs
@@ -3,6 +3,7 @@ use crate::utilities;
 use std::{error::Error, ops::DerefMut, path::Path, sync::Arc};
 use tokio::{
     fs,
+    io::AsyncWriteExt,
     sync::{RwLock, RwLockWriteGuard},
 };
 
@@ -74,7 +75,13 @@ async fn _pen_os_write_file(
     file: File,
     bytes: ffi::ByteString,
 ) -> Result<ffi::Number, Box<dyn Error>> {
-    utilities::write(file.lock().await.deref_mut(), bytes).await
+    let mut file = file.lock().await;
+    let count = utilities::write(file.deref_mut(), bytes).await?;
+
+    // Wait for the bytes to reach the file, and for errors of writing them.
+    file.flush().await?;
+
+    Ok(count)
 }
 
 #[ffi::bindgen]
-- 
2.43.0


From 6fae22b2b0a4f73f894cb6638b421b6f9ce41fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:00 +0000
Subject: [PATCH 34/37] fix: Receive UDP datagrams of any size

Datagrams longer than 512 bytes were truncated silently.
---
 packages/os-sync/ffi/library/src/udp.rs | 2 +-
 packages/os/ffi/library/src/udp.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/os-sync/ffi/library/src/udp.rs b/packages/os-sync/ffi/library/src/udp.rs
index e3d8a6a..7bd7553 100644
--- a/packages/os-sync/ffi/library/src/udp.rs
+++ b/packages/os-sync/ffi/library/src/udp.rs
@@ -5,7 +5,7 @@ use std::{
     sync::{Arc, RwLock, RwLockWriteGuard},
 };
 
-const MAX_UDP_PAYLOAD_SIZE: usize = 512;
+const MAX_UDP_PAYLOAD_SIZE: usize = u16::MAX as usize;
 
 #[ffi::into_any(into_fn = "_pen_os_udp_socket_to_any")]
 #[repr(C)]
diff --git a/packages/os/ffi/library/src/udp.rs b/packages/os/ffi/library/src/udp.rs
index c7dd2e1..5f26ae5 100644
--- a/packages/os/ffi/library/src/udp.rs
+++ b/packages/os/ffi/library/src/udp.rs
@@ -4,7 +4,7 @@ use tokio::{
     sync::{RwLock, RwLockWriteGuard},
 };
 
-const MAX_UDP_PAYLOAD_SIZE: usize = 512;
+const MAX_UDP_PAYLOAD_SIZE: usize = u16::MAX as usize;
 
 #[ffi::into_any(into_fn = "_pen_os_udp_socket_to_any")]
 #[repr(C)]
-- 
2.43.0


From 246ff6c9518f1ed5ed3db4e3f6896603c488eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 35/37] fix: keep packages of similar URLs apart

---
 lib/app/src/common/package_id_calculator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/app/src/common/package_id_calculator.rs b/lib/app/src/common/package_id_calculator.rs
index 7243678..1f7308b 100644
--- a/lib/app/src/common/package_id_calculator.rs
+++ b/lib/app/src/common/package_id_calculator.rs
@@ -1,12 +1,23 @@
 use regex::Regex;
-use std::sync::LazyLock;
+use std::{
+    collections::hash_map::DefaultHasher,
+    hash::{Hash, Hasher},
+    sync::LazyLock,
+};
 
 const REPLACEMENT_STRING: &str = "_";
 
 static REPLACEMENT_REGEX: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[.:/]+").unwrap());
 
 pub fn calculate(url: &url::Url) -> String {
-    REPLACEMENT_REGEX
-        .replace_all(&format!("{url}"), REPLACEMENT_STRING)
-        .into()
+    let mut hasher = DefaultHasher::new();
+
+    // Different URLs can become the same after the replacement.
+    url.as_str().hash(&mut hasher);
+
+    format!(
+        "{}_{:x}",
+        REPLACEMENT_REGEX.replace_all(url.as_str(), REPLACEMENT_STRING),
+        hasher.finish()
+    )
 }
-- 
2.43.0


From 241c8372abb3eb93cd3a4e9d662c9ff1d0c6880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:31 +0000
Subject: [PATCH 36/37] fix: resolve imports again when package configurations
 change

---
 cmd/pen/src/infrastructure.rs                | 1 +
 lib/infra/src/ninja_build_script_compiler.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/pen/src/infrastructure.rs b/cmd/pen/src/infrastructure.rs
index e631164..cab4d88 100644
--- a/cmd/pen/src/infrastructure.rs
+++ b/cmd/pen/src/infrastructure.rs
@@ -19,6 +19,7 @@ pub fn create(
         NINJA_DYNAMIC_DEPENDENCY_FILE_EXTENSION,
         FFI_BUILD_SCRIPT_BASENAME,
         LINK_SCRIPT_BASENAME,
+        BUILD_CONFIGURATION_FILENAME,
     ));
 
     Ok(app::infra::Infrastructure {
diff --git a/lib/infra/src/ninja_build_script_compiler.rs b/lib/infra/src/ninja_build_script_compiler.rs
index d4d3544..2566dd5 100644
--- a/lib/infra/src/ninja_build_script_compiler.rs
+++ b/lib/infra/src/ninja_build_script_compiler.rs
@@ -21,6 +21,7 @@ pub struct NinjaBuildScriptCompiler {
     ninja_dynamic_dependency_file_extension: &'static str,
     ffi_build_script_basename: &'static str,
     link_script_basename: &'static str,
+    build_configuration_filename: &'static str,
 }
 
 impl NinjaBuildScriptCompiler {
@@ -31,6 +32,7 @@ impl NinjaBuildScriptCompiler {
         ninja_dynamic_dependency_file_extension: &'static str,
         ffi_build_script_basename: &'static str,
         link_script_basename: &'static str,
+        build_configuration_filename: &'static str,
     ) -> Self {
         Self {
             file_path_converter,
@@ -39,6 +41,7 @@ impl NinjaBuildScriptCompiler {
             ninja_dynamic_dependency_file_extension,
             ffi_build_script_basename,
             link_script_basename,
+            build_configuration_filename,
         }
     }
 
@@ -324,10 +327,13 @@ impl NinjaBuildScriptCompiler {
     ) -> Vec<String> {
         vec![
             format!(
-                "build {} {}: resolve_dependency {}",
+                "build {} {}: resolve_dependency {} | {}",
                 dependency_file.display(),
                 ninja_dependency_file.display(),
                 source_file.display(),
+                package_directory
+                    .join(self.build_configuration_filename)
+                    .display(),
             ),
             format!("  package_directory = {}", package_directory.display()),
             format!("  object_file = {}", bit_code_file.display()),
-- 
2.43.0


From 2f0561d91b16ec466f976d1546ca779bb985c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 37/37] fix: report cyclic dependencies of packages instead of
 following them forever

---
 .../external_package_configuration_reader.rs  | 45 +++++++++++--------
 lib/app/src/package_initializer.rs            | 13 +++++-
 .../external_package_initializer.rs           | 12 ++++-
 3 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/lib/app/src/external_package_configuration_reader.rs b/lib/app/src/external_package_configuration_reader.rs
index c20546c..0830dd8 100644
--- a/lib/app/src/external_package_configuration_reader.rs
+++ b/lib/app/src/external_package_configuration_reader.rs
@@ -29,36 +29,43 @@ pub fn read_all(
     package_directory: &FilePath,
     output_directory: &FilePath,
 ) -> Result<BTreeMap<url::Url, PackageConfiguration>, Box<dyn Error>> {
+    let mut configurations = BTreeMap::new();
+
     read_dependencies(
         infrastructure,
         &infrastructure
             .package_configuration_reader
             .read(package_directory)?,
         output_directory,
-    )
+        &mut configurations,
+    )?;
+
+    Ok(configurations)
 }
 
 fn read_dependencies(
     infrastructure: &Infrastructure,
     configuration: &PackageConfiguration,
     output_directory: &FilePath,
-) -> Result<BTreeMap<url::Url, PackageConfiguration>, Box<dyn Error>> {
-    Ok(configuration
-        .dependencies()
-        .values()
-        .map(|url| -> Result<_, Box<dyn Error>> {
-            let configuration = infrastructure.package_configuration_reader.read(
-                &file_path_resolver::resolve_package_directory(output_directory, url),
-            )?;
-            let dependencies = read_dependencies(infrastructure, &configuration, output_directory)?;
+    configurations: &mut BTreeMap<url::Url, PackageConfiguration>,
+) -> Result<(), Box<dyn Error>> {
+    for url in configuration.dependencies().values() {
+        if configurations.contains_key(url) {
+            continue;
+        }
 
-            Ok([(url.clone(), configuration)]
-                .into_iter()
-                .chain(dependencies)
-                .collect::<Vec<_>>())
-        })
-        .collect::<Result<Vec<_>, _>>()?
-        .into_iter()
-        .flatten()
-        .collect())
+        let configuration = infrastructure.package_configuration_reader.read(
+            &file_path_resolver::resolve_package_directory(output_directory, url),
+        )?;
+
+        configurations.insert(url.clone(), configuration.clone());
+        read_dependencies(
+            infrastructure,
+            &configuration,
+            output_directory,
+            configurations,
+        )?;
+    }
+
+    Ok(())
 }
diff --git a/lib/app/src/package_initializer.rs b/lib/app/src/package_initializer.rs
index 34a7158..22ae49d 100644
--- a/lib/app/src/package_initializer.rs
+++ b/lib/app/src/package_initializer.rs
@@ -1,7 +1,7 @@
 mod external_package_initializer;
 
 use crate::infra::{FilePath, Infrastructure};
-use std::error::Error;
+use std::{collections::BTreeSet, error::Error};
 
 pub fn initialize(
     infrastructure: &Infrastructure,
@@ -15,12 +15,21 @@ pub fn initialize(
         prelude_package_url,
         output_directory,
     )?;
-    external_package_initializer::initialize(infrastructure, ffi_package_url, output_directory)?;
+
+    let mut initialized_urls = BTreeSet::new();
+
+    external_package_initializer::initialize(
+        infrastructure,
+        ffi_package_url,
+        output_directory,
+        &mut initialized_urls,
+    )?;
 
     external_package_initializer::initialize_dependencies(
         infrastructure,
         package_directory,
         output_directory,
+        &mut initialized_urls,
     )?;
 
     Ok(())
diff --git a/lib/app/src/package_initializer/external_package_initializer.rs b/lib/app/src/package_initializer/external_package_initializer.rs
index 81164f1..fee9d30 100644
--- a/lib/app/src/package_initializer/external_package_initializer.rs
+++ b/lib/app/src/package_initializer/external_package_initializer.rs
@@ -3,12 +3,13 @@ use crate::{
     infra::{FilePath, Infrastructure},
     package_build_script_compiler,
 };
-use std::error::Error;
+use std::{collections::BTreeSet, error::Error};
 
 pub fn initialize_dependencies(
     infrastructure: &Infrastructure,
     package_directory: &FilePath,
     output_directory: &FilePath,
+    initialized_urls: &mut BTreeSet<url::Url>,
 ) -> Result<(), Box<dyn Error>> {
     for url in infrastructure
         .package_configuration_reader
@@ -16,7 +17,7 @@ pub fn initialize_dependencies(
         .dependencies()
         .values()
     {
-        initialize(infrastructure, url, output_directory)?;
+        initialize(infrastructure, url, output_directory, initialized_urls)?;
     }
 
     Ok(())
@@ -26,7 +27,13 @@ pub fn initialize(
     infrastructure: &Infrastructure,
     package_url: &url::Url,
     output_directory: &FilePath,
+    initialized_urls: &mut BTreeSet<url::Url>,
 ) -> Result<(), Box<dyn Error>> {
+    // Packages can be shared by multiple packages and even depend on each other.
+    if !initialized_urls.insert(package_url.clone()) {
+        return Ok(());
+    }
+
     let package_directory =
         file_path_resolver::resolve_package_directory(output_directory, package_url);
 
@@ -49,6 +56,7 @@ pub fn initialize(
         infrastructure,
         &file_path_resolver::resolve_package_directory(output_directory, package_url),
         output_directory,
+        initialized_urls,
     )?;
 
     Ok(())
-- 
2.43.0

