From 7e89ef8bbd53f7b3259efa42442c44085faa2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 01/33] fix: wrap jump offset biases instead of overflowing
 when (de)coding instructions

---
 core/src/bytecode.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b84fa18..c3b9c26 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -380,28 +380,28 @@ impl Decode for Instr<Offset> {
             25 => Ok(Instr::Param(input.decode()?)),
             26 => Ok(Instr::ObjectField(input.decode()?)),
             27 => Ok(Instr::ExternalVar),
-            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()? + 11))),
+            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()?.wrapping_add(11)))),
             29 => Ok(Instr::SwitchLabel(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             30 => Ok(Instr::SwitchDefault),
-            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()? + 3))),
-            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()? + 3))),
-            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()? + 3))),
+            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             34 => Ok(Instr::Conditional(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             35 => Ok(Instr::Construct(input.decode()?, input.decode()?)),
             36 => Ok(Instr::InvokeStatic(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
             )),
             37 => Ok(Instr::InvokeVirtual(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
@@ -409,7 +409,7 @@ impl Decode for Instr<Offset> {
             38 => Ok(Instr::ParamEnd),
             39 => Ok(Instr::Return),
             40 => Ok(Instr::StructField(input.decode()?)),
-            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()? + 3))),
+            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             42 => Ok(Instr::Equals(input.decode()?)),
 
             43 => Ok(Instr::RefStringEqualsString(input.decode()?)),
@@ -596,32 +596,32 @@ impl Encode for Instr<Offset> {
             Instr::Switch(idx, offset) => {
                 output.encode(&28u8)?;
                 output.encode(idx)?;
-                output.encode(&Offset::new(offset.value - 11))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(11)))?;
             }
             Instr::SwitchLabel(start, exit) => {
                 output.encode(&29u8)?;
-                output.encode(&Offset::new(start.value - 3))?;
-                output.encode(&Offset::new(exit.value - 5))?;
+                output.encode(&Offset::new(start.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(exit.value.wrapping_sub(5)))?;
             }
             Instr::SwitchDefault => {
                 output.encode(&30u8)?;
             }
             Instr::Jump(offset) => {
                 output.encode(&31u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::JumpIfFalse(offset) => {
                 output.encode(&32u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Skip(offset) => {
                 output.encode(&33u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Conditional(if_true, if_false) => {
                 output.encode(&34u8)?;
-                output.encode(&Offset::new(if_true.value - 3))?;
-                output.encode(&Offset::new(if_false.value - 5))?;
+                output.encode(&Offset::new(if_true.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(if_false.value.wrapping_sub(5)))?;
             }
             Instr::Construct(n_params, idx) => {
                 output.encode(&35u8)?;
@@ -630,14 +630,14 @@ impl Encode for Instr<Offset> {
             }
             Instr::InvokeStatic(offset, line, idx, u) => {
                 output.encode(&36u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
             }
             Instr::InvokeVirtual(offset, line, idx, u) => {
                 output.encode(&37u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
@@ -654,7 +654,7 @@ impl Encode for Instr<Offset> {
             }
             Instr::Context(offset) => {
                 output.encode(&41u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Equals(idx) => {
                 output.encode(&42u8)?;
-- 
2.43.0


From 948effaf579e97323fd642d77df336b70907cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 02/33] fix: Location::relative must not overflow for locations
 more than 32 KiB apart

---
 core/src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index c3b9c26..169da4e 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -975,7 +975,7 @@ impl Location {
 
     #[inline]
     pub fn relative(&self, base: Location) -> Offset {
-        Offset::new(self.value as i16 - base.value as i16)
+        Offset::new((self.value as i16).wrapping_sub(base.value as i16))
     }
 }
 
-- 
2.43.0


From 0edf692d60850f72b5167a5beab1bc05aca8f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:08 +0000
Subject: [PATCH 03/33] fix: CodeCursor::range reports an error for reversed
 ranges instead of panicking

---
 core/src/bytecode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index 169da4e..f259c01 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -1209,7 +1209,10 @@ impl<'a, Loc: Clone> CodeCursor<'a, Loc> {
     pub fn range(&self, from: Location, to: Location) -> Result<CodeIter<'_, Loc>, CursorError> {
         let start = self.get_index(from)?;
         let end = self.get_index(to)?;
-        let slice = &self.code[start..end];
+        let slice = self
+            .code
+            .get(start..end)
+            .ok_or(CursorError::InvalidInstructionOffset(to))?;
         Ok(CodeIter::new_at(slice, from))
     }
 
-- 
2.43.0


From c4d3e88f2ee25faae1d04a914db81170e582f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:48 +0000
Subject: [PATCH 04/33] fix: report malformed definitions as InvalidData errors
 instead of panicking

---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..f996c17 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Unknown Type enum value {tag}"),
+            )),
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From f856ee31ea6c70f53cae25047039b5bb19839a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:48 +0000
Subject: [PATCH 05/33] fix: a corrupt element count must not make the loader
 reserve gigabytes

---
 core/src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/decode.rs b/core/src/decode.rs
index 8573c78..e7eae32 100644
--- a/core/src/decode.rs
+++ b/core/src/decode.rs
@@ -114,7 +114,8 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_vec<S: Into<u32>, A: Decode>(&mut self, count: S) -> io::Result<Vec<A>> {
         let size = count.into() as usize;
-        let mut vec = Vec::with_capacity(size);
+        // the count comes from the input: do not reserve memory for elements that may not be there
+        let mut vec = Vec::with_capacity(size.min(0x10000));
         for _ in 0..size {
             vec.push(self.decode()?);
         }
-- 
2.43.0


From b7ec4fa830e7c418cbc6397750ac6b44ad6fc8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:57 +0000
Subject: [PATCH 06/33] fix: continue after the loop when its decompiled body
 ends with a break or return

---
 decompiler/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..664f1aa 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -126,6 +126,7 @@ impl<'a> Decompiler<'a> {
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
             let body = self.consume_path(target, Some(block))?;
+            self.code.seek_abs(target)?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
-- 
2.43.0


From 44f481065957d71ad8ee7966dcc324b3b11b122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:57 +0000
Subject: [PATCH 07/33] fix: a switch must not be decompiled past the end of
 the block it is in

---
 decompiler/src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 664f1aa..8336c1c 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -14,11 +14,17 @@ pub struct Decompiler<'a> {
     code: CodeCursor<'a, Offset>,
     definition: &'a Definition,
     pool: &'a ConstantPool,
+    block_end: Location,
 }
 
 impl<'a> Decompiler<'a> {
     pub fn new(code: CodeCursor<'a, Offset>, definition: &'a Definition, pool: &'a ConstantPool) -> Self {
-        Self { code, definition, pool }
+        Self {
+            code,
+            definition,
+            pool,
+            block_end: Location::MAX,
+        }
     }
 
     pub fn decompiled(function: &Function, def: &Definition, pool: &ConstantPool) -> Result<Seq<SourceAst>, Error> {
@@ -43,6 +49,14 @@ impl<'a> Decompiler<'a> {
         Ok(Ident::from_heap(self.pool.def_name(index)?))
     }
 
+    fn peek_in_block(&self) -> Option<Instr<Offset>> {
+        if self.code.pos() < self.block_end {
+            self.code.peek()
+        } else {
+            None
+        }
+    }
+
     fn consume_n(&mut self, n: usize) -> Result<Vec<Expr<SourceAst>>, Error> {
         let mut body = Vec::new();
         for _ in 0..n {
@@ -53,6 +67,8 @@ impl<'a> Decompiler<'a> {
 
     fn consume_path(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
         let mut body = Vec::new();
+        let outer_end = self.block_end;
+        self.block_end = target.min(outer_end);
         loop {
             if self.code.pos() >= target
                 || matches!(body.last(), Some(Expr::Goto(_, _)))
@@ -67,6 +83,7 @@ impl<'a> Decompiler<'a> {
                 Err(err) => return Err(err),
             }
         }
+        self.block_end = outer_end;
         Ok(Seq::new(body))
     }
 
@@ -147,12 +164,12 @@ impl<'a> Decompiler<'a> {
 
         self.code.seek_abs(start)?;
         let mut labels = Vec::new();
-        while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.code.peek() {
+        while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.peek_in_block() {
             let position = self.code.pos();
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
-        if self.code.peek() == Some(Instr::SwitchDefault) {
+        if self.peek_in_block() == Some(Instr::SwitchDefault) {
             labels.push((self.code.pos(), self.code.pos()));
         };
         labels.sort_by_key(|(_, start)| *start);
@@ -189,6 +206,8 @@ impl<'a> Decompiler<'a> {
                 Instr::SwitchDefault => {
                     if let Some(BlockContext::Switch { epilogue }) = block {
                         default = Some(self.consume_path(epilogue, block)?);
+                    } else if matches!(self.peek_in_block(), None | Some(Instr::Jump(_))) {
+                        default = Some(Seq::new(vec![]));
                     } else {
                         default = Some(Seq::new(vec![self.consume_with(None, block)?]));
                     }
-- 
2.43.0


From bb69ff73b3272dc4a0c73cdcd827296026544655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 08/33] fix: the unreachable tail of a decompiled block must
 not end up behind the block

---
 decompiler/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 8336c1c..dd7a509 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -87,6 +87,15 @@ impl<'a> Decompiler<'a> {
         Ok(Seq::new(body))
     }
 
+    /// consumes everything up to the target, leaving out the unreachable tail of a block that ends early
+    fn consume_block(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
+        let body = self.consume_path(target, block)?;
+        if self.code.pos() < target {
+            self.code.seek_abs(target)?;
+        }
+        Ok(body)
+    }
+
     fn consume_intrisnic_typed(&mut self, op: IntrinsicOp, type_args: Vec<TypeName>) -> Result<Expr<SourceAst>, Error> {
         let params = self.consume_n(op.arg_count() as usize)?;
         Ok(Expr::Call(
@@ -142,14 +151,13 @@ impl<'a> Decompiler<'a> {
 
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
-            let body = self.consume_path(target, Some(block))?;
-            self.code.seek_abs(target)?;
+            let body = self.consume_block(target, Some(block))?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
             self.code.seek_abs(target)?;
             if let Some(jump) = resolve_jump(&mut body) {
-                let else_case = self.consume_path(jump.position, block)?;
+                let else_case = self.consume_block(jump.position, block)?;
                 Expr::If(condition.into(), body, Some(else_case), Span::ZERO)
             } else {
                 Expr::If(condition.into(), body, None, Span::ZERO)
@@ -195,7 +203,7 @@ impl<'a> Decompiler<'a> {
                     }
 
                     self.code.seek_abs(start_position)?;
-                    let mut body = self.consume_path(exit, block)?;
+                    let mut body = self.consume_block(exit, block)?;
 
                     if let Some(Expr::Goto(_, _)) = body.exprs.last() {
                         body.exprs.pop();
@@ -205,7 +213,7 @@ impl<'a> Decompiler<'a> {
                 }
                 Instr::SwitchDefault => {
                     if let Some(BlockContext::Switch { epilogue }) = block {
-                        default = Some(self.consume_path(epilogue, block)?);
+                        default = Some(self.consume_block(epilogue, block)?);
                     } else if matches!(self.peek_in_block(), None | Some(Instr::Jump(_))) {
                         default = Some(Seq::new(vec![]));
                     } else {
-- 
2.43.0


From 536a2337225b9bc91b3c1b3e483a7830e41fc3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 09/33] fix: recognize breaks in a switch that has no default
 case

---
 decompiler/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index dd7a509..3ac9b9c 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -177,14 +177,16 @@ impl<'a> Decompiler<'a> {
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
+        // without a default case the switch ends where the last label points
+        let mut block = Some(BlockContext::new_switch(self.code.pos()));
         if self.peek_in_block() == Some(Instr::SwitchDefault) {
             labels.push((self.code.pos(), self.code.pos()));
+            block = None;
         };
         labels.sort_by_key(|(_, start)| *start);
 
         let mut default = None;
         let mut cases = Vec::new();
-        let mut block = None;
         for (label, start_position) in labels {
             self.code.seek_abs(label)?;
 
-- 
2.43.0


From 0363c61d6506ac7d9462263c188bd4a2b80470dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 10/33] fix: keep parentheses around right operands that would
 regroup when printed

---
 decompiler/src/print.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..041f000 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -403,6 +403,7 @@ fn write_call<W: Write>(
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
                 ParentOp::BinOp(op) => !binop.does_associate(*op),
+                ParentOp::BinOpRhs(op) => !associates_on_rhs(binop, *op),
             })
             .is_some()
         {
@@ -444,7 +445,18 @@ fn write_binop<W: Write>(
 ) -> Result<(), Error> {
     write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::BinOpRhs(op)), verbose, 0)
+}
+
+// operators group to the left, so an operand on the right can only go without parentheses
+// if it binds stronger or if the way the operations are grouped does not matter
+fn associates_on_rhs(op: BinOp, parent: BinOp) -> bool {
+    op.precedence() < parent.precedence()
+        || op.precedence() == parent.precedence()
+            && matches!(
+                parent,
+                BinOp::LogicOr | BinOp::LogicAnd | BinOp::Or | BinOp::Xor | BinOp::And
+            )
 }
 
 fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
@@ -515,5 +527,6 @@ fn format_unop(op: UnOp) -> &'static str {
 enum ParentOp {
     UnOp,
     BinOp(BinOp),
+    BinOpRhs(BinOp),
     Dot,
 }
-- 
2.43.0


From 42fce5483079b1b35dfd2c4507cd24205c051b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 11/33] fix: parenthesize operands that bind weaker than the
 expression printed around them

---
 decompiler/src/print.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 041f000..ab676ec 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -250,6 +250,11 @@ fn write_expr_nested<W: Write>(
     depth: usize,
 ) -> Result<(), Error> {
     match expr {
+        Expr::Assign(_, _, _) | Expr::Conditional(_, _, _, _) if parent_op.is_some() => {
+            write!(out, "(")?;
+            write_expr(out, expr, verbose, depth)?;
+            write!(out, ")")?;
+        }
         Expr::Ident(ident, _) => write!(out, "{}", ident)?,
         Expr::Constant(cons, _) => match cons {
             Constant::String(Literal::String, str) => write!(out, "\"{}\"", str::escape_default(str))?,
@@ -268,11 +273,11 @@ fn write_expr_nested<W: Write>(
         Expr::Cast(type_, expr, _) => {
             if parent_op.is_some() {
                 write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
                 write!(out, ")")?;
             } else {
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
             }
         }
@@ -287,7 +292,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Assign(lhs, rhs, _) => {
-            write_expr(out, lhs, verbose, 0)?;
+            write_expr_nested(out, lhs, Some(ParentOp::Assign), verbose, 0)?;
             write!(out, " = ")?;
             write_expr(out, rhs, verbose, 0)?;
         }
@@ -298,7 +303,7 @@ fn write_expr_nested<W: Write>(
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -355,7 +360,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            write_expr_nested(out, condition, Some(ParentOp::Assign), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
@@ -370,7 +375,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -404,6 +409,7 @@ fn write_call<W: Write>(
                 ParentOp::UnOp | ParentOp::Dot => true,
                 ParentOp::BinOp(op) => !binop.does_associate(*op),
                 ParentOp::BinOpRhs(op) => !associates_on_rhs(binop, *op),
+                ParentOp::Assign => binop.precedence() >= BinOp::AssignAdd.precedence(),
             })
             .is_some()
         {
@@ -415,7 +421,14 @@ fn write_call<W: Write>(
             write_binop(out, &params[0], &params[1], binop, verbose)
         }
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
+        if let Some(ParentOp::Dot) = parent_op {
+            write!(out, "(")?;
+            write_unop(out, &params[0], unop, verbose)?;
+            write!(out, ")")?;
+            Ok(())
+        } else {
+            write_unop(out, &params[0], unop, verbose)
+        }
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
         write_expr(out, &params[0], verbose, 0)
     } else {
@@ -528,5 +541,6 @@ enum ParentOp {
     UnOp,
     BinOp(BinOp),
     BinOpRhs(BinOp),
+    Assign,
     Dot,
 }
-- 
2.43.0


From 656d12228053b841b83cef4ba3b6c613390daa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 12/33] fix: keep parentheses around the operand of a hidden
 reference conversion

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ab676ec..4d0dd4c 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -430,7 +430,7 @@ fn write_call<W: Write>(
             write_unop(out, &params[0], unop, verbose)
         }
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+        write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
-- 
2.43.0


From b203b3fc5b9fdca55a151cd12c5d8370c7ec2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 13/33] fix: print 64-bit unsigned constants with their own
 suffix

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 4d0dd4c..b63c14a 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -264,7 +264,7 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
             Constant::F32(lit) => write!(out, "{:.2}", lit)?,
             Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
             Constant::Bool(true) => write!(out, "true")?,
-- 
2.43.0


From 27340b9861a587941f59484cf0632003f1ba6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 14/33] fix: print floating point constants without losing
 precision

---
 decompiler/src/print.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index b63c14a..bbc116b 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -265,8 +265,14 @@ fn write_expr_nested<W: Write>(
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
             Constant::U64(lit) => write!(out, "{}ul", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::F32(lit) => match format!("{:.2}", lit) {
+                rounded if rounded.parse() == Ok(*lit) => write!(out, "{}", rounded)?,
+                _ => write!(out, "{}", lit)?,
+            },
+            Constant::F64(lit) => match format!("{:.2}", lit) {
+                rounded if rounded.parse() == Ok(*lit) => write!(out, "{}d", rounded)?,
+                _ => write!(out, "{}d", lit)?,
+            },
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
-- 
2.43.0


From 2c440f95f18b57184a8c298e85e1370217a70675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:01 +0000
Subject: [PATCH 15/33] fix: report a backward JumpIfFalse as an error instead
 of panicking or looping

---
 decompiler/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 3ac9b9c..e4eedac 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -143,6 +143,9 @@ impl<'a> Decompiler<'a> {
     ) -> Result<Expr<SourceAst>, Error> {
         let condition = self.consume()?;
         let target = offset.absolute(position);
+        if target < self.code.pos() {
+            return Err(Error::DecompileError("JumpIfFalse jumps backwards"));
+        }
 
         let is_loop = self
             .code
@@ -298,7 +301,6 @@ impl<'a> Decompiler<'a> {
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
             Instr::JumpIfFalse(offset) => {
-                assert!(offset.value >= 0, "negative offset is not supported for JumpIfFalse");
                 self.consume_conditional_jump(position, offset, block)?
             }
             Instr::Skip(offset) => Expr::Goto(Target::new(offset.absolute(position)), Span::ZERO),
-- 
2.43.0


From 2fd19b1da8a4ed06b9a6f405e7c5d781098f1291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:01 +0000
Subject: [PATCH 16/33] fix: report switches with backward jumps as errors
 instead of looping forever

---
 decompiler/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index e4eedac..04c529e 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -173,12 +173,18 @@ impl<'a> Decompiler<'a> {
     fn consume_switch(&mut self, start: Location) -> Result<Expr<SourceAst>, Error> {
         let subject = self.consume()?;
 
+        if start < self.code.pos() {
+            return Err(Error::DecompileError("Switch jumps backwards"));
+        }
         self.code.seek_abs(start)?;
         let mut labels = Vec::new();
         while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.peek_in_block() {
             let position = self.code.pos();
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
+            if self.code.pos() <= position {
+                return Err(Error::DecompileError("SwitchLabel jumps backwards"));
+            }
         }
         // without a default case the switch ends where the last label points
         let mut block = Some(BlockContext::new_switch(self.code.pos()));
@@ -207,6 +213,9 @@ impl<'a> Decompiler<'a> {
                         }
                     }
 
+                    if start_position < self.code.pos() {
+                        return Err(Error::DecompileError("SwitchLabel jumps backwards"));
+                    }
                     self.code.seek_abs(start_position)?;
                     let mut body = self.consume_block(exit, block)?;
 
-- 
2.43.0


From 4c9beb0af81d1b065c8868677e181e588501420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:01 +0000
Subject: [PATCH 17/33] fix: print operator calls with an unexpected number of
 arguments as plain calls

---
 decompiler/src/print.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index bbc116b..3b10e0c 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -409,7 +409,7 @@ fn write_call<W: Write>(
 ) -> Result<(), Error> {
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
-    if let Ok(binop) = BinOp::from_str(fun_name) {
+    if let (Ok(binop), [lhs, rhs]) = (BinOp::from_str(fun_name), params) {
         if parent_op
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
@@ -420,20 +420,20 @@ fn write_call<W: Write>(
             .is_some()
         {
             write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
+            write_binop(out, lhs, rhs, binop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
+            write_binop(out, lhs, rhs, binop, verbose)
         }
-    } else if let Ok(unop) = UnOp::from_str(fun_name) {
+    } else if let (Ok(unop), [param]) = (UnOp::from_str(fun_name), params) {
         if let Some(ParentOp::Dot) = parent_op {
             write!(out, "(")?;
-            write_unop(out, &params[0], unop, verbose)?;
+            write_unop(out, param, unop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_unop(out, &params[0], unop, verbose)
+            write_unop(out, param, unop, verbose)
         }
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
         write_expr_nested(out, &params[0], parent_op, verbose, 0)
-- 
2.43.0


From 8a19cabfa51a19460cecaabccb83c46d94e0e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 18/33] fix: report malformed definitions as errors instead of
 panicking when printing them

---
 decompiler/src/print.rs | 50 ++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 3b10e0c..d98e6eb 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -11,6 +11,7 @@ use crate::Decompiler;
 
 const INDENT_CHAR: char = ' ';
 const INDENT_SIZE: usize = 2;
+const MAX_TYPE_DEPTH: usize = 64;
 
 #[derive(Debug, Clone, Copy)]
 pub enum OutputMode {
@@ -61,11 +62,13 @@ pub fn write_definition<W: Write>(
             writeln!(out, "{{")?;
 
             for field_index in &class.fields {
+                pool.field(*field_index)?;
                 let field = pool.definition(*field_index)?;
                 write_definition(out, field, pool, depth + 1, mode)?;
             }
 
             for method_index in &class.functions {
+                pool.function(*method_index)?;
                 let method = pool.definition(*method_index)?;
                 if let Err(err) = write_definition(out, method, pool, depth + 1, mode) {
                     log::error!("Method decompilation {} failed (caused by {})", method_index, err);
@@ -83,16 +86,17 @@ pub fn write_definition<W: Write>(
             writeln!(out, "enum {} {{", pool.names.get(definition.name)?)?;
 
             for member in &enum_.members {
+                pool.enum_value(*member)?;
                 write_definition(out, pool.definition(*member)?, pool, depth + 1, mode)?;
             }
 
             writeln!(out, "}}")?;
         }
         AnyDefinition::Function(fun) => {
-            let return_type = fun.return_type.map_or_else(
-                || "Void".to_owned(),
-                |idx| format_type(pool.definition(idx).unwrap(), pool).unwrap(),
-            );
+            let return_type = match fun.return_type {
+                Some(idx) => format_type(pool.definition(idx)?, pool)?,
+                None => "Void".to_owned(),
+            };
 
             let name = pool.names.get(definition.name)?;
             let pretty_name = name.split(';').next().expect("Function with empty name");
@@ -100,8 +104,9 @@ pub fn write_definition<W: Write>(
             let params = fun
                 .parameters
                 .iter()
-                .map(|param| format_param(pool.definition(*param).unwrap(), pool).unwrap())
-                .format(", ");
+                .map(|param| format_param(pool.definition(*param)?, pool))
+                .collect::<Result<Vec<_>, _>>()?
+                .join(", ");
 
             writeln!(out)?;
             write_indent(out, depth)?;
@@ -185,7 +190,7 @@ pub fn write_definition<W: Write>(
             }
             writeln!(out, "let {}: {};", field_name, type_name)?;
         }
-        AnyDefinition::SourceFile(_) => panic!(),
+        AnyDefinition::SourceFile(_) => return Err(Error::DecompileError("Unexpected source file definition")),
     }
     Ok(())
 }
@@ -213,6 +218,7 @@ fn write_function_body<W: Write>(
         }
         OutputMode::Bytecode => {
             for local in &fun.locals {
+                pool.local(*local)?;
                 write_definition(out, pool.definition(*local)?, pool, depth + 1, mode)?;
                 writeln!(out)?;
             }
@@ -484,7 +490,10 @@ fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose:
 }
 
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let param = def.value.as_parameter().expect("Expected a param definition");
+    let param = def
+        .value
+        .as_parameter()
+        .ok_or(Error::DecompileError("Expected a param definition"))?;
     let type_name = format_type(pool.definition(param.type_)?, pool)?;
     let name = pool.names.get(def.name)?;
     let out = if param.flags.is_out() { "out " } else { "" };
@@ -494,16 +503,27 @@ fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error>
 }
 
 fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let type_ = def.value.as_type().expect("Expected a type definition");
+    format_nested_type(def, pool, MAX_TYPE_DEPTH)
+}
+
+fn format_nested_type(def: &Definition, pool: &ConstantPool, depth: usize) -> Result<String, Error> {
+    let type_ = def
+        .value
+        .as_type()
+        .ok_or(Error::DecompileError("Expected a type definition"))?;
+    let depth = depth
+        .checked_sub(1)
+        .ok_or(Error::DecompileError("Type is nested too deep"))?;
+    let nested = |idx| format_nested_type(pool.definition(idx)?, pool, depth);
     let result = match type_ {
         Type::Prim | Type::Class => pool.names.get(def.name)?.to_string(),
-        Type::Ref(nested) => format!("ref<{}>", format_type(pool.definition(*nested)?, pool)?),
-        Type::WeakRef(nested) => format!("wref<{}>", format_type(pool.definition(*nested)?, pool)?),
-        Type::Array(nested) => format!("array<{}>", format_type(pool.definition(*nested)?, pool)?),
-        Type::StaticArray(nested, size) => {
-            format!("array<{}; {size}>", format_type(pool.definition(*nested)?, pool)?)
+        Type::Ref(inner) => format!("ref<{}>", nested(*inner)?),
+        Type::WeakRef(inner) => format!("wref<{}>", nested(*inner)?),
+        Type::Array(inner) => format!("array<{}>", nested(*inner)?),
+        Type::StaticArray(inner, size) => {
+            format!("array<{}; {size}>", nested(*inner)?)
         }
-        Type::ScriptRef(nested) => format!("script_ref<{}>", format_type(pool.definition(*nested)?, pool)?),
+        Type::ScriptRef(inner) => format!("script_ref<{}>", nested(*inner)?),
     };
     Ok(result)
 }
-- 
2.43.0


From cc8071cb3323d2b8db553ef28867bd3b1158cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 19/33] fix: skip references to missing source files when
 indexing definitions

---
 decompiler/src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/files.rs b/decompiler/src/files.rs
index 459361f..86cf161 100644
--- a/decompiler/src/files.rs
+++ b/decompiler/src/files.rs
@@ -32,7 +32,7 @@ impl<'a> FileIndex<'a> {
 
     pub fn iter(&'a self) -> impl Iterator<Item = FileEntry<'a>> {
         let source_files = self.file_map.iter().filter_map(move |(idx, children)| {
-            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).unwrap().value {
+            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).ok()?.value {
                 let definitions = children
                     .iter()
                     .filter_map(|child| self.pool.definition(*child).ok())
-- 
2.43.0


From dc328c9376381deb4058ced12463909bcd1f1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:27 +0000
Subject: [PATCH 20/33] fix: report functions larger than the address range
 instead of overflowing

---
 core/src/bytecode.rs    | 13 ++++++++++---
 decompiler/src/lib.rs   |  3 +++
 decompiler/src/print.rs |  3 +++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index f259c01..dec145f 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -1041,6 +1041,12 @@ impl<Loc: Clone> Code<Loc> {
         self.0.len()
     }
 
+    /// whether every instruction has a location that jumps can refer to
+    pub fn is_addressable(&self) -> bool {
+        let size: usize = self.0.iter().map(|instr| usize::from(instr.size())).sum();
+        size < usize::from(Location::MAX.value)
+    }
+
     #[inline]
     pub fn cursor(&self) -> CodeCursor<'_, Loc> {
         CodeCursor::new(&self.0)
@@ -1174,9 +1180,10 @@ pub struct CodeCursor<'a, Loc> {
 impl<'a, Loc: Clone> CodeCursor<'a, Loc> {
     pub fn new(code: &'a [Instr<Loc>]) -> Self {
         let mut offsets = Vec::with_capacity(code.len());
-        let mut size = 0;
+        let mut size = 0u16;
         for instr in code {
-            size += instr.size();
+            // instructions beyond the last location are not addressable
+            size = size.saturating_add(instr.size());
             offsets.push(size);
         }
 
@@ -1264,7 +1271,7 @@ impl<'a, Loc: Clone> Iterator for CodeIter<'a, Loc> {
         if let [head, tail @ ..] = self.slice {
             let location = Location::new(self.offset);
             self.slice = tail;
-            self.offset += head.size();
+            self.offset = self.offset.saturating_add(head.size());
             Some((location, head.clone()))
         } else {
             None
diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 04c529e..c85462e 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -36,6 +36,9 @@ impl<'a> Decompiler<'a> {
             locals.insert(name, type_);
         }
 
+        if !function.code.is_addressable() {
+            return Err(Error::DecompileError("Function is too large"));
+        }
         let mut decompiler = Decompiler::new(function.code.cursor(), def, pool);
         let body = decompiler.decompile()?;
         merge_declarations(locals, body)
diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index d98e6eb..f3dd4a6 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -217,6 +217,9 @@ fn write_function_body<W: Write>(
             }
         }
         OutputMode::Bytecode => {
+            if !fun.code.is_addressable() {
+                return Err(Error::DecompileError("Function is too large"));
+            }
             for local in &fun.locals {
                 pool.local(*local)?;
                 write_definition(out, pool.definition(*local)?, pool, depth + 1, mode)?;
-- 
2.43.0


From 35b07dbb2bca4aca071882aa167d1da4aa517547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:28 +0000
Subject: [PATCH 21/33] fix: escape runtime property strings when printing
 fields

---
 decompiler/src/print.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index f3dd4a6..018147f 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -160,7 +160,9 @@ pub fn write_definition<W: Write>(
             writeln!(out)?;
             for property in &field.attributes {
                 write_indent(out, depth)?;
-                writeln!(out, "@runtimeProperty(\"{}\", \"{}\")", property.name, property.value)?;
+                let name = str::escape_default(&property.name);
+                let value = str::escape_default(&property.value);
+                writeln!(out, "@runtimeProperty(\"{}\", \"{}\")", name, value)?;
             }
 
             for property in &field.defaults {
-- 
2.43.0


From b299e8fca9fb0e65cdb7790b23b8f380837928f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:21 +0000
Subject: [PATCH 22/33] fix: give the jump label of trailing empty switch cases
 a location

---
 compiler/src/assembler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 27f24de..fd72cbd 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -171,6 +171,7 @@ impl<'a> Assembler<'a> {
                 let mut case_iter = cases.into_iter().peekable();
                 while case_iter.peek().is_some() {
                     let body_label = self.new_label();
+                    let mut has_body = false;
 
                     for case in &mut case_iter {
                         self.emit_label(next_case_label);
@@ -181,9 +182,14 @@ impl<'a> Assembler<'a> {
                         if !case.body.exprs.iter().all(Expr::is_empty) {
                             self.emit_label(body_label);
                             self.assemble_seq(case.body, scope, pool, Some(exit_label))?;
+                            has_body = true;
                             break;
                         }
                     }
+                    // the last cases can all be empty, their label still needs a location
+                    if !has_body {
+                        self.emit_label(body_label);
+                    }
                 }
                 self.emit_label(next_case_label);
 
-- 
2.43.0


From 71fd0bec48447e6fd4e1e3e2dac054dd0d36de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 23/33] fix: evaluate array literals of a while condition on
 every iteration

---
 compiler/src/sugar.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/src/sugar.rs b/compiler/src/sugar.rs
index 761522b..da489da 100644
--- a/compiler/src/sugar.rs
+++ b/compiler/src/sugar.rs
@@ -215,6 +215,20 @@ impl<'a> ExprTransformer<TypedAst> for Desugar<'a> {
         Ok(Expr::While(Box::new(condition), Seq::new(body), span))
     }
 
+    fn on_while(&mut self, cond: TypedExpr, body: Seq<TypedAst>, span: Span) -> Result<TypedExpr, Error> {
+        let body = self.on_seq(body)?;
+        let cond = self.on_expr(cond)?;
+        if self.prefix_exprs.is_empty() {
+            return Ok(Expr::While(Box::new(cond), body, span));
+        }
+        // the condition needs extra statements, they have to run again on every iteration
+        let mut exprs = std::mem::take(&mut self.prefix_exprs);
+        let exit = Seq::new(vec![Expr::Break(span)]);
+        exprs.push(Expr::If(Box::new(cond), body, Some(exit), span));
+        let always = Expr::Constant(Constant::Bool(true), span);
+        Ok(Expr::While(Box::new(always), Seq::new(exprs), span))
+    }
+
     fn on_seq(&mut self, seq: Seq<TypedAst>) -> Result<Seq<TypedAst>, Error> {
         let mut processed = Vec::with_capacity(seq.exprs.len());
         for expr in seq.exprs {
-- 
2.43.0


From 219ae20bc0687ee08930a683194786033e86421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 24/33] fix: keep statements generated for a case matcher out
 of the case bodies

---
 compiler/src/transform.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/src/transform.rs b/compiler/src/transform.rs
index cbba91a..d91378d 100644
--- a/compiler/src/transform.rs
+++ b/compiler/src/transform.rs
@@ -131,13 +131,17 @@ where
         default: Option<Seq<N>>,
         pos: Span,
     ) -> Result<Expr<N>, Error> {
-        let mut processed = Vec::with_capacity(cases.len());
+        // all bodies come first, statements generated for a matcher must not end up in a body
+        let mut bodies = Vec::with_capacity(cases.len());
         for case in cases {
-            let body = self.on_seq(case.body)?;
-            let matcher = self.on_expr(case.matcher)?;
-            processed.push(SwitchCase { matcher, body });
+            bodies.push((case.matcher, self.on_seq(case.body)?));
         }
         let default = default.map_or_else(|| Ok(None), |expr| self.on_seq(expr).map(Some))?;
+        let mut processed = Vec::with_capacity(bodies.len());
+        for (matcher, body) in bodies {
+            let matcher = self.on_expr(matcher)?;
+            processed.push(SwitchCase { matcher, body });
+        }
         let matched = self.on_expr(matched)?;
         Ok(Expr::Switch(Box::new(matched), processed, default, pos))
     }
-- 
2.43.0


From 6024536b3d9ecce106a12d97308492894b89bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 25/33] fix: report cyclic inheritance instead of looping
 forever

---
 compiler/src/unit.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 94976ab..fef72a2 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -509,7 +509,12 @@ impl<'a> CompilationUnit<'a> {
             PoolIndex::UNDEFINED
         } else if let Some(base_name) = source.base {
             if let Ok(Symbol::Class(base_idx, _)) = scope.resolve_symbol(base_name.clone()) {
-                base_idx
+                if self.is_subclass(base_idx, class_idx) {
+                    self.report(Cause::UnsupportedFeature("cyclic inheritance").with_span(source.span))?;
+                    PoolIndex::UNDEFINED
+                } else {
+                    base_idx
+                }
             } else {
                 self.report(Cause::ClassNotFound(base_name).with_span(source.span))?;
                 PoolIndex::UNDEFINED
@@ -518,7 +523,12 @@ impl<'a> CompilationUnit<'a> {
             .resolve_symbol(Ident::from_static("IScriptable"))
             .with_span(source.span)
         {
-            class
+            if self.is_subclass(class, class_idx) {
+                // the root class has no base
+                PoolIndex::UNDEFINED
+            } else {
+                class
+            }
         } else {
             log::warn!("No IScriptable in scope, defaulting to no implicit base class");
             PoolIndex::UNDEFINED
@@ -539,6 +549,16 @@ impl<'a> CompilationUnit<'a> {
         Ok(())
     }
 
+    fn is_subclass(&self, mut class_idx: PoolIndex<Class>, base_idx: PoolIndex<Class>) -> bool {
+        while class_idx != base_idx {
+            match self.pool.class(class_idx) {
+                Ok(class) => class_idx = class.base,
+                Err(_) => return false,
+            }
+        }
+        true
+    }
+
     fn define_function(&mut self, spec: FunctionSpec, scope: &mut Scope) -> Result<(), Error> {
         let decl = &spec.source.declaration;
         let is_native = !spec.is_replacement && decl.qualifiers.contain(Qualifier::Native);
-- 
2.43.0


From 1d18284ba2665921a314d63e831353ea83dbc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 26/33] fix: report types without a definition instead of
 panicking

---
 compiler/src/scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 0e47324..1cd1618 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -209,7 +209,7 @@ impl Scope {
                 TypeId::Array(inner) => Type::Array(self.get_type_index(inner, pool)?),
                 TypeId::StaticArray(inner, size) => Type::StaticArray(self.get_type_index(inner, pool)?, *size),
                 TypeId::ScriptRef(inner) => Type::ScriptRef(self.get_type_index(inner, pool)?),
-                TypeId::Null | TypeId::Void => panic!(),
+                TypeId::Null | TypeId::Void => return Err(Cause::UnresolvedType(name)),
             };
             let type_idx = pool.add_definition(Definition::type_(name_idx, value));
             self.add_type(name, type_idx);
-- 
2.43.0


From 97a034e979501c6d25b06084b636de50525dfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 27/33] fix: report errors of class members instead of
 abandoning the class

---
 compiler/src/unit.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index fef72a2..2f20063 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -460,7 +460,9 @@ impl<'a> CompilationUnit<'a> {
         for member in source.members {
             match member {
                 MemberSource::Function(fun) => {
-                    if !eval_conditions(ctx, &fun.declaration.annotations)? {
+                    if !eval_conditions(ctx, &fun.declaration.annotations)
+                        .or_else(|err| self.report(err).map(|()| false))?
+                    {
                         continue;
                     }
 
@@ -488,19 +490,25 @@ impl<'a> CompilationUnit<'a> {
                         source: fun,
                     };
 
-                    self.define_function(spec, scope)?;
-                    functions.push(fun_idx);
+                    match self.define_function(spec, scope) {
+                        Ok(()) => functions.push(fun_idx),
+                        Err(err) => self.report(err)?,
+                    }
                 }
                 MemberSource::Field(let_) => {
-                    if !eval_conditions(ctx, &let_.declaration.annotations)? {
+                    if !eval_conditions(ctx, &let_.declaration.annotations)
+                        .or_else(|err| self.report(err).map(|()| false))?
+                    {
                         continue;
                     }
 
                     let name_idx = self.pool.names.add(let_.declaration.name.to_heap());
                     let field_idx = self.pool.stub_definition(name_idx);
 
-                    self.define_field(field_idx, class_idx, flags, visibility, let_, scope)?;
-                    fields.push(field_idx);
+                    match self.define_field(field_idx, class_idx, flags, visibility, let_, scope) {
+                        Ok(()) => fields.push(field_idx),
+                        Err(err) => self.report(err)?,
+                    }
                 }
             }
         }
-- 
2.43.0


From 652c10f63667944d97c64f78a316089df0e7a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 28/33] fix: reject unicode escapes that are not code points
 instead of panicking

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index 4453419..c9bea0b 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -235,8 +235,8 @@ peg::parser! {
             / r"\'" { '\'' }
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
-            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {
-                char::from_u32(u32::from_str_radix(u, 16).unwrap()).unwrap()
+            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
+                u32::from_str_radix(u, 16).ok().and_then(char::from_u32).ok_or("valid unicode code point")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From db5f05db2432dce1fcab2abf3e7a38351354fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 29/33] fix: allow white space before a comma

---
 compiler/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index c9bea0b..6abff73 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -165,7 +165,7 @@ peg::parser! {
 
         rule pos() -> Pos = pos:position!() { offset + pos }
         rule _() = quiet!{ ([' ' | '\n' | '\r' | '\t'] / comment() / line_comment())* }
-        rule commasep<T>(x: rule<T>) -> Vec<T> = v:(x() ** ("," _)) {v}
+        rule commasep<T>(x: rule<T>) -> Vec<T> = v:(x() ** (_ "," _)) {v}
         rule dotsep<T>(x: rule<T>) -> Vec<T> = v:(x() ** ("." _)) {v}
 
         rule comment_start() = "/*"
-- 
2.43.0


From f6f386bf6cb6f6907fb2b6ee71c05ecedac958c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:05 +0000
Subject: [PATCH 30/33] fix: command lines with two quoted paths ending with a
 backslash

---
 scc/cli/src/opts.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc/cli/src/opts.rs b/scc/cli/src/opts.rs
index 58c6cb5..e01c039 100644
--- a/scc/cli/src/opts.rs
+++ b/scc/cli/src/opts.rs
@@ -9,7 +9,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
 
     // when cyberpunk's args are processed, the \" messes up the grouping, so we need to fix the args that have quotes & spaces in them
     for arg in args {
-        let contains_quote = arg.contains('"');
+        let arg_quotes = arg.matches('"').count();
+        let contains_quote = arg_quotes > 0;
         if !contains_quote && !broken {
             fixed_args.push(arg);
         } else if !broken {
@@ -39,7 +40,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
                 *last = format!("{} {}", last, broken_arg);
             }
         }
-        if contains_quote {
+        // an argument with two escaped quotes ends outside of them again
+        if arg_quotes % 2 == 1 {
             broken = !broken;
         }
     }
-- 
2.43.0


From 7bc668fd0983e31472096d7e2f2c39b836aa003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 31/33] fix: report errors of the last write when saving a
 bundle

---
 core/src/bundle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index 1b8dc33..41e887e 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -34,7 +34,7 @@ impl ScriptBundle {
 
         output.seek(io::SeekFrom::Start(0))?;
         output.encode(&header)?;
-        Ok(())
+        output.flush()
     }
 }
 
-- 
2.43.0


From 469efe46aa1d95cd99d2a1e5a9449bc68c8e427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 32/33] fix: notice an update of the game after a failed
 compilation

---
 scc/lib/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59f2f8c..a032061 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -138,6 +138,7 @@ fn try_compile_files(
     let saved_timestamp =
         CompileTimestamp::read(&mut *ts_file).context("Failed to read the existing timestamp file")?;
 
+    let mut is_cache_copied = false;
     let input_cache_path = if is_output_file_separate {
         match saved_timestamp {
             saved_timestamp if saved_timestamp != Some(write_timestamp) && backup_path.exists() => {
@@ -162,6 +163,7 @@ fn try_compile_files(
                     backup_path.display()
                 );
                 fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                is_cache_copied = true;
             }
             Some(_) if !backup_path.exists() => {
                 return Err(anyhow::anyhow!(
@@ -228,6 +230,11 @@ fn try_compile_files(
             Ok(SccResult::Success(Box::new(output)))
         }
         Err(err) => {
+            // the cache remains as it was copied, without this an update of it would go unnoticed
+            if is_cache_copied {
+                write_timestamp.write(&mut *ts_file)?;
+            }
+
             let hints = UserHints::load(r6_dir.join("config").join(USER_HINTS_DIR)).unwrap_or_else(|err| {
                 log::error!("Failed to parse one of the user hints TOML files: {}", err);
                 UserHints::default()
-- 
2.43.0


From 4cb0926d878e345e3de7b0128b3b96d6b05c9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:16 +0000
Subject: [PATCH 33/33] fix: keep an interrupted copy of the scripts from
 passing as the backup

---
 scc/lib/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index a032061..a79027d 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -27,6 +27,7 @@ const BACKUP_FILE_NAME: &str = "final.redscripts.bk";
 const LEGACY_TIMESTAMP_FILE_NAME: &str = "redscript.ts";
 
 const BACKUP_FILE_EXT: &str = "redscripts.bk";
+const BACKUP_COPY_FILE_EXT: &str = "redscripts.bk.tmp";
 const TIMESTAMP_FILE_EXT: &str = "redscripts.ts";
 
 const USER_HINTS_DIR: &str = "redsUserHints";
@@ -162,7 +163,10 @@ fn try_compile_files(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
-                fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                // an interrupted copy should not be mistaken for the backup
+                let copy_path = cache_path.with_extension(BACKUP_COPY_FILE_EXT);
+                fs::copy(cache_path, &copy_path).context("Failed to copy the cache file")?;
+                fs::rename(&copy_path, &backup_path).context("Failed to rename the copy of the cache file")?;
                 is_cache_copied = true;
             }
             Some(_) if !backup_path.exists() => {
-- 
2.43.0

