From e1cbd99d4d338b36ff1b1faef90e902f1a007999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 01/49] fix: bits-mode reads must not run past the end of a
 slice or the buffer

A bits-mode offset within the byte that follows a byte-aligned limit is
incomparable with that limit under ByteOffset's partial order, so up to
seven bits past the end of a slice could be consumed.
---
 src/parser/mod.rs    |  2 +-
 src/parser/offset.rs | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..a6d241a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -221,7 +221,7 @@ impl<'a> Parser<'a> {
         let _current_offset = self.offset.get_current_offset();
         let end = _current_offset.increment_by(size);
         let current_limit = self.offset.current_limit();
-        if end > current_limit {
+        if end.exceeds(&current_limit) {
             return Err(ParseError::InternalError(StateError::UnstackableSlices {
                 current_offset: _current_offset,
                 current_limit,
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..f5d2f94 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -140,6 +140,14 @@ impl ByteOffset {
         }
     }
 
+    /// Returns `true` if `self` lies strictly past `limit`, regardless of the mode (bits or bytes) of either.
+    ///
+    /// Unlike the partial order on `ByteOffset`, this is decisive when a bits-mode offset
+    /// falls within the byte immediately following a byte-aligned limit.
+    pub(crate) fn exceeds(&self, limit: &Self) -> bool {
+        self.abs_bit_offset() > limit.abs_bit_offset()
+    }
+
     pub(crate) fn bits_advanced(&self) -> Option<usize> {
         match self {
             ByteOffset::Bytes(_n) => None,
@@ -462,7 +470,7 @@ impl BufferOffset {
 
         match slice_limit {
             Some(max_offset) => {
-                if after_increment > max_offset {
+                if after_increment.exceeds(&max_offset) {
                     return Err(ParseError::Overrun(OverrunKind::EndOfSlice {
                         offset: after_increment,
                         max_offset,
@@ -470,7 +478,7 @@ impl BufferOffset {
                 }
             }
             None => {
-                if after_increment > self.max_offset {
+                if after_increment.exceeds(&self.max_offset) {
                     return Err(ParseError::Overrun(OverrunKind::EndOfStream {
                         offset: after_increment,
                         max_offset: self.max_offset,
@@ -554,7 +562,7 @@ impl BufferOffset {
         std::mem::swap(&mut stack, &mut self.view_stack);
         match stack.escape() {
             (stack, Some(Lens::Slice { endpoint })) => {
-                if self.current_offset > endpoint {
+                if self.current_offset.exceeds(&endpoint) {
                     return Err(ParseError::InternalError(StateError::SliceOverrun));
                 }
                 self.current_offset = endpoint;
-- 
2.43.0


From 810d7cc0b88009a283dae27b1ab67cb643925beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 02/49] fix: skip_remainder must not leave bits-mode

Replacing the offset with a byte-aligned limit silently switched the parser
out of bits-mode, so that the matching escape_bits_mode failed.
---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a6d241a..aea7904 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,9 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        // NOTE - the limit may have been set in a different mode (bits or bytes), and we must remain in the current one
+        let current_offset = self.offset.get_current_offset();
+        let after_skip = current_offset.increment_by(self.remaining());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From 7c3b240469212b5cbe9efed7cd2d0192d0cd1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 03/49] fix: look-ahead through a repeated nullable format must
 terminate

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..6ff041e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1664,7 +1664,16 @@ impl<'a> MatchTreeStep<'a> {
             }
             Next::Repeat(a, next0) => {
                 let tree = MatchTreeStep::<'a>::from_next(module, next0.clone());
-                let next1 = next.clone();
+                let is_nullable = match a {
+                    MaybeTyped::Untyped(f) => f.is_nullable(module),
+                    MaybeTyped::Typed(tf) => tf.is_nullable(),
+                };
+                // NOTE - repeating a nullable format would otherwise recurse forever without consuming any input
+                let next1 = if is_nullable {
+                    Rc::new(Next::Empty)
+                } else {
+                    next.clone()
+                };
                 tree.union(MatchTreeStep::<'a>::from_mt_format(module, *a, next1))
             }
             Next::RepeatBetween(n, m, a, next0) => {
-- 
2.43.0


From 728b5959baab1da1d0e504a6dc3bee7a3d06564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 04/49] fix: decide RepeatBetween against the current input

---
 src/codegen/typed_decoder.rs |  4 ++--
 src/decoder.rs               | 27 +++++++++++++++------------
 src/lib.rs                   |  6 ++++--
 src/loc_decoder.rs           | 21 ++++++++++++---------
 4 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index 2e00831..f141751 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -543,10 +543,10 @@ impl<'a> GTCompiler<'a> {
             TypedFormat::RepeatBetween(gt, min_expr, max_expr, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
                 let Some(min) = min_expr.bounds().as_exact() else {
-                    unimplemented!("RepeatBetween on inexact bounds-expr")
+                    return Err(anyhow!("RepeatBetween on inexact bounds-expr: {min_expr:?}"));
                 };
                 let Some(max) = max_expr.bounds().as_exact() else {
-                    unimplemented!("RepeatBetween on inexact bounds-expr")
+                    return Err(anyhow!("RepeatBetween on inexact bounds-expr: {max_expr:?}"));
                 };
 
                 let da = self.compile_gt_format(
diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..dc1a226 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -740,10 +740,10 @@ impl<'a> Compiler<'a> {
             Format::RepeatBetween(xmin, xmax, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
                 let Some(min) = xmin.bounds().as_exact() else {
-                    unimplemented!("RepeatBetween on inexact bounds-expr")
+                    return Err(anyhow!("RepeatBetween on inexact bounds-expr: {xmin:?}"));
                 };
                 let Some(max) = xmax.bounds().as_exact() else {
-                    unimplemented!("RepeatBetween on inexact bounds-expr")
+                    return Err(anyhow!("RepeatBetween on inexact bounds-expr: {xmax:?}"));
                 };
 
                 let da = self.compile_format(
@@ -765,7 +765,7 @@ impl<'a> Compiler<'a> {
                         branches.push(f_count);
                     }
                     let Some(tree) = MatchTree::build(self.module, &branches[..], next) else {
-                        panic!("cannot build match tree for {format:?}")
+                        return Err(anyhow!("cannot build match tree for {:?}", format));
                     };
                     tree
                 };
@@ -1389,18 +1389,21 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
-                        DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        }
-                        .with_trace(v.len()),
-                    )? == 0
-                        || v.len() == max
+                    if v.len() == max
+                        || reps_left_tree.matches(*input).ok_or(
+                            DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()),
+                        )? == 0
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()));
                         }
                         break;
                     }
diff --git a/src/lib.rs b/src/lib.rs
index 6ff041e..d422db8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1680,8 +1680,10 @@ impl<'a> MatchTreeStep<'a> {
                 let min = *n;
                 let max = *m;
                 if min == max {
-                    // FIXME - this is technically allowable but we don't expect to get here...
-                    unreachable!("RepeatBetween(x, y, ..) precludes x == y");
+                    return Self::from_next(
+                        module,
+                        Rc::new(Next::RepeatCount(min, *a, next0.clone())),
+                    );
                 }
                 if min > 0 {
                     Self::from_mt_format(
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..9f18526 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,18 +1571,21 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree
-                        .matches(input)
-                        .ok_or(DecodeErrorKind::NoValidBranch {
-                            offset: input.offset,
-                        })?
-                        == 0
-                        || v.len() == max
+                    if v.len() == max
+                        || reps_left_tree
+                            .matches(*input)
+                            .ok_or(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            })?
+                            == 0
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .into());
                         }
                         break;
                     }
-- 
2.43.0


From 46c9a80d340527315d48dbe19a44e35c9f64fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:07 +0000
Subject: [PATCH 05/49] fix: patterns must see through wrappers of nested
 components

---
 src/decoder/value.rs | 10 ++++++----
 src/loc_decoder.rs   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..ca47aa0 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -236,7 +236,7 @@ impl Value {
             Pattern::Tuple(ps) => match self {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -247,7 +247,7 @@ impl Value {
             Pattern::Seq(ps) => match self {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_nominal_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -256,12 +256,14 @@ impl Value {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                Value::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_nominal_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, Value::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                Value::Option(Some(v)) => v.matches_inner(scope, p),
+                Value::Option(Some(v)) => v.coerce_nominal_value().matches_inner(scope, p),
                 _ => false,
             },
         }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 9f18526..7f1e35d 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -397,7 +397,7 @@ impl ParsedValue {
             Pattern::Tuple(ps) => match self {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_mapped_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -408,7 +408,7 @@ impl ParsedValue {
             Pattern::Seq(ps) => match self {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
-                        if !v.matches_inner(scope, p) {
+                        if !v.coerce_mapped_value().matches_inner(scope, p) {
                             return false;
                         }
                     }
@@ -417,12 +417,14 @@ impl ParsedValue {
                 _ => false,
             },
             Pattern::Variant(label0, p) => match self {
-                ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
+                ParsedValue::Variant(label1, v) if label0 == label1 => {
+                    v.coerce_mapped_value().matches_inner(scope, p)
+                }
                 _ => false,
             },
             Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
             Pattern::Option(Some(p)) => match self {
-                ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
+                ParsedValue::Option(Some(v)) => v.coerce_mapped_value().matches_inner(scope, p),
                 _ => false,
             },
             Pattern::Int(bounds) => match self {
-- 
2.43.0


From 9c59863e2fbb376c1ec621be8e19b33a597b5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:07 +0000
Subject: [PATCH 06/49] fix: use the fallback value of Permit in expressions

---
 src/decoder/value.rs | 6 +++---
 src/loc_decoder.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index ca47aa0..46d37b1 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -300,12 +300,12 @@ impl Value {
     }
 
     /// Reduces any referenced `Value` to its underlying nominal value, by recursively unwrapping any
-    /// `Value::Branch`, `Value::Permit(Ok(..))`, `Value::Mapped` encompassing it.
+    /// `Value::Branch`, `Value::Permit` (with a value), `Value::Mapped` encompassing it.
     pub fn coerce_mapped_value(&self) -> &Self {
         match self {
             Value::Mapped(_orig, v) => v.coerce_mapped_value(),
             Value::Branch(_n, v) => v.coerce_mapped_value(),
-            Value::Permit(Ok(v)) => v.coerce_mapped_value(),
+            Value::Permit(Ok(v) | Err(Some(v))) => v.coerce_mapped_value(),
             v => v,
         }
     }
@@ -315,7 +315,7 @@ impl Value {
         match self {
             Value::Mapped(_orig, v) => v.extract_mapped_value(),
             Value::Branch(_n, v) => v.extract_mapped_value(),
-            Value::Permit(Ok(v)) => v.extract_mapped_value(),
+            Value::Permit(Ok(v) | Err(Some(v))) => v.extract_mapped_value(),
             v => v,
         }
     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 7f1e35d..aa932eb 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -485,7 +485,7 @@ impl ParsedValue {
         match self {
             ParsedValue::Mapped(_orig, v) => v.coerce_mapped_value(),
             ParsedValue::Branch(_n, v) => v.coerce_mapped_value(),
-            ParsedValue::Permit(Ok(v)) => v.coerce_mapped_value(),
+            ParsedValue::Permit(Ok(v) | Err(Some(v))) => v.coerce_mapped_value(),
             v => v,
         }
     }
-- 
2.43.0


From 799d2767171cd3652b50c7056fb6bfb481568dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:07 +0000
Subject: [PATCH 07/49] fix: accept character patterns in the type checker

---
 src/pattern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pattern.rs b/src/pattern.rs
index 4361339..9070ef9 100644
--- a/src/pattern.rs
+++ b/src/pattern.rs
@@ -65,6 +65,7 @@ impl Pattern {
             }
             (Pattern::Wildcard, _) => {}
             (Pattern::Bool(..), ValueType::Base(BaseType::Bool)) => {}
+            (Pattern::Char(..), ValueType::Base(BaseType::Char)) => {}
             (Pattern::U8(..), &ValueType::U8) => {}
             (Pattern::U16(..), &ValueType::U16) => {}
             (Pattern::U32(..), &ValueType::U32) => {}
@@ -115,6 +116,7 @@ impl Pattern {
             }
             (Pattern::Wildcard, _) => {}
             (Pattern::Bool(..), ValueTypeExt::Base(BaseType::Bool)) => {}
+            (Pattern::Char(..), ValueTypeExt::Base(BaseType::Char)) => {}
             (Pattern::U8(..), ValueTypeExt::Base(BaseType::U8)) => {}
             (Pattern::U16(..), ValueTypeExt::Base(BaseType::U16)) => {}
             (Pattern::U32(..), ValueTypeExt::Base(BaseType::U32)) => {}
-- 
2.43.0


From 3ffe992f6dd8248f3abdcb4ac6022d8885d9b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:37 +0000
Subject: [PATCH 08/49] fix: see through wrappers of element values in
 expressions

---
 src/decoder.rs       | 2 +-
 src/decoder/value.rs | 7 +++++--
 src/loc_decoder.rs   | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index dc1a226..8a67e21 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1760,7 +1760,7 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &Value) -> Vec<usize> {
-    let vs = match v {
+    let vs = match v.coerce_mapped_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 46d37b1..077f6ab 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -370,7 +370,7 @@ impl Value {
 
     /// Unwraps `Value::U8` and returns the contained value, or panics if the value is not `Value::U8`.
     pub(crate) fn get_as_u8(&self) -> u8 {
-        match self {
+        match self.coerce_mapped_value() {
             Value::U8(n) => *n,
             Value::U16(..) | Value::U32(..) | Value::U64(..) | Value::Usize(..) => panic!(
                 "value is numeric but not u8 (this may be a soft error, or even success, in future)"
@@ -382,7 +382,10 @@ impl Value {
 
     pub(crate) fn unwrap_tuple(self) -> Vec<Value> {
         match self {
-            Value::Tuple(values) => values,
+            Value::Tuple(values) => values
+                .into_iter()
+                .map(Value::extract_mapped_value)
+                .collect(),
             _ => panic!("value is not a tuple"),
         }
     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index aa932eb..e1830f0 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1977,7 +1977,7 @@ fn read_base(
 }
 
 fn value_to_vec_usize(v: &ParsedValue) -> Vec<usize> {
-    let vs = match v.clone_into_value() {
+    let vs = match v.coerce_mapped_value().clone_into_value() {
         Value::Seq(vs) => vs,
         _ => panic!("expected Seq"),
     };
-- 
2.43.0


From 6c639973eeb2d3dc1b4cd102f872cc8cd8ce262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:49 +0000
Subject: [PATCH 09/49] fix: a sub-sequence may reach the end of a range

---
 src/decoder/seq_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..4309ac4 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -54,7 +54,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
-- 
2.43.0


From 2581c54ac4634afd6ab05c0cea534a01c58d65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:49 +0000
Subject: [PATCH 10/49] fix: reject shift amounts that do not fit instead of
 truncating them

---
 src/decoder/value.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 077f6ab..4e9ddd4 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -421,7 +421,7 @@ where
     T: num_traits::CheckedRem,
     T: num_traits::CheckedShl,
     T: num_traits::CheckedShr,
-    T: num_traits::AsPrimitive<u32>,
+    T: num_traits::ToPrimitive,
     T: std::ops::BitOr<Output = T>,
     T: std::ops::BitAnd<Output = T>,
 {
@@ -441,8 +441,14 @@ where
         Arith::Rem => left
             .checked_rem(&right)
             .unwrap_or_else(|| panic!("integer overflow")),
-        Arith::Shl => left << right.as_(),
-        Arith::Shr => left >> right.as_(),
+        Arith::Shl => right
+            .to_u32()
+            .and_then(|n| left.checked_shl(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
+        Arith::Shr => right
+            .to_u32()
+            .and_then(|n| left.checked_shr(n))
+            .unwrap_or_else(|| panic!("integer overflow")),
         Arith::BitOr => left | right,
         Arith::BitAnd => left & right,
         Arith::BoolOr | Arith::BoolAnd => unreachable!("bool ops should be handled separately"),
-- 
2.43.0


From 4e322c643b87e9c9a40ab4a596ea13aec17adfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:49 +0000
Subject: [PATCH 11/49] fix: the locating decoder must accept records without
 fields

---
 src/loc_decoder.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index e1830f0..6b20139 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -473,10 +473,6 @@ impl ParsedValue {
     }
 
     fn collect_fields(fields: Vec<(Label, Self)>) -> Self {
-        assert!(
-            !fields.is_empty(),
-            "ParsedValue::record_from_entries found empty vector"
-        );
         let loc = ParseLoc::accum(fields.iter().map(|(_lab, fld)| fld.get_loc()));
         ParsedValue::Record(Parsed { loc, inner: fields })
     }
-- 
2.43.0


From 009196dbaf71e524ddb8ac23284ccfd0fab47383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:49 +0000
Subject: [PATCH 12/49] fix: span of a repeat-until-seq in the locating decoder

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 6b20139..62cb143 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1650,9 +1650,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From 7b2e85ee3cd68bbbacc7897b1c57fe7e0f26c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:29 +0000
Subject: [PATCH 13/49] fix: capturing more bytes than a view holds must be an
 error, not a panic

---
 generated/gencode.rs | 14 +++++++-------
 src/codegen/model.rs |  2 +-
 src/parser/view.rs   | 11 ++++++++---
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..a95c39b 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8877,7 +8877,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13775,7 +13775,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14261,7 +14261,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16409,7 +16409,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21056,7 +21056,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21088,7 +21088,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21122,7 +21122,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..2aaf336 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -244,7 +244,7 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
 
 /// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..da06cd9 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -24,9 +24,14 @@ impl<'a> View<'a> {
         }
     }
 
-    /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    /// Reads a slice of the first `len` bytes of the View, or returns an error if it is shorter than that.
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer
+            .get(..len)
+            .ok_or(DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            }))
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
-- 
2.43.0


From 14f43ac72e83dd390af0fe8a6a08953cd2593a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 14/49] fix: array lengths whose size in bytes overflows must
 be refused

---
 smallsorts/src/binary/read.rs | 6 +++---
 src/parser/view.rs            | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..77192e6 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.checked_mul(T::SIZE).ok_or(ParseError::BadEof)?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ParseError::BadEof)?)?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.checked_mul(stride).ok_or(ParseError::BadEof)?)?;
         Ok(ReadArray {
             scope,
             length,
diff --git a/src/parser/view.rs b/src/parser/view.rs
index da06cd9..bbc022e 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -60,7 +60,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
-- 
2.43.0


From c76bc61b92156cbfcd79c86d5213fae500e3e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 15/49] fix: items of a strided array lie a stride apart

---
 smallsorts/src/binary/read.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 77192e6..be9813b 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -657,9 +657,8 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
 
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
-            let size = T::size(self.args);
-            let offset = index * size;
-            let scope = self.scope.offset_length(offset, size).unwrap();
+            let offset = index * self.stride;
+            let scope = self.scope.offset_length(offset, self.stride).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
         } else {
-- 
2.43.0


From 81bed97c117957d729e9c8153dae0e1249a5f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 16/49] fix: an array iterator's size hint must shrink as it
 advances

---
 smallsorts/src/binary/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index be9813b..026e525 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -813,7 +813,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = (self.scope.data().len() / self.stride).saturating_sub(self.index);
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From dd66a05473e29dadc4625f0d00957bfa3222020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 17/49] fix: offsets past the end of a scope or view must not
 overflow

---
 smallsorts/src/binary/read.rs | 4 ++--
 src/parser/view.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 026e525..8068426 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -272,7 +272,7 @@ impl<'a> ReadScope<'a> {
     }
 
     pub fn offset(&self, offset: usize) -> ReadScope<'a> {
-        let base = self.base + offset;
+        let base = self.base.saturating_add(offset);
         let data = self.data.get(offset..).unwrap_or(&[]);
         ReadScope { base, data }
     }
@@ -281,7 +281,7 @@ impl<'a> ReadScope<'a> {
         if offset < self.data.len() || length == 0 {
             let data = self.data.get(offset..).unwrap_or(&[]);
             if length <= data.len() {
-                let base = self.base + offset;
+                let base = self.base.saturating_add(offset);
                 let data = &data[0..length];
                 Ok(ReadScope { base, data })
             } else {
diff --git a/src/parser/view.rs b/src/parser/view.rs
index bbc022e..6825f78 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -37,7 +37,7 @@ impl<'a> View<'a> {
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
-- 
2.43.0


From efb68a98714b12038447561850af9b68790aedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 18/49] fix: largest element of a byte set

---
 src/byte_set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/byte_set.rs b/src/byte_set.rs
index 7c1c47b..7174841 100644
--- a/src/byte_set.rs
+++ b/src/byte_set.rs
@@ -108,13 +108,13 @@ impl ByteSet {
         if let Some(i) = max_set_bit(self.bits[3]) {
             return Some(0xc0 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[2]) {
+        if let Some(i) = max_set_bit(self.bits[2]) {
             return Some(0x80 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[1]) {
+        if let Some(i) = max_set_bit(self.bits[1]) {
             return Some(0x40 + i);
         }
-        if let Some(i) = max_set_bit(!self.bits[0]) {
+        if let Some(i) = max_set_bit(self.bits[0]) {
             return Some(i);
         }
         None
-- 
2.43.0


From 09dc544e96ee34a717022beb4126b9c7513f6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:55 +0000
Subject: [PATCH 19/49] fix: text of a byte set with a long run reaching byte
 255

---
 src/byte_set/pretty_print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/byte_set/pretty_print.rs b/src/byte_set/pretty_print.rs
index 810b6c0..6246349 100644
--- a/src/byte_set/pretty_print.rs
+++ b/src/byte_set/pretty_print.rs
@@ -143,7 +143,7 @@ impl ByteSet {
         parts.into_iter().for_each(|(rank, mins)| {
             if rank >= THRESHOLD {
                 mins.into_iter().for_each(|lo| {
-                    tokens.push(format!("⟦{lo},{}⟧", lo + rank - 1));
+                    tokens.push(format!("⟦{lo},{}⟧", lo + (rank - 1)));
                 });
             } else {
                 for lo in mins {
-- 
2.43.0


From dfeecd38728eb7b2238be93a34e908ddc889cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 20/49] hook: read-only access to size and type analyses under
 cfg(doodle_verif)

---
 src/codegen/mod.rs |  2 +-
 src/lib.rs         |  3 +++
 src/verif.rs       | 39 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..15f318a 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -5192,7 +5192,7 @@ impl<'a> Elaborator<'a> {
     }
 
     /// NOTE - this *MUST* be kept in lockstep with [`TypeChecker::infer_module`]
-    fn elaborate_module(&mut self, module: &'a FormatModule, top_format: &Format) -> ElabForest {
+    pub(crate) fn elaborate_module(&mut self, module: &'a FormatModule, top_format: &Format) -> ElabForest {
         let dyn_s = TypedDynScope::Empty;
 
         let mut unexplored = BTreeSet::from_iter(0..module.formats.len());
diff --git a/src/lib.rs b/src/lib.rs
index d422db8..1db599f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,9 @@ pub use typecheck::{TCResult, base_set, error::TCError, typecheck};
 mod util;
 pub(crate) use util::IxHeap;
 
+#[cfg(doodle_verif)]
+pub mod verif;
+
 pub(crate) mod validation;
 
 pub type Label = std::borrow::Cow<'static, str>;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..215c28d
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,39 @@
+//! Read-only access to crate-private analyses, for the verification harness (`--cfg doodle_verif`).
+use crate::bounds::Bounds;
+use crate::codegen::{CodeGen, Elaborator};
+use crate::typecheck::TypeChecker;
+use crate::{Expr, Format, FormatModule, TypeScope, ValueType};
+
+pub fn match_bounds(module: &FormatModule, f: &Format) -> Bounds {
+    f.match_bounds(module)
+}
+
+pub fn lookahead_bounds(module: &FormatModule, f: &Format) -> Bounds {
+    f.lookahead_bounds(module)
+}
+
+pub fn is_nullable(module: &FormatModule, f: &Format) -> bool {
+    f.is_nullable(module)
+}
+
+pub fn expr_bounds(e: &Expr) -> Bounds {
+    e.bounds()
+}
+
+pub fn bounds_rem(a: Bounds, b: Bounds) -> Bounds {
+    Bounds::rem(a, b)
+}
+
+/// What code generation computes for the same format: (match, look-ahead).
+pub fn typed_bounds(module: &FormatModule, f: &Format) -> Option<(Bounds, Bounds)> {
+    let tc = TypeChecker::infer_module(module, f).ok()?;
+    let mut elab = Elaborator::new(module, tc, CodeGen::new());
+    let (top, _) = elab.elaborate_module(module, f);
+    Some((top.match_bounds(), top.lookahead_bounds()))
+}
+
+pub fn infer_format_type(module: &FormatModule, f: &Format) -> Result<ValueType, String> {
+    module
+        .infer_format_type(&TypeScope::new(), f)
+        .map_err(|e| e.to_string())
+}
-- 
2.43.0


From 6aa88470cc9dcbcdfc3ae035e4311ca134d62381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 21/49] fix: ranges of left shifts and bitwise operations at
 the word limit

---
 src/bounds.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 7d76f80..651f2ff 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -387,14 +387,14 @@ impl Div<Bounds> for Bounds {
 
 impl Bounds {
     pub fn checked_shl(self, rhs: Self) -> Option<Self> {
-        let min2 = u32::try_from(rhs.min).ok()?;
-        let min = self.min.checked_shl(min2)?;
+        // `x << n`, unless this would lose significant bits of `x`
+        let shl = |x: usize, n: usize| {
+            let factor = 1usize.checked_shl(u32::try_from(n).ok()?)?;
+            x.checked_mul(factor)
+        };
+        let min = shl(self.min, rhs.min)?;
         let max = match (self.max, rhs.max) {
-            (Some(m1), Some(m2)) => {
-                let max2 = u32::try_from(m2).ok()?;
-                // REVIEW - there may be edge-cases here where max2 < 64 but m1 overflows, yielding unexpectedly small values
-                m1.checked_shl(max2)
-            }
+            (Some(m1), Some(m2)) => shl(m1, m2),
             _ => None,
         };
         Some(Bounds { min, max })
@@ -484,7 +484,7 @@ fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
 
 fn mask(x: usize) -> usize {
     if x != 0 {
-        1_usize.checked_shl(x.ilog2() + 1).unwrap() - 1
+        usize::MAX >> x.leading_zeros()
     } else {
         0
     }
-- 
2.43.0


From ca5ade8ed6a683edb4c61b02c9c1d47ab0ee5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:38 +0000
Subject: [PATCH 22/49] fix: upper bound of a bitwise and with a single value

---
 src/bounds.rs | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 651f2ff..b67425b 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -277,22 +277,6 @@ impl Bounds {
             max: self.max.map(|n| n.div_ceil(8)),
         }
     }
-
-    /// Finds the pair `(x, m)` that yields the maximal `x & m` for `x` in the bounds of `self`.
-    ///
-    /// May fudge the value of `x` to an out-of-range value to shortcut the computation of `x & m`
-    /// over all in-range values, with the guarantee that the resulting bitwise-and will be no less
-    /// than the true maximum of `y & m` for actually-in-range `y`.
-    fn best_mask(&self, m: usize) -> (usize, usize) {
-        if self.contains(m) {
-            (m, m)
-        } else {
-            match self.max {
-                Some(n) => (mask(n), m),
-                _ => (m, m),
-            }
-        }
-    }
 }
 
 macro_rules! try_from_bounds {
@@ -455,20 +439,7 @@ impl BitAnd<Bounds> for Bounds {
         Bounds {
             min: (k1 & k2),
             max: match (lo_self.max, lo_rhs.max) {
-                (Some(m1), Some(m2)) => Some(match (lo_self.min == m1, lo_rhs.min == m2) {
-                    (true, true) => blend_bits(k1, k2, m1, m2),
-                    (true, false) => {
-                        // NOTE - the order of x2 and m in blend_bits matters
-                        let (x2, m) = lo_rhs.best_mask(m1);
-                        blend_bits(k1, k2, m, x2)
-                    }
-                    (false, true) => {
-                        // NOTE - the order of x1 and m in blend_bits matters
-                        let (x1, m) = lo_self.best_mask(m2);
-                        blend_bits(k1, k2, x1, m)
-                    }
-                    (false, false) => blend_bits(k1, k2, mask(m1), mask(m2)),
-                }),
+                (Some(m1), Some(m2)) => Some(blend_bits(k1, k2, mask(m1), mask(m2))),
                 _ => None,
             },
         }
@@ -476,8 +447,6 @@ impl BitAnd<Bounds> for Bounds {
 }
 
 /// Blends the bits of two bit-prefixes along with the remaining bits of the sub-ranges they correspond to.
-///
-/// The argument order matters as the presumed-zero terms `k1 & m1` and `k2 & m2` are omitted from the computation
 fn blend_bits(k1: usize, k2: usize, m1: usize, m2: usize) -> usize {
     (k1 & k2) | (m1 & m2) | (k1 & m2) | (m1 & k2)
 }
-- 
2.43.0


From 39ee0a6c28bcf137cb2e5a328f09610ba08568cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:31 +0000
Subject: [PATCH 23/49] fix: a permitted failure consumes no input

---
 src/codegen/typed_format.rs | 6 ++++--
 src/format.rs               | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index cba0d8e..442b255 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -481,9 +481,11 @@ impl TypedFormat<GenType> {
             }
             #[cfg(feature = "format_enforce")]
             TypedFormat::Enforce(.., inner) => inner.match_bounds(),
-            TypedFormat::Permit(.., inner, _) | TypedFormat::Hint(.., inner) => {
-                inner.match_bounds()
+            // NOTE - the fallback of a Permit consumes nothing
+            TypedFormat::Permit(.., inner, _) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds())
             }
+            TypedFormat::Hint(.., inner) => inner.match_bounds(),
             TypedFormat::LiftedOption(_, f) => {
                 f.as_ref().map_or(Bounds::exact(0), |f| f.match_bounds())
             }
diff --git a/src/format.rs b/src/format.rs
index 12f1662..6927309 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -312,7 +312,11 @@ impl Format {
             Format::LetFormat(first, _, second) | Format::MonadSeq(first, second) => {
                 first.match_bounds(module) + second.match_bounds(module)
             }
-            Format::Permit(inner, ..) | Format::Hint(.., inner) => inner.match_bounds(module),
+            // NOTE - the fallback of a Permit consumes nothing
+            Format::Permit(inner, ..) => {
+                Bounds::union(Bounds::exact(0), inner.match_bounds(module))
+            }
+            Format::Hint(.., inner) => inner.match_bounds(module),
             #[cfg(feature = "format_enforce")]
             Format::Enforce(inner) => inner.match_bounds(module),
             Format::LiftedOption(opt) => match opt {
-- 
2.43.0


From 0a4f1b095f2e6dee0df0a3d72be67a5df522f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:42 +0000
Subject: [PATCH 24/49] fix: range of a left shift that loses bits of its
 operand

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1db599f..d9949c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -736,7 +736,14 @@ impl Expr {
                 Arith::Div => a.bounds() / b.bounds(),
                 Arith::BitOr => a.bounds() | b.bounds(),
                 Arith::BitAnd => a.bounds() & b.bounds(),
-                Arith::Shl => a.bounds() << b.bounds(),
+                Arith::Shl => {
+                    let bounds = a.bounds() << b.bounds();
+                    match bounds.max {
+                        Some(max) if max <= u8::MAX as usize => bounds,
+                        // NOTE - bits shifted out of the operand's type (which we do not know) are lost
+                        max => Bounds { min: 0, max },
+                    }
+                }
                 Arith::Shr => a.bounds() >> b.bounds(),
                 Arith::Rem => Bounds::rem(a.bounds(), b.bounds()),
                 Arith::BoolOr | Arith::BoolAnd => Bounds::any(),
-- 
2.43.0


From c44abf273053cafd9eda9c76fa86a9123905c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:46 +0000
Subject: [PATCH 25/49] fix: look-ahead of generated decoders at the end of the
 input

An accepting node of a match tree also accepts when no byte is left or
none of its branches has the next byte.  Repetitions no longer stop at
the end of the input without consulting their match tree.
---
 src/codegen/mod.rs          | 70 ++++++++++++++++++++++++++-----------
 src/codegen/model.rs        |  1 +
 src/codegen/rust_ast/mod.rs |  1 +
 3 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 15f318a..a7cecea 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -739,6 +739,23 @@ fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
 fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        let descent = expand_descent(tree, ctxt);
+        match tree.accept {
+            // an accepting node with further branches also accepts when there is no next byte to descend on
+            Some(ix) if !tree.branches.is_empty() => {
+                let at_end = model::eq0(model::rem_bytes(ctxt.parser()));
+                let accept = GenBlock::simple_expr(RustExpr::num_lit(ix));
+                GenBlock::single_expr(GenExpr::Control(Box::new(GenControl::If(
+                    Box::new(at_end),
+                    accept,
+                    Some(descent),
+                ))))
+            }
+            _ => descent,
+        }
+    }
+
+    fn expand_descent(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -822,14 +839,21 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let match_body = if let Some(ix) = tree.accept {
+                    let accept = vec![RustStmt::Return(
+                        ReturnKind::Implicit,
+                        RustExpr::num_lit(ix),
+                    )];
+                    cases.push((MatchCaseLHS::Pattern(RustPattern::CatchAll(None)), accept));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, match_body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
@@ -3017,10 +3041,10 @@ where
                     };
                     let escape_clause =
                         GenControl::If(Box::new(cond), b_continue, Some(GenControl::Break.into()));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R0COM_ACCUM).into()))
@@ -3048,10 +3072,10 @@ where
                     )
                     .into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_ix],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
@@ -3082,10 +3106,10 @@ where
                     };
                     let b_stop = GenControl::Break.into();
                     let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
-                    GenControl::While(
-                        Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
-                        GenBlock::from_parts(vec![bind_reps_left], Some(escape_clause.into())),
-                    )
+                    GenControl::Loop(GenBlock::from_parts(
+                        vec![bind_reps_left],
+                        Some(escape_clause.into()),
+                    ))
                 };
                 stmts.push(ctrl.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
@@ -5192,7 +5216,11 @@ impl<'a> Elaborator<'a> {
     }
 
     /// NOTE - this *MUST* be kept in lockstep with [`TypeChecker::infer_module`]
-    pub(crate) fn elaborate_module(&mut self, module: &'a FormatModule, top_format: &Format) -> ElabForest {
+    pub(crate) fn elaborate_module(
+        &mut self,
+        module: &'a FormatModule,
+        top_format: &Format,
+    ) -> ElabForest {
         let dyn_s = TypedDynScope::Empty;
 
         let mut unexplored = BTreeSet::from_iter(0..module.formats.len());
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 2aaf336..38bf114 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -514,6 +514,7 @@ pub fn vec_push(arr: RustExpr, elem: RustExpr) -> RustExpr {
     call!(arr, push, elem)
 }
 
+#[allow(dead_code)]
 pub fn gt0(val: RustExpr) -> RustExpr {
     RustExpr::infix(val, InfixOperator::Gt, RustExpr::num_lit(0usize))
 }
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..e4c513a 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3625,6 +3625,7 @@ impl<T> RustMatchBody<T> {
 #[derive(Clone, Debug)]
 pub(crate) enum RustControl<BlockType = Vec<RustStmt>> {
     Loop(BlockType),
+    #[allow(dead_code)]
     While(Box<RustExpr>, BlockType),
     ForIter(Label, Box<RustExpr>, BlockType), // element variable name, iterator expression (verbatim), loop contents
     ForRange0(Label, Box<RustExpr>, BlockType), // index variable name, upper bound (exclusive), loop contents (0..N)
-- 
2.43.0


From c3c3ff1c4d87b0cbda0f810cc44cc40ed87a713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:50 +0000
Subject: [PATCH 26/49] fix: code points that are no character in generated
 decoders

---
 src/codegen/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index a7cecea..67e406f 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1244,7 +1244,10 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         }
         TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
             .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+            .call_method_with(
+                "unwrap_or",
+                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+            ),
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From 016285877255023d635e1bdaea36f1dbec0943d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:20 +0000
Subject: [PATCH 27/49] fix: generated decoders must return to the right place
 after a failed parse

A successful alternative left its branch-point behind, so that a later
failure went back to it; so did a failing negative look-ahead.  A
permitted failure did not go back at all.
---
 src/codegen/mod.rs   | 27 +++++++++++++++++++++------
 src/codegen/model.rs |  4 ++++
 src/parser/mod.rs    | 10 ++++++++++
 src/parser/offset.rs |  7 +++++++
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 67e406f..62175bc 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2966,12 +2966,15 @@ where
                 let open_peek_not = RustStmt::Expr(model::open_peek_not(ctxt.parser())).into();
                 let bind_res =
                     GenStmt::assign(model::PEEK_NOT_RES, cl_inner.to_ast(ctxt).abstracted_try());
+                // the context is closed in either case, so that an enclosing recovery-point is the latest one again
+                let close_peek_not =
+                    RustStmt::Expr(model::try_close_peek_not(ctxt.parser())).into();
                 let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
                     Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
-                    GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
+                    GenBlock::simple_expr(RustExpr::UNIT),
                     Some(GenBlock::explicit_return(model::err_bad_peek_not())),
                 )));
-                let stmts = vec![open_peek_not, bind_res];
+                let stmts = vec![open_peek_not, bind_res, close_peek_not];
                 GenBlock::from_parts(stmts, Some(close_or_fail))
             }
             EngineLogic::Bits(cl_inner) => {
@@ -3508,7 +3511,13 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            block.prepend_stmt(GenStmt::Embed(RustStmt::Expr(
+                                model::try_end_alt(ctxt.parser()),
+                            )));
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
@@ -3634,14 +3643,20 @@ impl ToAst for DerivedLogic<GTExpr> {
                 GenBlock::single_expr(ctrl)
             }
             DerivedLogic::Permit(inner, expr) => {
+                // a failure within the inner parse consumes no input
+                let open_alt = model::start_alt(ctxt.parser()).into();
                 let rhs = inner.to_ast(ctxt).abstracted_try();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                let if_ok = GenBlock::lift_block(
+                    [RustStmt::Expr(model::try_end_alt(ctxt.parser()))],
+                    RustExpr::local(model::PERMIT_BIND),
+                );
                 let if_err = {
-                    let (stmts, expr) = model::yield_value_with_error(
+                    let (mut stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
+                    stmts.push(RustStmt::Expr(model::try_next_alt(ctxt.parser(), true)));
                     GenBlock::lift_block(stmts, expr)
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
@@ -3654,7 +3669,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![open_alt, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 38bf114..8a4a46e 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -315,6 +315,10 @@ pub fn start_alt(parser: RustExpr) -> RustExpr {
     call!(parser, start_alt)
 }
 
+pub fn try_end_alt(parser: RustExpr) -> RustExpr {
+    try_call!(parser, end_alt)
+}
+
 pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index aea7904..ee8efdd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -322,6 +322,16 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the latest 'Alts' context after a branch other than the last was parsed successfully, discarding its branch-point.
+    ///
+    /// Unless it is closed, a later failure would be recovered to its branch-point rather than to that of an enclosing 'Alts' context.
+    ///
+    /// Will return an error if there is no 'Alts' context to close.
+    pub fn end_alt(&mut self) -> Result<(), ParseError> {
+        self.offset.close_parallel()?;
+        Ok(())
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index f5d2f94..6463cd4 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -624,6 +624,13 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Discards the most recently opened recovery-point, keeping the current offset.
+    pub(crate) fn close_parallel(&mut self) -> Result<(), StateError> {
+        let (_, new_stack) = std::mem::take(&mut self.view_stack).recover()?;
+        self.view_stack = new_stack;
+        Ok(())
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From b9e2453b720193bc00a8be8f404cf5c638b29688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:20 +0000
Subject: [PATCH 28/49] fix: generated code of alternatives that cannot fail

---
 src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 62175bc..6cc587b 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2683,7 +2683,7 @@ impl GenBlock {
                 }
             } else {
                 Self {
-                    ret: Some(ret),
+                    ret: Some(ret.wrap_ok(Some("PResult"))),
                     ..self
                 }
             }
-- 
2.43.0


From 892d38e4cdec3488a68454bdbc646eea5e7629ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:12 +0000
Subject: [PATCH 29/49] fix: grouping of operators in generated code

---
 src/codegen/rust_ast/mod.rs |  2 +-
 src/precedence.rs           | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index e4c513a..f3e31b0 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3439,7 +3439,7 @@ impl ToFragmentExt for RustOp {
             RustOp::InfixOp(op, lhs, rhs) => cond_paren(
                 lhs.to_fragment_precedence(inherent)
                     .cat(Fragment::string(op.token()))
-                    .cat(rhs.to_fragment_precedence(inherent)),
+                    .cat(rhs.to_fragment_precedence(inherent.right_operand())),
                 prec,
                 inherent,
             ),
diff --git a/src/precedence.rs b/src/precedence.rs
index 77ab0f6..38b0840 100644
--- a/src/precedence.rs
+++ b/src/precedence.rs
@@ -299,6 +299,23 @@ impl Precedence {
     // REVIEW - does list-append need its own precedence or is this good enough?
     pub(crate) const APPEND: Self = Precedence::ArithInfix(ArithLevel::AddSub);
 
+    /// The precedence of the context to the right of an infix operator of precedence `self`.
+    ///
+    /// Infix operators group to the left, so an operand on the right-hand side whose operator is of the
+    /// same rank (e.g. `b - c` in `a - (b - c)`) has to be parenthesized.
+    pub(crate) fn right_operand(self) -> Self {
+        match self {
+            Self::ArithInfix(ArithLevel::AddSub) => Self::MUL,
+            Self::ArithInfix(_) => Self::CAST,
+            Self::BitwiseInfix(BitwiseLevel::Or) => Self::BITAND,
+            Self::BitwiseInfix(BitwiseLevel::And) => Self::BIT_SHIFT,
+            Self::BitwiseInfix(BitwiseLevel::Shift) => Self::CAST,
+            Self::LogicalInfix(LogicalLevel::Or) => Self::LOGICAL_AND,
+            Self::LogicalInfix(LogicalLevel::And) => Self::CAST,
+            other => other,
+        }
+    }
+
     pub(crate) fn bump_format(&self) -> Self {
         match self {
             Precedence::Top => Precedence::Atomic,
-- 
2.43.0


From cd8623c77c7b5fc7ce2dcbbf8b5ad422966bbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:47 +0000
Subject: [PATCH 30/49] fix: grouping of operators in printed expressions

---
 src/numeric/printer.rs |  4 ++--
 src/output/tree.rs     | 28 +++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/numeric/printer.rs b/src/numeric/printer.rs
index 459802a..d3cc35d 100644
--- a/src/numeric/printer.rs
+++ b/src/numeric/printer.rs
@@ -124,7 +124,7 @@ fn compile_binop(
     Fragment::delimit(
         compile_bin_op(&op),
         compile_expr(lhs, lhs_prec),
-        compile_expr(rhs, rhs_prec),
+        compile_expr(rhs, rhs_prec.right_operand()),
     )
 }
 
@@ -208,7 +208,7 @@ fn compile_elab_binop(
 ) -> Fragment {
     compile_typed_expr(lhs, lhs_prec)
         .cat(compile_typed_bin_op(op))
-        .cat(compile_typed_expr(rhs, rhs_prec))
+        .cat(compile_typed_expr(rhs, rhs_prec.right_operand()))
         .cat(Fragment::String(Cow::Borrowed(" :: ")))
         .cat(Fragment::String(Cow::Borrowed(t.to_static_str())))
 }
diff --git a/src/output/tree.rs b/src/output/tree.rs
index fef2173..61616b5 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -1879,7 +1879,13 @@ impl<'module> TreePrinter<'module> {
                 Precedence::ADD_SUB,
             ),
             Expr::Arith(Arith::Sub, lhs, rhs) => cond_paren(
-                self.binary_op(" - ", lhs, rhs, Precedence::ADD_SUB, Precedence::ADD_SUB),
+                self.binary_op(
+                    " - ",
+                    lhs,
+                    rhs,
+                    Precedence::ADD_SUB,
+                    Precedence::ADD_SUB.right_operand(),
+                ),
                 prec,
                 Precedence::ADD_SUB,
             ),
@@ -1889,12 +1895,24 @@ impl<'module> TreePrinter<'module> {
                 Precedence::MUL,
             ),
             Expr::Arith(Arith::Div, lhs, rhs) => cond_paren(
-                self.binary_op(" / ", lhs, rhs, Precedence::DIV_REM, Precedence::DIV_REM),
+                self.binary_op(
+                    " / ",
+                    lhs,
+                    rhs,
+                    Precedence::DIV_REM,
+                    Precedence::DIV_REM.right_operand(),
+                ),
                 prec,
                 Precedence::DIV_REM,
             ),
             Expr::Arith(Arith::Rem, lhs, rhs) => cond_paren(
-                self.binary_op(" % ", lhs, rhs, Precedence::DIV_REM, Precedence::DIV_REM),
+                self.binary_op(
+                    " % ",
+                    lhs,
+                    rhs,
+                    Precedence::DIV_REM,
+                    Precedence::DIV_REM.right_operand(),
+                ),
                 prec,
                 Precedence::DIV_REM,
             ),
@@ -1924,7 +1942,7 @@ impl<'module> TreePrinter<'module> {
                     lhs,
                     rhs,
                     Precedence::BIT_SHIFT,
-                    Precedence::BIT_SHIFT,
+                    Precedence::BIT_SHIFT.right_operand(),
                 ),
                 prec,
                 Precedence::BIT_SHIFT,
@@ -1935,7 +1953,7 @@ impl<'module> TreePrinter<'module> {
                     lhs,
                     rhs,
                     Precedence::BIT_SHIFT,
-                    Precedence::BIT_SHIFT,
+                    Precedence::BIT_SHIFT.right_operand(),
                 ),
                 prec,
                 Precedence::BIT_SHIFT,
-- 
2.43.0


From 916f878cfcd2a68126bd4818d9e625058cf42478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:34 +0000
Subject: [PATCH 31/49] fix: a backward seek stays within the enclosing slice

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ee8efdd..872d8f5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -100,7 +100,7 @@ impl<'a> Parser<'a> {
                 self.offset.try_increment(delta)?;
                 true
             } else {
-                self.offset.seek_to_offset(o_dest, false)?;
+                self.offset.seek_to_offset(o_dest, true)?;
                 false
             };
         Ok(is_advance)
-- 
2.43.0


From 8220e7838b8583e111f1a61611ae496f5bac0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:49 +0000
Subject: [PATCH 32/49] fix: a view opened within a slice ends with the slice

---
 src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 872d8f5..674461c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -44,7 +44,12 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let view = self.buffer.offset(cur_offset).unwrap();
+        View {
+            // NOTE - a view that is opened within a slice ends where the slice does
+            buffer: &view.buffer[..self.remaining()],
+            ..view
+        }
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
-- 
2.43.0


From f14f78b231fff41df342c85ec47e1cff60a1d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:24 +0000
Subject: [PATCH 33/49] fix: positions and alignment within a view are absolute

---
 src/parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 674461c..0c032c4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -170,11 +170,15 @@ impl<'a> Parser<'a> {
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
         let current_offset = self.offset.get_current_offset();
+        // NOTE - alignment is a matter of the absolute offset, even within a view
+        let base = self.buffer.start_offset;
         let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
+            ByteOffset::Bytes(nbytes) if (base + nbytes) % n == 0 => current_offset,
             ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
 
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
+            ByteOffset::Bytes(nbytes) => {
+                ByteOffset::from_bytes((((base + nbytes) / n) + 1) * n - base)
+            }
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
@@ -368,7 +372,8 @@ impl<'a> Parser<'a> {
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            // NOTE - offsets are absolute, even within a view (as in `advance_or_seek`)
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From f202e3e2b2c4ff0164417bba7db5f94130270885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:32 +0000
Subject: [PATCH 34/49] fix: the interpreter may not seek to before the view it
 parses

---
 src/decoder.rs     |  2 +-
 src/loc_decoder.rs |  2 +-
 src/read.rs        | 28 +++++++++++++++++++++-------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 8a67e21..1fd3461 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1334,7 +1334,7 @@ impl Decoder {
             }
             Decoder::ParseFromView(v_expr, a) => {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
-                Ok(try_with!(a.parse(program, scope, view_window) => ("ParseFromView", format!("{:?}", v_expr)))
+                Ok(try_with!(a.parse(program, scope, view_window.as_view()) => ("ParseFromView", format!("{:?}", v_expr)))
                     .map(|(va, _)| (va, input)))
             }
             Decoder::LetFormat(da, name, db) => {
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 62cb143..f042b48 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1513,7 +1513,7 @@ impl Decoder {
             }
             Decoder::ParseFromView(v_expr, a) => {
                 let view = Self::eval_view_expr_with_loc(scope, v_expr)?;
-                Ok(a.parse_with_loc(program, scope, view)?
+                Ok(a.parse_with_loc(program, scope, view.as_view())?
                     .map(|(va, _)| (va, input)))
             }
             Decoder::LetFormat(da, name, db) => {
diff --git a/src/read.rs b/src/read.rs
index 49a348b..b477779 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -5,6 +5,9 @@ pub struct ReadCtxt<'a> {
     #[serde(skip)]
     pub input: &'a [u8],
     pub offset: usize,
+    /// Offset of the start of the view being parsed (0 if there is none), before which we cannot seek
+    #[serde(skip)]
+    pub(crate) start: usize,
 }
 
 impl<'a> std::fmt::Debug for ReadCtxt<'a> {
@@ -21,7 +24,20 @@ impl<'a> std::fmt::Debug for ReadCtxt<'a> {
 impl<'a> ReadCtxt<'a> {
     pub fn new(input: &'a [u8]) -> ReadCtxt<'a> {
         let offset = 0;
-        ReadCtxt { input, offset }
+        let start = 0;
+        ReadCtxt {
+            input,
+            offset,
+            start,
+        }
+    }
+
+    /// Returns a `ReadCtxt` for parsing the bytes from the current offset onwards, as a view of their own.
+    pub(crate) fn as_view(&self) -> ReadCtxt<'a> {
+        ReadCtxt {
+            start: self.offset,
+            ..*self
+        }
     }
 
     pub fn remaining(&self) -> &'a [u8] {
@@ -29,9 +45,10 @@ impl<'a> ReadCtxt<'a> {
     }
     /// Creates a new `ReadCtxt` with the same `input` as the current `ReadCtxt`, but with an `offset` of `n`.
     ///
-    /// The new `ReadCtxt` is only created if `n` is a valid offset into the `input` slice.
+    /// The new `ReadCtxt` is only created if `n` is a valid offset into the `input` slice, that is not
+    /// before the start of the view being parsed.
     pub fn seek_to(&self, n: usize) -> Option<ReadCtxt<'a>> {
-        if n <= self.input.len() {
+        if n >= self.start && n <= self.input.len() {
             Some(ReadCtxt { offset: n, ..*self })
         } else {
             None
@@ -64,10 +81,7 @@ impl<'a> ReadCtxt<'a> {
 
     pub(crate) fn skip_remainder(&self) -> ReadCtxt<'a> {
         let offset = self.input.len();
-        ReadCtxt {
-            input: self.input,
-            offset,
-        }
+        ReadCtxt { offset, ..*self }
     }
 }
 
-- 
2.43.0


From 0b336a5b1c0c2b24eadb4e8af3abdc772b6d3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:33 +0000
Subject: [PATCH 35/49] fix: generated decoders must use the interpreter's
 bounds for their look-ahead

---
 src/codegen/typed_format.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codegen/typed_format.rs b/src/codegen/typed_format.rs
index 442b255..e4ff8e5 100644
--- a/src/codegen/typed_format.rs
+++ b/src/codegen/typed_format.rs
@@ -887,17 +887,10 @@ impl<TypeRep> std::hash::Hash for TypedExpr<TypeRep> {
     }
 }
 
-impl<TypeRep> TypedExpr<TypeRep> {
+impl<TypeRep: Clone> TypedExpr<TypeRep> {
+    /// Bounds of the value, which have to be those that the interpreter relies on for its look-ahead
     pub(crate) fn bounds(&self) -> Bounds {
-        match self {
-            TypedExpr::U8(n) => Bounds::exact(usize::from(*n)),
-            TypedExpr::U16(n) => Bounds::exact(usize::from(*n)),
-            TypedExpr::U32(n) => Bounds::exact(*n as usize),
-            TypedExpr::U64(n) => Bounds::exact(*n as usize),
-            TypedExpr::Arith(_t, Arith::Add, a, b) => a.bounds() + b.bounds(),
-            TypedExpr::Arith(_t, Arith::Mul, a, b) => a.bounds() * b.bounds(),
-            _ => Bounds::any(),
-        }
+        crate::Expr::from(self.clone()).bounds()
     }
 }
 
-- 
2.43.0


From b06ff79b0b1311a566c75cb6529b57aae4ded6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:08 +0000
Subject: [PATCH 36/49] fix: distinct types must get distinct names in
 generated code

---
 src/codegen/mod.rs        |  3 ++-
 src/codegen/name.rs       |  7 ++++++-
 src/codegen/path_names.rs | 43 +++++++++++++++++++++++++++++++++++++--
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 6cc587b..da2b988 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3902,7 +3902,8 @@ pub fn generate_code(module: &FormatModule, top_format: &Format) -> impl ToFragm
     for (ix, ref mut decoder_fn) in sourcemap.decoder_skels.into_iter().enumerate() {
         decoder_fn.rebind(&table);
         if let Some(name) = &decoder_fn.adhoc_name {
-            let replacement_name = Label::from(format!("Decoder_{}", sanitize_label(name)));
+            let base_name = name.strip_prefix("r#").unwrap_or(name);
+            let replacement_name = sanitize_label(&Label::from(format!("Decoder_{base_name}")));
             // If the ideal name already exists, prevent it from being reused
             if fn_renames.contains(&replacement_name) {
                 let _ = decoder_fn.adhoc_name.take();
diff --git a/src/codegen/name.rs b/src/codegen/name.rs
index d569956..33abfe6 100644
--- a/src/codegen/name.rs
+++ b/src/codegen/name.rs
@@ -4,6 +4,7 @@ use std::collections::{BTreeMap, BTreeSet};
 
 use anyhow::anyhow;
 
+use super::rust_ast::sanitize_label;
 use crate::Label;
 use crate::output::Fragment;
 
@@ -36,6 +37,8 @@ pub(crate) enum NameAtom {
     Bind(Label),
     /// Type-entity that is derived from another via an abstracted relation
     Derived(Derivation),
+    /// Any further type-entity found at a location that already belongs to another one
+    Alternate(usize),
     /// 'Poison' atom to prevent local ascription of misleading names to entities whose provenance is hierarchically distinct
     DeadEnd,
 }
@@ -49,6 +52,7 @@ impl std::fmt::Display for NameAtom {
             NameAtom::Bind(bind) => write!(f, "{bind}"),
             NameAtom::Variant(vn) => write!(f, "{vn}"),
             NameAtom::Derived(dev) => write!(f, "{}", dev.token()),
+            NameAtom::Alternate(ix) => write!(f, "alt{ix}"),
             NameAtom::DeadEnd => write!(f, "POISON"),
         }
     }
@@ -275,7 +279,8 @@ impl NameCtxt {
             }
         }
         let ret = buffer.to_string();
-        Label::Owned(ret)
+        // NOTE - names are printed in sanitized form, so that is the form in which they have to be told apart
+        sanitize_label(&Label::Owned(ret))
     }
 
     fn trim(path: &PathLabel) -> Cow<'_, PathLabel> {
diff --git a/src/codegen/path_names.rs b/src/codegen/path_names.rs
index 582cd25..9d0372f 100644
--- a/src/codegen/path_names.rs
+++ b/src/codegen/path_names.rs
@@ -1,9 +1,10 @@
 use super::util::{FxHash, StableMap};
 use super::{
-    name::{NameCtxt, PathLabel},
+    name::{NameAtom, NameCtxt, PathLabel},
     rust_ast::RustTypeDecl,
 };
 use crate::Label;
+use std::collections::BTreeMap;
 
 pub struct NameGen {
     pub(super) ctxt: NameCtxt,
@@ -24,7 +25,37 @@ impl NameGen {
         }
     }
 
+    /// Reverts any renaming that would give one type the final name of another.
+    fn resolve_rename_clashes(&mut self) {
+        let mut owned = BTreeMap::<Label, PathLabel>::new();
+        for (_, path) in self.rev_map.values() {
+            let name = self.ctxt.find_name_for(path).unwrap();
+            owned.insert(name, path.clone());
+        }
+        loop {
+            let mut holder = BTreeMap::<PathLabel, Label>::new();
+            let mut reverted = None;
+            for (name, own_path) in owned.iter() {
+                let path = &self.name_remap[name];
+                if let Some(other) = holder.insert(path.clone(), name.clone()) {
+                    // a type that is at its first-pass location has no other name to go by
+                    let loser = if path != own_path { name.clone() } else { other };
+                    reverted = Some(loser);
+                    break;
+                }
+            }
+            match reverted {
+                Some(name) => {
+                    let own_path = owned[&name].clone();
+                    self.name_remap.insert(name, own_path);
+                }
+                None => break,
+            }
+        }
+    }
+
     pub fn manifest_renaming_table(&mut self) -> StableMap<Label, Label, FxHash> {
+        self.resolve_rename_clashes();
         let mut ret = StableMap::<Label, Label, FxHash>::default();
         for (k, v) in self.name_remap.iter() {
             let rename = self.ctxt.find_name_for(v).unwrap();
@@ -86,7 +117,15 @@ impl NameGen {
                 let ix = self.ctr;
                 self.ctr += 1;
                 let (path, ret) = {
-                    let loc = self.ctxt.register_path();
+                    let mut loc = self.ctxt.register_path();
+                    // two distinct types must not share a name, even if they arise at the same location
+                    let mut alt = 0;
+                    while self.rev_map.values().any(|(_, path)| path == &loc) {
+                        alt += 1;
+                        self.ctxt.push_atom(NameAtom::Alternate(alt));
+                        loc = self.ctxt.register_path();
+                        self.ctxt.escape();
+                    }
                     let name = self.ctxt.find_name_for(&loc).unwrap();
                     (loc, name)
                 };
-- 
2.43.0


From 622ecb7e39ebc7a90b950251af048808cbf38a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:08 +0000
Subject: [PATCH 37/49] fix: generated code of character conversions, of
 struct-literals before a block, and of blocks before an operator

---
 src/codegen/mod.rs          | 22 ++++++++++----
 src/codegen/rust_ast/mod.rs | 58 +++++++++++++++++++++++++++++++++----
 2 files changed, 69 insertions(+), 11 deletions(-)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index da2b988..aff693f 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1242,12 +1242,22 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         TypedExpr::U64Le(le_bytes) => {
             RustExpr::local("u64le").call_with([embed_expr_nat(le_bytes)])
         }
-        TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
-            .call_with([embed_expr_nat(codepoint)])
-            .call_method_with(
-                "unwrap_or",
-                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
-            ),
+        TypedExpr::AsChar(codepoint) => {
+            let narrow = codepoint.get_type().and_then(|t| t.to_rust_type().try_as_prim());
+            let codepoint = match narrow {
+                Some(PrimType::U8 | PrimType::U16) => RustExpr::Operation(RustOp::AsCast(
+                    Box::new(embed_expr_nat(codepoint)),
+                    PrimType::U32.into(),
+                )),
+                _ => embed_expr_nat(codepoint),
+            };
+            RustExpr::scoped(["char"], "from_u32")
+                .call_with([codepoint])
+                .call_method_with(
+                    "unwrap_or",
+                    [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+                )
+        }
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index f3e31b0..9493c2f 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3034,6 +3034,54 @@ impl ToFragment for RustExpr {
     }
 }
 
+impl RustExpr {
+    /// Fragment of an expression that is followed by an operator: one that ends in a block has to be parenthesized,
+    /// as it would otherwise be taken for a statement of its own.
+    fn leading_operand(&self, prec: Precedence) -> Fragment {
+        match self {
+            RustExpr::BlockScope(stmts, val) if stmts.is_empty() => val.leading_operand(prec),
+            RustExpr::BlockScope(..) | RustExpr::Control(..) => self
+                .to_fragment_precedence(Precedence::Top)
+                .delimit(Fragment::Char('('), Fragment::Char(')')),
+            _ => self.to_fragment_precedence(prec),
+        }
+    }
+
+    /// Fragment of an expression that is followed by a block: one that shows the braces of a struct-literal has to be
+    /// parenthesized.
+    fn before_block(&self) -> Fragment {
+        let frag = self.to_fragment_precedence(Precedence::Top);
+        if self.shows_struct_literal() {
+            frag.delimit(Fragment::Char('('), Fragment::Char(')'))
+        } else {
+            frag
+        }
+    }
+
+    fn shows_struct_literal(&self) -> bool {
+        match self {
+            RustExpr::Struct(_, StructExpr::Record(_)) => true,
+            RustExpr::BlockScope(stmts, val) => stmts.is_empty() && val.shows_struct_literal(),
+            RustExpr::FieldAccess(x, _)
+            | RustExpr::MethodCall(x, ..)
+            | RustExpr::Try(x)
+            | RustExpr::Index(x, _)
+            | RustExpr::Slice(x, ..)
+            | RustExpr::Borrow(x)
+            | RustExpr::BorrowMut(x)
+            | RustExpr::Owned(OwnedRustExpr { expr: x, .. })
+            | RustExpr::OwnedOption(x, _)
+            | RustExpr::Operation(RustOp::PrefixOp(_, x) | RustOp::AsCast(x, _)) => {
+                x.shows_struct_literal()
+            }
+            RustExpr::Operation(RustOp::InfixOp(_, x, y)) => {
+                x.shows_struct_literal() || y.shows_struct_literal()
+            }
+            _ => false,
+        }
+    }
+}
+
 /// Given a block of `RustStmt` that do not have any explicit `return` keywords anywhere within,
 /// extract the value of the statement-block as a `RustExpr` (or Unit, if this is the implicit evaluation),
 /// and return it.
@@ -3437,7 +3485,7 @@ impl ToFragmentExt for RustOp {
         let inherent = self.precedence();
         match self {
             RustOp::InfixOp(op, lhs, rhs) => cond_paren(
-                lhs.to_fragment_precedence(inherent)
+                lhs.leading_operand(inherent)
                     .cat(Fragment::string(op.token()))
                     .cat(rhs.to_fragment_precedence(inherent.right_operand())),
                 prec,
@@ -3449,7 +3497,7 @@ impl ToFragmentExt for RustOp {
                 inherent,
             ),
             RustOp::AsCast(expr, typ) => cond_paren(
-                expr.to_fragment()
+                expr.leading_operand(Precedence::Atomic)
                     .intervene(Fragment::string(" as "), typ.to_fragment()),
                 prec,
                 inherent,
@@ -3798,13 +3846,13 @@ impl ToFragment for RustControl {
             RustControl::While(cond, body) => Fragment::string("while")
                 .intervene(
                     Fragment::Char(' '),
-                    cond.to_fragment_precedence(Precedence::TOP),
+                    cond.before_block(),
                 )
                 .intervene(Fragment::Char(' '), RustStmt::block(body.iter())),
             RustControl::If(cond, b_then, b_else) => Fragment::string("if")
                 .intervene(
                     Fragment::Char(' '),
-                    cond.to_fragment_precedence(Precedence::TOP),
+                    cond.before_block(),
                 )
                 .intervene(Fragment::Char(' '), RustStmt::block(b_then.iter()))
                 .intervene(
@@ -3814,7 +3862,7 @@ impl ToFragment for RustControl {
             RustControl::Match(expr, body) => Fragment::string("match")
                 .intervene(
                     Fragment::Char(' '),
-                    expr.to_fragment_precedence(Precedence::TOP),
+                    expr.before_block(),
                 )
                 .intervene(Fragment::Char(' '), body.to_fragment()),
             RustControl::ForRange0(ctr_name, ubound, body) => Fragment::string("for")
-- 
2.43.0


From 033c13126b0a85bd031abdc4f2696f9d7d8a1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:14 +0000
Subject: [PATCH 38/49] hook: name allocation and expression printing under
 cfg(doodle_verif)

---
 src/codegen/mod.rs         |  2 ++
 src/codegen/verif_names.rs | 43 ++++++++++++++++++++++++++++++++++++++
 src/output/tree.rs         |  5 +++++
 src/verif.rs               | 11 ++++++++++
 4 files changed, 61 insertions(+)
 create mode 100644 src/codegen/verif_names.rs

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index aff693f..7c9527f 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -36,6 +36,8 @@ mod name;
 use name::{Derivation, NameAtom};
 mod path_names;
 use path_names::NameGen;
+#[cfg(doodle_verif)]
+pub(crate) mod verif_names;
 
 pub(crate) mod rust_ast;
 pub use rust_ast::ToFragment;
diff --git a/src/codegen/verif_names.rs b/src/codegen/verif_names.rs
new file mode 100644
index 0000000..5abec15
--- /dev/null
+++ b/src/codegen/verif_names.rs
@@ -0,0 +1,43 @@
+//! Drives name allocation directly, for the verification harness (`--cfg doodle_verif`).
+use super::name::{Derivation, NameAtom};
+use super::path_names::NameGen;
+use super::rust_ast::{PrimType, RustStruct, RustTypeDecl, RustTypeDef};
+use crate::Label;
+
+/// Asks for the name of each type in turn, `types[i].0` identifying the type and `types[i].1` the location of the request
+/// (a list of kinds of atom and labels). Returns the name each request yields, and the final name it is replaced by.
+pub fn name_history(types: &[(usize, Vec<(char, String)>)]) -> Vec<(String, String)> {
+    let mut names = NameGen::new();
+    let mut firsts = Vec::new();
+    for (id, path) in types {
+        for (kind, label) in path {
+            let label = Label::from(label.clone());
+            names.ctxt.push_atom(match kind {
+                'E' => NameAtom::Explicit(label),
+                'R' => NameAtom::RecordField(label),
+                'V' => NameAtom::Variant(label),
+                'B' => NameAtom::Bind(label),
+                'P' => NameAtom::Positional(label.parse().unwrap()),
+                'D' => NameAtom::Derived(Derivation::Lhs),
+                _ => NameAtom::DeadEnd,
+            });
+        }
+        let field = (Label::from(format!("f{id}")), PrimType::U8.into());
+        let decl = RustTypeDecl {
+            def: RustTypeDef::Struct(RustStruct::Record(vec![field])),
+            lt: None,
+        };
+        firsts.push(names.get_name(&decl).0);
+        path.iter().for_each(|_| {
+            names.ctxt.escape();
+        });
+    }
+    let table = names.manifest_renaming_table();
+    firsts
+        .into_iter()
+        .map(|name| {
+            let last = table.get(&name).unwrap_or(&name).to_string();
+            (name.to_string(), last)
+        })
+        .collect()
+}
diff --git a/src/output/tree.rs b/src/output/tree.rs
index 61616b5..3af458d 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -1813,6 +1813,11 @@ impl<'module> TreePrinter<'module> {
         }
     }
 
+    #[cfg(doodle_verif)]
+    pub(crate) fn verif_show_expr(&mut self, expr: &Expr) -> String {
+        self.compile_expr(expr, Precedence::default()).to_string()
+    }
+
     fn compile_expr(&mut self, expr: &Expr, prec: Precedence) -> Fragment {
         match expr {
             Expr::Match(head, _) => cond_paren(
diff --git a/src/verif.rs b/src/verif.rs
index 215c28d..c35b323 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -37,3 +37,14 @@ pub fn infer_format_type(module: &FormatModule, f: &Format) -> Result<ValueType,
         .infer_format_type(&TypeScope::new(), f)
         .map_err(|e| e.to_string())
 }
+
+pub use crate::codegen::verif_names::name_history;
+
+/// Text of an expression, as the tree printer and the numeric printer show it.
+pub fn show_expr(module: &FormatModule, e: &Expr) -> String {
+    crate::output::tree::TreePrinter::new(module).verif_show_expr(e)
+}
+
+pub fn show_num_expr(e: &crate::numeric::core::Expr) -> String {
+    crate::numeric::printer::show_expr(e)
+}
-- 
2.43.0


From 91a553c71be8be83a190c85b2cebee8450a27454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:27 +0000
Subject: [PATCH 39/49] fix: negation and absolute value of the least signed
 number must be exact

---
 src/numeric/eval.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/numeric/eval.rs b/src/numeric/eval.rs
index 4f4cdca..f3c0874 100644
--- a/src/numeric/eval.rs
+++ b/src/numeric/eval.rs
@@ -577,7 +577,11 @@ macro_rules! negate_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $(
             pub fn $fname(x: $t) -> Eval<$t> {
-                Eval::Direct(<$t as Neg>::neg(x))
+                // NOTE - the negation of iX::MIN is out of range
+                match x.checked_neg() {
+                    Some(res) => Eval::Direct(res),
+                    None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || BigInt::from(x).neg()))) }),
+                }
             }
         )*
     };
@@ -640,12 +644,10 @@ macro_rules! negate_unsigned_unsigned {
 macro_rules! abs_as_signed {
     ( $( $t:ty, $fname:ident );+ $(;)? ) => {
         $( pub fn $fname(x: $t) -> Eval<$t> {
-            let tmp = <$t as ::num_traits::Signed>::abs(&x);
-            // NOTE - Signed::abs(iX::MIN) == iX::MIN
-            if tmp == <$t>::MIN {
-                Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) })
-            } else {
-                Eval::Direct(tmp)
+            // NOTE - the absolute value of iX::MIN is out of range
+            match x.checked_abs() {
+                Some(res) => Eval::Direct(res),
+                None => Eval::Indirect(IndirectEval { value: Rc::new(LazyCell::new(Box::new(move || ::num_bigint::BigInt::from(x).abs()))) }),
             }
         } )+
     };
@@ -668,12 +670,7 @@ macro_rules! abs_signed_unsigned {
         $(
             $(
                 pub fn $fname(x: $t) -> Eval<$t1> {
-                    let tmp = <$t as ::num_traits::Signed>::abs(&x);
-                    if tmp == <$t>::MIN {
-                        Eval::Direct(<$t>::MAX as $t1 + 1)
-                    } else {
-                        Eval::Direct(tmp as $t1)
-                    }
+                    Eval::Direct(x.unsigned_abs() as $t1)
                 }
             )+
         )+
-- 
2.43.0


From df8cd23204b92e4983aae326189e19c7d3a0a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 40/49] fix: a count read from the input must not be allocated
 for before there is input for it

---
 src/decoder.rs     | 9 ++++++---
 src/loc_decoder.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 1fd3461..7bbda4e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1370,7 +1370,10 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (
+                        Vec::with_capacity(count.min(input.remaining().len())),
+                        input,
+                    ),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1638,7 +1641,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1660,7 +1663,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index f042b48..282f932 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1549,7 +1549,10 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (
+                        Vec::with_capacity(count.min(input.remaining().len())),
+                        input,
+                    ),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1841,7 +1844,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1868,7 +1871,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::with_capacity(len.min(view_window.remaining().len()));
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From 2369b466537111e79fe4fa7b75f723a02328aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 41/49] fix: comparing an offset near the end of the address
 space must not overflow

---
 src/parser/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 6463cd4..4ca442f 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -140,12 +140,23 @@ impl ByteOffset {
         }
     }
 
+    /// The number of whole bytes before `self`, and the number of bits beyond them.
+    fn as_byte_and_bit(&self) -> (usize, usize) {
+        match *self {
+            ByteOffset::Bytes(n) => (n, 0),
+            ByteOffset::Bits {
+                starting_byte,
+                bits_advanced,
+            } => (starting_byte + bits_advanced / 8, bits_advanced % 8),
+        }
+    }
+
     /// Returns `true` if `self` lies strictly past `limit`, regardless of the mode (bits or bytes) of either.
     ///
     /// Unlike the partial order on `ByteOffset`, this is decisive when a bits-mode offset
     /// falls within the byte immediately following a byte-aligned limit.
     pub(crate) fn exceeds(&self, limit: &Self) -> bool {
-        self.abs_bit_offset() > limit.abs_bit_offset()
+        self.as_byte_and_bit() > limit.as_byte_and_bit()
     }
 
     pub(crate) fn bits_advanced(&self) -> Option<usize> {
-- 
2.43.0


From 7c64a4dbe854748c1dfdbea9f5c34801a8bccf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:33 +0000
Subject: [PATCH 42/49] fix: a reserved deflate block type is malformed input,
 not a crash

---
 doodle-formats/src/format/deflate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doodle-formats/src/format/deflate.rs b/doodle-formats/src/format/deflate.rs
index d65a860..41635b0 100644
--- a/doodle-formats/src/format/deflate.rs
+++ b/doodle-formats/src/format/deflate.rs
@@ -983,7 +983,7 @@ pub fn main(module: &mut FormatModule) -> FormatRef {
                             Pattern::U8(2),
                             fmt_variant("dynamic_huffman", dynamic_huffman.call()),
                         ),
-                        // (Pattern::U8(3), Format::Fail), // Reserved - never constructed due to Fail, so no variant needed
+                        (Pattern::U8(3), Format::Fail), // Reserved - never constructed due to Fail, so no variant needed
                     ],
                 )
             }),
-- 
2.43.0


From 5d3fd78bed96ae34072056a3ee1594f0d9a20d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:07 +0000
Subject: [PATCH 43/49] fix: regenerate the shipped decoders with the repaired
 generator

---
 generated/gencode.rs | 2808 ++++++++++++++++++++++++------------------
 1 file changed, 1617 insertions(+), 1191 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index a95c39b..a43b586 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -8829,7 +8844,7 @@ u64be(x)
 };
 let noise = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -8886,11 +8901,14 @@ PResult::Ok(waldo_main { r#where, noise, waldo })
 /// d#3
 fn Decoder3(_input: &mut Parser<'_>) -> Result<Vec<u32>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 90u8 => {
 1
 },
@@ -8900,7 +8918,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -8927,7 +8946,7 @@ let header = (Decoder_gif_header(_input))?;
 let logical_screen = (Decoder_gif_logical_screen(_input))?;
 let blocks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -8945,7 +8964,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(8638089167112501923u64));
 }
 };
 _input.close_peek_context()?;
@@ -8983,15 +9002,19 @@ PResult::Ok(accum)
 /// d#6
 fn Decoder6(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9053,12 +9076,16 @@ PResult::Ok(jpeg_main { soi, frame, eoi })
 fn Decoder_mpeg4_main(_input: &mut Parser<'_>) -> Result<mpeg4_main, ParseError> {
 let atoms = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -9083,7 +9110,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 };
 let ix1 = {
@@ -9091,7 +9118,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(15915510438164744429u64));
 }
 };
 let ix2 = {
@@ -9099,7 +9126,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(1542992798780655146u64));
 }
 };
 let ix3 = {
@@ -9107,7 +9134,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(7028560493922100069u64));
 }
 };
 let ix4 = {
@@ -9115,7 +9142,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(2649783168072194737u64));
 }
 };
 let ix5 = {
@@ -9123,7 +9150,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(8253205784254894771u64));
 }
 };
 let ix6 = {
@@ -9131,7 +9158,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(1225514472166157741u64));
 }
 };
 let ix7 = {
@@ -9139,7 +9166,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(1224415506115142500u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9147,7 +9174,7 @@ vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
 let ihdr = (Decoder_png_ihdr(_input))?;
 let chunks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9171,7 +9198,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 }
 },
@@ -9181,7 +9208,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(14898840355839773829u64));
 }
 }
 },
@@ -9195,7 +9222,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(9453951600195794313u64));
 }
 }
 },
@@ -9205,7 +9232,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(10036157788440812915u64));
 }
 };
 _input.close_peek_context()?;
@@ -9225,7 +9252,7 @@ let idat = {
 let idat = {
 let xs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9253,7 +9280,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(6349531732377484771u64));
 }
 }
 },
@@ -9263,7 +9290,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(13785646910930464515u64));
 }
 }
 },
@@ -9273,7 +9300,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(5323644471994966730u64));
 }
 }
 },
@@ -9283,7 +9310,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(13278122992382147879u64));
 }
 };
 _input.close_peek_context()?;
@@ -9311,7 +9338,7 @@ let buf_input = &mut buf_parser;
 };
 let more_chunks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 _input.read_byte()?;
@@ -9340,7 +9367,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(18159646757349796721u64));
 }
 }
 },
@@ -9350,7 +9377,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(7124606020426797957u64));
 }
 }
 },
@@ -9360,7 +9387,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(15116592996336247086u64));
 }
 }
 },
@@ -9370,7 +9397,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(10346499338674982396u64));
 }
 };
 _input.close_peek_context()?;
@@ -9398,7 +9425,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(10951432197815892834u64));
 }
 };
 let arg1 = {
@@ -9406,7 +9433,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(14864597187136898256u64));
 }
 };
 let arg2 = {
@@ -9414,7 +9441,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(15238960955167157760u64));
 }
 };
 let arg3 = {
@@ -9422,7 +9449,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(17527274083228188873u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9443,7 +9470,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(17855530393917176367u64));
 })
 } else {
 None
@@ -9491,7 +9518,7 @@ PResult::Ok(tiff_main { start_of_header, byte_order, magic, offset, ifd })
 fn Decoder_tar_main(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -9505,7 +9532,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(11054356281452530428u64));
 }
 };
 _input.close_peek_context()?;
@@ -9533,7 +9560,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(17406968167054271466u64));
 }
 };
 accum.push(next_elem)
@@ -9542,15 +9569,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -9562,7 +9593,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(11100042044514704042u64));
 }
 };
 accum.push(next_elem)
@@ -9689,7 +9720,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(5409189036752851054u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9703,7 +9734,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(4726315105662630465u64));
 }
 };
 let arg1 = {
@@ -9711,7 +9742,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 let arg2 = {
@@ -9719,7 +9750,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(13230337088401352826u64));
 }
 };
 let arg3 = {
@@ -9727,18 +9758,21 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 (arg0, arg1, arg2, arg3)
 };
 let values = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9772,7 +9806,8 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -9806,7 +9841,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 _input.close_peek_context()?;
@@ -9820,7 +9855,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9833,7 +9868,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9841,7 +9876,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(15631554783732883240u64));
 }
 })
 }
@@ -9854,11 +9889,14 @@ Decoder18(_input)
 /// d#18
 fn Decoder18(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9900,7 +9938,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -9964,7 +10003,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 _input.close_peek_context()?;
@@ -9978,10 +10017,10 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
-(char::from_u32(0u32)).unwrap()
+(char::from_u32(0u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
 },
 
 1 => {
@@ -9989,7 +10028,7 @@ return Err(ParseError::ExcludedBranch(179268011689651936u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 })
 }
@@ -10038,7 +10077,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 };
 _input.close_peek_context()?;
@@ -10052,7 +10091,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 };
 byte as u32
@@ -10066,7 +10105,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(9665974566873665536u64));
 }
 };
 raw & 31u8
@@ -10103,7 +10142,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 _input.close_peek_context()?;
@@ -10118,7 +10157,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 raw & 15u8
@@ -10129,7 +10168,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 raw & 63u8
@@ -10145,7 +10184,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 };
 raw & 15u8
@@ -10162,7 +10201,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 raw & 15u8
@@ -10173,7 +10212,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 63u8
@@ -10189,7 +10228,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 15u8
@@ -10200,13 +10239,13 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 }
 };
 {
 let (x2, x1, x0) = tuple_var;
-(x2 as u32) << 12u32 | (x1 as u32) << 6u32 | (x0 as u32)
+(x2 as u32) << 12u32 | ((x1 as u32) << 6u32 | (x0 as u32))
 }
 },
 
@@ -10229,7 +10268,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 _input.close_peek_context()?;
@@ -10244,7 +10283,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 };
 raw & 7u8
@@ -10255,7 +10294,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 63u8
@@ -10272,7 +10311,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 7u8
@@ -10290,7 +10329,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 raw & 7u8
@@ -10301,7 +10340,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 };
 raw & 63u8
@@ -10312,22 +10351,22 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 }
 };
 {
 let (x3, x2, x1, x0) = tuple_var;
-(x3 as u32) << 18u32 | (x2 as u32) << 12u32 | (x1 as u32) << 6u32 | (x0 as u32)
+(x3 as u32) << 18u32 | ((x2 as u32) << 12u32 | ((x1 as u32) << 6u32 | (x0 as u32)))
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
-PResult::Ok((char::from_u32(codepoint)).unwrap())
+PResult::Ok((char::from_u32(codepoint)).unwrap_or(char::REPLACEMENT_CHARACTER))
 }
 
 /// d#21
@@ -10337,7 +10376,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10347,12 +10386,16 @@ PResult::Ok(raw & 63u8)
 fn Decoder_rle_old_style(_input: &mut Parser<'_>) -> Result<rle_old_style, ParseError> {
 let runs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10374,12 +10417,16 @@ PResult::Ok(rle_old_style { runs, data })
 fn Decoder_rle_new_style(_input: &mut Parser<'_>) -> Result<rle_new_style, ParseError> {
 let _runs = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10466,7 +10513,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11936787736236307191u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 _input.close_peek_context()?;
@@ -10481,7 +10528,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 _input.read_byte()?
@@ -10496,7 +10543,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10512,7 +10559,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10528,7 +10575,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10544,7 +10591,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10560,7 +10607,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 let raw = {
@@ -10579,7 +10626,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let raw = {
@@ -10598,7 +10645,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let raw = {
@@ -10611,7 +10658,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 })
 }
@@ -10630,7 +10677,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3167775832820164678u64));
+return Err(ParseError::FalsifiedWhere(240888096670347429u64));
 }
 };
 let num_tables = {
@@ -10675,7 +10722,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7215050775822222282u64));
+return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
 }
 };
 let major_version = {
@@ -10921,12 +10968,16 @@ let sz = table.length as usize;
 view_input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while view_input.remaining() > 0 {
+loop {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -10962,12 +11013,16 @@ let sz = table.length as usize;
 view_input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while view_input.remaining() > 0 {
+loop {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11035,12 +11090,16 @@ let sz = table.length as usize;
 view_input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while view_input.remaining() > 0 {
+loop {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() == 0 {
+1
+} else {
+view_input.read_byte()?;
+0
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11284,7 +11343,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11296,6 +11355,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11313,11 +11373,13 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.end_alt()?;
 res
 },
 
 Err(err) => {
 log::error!("expect-level value assertion failed: {}", err);
+_input.next_alt(true)?;
 None
 }
 }
@@ -11393,7 +11455,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12652804269632162478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3167775832820164678u64));
 inner
 }
 };
@@ -11409,7 +11471,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18134882366868794706u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7215050775822222282u64));
 inner
 }
 };
@@ -11430,7 +11492,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let arg1 = {
@@ -11438,7 +11500,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let arg2 = {
@@ -11446,7 +11508,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let arg3 = {
@@ -11454,7 +11516,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11475,7 +11537,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4762692522317026931u64));
+return Err(ParseError::FalsifiedWhere(17920584887603040596u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11590,7 +11652,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9630069758457681762u64));
+return Err(ParseError::FalsifiedWhere(5673845796627816005u64));
 }
 };
 let glyph_data_format = {
@@ -11605,7 +11667,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
 inner
 }
 };
@@ -11626,7 +11688,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11642,7 +11704,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9630069758457681762u64));
 inner
 }
 };
@@ -11729,7 +11791,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
 inner
 }
 };
@@ -11745,7 +11807,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
 inner
 }
 };
@@ -11761,7 +11823,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
 inner
 }
 };
@@ -11777,7 +11839,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
 inner
 }
 };
@@ -11795,7 +11857,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
 inner
 }
 };
@@ -12377,7 +12439,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
 inner
 }
 };
@@ -12393,7 +12455,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(980800817911480223u64));
+return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
 }
 };
 let horiz_axis_offset = {
@@ -12441,7 +12503,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -12487,7 +12549,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(7801539417877429212u64));
+return Err(ParseError::FailToken(1079884235207081886u64));
 },
 
 2u16 => {
@@ -12570,7 +12632,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -12631,7 +12693,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -12690,7 +12752,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -12706,7 +12768,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -12722,7 +12784,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -12757,7 +12819,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -12773,7 +12835,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12789,7 +12851,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7343323033370781545u64));
+return Err(ParseError::FalsifiedWhere(8987822076696059625u64));
 }
 };
 {
@@ -12804,7 +12866,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12824,7 +12886,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
 inner
 }
 };
@@ -12859,7 +12921,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12875,7 +12937,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12962,7 +13024,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12978,7 +13040,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -13033,7 +13095,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -13049,7 +13111,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -13065,7 +13127,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -13081,7 +13143,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -13124,7 +13186,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -13148,7 +13210,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2818918064991511645u64));
+return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13168,7 +13230,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -13203,7 +13265,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -13219,7 +13281,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13272,7 +13334,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13288,7 +13350,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13375,7 +13437,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13391,7 +13453,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13407,7 +13469,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13423,7 +13485,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13441,7 +13503,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13508,7 +13570,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13549,7 +13611,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13569,7 +13631,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16097120758067046920u64));
+return Err(ParseError::FalsifiedWhere(10263667190582992611u64));
 }
 };
 let records = {
@@ -13605,7 +13667,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13625,7 +13687,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(12275201028130973875u64));
 }
 };
 let ratio_range = {
@@ -13749,7 +13811,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13765,7 +13827,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13840,7 +13902,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10502127387712395480u64));
+return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
 }
 };
 let data = match format {
@@ -14030,7 +14092,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -14062,7 +14124,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5322124757500927073u64));
+return Err(ParseError::FailToken(17544092807091201u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14216,7 +14278,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -14253,7 +14315,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -14276,6 +14338,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -14322,11 +14385,14 @@ Decoder78(_input)
 /// d#78
 fn Decoder78(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -14368,7 +14434,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -14388,15 +14455,19 @@ PResult::Ok(accum)
 /// d#79
 fn Decoder79(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -14454,7 +14525,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(5322124757500927073u64));
 }
 };
 let ix1 = {
@@ -14462,7 +14533,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(17869550927478639832u64));
 }
 };
 vec![ix0, ix1]
@@ -14489,12 +14560,16 @@ let sz = xlen as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -14518,7 +14593,7 @@ PResult::Ok(gzip_fextra { xlen, subfields })
 fn Decoder82(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -14532,7 +14607,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(13431462572241034712u64));
 }
 };
 _input.close_peek_context()?;
@@ -14545,7 +14620,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(3433937857563719729u64));
 }
 };
 accum.push(next_elem)
@@ -14560,7 +14635,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(13516986665125759073u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14571,7 +14646,7 @@ fn Decoder_gzip_fcomment(_input: &mut Parser<'_>) -> Result<gzip_fcomment, Parse
 let comment = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -14585,7 +14660,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 _input.close_peek_context()?;
@@ -14598,7 +14673,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(5733880678136728614u64));
 }
 };
 accum.push(next_elem)
@@ -14613,7 +14688,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(8997881400116719018u64));
 }
 };
 chars.clone()
@@ -14719,6 +14794,10 @@ let inner = (Decoder_deflate_dynamic_huffman(_input))?;
 deflate_block_data::dynamic_huffman(inner)
 },
 
+3u8 => {
+return Err(ParseError::FailToken(13614619987783239962u64));
+},
+
 _other => {
 unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
 }
@@ -14731,18 +14810,18 @@ fn Decoder_deflate_uncompressed(_input: &mut Parser<'_>) -> Result<deflate_uncom
 _input.skip_align(8)?;
 let len = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16 | (bits.13 as u16) << 13u16 | (bits.14 as u16) << 14u16 | (bits.15 as u16) << 15u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | ((bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | ((bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16) | ((bits.12 as u16) << 12u16 | (bits.13 as u16) << 13u16 | ((bits.14 as u16) << 14u16 | (bits.15 as u16) << 15u16)))
 };
 let nlen = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16 | (bits.13 as u16) << 13u16 | (bits.14 as u16) << 14u16 | (bits.15 as u16) << 15u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | ((bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | ((bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16) | ((bits.12 as u16) << 12u16 | (bits.13 as u16) << 13u16 | ((bits.14 as u16) << 14u16 | (bits.15 as u16) << 15u16)))
 };
 let bytes = {
 let mut accum = Vec::new();
 for _ in 0..len {
 let next_elem = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8 | bits.5 << 5u8 | bits.6 << 6u8 | bits.7 << 7u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | (bits.4 << 4u8 | bits.5 << 5u8 | (bits.6 << 6u8 | bits.7 << 7u8))
 };
 accum.push(next_elem)
 };
@@ -14773,7 +14852,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14791,7 +14870,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14809,7 +14888,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14827,7 +14906,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14845,7 +14924,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14863,7 +14942,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14881,7 +14960,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14899,7 +14978,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14920,7 +14999,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14941,7 +15020,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14962,7 +15041,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -14983,7 +15062,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15004,7 +15083,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15025,7 +15104,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15046,7 +15125,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15067,7 +15146,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15088,7 +15167,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15109,7 +15188,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15130,7 +15209,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15151,7 +15230,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15160,7 +15239,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 277u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 67u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15172,7 +15251,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15181,7 +15260,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 278u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 83u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15193,7 +15272,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15202,7 +15281,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 279u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 99u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15214,7 +15293,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15223,7 +15302,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 280u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 115u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15235,7 +15314,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15244,7 +15323,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 281u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 131u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15256,7 +15335,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15265,7 +15344,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 282u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 163u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15277,7 +15356,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15286,7 +15365,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 283u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 195u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15298,7 +15377,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15307,7 +15386,7 @@ Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_co
 284u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 227u16 + (length_extra_bits as u16);
 let distance_code = {
@@ -15319,7 +15398,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15337,7 +15416,7 @@ accum.push(next_elem)
 };
 accum
 };
-bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize]
+bits[0u32 as usize] << 4u8 | bits[1u32 as usize] << 3u8 | (bits[2u32 as usize] << 2u8 | bits[3u32 as usize] << 1u8 | bits[4u32 as usize])
 };
 let distance_record = (Decoder_deflate_distance_record0(_input, distance_code as u16))?;
 Some(deflate_fixed_huffman_codes_values { length_extra_bits, length, distance_code, distance_record })
@@ -15401,15 +15480,15 @@ PResult::Ok(deflate_fixed_huffman { codes, codes_values })
 fn Decoder_deflate_dynamic_huffman(_input: &mut Parser<'_>) -> Result<deflate_dynamic_huffman, ParseError> {
 let hlit = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let hdist = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let hclen = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let code_length_alphabet_code_lengths = {
 let mut accum = Vec::new();
@@ -15666,7 +15745,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 277u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 67u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15677,7 +15756,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 278u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 83u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15688,7 +15767,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 279u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 99u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15699,7 +15778,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 280u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8)
 };
 let length = 115u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15710,7 +15789,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 281u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 131u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15721,7 +15800,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 282u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 163u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15732,7 +15811,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 283u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 195u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15743,7 +15822,7 @@ Some(deflate_dynamic_huffman_codes_values { length_extra_bits, length, distance_
 284u16 => {
 let length_extra_bits = {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | bits.4 << 4u8
 };
 let length = 227u16 + (length_extra_bits as u16);
 let distance_code = (distance_alphabet_format(_input))?;
@@ -15833,7 +15912,7 @@ bits.0 | bits.1 << 1u8 | bits.2 << 2u8
 
 18u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-bits.0 | bits.1 << 1u8 | bits.2 << 2u8 | bits.3 << 3u8 | bits.4 << 4u8 | bits.5 << 5u8 | bits.6 << 6u8
+bits.0 | bits.1 << 1u8 | (bits.2 << 2u8 | bits.3 << 3u8) | (bits.4 << 4u8 | bits.5 << 5u8 | bits.6 << 6u8)
 },
 
 _ => {
@@ -15856,7 +15935,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(6949960292533894002u64));
 }
 }))
 },
@@ -16008,7 +16087,7 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(1347174710810305478u64));
 },
 
 _other => {
@@ -16041,52 +16120,52 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 
 4u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16)
 },
 
 5u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | (bits.4 as u16) << 4u16
 },
 
 6u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16)
 },
 
 7u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16)
 },
 
 8u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16))
 },
 
 9u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | (bits.8 as u16) << 8u16
 },
 
 10u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | ((bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16)
 },
 
 11u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | ((bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16)
 },
 
 12u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | ((bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | ((bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16))
 },
 
 13u8 => {
 let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
-(bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16
+(bits.0 as u16) | (bits.1 as u16) << 1u16 | ((bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16) | ((bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | ((bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16)) | ((bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | ((bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16) | (bits.12 as u16) << 12u16)
 },
 
 _other => {
@@ -16143,7 +16222,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
 inner
 }
 };
@@ -16209,7 +16288,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(15803403730818557393u64));
 }
 };
 let variation_regions = {
@@ -16382,7 +16461,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8390724546948265409u64));
 inner
 }
 };
@@ -16466,7 +16545,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(6347242493551283856u64));
 }
 };
 let tuple_variation_headers = {
@@ -16659,7 +16738,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 _input.close_peek_context()?;
@@ -16673,7 +16752,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 (0u16, [].to_vec())
@@ -16685,7 +16764,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16697,7 +16776,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16705,7 +16784,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 })
 }
@@ -16835,7 +16914,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1278184758971178969u64));
 inner
 }
 };
@@ -16984,7 +17063,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4480225125687487743u64));
 inner
 }
 };
@@ -17000,7 +17079,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12879845237981630531u64));
 inner
 }
 };
@@ -17056,7 +17135,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
 inner
 }
 };
@@ -17072,7 +17151,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
 inner
 }
 };
@@ -17214,7 +17293,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(17349123374714965876u64));
 }
 };
 let table_scope = table_view;
@@ -17230,7 +17309,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(2153064741293804702u64));
 }
 };
 let extension_offset = {
@@ -17283,11 +17362,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(1588651938759015246u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(3249387167439447765u64));
 }
 })
 }
@@ -17311,7 +17390,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(7744051144774795087u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17380,7 +17459,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(8700288293163706751u64));
 }
 };
 let coverage = {
@@ -17429,7 +17508,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let coverage = {
@@ -17487,7 +17566,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(13846498452079501214u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17518,7 +17597,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(9798710097031164942u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17539,7 +17618,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
 }
 };
 let table_scope = table_view;
@@ -17670,7 +17749,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(18279137173405083757u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17918,7 +17997,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(14954891776835932150u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18160,7 +18239,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
 }
 };
 let seq_lookup_count = {
@@ -18398,7 +18477,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -18547,7 +18626,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(9342187932533045817u64));
 }
 };
 let table_scope = table_view;
@@ -18563,7 +18642,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
 }
 };
 let extension_offset = {
@@ -18621,11 +18700,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(2688427941405105545u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(6279463968646665849u64));
 }
 })
 }
@@ -18649,7 +18728,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(10875553067752207222u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18674,7 +18753,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(11323981950571132721u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18695,7 +18774,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
 }
 };
 let table_scope = table_view;
@@ -18737,7 +18816,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(3270685119814653163u64));
 }
 };
 let table_scope = table_view;
@@ -18796,7 +18875,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(6821845925776570829u64));
 }
 };
 let mark_coverage = {
@@ -18853,7 +18932,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let table_scope = table_view;
@@ -19011,7 +19090,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19159,7 +19238,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(9179996462972575343u64));
 }
 };
 let arg1 = {
@@ -19167,7 +19246,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(3675496117133668659u64));
 }
 };
 (arg0, arg1)
@@ -19441,12 +19520,12 @@ PResult::Ok(opentype_layout_value_format_flags { y_advance_device, x_advance_dev
 
 /// d#184
 fn Decoder_opentype_layout_pair_pos_class2_record<'input>(_input: &mut Parser<'input>, value_format1: opentype_layout_value_format_flags, value_format2: opentype_layout_value_format_flags, table_view: View<'input>) -> Result<opentype_layout_pair_pos_class2_record, ParseError> {
-let value_record1 = if value_format1.x_placement || value_format1.y_placement || value_format1.x_advance || value_format1.y_advance || value_format1.x_placement_device || value_format1.y_placement_device || value_format1.x_advance_device || value_format1.y_advance_device {
+let value_record1 = if value_format1.x_placement || value_format1.y_placement || (value_format1.x_advance || value_format1.y_advance) || (value_format1.x_placement_device || value_format1.y_placement_device || (value_format1.x_advance_device || value_format1.y_advance_device)) {
 Some((Decoder_opentype_layout_value_record(_input, value_format1, table_view))?)
 } else {
 None
 };
-let value_record2 = if value_format2.x_placement || value_format2.y_placement || value_format2.x_advance || value_format2.y_advance || value_format2.x_placement_device || value_format2.y_placement_device || value_format2.x_advance_device || value_format2.y_advance_device {
+let value_record2 = if value_format2.x_placement || value_format2.y_placement || (value_format2.x_advance || value_format2.y_advance) || (value_format2.x_placement_device || value_format2.y_placement_device || (value_format2.x_advance_device || value_format2.y_advance_device)) {
 Some((Decoder186(_input, value_format2, table_view))?)
 } else {
 None
@@ -19641,12 +19720,12 @@ let second_glyph = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let value_record1 = if value_format1.x_placement || value_format1.y_placement || value_format1.x_advance || value_format1.y_advance || value_format1.x_placement_device || value_format1.y_placement_device || value_format1.x_advance_device || value_format1.y_advance_device {
+let value_record1 = if value_format1.x_placement || value_format1.y_placement || (value_format1.x_advance || value_format1.y_advance) || (value_format1.x_placement_device || value_format1.y_placement_device || (value_format1.x_advance_device || value_format1.y_advance_device)) {
 Some((Decoder189(_input, value_format1, set_view))?)
 } else {
 None
 };
-let value_record2 = if value_format2.x_placement || value_format2.y_placement || value_format2.x_advance || value_format2.y_advance || value_format2.x_placement_device || value_format2.y_placement_device || value_format2.x_advance_device || value_format2.y_advance_device {
+let value_record2 = if value_format2.x_placement || value_format2.y_placement || (value_format2.x_advance || value_format2.y_advance) || (value_format2.x_placement_device || value_format2.y_placement_device || (value_format2.x_advance_device || value_format2.y_advance_device)) {
 Some((Decoder190(_input, value_format2, set_view))?)
 } else {
 None
@@ -20105,7 +20184,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6495907546257147840u64));
 inner
 }
 };
@@ -20196,7 +20275,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20445,7 +20524,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20509,7 +20588,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21158,7 +21237,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(16529910322175208638u64));
 }
 };
 let max_twilight_points = {
@@ -21201,7 +21280,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21320,7 +21399,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8766708729375264031u64));
 inner
 }
 };
@@ -21345,7 +21424,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1369437808023015077u64));
 inner
 }
 };
@@ -21388,7 +21467,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(163858356033350300u64));
 inner
 }
 };
@@ -21403,7 +21482,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(888161872995526095u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21424,7 +21503,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
 inner
 }
 };
@@ -21440,7 +21519,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let language = {
@@ -21516,12 +21595,16 @@ accum
 };
 let glyph_array = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21561,7 +21644,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3595277668730903043u64));
 inner
 }
 };
@@ -21586,7 +21669,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
 inner
 }
 };
@@ -21640,7 +21723,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
 inner
 }
 };
@@ -21679,12 +21762,16 @@ accum
 };
 let glyph_array = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21721,7 +21808,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
 inner
 }
 };
@@ -21772,7 +21859,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
 inner
 }
 };
@@ -21788,7 +21875,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
 inner
 }
 };
@@ -21813,7 +21900,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -21829,7 +21916,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
 inner
 }
 };
@@ -21884,7 +21971,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
 inner
 }
 };
@@ -21900,7 +21987,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21925,7 +22012,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21941,7 +22028,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -21995,7 +22082,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
 inner
 }
 };
@@ -22011,7 +22098,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -22036,7 +22123,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -22052,7 +22139,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -22099,7 +22186,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -22115,7 +22202,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -22140,7 +22227,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -22156,7 +22243,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -22203,7 +22290,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -22228,7 +22315,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -22395,7 +22482,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(10057441536650509049u64));
 })
 }
 
@@ -22581,7 +22668,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(11815677057767015929u64));
 }
 };
 let arg1 = {
@@ -22589,7 +22676,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(829032137919921844u64));
 }
 };
 let arg2 = {
@@ -22597,7 +22684,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(5170050512307443704u64));
 }
 };
 let arg3 = {
@@ -22605,7 +22692,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(18440348483137307888u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22617,15 +22704,19 @@ let os_abi = (Decoder263(_input))?;
 let abi_version = (Decoder264(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22637,7 +22728,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(11309019127259385425u64));
 }
 };
 accum.push(next_elem)
@@ -22660,7 +22751,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(5159371628350638829u64));
 })
 }
 
@@ -22679,7 +22770,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(7762269623995317946u64));
 })
 }
 
@@ -22709,7 +22800,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(16134612799304961491u64));
 })
 }
 
@@ -22723,7 +22814,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
 })
 }
 
@@ -22737,7 +22828,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
 })
 }
 
@@ -22784,7 +22875,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -22798,7 +22889,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(173922233423713068u64));
 }
 };
 _input.close_peek_context()?;
@@ -22811,7 +22902,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(12540117573097456360u64));
 }
 };
 accum.push(next_elem)
@@ -22824,15 +22915,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22844,7 +22939,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(515819609734101411u64));
 }
 };
 accum.push(next_elem)
@@ -22865,7 +22960,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -22879,7 +22974,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(9277543013594125416u64));
 }
 };
 _input.close_peek_context()?;
@@ -22892,7 +22987,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(5955168674639093440u64));
 }
 };
 accum.push(next_elem)
@@ -22905,15 +23000,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -22925,7 +23024,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(4471438437047399494u64));
 }
 };
 accum.push(next_elem)
@@ -22946,7 +23045,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -22960,7 +23059,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(13319523888327217639u64));
 }
 };
 _input.close_peek_context()?;
@@ -22973,7 +23072,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 };
 accum.push(next_elem)
@@ -22986,15 +23085,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23006,7 +23109,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
 accum.push(next_elem)
@@ -23029,12 +23132,23 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+}
+};
+try_sub!(bit as u8, 48u8, 16299205781335471965u64)
+};
+let _o9 = {
+let bit = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
+b
+} else {
 return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 try_sub!(bit as u8, 48u8, 8094248233631264621u64)
 };
-let _o9 = {
+let _o8 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23045,7 +23159,7 @@ return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 };
 try_sub!(bit as u8, 48u8, 7230273548678969972u64)
 };
-let _o8 = {
+let _o7 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23056,7 +23170,7 @@ return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 };
 try_sub!(bit as u8, 48u8, 9038350950373664822u64)
 };
-let _o7 = {
+let _o6 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23067,7 +23181,7 @@ return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 };
 try_sub!(bit as u8, 48u8, 14681668243282477517u64)
 };
-let _o6 = {
+let _o5 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23078,7 +23192,7 @@ return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 };
 try_sub!(bit as u8, 48u8, 12217686503432178884u64)
 };
-let _o5 = {
+let _o4 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23089,7 +23203,7 @@ return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 };
 try_sub!(bit as u8, 48u8, 9815657591077818003u64)
 };
-let _o4 = {
+let _o3 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23100,7 +23214,7 @@ return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 };
 try_sub!(bit as u8, 48u8, 14485842416732585139u64)
 };
-let _o3 = {
+let _o2 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23111,7 +23225,7 @@ return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 };
 try_sub!(bit as u8, 48u8, 13780055874544357936u64)
 };
-let _o2 = {
+let _o1 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23122,7 +23236,7 @@ return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 };
 try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
-let _o1 = {
+let _o0 = {
 let bit = {
 let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
@@ -23133,19 +23247,8 @@ return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 };
 try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
-let _o0 = {
-let bit = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
-b
-} else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
-}
-};
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
-};
 (Decoder268(_input))?;
-let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
+let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | ((_o9 as u32) << 3u32 | (_o8 as u32))) << 24u32 | ((((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | ((_o5 as u32) << 3u32 | (_o4 as u32))) << 12u32 | (((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | ((_o1 as u32) << 3u32 | (_o0 as u32))));
 tar_header_size_lhs { value }
 };
 rec.value
@@ -23156,7 +23259,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23170,7 +23273,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
 _input.close_peek_context()?;
@@ -23183,7 +23286,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
 accum.push(next_elem)
@@ -23196,15 +23299,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23216,7 +23323,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(16437491640759399344u64));
 }
 };
 accum.push(next_elem)
@@ -23237,7 +23344,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23251,7 +23358,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
 _input.close_peek_context()?;
@@ -23264,7 +23371,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
 accum.push(next_elem)
@@ -23277,15 +23384,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23297,7 +23408,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(17176374570344757031u64));
 }
 };
 accum.push(next_elem)
@@ -23326,7 +23437,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
 let arg1 = {
@@ -23334,7 +23445,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
 let arg2 = {
@@ -23342,7 +23453,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(3653195934333285574u64));
 }
 };
 let arg3 = {
@@ -23350,7 +23461,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
 let arg4 = {
@@ -23358,7 +23469,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
 let arg5 = {
@@ -23366,7 +23477,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(8898504689444561451u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23377,7 +23488,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
 let arg1 = {
@@ -23385,7 +23496,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
 (arg0, arg1)
@@ -23410,7 +23521,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23424,7 +23535,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(10046433636842398056u64));
 }
 };
 _input.close_peek_context()?;
@@ -23437,7 +23548,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
 accum.push(next_elem)
@@ -23450,15 +23561,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23470,7 +23585,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
 accum.push(next_elem)
@@ -23491,7 +23606,7 @@ _input.start_slice(sz)?;
 let ret = ((|| {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23505,7 +23620,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(5986772336072340665u64));
 }
 };
 _input.close_peek_context()?;
@@ -23518,7 +23633,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 accum.push(next_elem)
@@ -23531,15 +23646,19 @@ accum
 (Decoder268(_input))?;
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23551,7 +23670,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 accum.push(next_elem)
@@ -23581,7 +23700,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 accum.push(next_elem)
@@ -23598,11 +23717,14 @@ PResult::Ok(ret)
 fn Decoder_tar_ascii_string_opt0_nonempty(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -23612,7 +23734,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+0
+}
 }
 };
 _input.close_peek_context()?;
@@ -23631,7 +23754,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 accum.push(next_elem)
@@ -23641,15 +23764,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23661,7 +23788,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 accum.push(next_elem)
@@ -23680,7 +23807,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 })
 }
 
@@ -23688,11 +23815,14 @@ return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 fn Decoder269(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 byte if (byte != 0) => {
 0
 },
@@ -23702,7 +23832,8 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -23715,7 +23846,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23727,15 +23858,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23747,7 +23882,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 accum.push(next_elem)
@@ -23764,7 +23899,7 @@ PResult::Ok(tar_ascii_string_opt0_nonempty { string })
 fn Decoder270(_input: &mut Parser<'_>) -> Result<tar_ascii_string_opt0_nonempty, ParseError> {
 let string = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -23778,7 +23913,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 _input.close_peek_context()?;
@@ -23791,7 +23926,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23803,15 +23938,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -23829,7 +23968,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 accum.push(next_elem)
@@ -23855,7 +23994,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 _input.close_peek_context()?;
@@ -23869,7 +24008,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 let arg1 = {
@@ -23877,7 +24016,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23889,7 +24028,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg1 = {
@@ -23897,14 +24036,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 })
 }
@@ -23960,12 +24099,16 @@ u32le(x)
 };
 let next_ifd = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24020,12 +24163,16 @@ u32be(x)
 };
 let next_ifd = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24047,12 +24194,16 @@ fn Decoder_riff_subchunks(_input: &mut Parser<'_>) -> Result<riff_subchunks, Par
 let tag = (Decoder276(_input))?;
 let chunks = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24086,12 +24237,16 @@ let sz = length as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24113,7 +24268,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 })
 } else {
 None
@@ -24135,7 +24290,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(14600508952542130472u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24167,7 +24322,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(460669108121189046u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24253,12 +24408,16 @@ png_chunk_data::tIME(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24299,7 +24458,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(8971553008180040990u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24333,7 +24492,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(1310624491311340594u64));
 }
 };
 let flags = {
@@ -24376,7 +24535,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(11225936372640404826u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24394,7 +24553,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 let arg1 = {
@@ -24402,7 +24561,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 let arg2 = {
@@ -24410,7 +24569,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 let arg3 = {
@@ -24418,7 +24577,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24431,7 +24590,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 let arg1 = {
@@ -24439,7 +24598,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 let arg2 = {
@@ -24447,7 +24606,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 let arg3 = {
@@ -24455,7 +24614,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24464,12 +24623,16 @@ PResult::Ok((arg0, arg1, arg2, arg3))
 /// d#285
 fn Decoder285(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24497,7 +24660,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 let arg1 = {
@@ -24505,7 +24668,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 let arg2 = {
@@ -24513,7 +24676,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 let arg3 = {
@@ -24521,7 +24684,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24530,6 +24693,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24544,7 +24708,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg1 = {
@@ -24552,7 +24716,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 let arg2 = {
@@ -24560,7 +24724,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 let arg3 = {
@@ -24568,7 +24732,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24585,8 +24749,9 @@ Err(_e)
 }
 }
 })())();
+_input.close_peek_not_context()?;
 if res.is_err() {
-_input.close_peek_not_context()?
+()
 } else {
 return Err(ParseError::NegatedSuccess);
 }
@@ -24598,7 +24763,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 accum.push(next_elem)
@@ -24609,12 +24774,16 @@ PResult::Ok(accum)
 /// d#287
 fn Decoder287(_input: &mut Parser<'_>) -> Result<Vec<gif_color_table_entry>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24674,12 +24843,16 @@ png_trns::color_type_2(inner)
 3u8 => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24760,7 +24933,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 };
 val.clone()
@@ -24770,7 +24943,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24845,7 +25018,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24860,7 +25033,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 val.clone()
@@ -24870,7 +25043,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 let compression_method = {
@@ -24878,13 +25051,13 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 let language_tag = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -24898,7 +25071,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 _input.close_peek_context()?;
@@ -24911,7 +25084,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 accum.push(next_elem)
@@ -24926,7 +25099,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 chars.clone()
@@ -24938,7 +25111,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 val.clone()
@@ -24961,6 +25134,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt()?;
 return PResult::Ok(inner);
 },
 
@@ -24972,12 +25146,16 @@ let res = (|| {
 let inner = {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25024,19 +25202,23 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 val.clone()
 };
 let text = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25062,7 +25244,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 val.clone()
@@ -25072,7 +25254,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let compressed_text = {
@@ -25165,12 +25347,16 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 fn Decoder_png_hist(_input: &mut Parser<'_>) -> Result<png_hist, ParseError> {
 let histogram = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25213,7 +25399,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 val.clone()
@@ -25223,19 +25409,23 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let palette = match sample_depth {
 8u8 => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25265,12 +25455,16 @@ png_splt_palette::sample_depth_u8(inner)
 16u8 => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25333,7 +25527,7 @@ PResult::Ok(png_time { year, month, day, hour, minute, second })
 /// d#302
 fn Decoder302(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -25814,6 +26008,36 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
@@ -26255,36 +26479,6 @@ return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -26298,7 +26492,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
 }
 };
 accum.push(next_elem)
@@ -26310,7 +26504,7 @@ PResult::Ok(accum)
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -26791,6 +26985,36 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
@@ -27232,36 +27456,6 @@ return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 _ => {
 return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -27275,7 +27469,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(3595083506735372973u64));
 }
 };
 accum.push(next_elem)
@@ -27300,7 +27494,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2734069901426030304u64));
+return Err(ParseError::FalsifiedWhere(7160308966995483862u64));
 }
 };
 let flags = {
@@ -27332,7 +27526,7 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#305
 fn Decoder305(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -27809,8 +28003,38 @@ match _input.read_byte()? {
 78
 },
 
-byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
-79
+byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(byte)) => {
+79
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
+}
+}
 },
 
 _ => {
@@ -28254,36 +28478,6 @@ return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 _ => {
 return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -28297,7 +28491,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
 }
 };
 accum.push(next_elem)
@@ -28309,7 +28503,7 @@ PResult::Ok(accum)
 /// d#306
 fn Decoder306(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -28790,6 +28984,36 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
@@ -29231,36 +29455,6 @@ return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 _ => {
 return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -29274,7 +29468,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 };
 accum.push(next_elem)
@@ -29286,7 +29480,7 @@ PResult::Ok(accum)
 /// d#307
 fn Decoder307(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -29332,7 +29526,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(78099073500381561u64));
 }
 };
 _input.close_peek_context()?;
@@ -29365,7 +29559,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14275129881911283147u64));
+return Err(ParseError::FalsifiedWhere(5364461768558038471u64));
 }
 };
 let flags = {
@@ -29397,11 +29591,14 @@ PResult::Ok(zlib_main { compression_method_flags, flags, dict_id, data, adler32
 /// d#309
 fn Decoder309(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 byte if ((ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(byte)) => {
 0
 },
@@ -29439,7 +29636,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -29464,11 +29662,14 @@ Decoder311(_input)
 /// d#311
 fn Decoder311(_input: &mut Parser<'_>) -> Result<Vec<char>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -29510,7 +29711,8 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+1
+}
 }
 };
 _input.close_peek_context()?;
@@ -29530,7 +29732,7 @@ PResult::Ok(accum)
 /// d#312
 fn Decoder312(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -30011,6 +30213,48 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
@@ -30440,48 +30684,6 @@ return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 _ => {
 return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -30495,7 +30697,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(7227788188777836434u64));
 }
 };
 accum.push(next_elem)
@@ -30520,7 +30722,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6882184431082022206u64));
+return Err(ParseError::FalsifiedWhere(2859130192484418172u64));
 }
 };
 let flags = {
@@ -30556,7 +30758,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 };
 let arg1 = {
@@ -30564,7 +30766,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 };
 let arg2 = {
@@ -30572,7 +30774,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 };
 let arg3 = {
@@ -30580,7 +30782,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30621,7 +30823,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 1328880024623199753u64)
 },
 
 _ => {
@@ -30652,12 +30854,16 @@ u32be(x)
 };
 let arg1 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30677,12 +30883,16 @@ mpeg4_atom_data::meta(arg0, arg1)
 (109u8, 111u8, 111u8, 118u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30702,12 +30912,16 @@ mpeg4_atom_data::moov(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30744,12 +30958,16 @@ u32be(x)
 };
 let compatible_brands = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30783,7 +31001,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 3998072683184925592u64)
 },
 
 _ => {
@@ -30817,7 +31035,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 7279615132236188739u64)
 },
 
 _ => {
@@ -30836,12 +31054,16 @@ mpeg4_moov_atom_data::mvhd(inner)
 (116u8, 114u8, 97u8, 107u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30861,12 +31083,16 @@ mpeg4_moov_atom_data::trak(inner)
 (117u8, 100u8, 116u8, 97u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30886,12 +31112,16 @@ mpeg4_moov_atom_data::udta(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
+{
+let ret = if _input.remaining() == 0 {
+1
+} else {
 _input.read_byte()?;
-{
-let ret = 0;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31038,7 +31268,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 13863787293436782080u64)
 },
 
 _ => {
@@ -31057,12 +31287,16 @@ mpeg4_trak_atom_data::tkhd(inner)
 (101u8, 100u8, 116u8, 115u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31082,12 +31316,16 @@ mpeg4_trak_atom_data::edts(inner)
 (109u8, 100u8, 105u8, 97u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31107,12 +31345,16 @@ mpeg4_trak_atom_data::mdia(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31152,7 +31394,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 2157707350523277837u64)
 },
 
 _ => {
@@ -31170,12 +31412,16 @@ u32be(x)
 };
 let arg1 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31195,12 +31441,16 @@ mpeg4_udta_atom_data::meta(arg0, arg1)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31352,7 +31602,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 14950271805613481359u64)
 },
 
 _ => {
@@ -31371,12 +31621,16 @@ mpeg4_edts_atom_data::elst(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31416,7 +31670,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 11265176092564100083u64)
 },
 
 _ => {
@@ -31449,12 +31703,16 @@ mpeg4_mdia_atom_data::mdhd(inner)
 (109u8, 105u8, 110u8, 102u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31474,12 +31732,16 @@ mpeg4_mdia_atom_data::minf(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31522,7 +31784,7 @@ u32be(x)
 let component_name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -31536,7 +31798,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 };
 _input.close_peek_context()?;
@@ -31549,7 +31811,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 };
 accum.push(next_elem)
@@ -31564,7 +31826,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 };
 chars.clone()
@@ -31655,7 +31917,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 760820951392925727u64)
 },
 
 _ => {
@@ -31679,12 +31941,16 @@ mpeg4_minf_atom_data::smhd(inner)
 (100u8, 105u8, 110u8, 102u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31704,12 +31970,16 @@ mpeg4_minf_atom_data::dinf(inner)
 (115u8, 116u8, 98u8, 108u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31729,12 +31999,16 @@ mpeg4_minf_atom_data::stbl(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31811,7 +32085,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 4600414761378562541u64)
 },
 
 _ => {
@@ -31830,12 +32104,16 @@ mpeg4_dinf_atom_data::dref(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31875,7 +32153,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 15786118691017431738u64)
 },
 
 _ => {
@@ -31939,12 +32217,16 @@ mpeg4_stbl_atom_data::sbgp(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32280,7 +32562,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 16399036514137665776u64)
 },
 
 _ => {
@@ -32292,12 +32574,16 @@ let sz = size as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32327,12 +32613,16 @@ u32be(x)
 };
 let data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32366,7 +32656,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 17863486658382945784u64)
 },
 
 _ => {
@@ -32378,12 +32668,16 @@ let sz = size as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32445,12 +32739,16 @@ PResult::Ok(match r#type {
 (100u8, 105u8, 110u8, 102u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32495,12 +32793,16 @@ mpeg4_meta_atom_data::iloc(inner)
 (105u8, 108u8, 115u8, 116u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32520,12 +32822,16 @@ mpeg4_meta_atom_data::ilst(inner)
 (105u8, 100u8, 97u8, 116u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32545,12 +32851,16 @@ mpeg4_meta_atom_data::idat(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32596,7 +32906,7 @@ u32be(x)
 let name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -32610,7 +32920,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 };
 _input.close_peek_context()?;
@@ -32623,7 +32933,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 accum.push(next_elem)
@@ -32638,7 +32948,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 };
 chars.clone()
@@ -32707,12 +33017,16 @@ let single_item_reference = match version {
 0u8 => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32732,12 +33046,16 @@ mpeg4_iref_data_single_item_reference::small(inner)
 1u8 => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32881,7 +33199,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 14687724984806605719u64)
 },
 
 _ => {
@@ -32895,12 +33213,16 @@ let ret = match r#type {
 (169u8, 116u8, 111u8, 111u8) => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32920,12 +33242,16 @@ mpeg4_ilst_atom_data::tool(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32965,7 +33291,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 8385173961957899741u64)
 },
 
 _ => {
@@ -32984,12 +33310,16 @@ mpeg4_tool_atom_data::data(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33024,12 +33354,16 @@ u32be(x)
 };
 let value = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33134,7 +33468,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -33189,7 +33523,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -33244,7 +33578,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 14539762430836305896u64)
 },
 
 _ => {
@@ -33263,12 +33597,16 @@ mpeg4_iinf_atom_data::infe(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33327,7 +33665,7 @@ u16be(x)
 let item_name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33341,7 +33679,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(16625761205375889740u64));
 }
 };
 _input.close_peek_context()?;
@@ -33354,7 +33692,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 };
 accum.push(next_elem)
@@ -33369,7 +33707,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(3344648651879382526u64));
 }
 };
 chars.clone()
@@ -33377,7 +33715,7 @@ chars.clone()
 let content_type = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33391,7 +33729,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(8599210436172030522u64));
 }
 };
 _input.close_peek_context()?;
@@ -33404,7 +33742,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(3484767027554133518u64));
 }
 };
 accum.push(next_elem)
@@ -33419,7 +33757,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(15403934492100194569u64));
 }
 };
 chars.clone()
@@ -33427,7 +33765,7 @@ chars.clone()
 let content_encoding = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33441,7 +33779,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 _input.close_peek_context()?;
@@ -33454,7 +33792,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 accum.push(next_elem)
@@ -33469,7 +33807,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 chars.clone()
@@ -33501,7 +33839,7 @@ let item_type = (Decoder317(_input))?;
 let item_name = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33515,7 +33853,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 _input.close_peek_context()?;
@@ -33528,7 +33866,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(11074951631636946051u64));
 }
 };
 accum.push(next_elem)
@@ -33543,7 +33881,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(15601622509425384091u64));
 }
 };
 chars.clone()
@@ -33576,7 +33914,7 @@ fn Decoder_mpeg4_infe_atom_data_extra_fields_mime(_input: &mut Parser<'_>) -> Re
 let content_type = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33590,7 +33928,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 _input.close_peek_context()?;
@@ -33603,7 +33941,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 accum.push(next_elem)
@@ -33618,7 +33956,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 chars.clone()
@@ -33631,7 +33969,7 @@ fn Decoder_mpeg4_infe_atom_data_extra_fields_uri(_input: &mut Parser<'_>) -> Res
 let item_uri_type = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -33645,7 +33983,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 _input.close_peek_context()?;
@@ -33658,7 +33996,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 accum.push(next_elem)
@@ -33673,7 +34011,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(8403192837054512577u64));
 }
 };
 chars.clone()
@@ -33688,7 +34026,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(17073037115051226650u64));
 }
 };
 let marker = {
@@ -33696,7 +34034,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(3975307768385535064u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33707,7 +34045,7 @@ fn Decoder_jpeg_frame(_input: &mut Parser<'_>) -> Result<jpeg_frame, ParseError>
 let initial_segment = (Decoder_jpeg_frame_initial_segment(_input))?;
 let segments = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -33851,11 +34189,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33976,11 +34314,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33996,13 +34334,13 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 }
 };
 let scans = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -34102,11 +34440,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(7432469293302627017u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(13181260675040079306u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34131,7 +34469,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(9159119361499271180u64));
 }
 };
 let marker = {
@@ -34139,7 +34477,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(7795160901559545235u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34162,11 +34500,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34184,7 +34522,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 })
 }
@@ -34282,11 +34620,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34399,7 +34737,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 })
 }
@@ -34465,11 +34803,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34542,7 +34880,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 })
 }
@@ -34551,7 +34889,7 @@ return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 fn Decoder_jpeg_scan(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
 let segments = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -34647,11 +34985,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34679,7 +35017,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 let marker = {
@@ -34687,7 +35025,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 jpeg_soi { marker }
@@ -34710,7 +35048,7 @@ PResult::Ok(jpeg_dnl { marker, length, data })
 fn Decoder380(_input: &mut Parser<'_>) -> Result<jpeg_scan, ParseError> {
 let segments = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 let b = _input.read_byte()?;
@@ -34806,11 +35144,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34838,7 +35176,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 let marker = {
@@ -34846,7 +35184,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 jpeg_soi { marker }
@@ -34869,7 +35207,7 @@ PResult::Ok(jpeg_sos { marker, length, data })
 fn Decoder_jpeg_scan_data(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
 let scan_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -35009,13 +35347,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 _input.close_peek_context()?;
@@ -35120,13 +35458,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 _input.close_peek_context()?;
@@ -35180,7 +35518,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 })
 }
@@ -35200,7 +35538,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 _input.close_peek_context()?;
@@ -35213,7 +35551,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 },
 
@@ -35224,7 +35562,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 let arg1 = {
@@ -35232,7 +35570,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 (arg0, arg1)
@@ -35241,7 +35579,7 @@ return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 })
 }
@@ -35253,7 +35591,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 let marker = {
@@ -35261,7 +35599,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35274,7 +35612,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 let marker = {
@@ -35282,7 +35620,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35295,7 +35633,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 };
 let marker = {
@@ -35303,7 +35641,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35316,7 +35654,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 };
 let marker = {
@@ -35324,7 +35662,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35337,7 +35675,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 };
 let marker = {
@@ -35345,7 +35683,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35358,7 +35696,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 let marker = {
@@ -35366,7 +35704,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35379,7 +35717,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 };
 let marker = {
@@ -35387,7 +35725,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35400,7 +35738,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 let marker = {
@@ -35408,7 +35746,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35425,7 +35763,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(12522857579864693834u64));
 }
 };
 let image_components = {
@@ -35445,7 +35783,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5117297982688264891u64));
+return Err(ParseError::FalsifiedWhere(15286713778088114821u64));
 }
 };
 let end_spectral_selection = {
@@ -35457,7 +35795,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(17055268834995250246u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35494,7 +35832,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(15014773733126201031u64));
 })
 }
 
@@ -35512,7 +35850,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(9895655502210650925u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35522,7 +35860,7 @@ PResult::Ok(jpeg_dnl_data { num_lines })
 fn Decoder398(_input: &mut Parser<'_>) -> Result<jpeg_scan_data, ParseError> {
 let scan_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -35666,13 +36004,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 _input.close_peek_context()?;
@@ -35736,7 +36074,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 let marker = {
@@ -35744,7 +36082,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 };
 jpeg_soi { marker }
@@ -35771,7 +36109,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 };
 let marker = {
@@ -35779,7 +36117,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 jpeg_soi { marker }
@@ -35806,7 +36144,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 let marker = {
@@ -35814,7 +36152,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 jpeg_soi { marker }
@@ -35841,7 +36179,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 let marker = {
@@ -35849,7 +36187,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 jpeg_soi { marker }
@@ -35876,7 +36214,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 let marker = {
@@ -35884,7 +36222,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 jpeg_soi { marker }
@@ -35911,7 +36249,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 let marker = {
@@ -35919,7 +36257,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 jpeg_soi { marker }
@@ -35946,7 +36284,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 let marker = {
@@ -35954,7 +36292,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 jpeg_soi { marker }
@@ -35981,7 +36319,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 let marker = {
@@ -35989,7 +36327,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 jpeg_soi { marker }
@@ -36016,7 +36354,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 let marker = {
@@ -36024,7 +36362,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 jpeg_soi { marker }
@@ -36051,7 +36389,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 let marker = {
@@ -36059,7 +36397,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 jpeg_soi { marker }
@@ -36086,7 +36424,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 let marker = {
@@ -36094,7 +36432,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 jpeg_soi { marker }
@@ -36121,7 +36459,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 let marker = {
@@ -36129,7 +36467,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 jpeg_soi { marker }
@@ -36156,7 +36494,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 let marker = {
@@ -36164,7 +36502,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 jpeg_soi { marker }
@@ -36194,7 +36532,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(12828788577937869717u64));
 }
 };
 let num_lines = {
@@ -36213,7 +36551,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(4528919599938425798u64));
 }
 };
 let num_image_components = {
@@ -36225,7 +36563,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(12955185663715491460u64));
 }
 };
 let image_components = {
@@ -36257,7 +36595,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(6221053009072016381u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36271,7 +36609,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 let marker = {
@@ -36279,7 +36617,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 jpeg_soi { marker }
@@ -36293,12 +36631,16 @@ let sz = (try_sub!(length, 2u16, 3198904588321530108u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() == 0 {
+0
+} else {
+_input.read_byte()?;
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36330,7 +36672,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 let marker = {
@@ -36338,7 +36680,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 jpeg_soi { marker }
@@ -36365,7 +36707,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 let marker = {
@@ -36373,7 +36715,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 jpeg_soi { marker }
@@ -36400,7 +36742,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 let marker = {
@@ -36408,7 +36750,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 jpeg_soi { marker }
@@ -36435,7 +36777,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 let marker = {
@@ -36443,7 +36785,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 jpeg_soi { marker }
@@ -36470,7 +36812,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -36478,7 +36820,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -36505,7 +36847,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -36513,7 +36855,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -36527,12 +36869,16 @@ let sz = (try_sub!(length, 2u16, 7866350329714952610u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36560,7 +36906,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -36568,7 +36914,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -36582,12 +36928,16 @@ let sz = (try_sub!(length, 2u16, 12954594173805448799u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36615,7 +36965,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -36623,7 +36973,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -36637,12 +36987,16 @@ let sz = (try_sub!(length, 2u16, 9573183374517388194u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36670,7 +37024,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -36678,7 +37032,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -36692,12 +37046,16 @@ let sz = (try_sub!(length, 2u16, 15327783809571612236u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36725,7 +37083,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -36733,7 +37091,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -36747,12 +37105,16 @@ let sz = (try_sub!(length, 2u16, 9684775926499943714u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36780,7 +37142,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -36788,7 +37150,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36802,12 +37164,16 @@ let sz = (try_sub!(length, 2u16, 5912167672739605892u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36835,7 +37201,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36843,7 +37209,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36857,12 +37223,16 @@ let sz = (try_sub!(length, 2u16, 1998097826508262195u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36890,7 +37260,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36898,7 +37268,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36912,12 +37282,16 @@ let sz = (try_sub!(length, 2u16, 16370266426490485062u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36945,7 +37319,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36953,7 +37327,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36967,12 +37341,16 @@ let sz = (try_sub!(length, 2u16, 14923902544344582218u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37000,7 +37378,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -37008,7 +37386,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -37022,12 +37400,16 @@ let sz = (try_sub!(length, 2u16, 9033025935232855564u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37055,7 +37437,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -37063,7 +37445,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -37077,12 +37459,16 @@ let sz = (try_sub!(length, 2u16, 6569230515699692699u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37110,7 +37496,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -37118,7 +37504,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -37132,12 +37518,16 @@ let sz = (try_sub!(length, 2u16, 15682767706885925172u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37165,7 +37555,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 let marker = {
@@ -37173,7 +37563,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 jpeg_soi { marker }
@@ -37187,12 +37577,16 @@ let sz = (try_sub!(length, 2u16, 2946338368865429585u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37220,7 +37614,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -37228,7 +37622,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -37242,12 +37636,16 @@ let sz = (try_sub!(length, 2u16, 466150863659326234u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37275,7 +37673,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -37283,7 +37681,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -37297,12 +37695,16 @@ let sz = (try_sub!(length, 2u16, 11988854374464943326u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37327,7 +37729,7 @@ fn Decoder_jpeg_app1_data(_input: &mut Parser<'_>) -> Result<jpeg_app1_data, Par
 let identifier = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37341,7 +37743,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 _input.close_peek_context()?;
@@ -37354,7 +37756,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 accum.push(next_elem)
@@ -37369,7 +37771,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 chars.clone()
@@ -37394,12 +37796,16 @@ jpeg_app1_data_data::xmp(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37425,7 +37831,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37436,12 +37842,16 @@ PResult::Ok(jpeg_app1_exif { padding, exif })
 fn Decoder_jpeg_app1_xmp(_input: &mut Parser<'_>) -> Result<jpeg_app1_xmp, ParseError> {
 let xmp = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37463,7 +37873,7 @@ fn Decoder_jpeg_app0_data(_input: &mut Parser<'_>) -> Result<jpeg_app0_data, Par
 let identifier = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37477,7 +37887,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 _input.close_peek_context()?;
@@ -37490,7 +37900,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 accum.push(next_elem)
@@ -37505,7 +37915,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 chars.clone()
@@ -37525,12 +37935,16 @@ jpeg_app0_data_data::jfif(inner)
 _ => {
 let inner = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37562,7 +37976,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(11078254580983048780u64));
 }
 };
 let density_x = {
@@ -37577,7 +37991,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9933460716242958610u64));
+return Err(ParseError::FalsifiedWhere(1845850007550452160u64));
 }
 };
 let density_y = {
@@ -37592,7 +38006,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(7779176190297216638u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37654,7 +38068,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(1016564408906296566u64));
 })
 }
 
@@ -37709,7 +38123,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(1591903561633999639u64));
 })
 }
 
@@ -37753,7 +38167,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 fn Decoder450(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37767,7 +38181,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 _input.close_peek_context()?;
@@ -37780,7 +38194,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 accum.push(next_elem)
@@ -37795,7 +38209,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37806,7 +38220,7 @@ fn Decoder451(_input: &mut Parser<'_>) -> Result<gzip_fcomment, ParseError> {
 let comment = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37820,7 +38234,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 _input.close_peek_context()?;
@@ -37833,7 +38247,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 accum.push(next_elem)
@@ -37848,7 +38262,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 chars.clone()
@@ -37859,15 +38273,19 @@ PResult::Ok(gzip_fcomment { comment })
 /// d#452
 fn Decoder452(_input: &mut Parser<'_>) -> Result<Vec<gzip_main>, ParseError> {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() == 0 {
+0
+} else {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
 };
 _input.close_peek_context()?;
 ret
@@ -37921,7 +38339,7 @@ PResult::Ok(accum)
 fn Decoder453(_input: &mut Parser<'_>) -> Result<tar_main, ParseError> {
 let contents = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -37935,7 +38353,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 _input.close_peek_context()?;
@@ -37963,7 +38381,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 accum.push(next_elem)
@@ -37972,15 +38390,19 @@ accum
 };
 {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() == 0 {
+1
+} else {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
 };
 _input.close_peek_context()?;
 ret
@@ -37992,7 +38414,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 accum.push(next_elem)
@@ -38009,7 +38431,7 @@ PResult::Ok(tar_main { contents })
 fn Decoder454(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38023,7 +38445,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 _input.close_peek_context()?;
@@ -38036,7 +38458,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 accum.push(next_elem)
@@ -38051,7 +38473,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38062,7 +38484,7 @@ fn Decoder455(_input: &mut Parser<'_>) -> Result<gzip_fcomment, ParseError> {
 let comment = {
 let chars = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38076,7 +38498,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 _input.close_peek_context()?;
@@ -38089,7 +38511,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 accum.push(next_elem)
@@ -38104,7 +38526,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 chars.clone()
@@ -38120,7 +38542,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 let arg1 = {
@@ -38128,7 +38550,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let arg2 = {
@@ -38136,7 +38558,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38186,7 +38608,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 }
 },
@@ -38196,7 +38618,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 _input.close_peek_context()?;
@@ -38215,7 +38637,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 })
 }
@@ -38227,7 +38649,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38251,7 +38673,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 }
 },
@@ -38261,7 +38683,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 _input.close_peek_context()?;
@@ -38278,7 +38700,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 }
 };
@@ -38303,11 +38725,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38325,7 +38747,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 })
 }
@@ -38337,7 +38759,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 let label = {
@@ -38345,7 +38767,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 let block_size = {
@@ -38353,7 +38775,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 let identifier = {
@@ -38367,7 +38789,7 @@ accum
 let authentication_code = vec![_input.read_byte()?, _input.read_byte()?, _input.read_byte()?];
 let application_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38381,7 +38803,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 _input.close_peek_context()?;
@@ -38408,7 +38830,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 let label = {
@@ -38416,12 +38838,12 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 let comment_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38435,7 +38857,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 _input.close_peek_context()?;
@@ -38462,7 +38884,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 let data = {
@@ -38482,7 +38904,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 })
 }
 
@@ -38493,7 +38915,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 let label = {
@@ -38501,7 +38923,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 let block_size = {
@@ -38509,7 +38931,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38537,7 +38959,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 _input.close_peek_context()?;
@@ -38556,7 +38978,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 })
 }
@@ -38585,7 +39007,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 let label = {
@@ -38593,7 +39015,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 let block_size = {
@@ -38601,7 +39023,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 let text_grid_left_position = {
@@ -38626,7 +39048,7 @@ let text_foreground_color_index = _input.read_byte()?;
 let text_background_color_index = _input.read_byte()?;
 let plain_text_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38640,7 +39062,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -38667,7 +39089,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 let image_left_position = {
@@ -38703,7 +39125,7 @@ fn Decoder_gif_table_based_image_data(_input: &mut Parser<'_>) -> Result<gif_tab
 let lzw_min_code_size = _input.read_byte()?;
 let image_data = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
 {
@@ -38717,7 +39139,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 _input.close_peek_context()?;
@@ -38787,7 +39209,7 @@ fn Decoder477(_input: &mut Parser<'_>) -> Result<u32, ParseError> {
 let tuple_var = {
 let arg0 = {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let reps_left = {
 _input.open_peek_context();
 {
@@ -38849,55 +39271,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 _input.close_peek_context()?;
@@ -38912,7 +39334,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 };
 accum.push(next_elem)
@@ -38925,7 +39347,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 (arg0, arg1)
@@ -38953,7 +39375,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -38986,7 +39408,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(13840694103855630215u64));
 }
 };
 let num_image_components = {
@@ -38998,7 +39420,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(9966940320814099155u64));
 }
 };
 let image_components = {
@@ -39021,7 +39443,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39043,7 +39465,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(7180361712816552798u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39057,7 +39479,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 let marker = {
@@ -39065,7 +39487,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 jpeg_soi { marker }
@@ -39079,12 +39501,16 @@ let sz = (try_sub!(length, 2u16, 7620281735474506525u64)) as usize;
 _input.start_slice(sz)?;
 let ret = ((|| {
 let mut accum = Vec::new();
-while _input.remaining() > 0 {
+loop {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() == 0 {
+1
+} else {
+_input.read_byte()?;
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -39112,7 +39538,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 let marker = {
@@ -39120,7 +39546,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 jpeg_soi { marker }
@@ -39158,7 +39584,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
 }
 };
 let num_image_components = {
@@ -39170,7 +39596,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14565187915810837879u64));
+return Err(ParseError::FalsifiedWhere(11349426438005611188u64));
 }
 };
 let image_components = {
@@ -39192,7 +39618,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 let marker = {
@@ -39200,7 +39626,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 jpeg_soi { marker }
@@ -39235,7 +39661,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(783530747334100044u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
-- 
2.43.0


From 31b814aff1950d7c7e859dc3b271555465328a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 44/49] fix: code lengths that leave no room for a code are no
 Huffman code

The interpreters built a decoder for over-subscribed lengths all the same:
it took one colliding code for another, or could not be compiled and
panicked.  Generated decoders refuse such lengths; now all do.
---
 src/decoder.rs     | 4 ++++
 src/loc_decoder.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 7bbda4e..40917df 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1790,6 +1790,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        if code + bl_count[bits] > 1 << bits {
+            // more codes of this length than there is room for: no code can be told from the others
+            return Format::Fail;
+        }
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 282f932..783d0c6 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -2004,6 +2004,10 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
     for bits in 1..max_length + 1 {
         code = (code + bl_count[bits - 1]) << 1;
         next_code[bits] = code;
+        if code + bl_count[bits] > 1 << bits {
+            // more codes of this length than there is room for: no code can be told from the others
+            return Format::Fail;
+        }
     }
 
     let mut codes = Vec::with_capacity(lengths.len());
-- 
2.43.0


From 5abf8d503b0760ad138973b26b5786f25d6a906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 45/49] fix: type checking must not skip operands of slices,
 offsets, Huffman tables, negative look-ahead and numeric trees

---
 src/lib.rs          | 50 +++++++++++++++++++++++++++++++--------------
 src/numeric/core.rs | 29 ++++++++++++++------------
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d9949c4..e9f297f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1049,6 +1049,9 @@ impl FormatModule {
                     let t = expr.infer_type(scope)?;
                     let _t = arg_type.unify(&t)?;
                 }
+                for view in arg_views {
+                    view.check_type(scope)?;
+                }
                 Ok(self.get_format_type(*level).clone())
             }
             Format::DecodeBytes(bytes, f) => {
@@ -1171,7 +1174,7 @@ impl FormatModule {
                             ValueType::Base(BaseType::Bool) => {
                                 match lambda_acc_val.as_ref() {
                                     Expr::Lambda(head, expr) => {
-                                        let mut child_scope = TypeScope::child(&child_scope);
+                                        let mut child_scope = TypeScope::child(scope);
                                         let vt_acc_elem =
                                             ValueType::Tuple(vec![vt.as_ref().clone(), t.clone()]);
                                         child_scope.push(head.clone(), vt_acc_elem);
@@ -1205,10 +1208,26 @@ impl FormatModule {
                 )),
             },
             Format::Peek(a) => self.infer_format_type(scope, a),
-            Format::PeekNot(_a) => Ok(ValueType::Tuple(vec![])),
-            Format::Slice(_expr, a) => self.infer_format_type(scope, a),
+            Format::PeekNot(a) => {
+                self.infer_format_type(scope, a)?;
+                Ok(ValueType::Tuple(vec![]))
+            }
+            Format::Slice(size, a) => match size.infer_type(scope)? {
+                t if t.is_numeric() => self.infer_format_type(scope, a),
+                other => Err(anyhow!("Slice: expected numeric size, found {other:?}")),
+            },
             Format::Bits(a) => self.infer_format_type(scope, a),
-            Format::WithRelativeOffset(_base_addr, _offset, a) => self.infer_format_type(scope, a),
+            Format::WithRelativeOffset(base_addr, offset, a) => {
+                for expr in [base_addr, offset] {
+                    let t = expr.infer_type(scope)?;
+                    if !t.is_numeric() {
+                        return Err(anyhow!(
+                            "WithRelativeOffset: expected numeric operands, found {t:?}"
+                        ));
+                    }
+                }
+                self.infer_format_type(scope, a)
+            }
             Format::Map(a, expr) => {
                 let arg_type = self.infer_format_type(scope, a)?;
                 match expr.as_ref() {
@@ -1284,21 +1303,22 @@ impl FormatModule {
             }
             Format::Dynamic(name, dynformat, format) => {
                 match dynformat {
-                    DynFormat::Huffman(lengths_expr, _opt_values_expr) => {
-                        match lengths_expr.infer_type(scope)? {
-                            ValueType::Seq(t) => match &*t {
-                                &ValueType::U8 | &ValueType::U16 => {}
+                    DynFormat::Huffman(lengths_expr, opt_values_expr) => {
+                        for expr in std::iter::once(lengths_expr).chain(opt_values_expr) {
+                            match expr.infer_type(scope)? {
+                                ValueType::Seq(t) => match &*t {
+                                    &ValueType::U8 | &ValueType::U16 => {}
+                                    other => {
+                                        return Err(anyhow!(
+                                            "Huffman: expected U8 or U16, found {other:?}"
+                                        ));
+                                    }
+                                },
                                 other => {
-                                    return Err(anyhow!(
-                                        "Huffman: expected U8 or U16, found {other:?}"
-                                    ));
+                                    return Err(anyhow!("Huffman: expected Seq, found {other:?}"));
                                 }
-                            },
-                            other => {
-                                return Err(anyhow!("Huffman: expected Seq, found {other:?}"));
                             }
                         }
-                        // FIXME check opt_values_expr type
                     }
                 }
                 let mut child_scope = TypeScope::child(scope);
diff --git a/src/numeric/core.rs b/src/numeric/core.rs
index 7b9bb8c..45eb4e5 100644
--- a/src/numeric/core.rs
+++ b/src/numeric/core.rs
@@ -970,25 +970,28 @@ impl Expr {
         match self {
             Expr::Const(c) => Ok(c.get_type()),
             Expr::BinOp(op, lhs, rhs) => {
-                if let Some(rep) = op.cast_rep() {
-                    return Ok(ValueType::from(rep));
-                } else {
-                    let lhs = lhs.infer_type(scope)?;
-                    let rhs = rhs.infer_type(scope)?;
-                    Ok(lhs.unify(&rhs)?)
+                let lhs = lhs.infer_type(scope)?;
+                let rhs = rhs.infer_type(scope)?;
+                match op.cast_rep() {
+                    Some(rep) => Ok(ValueType::from(rep)),
+                    None => Ok(lhs.unify(&rhs)?),
                 }
             }
             Expr::UnaryOp(op, inner) => {
-                if let Some(rep) = op.cast_rep() {
-                    return Ok(ValueType::from(rep));
-                } else {
-                    inner.infer_type(scope)
-                }
+                let inner = inner.infer_type(scope)?;
+                Ok(op.cast_rep().map_or(inner, ValueType::from))
+            }
+            Expr::Cast(op, inner) => {
+                inner.infer_type(scope)?;
+                Ok(op.out_rep.into())
             }
-            Expr::Cast(op, _) => Ok(op.out_rep.into()),
             Expr::NumVar(name) => match scope.get_type_by_name(name) {
                 crate::ValueKind::View => Err(anyhow!("variable {} is a view", name)),
-                crate::ValueKind::Value(vt) => Ok(vt.clone()),
+                crate::ValueKind::Value(vt) => match vt {
+                    ValueType::Any | ValueType::Empty => Ok(vt.clone()),
+                    _ if vt.is_numeric() => Ok(vt.clone()),
+                    _ => Err(anyhow!("variable {} is not numeric: {:?}", name, vt)),
+                },
                 crate::ValueKind::Format(_) => Err(anyhow!("variable {} is a format", name)),
             },
         }
-- 
2.43.0


From 06738d1c955497936d64c06760b0f5b118833d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 46/49] fix: what follows a named format decides its choices
 where one alternative is a prefix of another

A named format was compiled without regard to what follows it when its
alternatives could be told apart by themselves, even if that meant looking
past the end of one of them, and when its open end was inside a counted or
conditional repetition. Such a format took input that belonged to what
follows, unlike the same format written in place.
---
 src/format.rs | 12 +++++++-----
 src/lib.rs    |  7 +++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 6927309..6de4727 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -454,10 +454,11 @@ impl Format {
                 fmts.iter().any(|f| f.depends_on_next(module))
             }
             Format::Repeat(..) | Format::Repeat1(..) | Format::RepeatBetween(..) => true,
-            Format::RepeatCount(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
-                false
-            }
-            Format::AccumUntil(..) => false,
+            // NOTE - the repetition itself ends on a computed condition, but its last element may look past that end
+            Format::RepeatCount(_, f)
+            | Format::RepeatUntilLast(_, f)
+            | Format::RepeatUntilSeq(_, f)
+            | Format::AccumUntil(_, _, _, _, f) => f.depends_on_next(module),
             Format::Maybe(..) => true,
             Format::Peek(..) | Format::PeekNot(..) => false,
             Format::Slice(..) => false,
@@ -492,7 +493,8 @@ impl Format {
             }
             fs.push(f.clone());
         }
-        MatchTree::build(module, &fs, Rc::new(Next::Empty)).is_none()
+        MatchTree::build(module, &fs, Rc::new(Next::Empty))
+            .is_none_or(|tree| tree.looks_past_accept())
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index e9f297f..2d1c638 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2346,6 +2346,13 @@ impl MatchTree {
         const MAX_DEPTH: usize = 80;
         MatchTreeLevel::grow(module, nexts, MAX_DEPTH)
     }
+
+    /// Returns `true` if some input-sequence that is accepted is a proper prefix of another, in which case
+    /// the index that is chosen depends on bytes past the end of the alternation.
+    fn looks_past_accept(&self) -> bool {
+        (self.accept.is_some() && !self.branches.is_empty())
+            || self.branches.iter().any(|(_, tree)| tree.looks_past_accept())
+    }
 }
 
 pub struct TypeScope<'a, T = ValueType> {
-- 
2.43.0


From 5e0f6e9467a5f2fcd4b31caa5237d70e48244abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:04 +0000
Subject: [PATCH 47/49] fix: look-ahead into a slice whose contents may end
 early

A slice is matched by any bytes after its contents end, but look-ahead only
allowed for that if the contents could not go on, so a choice or repetition
of such slices rejected input or stopped too early.
---
 src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2d1c638..dc06d50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1643,14 +1643,14 @@ impl<'a> MatchTreeStep<'a> {
     ) -> MatchTreeStep<'a> {
         if n > 0 {
             let mut tree = Self::from_next(module, inner);
-            tree.accept = false;
-            if tree.branches.is_empty() {
+            for (_bs, inside) in tree.branches.iter_mut() {
+                *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
+            }
+            // NOTE - once `inner` may end, the rest of the slice is arbitrary
+            if tree.accept {
+                tree.accept = false;
                 let next = Rc::new(Next::Slice(n - 1, Rc::new(Next::Empty), next.clone()));
-                tree.branches.push((ByteSet::full(), next));
-            } else {
-                for (_bs, inside) in tree.branches.iter_mut() {
-                    *inside = Rc::new(Next::Slice(n - 1, inside.clone(), next.clone()));
-                }
+                tree.union_branch(ByteSet::full(), next);
             }
             tree
         } else {
-- 
2.43.0


From 40610d3a487d90c4d37f44223912bb1183fa7af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:48 +0000
Subject: [PATCH 48/49] fix: the last repetition of a bounded repetition may be
 followed by what follows it

Choices inside a RepeatBetween were compiled as if at least min - 1 further
repetitions followed every repetition, so a choice at the end of the last
ones rejected input that the format describes.
---
 src/codegen/typed_decoder.rs | 8 ++++----
 src/decoder.rs               | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/codegen/typed_decoder.rs b/src/codegen/typed_decoder.rs
index f141751..04ea00f 100644
--- a/src/codegen/typed_decoder.rs
+++ b/src/codegen/typed_decoder.rs
@@ -542,9 +542,9 @@ impl<'a> GTCompiler<'a> {
             }
             TypedFormat::RepeatBetween(gt, min_expr, max_expr, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = min_expr.bounds().as_exact() else {
+                if min_expr.bounds().as_exact().is_none() {
                     return Err(anyhow!("RepeatBetween on inexact bounds-expr: {min_expr:?}"));
-                };
+                }
                 let Some(max) = max_expr.bounds().as_exact() else {
                     return Err(anyhow!("RepeatBetween on inexact bounds-expr: {max_expr:?}"));
                 };
@@ -552,8 +552,8 @@ impl<'a> GTCompiler<'a> {
                 let da = self.compile_gt_format(
                     a,
                     None,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                    // NOTE - any repetition may be the last, or followed by up to `max - 1` others
+                    Rc::new(Next::RepeatMax(
                         max.saturating_sub(1),
                         MaybeTyped::Typed(a),
                         next.clone(),
diff --git a/src/decoder.rs b/src/decoder.rs
index 40917df..f2c30d1 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -739,17 +739,17 @@ impl<'a> Compiler<'a> {
             }
             Format::RepeatBetween(xmin, xmax, a) => {
                 // FIXME - preliminary support only for exact-bound limit values
-                let Some(min) = xmin.bounds().as_exact() else {
+                if xmin.bounds().as_exact().is_none() {
                     return Err(anyhow!("RepeatBetween on inexact bounds-expr: {xmin:?}"));
-                };
+                }
                 let Some(max) = xmax.bounds().as_exact() else {
                     return Err(anyhow!("RepeatBetween on inexact bounds-expr: {xmax:?}"));
                 };
 
                 let da = self.compile_format(
                     a,
-                    Rc::new(Next::RepeatBetween(
-                        min.saturating_sub(1),
+                    // NOTE - any repetition may be the last, or followed by up to `max - 1` others
+                    Rc::new(Next::RepeatMax(
                         max.saturating_sub(1),
                         MaybeTyped::Untyped(a),
                         next.clone(),
-- 
2.43.0


From c43578f532d412c933217ef78b77d42dcbb2aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:35 +0000
Subject: [PATCH 49/49] fix: the interpreter lets what follows an optional
 format decide its choices

A format under Maybe was compiled as if anything could follow it, unlike in
generated code, so its choices could take input that belongs to what follows.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index f2c30d1..6130854 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -804,7 +804,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0

