From 659a6784c7c1666d366c360c0a43a10561d42171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 01/57] fix: DeltaArray keeps the validity of nullable arrays

Encoding dropped the validity, decoding applied the logical validity to the
physical deltas before slicing off the offset, and the validity child was not
visited by the array visitor.
---
 encodings/fastlanes/src/delta/compress.rs | 12 +++++++++---
 encodings/fastlanes/src/delta/mod.rs      |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..bb5a0a4 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -103,13 +103,19 @@ pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
         PrimitiveArray::from_vec(
             decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
+            Validity::NonNullable
         )
     });
 
-    decoded
+    // The deltas span whole chunks, whereas the validity only covers the logical values.
+    let decoded = decoded
         .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+        .into_primitive()?;
+    Ok(PrimitiveArray::new(
+        decoded.buffer().clone(),
+        decoded.ptype(),
+        array.validity(),
+    ))
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..ffcc4ef 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -73,7 +73,7 @@ impl DeltaArray {
         Self::try_from_delta_compress_parts(
             bases.into_array(),
             deltas.into_array(),
-            Validity::NonNullable,
+            array.validity(),
         )
     }
 
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 45bba062262656720e1e6d1136a5a16bd260ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 02/57] fix: ALP encoding preserves negative zero

Values were only patched when decoded != value, which holds for neither zero
when -0.0 decodes as 0.0; compare the bit patterns instead.
---
 encodings/alp/src/alp/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..209f197 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -54,6 +54,9 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     /// Convert from the integer type back to the float type using `as`.
     fn from_int(n: Self::ALPInt) -> Self;
 
+    /// Returns true iff the two floats have the same bit pattern.
+    fn bit_eq(self, other: Self) -> bool;
+
     fn find_best_exponents(values: &[Self]) -> Exponents {
         let mut best_exp = Exponents { e: 0, f: 0 };
         let mut best_nbytes: usize = usize::MAX;
@@ -143,7 +146,7 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     fn encode_single(value: Self, exponents: Exponents) -> Result<Self::ALPInt, Self> {
         let encoded = unsafe { Self::encode_single_unchecked(value, exponents) };
         let decoded = Self::decode_single(encoded, exponents);
-        if decoded == value {
+        if decoded.bit_eq(value) {
             return Ok(encoded);
         }
         Err(value)
@@ -191,7 +194,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !decoded.bit_eq(*v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +216,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !decoded.bit_eq(chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
@@ -288,6 +291,11 @@ impl ALPFloat for f32 {
     fn from_int(n: Self::ALPInt) -> Self {
         n as _
     }
+
+    #[inline(always)]
+    fn bit_eq(self, other: Self) -> bool {
+        self.to_bits() == other.to_bits()
+    }
 }
 
 impl ALPFloat for f64 {
@@ -359,4 +367,9 @@ impl ALPFloat for f64 {
     fn from_int(n: Self::ALPInt) -> Self {
         n as _
     }
+
+    #[inline(always)]
+    fn bit_eq(self, other: Self) -> bool {
+        self.to_bits() == other.to_bits()
+    }
 }
-- 
2.43.0


From 5d2a6fefe9d651c7624d51d8427a00b5f475362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 03/57] fix: ALP scalar_at returns patched values with the
 dtype of the array

---
 encodings/alp/src/alp/compute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..456d914 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -42,7 +42,10 @@ impl ScalarAtFn for ALPArray {
         if let Some(patches) = self.patches() {
             if patches.with_dyn(|a| a.is_valid(index)) {
                 // We need to make sure the value is actually in the patches array
-                return scalar_at_unchecked(&patches, index);
+                return Scalar::new(
+                    self.dtype().clone(),
+                    scalar_at_unchecked(&patches, index).value().clone(),
+                );
             }
         }
 
-- 
2.43.0


From a70b038a0d19ca10b5906c7321812bde045e1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 04/57] fix: ALP comparison with a constant only pushes down
 when it is sound

Ordering comparisons against a value that does not encode, comparisons of
patched arrays, comparisons with a null and of empty arrays were all wrong.
---
 encodings/alp/src/alp/compute.rs | 51 +++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index 456d914..91f0e9b 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -4,12 +4,12 @@ use vortex::compute::{
     compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
 use vortex::stats::{ArrayStatistics, Stat};
-use vortex::validity::Validity;
+use vortex::validity::{ArrayValidity, Validity};
 use vortex::{Array, ArrayDType, IntoArray};
 use vortex_error::{VortexExpect, VortexResult};
 use vortex_scalar::{PValue, Scalar};
 
-use crate::{match_each_alp_float_ptype, ALPArray, ALPFloat};
+use crate::{decompress, match_each_alp_float_ptype, ALPArray, ALPFloat};
 
 impl ArrayCompute for ALPArray {
     fn scalar_at(&self) -> Option<&dyn ScalarAtFn> {
@@ -97,11 +97,12 @@ impl FilterFn for ALPArray {
 
 impl MaybeCompareFn for ALPArray {
     fn maybe_compare(&self, array: &Array, operator: Operator) -> Option<VortexResult<Array>> {
-        if ConstantArray::try_from(array).is_ok()
-            || array
-                .statistics()
-                .get_as::<bool>(Stat::IsConstant)
-                .unwrap_or_default()
+        if !array.is_empty()
+            && (ConstantArray::try_from(array).is_ok()
+                || array
+                    .statistics()
+                    .get_as::<bool>(Stat::IsConstant)
+                    .unwrap_or_default())
         {
             let rhs = scalar_at(array, 0).vortex_expect("should be scalar");
             let pvalue = rhs
@@ -114,7 +115,7 @@ impl MaybeCompareFn for ALPArray {
                 Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
                 Some(_) | None => Some(Ok(BoolArray::from_vec(
                     vec![false; self.len()],
-                    Validity::AllValid,
+                    Validity::AllInvalid,
                 )
                 .into_array())),
             }
@@ -132,21 +133,31 @@ fn alp_scalar_compare<F: ALPFloat + Into<Scalar>>(
 where
     F::ALPInt: Into<Scalar>,
 {
-    let encoded = F::encode_single(value, alp.exponents());
-    match encoded {
-        Ok(encoded) => {
-            let s = ConstantArray::new(encoded, alp.len());
-            compare(alp.encoded(), s.as_ref(), operator)
-        }
-        Err(exception) => {
-            if let Some(patches) = alp.patches().as_ref() {
-                let s = ConstantArray::new(exception, alp.len());
-                compare(patches, s.as_ref(), operator)
-            } else {
-                Ok(BoolArray::from_vec(vec![false; alp.len()], Validity::AllValid).into_array())
+    // Encoding preserves the order of the values, but the encoded value underneath a patch is
+    // meaningless, so the comparison can only be pushed down when there are no patches.
+    if alp.patches().is_none() {
+        match (F::encode_single(value, alp.exponents()), operator) {
+            (Ok(encoded), _) => {
+                let s = ConstantArray::new(encoded, alp.len());
+                return compare(alp.encoded(), s.as_ref(), operator);
+            }
+            // A value that cannot be encoded does not occur in an array without patches.
+            (Err(exception), Operator::Eq | Operator::NotEq) if !exception.is_zero() => {
+                return Ok(BoolArray::from_vec(
+                    vec![operator == Operator::NotEq; alp.len()],
+                    alp.logical_validity().into_validity(),
+                )
+                .into_array());
             }
+            _ => {}
         }
     }
+
+    compare(
+        decompress(alp.clone())?,
+        ConstantArray::new(value, alp.len()),
+        operator,
+    )
 }
 
 #[cfg(test)]
-- 
2.43.0


From c95abeff5467ebdaf284eb315019e960107e893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 05/57] fix: comparing a PrimitiveArray with a null constant
 yields nulls

---
 vortex-array/src/array/primitive/compute/compare.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vortex-array/src/array/primitive/compute/compare.rs b/vortex-array/src/array/primitive/compute/compare.rs
index 694dbe3..b189620 100644
--- a/vortex-array/src/array/primitive/compute/compare.rs
+++ b/vortex-array/src/array/primitive/compute/compare.rs
@@ -7,6 +7,7 @@ use vortex_scalar::PrimitiveScalar;
 use crate::array::primitive::PrimitiveArray;
 use crate::array::{BoolArray, ConstantArray};
 use crate::compute::{MaybeCompareFn, Operator};
+use crate::validity::Validity;
 use crate::{Array, ArrayDType, IntoArray};
 
 impl MaybeCompareFn for PrimitiveArray {
@@ -44,6 +45,14 @@ fn primitive_const_compare(
     let primitive_scalar = PrimitiveScalar::try_new(other.dtype(), other.scalar_value())
         .vortex_expect("Expected a primitive scalar");
 
+    if other.scalar_value().is_null() {
+        return Ok(BoolArray::try_new(
+            BooleanBuffer::new_unset(this.len()),
+            Validity::AllInvalid,
+        )?
+        .into_array());
+    }
+
     let buffer = match_each_native_ptype!(this.ptype(), |$T| {
         let typed_value = primitive_scalar.typed_value::<$T>()
             .ok_or_else(|| vortex_err!("Type mismatch between array and constant"))?;
-- 
2.43.0


From 793d31019cebe5913dca1cc27e20c21956b2298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 06/57] fix: comparison and boolean operations with constant
 arrays

Equality of constants depended on their nullability, empty operands panicked,
and operands without a boolean kernel were rejected.
---
 vortex-array/src/array/constant/compute.rs | 21 +++++++++++++--------
 vortex-array/src/compute/compare.rs        |  5 +++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..ffd70ee 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -11,7 +11,7 @@ use crate::compute::{
     SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 impl ArrayCompute for ConstantArray {
     fn compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
@@ -105,11 +105,12 @@ impl SearchSortedFn for ConstantArray {
 
 impl MaybeCompareFn for ConstantArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
-        (ConstantArray::try_from(other).is_ok()
-            || other
-                .statistics()
-                .get_as::<bool>(Stat::IsConstant)
-                .unwrap_or_default())
+        (!other.is_empty()
+            && (ConstantArray::try_from(other).is_ok()
+                || other
+                    .statistics()
+                    .get_as::<bool>(Stat::IsConstant)
+                    .unwrap_or_default()))
         .then(|| {
             let lhs = self.owned_scalar();
             let rhs = scalar_at(other, 0).vortex_expect("Expected scalar");
@@ -148,7 +149,7 @@ fn constant_array_bool_impl(
     fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
 ) -> VortexResult<Array> {
     // If the right side is constant
-    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
@@ -162,7 +163,11 @@ fn constant_array_bool_impl(
         // try and use a the rhs specialized implementation if it exists
         match fallback_fn(other, constant_array.as_ref()) {
             Some(r) => r,
-            None => vortex_bail!("Operation is not supported"),
+            None => {
+                let other = other.clone().into_bool()?.into_array();
+                fallback_fn(&other, constant_array.as_ref())
+                    .unwrap_or_else(|| vortex_bail!("Operation is not supported"))
+            }
         }
     }
 }
diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..b559216 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -128,8 +128,9 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
         let b = match operator {
-            Operator::Eq => lhs == rhs,
-            Operator::NotEq => lhs != rhs,
+            // Equality of scalars includes the dtype, whose nullability is irrelevant here.
+            Operator::Eq => lhs.value() == rhs.value(),
+            Operator::NotEq => lhs.value() != rhs.value(),
             Operator::Gt => lhs > rhs,
             Operator::Gte => lhs >= rhs,
             Operator::Lt => lhs < rhs,
-- 
2.43.0


From 270ba08c5bdda45cb86a6e97ec330e25fdd4c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 07/57] fix: statistics of all-null and mixed arrays and their
 merging

Min of a nullable boolean array was false when all its values are true, the
frequencies of all-null arrays were made up, zeros of different signs counted
as constant, and merging let a null extremum win, called arrays constant when
no minimum was known and unsorted when a chunk was all null.
---
 vortex-array/src/array/bool/stats.rs          |  5 +-
 .../src/array/primitive/compute/compare.rs    |  9 ++-
 vortex-array/src/array/primitive/stats.rs     |  2 +-
 vortex-array/src/stats/statsset.rs            | 66 ++++++++++++-------
 4 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..851c597 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -119,7 +119,10 @@ impl BoolStatsAccumulator {
 
     pub fn finish(self) -> StatsSet {
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (
+                Stat::Min,
+                (self.true_count + self.null_count == self.len).into(),
+            ),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
diff --git a/vortex-array/src/array/primitive/compute/compare.rs b/vortex-array/src/array/primitive/compute/compare.rs
index b189620..3c242ef 100644
--- a/vortex-array/src/array/primitive/compute/compare.rs
+++ b/vortex-array/src/array/primitive/compute/compare.rs
@@ -46,11 +46,10 @@ fn primitive_const_compare(
         .vortex_expect("Expected a primitive scalar");
 
     if other.scalar_value().is_null() {
-        return Ok(BoolArray::try_new(
-            BooleanBuffer::new_unset(this.len()),
-            Validity::AllInvalid,
-        )?
-        .into_array());
+        return Ok(
+            BoolArray::try_new(BooleanBuffer::new_unset(this.len()), Validity::AllInvalid)?
+                .into_array(),
+        );
     }
 
     let buffer = match_each_native_ptype!(this.ptype(), |$T| {
diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index ac7aadf..d5eae99 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -207,7 +207,7 @@ impl<T: PStatsType> StatsAccumulator<T> {
     }
 
     pub fn finish(self) -> StatsSet {
-        let is_constant = (self.min == self.max && self.null_count == 0 && self.nan_count == 0)
+        let is_constant = (self.min.is_eq(self.max) && self.null_count == 0 && self.nan_count == 0)
             || self.null_count == self.len;
 
         StatsSet::from(HashMap::from([
diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..b67344b 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::collections::hash_map::{Entry, IntoIter};
 use std::collections::HashMap;
 
@@ -46,15 +47,14 @@ impl StatsSet {
                 stats.insert(Stat::TrueCount, 0.into());
             }
             DType::Primitive(ptype, _) => {
-                ptype.byte_width();
-                stats.insert(
-                    Stat::BitWidthFreq,
-                    vec![0_u64; ptype.byte_width() * 8 + 1].into(),
-                );
-                stats.insert(
-                    Stat::TrailingZeroFreq,
-                    vec![ptype.byte_width() * 8; ptype.byte_width() * 8 + 1].into(),
-                );
+                // Nulls are counted as zeros.
+                let bit_width = ptype.byte_width() * 8;
+                let mut bit_width_freq = vec![0_u64; bit_width + 1];
+                bit_width_freq[0] = len as u64;
+                stats.insert(Stat::BitWidthFreq, bit_width_freq.into());
+                let mut trailing_zero_freq = vec![0_u64; bit_width + 1];
+                trailing_zero_freq[bit_width] = len as u64;
+                stats.insert(Stat::TrailingZeroFreq, trailing_zero_freq.into());
             }
             _ => {}
         }
@@ -121,7 +121,8 @@ impl StatsSet {
     fn merge_ordered<F: Fn(&Scalar, &Scalar) -> bool>(&mut self, stat: Stat, other: &Self, cmp: F) {
         if let Entry::Occupied(mut e) = self.values.entry(stat) {
             if let Some(ov) = other.get(stat) {
-                if cmp(ov, e.get()) {
+                // A null extremum means that there are no values, so it never wins.
+                if ov.is_valid() && (e.get().is_null() || cmp(ov, e.get())) {
                     e.insert(ov.clone());
                 }
             } else {
@@ -133,23 +134,39 @@ impl StatsSet {
     fn merge_is_constant(&mut self, other: &Self) {
         if let Some(is_constant) = self.get_as(Stat::IsConstant) {
             if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
-                    return;
+                match (self.get(Stat::Min), other.get(Stat::Min)) {
+                    (Some(min), Some(other_min)) => {
+                        let same = is_constant
+                            && other_is_constant
+                            && min.partial_cmp(other_min) == Some(Ordering::Equal);
+                        self.values.insert(Stat::IsConstant, same.into());
+                        return;
+                    }
+                    _ if !is_constant || !other_is_constant => {
+                        self.values.insert(Stat::IsConstant, false.into());
+                        return;
+                    }
+                    // Both are constant, but not known to be the same constant.
+                    _ => {}
                 }
             }
-            self.values.insert(Stat::IsConstant, false.into());
+            self.values.remove(&Stat::IsConstant);
         }
     }
 
     fn merge_is_sorted(&mut self, other: &Self) {
-        self.merge_sortedness_stat(other, Stat::IsSorted, |own, other| own <= other)
+        self.merge_sortedness_stat(other, Stat::IsSorted, |own, other| {
+            own.is_null() || other.is_null() || own <= other
+        })
     }
 
     fn merge_is_strict_sorted(&mut self, other: &Self) {
-        self.merge_sortedness_stat(other, Stat::IsStrictSorted, |own, other| own < other)
+        self.merge_sortedness_stat(other, Stat::IsStrictSorted, |own, other| {
+            own.is_null() || other.is_null() || own < other
+        })
     }
 
-    fn merge_sortedness_stat<F: Fn(Option<&Scalar>, Option<&Scalar>) -> bool>(
+    fn merge_sortedness_stat<F: Fn(&Scalar, &Scalar) -> bool>(
         &mut self,
         other: &Self,
         stat: Stat,
@@ -157,15 +174,14 @@ impl StatsSet {
     ) {
         if let Some(is_sorted) = self.get_as(stat) {
             if let Some(other_is_sorted) = other.get_as(stat) {
-                if !(self.get(Stat::Max).is_some() && other.get(Stat::Min).is_some()) {
-                    self.values.remove(&stat);
-                } else if is_sorted
-                    && other_is_sorted
-                    && cmp(self.get(Stat::Max), other.get(Stat::Min))
-                {
-                    return;
-                } else {
-                    self.values.insert(stat, false.into());
+                match (self.get(Stat::Max), other.get(Stat::Min)) {
+                    (Some(max), Some(other_min)) => {
+                        let merged = is_sorted && other_is_sorted && cmp(max, other_min);
+                        self.values.insert(stat, merged.into());
+                    }
+                    _ => {
+                        self.values.remove(&stat);
+                    }
                 }
             } else {
                 self.values.remove(&stat);
-- 
2.43.0


From 4d5f09ace1d7f6e6545f1007c849b6ad1d007bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 08/57] fix: empty constant arrays have no min, max or runs

---
 vortex-array/src/array/constant/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/array/constant/mod.rs b/vortex-array/src/array/constant/mod.rs
index 4adb816..9dee8eb 100644
--- a/vortex-array/src/array/constant/mod.rs
+++ b/vortex-array/src/array/constant/mod.rs
@@ -41,13 +41,17 @@ impl ConstantArray {
         let scalar = scalar.into();
         // TODO(aduffy): add stats for bools, ideally there should be a
         //  StatsSet::constant(Scalar) constructor that does this for us, like StatsSet::nulls.
-        let stats = StatsSet::from(HashMap::from([
-            (Stat::Max, scalar.clone()),
-            (Stat::Min, scalar.clone()),
-            (Stat::IsConstant, true.into()),
-            (Stat::IsSorted, true.into()),
-            (Stat::RunCount, 1.into()),
-        ]));
+        let stats = if length == 0 {
+            StatsSet::new()
+        } else {
+            StatsSet::from(HashMap::from([
+                (Stat::Max, scalar.clone()),
+                (Stat::Min, scalar.clone()),
+                (Stat::IsConstant, true.into()),
+                (Stat::IsSorted, true.into()),
+                (Stat::RunCount, 1.into()),
+            ]))
+        };
 
         Self::try_from_parts(
             scalar.dtype().clone(),
-- 
2.43.0


From a99bfb90b96258a2c0c5ea746de81bc78e285658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 09/57] fix: statistics of dictionary arrays

Null counts, extrema and sortedness were taken from the codes or from
dictionary values that may not be referenced.
---
 encodings/dict/src/stats.rs | 50 +++++++++++--------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..c9a7f1a 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,49 +1,27 @@
 use std::collections::HashMap;
 
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::{Array, IntoCanonical};
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
 use crate::DictArray;
 
 impl ArrayStatisticsCompute for DictArray {
-    fn compute_statistics(&self, _stat: Stat) -> VortexResult<StatsSet> {
-        let mut stats: HashMap<Stat, Scalar> = HashMap::new();
-
-        if let Some(rc) = self.codes().statistics().compute(Stat::RunCount) {
-            stats.insert(Stat::RunCount, rc);
-        }
-        if let Some(min) = self.values().statistics().compute(Stat::Min) {
-            stats.insert(Stat::Min, min);
-        }
-        if let Some(max) = self.values().statistics().compute(Stat::Max) {
-            stats.insert(Stat::Max, max);
-        }
-        if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
-            stats.insert(Stat::IsConstant, is_constant);
-        }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
-        }
-
-        // if dictionary is sorted
-        if self
-            .values()
-            .statistics()
-            .compute_is_sorted()
-            .unwrap_or(false)
-        {
-            if let Some(codes_are_sorted) = self.codes().statistics().compute(Stat::IsSorted) {
-                stats.insert(Stat::IsSorted, codes_are_sorted);
-            }
-
-            if let Some(codes_are_strict_sorted) =
-                self.codes().statistics().compute(Stat::IsStrictSorted)
-            {
-                stats.insert(Stat::IsStrictSorted, codes_are_strict_sorted);
+    fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
+        match stat {
+            // A run of values is a run of codes.
+            Stat::RunCount | Stat::IsConstant => {
+                let mut stats: HashMap<Stat, Scalar> = HashMap::new();
+                if let Some(value) = self.codes().statistics().compute(stat) {
+                    stats.insert(stat, value);
+                }
+                Ok(StatsSet::from(stats))
             }
+            // The dictionary may hold values that are not referenced by any code, and the order of
+            // the codes says nothing about the position of the nulls.
+            _ => Array::from(self.clone().into_canonical()?)
+                .with_dyn(|canonical| canonical.compute_statistics(stat)),
         }
-
-        Ok(StatsSet::from(stats))
     }
 }
-- 
2.43.0


From a3fb12088b3a067da4a660fa0e821cc3cae7f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 10/57] fix: take from a VarBinViewArray keeps the nullability
 of the array

---
 vortex-array/src/array/varbinview/compute.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..2ab1190 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,8 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
-        Ok(Array::from_arrow(take_arrow, nullable))
+        Ok(Array::from_arrow(take_arrow, self.dtype().is_nullable()))
     }
 }
 
-- 
2.43.0


From b5d9b5e5fc1441086da2b75bd5daaeacdf7d45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 11/57] fix: binary VarBinArrays canonicalize without being
 cast to utf8

---
 vortex-array/src/array/varbin/flatten.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..15cb22f 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -11,7 +12,11 @@ impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
-- 
2.43.0


From a385b7141487273f2d40280cde9cb98f9d40e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 12/57] fix: run-end arrays keep negative zero, nullability and
 offsets through encode, slice and take

---
 encodings/runend-bool/src/compute.rs | 37 +++++++++++++-----------
 encodings/runend/src/compress.rs     | 42 +++++++++++++++-------------
 encodings/runend/src/compute.rs      | 11 ++++++++
 3 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..ae59c81 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,8 @@
+use arrow_buffer::BooleanBuffer;
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +27,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
@@ -59,13 +63,14 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::try_new(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
-                .collect::<Vec<_>>(),
-        )
-        .to_array())
+                .collect::<BooleanBuffer>(),
+            self.validity().take(indices)?,
+        )?
+        .into_array())
     }
 }
 
@@ -77,9 +82,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..b76bda5 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -5,7 +5,7 @@ use num_traits::{AsPrimitive, FromPrimitive};
 use vortex::array::PrimitiveArray;
 use vortex::compute::unary::scalar_at;
 use vortex::stats::{ArrayStatistics, Stat};
-use vortex::validity::Validity;
+use vortex::validity::{ArrayValidity, Validity};
 use vortex::ArrayDType;
 use vortex_dtype::{match_each_integer_ptype, match_each_native_ptype, NativePType, Nullability};
 use vortex_error::{vortex_panic, VortexResult, VortexUnwrap as _};
@@ -22,28 +22,30 @@ pub fn runend_encode(array: &PrimitiveArray) -> (PrimitiveArray, PrimitiveArray)
         (PrimitiveArray::from_vec(ends, Validity::NonNullable), PrimitiveArray::from_vec(values, validity))
     });
 
-    // the values array stats are trivially derived
-    compressed_values
-        .statistics()
-        .set(Stat::RunCount, compressed_values.len().into());
-    compressed_values
-        .statistics()
-        .set(Stat::IsConstant, (compressed_values.len() == 1).into());
-    if let Some(min) = array.statistics().get(Stat::Min) {
-        compressed_values.statistics().set(Stat::Min, min);
-    }
-    if let Some(max) = array.statistics().get(Stat::Max) {
-        compressed_values.statistics().set(Stat::Max, max);
-    }
-    if let Some(is_sorted) = array.statistics().get(Stat::IsSorted) {
+    // the values array stats are trivially derived, as long as every element of the array is
+    // valid: the values array has no nulls, and the statistics of the array ignore its nulls.
+    if !array.is_empty() && array.logical_validity().all_valid() {
         compressed_values
             .statistics()
-            .set(Stat::IsSorted, is_sorted);
-    }
-    if let Some(is_strict_sorted) = array.statistics().get(Stat::IsStrictSorted) {
+            .set(Stat::RunCount, compressed_values.len().into());
         compressed_values
             .statistics()
-            .set(Stat::IsStrictSorted, is_strict_sorted);
+            .set(Stat::IsConstant, (compressed_values.len() == 1).into());
+        if let Some(min) = array.statistics().get(Stat::Min) {
+            compressed_values.statistics().set(Stat::Min, min);
+        }
+        if let Some(max) = array.statistics().get(Stat::Max) {
+            compressed_values.statistics().set(Stat::Max, max);
+        }
+        if let Some(is_sorted) = array.statistics().get(Stat::IsSorted) {
+            // Adjacent runs have different values, so the values are sorted iff they are strictly so
+            compressed_values
+                .statistics()
+                .set(Stat::IsSorted, is_sorted.clone());
+            compressed_values
+                .statistics()
+                .set(Stat::IsStrictSorted, is_sorted);
+        }
     }
 
     compressed_ends
@@ -80,7 +82,7 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
diff --git a/encodings/runend/src/compute.rs b/encodings/runend/src/compute.rs
index e4b8ccf..772f8c2 100644
--- a/encodings/runend/src/compute.rs
+++ b/encodings/runend/src/compute.rs
@@ -96,6 +96,17 @@ impl TakeFn for RunEndArray {
 
 impl SliceFn for RunEndArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Ok(Self::with_offset_and_length(
+                slice(self.ends(), 0, 0)?,
+                slice(self.values(), 0, 0)?,
+                self.validity().slice(start, stop)?,
+                0,
+                0,
+            )?
+            .into_array());
+        }
+
         let slice_begin = self.find_physical_index(start)?;
         let slice_end = self.find_physical_index(stop)?;
 
-- 
2.43.0


From 0e50d65ead97f2b7172abec0eac6eab5719a1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 13/57] fix: ALP-RD arrays keep the nullability of the array
 when decoded and read

---
 encodings/alp/src/alp_rd/array.rs             | 12 +++++++++---
 encodings/alp/src/alp_rd/compute/scalar_at.rs |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..ef69ab4 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -5,7 +5,7 @@ use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use vortex::array::{PrimitiveArray, SparseArray};
 use vortex::encoding::ids;
 use vortex::stats::{ArrayStatisticsCompute, StatsSet};
-use vortex::validity::{ArrayValidity, LogicalValidity};
+use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
 use vortex_dtype::{DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexExpect, VortexResult};
@@ -204,6 +204,12 @@ impl IntoCanonical for ALPRDArray {
             exc_u16 = PrimitiveArray::from(Vec::<u16>::new());
         }
 
+        let validity = if self.dtype().is_nullable() {
+            self.logical_validity().into_validity()
+        } else {
+            Validity::NonNullable
+        };
+
         let decoded_array = if self.is_f32() {
             PrimitiveArray::from_vec(
                 alp_rd_decode::<f32>(
@@ -214,7 +220,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +232,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         };
 
diff --git a/encodings/alp/src/alp_rd/compute/scalar_at.rs b/encodings/alp/src/alp_rd/compute/scalar_at.rs
index a6c42b6..a8717ec 100644
--- a/encodings/alp/src/alp_rd/compute/scalar_at.rs
+++ b/encodings/alp/src/alp_rd/compute/scalar_at.rs
@@ -1,4 +1,5 @@
 use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::ArrayDType;
 use vortex_error::{VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -22,11 +23,11 @@ impl ScalarAtFn for ALPRDArray {
         if self.is_f32() {
             let right: u32 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f32::from_bits((left as u32) << self.right_bit_width() | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         } else {
             let right: u64 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f64::from_bits(((left as u64) << self.right_bit_width()) | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         }
     }
 
-- 
2.43.0


From 81d24cb490ad9d24e1580b410dc2579357abe41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 14/57] fix: take from a ByteBoolArray keeps the nullability of
 the array

---
 encodings/bytebool/src/compute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..b408785 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -65,7 +65,7 @@ impl TakeFn for ByteBoolArray {
                     .collect::<Vec<_>>()
                 });
 
-                Self::from(bools).into_array()
+                Self::try_from_vec(bools, validity)?.into_array()
             }
             Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
 
-- 
2.43.0


From f8007a9eba5ddab484a525c357df3f936680f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 15/57] fix: FSST handles empty strings and null comparisons

---
 encodings/fsst/src/compress.rs |  5 +++++
 encodings/fsst/src/compute.rs  | 21 +++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/encodings/fsst/src/compress.rs b/encodings/fsst/src/compress.rs
index 4f19755..93c9c68 100644
--- a/encodings/fsst/src/compress.rs
+++ b/encodings/fsst/src/compress.rs
@@ -99,6 +99,11 @@ where
                 builder.push_null();
                 uncompressed_lengths.push(0);
             }
+            // FSST compressors don't accept empty strings, and their code is empty
+            Some([]) => {
+                uncompressed_lengths.push(0);
+                builder.push_value([]);
+            }
             Some(s) => {
                 uncompressed_lengths.push(s.len() as i32);
 
diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index e2793bd..78c29f0 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -6,7 +6,7 @@ use vortex::compute::{
 };
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
-use vortex_dtype::DType;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -66,15 +66,24 @@ fn compare_fsst_constant(
     }
     let compressor = compressor.build();
 
+    // FSST compressors don't accept empty strings, and their code is empty
+    let compress = |value: &[u8]| {
+        if value.is_empty() {
+            Buffer::from(Vec::<u8>::new())
+        } else {
+            Buffer::from(compressor.compress(value))
+        }
+    };
+
     let encoded_scalar = match left.dtype() {
         DType::Utf8(_) => right
             .scalar_value()
             .as_buffer_string()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_bytes()))),
+            .map(|scalar| compress(scalar.as_bytes())),
         DType::Binary(_) => right
             .scalar_value()
             .as_buffer()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_slice()))),
+            .map(|scalar| compress(scalar.as_slice())),
 
         _ => unreachable!("FSSTArray can only have string or binary data type"),
     };
@@ -82,7 +91,11 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(right.clone().into_array())
+            Ok(ConstantArray::new(
+                Scalar::null(DType::Bool(Nullability::Nullable)),
+                right.len(),
+            )
+            .into_array())
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From 4f660c050b0965633ea508c967f5347f4e64eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 16/57] fix: validity of sparse arrays with nullable patches or
 a non-null fill value

---
 vortex-array/src/array/sparse/flatten.rs | 58 ++++++++++++++----------
 vortex-array/src/array/sparse/mod.rs     | 35 ++++++--------
 2 files changed, 47 insertions(+), 46 deletions(-)

diff --git a/vortex-array/src/array/sparse/flatten.rs b/vortex-array/src/array/sparse/flatten.rs
index 17049c1..8ecede3 100644
--- a/vortex-array/src/array/sparse/flatten.rs
+++ b/vortex-array/src/array/sparse/flatten.rs
@@ -1,4 +1,4 @@
-use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, MutableBuffer};
+use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder};
 use itertools::Itertools;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType};
 use vortex_error::{VortexError, VortexResult};
@@ -8,25 +8,18 @@ use crate::array::primitive::PrimitiveArray;
 use crate::array::sparse::SparseArray;
 use crate::array::BoolArray;
 use crate::validity::Validity;
-use crate::{ArrayDType, Canonical, IntoArrayVariant, IntoCanonical};
+use crate::{ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
 
 impl IntoCanonical for SparseArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         // Resolve our indices into a vector of usize applying the offset
         let indices = self.resolved_indices();
 
-        let validity_buffer =
-            BooleanBufferBuilder::new_from_buffer(MutableBuffer::new_null(self.len()), self.len());
+        let validity = self.canonical_validity(&indices)?;
 
         if matches!(self.dtype(), DType::Bool(_)) {
             let values = self.values().into_bool()?.boolean_buffer();
-            canonicalize_sparse_bools(
-                values,
-                &indices,
-                self.len(),
-                self.fill_value(),
-                validity_buffer,
-            )
+            canonicalize_sparse_bools(values, &indices, self.len(), self.fill_value(), validity)
         } else {
             let values = self.values().into_primitive()?;
             match_each_native_ptype!(values.ptype(), |$P| {
@@ -35,19 +28,43 @@ impl IntoCanonical for SparseArray {
                     &indices,
                     self.len(),
                     self.fill_value(),
-                    validity_buffer
+                    validity
                 )
             })
         }
     }
 }
 
+impl SparseArray {
+    /// The validity of the canonical array: that of the patches where there are patches, and that
+    /// of the fill value everywhere else.
+    fn canonical_validity(&self, indices: &[usize]) -> VortexResult<Validity> {
+        if !self.dtype().is_nullable() {
+            return Ok(Validity::NonNullable);
+        }
+
+        let patches_validity = self
+            .values()
+            .with_dyn(|a| a.logical_validity())
+            .into_array()
+            .into_bool()?
+            .boolean_buffer();
+
+        let mut validity = BooleanBufferBuilder::new(self.len());
+        validity.append_n(self.len(), !self.fill_value().is_null());
+        for (i, idx) in indices.iter().enumerate() {
+            validity.set_bit(*idx, patches_validity.value(i));
+        }
+        Ok(Validity::from(validity.finish()))
+    }
+}
+
 fn canonicalize_sparse_bools(
     values: BooleanBuffer,
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity_buffer: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let fill_bool: bool = if fill_value.is_null() {
         bool::default()
@@ -57,10 +74,8 @@ fn canonicalize_sparse_bools(
     let mut flat_bools = vec![fill_bool; len];
     for (i, idx) in indices.iter().enumerate() {
         flat_bools[*idx] = values.value(i);
-        validity_buffer.set_bit(*idx, true);
     }
 
-    let validity = Validity::from(validity_buffer.finish());
     let bool_values = BoolArray::from_vec(flat_bools, validity);
 
     Ok(Canonical::Bool(bool_values))
@@ -73,7 +88,7 @@ fn canonicalize_sparse_primitives<
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let primitive_fill = if fill_value.is_null() {
         T::default()
@@ -84,16 +99,11 @@ fn canonicalize_sparse_primitives<
 
     for (v, idx) in values.iter().zip_eq(indices) {
         result[*idx] = *v;
-        validity.set_bit(*idx, true);
     }
 
-    let validity = validity.finish();
-    let array = if fill_value.is_null() {
-        PrimitiveArray::from_vec(result, Validity::from(validity))
-    } else {
-        PrimitiveArray::from(result)
-    };
-    Ok(Canonical::Primitive(array))
+    Ok(Canonical::Primitive(PrimitiveArray::from_vec(
+        result, validity,
+    )))
 }
 
 #[cfg(test)]
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 33ca689..4ef359b 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -5,7 +5,6 @@ use vortex_dtype::{match_each_integer_ptype, DType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 use vortex_scalar::{Scalar, ScalarValue};
 
-use crate::array::constant::ConstantArray;
 use crate::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use crate::compute::unary::scalar_at;
 use crate::compute::{search_sorted, SearchResult, SearchSortedSide};
@@ -191,28 +190,20 @@ impl ArrayValidity for SparseArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        let validity = if self.fill_value().is_null() {
-            // If we have a null fill value, then the result is a Sparse array with a fill_value
-            // of true, and patch values of false.
-            Self::try_new_with_offset(
-                self.indices(),
-                ConstantArray::new(true, self.indices().len()).into_array(),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        } else {
-            // If the fill_value is non-null, then the validity is based on the validity of the
-            // existing values.
-            Self::try_new_with_offset(
-                self.indices(),
-                self.values()
-                    .with_dyn(|a| a.logical_validity().into_array()),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
+        if !self.dtype().is_nullable() {
+            return LogicalValidity::AllValid(self.len());
         }
+
+        // The validity of a patched element is the validity of its patch, that of any other element
+        // is the validity of the fill value.
+        let validity = Self::try_new_with_offset(
+            self.indices(),
+            self.values()
+                .with_dyn(|a| a.logical_validity().into_array()),
+            self.len(),
+            self.indices_offset(),
+            (!self.fill_value().is_null()).into(),
+        )
         .vortex_expect("Error determining logical validity for sparse array");
         LogicalValidity::Array(validity.into_array())
     }
-- 
2.43.0


From 07d4636e85152c4ad01d728228ed1f2c7c3a2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 17/57] fix: take nothing from, and slice, chunked arrays
 without rows

---
 vortex-array/src/array/chunked/compute/slice.rs | 4 ++++
 vortex-array/src/array/chunked/compute/take.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vortex-array/src/array/chunked/compute/slice.rs b/vortex-array/src/array/chunked/compute/slice.rs
index 3faa414..eb6ab36 100644
--- a/vortex-array/src/array/chunked/compute/slice.rs
+++ b/vortex-array/src/array/chunked/compute/slice.rs
@@ -6,6 +6,10 @@ use crate::{Array, ArrayDType, IntoArray};
 
 impl SliceFn for ChunkedArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.nchunks() == 0 {
+            return Ok(self.clone().into_array());
+        }
+
         let (offset_chunk, offset_in_first_chunk) = self.find_chunk_idx(start);
         let (length_chunk, length_in_last_chunk) = self.find_chunk_idx(stop);
 
diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..6602ef9 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -11,6 +11,10 @@ use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 
 impl TakeFn for ChunkedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
+        if indices.is_empty() {
+            return Ok(Self::try_new(vec![], self.dtype().clone())?.into_array());
+        }
+
         // Fast path for strict sorted indices.
         if indices
             .statistics()
-- 
2.43.0


From 12de02d80d094b3d978e34ce621fb04dc9d4ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 18/57] fix: roaring encoders reject what bitmaps cannot
 represent

---
 encodings/roaring/src/boolean/compress.rs |  7 ++++-
 encodings/roaring/src/boolean/mod.rs      | 32 ++++++++++++++---------
 encodings/roaring/src/boolean/stats.rs    | 10 ++++---
 encodings/roaring/src/integer/compress.rs | 14 ++++++++++
 encodings/roaring/src/integer/compute.rs  |  4 +++
 5 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/encodings/roaring/src/boolean/compress.rs b/encodings/roaring/src/boolean/compress.rs
index 6a93f21..e010d2f 100644
--- a/encodings/roaring/src/boolean/compress.rs
+++ b/encodings/roaring/src/boolean/compress.rs
@@ -1,10 +1,15 @@
 use croaring::Bitmap;
 use vortex::array::BoolArray;
-use vortex_error::VortexResult;
+use vortex::ArrayDType;
+use vortex_error::{vortex_bail, VortexResult};
 
 use crate::RoaringBoolArray;
 
 pub fn roaring_bool_encode(bool_array: BoolArray) -> VortexResult<RoaringBoolArray> {
+    if bool_array.dtype().is_nullable() {
+        vortex_bail!(MismatchedTypes: "non-nullable bool", bool_array.dtype());
+    }
+
     let mut bitmap = Bitmap::new();
     bitmap.extend(bool_array.boolean_buffer().set_indices().map(|i| i as u32));
     bitmap.run_optimize();
diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index b2de436..771a53f 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -39,19 +39,25 @@ impl RoaringBoolArray {
             vortex_bail!("RoaringBoolArray length is less than bitmap cardinality")
         } else {
             let roaring_stats = bitmap.statistics();
-            let stats = StatsSet::from(HashMap::from([
-                (
-                    Stat::Min,
-                    (roaring_stats.cardinality == length as u64).into(),
-                ),
-                (Stat::Max, (roaring_stats.cardinality > 0).into()),
-                (
-                    Stat::IsConstant,
-                    (roaring_stats.cardinality == length as u64 || roaring_stats.cardinality == 0)
-                        .into(),
-                ),
-                (Stat::TrueCount, roaring_stats.cardinality.into()),
-            ]));
+            let stats = if length == 0 {
+                // There's no min, max or constant of no values
+                StatsSet::from(HashMap::from([(Stat::TrueCount, 0u64.into())]))
+            } else {
+                StatsSet::from(HashMap::from([
+                    (
+                        Stat::Min,
+                        (roaring_stats.cardinality == length as u64).into(),
+                    ),
+                    (Stat::Max, (roaring_stats.cardinality > 0).into()),
+                    (
+                        Stat::IsConstant,
+                        (roaring_stats.cardinality == length as u64
+                            || roaring_stats.cardinality == 0)
+                            .into(),
+                    ),
+                    (Stat::TrueCount, roaring_stats.cardinality.into()),
+                ]))
+            };
 
             Ok(Self {
                 typed: TypedArray::try_from_parts(
diff --git a/encodings/roaring/src/boolean/stats.rs b/encodings/roaring/src/boolean/stats.rs
index 5f62f20..a9dbb82 100644
--- a/encodings/roaring/src/boolean/stats.rs
+++ b/encodings/roaring/src/boolean/stats.rs
@@ -33,12 +33,14 @@ impl ArrayStatisticsCompute for BitmapStats {
         let bitset_slice = self.0.as_slice();
         let whole_chunks = self.1 / 64;
         let last_chunk_len = self.1 % 64;
-        let fist_bool = bitset_slice[0] & 1 == 1;
+        // The bitset only extends to the last true value
+        let bits64_at = |idx: usize| bitset_slice.get(idx).copied().unwrap_or(0);
+        let fist_bool = bits64_at(0) & 1 == 1;
         let mut stats = RoaringBoolStatsAccumulator::new(fist_bool);
-        for bits64 in bitset_slice[0..whole_chunks].iter() {
-            stats.next(*bits64);
+        for idx in 0..whole_chunks {
+            stats.next(bits64_at(idx));
         }
-        stats.next_up_to_length(bitset_slice[whole_chunks], last_chunk_len);
+        stats.next_up_to_length(bits64_at(whole_chunks), last_chunk_len);
         Ok(stats.finish(self.2))
     }
 }
diff --git a/encodings/roaring/src/integer/compress.rs b/encodings/roaring/src/integer/compress.rs
index 47faea2..b5f6554 100644
--- a/encodings/roaring/src/integer/compress.rs
+++ b/encodings/roaring/src/integer/compress.rs
@@ -1,12 +1,26 @@
 use croaring::Bitmap;
 use num_traits::NumCast;
 use vortex::array::PrimitiveArray;
+use vortex::stats::ArrayStatistics;
+use vortex::ArrayDType;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::RoaringIntArray;
 
 pub fn roaring_int_encode(parray: PrimitiveArray) -> VortexResult<RoaringIntArray> {
+    // Bitmaps are sets of integers
+    if parray.dtype().is_nullable() {
+        vortex_bail!(MismatchedTypes: "non-nullable unsigned int", parray.dtype());
+    }
+    if !parray
+        .statistics()
+        .compute_is_strict_sorted()
+        .unwrap_or(parray.is_empty())
+    {
+        vortex_bail!("RoaringInt can only encode strictly sorted arrays");
+    }
+
     match parray.ptype() {
         PType::U8 => roaring_encode_primitive::<u8>(parray.maybe_null_slice()),
         PType::U16 => roaring_encode_primitive::<u16>(parray.maybe_null_slice()),
diff --git a/encodings/roaring/src/integer/compute.rs b/encodings/roaring/src/integer/compute.rs
index 84df832..a0f595a 100644
--- a/encodings/roaring/src/integer/compute.rs
+++ b/encodings/roaring/src/integer/compute.rs
@@ -41,6 +41,10 @@ impl ScalarAtFn for RoaringIntArray {
 
 impl SliceFn for RoaringIntArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Self::try_new(Bitmap::new(), self.ptype()).map(IntoArray::into_array);
+        }
+
         let mut bitmap = self.owned_bitmap();
         let start = bitmap
             .select(start as u32)
-- 
2.43.0


From 913b3b31e0b56a43a2837ae3668bb9c1f61b38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 19/57] fix: patches taken from sliced bit-packed arrays, empty
 selections of chunked extension arrays

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 104 +++---------------
 .../src/array/chunked/compute/filter.rs       |  10 +-
 .../src/array/chunked/compute/take.rs         |   8 +-
 3 files changed, 33 insertions(+), 89 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..474f471 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -1,9 +1,7 @@
-use std::cmp::min;
-
 use fastlanes::BitPacking;
 use itertools::Itertools;
 use vortex::array::{PrimitiveArray, SparseArray};
-use vortex::compute::{slice, take, TakeFn};
+use vortex::compute::{take, TakeFn};
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 use vortex_dtype::{
     match_each_integer_ptype, match_each_unsigned_integer_ptype, NativePType, PType,
@@ -16,7 +14,6 @@ use crate::{unpack_single_primitive, BitPackedArray};
 // all 1024 elements takes ~8.8x as long as unpacking a single element on an M2 Macbook Air.
 // see https://github.com/spiraldb/vortex/pull/190#issue-2223752833
 const UNPACK_CHUNK_THRESHOLD: usize = 8;
-const BULK_PATCH_THRESHOLD: usize = 64;
 
 impl TakeFn for BitPackedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
@@ -71,9 +68,7 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     let mut output = Vec::with_capacity(indices.len());
     let mut unpacked = [T::zero(); 1024];
 
-    let mut batch_count = 0_usize;
     for (chunk, offsets) in chunked_indices {
-        batch_count += 1;
         let chunk_size = 128 * bit_width / size_of::<T>();
         let packed_chunk = &packed[chunk * chunk_size..][..chunk_size];
 
@@ -118,96 +113,33 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     }
 
     if let Some(ref patches) = patches {
-        patch_for_take_primitive::<T, I>(patches, indices, offset, batch_count, &mut output)?;
+        patch_for_take_primitive(patches, indices, &mut output)?;
     }
 
     Ok(output)
 }
 
-fn patch_for_take_primitive<T: NativePType, I: NativePType>(
+fn patch_for_take_primitive<T: NativePType>(
     patches: &SparseArray,
     indices: &PrimitiveArray,
-    offset: usize,
-    batch_count: usize,
     output: &mut [T],
 ) -> VortexResult<()> {
-    #[inline]
-    fn inner_patch<T: NativePType>(
-        patches: &SparseArray,
-        indices: &PrimitiveArray,
-        output: &mut [T],
-    ) -> VortexResult<()> {
-        let taken_patches = take(patches.as_ref(), indices.as_ref())?;
-        let taken_patches = SparseArray::try_from(taken_patches)?;
-
-        let base_index = output.len() - indices.len();
-        let output_patches = taken_patches
-            .values()
-            .into_primitive()?
-            .reinterpret_cast(T::PTYPE);
-        taken_patches
-            .resolved_indices()
-            .iter()
-            .map(|idx| base_index + *idx)
-            .zip_eq(output_patches.maybe_null_slice::<T>())
-            .for_each(|(idx, val)| {
-                output[idx] = *val;
-            });
-
-        Ok(())
-    }
-
-    // if we have a small number of relatively large batches, we gain by slicing and then patching inside the loop
-    // if we have a large number of relatively small batches, the overhead isn't worth it, and we're better off with a bulk patch
-    // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
-    let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
-    if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
-    }
-
-    let min_index = patches.min_index().unwrap_or_default();
-    let max_index = patches.max_index().unwrap_or_default();
-
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
-    let chunked_indices = &indices
-        .maybe_null_slice::<I>()
+    // The patches are sliced exactly, so unlike the packed values they're taken by the indices as
+    // they are, without the offset of the array.
+    let taken_patches = take(patches.as_ref(), indices.as_ref())?;
+    let taken_patches = SparseArray::try_from(taken_patches)?;
+
+    let output_patches = taken_patches
+        .values()
+        .into_primitive()?
+        .reinterpret_cast(T::PTYPE);
+    taken_patches
+        .resolved_indices()
         .iter()
-        .map(|i| {
-            i.to_usize()
-                .vortex_expect("index must be expressible as usize")
-                + offset
-        })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
-
-    for (chunk, offsets) in chunked_indices {
-        // NOTE: we need to subtract the array offset before slicing into the patches.
-        // This is because BitPackedArray is rounded to block boundaries, but patches
-        // is sliced exactly.
-        let patches_start = if chunk == 0 {
-            0
-        } else {
-            (chunk * 1024) - offset
-        };
-        let patches_end = min((chunk + 1) * 1024 - offset, patches.len());
-        let patches_slice = slice(patches.as_ref(), patches_start, patches_end)?;
-        let patches_slice = SparseArray::try_from(patches_slice)?;
-        if patches_slice.is_empty() {
-            continue;
-        }
-
-        let min_index = patches_slice.min_index().unwrap_or_default();
-        let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
-        if offsets.is_empty() {
-            continue;
-        }
-
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
-    }
+        .zip_eq(output_patches.maybe_null_slice::<T>())
+        .for_each(|(idx, val)| {
+            output[*idx] = *val;
+        });
 
     Ok(())
 }
diff --git a/vortex-array/src/array/chunked/compute/filter.rs b/vortex-array/src/array/chunked/compute/filter.rs
index 55058ed..cbab389 100644
--- a/vortex-array/src/array/chunked/compute/filter.rs
+++ b/vortex-array/src/array/chunked/compute/filter.rs
@@ -2,7 +2,7 @@ use arrow_buffer::BooleanBufferBuilder;
 use vortex_error::{VortexExpect, VortexResult};
 
 use crate::array::{BoolArray, ChunkedArray, PrimitiveArray};
-use crate::compute::{filter, take, FilterFn, SearchSorted, SearchSortedSide};
+use crate::compute::{filter, slice, take, FilterFn, SearchSorted, SearchSortedSide};
 use crate::{Array, ArrayDType, IntoArray, IntoCanonical};
 
 // This is modeled after the constant with the equivalent name in arrow-rs.
@@ -20,7 +20,13 @@ impl FilterFn for ChunkedArray {
                 Ok(self.clone().into_array())
             } else if selected == 0 {
                 // Fast path 2: empty array after filter.
-                Ok(ChunkedArray::try_new(vec![], self.dtype().clone())?.into_array())
+                // Keep a chunk, if there is one, for the storage type of extension arrays
+                let chunks = self
+                    .chunks()
+                    .take(1)
+                    .map(|c| slice(&c, 0, 0))
+                    .collect::<VortexResult<Vec<_>>>()?;
+                Ok(ChunkedArray::try_new(chunks, self.dtype().clone())?.into_array())
             } else {
                 // General path: perform filtering.
                 //
diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index 6602ef9..f11f0d3 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -12,7 +12,13 @@ use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 impl TakeFn for ChunkedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
         if indices.is_empty() {
-            return Ok(Self::try_new(vec![], self.dtype().clone())?.into_array());
+            // Keep a chunk, if there is one, for the storage type of extension arrays
+            let chunks = self
+                .chunks()
+                .take(1)
+                .map(|c| slice(&c, 0, 0))
+                .try_collect()?;
+            return Ok(Self::try_new(chunks, self.dtype().clone())?.into_array());
         }
 
         // Fast path for strict sorted indices.
-- 
2.43.0


From 492e0825b4b65a9d73585392baa214bb20dd84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 20/57] fix: filtering by sliced or lazily encoded masks, and
 of extension arrays

---
 vortex-array/src/array/bool/mod.rs          | 12 ++++++++++--
 vortex-array/src/array/extension/compute.rs | 12 +++++++++++-
 vortex-array/src/array/varbinview/mod.rs    | 20 +++++++++-----------
 vortex-array/src/canonical.rs               | 21 ++++++++++++++++-----
 vortex-array/src/compute/filter.rs          | 12 +++++++++++-
 5 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/vortex-array/src/array/bool/mod.rs b/vortex-array/src/array/bool/mod.rs
index ea3c2c2..1965a43 100644
--- a/vortex-array/src/array/bool/mod.rs
+++ b/vortex-array/src/array/bool/mod.rs
@@ -97,11 +97,19 @@ impl ArrayVariants for BoolArray {
 
 impl BoolArrayTrait for BoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        Box::new(BitIndexIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitIndexIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        Box::new(BitSliceIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitSliceIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 }
 
diff --git a/vortex-array/src/array/extension/compute.rs b/vortex-array/src/array/extension/compute.rs
index 97c9710..3a53dc8 100644
--- a/vortex-array/src/array/extension/compute.rs
+++ b/vortex-array/src/array/extension/compute.rs
@@ -5,7 +5,7 @@ use crate::array::extension::ExtensionArray;
 use crate::array::ConstantArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, CastFn, ScalarAtFn};
 use crate::compute::{
-    compare, slice, take, ArrayCompute, MaybeCompareFn, Operator, SliceFn, TakeFn,
+    compare, filter, slice, take, ArrayCompute, FilterFn, MaybeCompareFn, Operator, SliceFn, TakeFn,
 };
 use crate::variants::ExtensionArrayTrait;
 use crate::{Array, ArrayDType, IntoArray};
@@ -22,6 +22,10 @@ impl ArrayCompute for ExtensionArray {
         MaybeCompareFn::maybe_compare(self, other, operator)
     }
 
+    fn filter(&self) -> Option<&dyn FilterFn> {
+        Some(self)
+    }
+
     fn scalar_at(&self) -> Option<&dyn ScalarAtFn> {
         Some(self)
     }
@@ -72,6 +76,12 @@ impl ScalarAtFn for ExtensionArray {
     }
 }
 
+impl FilterFn for ExtensionArray {
+    fn filter(&self, predicate: &Array) -> VortexResult<Array> {
+        Ok(Self::new(self.ext_dtype().clone(), filter(self.storage(), predicate)?).into_array())
+    }
+}
+
 impl SliceFn for ExtensionArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
         Ok(Self::new(
diff --git a/vortex-array/src/array/varbinview/mod.rs b/vortex-array/src/array/varbinview/mod.rs
index 54889e2..7c6a10f 100644
--- a/vortex-array/src/array/varbinview/mod.rs
+++ b/vortex-array/src/array/varbinview/mod.rs
@@ -5,7 +5,7 @@ use ::serde::{Deserialize, Serialize};
 use arrow_array::builder::{BinaryViewBuilder, GenericByteViewBuilder, StringViewBuilder};
 use arrow_array::types::{BinaryViewType, ByteViewType, StringViewType};
 use arrow_array::{ArrayRef, BinaryViewArray, GenericByteViewArray, StringViewArray};
-use arrow_buffer::ScalarBuffer;
+use arrow_buffer::{Buffer as ArrowBuffer, ScalarBuffer};
 use itertools::Itertools;
 use static_assertions::{assert_eq_align, assert_eq_size};
 use vortex_buffer::Buffer;
@@ -542,21 +542,19 @@ pub(crate) fn varbinview_as_arrow(var_bin_view: &VarBinViewArray) -> ArrayRef {
         .map(|p| p.buffer().clone().into_arrow())
         .collect::<Vec<_>>();
 
+    // The bytes of the views are not necessarily aligned, e.g. when there are none
+    let mut views = views.buffer().clone().into_arrow();
+    if views.as_ptr().align_offset(align_of::<u128>()) != 0 {
+        views = ArrowBuffer::from_slice_ref(views.as_slice());
+    }
+
     // Switch on Arrow DType.
     match var_bin_view.dtype() {
         DType::Binary(_) => Arc::new(unsafe {
-            BinaryViewArray::new_unchecked(
-                ScalarBuffer::<u128>::from(views.buffer().clone().into_arrow()),
-                data,
-                nulls,
-            )
+            BinaryViewArray::new_unchecked(ScalarBuffer::<u128>::from(views), data, nulls)
         }),
         DType::Utf8(_) => Arc::new(unsafe {
-            StringViewArray::new_unchecked(
-                ScalarBuffer::<u128>::from(views.buffer().clone().into_arrow()),
-                data,
-                nulls,
-            )
+            StringViewArray::new_unchecked(ScalarBuffer::<u128>::from(views), data, nulls)
         }),
         _ => vortex_panic!("expected utf8 or binary, got {}", var_bin_view.dtype()),
     }
diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..d49377e 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -270,13 +270,24 @@ fn temporal_to_arrow(temporal_array: TemporalArray) -> VortexResult<ArrayRef> {
                 temporal_array.ext_dtype().id()
             ),
         },
-        TemporalMetadata::Timestamp(time_unit, _) => {
+        TemporalMetadata::Timestamp(time_unit, time_zone) => {
             let (scalars, nulls) = extract_temporal_values!(&temporal_array.temporal_values(), i64);
             match time_unit {
-                TimeUnit::Ns => Arc::new(TimestampNanosecondArray::new(scalars, nulls)),
-                TimeUnit::Us => Arc::new(TimestampMicrosecondArray::new(scalars, nulls)),
-                TimeUnit::Ms => Arc::new(TimestampMillisecondArray::new(scalars, nulls)),
-                TimeUnit::S => Arc::new(TimestampSecondArray::new(scalars, nulls)),
+                TimeUnit::Ns => Arc::new(
+                    TimestampNanosecondArray::new(scalars, nulls)
+                        .with_timezone_opt(time_zone.clone()),
+                ),
+                TimeUnit::Us => Arc::new(
+                    TimestampMicrosecondArray::new(scalars, nulls)
+                        .with_timezone_opt(time_zone.clone()),
+                ),
+                TimeUnit::Ms => Arc::new(
+                    TimestampMillisecondArray::new(scalars, nulls)
+                        .with_timezone_opt(time_zone.clone()),
+                ),
+                TimeUnit::S => Arc::new(
+                    TimestampSecondArray::new(scalars, nulls).with_timezone_opt(time_zone.clone()),
+                ),
                 _ => vortex_bail!(
                     "Invalid TimeUnit {time_unit} for {}",
                     temporal_array.ext_dtype().id()
diff --git a/vortex-array/src/compute/filter.rs b/vortex-array/src/compute/filter.rs
index a322fb1..947d456 100644
--- a/vortex-array/src/compute/filter.rs
+++ b/vortex-array/src/compute/filter.rs
@@ -3,7 +3,8 @@ use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, IntoCanonical};
+use crate::encoding::ids;
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 
 pub trait FilterFn {
     /// Filter an array by the provided predicate.
@@ -38,6 +39,15 @@ pub fn filter(array: impl AsRef<Array>, predicate: impl AsRef<Array>) -> VortexR
         );
     }
 
+    // Only bool and constant arrays know how to iterate over their set values
+    let canonical_predicate =
+        if matches!(predicate.encoding().id().code(), ids::BOOL | ids::CONSTANT) {
+            None
+        } else {
+            Some(predicate.clone().into_bool()?.into_array())
+        };
+    let predicate = canonical_predicate.as_ref().unwrap_or(predicate);
+
     array.with_dyn(|a| {
         if let Some(filter_fn) = a.filter() {
             filter_fn.filter(predicate)
-- 
2.43.0


From fbd3002c0d20c7409815ced8447d90bbc8a78e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 21/57] fix: time zones of timestamps survive conversion to and
 from Arrow

---
 vortex-array/src/arrow/array.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..6ee439e 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -63,9 +63,6 @@ where
             Validity::NonNullable,
         );
         primitive.statistics().set(Stat::IsSorted, true.into());
-        primitive
-            .statistics()
-            .set(Stat::IsStrictSorted, true.into());
         primitive.into_array()
     }
 }
@@ -85,7 +82,8 @@ where
             return arr.into();
         }
 
-        match T::DATA_TYPE {
+        // The data type of the array, unlike that of the Arrow type, knows the time zone
+        match value.data_type() {
             DataType::Timestamp(time_unit, tz) => {
                 let tz = tz.clone().map(|s| s.to_string());
                 TemporalArray::new_timestamp(arr.into(), time_unit.into(), tz).into()
-- 
2.43.0


From 4a910546fa0d81deafc4264e1717cd36e0e675b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 22/57] fix: sorted search over patches, shifted frames of
 reference, nulls and other widths of integers

---
 .../src/bitpacking/compute/search_sorted.rs   | 109 +++++++++++-------
 encodings/fastlanes/src/for/compress.rs       |   2 +-
 encodings/fastlanes/src/for/compute.rs        |  25 ++--
 vortex-array/src/array/constant/compute.rs    |   7 +-
 vortex-array/src/array/sparse/compute/mod.rs  |  15 ++-
 vortex-array/src/compute/search_sorted.rs     |  17 ++-
 6 files changed, 110 insertions(+), 65 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..96f9eeb 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -1,30 +1,42 @@
-use std::cmp;
 use std::cmp::Ordering;
 use std::cmp::Ordering::Greater;
 
 use fastlanes::BitPacking;
 use itertools::Itertools;
-use num_traits::AsPrimitive;
 use vortex::array::SparseArray;
+use vortex::compute::unary::scalar_at;
 use vortex::compute::{
     search_sorted_u64, IndexOrd, Len, SearchResult, SearchSorted, SearchSortedFn, SearchSortedSide,
 };
 use vortex::validity::Validity;
-use vortex::ArrayDType;
+use vortex::{Array, ArrayDType};
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType};
 use vortex_error::{VortexError, VortexExpect as _, VortexResult};
-use vortex_scalar::Scalar;
+use vortex_scalar::{PValue, Scalar};
 
 use crate::{unpack_single_primitive, BitPackedArray};
 
 impl SearchSortedFn for BitPackedArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.ptype().is_signed_int() {
+            // Negative values are patches at the start of a sorted array
+            return Ok(SearchSorted::search_sorted(
+                self.as_ref(),
+                &value.cast(self.dtype())?,
+                side,
+            ));
+        }
+
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             search_sorted_typed::<$P>(self, value, side)
         })
     }
 
     fn search_sorted_u64(&self, value: u64, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.ptype().is_signed_int() {
+            return self.search_sorted(&Scalar::primitive(value, self.dtype().nullability()), side);
+        }
+
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             // NOTE: conversion may truncate silently.
             if let Some(pvalue) = num_traits::cast::<u64, $P>(value) {
@@ -42,6 +54,14 @@ impl SearchSortedFn for BitPackedArray {
         values: &[Scalar],
         sides: &[SearchSortedSide],
     ) -> VortexResult<Vec<SearchResult>> {
+        if self.ptype().is_signed_int() {
+            return values
+                .iter()
+                .zip(sides.iter().copied())
+                .map(|(value, side)| self.search_sorted(value, side))
+                .try_collect();
+        }
+
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             let searcher = BitPackedSearch::<'_, $P>::new(self);
 
@@ -63,6 +83,14 @@ impl SearchSortedFn for BitPackedArray {
         values: &[u64],
         sides: &[SearchSortedSide],
     ) -> VortexResult<Vec<SearchResult>> {
+        if self.ptype().is_signed_int() {
+            return values
+                .iter()
+                .zip(sides.iter().copied())
+                .map(|(value, side)| search_sorted_u64(self.as_ref(), *value, side))
+                .try_collect();
+        }
+
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             let searcher = BitPackedSearch::<'_, $P>::new(self);
 
@@ -71,9 +99,11 @@ impl SearchSortedFn for BitPackedArray {
                 .copied()
                 .zip(sides.iter().copied())
                 .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
+                    Ok(match num_traits::cast::<u64, $P>(value) {
+                        Some(cast_value) => searcher.search_sorted(&cast_value, side),
+                        // Too large for the type of the array, so off its right end
+                        None => SearchResult::NotFound(self.len()),
+                    })
                 })
                 .try_collect()
         })
@@ -86,11 +116,8 @@ fn search_sorted_typed<T>(
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult>
 where
-    T: NativePType
-        + TryFrom<Scalar, Error = VortexError>
-        + BitPacking
-        + AsPrimitive<usize>
-        + AsPrimitive<u64>,
+    T: NativePType + TryFrom<Scalar, Error = VortexError> + TryFrom<PValue, Error = VortexError>,
+    T: BitPacking,
 {
     let native_value: T = value.cast(array.dtype())?.try_into()?;
     search_sorted_native(array, native_value, side)
@@ -103,23 +130,12 @@ fn search_sorted_native<T>(
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult>
 where
-    T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
+    T: NativePType + BitPacking + TryFrom<PValue, Error = VortexError>,
 {
-    if let Some(patches_array) = array.patches() {
-        // If patches exist they must be the last elements in the array, if the value we're looking for is greater than
-        // max packed value just search the patches
-        let usize_value: usize = value.as_();
-        if usize_value > array.max_packed_value() {
-            search_sorted_u64(&patches_array, value.as_(), side)
-        } else {
-            Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
-        }
-    } else {
-        Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
-    }
+    Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
 }
 
-/// This wrapper exists, so that you can't invoke SearchSorted::search_sorted directly on BitPackedArray as it omits searching patches
+/// This wrapper exists, so that you can't invoke SearchSorted::search_sorted directly on BitPackedArray
 #[derive(Debug)]
 struct BitPackedSearch<'a, T> {
     // NOTE: caching this here is important for performance, as each call to `maybe_null_slice`
@@ -128,46 +144,55 @@ struct BitPackedSearch<'a, T> {
     offset: u16,
     length: usize,
     bit_width: u8,
-    first_invalid_idx: usize,
+    validity: Validity,
+    patches: Option<Array>,
+    min_patch_offset: usize,
 }
 
 impl<'a, T: BitPacking + NativePType> BitPackedSearch<'a, T> {
     pub fn new(array: &'a BitPackedArray) -> Self {
-        let min_patch_offset = array
-            .patches()
+        let patches = array.patches();
+        let min_patch_offset = patches
+            .clone()
             .and_then(|p| {
                 SparseArray::try_from(p)
                     .vortex_expect("Only sparse patches are supported")
                     .min_index()
             })
             .unwrap_or_else(|| array.len());
-        let first_null_idx = match array.validity() {
-            Validity::NonNullable | Validity::AllValid => array.len(),
-            Validity::AllInvalid => 0,
-            Validity::Array(varray) => {
-                // In sorted order, nulls come after all the non-null values.
-                varray.with_dyn(|a| a.as_bool_array_unchecked().true_count())
-            }
-        };
-
-        let first_invalid_idx = cmp::min(min_patch_offset, first_null_idx);
 
         Self {
             packed_maybe_null_slice: array.packed_slice::<T>(),
             offset: array.offset(),
             length: array.len(),
             bit_width: array.bit_width(),
-            first_invalid_idx,
+            validity: array.validity(),
+            patches,
+            min_patch_offset,
         }
     }
 }
 
-impl<T: BitPacking + NativePType> IndexOrd<T> for BitPackedSearch<'_, T> {
+impl<T: BitPacking + NativePType + TryFrom<PValue, Error = VortexError>> IndexOrd<T>
+    for BitPackedSearch<'_, T>
+{
     fn index_cmp(&self, idx: usize, elem: &T) -> Option<Ordering> {
-        if idx >= self.first_invalid_idx {
+        if self.validity.is_null(idx) {
+            // In sorted order, nulls come after all the non-null values.
             return Some(Greater);
         }
 
+        if idx >= self.min_patch_offset {
+            let patch = self
+                .patches
+                .as_ref()
+                .and_then(|p| scalar_at(p, idx).ok())
+                .and_then(|s| s.value().as_pvalue().ok().flatten());
+            if let Some(patch) = patch {
+                return T::try_from(patch).ok().map(|v| v.compare(*elem));
+            }
+        }
+
         // SAFETY: Used in search_sorted_by which ensures that idx is within bounds
         let val: T = unsafe {
             unpack_single_primitive(
diff --git a/encodings/fastlanes/src/for/compress.rs b/encodings/fastlanes/src/for/compress.rs
index a36482b..d267603 100644
--- a/encodings/fastlanes/src/for/compress.rs
+++ b/encodings/fastlanes/src/for/compress.rs
@@ -70,7 +70,7 @@ fn compress_primitive<T: NativePType + WrappingSub + PrimInt>(
             .maybe_null_slice::<T>()
             .iter()
             .map(|&v| v.wrapping_sub(&min))
-            .map(|v| v >> shift as usize)
+            .map(|v| v.unsigned_shr(shift as u32))
             .collect_vec()
     } else {
         parray
diff --git a/encodings/fastlanes/src/for/compute.rs b/encodings/fastlanes/src/for/compute.rs
index 62411b8..3e6caaf 100644
--- a/encodings/fastlanes/src/for/compute.rs
+++ b/encodings/fastlanes/src/for/compute.rs
@@ -1,6 +1,4 @@
-use std::ops::{AddAssign, Shl, Shr};
-
-use num_traits::{WrappingAdd, WrappingSub};
+use num_traits::WrappingSub;
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
     filter, search_sorted, slice, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn,
@@ -112,11 +110,7 @@ where
     T: NativePType
         + for<'a> TryFrom<&'a Scalar, Error = VortexError>
         + TryFrom<PValue, Error = VortexError>
-        + Shr<u8, Output = T>
-        + Shl<u8, Output = T>
         + WrappingSub
-        + WrappingAdd
-        + AddAssign
         + Into<PValue>,
 {
     let min: T = array
@@ -132,26 +126,25 @@ where
 
     // When the values in the array are shifted, not all values in the domain are representable in the compressed
     // space. Multiple different search values can translate to same value in the compressed space.
-    let encoded_value = primitive_value.wrapping_sub(&min) >> array.shift();
-    let decoded_value = (encoded_value << array.shift()).wrapping_add(&min);
+    let pvalue: PValue = primitive_value.wrapping_sub(&min).into();
+    let offset = pvalue
+        .reinterpret_cast(array.ptype().to_unsigned())
+        .as_primitive::<u64>()?;
+    let encoded_value = offset >> array.shift();
 
     // We first determine whether the value can be represented in the compressed array. For any value that is not
     // representable, it is by definition NotFound. For NotFound values, the correct insertion index is by definition
     // the same regardless of which side we search on.
     // However, to correctly handle repeated values in the array, we need to search left on the next *representable*
     // value (i.e., increment the translated value by 1).
-    let representable = decoded_value == primitive_value;
+    let representable = (encoded_value << array.shift()) == offset;
     let (side, target) = if representable {
         (side, encoded_value)
     } else {
-        (
-            SearchSortedSide::Left,
-            encoded_value.wrapping_add(&T::one()),
-        )
+        (SearchSortedSide::Left, encoded_value + 1)
     };
 
-    let target_scalar = Scalar::primitive(target, value.dtype().nullability())
-        .reinterpret_cast(array.ptype().to_unsigned());
+    let target_scalar = Scalar::primitive(target, value.dtype().nullability());
     let search_result = search_sorted(&array.encoded(), target_scalar, side)?;
     Ok(
         if representable && matches!(search_result, SearchResult::Found(_)) {
diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index ffd70ee..d61bf83 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -88,9 +88,14 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.is_empty() || self.scalar_value().is_null() {
+            // In sorted order, nulls come after all the non-null values.
+            return Ok(SearchResult::NotFound(0));
+        }
+
         match self
             .scalar_value()
-            .partial_cmp(value.value())
+            .partial_cmp(value.cast(self.dtype())?.value())
             .unwrap_or(Ordering::Less)
         {
             Ordering::Greater => Ok(SearchResult::NotFound(0)),
diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index c875c22..ea87109 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -6,10 +6,10 @@ use crate::array::sparse::SparseArray;
 use crate::array::PrimitiveArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{
-    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn, SearchSortedSide,
-    SliceFn, TakeFn,
+    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
+    SearchSortedSide, SliceFn, TakeFn,
 };
-use crate::{Array, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 mod slice;
 mod take;
@@ -54,6 +54,15 @@ impl ScalarAtFn for SparseArray {
 
 impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if !self.fill_value().is_null() || self.indices().is_empty() {
+            // Elements other than the patches take part in the order
+            return Ok(SearchSorted::search_sorted(
+                self.as_ref(),
+                &value.cast(self.dtype())?,
+                side,
+            ));
+        }
+
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
             let sidx = sr.to_offsets_index(self.metadata().indices_len);
             let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index e9082c9..986f045 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -163,11 +163,20 @@ pub fn search_sorted_u64(
     target: u64,
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult> {
+    let Ok(scalar) = Scalar::primitive(target, array.dtype().nullability()).cast(array.dtype())
+    else {
+        if array.dtype().is_int() {
+            // provided u64 is too large to fit in the type of the array, value must be off
+            // the right end of the array.
+            return Ok(SearchResult::NotFound(array.len()));
+        }
+        vortex_bail!("Cannot search for {} in {}", target, array.dtype())
+    };
+
     array.with_dyn(|a| {
         if let Some(search_sorted) = a.search_sorted() {
             search_sorted.search_sorted_u64(target, side)
         } else if a.scalar_at().is_some() {
-            let scalar = Scalar::primitive(target, array.dtype().nullability());
             Ok(array.search_sorted(&scalar, side))
         } else {
             vortex_bail!(
@@ -327,7 +336,7 @@ fn search_sorted_side_idx<F: FnMut(usize) -> Ordering>(
 ) -> SearchResult {
     let mut size = to - from;
     if size == 0 {
-        return SearchResult::NotFound(0);
+        return SearchResult::NotFound(from);
     }
     let mut base = from;
 
@@ -378,6 +387,10 @@ fn search_sorted_side_idx<F: FnMut(usize) -> Ordering>(
 impl IndexOrd<Scalar> for Array {
     fn index_cmp(&self, idx: usize, elem: &Scalar) -> Option<Ordering> {
         let scalar_a = scalar_at(self, idx).ok()?;
+        if scalar_a.is_null() {
+            // In sorted order, nulls come after all the non-null values.
+            return Some(Greater);
+        }
         scalar_a.partial_cmp(elem)
     }
 }
-- 
2.43.0


From 4e69b258eaa09dcbd87230a25dc11bd53038892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 23/57] fix: comparing strings with large offsets, FSST codes
 and extension arrays with constants

---
 encodings/fsst/src/compute.rs                 | 66 ++++++++++++++-----
 vortex-array/src/array/varbin/arrow.rs        | 53 +++++++++------
 .../src/array/varbin/compute/compare.rs       |  2 +-
 vortex-array/src/compute/compare.rs           | 13 +++-
 4 files changed, 98 insertions(+), 36 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index 78c29f0..6ccdee2 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -1,4 +1,4 @@
-use fsst::Symbol;
+use fsst::{Symbol, ESCAPE_CODE};
 use vortex::array::{varbin_scalar, ConstantArray};
 use vortex::compute::unary::{scalar_at_unchecked, ScalarAtFn};
 use vortex::compute::{
@@ -37,11 +37,9 @@ impl ArrayCompute for FSSTArray {
 impl MaybeCompareFn for FSSTArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
         match (ConstantArray::try_from(other), operator) {
-            (Ok(constant_array), Operator::Eq | Operator::NotEq) => Some(compare_fsst_constant(
-                self,
-                &constant_array,
-                operator == Operator::Eq,
-            )),
+            (Ok(constant_array), Operator::Eq | Operator::NotEq) => {
+                compare_fsst_constant(self, &constant_array, operator == Operator::Eq).transpose()
+            }
             _ => None,
         }
     }
@@ -49,11 +47,13 @@ impl MaybeCompareFn for FSSTArray {
 
 /// Specialized compare function implementation used when performing equals or not equals against
 /// a constant.
+///
+/// Returns `None` if the codes of the array cannot be compared with those of the constant.
 fn compare_fsst_constant(
     left: &FSSTArray,
     right: &ConstantArray,
     equal: bool,
-) -> VortexResult<Array> {
+) -> VortexResult<Option<Array>> {
     let symbols = left.symbols().into_primitive()?;
     let symbols_u64 = symbols.maybe_null_slice::<u64>();
 
@@ -66,13 +66,46 @@ fn compare_fsst_constant(
     }
     let compressor = compressor.build();
 
+    // Building a compressor reorders its symbols, so its codes are translated to the ones of the array.
+    // SAFETY: Symbol and u64 are same size
+    let compressor_symbols: Vec<u64> =
+        unsafe { std::mem::transmute(compressor.symbol_table().to_vec()) };
+    let Some(codes) = compressor_symbols
+        .iter()
+        .zip(compressor.symbol_lengths())
+        .map(|(symbol, len)| {
+            let mut codes = symbols_u64
+                .iter()
+                .zip(symbol_lens_u8.iter())
+                .enumerate()
+                .filter(|(_, (s, l))| symbol == *s && len == *l)
+                .map(|(code, _)| code as u8);
+            // There is no telling which of the codes of a repeated symbol the array makes use of.
+            codes.next().filter(|_| codes.next().is_none())
+        })
+        .collect::<Option<Vec<u8>>>()
+    else {
+        return Ok(None);
+    };
+
     // FSST compressors don't accept empty strings, and their code is empty
     let compress = |value: &[u8]| {
         if value.is_empty() {
-            Buffer::from(Vec::<u8>::new())
-        } else {
-            Buffer::from(compressor.compress(value))
+            return Buffer::from(Vec::<u8>::new());
         }
+
+        let mut compressed = compressor.compress(value);
+        let mut idx = 0;
+        while idx < compressed.len() {
+            if compressed[idx] == ESCAPE_CODE {
+                // The escape is followed by a literal byte
+                idx += 2;
+            } else {
+                compressed[idx] = codes[compressed[idx] as usize];
+                idx += 1;
+            }
+        }
+        Buffer::from(compressed)
     };
 
     let encoded_scalar = match left.dtype() {
@@ -91,11 +124,13 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(ConstantArray::new(
-                Scalar::null(DType::Bool(Nullability::Nullable)),
-                right.len(),
-            )
-            .into_array())
+            Ok(Some(
+                ConstantArray::new(
+                    Scalar::null(DType::Bool(Nullability::Nullable)),
+                    right.len(),
+                )
+                .into_array(),
+            ))
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
@@ -105,6 +140,7 @@ fn compare_fsst_constant(
                 rhs,
                 if equal { Operator::Eq } else { Operator::NotEq },
             )
+            .map(Some)
         }
     }
 }
diff --git a/vortex-array/src/array/varbin/arrow.rs b/vortex-array/src/array/varbin/arrow.rs
index 5f3e8b3..d0d8ced 100644
--- a/vortex-array/src/array/varbin/arrow.rs
+++ b/vortex-array/src/array/varbin/arrow.rs
@@ -1,6 +1,10 @@
 use std::sync::Arc;
 
-use arrow_array::{ArrayRef, BinaryArray, Datum, LargeBinaryArray, LargeStringArray, StringArray};
+use arrow_array::{
+    ArrayRef, BinaryArray, Datum, GenericBinaryArray, GenericStringArray, LargeBinaryArray,
+    LargeStringArray, OffsetSizeTrait, StringArray,
+};
+use arrow_schema::DataType;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
@@ -85,23 +89,34 @@ pub(crate) fn varbin_to_arrow(varbin_array: &VarBinArray) -> VortexResult<ArrayR
 }
 
 /// Create a [`Datum`] from a Utf8 or Binary scalar.
-pub(crate) fn varbin_datum(scalar: Scalar) -> VortexResult<Arc<dyn Datum>> {
-    match scalar.dtype() {
-        DType::Utf8(_) => Ok(Arc::new(
-            scalar
-                .value()
-                .as_buffer_string()?
-                .map(StringArray::new_scalar)
-                .unwrap_or_else(|| arrow_array::Scalar::new(StringArray::new_null(1))),
-        )),
-        DType::Binary(_) => Ok(Arc::new(
-            scalar
-                .value()
-                .as_buffer()?
-                .map(BinaryArray::new_scalar)
-                .unwrap_or_else(|| arrow_array::Scalar::new(BinaryArray::new_null(1))),
-        )),
+/// The scalar as an arrow scalar of the given binary or string type
+pub(crate) fn varbin_datum(scalar: Scalar, data_type: &DataType) -> VortexResult<Arc<dyn Datum>> {
+    let datum: Arc<dyn Datum> = match data_type {
+        DataType::Utf8 => Arc::new(string_scalar::<i32>(&scalar)?),
+        DataType::LargeUtf8 => Arc::new(string_scalar::<i64>(&scalar)?),
+        DataType::Binary => Arc::new(binary_scalar::<i32>(&scalar)?),
+        DataType::LargeBinary => Arc::new(binary_scalar::<i64>(&scalar)?),
+        other => vortex_bail!("Expected Utf8 or Binary type, found {other}"),
+    };
+    Ok(datum)
+}
 
-        other => vortex_bail!("Expected Utf8 or Binary scalar, found {other}"),
-    }
+fn string_scalar<O: OffsetSizeTrait>(
+    scalar: &Scalar,
+) -> VortexResult<arrow_array::Scalar<GenericStringArray<O>>> {
+    Ok(scalar
+        .value()
+        .as_buffer_string()?
+        .map(GenericStringArray::<O>::new_scalar)
+        .unwrap_or_else(|| arrow_array::Scalar::new(GenericStringArray::<O>::new_null(1))))
+}
+
+fn binary_scalar<O: OffsetSizeTrait>(
+    scalar: &Scalar,
+) -> VortexResult<arrow_array::Scalar<GenericBinaryArray<O>>> {
+    Ok(scalar
+        .value()
+        .as_buffer()?
+        .map(GenericBinaryArray::<O>::new_scalar)
+        .unwrap_or_else(|| arrow_array::Scalar::new(GenericBinaryArray::<O>::new_null(1))))
 }
diff --git a/vortex-array/src/array/varbin/compute/compare.rs b/vortex-array/src/array/varbin/compute/compare.rs
index 5a4ad5a..6dbf52b 100644
--- a/vortex-array/src/array/varbin/compute/compare.rs
+++ b/vortex-array/src/array/varbin/compute/compare.rs
@@ -30,7 +30,7 @@ fn compare_constant(
 ) -> VortexResult<Array> {
     // Compare using the arrow kernels directly.
     let arrow_lhs = varbin_to_arrow(lhs)?;
-    let constant = varbin_datum(rhs.owned_scalar())?;
+    let constant = varbin_datum(rhs.owned_scalar(), arrow_lhs.data_type())?;
 
     match arrow_lhs.data_type() {
         DataType::Binary => {
diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index b559216..bc57eab 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -8,7 +8,7 @@ use vortex_scalar::Scalar;
 
 use crate::array::Constant;
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, ArrayDef, IntoCanonical};
+use crate::{Array, ArrayDType, ArrayDef, IntoArrayVariant, IntoCanonical};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd)]
 pub enum Operator {
@@ -107,6 +107,17 @@ pub fn compare(
         return selection;
     }
 
+    if right.is_encoding(Constant::ID) && matches!(right.dtype(), DType::Extension(..)) {
+        // The storage type of an extension constant is that of the array it is compared with
+        let storage = left.clone().into_extension()?;
+        if let Some(selection) = storage
+            .as_ref()
+            .with_dyn(|lhs| lhs.compare(right, operator))
+        {
+            return selection;
+        }
+    }
+
     // Fallback to arrow on canonical types
     let lhs = left.clone().into_canonical()?.into_arrow()?;
     let rhs = right.clone().into_canonical()?.into_arrow()?;
-- 
2.43.0


From 5daaccbe0d48ee1eb7c1278920d0fa13d18ac8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 24/57] fix: empty buffers read from a stream or file keep the
 alignment typed views require

---
 vortex-buffer/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 856ee2c..f84f49a 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -109,6 +109,8 @@ impl Buffer {
     pub fn into_arrow(self) -> ArrowBuffer {
         match self {
             Buffer::Arrow(a) => a,
+            // An empty Vec<u8> has a dangling pointer that is only aligned to one byte.
+            Buffer::Bytes(b) if b.is_empty() => ArrowMutableBuffer::new(0).into(),
             Buffer::Bytes(b) => ArrowBuffer::from_vec(Vec::<u8>::from(b)),
         }
     }
@@ -144,7 +146,13 @@ impl<T: ArrowNativeType> From<Vec<T>> for Buffer {
 
 impl From<bytes::Bytes> for Buffer {
     fn from(value: bytes::Bytes) -> Self {
-        Self::Bytes(value)
+        if value.is_empty() {
+            // Empty bytes may dangle, in which case they carry no alignment. Typed views over the
+            // buffer require an aligned pointer even if it is never dereferenced.
+            Self::Arrow(ArrowMutableBuffer::new(0).into())
+        } else {
+            Self::Bytes(value)
+        }
     }
 }
 
-- 
2.43.0


From 5daf8838c68d19809512ef4053d9fb460bc7067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 25/57] fix: serialize binary scalars as bytes so they are read
 back as binary, not as a list of integers

---
 vortex-scalar/src/serde/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..94d7992 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_ref()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
-- 
2.43.0


From b70b26cbd377a3ce736c10f22d586cba4c1f34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 26/57] fix: scalars read back from their serialized form have
 the physical type their dtype names

---
 vortex-array/src/array/sparse/mod.rs   |  2 ++
 vortex-scalar/src/lib.rs               |  1 +
 vortex-scalar/src/pvalue.rs            |  3 ++-
 vortex-scalar/src/serde/flatbuffers.rs |  2 +-
 vortex-scalar/src/serde/proto.rs       |  2 +-
 vortex-scalar/src/value.rs             | 35 +++++++++++++++++++++++++-
 6 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 4ef359b..4f60fd9 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -53,6 +53,8 @@ impl SparseArray {
         if !matches!(indices.dtype(), &DType::IDX) {
             vortex_bail!("Cannot use {} as indices", indices.dtype());
         }
+        // The fill value of an array that has been read back may have a narrower physical type.
+        let fill_value = Scalar::new(values.dtype().clone(), fill_value).into_value();
         if !fill_value.is_instance_of(values.dtype()) {
             vortex_bail!(
                 "fill value, {:?}, should be instance of values dtype, {}",
diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f535cc1..3f06784 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -42,6 +42,7 @@ pub struct Scalar {
 
 impl Scalar {
     pub fn new(dtype: DType, value: ScalarValue) -> Self {
+        let value = value.with_physical_type_of(&dtype);
         Self { dtype, value }
     }
 
diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..59bd71e 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -223,8 +223,9 @@ impl TryFrom<PValue> for f16 {
     type Error = VortexError;
 
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
-        // We serialize f16 as u16.
+        // We serialize f16 as u16, which may come back as u8 if its bits fit.
         match value {
+            PValue::U8(u) => Some(Self::from_bits(u.into())),
             PValue::U16(u) => Some(Self::from_bits(u)),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
diff --git a/vortex-scalar/src/serde/flatbuffers.rs b/vortex-scalar/src/serde/flatbuffers.rs
index 2fc80db..c81b216 100644
--- a/vortex-scalar/src/serde/flatbuffers.rs
+++ b/vortex-scalar/src/serde/flatbuffers.rs
@@ -17,7 +17,7 @@ impl TryFrom<fb::Scalar<'_>> for Scalar {
         let reader = flexbuffers::Reader::get_root(value.value().flex().bytes())?;
         let value = ScalarValue::deserialize(reader)?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
diff --git a/vortex-scalar/src/serde/proto.rs b/vortex-scalar/src/serde/proto.rs
index 8d9661f..cc26a69 100644
--- a/vortex-scalar/src/serde/proto.rs
+++ b/vortex-scalar/src/serde/proto.rs
@@ -106,7 +106,7 @@ impl TryFrom<&pb::Scalar> for Scalar {
                 .ok_or_else(|| vortex_err!(InvalidSerde: "Scalar missing value"))?,
         )?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index 89cbcfb..071e4dd 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -3,7 +3,7 @@ use std::sync::Arc;
 
 use half::f16;
 use vortex_buffer::{Buffer, BufferString};
-use vortex_dtype::DType;
+use vortex_dtype::{match_each_native_ptype, DType};
 use vortex_error::{vortex_err, VortexResult};
 
 use crate::pvalue::PValue;
@@ -94,6 +94,39 @@ impl ScalarValue {
         }
     }
 
+    /// Give primitive values the physical type named by the [`DType`].
+    ///
+    /// Serialized forms do not preserve the width of a primitive value, only the value itself.
+    pub(crate) fn with_physical_type_of(self, dtype: &DType) -> Self {
+        match (self, dtype) {
+            (Self::Primitive(pvalue), DType::Primitive(ptype, _))
+                if !pvalue.is_instance_of(ptype) =>
+            {
+                match_each_native_ptype!(*ptype, |$T| {
+                    Self::Primitive(<$T>::try_from(pvalue).map_or(pvalue, PValue::from))
+                })
+            }
+            (Self::List(values), DType::List(element_dtype, _)) => Self::List(
+                values
+                    .iter()
+                    .map(|v| v.clone().with_physical_type_of(element_dtype))
+                    .collect(),
+            ),
+            (Self::List(values), DType::Struct(struct_dtype, _))
+                if values.len() == struct_dtype.dtypes().len() =>
+            {
+                Self::List(
+                    values
+                        .iter()
+                        .zip(struct_dtype.dtypes().iter())
+                        .map(|(v, dtype)| v.clone().with_physical_type_of(dtype))
+                        .collect(),
+                )
+            }
+            (value, _) => value,
+        }
+    }
+
     pub fn as_bool(&self) -> VortexResult<Option<bool>> {
         match self {
             Self::Null => Ok(None),
-- 
2.43.0


From be37f6cc4384e60e8b1cd159cfbb38c67a7dfa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 27/57] fix: read u8, u16 and extension scalars from protobuf

---
 vortex-scalar/src/serde/proto.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-scalar/src/serde/proto.rs b/vortex-scalar/src/serde/proto.rs
index cc26a69..b550496 100644
--- a/vortex-scalar/src/serde/proto.rs
+++ b/vortex-scalar/src/serde/proto.rs
@@ -132,8 +132,11 @@ fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexRes
 
                 Ok(ScalarValue::Primitive(PValue::F16(f16_value)))
             }
-            DType::Primitive(PType::U32, _) => Ok(ScalarValue::Primitive(PValue::U32(*v))),
-            _ => vortex_bail!("invalid dtype for f32 value {}", dtype),
+            // All of u8, u16 and u32 are encoded as uint32.
+            DType::Primitive(PType::U8 | PType::U16 | PType::U32, _) | DType::Extension(..) => {
+                Ok(ScalarValue::Primitive(PValue::U32(*v)))
+            }
+            _ => vortex_bail!("invalid dtype for u32 value {}", dtype),
         },
         Kind::Uint64Value(v) => Ok(ScalarValue::Primitive(PValue::U64(*v))),
         Kind::FloatValue(v) => Ok(ScalarValue::Primitive(PValue::F32(*v))),
-- 
2.43.0


From 858c55e42afc0c10eb7b20d984b7a6859269809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 28/57] fix: a message reader over an empty stream is finished
 instead of panicking on peek

---
 vortex-serde/src/message_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..5c77a0a 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -30,7 +30,9 @@ impl<R: VortexRead> MessageReader<R> {
             prev_message: BytesMut::new(),
             finished: false,
         };
-        reader.load_next_message().await?;
+        if !reader.load_next_message().await? {
+            reader.finished = true;
+        }
         Ok(reader)
     }
 
-- 
2.43.0


From d648b23ee851c12ec441cf37e50426a1512318a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 29/57] fix: taking rows from a stream rejects rows past its
 end and accepts any sorted encoding and width of indices

---
 vortex-array/src/stream/take_rows.rs | 46 +++++++++++++++++++---------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index 2562b53..d0f45c7 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -3,11 +3,11 @@ use std::task::{Context, Poll};
 
 use futures_util::{ready, Stream};
 use pin_project::pin_project;
-use vortex_dtype::match_each_integer_ptype;
-use vortex_error::{vortex_bail, VortexResult};
+use vortex_dtype::PType;
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::compute::unary::subtract_scalar;
+use crate::compute::unary::{subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
@@ -22,8 +22,15 @@ pub struct TakeRows<R: ArrayStream> {
 }
 
 impl<R: ArrayStream> TakeRows<R> {
-    pub fn try_new(reader: R, indices: Array) -> VortexResult<Self> {
+    pub fn try_new(reader: R, mut indices: Array) -> VortexResult<Self> {
         if !indices.is_empty() {
+            if !indices.dtype().is_int() {
+                vortex_bail!("Indices must be integers")
+            }
+
+            // Not every encoding can compute the statistics that are required below.
+            indices = indices.into_primitive()?.into_array();
+
             if !indices.statistics().compute_is_sorted().unwrap_or(false) {
                 vortex_bail!("Indices must be sorted to take from IPC stream")
             }
@@ -37,10 +44,6 @@ impl<R: ArrayStream> TakeRows<R> {
                 vortex_bail!("Indices must not contain nulls")
             }
 
-            if !indices.dtype().is_int() {
-                vortex_bail!("Indices must be integers")
-            }
-
             if indices.dtype().is_signed_int()
                 && indices
                     .statistics()
@@ -50,6 +53,9 @@ impl<R: ArrayStream> TakeRows<R> {
             {
                 vortex_bail!("Indices must be positive")
             }
+
+            // Row offsets into the stream may exceed the width of the indices.
+            indices = try_cast(&indices, PType::U64.into())?;
         }
 
         Ok(Self {
@@ -72,9 +78,10 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
 
         while let Some(batch) = ready!(this.reader.as_mut().poll_next(cx)?) {
             let curr_offset = *this.row_offset;
-            let left = search_sorted(this.indices, curr_offset, SearchSortedSide::Left)?.to_index();
+            let left =
+                search_sorted(&*this.indices, curr_offset, SearchSortedSide::Left)?.to_index();
             let right = search_sorted(
-                this.indices,
+                &*this.indices,
                 curr_offset + batch.len(),
                 SearchSortedSide::Left,
             )?
@@ -88,13 +95,24 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
 
             // TODO(ngates): this is probably too heavy to run on the event loop. We should spawn
             //  onto a worker pool.
-            let indices_for_batch = slice(this.indices, left, right)?.into_primitive()?;
-            let shifted_arr = match_each_integer_ptype!(indices_for_batch.ptype(), |$T| {
-                subtract_scalar(&indices_for_batch.into_array(), &Scalar::from(curr_offset as $T))?
-            });
+            let indices_for_batch = slice(&*this.indices, left, right)?;
+            let shifted_arr =
+                subtract_scalar(&indices_for_batch, &Scalar::from(curr_offset as u64))?;
             return Poll::Ready(take(&batch, &shifted_arr).map(Some).transpose());
         }
 
+        // Any rows left over are beyond the end of the stream.
+        let row_count = *this.row_offset;
+        let taken = search_sorted(&*this.indices, row_count, SearchSortedSide::Left)?.to_index();
+        if taken < this.indices.len() {
+            let empty = slice(&*this.indices, 0, 0)?;
+            *this.indices = empty;
+            return Poll::Ready(Some(Err(vortex_err!(
+                "Indices are out of bounds of a stream of {} rows",
+                row_count
+            ))));
+        }
+
         Poll::Ready(None)
     }
 }
-- 
2.43.0


From 58b880256cac9f620999c65ad37930fd4a902521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 30/57] fix: chunked reader takes empty and repeated sorted
 rows, and does not read past a chunk's last row

---
 vortex-serde/src/chunked_reader/take_rows.rs | 28 +++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index eafc887..0b5f985 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -20,14 +20,16 @@ use crate::stream_reader::StreamArrayReader;
 
 impl<R: VortexReadAt> ChunkedArrayReader<R> {
     pub async fn take_rows(&mut self, indices: &Array) -> VortexResult<Array> {
-        // Figure out if the row indices are sorted / unique. If not, we need to sort them.
-        if indices
-            .statistics()
-            .compute_is_strict_sorted()
-            .unwrap_or(false)
-        {
-            // With strict-sorted indices, we can take the rows directly.
-            return self.take_rows_strict_sorted(indices).await;
+        if indices.is_empty() {
+            return Ok(ChunkedArray::try_new(vec![], (*self.dtype).clone())?.into_array());
+        }
+
+        // Figure out if the row indices are sorted. If not, we need to sort them.
+        let indices = indices.clone().into_primitive()?;
+        let indices = &try_cast(indices.as_ref(), PType::U64.into())?;
+        if indices.statistics().compute_is_sorted().unwrap_or(false) {
+            // With sorted indices, we can take the rows directly.
+            return self.take_rows_sorted(indices).await;
         }
 
         //         // Figure out which chunks are relevant to the read operation using the row_offsets array.
@@ -40,15 +42,15 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
         //         //  of the result.
         //         // Read the relevant chunks.
         // Reshuffle the result as per the original sort order.
-        unimplemented!("Unsorted 'take' operation is not supported yet")
+        vortex_bail!("Unsorted 'take' operation is not supported yet")
     }
 
-    /// Take rows from a chunked array given strict sorted indices.
+    /// Take rows from a chunked array given sorted indices.
     ///
     /// The strategy for doing this depends on the quantity and distribution of the indices...
     ///
     /// For now, we will find the relevant chunks, coalesce them, and read.
-    async fn take_rows_strict_sorted(&mut self, indices: &Array) -> VortexResult<Array> {
+    async fn take_rows_sorted(&mut self, indices: &Array) -> VortexResult<Array> {
         // Figure out which chunks are relevant.
         let chunk_idxs = find_chunks(&self.row_offsets, indices)?;
         // Coalesce the chunks that we're going to read from.
@@ -128,7 +130,7 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
         let indices_start =
             search_sorted(indices, row_range.start, SearchSortedSide::Left)?.to_index();
         let indices_stop =
-            search_sorted(indices, row_range.end, SearchSortedSide::Right)?.to_index();
+            search_sorted(indices, row_range.end, SearchSortedSide::Left)?.to_index();
         let relative_indices = slice(indices, indices_start, indices_stop)?;
         let row_start_scalar = Scalar::from(row_range.start).cast(relative_indices.dtype())?;
         let relative_indices = subtract_scalar(&relative_indices, &row_start_scalar)?;
@@ -151,7 +153,7 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
 }
 
 /// Find the chunks that are relevant to the read operation.
-/// Both the row_offsets and indices arrays must be strict-sorted.
+/// Both the row_offsets and indices arrays must be sorted.
 fn find_chunks(row_offsets: &Array, indices: &Array) -> VortexResult<Vec<ChunkIndices>> {
     // TODO(ngates): lots of optimizations to be had here, potentially lots of push-down.
     //  For now, we just flatten everything into primitive arrays and iterate.
-- 
2.43.0


From adae657d1737d561e3bbb18898d27d62294aea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 31/57] fix: a scan evaluates the filter for the batch that
 follows one without matching rows

---
 vortex-serde/src/layouts/read/stream.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..bc0f7e2 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -140,20 +140,22 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                 StreamingState::Decoding(arr) => {
                     let mut batch = arr.clone();
 
+                    // Every batch has a mask of its own, including those that follow an empty one.
+                    let goto_state = if self.filter_reader.is_some() {
+                        StreamingState::FilterInit
+                    } else {
+                        StreamingState::Init
+                    };
+
                     if let Some(mask) = self.cached_mask.take() {
                         if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                            self.state = goto_state;
                             continue;
                         }
 
                         batch = filter(batch, mask)?;
                     }
 
-                    let goto_state = if self.filter_reader.is_some() {
-                        StreamingState::FilterInit
-                    } else {
-                        StreamingState::Init
-                    };
                     self.state = goto_state;
                     return Poll::Ready(Some(Ok(batch)));
                 }
-- 
2.43.0


From 498d6af4f28412d5cca0ecf419011b7bfbda3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 32/57] fix: scan filters that reference columns by index, or
 no columns at all, read the full schema

---
 vortex-serde/src/layouts/read/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..141e0be 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::VortexResult;
 use vortex_schema::projection::Projection;
 
@@ -81,7 +82,15 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
             .row_filter
             .as_ref()
             .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+            .map(|refs| {
+                // References by index are relative to the full schema, and an expression without
+                // references still needs to be evaluated for every row.
+                if refs.is_empty() || refs.iter().any(|f| matches!(f, Field::Index(_))) {
+                    Projection::All
+                } else {
+                    Projection::from(refs)
+                }
+            });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0


From 0979716cc553755964c04bf49abe32a7a4df5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 33/57] fix: projecting a serialized struct dtype by an unknown
 field index is an error, not a panic

---
 vortex-dtype/src/serde/flatbuffers/project.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vortex-dtype/src/serde/flatbuffers/project.rs b/vortex-dtype/src/serde/flatbuffers/project.rs
index d577271..86a4623 100644
--- a/vortex-dtype/src/serde/flatbuffers/project.rs
+++ b/vortex-dtype/src/serde/flatbuffers/project.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use vortex_error::{vortex_err, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::field::Field;
 use crate::{flatbuffers as fb, DType, StructDType};
@@ -19,7 +19,13 @@ pub fn resolve_field<'a, 'b: 'a>(fb: fb::Struct_<'b>, field: &'a Field) -> Vorte
                 .position(|name| name == n)
                 .ok_or_else(|| vortex_err!("Unknown field name {n}"))
         }
-        Field::Index(i) => Ok(*i),
+        Field::Index(i) => {
+            let nfields = fb.names().map_or(0, |names| names.len());
+            if *i >= nfields {
+                vortex_bail!("Field index {i} out of bounds for a struct of {nfields} fields")
+            }
+            Ok(*i)
+        }
     }
 }
 
-- 
2.43.0


From 176a5e358e6ef431cc6e11dcd61582f3b01f6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 34/57] fix: row filters do not take an unavailable true count
 for a mask without matches

---
 vortex-serde/src/layouts/read/filtering.rs | 3 ++-
 vortex-serde/src/layouts/read/stream.rs    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..e15871d 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,8 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            // The true count may be unavailable, not every encoding is able to compute it.
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bc0f7e2..f39a27b 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -148,7 +148,7 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                     };
 
                     if let Some(mask) = self.cached_mask.take() {
-                        if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+                        if mask.statistics().compute_true_count() == Some(0) {
                             self.state = goto_state;
                             continue;
                         }
-- 
2.43.0


From 0ca57420b3e8d9960ce918172081d1f6c5728c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:30 +0000
Subject: [PATCH 35/57] fix: pruning never skips a chunk for an expression it
 cannot translate

---
 vortex-serde/src/layouts/pruning.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/layouts/pruning.rs b/vortex-serde/src/layouts/pruning.rs
index ed5701d..34e467f 100644
--- a/vortex-serde/src/layouts/pruning.rs
+++ b/vortex-serde/src/layouts/pruning.rs
@@ -30,8 +30,8 @@ fn convert_to_pruning_expression(
     expr: &Arc<dyn VortexExpr>,
 ) -> (Arc<dyn VortexExpr>, HashMap<Field, Vec<Stat>>) {
     // Anything that can't be translated has to be represented as
-    // boolean true expression, i.e. the value might be in that chunk
-    let fallback = Arc::new(Literal::new(Scalar::bool(true, Nullability::NonNullable)));
+    // boolean false expression, i.e. the chunk can't be skipped, the value might be in it
+    let fallback = Arc::new(Literal::new(Scalar::bool(false, Nullability::NonNullable)));
     // TODO(robert): Add support for boolean column expressions,
     //  i.e. if column is of bool dtype it's valid to filter on it directly as a predicate
     if expr.as_any().downcast_ref::<Column>().is_some() {
-- 
2.43.0


From a199d1b801cc2e557e24991c10c2e4c4503bf17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 36/57] fix: pruning skips a chunk for a disjunction only if
 both sides rule it out

---
 vortex-serde/src/layouts/pruning.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/pruning.rs b/vortex-serde/src/layouts/pruning.rs
index 34e467f..23405d1 100644
--- a/vortex-serde/src/layouts/pruning.rs
+++ b/vortex-serde/src/layouts/pruning.rs
@@ -40,11 +40,18 @@ fn convert_to_pruning_expression(
 
     if let Some(bexp) = expr.as_any().downcast_ref::<BinaryExpr>() {
         if bexp.op() == Operator::Or || bexp.op() == Operator::And {
+            // A chunk can be skipped for a conjunction if either side rules it out, for a
+            // disjunction only if both sides do
+            let op = if bexp.op() == Operator::And {
+                Operator::Or
+            } else {
+                Operator::And
+            };
             let (rewritten_left, mut refs_lhs) = convert_to_pruning_expression(bexp.lhs());
             let (rewritten_right, refs_rhs) = convert_to_pruning_expression(bexp.rhs());
             refs_lhs.extend(refs_rhs);
             return (
-                Arc::new(BinaryExpr::new(rewritten_left, bexp.op(), rewritten_right)),
+                Arc::new(BinaryExpr::new(rewritten_left, op, rewritten_right)),
                 refs_lhs,
             );
         }
-- 
2.43.0


From d6ad10abadfd1392b6b7037212ecef494a71141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 37/57] fix: pruning fetches every statistic that both sides of
 an expression need

---
 vortex-serde/src/layouts/pruning.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/pruning.rs b/vortex-serde/src/layouts/pruning.rs
index 23405d1..2fda974 100644
--- a/vortex-serde/src/layouts/pruning.rs
+++ b/vortex-serde/src/layouts/pruning.rs
@@ -49,7 +49,14 @@ fn convert_to_pruning_expression(
             };
             let (rewritten_left, mut refs_lhs) = convert_to_pruning_expression(bexp.lhs());
             let (rewritten_right, refs_rhs) = convert_to_pruning_expression(bexp.rhs());
-            refs_lhs.extend(refs_rhs);
+            for (field, stats) in refs_rhs {
+                let refs = refs_lhs.entry(field).or_insert_with(Vec::new);
+                for stat in stats {
+                    if !refs.contains(&stat) {
+                        refs.push(stat);
+                    }
+                }
+            }
             return (
                 Arc::new(BinaryExpr::new(rewritten_left, op, rewritten_right)),
                 refs_lhs,
-- 
2.43.0


From 590a5db8c1074b09ef9da59def74e1a85cb2fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 38/57] fix: pruning keeps chunks whose bound equals the
 operand of >= or <=

---
 vortex-serde/src/layouts/pruning.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/vortex-serde/src/layouts/pruning.rs b/vortex-serde/src/layouts/pruning.rs
index 2fda974..3c74954 100644
--- a/vortex-serde/src/layouts/pruning.rs
+++ b/vortex-serde/src/layouts/pruning.rs
@@ -168,24 +168,26 @@ impl<'a> PruningPredicateRewriter<'a> {
                 )))
             }
             Operator::Gt | Operator::Gte => {
+                let op = if self.operator == Operator::Gt {
+                    Operator::Lte
+                } else {
+                    Operator::Lt
+                };
                 let max_col = Arc::new(Column::new(self.add_stat_reference(Stat::Max)));
                 let replaced_min = self.rewrite_other_exp(Stat::Min);
 
-                Some(Arc::new(BinaryExpr::new(
-                    max_col,
-                    Operator::Lte,
-                    replaced_min,
-                )))
+                Some(Arc::new(BinaryExpr::new(max_col, op, replaced_min)))
             }
             Operator::Lt | Operator::Lte => {
+                let op = if self.operator == Operator::Lt {
+                    Operator::Gte
+                } else {
+                    Operator::Gt
+                };
                 let min_col = Arc::new(Column::new(self.add_stat_reference(Stat::Min)));
                 let replaced_max = self.rewrite_other_exp(Stat::Max);
 
-                Some(Arc::new(BinaryExpr::new(
-                    min_col,
-                    Operator::Gte,
-                    replaced_max,
-                )))
+                Some(Arc::new(BinaryExpr::new(min_col, op, replaced_max)))
             }
             _ => None,
         };
-- 
2.43.0


From 049ba6e6f93d0e3d40b39d61437bcf2a7b663b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 39/57] fix: pruning does not compare a column's bounds with a
 nested expression

---
 vortex-serde/src/layouts/pruning.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/vortex-serde/src/layouts/pruning.rs b/vortex-serde/src/layouts/pruning.rs
index 3c74954..dee5148 100644
--- a/vortex-serde/src/layouts/pruning.rs
+++ b/vortex-serde/src/layouts/pruning.rs
@@ -98,6 +98,13 @@ impl<'a> PruningPredicateRewriter<'a> {
         operator: Operator,
         other_exp: &'a Arc<dyn VortexExpr>,
     ) -> Option<Self> {
+        // Statistics bound the values of columns and literals, not those of nested expressions
+        if other_exp.as_any().downcast_ref::<Column>().is_none()
+            && other_exp.as_any().downcast_ref::<Literal>().is_none()
+        {
+            return None;
+        }
+
         // TODO(robert): Simplify expression to guarantee that each column is not compared to itself
         //  For majority of cases self column references are likely not prunable
         if other_exp.references().contains(&column) {
@@ -211,19 +218,6 @@ fn replace_column_with_stat(
         return Some(Arc::new(Column::new(new_field)));
     }
 
-    if let Some(bexp) = expr.as_any().downcast_ref::<BinaryExpr>() {
-        let rewritten_lhs = replace_column_with_stat(bexp.lhs(), stat, stats_to_fetch);
-        let rewritten_rhs = replace_column_with_stat(bexp.rhs(), stat, stats_to_fetch);
-        if rewritten_lhs.is_none() && rewritten_rhs.is_none() {
-            return None;
-        }
-
-        let lhs = rewritten_lhs.unwrap_or_else(|| bexp.lhs().clone());
-        let rhs = rewritten_rhs.unwrap_or_else(|| bexp.rhs().clone());
-
-        return Some(Arc::new(BinaryExpr::new(lhs, bexp.op(), rhs)));
-    }
-
     None
 }
 
-- 
2.43.0


From c4c3b43735146679472aa06199360051053a9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 40/57] hook: cfg(vortex_verif) makes the pruning rewriter
 reachable

---
 vortex-serde/src/layouts/mod.rs     |  5 +++++
 vortex-serde/src/layouts/pruning.rs | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/vortex-serde/src/layouts/mod.rs b/vortex-serde/src/layouts/mod.rs
index d374ef8..52d765a 100644
--- a/vortex-serde/src/layouts/mod.rs
+++ b/vortex-serde/src/layouts/mod.rs
@@ -1,7 +1,12 @@
+#![allow(unexpected_cfgs)]
+
 mod read;
 mod write;
 
+#[cfg(not(vortex_verif))]
 mod pruning;
+#[cfg(vortex_verif)]
+pub mod pruning;
 #[cfg(test)]
 mod tests;
 
diff --git a/vortex-serde/src/layouts/pruning.rs b/vortex-serde/src/layouts/pruning.rs
index dee5148..776ac33 100644
--- a/vortex-serde/src/layouts/pruning.rs
+++ b/vortex-serde/src/layouts/pruning.rs
@@ -1,5 +1,6 @@
 // This code doesn't have usage outside of tests yet, remove once usage is added
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 
 use std::collections::hash_map::Entry;
 use std::sync::Arc;
@@ -26,6 +27,20 @@ impl PruningPredicate {
     }
 }
 
+/// Access for the verification harness, see MANIFEST.json of the harness.
+#[cfg(vortex_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn convert(expr: &Arc<dyn VortexExpr>) -> (Arc<dyn VortexExpr>, HashMap<Field, Vec<Stat>>) {
+        convert_to_pruning_expression(expr)
+    }
+
+    pub fn column_name(field: &Field, stat: Stat) -> Field {
+        stat_column_name(field, stat)
+    }
+}
+
 fn convert_to_pruning_expression(
     expr: &Arc<dyn VortexExpr>,
 ) -> (Arc<dyn VortexExpr>, HashMap<Field, Vec<Stat>>) {
-- 
2.43.0


From eba468d923210289e47a117d0b3baa25b2a7f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 41/57] fix: the field position one past the end of a struct
 type is an error, not a panic

---
 vortex-dtype/src/dtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-dtype/src/dtype.rs b/vortex-dtype/src/dtype.rs
index b2b16e6..8374d50 100644
--- a/vortex-dtype/src/dtype.rs
+++ b/vortex-dtype/src/dtype.rs
@@ -182,7 +182,7 @@ impl StructDType {
                 .ok_or_else(|| vortex_err!("Unknown field: {}", name))?,
             Field::Index(index) => *index,
         };
-        if index > self.names.len() {
+        if index >= self.names.len() {
             vortex_bail!("field index out of bounds: {}", index)
         }
         Ok(FieldInfo {
-- 
2.43.0


From 955238ab1a2130102bbf7b8b74af0ca1620d3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 42/57] fix: casting a null scalar to another nullable type
 gives null, not a panic

---
 vortex-scalar/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index 3f06784..e5f9d08 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -94,6 +94,10 @@ impl Scalar {
             });
         }
 
+        if self.is_null() {
+            return Ok(Self::null(dtype.clone()));
+        }
+
         match dtype {
             DType::Null => vortex_bail!("Can't cast non-null to null"),
             DType::Bool(_) => BoolScalar::try_from(self).and_then(|s| s.cast(dtype)),
-- 
2.43.0


From 7b606f625b68aa2bc3011865d92083213033a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 43/57] fix: equality of float scalars agrees with their order

---
 vortex-scalar/src/pvalue.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 59bd71e..e6923f9 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -8,7 +8,7 @@ use vortex_dtype::half::f16;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_err, VortexError};
 
-#[derive(Debug, Clone, Copy, PartialEq)]
+#[derive(Debug, Clone, Copy)]
 pub enum PValue {
     U8(u8),
     U16(u16),
@@ -23,6 +23,13 @@ pub enum PValue {
     F64(f64),
 }
 
+// Equality agrees with the total order below: NaN equals itself, negative zero differs from zero
+impl PartialEq for PValue {
+    fn eq(&self, other: &Self) -> bool {
+        self.partial_cmp(other) == Some(Ordering::Equal)
+    }
+}
+
 impl PartialOrd for PValue {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match (self, other) {
-- 
2.43.0


From 938f0e9382575a51ec5f1bcad2e235e46174637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 44/57] fix: constant arrays of the null type have a canonical
 form

---
 vortex-array/src/array/constant/canonical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index cc33f17..84ba3f0 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -7,7 +7,7 @@ use vortex_scalar::{BinaryScalar, BoolScalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, VarBinViewArray, VIEW_SIZE_BYTES};
+use crate::array::{BinaryView, BoolArray, NullArray, VarBinViewArray, VIEW_SIZE_BYTES};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -23,6 +23,10 @@ impl IntoCanonical for ConstantArray {
             },
         };
 
+        if matches!(self.dtype(), DType::Null) {
+            return Ok(Canonical::Null(NullArray::new(self.len())));
+        }
+
         if let Ok(b) = BoolScalar::try_from(scalar) {
             return Ok(Canonical::Bool(BoolArray::try_new(
                 if b.value().unwrap_or_default() {
-- 
2.43.0


From daadf58a2dbcf36b3cb5b4c9a301435d3f33e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 45/57] fix: casts ignore what is stored below nulls, and empty
 arrays have no nulls

---
 vortex-array/src/array/primitive/compute/cast.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/cast.rs b/vortex-array/src/array/primitive/compute/cast.rs
index 7db3ed3..cd28e3d 100644
--- a/vortex-array/src/array/primitive/compute/cast.rs
+++ b/vortex-array/src/array/primitive/compute/cast.rs
@@ -3,7 +3,7 @@ use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::unary::CastFn;
-use crate::validity::Validity;
+use crate::validity::{ArrayValidity, Validity};
 use crate::{Array, ArrayDType, IntoArray};
 
 impl CastFn for PrimitiveArray {
@@ -20,7 +20,7 @@ impl CastFn for PrimitiveArray {
             // from non-nullable to nullable
             self.validity().into_nullable()
         } else if new_nullability == Nullability::NonNullable
-            && self.validity().to_logical(self.len()).all_valid()
+            && (self.is_empty() || self.validity().to_logical(self.len()).all_valid())
         {
             // from nullable but all valid, to non-nullable
             Validity::NonNullable
@@ -50,11 +50,13 @@ fn cast<T: NativePType>(array: &PrimitiveArray) -> VortexResult<Vec<T>> {
         array
             .maybe_null_slice::<$E>()
             .iter()
+            .enumerate()
             // TODO(ngates): allow configurable checked/unchecked casting
-            .map(|&v| {
-                T::from(v).ok_or_else(|| {
-                    vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)
-                })
+            .map(|(i, &v)| match T::from(v) {
+                Some(t) => Ok(t),
+                // The value of a null may be anything
+                None if !array.is_valid(i) => Ok(T::default()),
+                None => Err(vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)),
             })
             .collect()
     })
-- 
2.43.0


From 8ac6c7129642ccb2a494e6e2639c37dd55fadbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 46/57] fix: projecting a struct array by a position it does
 not have is an error, not a panic

---
 vortex-array/src/array/struct_/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index cf31fbb..ee2c5a9 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -122,7 +122,11 @@ impl StructArray {
                 Field::Index(i) => *i,
             };
 
-            names.push(self.names()[idx].clone());
+            let name = self
+                .names()
+                .get(idx)
+                .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.dtypes().len()))?;
+            names.push(name.clone());
             children.push(
                 self.field(idx)
                     .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.dtypes().len()))?,
-- 
2.43.0


From 4a59738b21a1575b8d3368c82d81a702944dbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 47/57] fix: f16 scalars read back from lists of wider values

---
 vortex-scalar/src/pvalue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index e6923f9..c59aee6 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -230,10 +230,13 @@ impl TryFrom<PValue> for f16 {
     type Error = VortexError;
 
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
-        // We serialize f16 as u16, which may come back as u8 if its bits fit.
+        // We serialize f16 as u16, which may come back with another width: narrower if its bits
+        // fit, or that of the widest value of the list it is part of.
         match value {
             PValue::U8(u) => Some(Self::from_bits(u.into())),
             PValue::U16(u) => Some(Self::from_bits(u)),
+            PValue::U32(u) => u16::try_from(u).ok().map(Self::from_bits),
+            PValue::U64(u) => u16::try_from(u).ok().map(Self::from_bits),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
             PValue::F64(f) => <Self as NumCast>::from(f),
-- 
2.43.0


From 88dca70a2a8dfd597c86b5a2da81e4f41fc2f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 48/57] fix: an empty all-null primitive array reported
 statistics that spoiled the constancy of its chunked neighbours

---
 vortex-array/src/array/primitive/stats.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index d5eae99..e4860b1 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -20,6 +20,11 @@ impl<T: NativePType + Into<Scalar> + BitWidth> PStatsType for T {}
 
 impl ArrayStatisticsCompute for PrimitiveArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
+        // Nothing is known of no values, e.g. not that a neighbouring chunk differs from them.
+        if self.is_empty() {
+            return Ok(StatsSet::new());
+        }
+
         match_each_native_ptype!(self.ptype(), |$P| {
             match self.logical_validity() {
                 LogicalValidity::AllValid(_) => self.maybe_null_slice::<$P>().compute_statistics(stat),
-- 
2.43.0


From 5e95d15cd35feb7e567b2b415f3da12425f49b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 49/57] fix: compressing a sliced sparse array keeps its
 indices offset

---
 vortex-array/src/array/sparse/mod.rs                 | 2 +-
 vortex-sampling-compressor/src/compressors/sparse.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 4f60fd9..d45e0e0 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -43,7 +43,7 @@ impl SparseArray {
         Self::try_new_with_offset(indices, values, len, 0, fill_value)
     }
 
-    pub(crate) fn try_new_with_offset(
+    pub fn try_new_with_offset(
         indices: Array,
         values: Array,
         len: usize,
diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..3c0fc05 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -40,10 +40,12 @@ impl EncodingCompressor for SparseCompressor {
             like.as_ref().and_then(|l| l.child(0)),
         )?;
         Ok(CompressedArray::new(
-            SparseArray::try_new(
+            // the indices of a sliced array are still those of the array it was sliced from
+            SparseArray::try_new_with_offset(
                 indices.array,
                 values.array,
                 sparse_array.len(),
+                sparse_array.indices_offset(),
                 sparse_array.fill_value().clone(),
             )?
             .into_array(),
-- 
2.43.0


From ac2494db6136a9b33af5ebb9cffcef375c90b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 50/57] fix: and/or of two empty constant arrays no longer
 recurses forever

---
 vortex-array/src/array/constant/compute.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index d61bf83..558e1dd 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -153,8 +153,16 @@ fn constant_array_bool_impl(
     bool_op: impl Fn((bool, bool)) -> bool,
     fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
 ) -> VortexResult<Array> {
+    if other.is_empty() {
+        // There is no element to read on either side
+        let scalar = Scalar::null(constant_array.dtype().as_nullable());
+        return Ok(ConstantArray::new(scalar, 0).into_array());
+    }
+
     // If the right side is constant
-    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    if ConstantArray::try_from(other).is_ok()
+        || other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true)
+    {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
-- 
2.43.0


From a22a715b5853a645d55666727c08ca319ef9ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 51/57] fix: taking strictly sorted narrow indices from a
 chunked array with chunks they cannot address

---
 vortex-array/src/array/chunked/compute/take.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index f11f0d3..a527ac9 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -5,7 +5,7 @@ use vortex_scalar::Scalar;
 
 use crate::array::chunked::ChunkedArray;
 use crate::compute::unary::{scalar_at, subtract_scalar, try_cast};
-use crate::compute::{search_sorted, slice, take, SearchSortedSide, TakeFn};
+use crate::compute::{search_sorted_u64, slice, take, SearchSortedSide, TakeFn};
 use crate::stats::ArrayStatistics;
 use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 
@@ -79,7 +79,9 @@ fn take_strict_sorted(chunked: &ChunkedArray, indices: &Array) -> VortexResult<A
         // Find the end of this chunk, and locate that position in the indices array.
         let chunk_begin = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx)?)?;
         let chunk_end = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx + 1)?)?;
-        let chunk_end_pos = search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index();
+        // The indices might not have a dtype big enough to fit chunk_end.
+        let chunk_end_pos =
+            search_sorted_u64(indices, chunk_end as u64, SearchSortedSide::Left)?.to_index();
 
         // Now we can say the slice of indices belonging to this chunk is [pos, chunk_end_pos)
         let chunk_indices = slice(indices, pos, chunk_end_pos)?;
-- 
2.43.0


From 477c0da29b82e0cb377d662f8a8c7e4b88e33e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 52/57] fix: layout part ids no longer wrap around after 65536
 children

---
 vortex-serde/src/layouts/read/layouts/chunked.rs      | 3 ++-
 vortex-serde/src/layouts/read/layouts/column.rs       | 4 ++--
 vortex-serde/src/layouts/read/layouts/inline_dtype.rs | 2 +-
 vortex-serde/src/layouts/read/mod.rs                  | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/layouts/chunked.rs b/vortex-serde/src/layouts/read/layouts/chunked.rs
index 47ecc3e..50e478d 100644
--- a/vortex-serde/src/layouts/read/layouts/chunked.rs
+++ b/vortex-serde/src/layouts/read/layouts/chunked.rs
@@ -6,6 +6,7 @@ use vortex_flatbuffers::footer;
 
 use crate::layouts::read::buffered::BufferedReader;
 use crate::layouts::read::cache::RelativeLayoutCache;
+use crate::layouts::read::LayoutPartId;
 use crate::layouts::{
     LayoutDeserializer, LayoutId, LayoutReader, LayoutSpec, ReadResult, Scan, CHUNKED_LAYOUT_ID,
 };
@@ -102,7 +103,7 @@ impl LayoutReader for ChunkedLayout {
                         c._tab.loc(),
                         self.scan.clone(),
                         self.message_cache
-                            .relative(i as u16, self.message_cache.dtype().clone()),
+                            .relative(i as LayoutPartId, self.message_cache.dtype().clone()),
                     )
                 })
                 .collect::<VortexResult<VecDeque<_>>>()?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 2a0f39f..b102c3c 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -11,7 +11,7 @@ use vortex_schema::projection::Projection;
 use crate::layouts::read::batch::BatchReader;
 use crate::layouts::read::cache::{LazyDeserializedDType, RelativeLayoutCache};
 use crate::layouts::read::context::{LayoutDeserializer, LayoutId, LayoutSpec};
-use crate::layouts::read::{LayoutReader, ReadResult, Scan};
+use crate::layouts::read::{LayoutPartId, LayoutReader, ReadResult, Scan};
 use crate::layouts::COLUMN_LAYOUT_ID;
 
 #[derive(Debug)]
@@ -95,7 +95,7 @@ impl ColumnLayout {
             layout._tab.loc(),
             child_scan,
             self.message_cache.relative(
-                idx as u16,
+                idx as LayoutPartId,
                 Arc::new(LazyDeserializedDType::from_dtype(dtype)),
             ),
         )
diff --git a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
index ee969b6..1dafdc3 100644
--- a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
+++ b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
@@ -128,7 +128,7 @@ impl LayoutReader for InlineDTypeLayout {
                             layout._tab.loc(),
                             self.scan.clone(),
                             self.message_cache
-                                .relative(1u16, Arc::new(LazyDeserializedDType::from_dtype(d))),
+                                .relative(1, Arc::new(LazyDeserializedDType::from_dtype(d))),
                         )?,
                     );
                     self.read_next()
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index 9d93505..e715aaf 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -43,7 +43,7 @@ pub struct Scan {
 }
 
 /// Unique identifier for a message within a layout
-pub type LayoutPartId = u16;
+pub type LayoutPartId = u32;
 pub type MessageId = Vec<LayoutPartId>;
 pub type Message = (MessageId, ByteRange);
 
-- 
2.43.0


From b85eff18d274b56fc2f76a142fce5b7d252dad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 53/57] fix: floats compare the same way in every encoding

Plain arrays compared floats by IEEE rules and every encoding that falls back to
arrow compared them by total order, so whether -0.0 equals 0.0, or how NaN
compares, depended on how an array was encoded.
---
 vortex-array/src/compute/compare.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index bc57eab..e95e549 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -2,7 +2,7 @@ use core::fmt;
 use std::fmt::{Display, Formatter};
 
 use arrow_ord::cmp;
-use vortex_dtype::{DType, Nullability};
+use vortex_dtype::{DType, NativePType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
@@ -58,14 +58,15 @@ impl Operator {
         }
     }
 
-    pub fn to_fn<T: PartialEq + PartialOrd>(&self) -> fn(T, T) -> bool {
+    /// Floats compare by their total order, as scalars and the arrow kernels do.
+    pub fn to_fn<T: NativePType>(&self) -> fn(T, T) -> bool {
         match self {
-            Operator::Eq => |l, r| l == r,
-            Operator::NotEq => |l, r| l != r,
-            Operator::Gt => |l, r| l > r,
-            Operator::Gte => |l, r| l >= r,
-            Operator::Lt => |l, r| l < r,
-            Operator::Lte => |l, r| l <= r,
+            Operator::Eq => |l, r| l.is_eq(r),
+            Operator::NotEq => |l, r| !l.is_eq(r),
+            Operator::Gt => |l, r| l.compare(r).is_gt(),
+            Operator::Gte => |l, r| l.compare(r).is_ge(),
+            Operator::Lt => |l, r| l.compare(r).is_lt(),
+            Operator::Lte => |l, r| l.compare(r).is_le(),
         }
     }
 }
-- 
2.43.0


From dbad20d11b4fb863f1bc41b8bd46fabd7ce0019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:58 +0000
Subject: [PATCH 54/57] fix: searching for many values, one of them too large
 for the element type

search_sorted_u64 answers that such a value lies past the end; search_sorted_u64_many
failed on frame-of-reference, sparse and constant arrays.
---
 vortex-array/src/compute/search_sorted.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index 986f045..cd75c72 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -218,10 +218,17 @@ pub fn search_sorted_u64_many(
     targets: &[u64],
     sides: &[SearchSortedSide],
 ) -> VortexResult<Vec<SearchResult>> {
-    array.with_dyn(|a| {
-        if let Some(search_sorted) = a.search_sorted() {
-            search_sorted.search_sorted_u64_many(targets, sides)
-        } else {
+    // A target too large for the type of the array lies off its right end, which only the
+    // search for one value knows.
+    let fits = targets.iter().max().map_or(true, |max| {
+        Scalar::primitive(*max, array.dtype().nullability())
+            .cast(array.dtype())
+            .is_ok()
+    });
+
+    array.with_dyn(|a| match a.search_sorted() {
+        Some(search_sorted) if fits => search_sorted.search_sorted_u64_many(targets, sides),
+        _ => {
             // Call in loop and collect
             targets
                 .iter()
-- 
2.43.0


From ec79b0a57bdcdf25d30731c26a749aa6b7ebac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 55/57] fix: taking strings by repeated indices no longer
 overflows narrow offsets

The offsets of the result had the type of the offsets of the array. Indices
that repeat select more bytes than the array has, possibly more than that
type can count, and the take panicked. Such a result now has 64 bit offsets.
---
 vortex-array/src/array/varbin/compute/take.rs | 51 ++++++++++++++++---
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/array/varbin/compute/take.rs b/vortex-array/src/array/varbin/compute/take.rs
index 63e9a29..aa8a35e 100644
--- a/vortex-array/src/array/varbin/compute/take.rs
+++ b/vortex-array/src/array/varbin/compute/take.rs
@@ -1,9 +1,11 @@
 use arrow_buffer::NullBuffer;
+use num_traits::NumCast;
 use vortex_dtype::{match_each_integer_ptype, DType, NativePType};
 use vortex_error::{vortex_err, vortex_panic, VortexResult};
 
 use crate::array::varbin::builder::VarBinBuilder;
 use crate::array::varbin::VarBinArray;
+use crate::compute::unary::try_cast;
 use crate::compute::TakeFn;
 use crate::validity::Validity;
 use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
@@ -15,18 +17,53 @@ impl TakeFn for VarBinArray {
         let indices = indices.clone().into_primitive()?;
         match_each_integer_ptype!(offsets.ptype(), |$O| {
             match_each_integer_ptype!(indices.ptype(), |$I| {
-                Ok(take(
-                    self.dtype().clone(),
-                    offsets.maybe_null_slice::<$O>(),
-                    data.maybe_null_slice::<u8>(),
-                    indices.maybe_null_slice::<$I>(),
-                    self.validity(),
-                )?.into_array())
+                let indices = indices.maybe_null_slice::<$I>();
+                let taken_bytes = count_bytes(offsets.maybe_null_slice::<$O>(), indices)?;
+                if <$O as NumCast>::from(taken_bytes).is_some() {
+                    Ok(take(
+                        self.dtype().clone(),
+                        offsets.maybe_null_slice::<$O>(),
+                        data.maybe_null_slice::<u8>(),
+                        indices,
+                        self.validity(),
+                    )?.into_array())
+                } else {
+                    // Repeated indices select more bytes than our type of offsets can count.
+                    let offsets = try_cast(&offsets, u64::PTYPE.into())?.into_primitive()?;
+                    Ok(take(
+                        self.dtype().clone(),
+                        offsets.maybe_null_slice::<u64>(),
+                        data.maybe_null_slice::<u8>(),
+                        indices,
+                        self.validity(),
+                    )?.into_array())
+                }
             })
         })
     }
 }
 
+/// The number of bytes of the values at the given indices
+fn count_bytes<I: NativePType, O: NativePType>(
+    offsets: &[O],
+    indices: &[I],
+) -> VortexResult<usize> {
+    let mut count = 0;
+    for &idx in indices {
+        let idx = idx
+            .to_usize()
+            .ok_or_else(|| vortex_err!("Failed to convert index to usize: {}", idx))?;
+        let start = offsets[idx]
+            .to_usize()
+            .ok_or_else(|| vortex_err!("Failed to convert offset to usize: {}", offsets[idx]))?;
+        let stop = offsets[idx + 1].to_usize().ok_or_else(|| {
+            vortex_err!("Failed to convert offset to usize: {}", offsets[idx + 1])
+        })?;
+        count += stop - start;
+    }
+    Ok(count)
+}
+
 fn take<I: NativePType, O: NativePType>(
     dtype: DType,
     offsets: &[O],
-- 
2.43.0


From c2356a8991e625e206de1572accf77238aebaf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:54 +0000
Subject: [PATCH 56/57] fix: importing a non-nullable Arrow array that keeps a
 null buffer without nulls

Arrow arrays may carry a null buffer in which nothing is null; importing one as
non-nullable panicked.
---
 vortex-array/src/arrow/array.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 6ee439e..e0dbf38 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -196,7 +196,8 @@ fn nulls(nulls: Option<&NullBuffer>, nullable: bool) -> Validity {
             })
             .unwrap_or_else(|| Validity::AllValid)
     } else {
-        assert!(nulls.is_none());
+        // Arrow may keep a null buffer that has no nulls in it
+        assert_eq!(nulls.map_or(0, |nulls| nulls.null_count()), 0);
         Validity::NonNullable
     }
 }
-- 
2.43.0


From 36525660276469767c6cff3f7d536b428cda3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:55 +0000
Subject: [PATCH 57/57] fix: exporting a struct without fields to Arrow keeps
 its length

Arrow takes the length of a struct from its first column, so a struct without
fields came out empty, or failed when it had nulls or was itself a field.
---
 vortex-array/src/canonical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index d49377e..b3348c9 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -203,6 +203,14 @@ fn struct_to_arrow(struct_array: StructArray) -> VortexResult<ArrayRef> {
 
     let nulls = struct_array.logical_validity().to_null_buffer()?;
 
+    // Without fields there is nothing for Arrow to take the length from
+    if field_arrays.is_empty() {
+        return Ok(Arc::new(ArrowStructArray::new_empty_fields(
+            struct_array.len(),
+            nulls,
+        )));
+    }
+
     Ok(Arc::new(ArrowStructArray::try_new(
         arrow_fields,
         field_arrays,
-- 
2.43.0

