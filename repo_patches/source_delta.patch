From 85aa73f718c02a9407ea2c8cc8d23dff897b972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 01/88] fix: never build a typed slice from a dangling empty
 buffer (misaligned pointer, UB)

---
 encodings/fastlanes/src/bitpacking/mod.rs | 4 ++++
 vortex-array/src/array/primitive/mod.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/encodings/fastlanes/src/bitpacking/mod.rs b/encodings/fastlanes/src/bitpacking/mod.rs
index a16b234..9450b5c 100644
--- a/encodings/fastlanes/src/bitpacking/mod.rs
+++ b/encodings/fastlanes/src/bitpacking/mod.rs
@@ -143,6 +143,10 @@ impl BitPackedArray {
         let packed_ptr: *const T = packed_bytes.as_ptr().cast();
         // Return number of elements of type `T` packed in the buffer
         let packed_len = packed_bytes.len() / size_of::<T>();
+        if packed_len == 0 {
+            // An empty buffer may dangle at any address, in particular one not aligned for T.
+            return &[];
+        }
 
         // SAFETY: maybe_null_slice points to buffer memory that outlives the lifetime of `self`.
         //  Unfortunately Rust cannot understand this, so we reconstruct the slice from raw parts
diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index 298260a..75676bc 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -124,6 +124,10 @@ impl PrimitiveArray {
 
         let raw_slice = self.buffer().as_slice();
         let typed_len = raw_slice.len() / size_of::<T>();
+        if typed_len == 0 {
+            // An empty buffer may dangle at any address, in particular one not aligned for T.
+            return &[];
+        }
         // SAFETY: alignment of Buffer is checked on construction
         unsafe { std::slice::from_raw_parts(raw_slice.as_ptr().cast(), typed_len) }
     }
-- 
2.43.0


From 54ba9d496fa6f2be3929224297c5a7ac4243d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 02/88] fix: scalars keep their value's width through protobuf,
 flatbuffers and serde

---
 vortex-scalar/src/lib.rs               |  1 +
 vortex-scalar/src/pvalue.rs            |  3 +++
 vortex-scalar/src/serde/flatbuffers.rs |  2 +-
 vortex-scalar/src/serde/proto.rs       |  8 +++---
 vortex-scalar/src/serde/serde.rs       |  2 +-
 vortex-scalar/src/value.rs             | 36 +++++++++++++++++++++++++-
 6 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f535cc1..f80db1d 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -42,6 +42,7 @@ pub struct Scalar {
 
 impl Scalar {
     pub fn new(dtype: DType, value: ScalarValue) -> Self {
+        let value = value.normalize(&dtype);
         Self { dtype, value }
     }
 
diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..f7ca2b1 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -225,7 +225,10 @@ impl TryFrom<PValue> for f16 {
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
         // We serialize f16 as u16.
         match value {
+            PValue::U8(u) => Some(Self::from_bits(u as u16)),
             PValue::U16(u) => Some(Self::from_bits(u)),
+            PValue::U32(u) => u16::try_from(u).ok().map(Self::from_bits),
+            PValue::U64(u) => u16::try_from(u).ok().map(Self::from_bits),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
             PValue::F64(f) => <Self as NumCast>::from(f),
diff --git a/vortex-scalar/src/serde/flatbuffers.rs b/vortex-scalar/src/serde/flatbuffers.rs
index 2fc80db..c81b216 100644
--- a/vortex-scalar/src/serde/flatbuffers.rs
+++ b/vortex-scalar/src/serde/flatbuffers.rs
@@ -17,7 +17,7 @@ impl TryFrom<fb::Scalar<'_>> for Scalar {
         let reader = flexbuffers::Reader::get_root(value.value().flex().bytes())?;
         let value = ScalarValue::deserialize(reader)?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
diff --git a/vortex-scalar/src/serde/proto.rs b/vortex-scalar/src/serde/proto.rs
index 8d9661f..ea2f776 100644
--- a/vortex-scalar/src/serde/proto.rs
+++ b/vortex-scalar/src/serde/proto.rs
@@ -106,7 +106,7 @@ impl TryFrom<&pb::Scalar> for Scalar {
                 .ok_or_else(|| vortex_err!(InvalidSerde: "Scalar missing value"))?,
         )?;
 
-        Ok(Self { dtype, value })
+        Ok(Self::new(dtype, value))
     }
 }
 
@@ -132,8 +132,10 @@ fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexRes
 
                 Ok(ScalarValue::Primitive(PValue::F16(f16_value)))
             }
-            DType::Primitive(PType::U32, _) => Ok(ScalarValue::Primitive(PValue::U32(*v))),
-            _ => vortex_bail!("invalid dtype for f32 value {}", dtype),
+            DType::Primitive(PType::U8 | PType::U16 | PType::U32, _) | DType::Extension(..) => {
+                Ok(ScalarValue::Primitive(PValue::U32(*v)))
+            }
+            _ => vortex_bail!("invalid dtype for u32 value {}", dtype),
         },
         Kind::Uint64Value(v) => Ok(ScalarValue::Primitive(PValue::U64(*v))),
         Kind::FloatValue(v) => Ok(ScalarValue::Primitive(PValue::F32(*v))),
diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..cf94371 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_slice()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index 89cbcfb..de272c9 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -3,7 +3,7 @@ use std::sync::Arc;
 
 use half::f16;
 use vortex_buffer::{Buffer, BufferString};
-use vortex_dtype::DType;
+use vortex_dtype::{match_each_native_ptype, DType};
 use vortex_error::{vortex_err, VortexResult};
 
 use crate::pvalue::PValue;
@@ -74,6 +74,40 @@ impl ScalarValue {
         matches!(self, Self::Null)
     }
 
+    /// Give primitive values the width that the dtype asks for.
+    ///
+    /// A deserialized value may have come back as any wider type; values which the dtype
+    /// cannot represent are left alone.
+    pub(crate) fn normalize(self, dtype: &DType) -> Self {
+        match (self, dtype) {
+            (Self::Primitive(pvalue), DType::Primitive(ptype, _))
+                if !pvalue.is_instance_of(ptype) =>
+            {
+                match_each_native_ptype!(ptype, |$T| {
+                    Self::Primitive(<$T>::try_from(pvalue).map_or(pvalue, PValue::from))
+                })
+            }
+            (Self::List(values), DType::List(elem, _)) => Self::List(
+                values
+                    .iter()
+                    .map(|v| v.clone().normalize(elem))
+                    .collect(),
+            ),
+            (Self::List(values), DType::Struct(structdt, _))
+                if values.len() == structdt.dtypes().len() =>
+            {
+                Self::List(
+                    values
+                        .iter()
+                        .zip(structdt.dtypes().iter())
+                        .map(|(v, dt)| v.clone().normalize(dt))
+                        .collect(),
+                )
+            }
+            (value, _) => value,
+        }
+    }
+
     pub fn is_instance_of(&self, dtype: &DType) -> bool {
         match (self, dtype) {
             (ScalarValue::Bool(_), DType::Bool(_)) => true,
-- 
2.43.0


From 03ccd6b50bae45c92d34f3a29afa1d204000f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 03/88] fix: canonicalising a sparse array keeps the fill
 value's validity and the declared nullability

---
 vortex-array/src/array/sparse/compute/mod.rs  |  2 +-
 .../src/array/sparse/compute/slice.rs         |  2 +-
 vortex-array/src/array/sparse/compute/take.rs |  2 +-
 vortex-array/src/array/sparse/flatten.rs      | 60 ++++++++++---------
 vortex-array/src/array/sparse/mod.rs          |  2 +-
 5 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index c875c22..a62293e 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -104,7 +104,7 @@ impl FilterFn for SparseArray {
             PrimitiveArray::from(coordinate_indices).into_array(),
             take(self.values(), PrimitiveArray::from(value_indices))?,
             buffer.count_set_bits(),
-            self.fill_value().clone(),
+            self.fill_scalar().into_value(),
         )?
         .into_array())
     }
diff --git a/vortex-array/src/array/sparse/compute/slice.rs b/vortex-array/src/array/sparse/compute/slice.rs
index 97bb7f2..d17c672 100644
--- a/vortex-array/src/array/sparse/compute/slice.rs
+++ b/vortex-array/src/array/sparse/compute/slice.rs
@@ -15,7 +15,7 @@ impl SliceFn for SparseArray {
             slice(self.values(), index_start_index, index_end_index)?,
             stop - start,
             self.indices_offset() + start,
-            self.fill_value().clone(),
+            self.fill_scalar().into_value(),
         )?
         .into_array())
     }
diff --git a/vortex-array/src/array/sparse/compute/take.rs b/vortex-array/src/array/sparse/compute/take.rs
index d2f9759..fe363c7 100644
--- a/vortex-array/src/array/sparse/compute/take.rs
+++ b/vortex-array/src/array/sparse/compute/take.rs
@@ -26,7 +26,7 @@ impl TakeFn for SparseArray {
             positions.into_array(),
             taken_values,
             indices.len(),
-            self.fill_value().clone(),
+            self.fill_scalar().into_value(),
         )?
         .into_array())
     }
diff --git a/vortex-array/src/array/sparse/flatten.rs b/vortex-array/src/array/sparse/flatten.rs
index 17049c1..25debd6 100644
--- a/vortex-array/src/array/sparse/flatten.rs
+++ b/vortex-array/src/array/sparse/flatten.rs
@@ -1,4 +1,4 @@
-use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, MutableBuffer};
+use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder};
 use itertools::Itertools;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType};
 use vortex_error::{VortexError, VortexResult};
@@ -8,25 +8,17 @@ use crate::array::primitive::PrimitiveArray;
 use crate::array::sparse::SparseArray;
 use crate::array::BoolArray;
 use crate::validity::Validity;
-use crate::{ArrayDType, Canonical, IntoArrayVariant, IntoCanonical};
+use crate::{ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
 
 impl IntoCanonical for SparseArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         // Resolve our indices into a vector of usize applying the offset
         let indices = self.resolved_indices();
-
-        let validity_buffer =
-            BooleanBufferBuilder::new_from_buffer(MutableBuffer::new_null(self.len()), self.len());
+        let validity = self.canonical_validity(&indices)?;
 
         if matches!(self.dtype(), DType::Bool(_)) {
             let values = self.values().into_bool()?.boolean_buffer();
-            canonicalize_sparse_bools(
-                values,
-                &indices,
-                self.len(),
-                self.fill_value(),
-                validity_buffer,
-            )
+            canonicalize_sparse_bools(values, &indices, self.len(), self.fill_value(), validity)
         } else {
             let values = self.values().into_primitive()?;
             match_each_native_ptype!(values.ptype(), |$P| {
@@ -35,19 +27,40 @@ impl IntoCanonical for SparseArray {
                     &indices,
                     self.len(),
                     self.fill_value(),
-                    validity_buffer
+                    validity
                 )
             })
         }
     }
 }
 
+impl SparseArray {
+    /// A position is valid if the patch there is valid, or else if the fill value is.
+    fn canonical_validity(&self, indices: &[usize]) -> VortexResult<Validity> {
+        if !self.dtype().is_nullable() {
+            return Ok(Validity::NonNullable);
+        }
+        let patches = self
+            .values()
+            .with_dyn(|a| a.logical_validity())
+            .into_array()
+            .into_bool()?
+            .boolean_buffer();
+        let mut validity = BooleanBufferBuilder::new(self.len());
+        validity.append_n(self.len(), !self.fill_value().is_null());
+        for (i, idx) in indices.iter().enumerate() {
+            validity.set_bit(*idx, patches.value(i));
+        }
+        Ok(Validity::from(validity.finish()))
+    }
+}
+
 fn canonicalize_sparse_bools(
     values: BooleanBuffer,
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity_buffer: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let fill_bool: bool = if fill_value.is_null() {
         bool::default()
@@ -57,13 +70,9 @@ fn canonicalize_sparse_bools(
     let mut flat_bools = vec![fill_bool; len];
     for (i, idx) in indices.iter().enumerate() {
         flat_bools[*idx] = values.value(i);
-        validity_buffer.set_bit(*idx, true);
     }
 
-    let validity = Validity::from(validity_buffer.finish());
-    let bool_values = BoolArray::from_vec(flat_bools, validity);
-
-    Ok(Canonical::Bool(bool_values))
+    Ok(Canonical::Bool(BoolArray::from_vec(flat_bools, validity)))
 }
 
 fn canonicalize_sparse_primitives<
@@ -73,7 +82,7 @@ fn canonicalize_sparse_primitives<
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let primitive_fill = if fill_value.is_null() {
         T::default()
@@ -84,16 +93,11 @@ fn canonicalize_sparse_primitives<
 
     for (v, idx) in values.iter().zip_eq(indices) {
         result[*idx] = *v;
-        validity.set_bit(*idx, true);
     }
 
-    let validity = validity.finish();
-    let array = if fill_value.is_null() {
-        PrimitiveArray::from_vec(result, Validity::from(validity))
-    } else {
-        PrimitiveArray::from(result)
-    };
-    Ok(Canonical::Primitive(array))
+    Ok(Canonical::Primitive(PrimitiveArray::from_vec(
+        result, validity,
+    )))
 }
 
 #[cfg(test)]
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 33ca689..8080c29 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -210,7 +210,7 @@ impl ArrayValidity for SparseArray {
                     .with_dyn(|a| a.logical_validity().into_array()),
                 self.len(),
                 self.indices_offset(),
-                false.into(),
+                true.into(),
             )
         }
         .vortex_expect("Error determining logical validity for sparse array");
-- 
2.43.0


From 05780cc4005987ab71396ffd6ca8a9d0c861f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 04/88] fix: canonicalise a binary VarBinArray to a binary view

---
 vortex-array/src/array/varbin/flatten.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..15cb22f 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -11,7 +12,11 @@ impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
-- 
2.43.0


From c863dc7d0d44f4df907d2d547f1cc2d52cf693f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 05/88] fix: run-end encoding of floats compares bits, so -0.0
 and NaN payloads survive

---
 encodings/runend/src/compress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..0bd5f37 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -80,7 +80,7 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
-- 
2.43.0


From c169a7337c08ad1b5efda92e9bb55fcbd85be5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 06/88] fix: ALP patches values that do not round-trip bit for
 bit (-0.0)

---
 encodings/alp/src/alp/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..9cbc414 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -143,7 +143,7 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     fn encode_single(value: Self, exponents: Exponents) -> Result<Self::ALPInt, Self> {
         let encoded = unsafe { Self::encode_single_unchecked(value, exponents) };
         let decoded = Self::decode_single(encoded, exponents);
-        if decoded == value {
+        if same_float(decoded, value) {
             return Ok(encoded);
         }
         Err(value)
@@ -173,6 +173,12 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     }
 }
 
+/// Equality that tells the two zeros apart, since an integer cannot hold a negative zero.
+#[inline(always)]
+fn same_float<T: ALPFloat>(left: T, right: T) -> bool {
+    left == right && left.is_sign_negative() == right.is_sign_negative()
+}
+
 fn encode_chunk_unchecked<T: ALPFloat>(
     chunk: &[T],
     exp: Exponents,
@@ -191,7 +197,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !same_float(decoded, *v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +219,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !same_float(decoded, chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
-- 
2.43.0


From be5819445b7250391c1f091c7a75fceb43c5ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 07/88] fix: canonicalising ALP-RD keeps non-nullability

---
 encodings/alp/src/alp_rd/array.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..71728b6 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -5,7 +5,7 @@ use vortex::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use vortex::array::{PrimitiveArray, SparseArray};
 use vortex::encoding::ids;
 use vortex::stats::{ArrayStatisticsCompute, StatsSet};
-use vortex::validity::{ArrayValidity, LogicalValidity};
+use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::{impl_encoding, Array, ArrayDType, ArrayTrait, Canonical, IntoCanonical};
 use vortex_dtype::{DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexExpect, VortexResult};
@@ -204,6 +204,11 @@ impl IntoCanonical for ALPRDArray {
             exc_u16 = PrimitiveArray::from(Vec::<u16>::new());
         }
 
+        let validity = if self.dtype().is_nullable() {
+            self.logical_validity().into_validity()
+        } else {
+            Validity::NonNullable
+        };
         let decoded_array = if self.is_f32() {
             PrimitiveArray::from_vec(
                 alp_rd_decode::<f32>(
@@ -214,7 +219,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +231,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                validity,
             )
         };
 
-- 
2.43.0


From 32fdad78b4dd0ab918c0e793fb5f8da9eedae267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 08/88] fix: converting an empty buffer to Arrow yields an
 aligned buffer

---
 vortex-buffer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-buffer/src/lib.rs b/vortex-buffer/src/lib.rs
index 856ee2c..bcf8e98 100644
--- a/vortex-buffer/src/lib.rs
+++ b/vortex-buffer/src/lib.rs
@@ -109,6 +109,8 @@ impl Buffer {
     pub fn into_arrow(self) -> ArrowBuffer {
         match self {
             Buffer::Arrow(a) => a,
+            // The pointer of an empty Vec<u8> is not aligned for wider types
+            Buffer::Bytes(b) if b.is_empty() => ArrowBuffer::from(&[] as &[u8]),
             Buffer::Bytes(b) => ArrowBuffer::from_vec(Vec::<u8>::from(b)),
         }
     }
-- 
2.43.0


From e7bcd17a6f12af266feea0bbc220ff3d52622e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 09/88] fix: bool array index/slice iterators respect the first
 byte's bit offset

---
 vortex-array/src/array/bool/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/bool/mod.rs b/vortex-array/src/array/bool/mod.rs
index ea3c2c2..1965a43 100644
--- a/vortex-array/src/array/bool/mod.rs
+++ b/vortex-array/src/array/bool/mod.rs
@@ -97,11 +97,19 @@ impl ArrayVariants for BoolArray {
 
 impl BoolArrayTrait for BoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        Box::new(BitIndexIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitIndexIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        Box::new(BitSliceIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitSliceIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 }
 
-- 
2.43.0


From f4cb03ac952f5f9d3c937335478f962ed3e31b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 10/88] fix: filter canonicalises the predicate, so every
 boolean encoding is accepted

---
 vortex-array/src/compute/filter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/filter.rs b/vortex-array/src/compute/filter.rs
index a322fb1..f992e45 100644
--- a/vortex-array/src/compute/filter.rs
+++ b/vortex-array/src/compute/filter.rs
@@ -3,7 +3,7 @@ use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, IntoCanonical};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 
 pub trait FilterFn {
     /// Filter an array by the provided predicate.
@@ -38,9 +38,12 @@ pub fn filter(array: impl AsRef<Array>, predicate: impl AsRef<Array>) -> VortexR
         );
     }
 
+    // Not every encoding of a boolean can iterate its set positions, so canonicalize the predicate.
+    let predicate = predicate.clone().into_bool()?.into_array();
+
     array.with_dyn(|a| {
         if let Some(filter_fn) = a.filter() {
-            filter_fn.filter(predicate)
+            filter_fn.filter(&predicate)
         } else {
             // Fallback: implement using Arrow kernels.
             let array_ref = array.clone().into_canonical()?.into_arrow()?;
-- 
2.43.0


From 07c206bed017144a91f364927be7069ce809e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 11/88] fix: search_sorted_u64 casts its target, and run ends
 may be empty

---
 vortex-array/src/compute/search_sorted.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index e9082c9..8f799a6 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -78,7 +78,7 @@ impl SearchResult {
     pub fn to_ends_index(self, len: usize) -> usize {
         let idx = self.to_index();
         if idx == len {
-            idx - 1
+            idx.saturating_sub(1)
         } else {
             idx
         }
@@ -163,11 +163,15 @@ pub fn search_sorted_u64(
     target: u64,
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult> {
+    // A target that the array's type cannot represent is greater than every element
+    let Ok(scalar) = Scalar::from(target).cast(array.dtype()) else {
+        return Ok(SearchResult::NotFound(array.len()));
+    };
+
     array.with_dyn(|a| {
         if let Some(search_sorted) = a.search_sorted() {
             search_sorted.search_sorted_u64(target, side)
         } else if a.scalar_at().is_some() {
-            let scalar = Scalar::primitive(target, array.dtype().nullability());
             Ok(array.search_sorted(&scalar, side))
         } else {
             vortex_bail!(
-- 
2.43.0


From 36c4779f7596c738dd767fb83ba9005f29d8df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 12/88] fix: chunked take, filter and slice accept empty
 selections and any index encoding

---
 vortex-array/src/array/chunked/compute/filter.rs |  4 ++--
 vortex-array/src/array/chunked/compute/slice.rs  |  5 +++++
 vortex-array/src/array/chunked/compute/take.rs   | 15 +++++++++++----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/chunked/compute/filter.rs b/vortex-array/src/array/chunked/compute/filter.rs
index 55058ed..e129387 100644
--- a/vortex-array/src/array/chunked/compute/filter.rs
+++ b/vortex-array/src/array/chunked/compute/filter.rs
@@ -2,7 +2,7 @@ use arrow_buffer::BooleanBufferBuilder;
 use vortex_error::{VortexExpect, VortexResult};
 
 use crate::array::{BoolArray, ChunkedArray, PrimitiveArray};
-use crate::compute::{filter, take, FilterFn, SearchSorted, SearchSortedSide};
+use crate::compute::{filter, slice, take, FilterFn, SearchSorted, SearchSortedSide};
 use crate::{Array, ArrayDType, IntoArray, IntoCanonical};
 
 // This is modeled after the constant with the equivalent name in arrow-rs.
@@ -20,7 +20,7 @@ impl FilterFn for ChunkedArray {
                 Ok(self.clone().into_array())
             } else if selected == 0 {
                 // Fast path 2: empty array after filter.
-                Ok(ChunkedArray::try_new(vec![], self.dtype().clone())?.into_array())
+                slice(self, 0, 0)
             } else {
                 // General path: perform filtering.
                 //
diff --git a/vortex-array/src/array/chunked/compute/slice.rs b/vortex-array/src/array/chunked/compute/slice.rs
index 3faa414..aac369b 100644
--- a/vortex-array/src/array/chunked/compute/slice.rs
+++ b/vortex-array/src/array/chunked/compute/slice.rs
@@ -6,6 +6,11 @@ use crate::{Array, ArrayDType, IntoArray};
 
 impl SliceFn for ChunkedArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.nchunks() == 0 {
+            // Without chunks the only slice is the empty one
+            return Ok(self.clone().into_array());
+        }
+
         let (offset_chunk, offset_in_first_chunk) = self.find_chunk_idx(start);
         let (length_chunk, length_in_last_chunk) = self.find_chunk_idx(stop);
 
diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..3c949bc 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -5,12 +5,18 @@ use vortex_scalar::Scalar;
 
 use crate::array::chunked::ChunkedArray;
 use crate::compute::unary::{scalar_at, subtract_scalar, try_cast};
-use crate::compute::{search_sorted, slice, take, SearchSortedSide, TakeFn};
+use crate::compute::{search_sorted_u64, slice, take, SearchSortedSide, TakeFn};
 use crate::stats::ArrayStatistics;
 use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 
 impl TakeFn for ChunkedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
+        if indices.is_empty() {
+            return slice(self, 0, 0);
+        }
+
+        let indices = indices.clone().into_primitive()?;
+
         // Fast path for strict sorted indices.
         if indices
             .statistics()
@@ -21,10 +27,10 @@ impl TakeFn for ChunkedArray {
                 return Ok(self.to_array());
             }
 
-            return take_strict_sorted(self, indices);
+            return take_strict_sorted(self, indices.as_ref());
         }
 
-        let indices = try_cast(indices, PType::U64.into())?.into_primitive()?;
+        let indices = try_cast(&indices, PType::U64.into())?.into_primitive()?;
 
         // While the chunk idx remains the same, accumulate a list of chunk indices.
         let mut chunks = Vec::new();
@@ -69,7 +75,8 @@ fn take_strict_sorted(chunked: &ChunkedArray, indices: &Array) -> VortexResult<A
         // Find the end of this chunk, and locate that position in the indices array.
         let chunk_begin = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx)?)?;
         let chunk_end = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx + 1)?)?;
-        let chunk_end_pos = search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index();
+        let chunk_end_pos =
+            search_sorted_u64(indices, chunk_end as u64, SearchSortedSide::Left)?.to_index();
 
         // Now we can say the slice of indices belonging to this chunk is [pos, chunk_end_pos)
         let chunk_indices = slice(indices, pos, chunk_end_pos)?;
-- 
2.43.0


From 976b3efa63feb0a5599b2ffdd9c672ed2d25f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 13/88] fix: sparse search_sorted accounts for the fill value,
 logical validity includes it

---
 vortex-array/src/array/sparse/compute/mod.rs | 16 +++++++---
 vortex-array/src/array/sparse/mod.rs         | 32 ++++++--------------
 2 files changed, 21 insertions(+), 27 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index a62293e..8ee4c37 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -6,10 +6,10 @@ use crate::array::sparse::SparseArray;
 use crate::array::PrimitiveArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{
-    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn, SearchSortedSide,
-    SliceFn, TakeFn,
+    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
+    SearchSortedSide, SliceFn, TakeFn,
 };
-use crate::{Array, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 mod slice;
 mod take;
@@ -54,7 +54,15 @@ impl ScalarAtFn for SparseArray {
 
 impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
-        search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
+        let value = value.cast(self.dtype())?;
+        if !self.fill_value().is_null() {
+            // The fill value occupies positions of its own
+            return Ok(self.as_ref().search_sorted(&value, side));
+        }
+        if self.metadata().indices_len == 0 {
+            return Ok(SearchResult::NotFound(0));
+        }
+        search_sorted(&self.values(), value, side).and_then(|sr| {
             let sidx = sr.to_offsets_index(self.metadata().indices_len);
             let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
             Ok(match sr {
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 8080c29..cb7a136 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -5,7 +5,6 @@ use vortex_dtype::{match_each_integer_ptype, DType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 use vortex_scalar::{Scalar, ScalarValue};
 
-use crate::array::constant::ConstantArray;
 use crate::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use crate::compute::unary::scalar_at;
 use crate::compute::{search_sorted, SearchResult, SearchSortedSide};
@@ -191,28 +190,15 @@ impl ArrayValidity for SparseArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        let validity = if self.fill_value().is_null() {
-            // If we have a null fill value, then the result is a Sparse array with a fill_value
-            // of true, and patch values of false.
-            Self::try_new_with_offset(
-                self.indices(),
-                ConstantArray::new(true, self.indices().len()).into_array(),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        } else {
-            // If the fill_value is non-null, then the validity is based on the validity of the
-            // existing values.
-            Self::try_new_with_offset(
-                self.indices(),
-                self.values()
-                    .with_dyn(|a| a.logical_validity().into_array()),
-                self.len(),
-                self.indices_offset(),
-                true.into(),
-            )
-        }
+        // The validity is that of the existing values, surrounded by the validity of the fill value.
+        let validity = Self::try_new_with_offset(
+            self.indices(),
+            self.values()
+                .with_dyn(|a| a.logical_validity().into_array()),
+            self.len(),
+            self.indices_offset(),
+            (!self.fill_value().is_null()).into(),
+        )
         .vortex_expect("Error determining logical validity for sparse array");
         LogicalValidity::Array(validity.into_array())
     }
-- 
2.43.0


From da9750380a2cab0016777a5314d47d8749a1567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 14/88] fix: constant search_sorted casts its target and finds
 nothing when empty

---
 vortex-array/src/array/constant/compute.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..28cff99 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -88,9 +88,13 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.is_empty() {
+            return Ok(SearchResult::NotFound(0));
+        }
+
         match self
-            .scalar_value()
-            .partial_cmp(value.value())
+            .owned_scalar()
+            .partial_cmp(&value.cast(self.dtype())?)
             .unwrap_or(Ordering::Less)
         {
             Ordering::Greater => Ok(SearchResult::NotFound(0)),
-- 
2.43.0


From a1663d98e91402c38d18bd411fb17a8b466a2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 15/88] fix: bit-packed search_sorted honours patches for many
 values

---
 .../src/bitpacking/compute/search_sorted.rs   | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..69bf366 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -10,7 +10,7 @@ use vortex::compute::{
     search_sorted_u64, IndexOrd, Len, SearchResult, SearchSorted, SearchSortedFn, SearchSortedSide,
 };
 use vortex::validity::Validity;
-use vortex::ArrayDType;
+use vortex::{ArrayDType, IntoArrayVariant};
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType};
 use vortex_error::{VortexError, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -42,6 +42,14 @@ impl SearchSortedFn for BitPackedArray {
         values: &[Scalar],
         sides: &[SearchSortedSide],
     ) -> VortexResult<Vec<SearchResult>> {
+        if self.patches().is_some() {
+            return values
+                .iter()
+                .zip(sides.iter().copied())
+                .map(|(value, side)| self.search_sorted(value, side))
+                .try_collect();
+        }
+
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             let searcher = BitPackedSearch::<'_, $P>::new(self);
 
@@ -63,6 +71,14 @@ impl SearchSortedFn for BitPackedArray {
         values: &[u64],
         sides: &[SearchSortedSide],
     ) -> VortexResult<Vec<SearchResult>> {
+        if self.patches().is_some() {
+            return values
+                .iter()
+                .zip(sides.iter().copied())
+                .map(|(value, side)| self.search_sorted_u64(*value, side))
+                .try_collect();
+        }
+
         match_each_unsigned_integer_ptype!(self.ptype(), |$P| {
             let searcher = BitPackedSearch::<'_, $P>::new(self);
 
@@ -71,9 +87,10 @@ impl SearchSortedFn for BitPackedArray {
                 .copied()
                 .zip(sides.iter().copied())
                 .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
+                    // A value too large for the PType is off the right end of the array.
+                    Ok(num_traits::cast::<u64, $P>(value)
+                        .map(|value| searcher.search_sorted(&value, side))
+                        .unwrap_or_else(|| SearchResult::NotFound(self.len())))
                 })
                 .try_collect()
         })
@@ -146,7 +163,11 @@ impl<'a, T: BitPacking + NativePType> BitPackedSearch<'a, T> {
             Validity::AllInvalid => 0,
             Validity::Array(varray) => {
                 // In sorted order, nulls come after all the non-null values.
-                varray.with_dyn(|a| a.as_bool_array_unchecked().true_count())
+                varray
+                    .into_bool()
+                    .vortex_expect("Validity must be a bool array")
+                    .boolean_buffer()
+                    .count_set_bits()
             }
         };
 
-- 
2.43.0


From 846b09363f5cdd05cff590a256c53e124bb967c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 16/88] fix: frame-of-reference search_sorted beyond the
 largest representable value

---
 encodings/fastlanes/src/for/compute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encodings/fastlanes/src/for/compute.rs b/encodings/fastlanes/src/for/compute.rs
index 62411b8..2ddba98 100644
--- a/encodings/fastlanes/src/for/compute.rs
+++ b/encodings/fastlanes/src/for/compute.rs
@@ -141,6 +141,10 @@ where
     // However, to correctly handle repeated values in the array, we need to search left on the next *representable*
     // value (i.e., increment the translated value by 1).
     let representable = decoded_value == primitive_value;
+    if !representable && encoded_value.wrapping_add(&T::one()).is_zero() {
+        // There is no larger representable value
+        return Ok(SearchResult::NotFound(array.len()));
+    }
     let (side, target) = if representable {
         (side, encoded_value)
     } else {
-- 
2.43.0


From e552d8d825d033afd7b4c9b031f6a7ddc7d2092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 17/88] fix: delta decompression keeps validity across slicing

---
 encodings/fastlanes/src/delta/compress.rs | 12 +++++++++---
 encodings/fastlanes/src/delta/mod.rs      |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..0682524 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -103,13 +103,19 @@ pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
         PrimitiveArray::from_vec(
             decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
+            Validity::NonNullable
         )
     });
 
-    decoded
+    // The validity describes the logical array, that is the decoded values between offset and offset + len
+    let sliced = decoded
         .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+        .into_primitive()?;
+    Ok(PrimitiveArray::new(
+        sliced.buffer().clone(),
+        sliced.ptype(),
+        array.validity(),
+    ))
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..ffcc4ef 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -73,7 +73,7 @@ impl DeltaArray {
         Self::try_from_delta_compress_parts(
             bases.into_array(),
             deltas.into_array(),
-            Validity::NonNullable,
+            array.validity(),
         )
     }
 
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 8317d265db195fe79813d8e2ff5f9a1fb0f5f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 18/88] fix: bytebool take keeps the validity of what it takes

---
 encodings/bytebool/src/compute.rs | 53 ++++++++-----------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..da18253 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -2,7 +2,7 @@ use num_traits::AsPrimitive;
 use vortex::compute::unary::{FillForwardFn, ScalarAtFn};
 use vortex::compute::{ArrayCompute, SliceFn, TakeFn};
 use vortex::validity::{ArrayValidity, Validity};
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::{match_each_integer_ptype, Nullability};
 use vortex_error::{vortex_err, VortexResult};
 use vortex_scalar::Scalar;
@@ -49,46 +49,19 @@ impl SliceFn for ByteBoolArray {
 
 impl TakeFn for ByteBoolArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
-        let validity = self.validity();
-        let indices = indices.clone().as_primitive();
+        let primitive_indices = indices.clone().into_primitive()?;
         let bools = self.maybe_null_slice();
-
-        let arr = match validity {
-            Validity::AllValid | Validity::NonNullable => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx: usize = idx.as_();
-                        bools[idx]
-                    })
-                    .collect::<Vec<_>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-            Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
-
-            Validity::Array(_) => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx = idx.as_();
-                        if validity.is_valid(idx) {
-                            Some(bools[idx])
-                        } else {
-                            None
-                        }
-                    })
-                    .collect::<Vec<Option<_>>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-        };
-
-        Ok(arr)
+        let taken = match_each_integer_ptype!(primitive_indices.ptype(), |$I| {
+            primitive_indices.maybe_null_slice::<$I>()
+                .iter()
+                .map(|&idx| {
+                    let idx: usize = idx.as_();
+                    bools[idx]
+                })
+                .collect::<Vec<_>>()
+        });
+
+        Ok(Self::try_from_vec(taken, self.validity().take(indices)?)?.into_array())
     }
 }
 
-- 
2.43.0


From 0ac2da4d406add3616b483f41748af1000de0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 19/88] fix: runend-bool keeps nullability, validity and offset
 in scalar_at, take and slice

---
 encodings/runend-bool/src/compute.rs | 30 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..418b816 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,7 @@
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, ToArray};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +26,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
@@ -59,11 +62,12 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::from_vec(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
                 .collect::<Vec<_>>(),
+            self.validity().take(indices)?,
         )
         .to_array())
     }
@@ -77,9 +81,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
-- 
2.43.0


From 3099a642d4a5c116c3f1e18676bbe3356e76d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 20/88] fix: taking from a varbinview keeps its declared
 nullability

---
 vortex-array/src/array/varbinview/compute.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..2ab1190 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,8 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
-        Ok(Array::from_arrow(take_arrow, nullable))
+        Ok(Array::from_arrow(take_arrow, self.dtype().is_nullable()))
     }
 }
 
-- 
2.43.0


From 1a867ae0f683ddeeebc09de7a7381e02d7770ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 21/88] fix: empty slices of run-end arrays

---
 encodings/runend/src/compute.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/encodings/runend/src/compute.rs b/encodings/runend/src/compute.rs
index e4b8ccf..772f8c2 100644
--- a/encodings/runend/src/compute.rs
+++ b/encodings/runend/src/compute.rs
@@ -96,6 +96,17 @@ impl TakeFn for RunEndArray {
 
 impl SliceFn for RunEndArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Ok(Self::with_offset_and_length(
+                slice(self.ends(), 0, 0)?,
+                slice(self.values(), 0, 0)?,
+                self.validity().slice(start, stop)?,
+                0,
+                0,
+            )?
+            .into_array());
+        }
+
         let slice_begin = self.find_physical_index(start)?;
         let slice_end = self.find_physical_index(stop)?;
 
-- 
2.43.0


From 8776875471adb9211213b06edfa71ad190e2379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 22/88] fix: empty slices of roaring integer arrays

---
 encodings/roaring/src/integer/compute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encodings/roaring/src/integer/compute.rs b/encodings/roaring/src/integer/compute.rs
index 84df832..a0f595a 100644
--- a/encodings/roaring/src/integer/compute.rs
+++ b/encodings/roaring/src/integer/compute.rs
@@ -41,6 +41,10 @@ impl ScalarAtFn for RoaringIntArray {
 
 impl SliceFn for RoaringIntArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Self::try_new(Bitmap::new(), self.ptype()).map(IntoArray::into_array);
+        }
+
         let mut bitmap = self.owned_bitmap();
         let start = bitmap
             .select(start as u32)
-- 
2.43.0


From 6e454588f2cbba6ef391ca2a0f499cac712c0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 23/88] fix: timestamps keep their time zone to and from Arrow

---
 vortex-array/src/arrow/array.rs |  5 +++--
 vortex-array/src/canonical.rs   | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..e85054b 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -85,9 +85,10 @@ where
             return arr.into();
         }
 
-        match T::DATA_TYPE {
+        // NOTE: the array's own data type, unlike T::DATA_TYPE, carries the timezone of a timestamp.
+        match value.data_type().clone() {
             DataType::Timestamp(time_unit, tz) => {
-                let tz = tz.clone().map(|s| s.to_string());
+                let tz = tz.map(|s| s.to_string());
                 TemporalArray::new_timestamp(arr.into(), time_unit.into(), tz).into()
             }
             DataType::Time32(time_unit) => {
diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..ff3c3f6 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -270,13 +270,21 @@ fn temporal_to_arrow(temporal_array: TemporalArray) -> VortexResult<ArrayRef> {
                 temporal_array.ext_dtype().id()
             ),
         },
-        TemporalMetadata::Timestamp(time_unit, _) => {
+        TemporalMetadata::Timestamp(time_unit, tz) => {
             let (scalars, nulls) = extract_temporal_values!(&temporal_array.temporal_values(), i64);
             match time_unit {
-                TimeUnit::Ns => Arc::new(TimestampNanosecondArray::new(scalars, nulls)),
-                TimeUnit::Us => Arc::new(TimestampMicrosecondArray::new(scalars, nulls)),
-                TimeUnit::Ms => Arc::new(TimestampMillisecondArray::new(scalars, nulls)),
-                TimeUnit::S => Arc::new(TimestampSecondArray::new(scalars, nulls)),
+                TimeUnit::Ns => Arc::new(
+                    TimestampNanosecondArray::new(scalars, nulls).with_timezone_opt(tz.as_deref()),
+                ),
+                TimeUnit::Us => Arc::new(
+                    TimestampMicrosecondArray::new(scalars, nulls).with_timezone_opt(tz.as_deref()),
+                ),
+                TimeUnit::Ms => Arc::new(
+                    TimestampMillisecondArray::new(scalars, nulls).with_timezone_opt(tz.as_deref()),
+                ),
+                TimeUnit::S => Arc::new(
+                    TimestampSecondArray::new(scalars, nulls).with_timezone_opt(tz.as_deref()),
+                ),
                 _ => vortex_bail!(
                     "Invalid TimeUnit {time_unit} for {}",
                     temporal_array.ext_dtype().id()
-- 
2.43.0


From 4f38c99ba4c01d97ae192f04c559bd8da2bfb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 24/88] fix: empty primitive arrays accept a dangling buffer

---
 vortex-array/src/array/primitive/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index 75676bc..30f59bd 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -45,7 +45,8 @@ impl PrimitiveArray {
         let length = match_each_native_ptype!(ptype, |$P| {
             let (prefix, values, suffix) = unsafe { buffer.align_to::<$P>() };
             assert!(
-                prefix.is_empty() && suffix.is_empty() && (buffer.as_ptr() as usize) % std::mem::size_of::<$P>() == 0,
+                // The pointer of an empty buffer is never read through, and may be dangling
+                buffer.is_empty() || prefix.is_empty() && suffix.is_empty() && (buffer.as_ptr() as usize) % std::mem::size_of::<$P>() == 0,
                 "buffer is not aligned: {:?}",
                 buffer.as_ptr()
             );
-- 
2.43.0


From 5cbaf9662c7b473fc87ae62d65984d62c4612331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 25/88] fix: fsst does not compress empty strings through a
 dangling pointer

---
 encodings/fsst/src/compress.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/encodings/fsst/src/compress.rs b/encodings/fsst/src/compress.rs
index 4f19755..9833bd5 100644
--- a/encodings/fsst/src/compress.rs
+++ b/encodings/fsst/src/compress.rs
@@ -102,8 +102,13 @@ where
             Some(s) => {
                 uncompressed_lengths.push(s.len() as i32);
 
-                // SAFETY: buffer is large enough
-                unsafe { compressor.compress_into(s, &mut buffer) };
+                if s.is_empty() {
+                    // The compressor does pointer arithmetic which an empty slice may not allow
+                    buffer.clear();
+                } else {
+                    // SAFETY: buffer is large enough
+                    unsafe { compressor.compress_into(s, &mut buffer) };
+                }
 
                 builder.push_value(&buffer);
             }
-- 
2.43.0


From 0c92e6721d40a82f936e905a9630e28894b50d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 26/88] fix: compare constant scalars by value, ignoring their
 nullability

---
 vortex-array/src/compute/compare.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..17230fc 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -128,8 +128,9 @@ pub fn scalar_cmp(lhs: &Scalar, rhs: &Scalar, operator: Operator) -> Scalar {
         Scalar::null(DType::Bool(Nullability::Nullable))
     } else {
         let b = match operator {
-            Operator::Eq => lhs == rhs,
-            Operator::NotEq => lhs != rhs,
+            // Equality of scalars would also compare the nullability of their types
+            Operator::Eq => lhs.value() == rhs.value(),
+            Operator::NotEq => lhs.value() != rhs.value(),
             Operator::Gt => lhs > rhs,
             Operator::Gte => lhs >= rhs,
             Operator::Lt => lhs < rhs,
-- 
2.43.0


From bc8667926b4631d1c8ee7ac219f32306e4ae4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 27/88] fix: compare a primitive array with a null constant
 gives nulls

---
 vortex-array/src/array/primitive/compute/compare.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vortex-array/src/array/primitive/compute/compare.rs b/vortex-array/src/array/primitive/compute/compare.rs
index 694dbe3..fd6897d 100644
--- a/vortex-array/src/array/primitive/compute/compare.rs
+++ b/vortex-array/src/array/primitive/compute/compare.rs
@@ -7,6 +7,7 @@ use vortex_scalar::PrimitiveScalar;
 use crate::array::primitive::PrimitiveArray;
 use crate::array::{BoolArray, ConstantArray};
 use crate::compute::{MaybeCompareFn, Operator};
+use crate::validity::Validity;
 use crate::{Array, ArrayDType, IntoArray};
 
 impl MaybeCompareFn for PrimitiveArray {
@@ -44,6 +45,11 @@ fn primitive_const_compare(
     let primitive_scalar = PrimitiveScalar::try_new(other.dtype(), other.scalar_value())
         .vortex_expect("Expected a primitive scalar");
 
+    if other.scalar_value().is_null() {
+        let nulls = BooleanBuffer::new_unset(this.len());
+        return Ok(BoolArray::try_new(nulls, Validity::AllInvalid)?.into_array());
+    }
+
     let buffer = match_each_native_ptype!(this.ptype(), |$T| {
         let typed_value = primitive_scalar.typed_value::<$T>()
             .ok_or_else(|| vortex_err!("Type mismatch between array and constant"))?;
-- 
2.43.0


From 9556bde13e48a97d91303ec44d596d7f3e36979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 28/88] fix: combine validities of any boolean encoding

---
 vortex-array/src/validity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 5389a5d..03bfbde 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -198,8 +198,8 @@ impl Validity {
             | (Validity::AllValid, Validity::AllValid) => Validity::AllValid,
             // Here we actually have to do some work
             (Validity::Array(lhs), Validity::Array(rhs)) => {
-                let lhs = BoolArray::try_from(lhs)?;
-                let rhs = BoolArray::try_from(rhs)?;
+                let lhs = lhs.clone().into_bool()?;
+                let rhs = rhs.clone().into_bool()?;
 
                 let lhs = lhs.boolean_buffer();
                 let rhs = rhs.boolean_buffer();
-- 
2.43.0


From a5d17e6edf365655d472c17ee46567cb58762f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 29/88] fix: compare varbin arrays that have 64-bit offsets

---
 vortex-array/src/array/varbin/arrow.rs        | 22 +++++++++++++++++++
 .../src/array/varbin/compute/compare.rs       |  7 ++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/varbin/arrow.rs b/vortex-array/src/array/varbin/arrow.rs
index 5f3e8b3..87b1a27 100644
--- a/vortex-array/src/array/varbin/arrow.rs
+++ b/vortex-array/src/array/varbin/arrow.rs
@@ -105,3 +105,25 @@ pub(crate) fn varbin_datum(scalar: Scalar) -> VortexResult<Arc<dyn Datum>> {
         other => vortex_bail!("Expected Utf8 or Binary scalar, found {other}"),
     }
 }
+
+/// Create a [`Datum`] with 64-bit offsets from a Utf8 or Binary scalar.
+pub(crate) fn large_varbin_datum(scalar: Scalar) -> VortexResult<Arc<dyn Datum>> {
+    match scalar.dtype() {
+        DType::Utf8(_) => Ok(Arc::new(
+            scalar
+                .value()
+                .as_buffer_string()?
+                .map(LargeStringArray::new_scalar)
+                .unwrap_or_else(|| arrow_array::Scalar::new(LargeStringArray::new_null(1))),
+        )),
+        DType::Binary(_) => Ok(Arc::new(
+            scalar
+                .value()
+                .as_buffer()?
+                .map(LargeBinaryArray::new_scalar)
+                .unwrap_or_else(|| arrow_array::Scalar::new(LargeBinaryArray::new_null(1))),
+        )),
+
+        other => vortex_bail!("Expected Utf8 or Binary scalar, found {other}"),
+    }
+}
diff --git a/vortex-array/src/array/varbin/compute/compare.rs b/vortex-array/src/array/varbin/compute/compare.rs
index 5a4ad5a..57aa8f5 100644
--- a/vortex-array/src/array/varbin/compute/compare.rs
+++ b/vortex-array/src/array/varbin/compute/compare.rs
@@ -7,7 +7,7 @@ use arrow_ord::cmp;
 use arrow_schema::DataType;
 use vortex_error::{vortex_bail, VortexResult};
 
-use crate::array::varbin::arrow::{varbin_datum, varbin_to_arrow};
+use crate::array::varbin::arrow::{large_varbin_datum, varbin_datum, varbin_to_arrow};
 use crate::array::{ConstantArray, VarBinArray};
 use crate::arrow::FromArrowArray;
 use crate::compute::{MaybeCompareFn, Operator};
@@ -30,7 +30,10 @@ fn compare_constant(
 ) -> VortexResult<Array> {
     // Compare using the arrow kernels directly.
     let arrow_lhs = varbin_to_arrow(lhs)?;
-    let constant = varbin_datum(rhs.owned_scalar())?;
+    let constant = match arrow_lhs.data_type() {
+        DataType::LargeBinary | DataType::LargeUtf8 => large_varbin_datum(rhs.owned_scalar())?,
+        _ => varbin_datum(rhs.owned_scalar())?,
+    };
 
     match arrow_lhs.data_type() {
         DataType::Binary => {
-- 
2.43.0


From ae7e99a260b5dce469dd7e1570f0ae2acd32661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 30/88] fix: keep the nullability of an extension constant when
 comparing

---
 vortex-array/src/array/extension/compute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/extension/compute.rs b/vortex-array/src/array/extension/compute.rs
index 97c9710..1869791 100644
--- a/vortex-array/src/array/extension/compute.rs
+++ b/vortex-array/src/array/extension/compute.rs
@@ -41,7 +41,12 @@ impl MaybeCompareFn for ExtensionArray {
             let scalar_ext = ExtScalar::try_new(const_ext.dtype(), const_ext.scalar_value())
                 .vortex_expect("Expected ExtScalar");
             let const_storage = ConstantArray::new(
-                Scalar::new(self.storage().dtype().clone(), scalar_ext.value().clone()),
+                Scalar::new(
+                    self.storage()
+                        .dtype()
+                        .with_nullability(const_ext.dtype().nullability()),
+                    scalar_ext.value().clone(),
+                ),
                 const_ext.len(),
             );
 
-- 
2.43.0


From 583c15fc36686da112729200126e9cdf9f916b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 31/88] fix: ALP compare handles patches, nulls and values that
 do not encode exactly

---
 encodings/alp/src/alp/compute.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..6237cb7 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -94,11 +94,14 @@ impl FilterFn for ALPArray {
 
 impl MaybeCompareFn for ALPArray {
     fn maybe_compare(&self, array: &Array, operator: Operator) -> Option<VortexResult<Array>> {
-        if ConstantArray::try_from(array).is_ok()
-            || array
-                .statistics()
-                .get_as::<bool>(Stat::IsConstant)
-                .unwrap_or_default()
+        // Patched positions hold an arbitrary encoded value
+        if !self.is_empty()
+            && self.patches().is_none()
+            && (ConstantArray::try_from(array).is_ok()
+                || array
+                    .statistics()
+                    .get_as::<bool>(Stat::IsConstant)
+                    .unwrap_or_default())
         {
             let rhs = scalar_at(array, 0).vortex_expect("should be scalar");
             let pvalue = rhs
@@ -107,11 +110,17 @@ impl MaybeCompareFn for ALPArray {
                 .vortex_expect("Expected primitive value");
 
             match pvalue {
-                Some(PValue::F32(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(_) | None => Some(Ok(BoolArray::from_vec(
+                // A value without an exact encoding is left to the generic implementation
+                Some(PValue::F32(f)) => f32::encode_single(f, self.exponents())
+                    .is_ok()
+                    .then(|| alp_scalar_compare(self, f, operator)),
+                Some(PValue::F64(f)) => f64::encode_single(f, self.exponents())
+                    .is_ok()
+                    .then(|| alp_scalar_compare(self, f, operator)),
+                Some(_) => None,
+                None => Some(Ok(BoolArray::from_vec(
                     vec![false; self.len()],
-                    Validity::AllValid,
+                    Validity::AllInvalid,
                 )
                 .into_array())),
             }
-- 
2.43.0


From 60eec89f3f53db0c65e3954d9be4fb90e4c3a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 32/88] fix: FSST compare with null and empty constants

---
 encodings/fsst/src/compute.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index e2793bd..8afff2b 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -6,7 +6,7 @@ use vortex::compute::{
 };
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_buffer::Buffer;
-use vortex_dtype::DType;
+use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_err, VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -66,15 +66,21 @@ fn compare_fsst_constant(
     }
     let compressor = compressor.build();
 
+    // The compressor does pointer arithmetic which an empty slice may not allow
+    let compress = |bytes: &[u8]| match bytes {
+        [] => Buffer::from(Vec::<u8>::new()),
+        _ => Buffer::from(compressor.compress(bytes)),
+    };
+
     let encoded_scalar = match left.dtype() {
         DType::Utf8(_) => right
             .scalar_value()
             .as_buffer_string()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_bytes()))),
+            .map(|scalar| compress(scalar.as_bytes())),
         DType::Binary(_) => right
             .scalar_value()
             .as_buffer()?
-            .map(|scalar| Buffer::from(compressor.compress(scalar.as_slice()))),
+            .map(|scalar| compress(scalar.as_slice())),
 
         _ => unreachable!("FSSTArray can only have string or binary data type"),
     };
@@ -82,7 +88,10 @@ fn compare_fsst_constant(
     match encoded_scalar {
         None => {
             // Eq and NotEq on null values yield nulls, per the Arrow behavior.
-            Ok(right.clone().into_array())
+            Ok(
+                ConstantArray::new(Scalar::null(DType::Bool(Nullability::Nullable)), left.len())
+                    .into_array(),
+            )
         }
         Some(encoded_scalar) => {
             let rhs = ConstantArray::new(encoded_scalar, left.len());
-- 
2.43.0


From ea419e242ec9c8e0b3e11fe27a5e85f126ba9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 33/88] fix: canonicalise temporal constants and null
 utf8/binary constants

---
 vortex-array/src/array/constant/canonical.rs | 35 ++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index cc33f17..436c68d 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -1,13 +1,14 @@
 use arrow_array::builder::make_view;
 use arrow_buffer::{BooleanBuffer, BufferBuilder};
 use vortex_buffer::Buffer;
+use vortex_datetime_dtype::{TemporalMetadata, TimeUnit};
 use vortex_dtype::{match_each_native_ptype, DType, Nullability, PType};
 use vortex_error::{vortex_bail, VortexResult};
-use vortex_scalar::{BinaryScalar, BoolScalar, Utf8Scalar};
+use vortex_scalar::{BinaryScalar, BoolScalar, ExtScalar, Scalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, VarBinViewArray, VIEW_SIZE_BYTES};
+use crate::array::{BinaryView, BoolArray, ExtensionArray, VarBinViewArray};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -59,10 +60,34 @@ impl IntoCanonical for ConstantArray {
             });
         }
 
+        if let Ok(ext) = ExtScalar::try_from(scalar) {
+            if let DType::Extension(ext_dtype, nullability) = self.dtype() {
+                if let Ok(metadata) = TemporalMetadata::try_from(ext_dtype) {
+                    let storage = Scalar::new(
+                        DType::Primitive(temporal_storage_ptype(&metadata), *nullability),
+                        ext.value().clone(),
+                    );
+                    return Ok(Canonical::Extension(ExtensionArray::new(
+                        ext_dtype.clone(),
+                        Self::new(storage, self.len()).into_array(),
+                    )));
+                }
+            }
+        }
+
         vortex_bail!("Unsupported scalar type {}", self.dtype())
     }
 }
 
+/// The storage type that Arrow prescribes for a temporal type.
+fn temporal_storage_ptype(metadata: &TemporalMetadata) -> PType {
+    match metadata {
+        TemporalMetadata::Date(TimeUnit::D)
+        | TemporalMetadata::Time(TimeUnit::S | TimeUnit::Ms) => PType::I32,
+        _ => PType::I64,
+    }
+}
+
 fn canonical_byte_view(
     scalar_bytes: Option<&[u8]>,
     dtype: &DType,
@@ -70,7 +95,11 @@ fn canonical_byte_view(
 ) -> VortexResult<VarBinViewArray> {
     match scalar_bytes {
         None => {
-            let views = ConstantArray::new(0u8, len * VIEW_SIZE_BYTES);
+            // The buffer of views must be aligned
+            let mut views = BufferBuilder::<u128>::new(len);
+            views.append_n(len, 0);
+            let views =
+                PrimitiveArray::new(views.finish().into(), PType::U8, Validity::NonNullable);
 
             VarBinViewArray::try_new(
                 views.into_array(),
-- 
2.43.0


From 780300089cb7bc2703b3f9b8d6f275e2a8dde3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 34/88] fix: constant compare and boolean operators on empty
 and non-constant operands

---
 vortex-array/src/array/constant/compute.rs  | 23 ++++++++++++++-------
 vortex-array/src/array/constant/variants.rs |  6 +++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 28cff99..6c02b1f 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -11,7 +11,7 @@ use crate::compute::{
     SearchSortedFn, SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::stats::{ArrayStatistics, Stat};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoCanonical};
 
 impl ArrayCompute for ConstantArray {
     fn compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
@@ -109,11 +109,12 @@ impl SearchSortedFn for ConstantArray {
 
 impl MaybeCompareFn for ConstantArray {
     fn maybe_compare(&self, other: &Array, operator: Operator) -> Option<VortexResult<Array>> {
-        (ConstantArray::try_from(other).is_ok()
-            || other
-                .statistics()
-                .get_as::<bool>(Stat::IsConstant)
-                .unwrap_or_default())
+        (!self.is_empty()
+            && (ConstantArray::try_from(other).is_ok()
+                || other
+                    .statistics()
+                    .get_as::<bool>(Stat::IsConstant)
+                    .unwrap_or_default()))
         .then(|| {
             let lhs = self.owned_scalar();
             let rhs = scalar_at(other, 0).vortex_expect("Expected scalar");
@@ -152,7 +153,7 @@ fn constant_array_bool_impl(
     fallback_fn: impl Fn(&Array, &Array) -> Option<VortexResult<Array>>,
 ) -> VortexResult<Array> {
     // If the right side is constant
-    if other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
+    if !other.is_empty() && other.statistics().get_as::<bool>(Stat::IsConstant) == Some(true) {
         let lhs = constant_array.scalar_value().as_bool()?;
         let rhs = scalar_at(other, 0)?.value().as_bool()?;
 
@@ -164,7 +165,13 @@ fn constant_array_bool_impl(
         Ok(ConstantArray::new(scalar, constant_array.len()).into_array())
     } else {
         // try and use a the rhs specialized implementation if it exists
-        match fallback_fn(other, constant_array.as_ref()) {
+        if let Some(r) = fallback_fn(other, constant_array.as_ref()) {
+            return r;
+        }
+
+        // otherwise the canonical form of the constant is sure to have one
+        let canonical = constant_array.clone().into_canonical()?.into();
+        match fallback_fn(&canonical, other) {
             Some(r) => r,
             None => vortex_bail!("Operation is not supported"),
         }
diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 81e3a59..d16d354 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -57,7 +57,11 @@ impl BoolArrayTrait for ConstantArray {
         let value = self.scalar_value().as_bool()?;
         match value {
             None => Ok(self.clone().into_array()),
-            Some(b) => Ok(ConstantArray::new(!b, self.len()).into_array()),
+            Some(b) => Ok(ConstantArray::new(
+                Scalar::bool(!b, self.dtype().nullability()),
+                self.len(),
+            )
+            .into_array()),
         }
     }
 
-- 
2.43.0


From ee1680b358c102833998fecd026132f6e3464969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 35/88] fix: dictionary statistics are those of the encoded
 values

---
 encodings/dict/src/stats.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..482c99f 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,30 +1,33 @@
 use std::collections::HashMap;
 
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::{Array, IntoCanonical};
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
 use crate::DictArray;
 
 impl ArrayStatisticsCompute for DictArray {
-    fn compute_statistics(&self, _stat: Stat) -> VortexResult<StatsSet> {
+    fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
+        if matches!(stat, Stat::Min | Stat::Max | Stat::NullCount) {
+            // The dictionary may hold values that no code refers to (e.g. after slicing), and the
+            // nulls are values of the dictionary, so these need the decoded values.
+            let decoded: Array = self.clone().into_canonical()?.into();
+            return Ok([Stat::Min, Stat::Max, Stat::NullCount]
+                .into_iter()
+                .filter_map(|s| decoded.statistics().compute(s).map(|v| (s, v)))
+                .collect::<HashMap<_, _>>()
+                .into());
+        }
+
         let mut stats: HashMap<Stat, Scalar> = HashMap::new();
 
         if let Some(rc) = self.codes().statistics().compute(Stat::RunCount) {
             stats.insert(Stat::RunCount, rc);
         }
-        if let Some(min) = self.values().statistics().compute(Stat::Min) {
-            stats.insert(Stat::Min, min);
-        }
-        if let Some(max) = self.values().statistics().compute(Stat::Max) {
-            stats.insert(Stat::Max, max);
-        }
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
             stats.insert(Stat::IsConstant, is_constant);
         }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
-        }
 
         // if dictionary is sorted
         if self
@@ -36,7 +39,14 @@ impl ArrayStatisticsCompute for DictArray {
             if let Some(codes_are_sorted) = self.codes().statistics().compute(Stat::IsSorted) {
                 stats.insert(Stat::IsSorted, codes_are_sorted);
             }
+        }
 
+        if self
+            .values()
+            .statistics()
+            .compute_is_strict_sorted()
+            .unwrap_or(false)
+        {
             if let Some(codes_are_strict_sorted) =
                 self.codes().statistics().compute(Stat::IsStrictSorted)
             {
-- 
2.43.0


From 52169126374a50874b6ef3997d815210a55a614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 36/88] fix: roaring bool statistics of empty arrays and of
 trailing zeros

---
 encodings/roaring/src/boolean/mod.rs   | 31 +++++++++++++++-----------
 encodings/roaring/src/boolean/stats.rs | 10 +++++----
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/encodings/roaring/src/boolean/mod.rs b/encodings/roaring/src/boolean/mod.rs
index b2de436..5dc1a28 100644
--- a/encodings/roaring/src/boolean/mod.rs
+++ b/encodings/roaring/src/boolean/mod.rs
@@ -39,19 +39,24 @@ impl RoaringBoolArray {
             vortex_bail!("RoaringBoolArray length is less than bitmap cardinality")
         } else {
             let roaring_stats = bitmap.statistics();
-            let stats = StatsSet::from(HashMap::from([
-                (
-                    Stat::Min,
-                    (roaring_stats.cardinality == length as u64).into(),
-                ),
-                (Stat::Max, (roaring_stats.cardinality > 0).into()),
-                (
-                    Stat::IsConstant,
-                    (roaring_stats.cardinality == length as u64 || roaring_stats.cardinality == 0)
-                        .into(),
-                ),
-                (Stat::TrueCount, roaring_stats.cardinality.into()),
-            ]));
+            let stats = if length == 0 {
+                StatsSet::new()
+            } else {
+                StatsSet::from(HashMap::from([
+                    (
+                        Stat::Min,
+                        (roaring_stats.cardinality == length as u64).into(),
+                    ),
+                    (Stat::Max, (roaring_stats.cardinality > 0).into()),
+                    (
+                        Stat::IsConstant,
+                        (roaring_stats.cardinality == length as u64
+                            || roaring_stats.cardinality == 0)
+                            .into(),
+                    ),
+                    (Stat::TrueCount, roaring_stats.cardinality.into()),
+                ]))
+            };
 
             Ok(Self {
                 typed: TypedArray::try_from_parts(
diff --git a/encodings/roaring/src/boolean/stats.rs b/encodings/roaring/src/boolean/stats.rs
index 5f62f20..b78f395 100644
--- a/encodings/roaring/src/boolean/stats.rs
+++ b/encodings/roaring/src/boolean/stats.rs
@@ -33,12 +33,14 @@ impl ArrayStatisticsCompute for BitmapStats {
         let bitset_slice = self.0.as_slice();
         let whole_chunks = self.1 / 64;
         let last_chunk_len = self.1 % 64;
-        let fist_bool = bitset_slice[0] & 1 == 1;
+        // The bitset ends with the last set bit, all words after it are zeros
+        let word = |idx: usize| bitset_slice.get(idx).copied().unwrap_or_default();
+        let fist_bool = word(0) & 1 == 1;
         let mut stats = RoaringBoolStatsAccumulator::new(fist_bool);
-        for bits64 in bitset_slice[0..whole_chunks].iter() {
-            stats.next(*bits64);
+        for idx in 0..whole_chunks {
+            stats.next(word(idx));
         }
-        stats.next_up_to_length(bitset_slice[whole_chunks], last_chunk_len);
+        stats.next_up_to_length(word(whole_chunks), last_chunk_len);
         Ok(stats.finish(self.2))
     }
 }
-- 
2.43.0


From 613fc7742ce54eb63f00039a6f19c0a32bf7258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 37/88] fix: bool min and strict sortedness do not count nulls

---
 vortex-array/src/array/bool/stats.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..5ddbf0b 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -118,8 +118,9 @@ impl BoolStatsAccumulator {
     }
 
     pub fn finish(self) -> StatsSet {
+        let non_null = self.len - self.null_count;
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (Stat::Min, (self.true_count == non_null).into()),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
@@ -130,7 +131,7 @@ impl BoolStatsAccumulator {
             (Stat::IsSorted, self.is_sorted.into()),
             (
                 Stat::IsStrictSorted,
-                (self.is_sorted && (self.len < 2 || (self.len == 2 && self.true_count == 1)))
+                (self.is_sorted && (non_null < 2 || (non_null == 2 && self.true_count == 1)))
                     .into(),
             ),
             (Stat::RunCount, self.run_count.into()),
-- 
2.43.0


From 696ef074ebaab41faec6b18feb56ebfe48228f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 38/88] fix: an empty constant array has no minimum or maximum

---
 vortex-array/src/array/constant/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/vortex-array/src/array/constant/mod.rs b/vortex-array/src/array/constant/mod.rs
index 4adb816..9314769 100644
--- a/vortex-array/src/array/constant/mod.rs
+++ b/vortex-array/src/array/constant/mod.rs
@@ -41,13 +41,18 @@ impl ConstantArray {
         let scalar = scalar.into();
         // TODO(aduffy): add stats for bools, ideally there should be a
         //  StatsSet::constant(Scalar) constructor that does this for us, like StatsSet::nulls.
-        let stats = StatsSet::from(HashMap::from([
-            (Stat::Max, scalar.clone()),
-            (Stat::Min, scalar.clone()),
-            (Stat::IsConstant, true.into()),
-            (Stat::IsSorted, true.into()),
-            (Stat::RunCount, 1.into()),
-        ]));
+        let stats = if length == 0 {
+            // There is no value that could be the minimum or the maximum
+            StatsSet::new()
+        } else {
+            StatsSet::from(HashMap::from([
+                (Stat::Max, scalar.clone()),
+                (Stat::Min, scalar.clone()),
+                (Stat::IsConstant, true.into()),
+                (Stat::IsSorted, true.into()),
+                (Stat::RunCount, 1.into()),
+            ]))
+        };
 
         Self::try_from_parts(
             scalar.dtype().clone(),
-- 
2.43.0


From 46254088244c49ee139047c7a9b426b3c02e00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 39/88] fix: merging constancy and frequency statistics of
 nulls

---
 vortex-array/src/stats/statsset.rs | 41 ++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..1cbe03c 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -47,14 +47,13 @@ impl StatsSet {
             }
             DType::Primitive(ptype, _) => {
                 ptype.byte_width();
-                stats.insert(
-                    Stat::BitWidthFreq,
-                    vec![0_u64; ptype.byte_width() * 8 + 1].into(),
-                );
-                stats.insert(
-                    Stat::TrailingZeroFreq,
-                    vec![ptype.byte_width() * 8; ptype.byte_width() * 8 + 1].into(),
-                );
+                // Nulls count as zeros
+                let mut bit_widths = vec![0_u64; ptype.byte_width() * 8 + 1];
+                bit_widths[0] = len as u64;
+                stats.insert(Stat::BitWidthFreq, bit_widths.into());
+                let mut trailing_zeros = vec![0_u64; ptype.byte_width() * 8 + 1];
+                trailing_zeros[ptype.byte_width() * 8] = len as u64;
+                stats.insert(Stat::TrailingZeroFreq, trailing_zeros.into());
             }
             _ => {}
         }
@@ -131,13 +130,29 @@ impl StatsSet {
     }
 
     fn merge_is_constant(&mut self, other: &Self) {
-        if let Some(is_constant) = self.get_as(Stat::IsConstant) {
-            if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
-                    return;
+        if let Some(is_constant) = self.get_as::<bool>(Stat::IsConstant) {
+            match other.get_as::<bool>(Stat::IsConstant) {
+                Some(other_is_constant) if is_constant && other_is_constant => {
+                    // Both are constant: whether the whole is depends on the two values
+                    match (self.get(Stat::Min), other.get(Stat::Min)) {
+                        (Some(own), Some(other)) if own.value() == other.value() => {}
+                        (Some(_), Some(_)) => {
+                            self.values.insert(Stat::IsConstant, false.into());
+                        }
+                        _ => {
+                            self.values.remove(&Stat::IsConstant);
+                        }
+                    }
+                }
+                Some(_) => {
+                    self.values.insert(Stat::IsConstant, false.into());
+                }
+                // If we are not constant then neither is the whole
+                None if is_constant => {
+                    self.values.remove(&Stat::IsConstant);
                 }
+                None => {}
             }
-            self.values.insert(Stat::IsConstant, false.into());
         }
     }
 
-- 
2.43.0


From cc62b35d7f77bcdb302d3e5c36fb91ba0da41dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 40/88] fix: casting skips what is stored under nulls and
 accepts all-valid nullable arrays

---
 .../src/array/primitive/compute/cast.rs       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/cast.rs b/vortex-array/src/array/primitive/compute/cast.rs
index 7db3ed3..3e4a174 100644
--- a/vortex-array/src/array/primitive/compute/cast.rs
+++ b/vortex-array/src/array/primitive/compute/cast.rs
@@ -3,7 +3,7 @@ use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::array::primitive::PrimitiveArray;
 use crate::compute::unary::CastFn;
-use crate::validity::Validity;
+use crate::validity::{ArrayValidity, Validity};
 use crate::{Array, ArrayDType, IntoArray};
 
 impl CastFn for PrimitiveArray {
@@ -20,7 +20,10 @@ impl CastFn for PrimitiveArray {
             // from non-nullable to nullable
             self.validity().into_nullable()
         } else if new_nullability == Nullability::NonNullable
-            && self.validity().to_logical(self.len()).all_valid()
+            && self
+                .logical_validity()
+                .to_null_buffer()?
+                .map_or(true, |nulls| nulls.null_count() == 0)
         {
             // from nullable but all valid, to non-nullable
             Validity::NonNullable
@@ -46,15 +49,20 @@ impl CastFn for PrimitiveArray {
 }
 
 fn cast<T: NativePType>(array: &PrimitiveArray) -> VortexResult<Vec<T>> {
+    let nulls = array.logical_validity().to_null_buffer()?;
     match_each_native_ptype!(array.ptype(), |$E| {
         array
             .maybe_null_slice::<$E>()
             .iter()
+            .enumerate()
             // TODO(ngates): allow configurable checked/unchecked casting
-            .map(|&v| {
-                T::from(v).ok_or_else(|| {
-                    vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE)
-                })
+            .map(|(idx, &v)| match T::from(v) {
+                Some(t) => Ok(t),
+                // What is stored in place of a null does not have to be representable
+                None if nulls.as_ref().is_some_and(|n| n.is_null(idx)) => Ok(T::zero()),
+                None => Err(
+                    vortex_err!(ComputeError: "Failed to cast {} to {:?}", v, T::PTYPE),
+                ),
             })
             .collect()
     })
-- 
2.43.0


From 737e62b7b0b603156a951bee08511a6ab9408c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 41/88] fix: subtract_scalar keeps validity

---
 vortex-array/src/array/primitive/compute/subtract_scalar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/subtract_scalar.rs b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
index 2524089..c5027a5 100644
--- a/vortex-array/src/array/primitive/compute/subtract_scalar.rs
+++ b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
@@ -38,7 +38,7 @@ impl SubtractScalarFn for PrimitiveArray {
                 let sub_vec : Vec<$T> = self.maybe_null_slice::<$T>()
                 .iter()
                 .map(|&v| v - to_subtract).collect_vec();
-                PrimitiveArray::from(sub_vec)
+                PrimitiveArray::from_vec(sub_vec, self.validity())
             })
         };
         Ok(result.into_array())
@@ -63,12 +63,13 @@ fn subtract_scalar_integer<T: NativePType + WrappingSub>(
             .collect_vec();
         PrimitiveArray::from_vec(sub_vec, subtract_from.validity())
     } else {
-        PrimitiveArray::from(
+        PrimitiveArray::from_vec(
             subtract_from
                 .maybe_null_slice::<T>()
                 .iter()
                 .map(|&v| v - to_subtract)
                 .collect_vec(),
+            subtract_from.validity(),
         )
     };
     Ok(subtraction_result)
-- 
2.43.0


From a5f3d9ff1d9333ab6d62e56981d4294f730a51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 42/88] fix: canonicalise constants of the null type

---
 vortex-array/src/array/constant/canonical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index 436c68d..a312cc6 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -8,7 +8,7 @@ use vortex_scalar::{BinaryScalar, BoolScalar, ExtScalar, Scalar, Utf8Scalar};
 
 use crate::array::constant::ConstantArray;
 use crate::array::primitive::PrimitiveArray;
-use crate::array::{BinaryView, BoolArray, ExtensionArray, VarBinViewArray};
+use crate::array::{BinaryView, BoolArray, ExtensionArray, NullArray, VarBinViewArray};
 use crate::validity::Validity;
 use crate::{ArrayDType, Canonical, IntoArray, IntoCanonical};
 
@@ -24,6 +24,10 @@ impl IntoCanonical for ConstantArray {
             },
         };
 
+        if matches!(self.dtype(), DType::Null) {
+            return Ok(Canonical::Null(NullArray::new(self.len())));
+        }
+
         if let Ok(b) = BoolScalar::try_from(scalar) {
             return Ok(Canonical::Bool(BoolArray::try_new(
                 if b.value().unwrap_or_default() {
-- 
2.43.0


From 1729cdb6f453ec460c234c351dd78f34267dd6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 43/88] fix: recompressing a sparse array keeps its offset and
 the width of its fill value

---
 vortex-array/src/array/sparse/mod.rs                 | 4 +++-
 vortex-sampling-compressor/src/compressors/sparse.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index cb7a136..799d9bc 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -43,7 +43,7 @@ impl SparseArray {
         Self::try_new_with_offset(indices, values, len, 0, fill_value)
     }
 
-    pub(crate) fn try_new_with_offset(
+    pub fn try_new_with_offset(
         indices: Array,
         values: Array,
         len: usize,
@@ -53,6 +53,8 @@ impl SparseArray {
         if !matches!(indices.dtype(), &DType::IDX) {
             vortex_bail!("Cannot use {} as indices", indices.dtype());
         }
+        // A deserialized fill value may be narrower than its dtype
+        let fill_value = Scalar::new(values.dtype().clone(), fill_value).into_value();
         if !fill_value.is_instance_of(values.dtype()) {
             vortex_bail!(
                 "fill value, {:?}, should be instance of values dtype, {}",
diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..4ee7650 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -40,10 +40,11 @@ impl EncodingCompressor for SparseCompressor {
             like.as_ref().and_then(|l| l.child(0)),
         )?;
         Ok(CompressedArray::new(
-            SparseArray::try_new(
+            SparseArray::try_new_with_offset(
                 indices.array,
                 values.array,
                 sparse_array.len(),
+                sparse_array.indices_offset(),
                 sparse_array.fill_value().clone(),
             )?
             .into_array(),
-- 
2.43.0


From d172c3bdb77551ad1aa33572e777bdb2bf97f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 44/88] fix: structs visit their validity

---
 vortex-array/src/array/struct_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index cf31fbb..3613d27 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -185,7 +185,7 @@ impl AcceptArrayVisitor for StructArray {
                 .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.nfields()))?;
             visitor.visit_child(&format!("\"{}\"", name), &child)?;
         }
-        Ok(())
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 0834e2c9bf94ca975305db6ff771145b1a1ac29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 45/88] fix: comparing FSST with a constant uses the array's
 own codes

---
 encodings/fsst/src/compute.rs | 44 ++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/encodings/fsst/src/compute.rs b/encodings/fsst/src/compute.rs
index 8afff2b..247defc 100644
--- a/encodings/fsst/src/compute.rs
+++ b/encodings/fsst/src/compute.rs
@@ -66,10 +66,48 @@ fn compare_fsst_constant(
     }
     let compressor = compressor.build();
 
+    // Building a compressor may number the symbols differently than the array does, so find the
+    // array's code of each symbol. Training may put a symbol in the table more than once and then
+    // uses the code inserted last: the lowest for two byte symbols, as those with a longer or
+    // equal one are numbered downwards, and the highest for all others.
+    let decompressor = compressor.decompressor();
+    let array_codes = (0..compressor.symbol_table().len() as u8)
+        .map(|code| {
+            let mut symbol = decompressor.decompress(&[code]);
+            let len = symbol.len() as u8;
+            symbol.resize(8, 0);
+            let is_symbol = |i: &usize| {
+                symbol_lens_u8[*i] == len && symbols_u64[*i].to_le_bytes() == symbol[..]
+            };
+            let mut positions = (0..symbols_u64.len()).filter(is_symbol);
+            let position = if len == 2 {
+                positions.next()
+            } else {
+                positions.next_back()
+            };
+            position
+                .map(|position| position as u8)
+                .ok_or_else(|| vortex_err!("Symbol of code {} is not in the symbol table", code))
+        })
+        .collect::<VortexResult<Vec<_>>>()?;
+
     // The compressor does pointer arithmetic which an empty slice may not allow
-    let compress = |bytes: &[u8]| match bytes {
-        [] => Buffer::from(Vec::<u8>::new()),
-        _ => Buffer::from(compressor.compress(bytes)),
+    let compress = |bytes: &[u8]| {
+        if bytes.is_empty() {
+            return Buffer::from(Vec::<u8>::new());
+        }
+        let mut codes = compressor.compress(bytes);
+        let mut idx = 0;
+        while idx < codes.len() {
+            if codes[idx] == fsst::ESCAPE_CODE {
+                // An escape is followed by a literal byte
+                idx += 2;
+            } else {
+                codes[idx] = array_codes[codes[idx] as usize];
+                idx += 1;
+            }
+        }
+        Buffer::from(codes)
     };
 
     let encoded_scalar = match left.dtype() {
-- 
2.43.0


From 32b94c4a5177f04dd69c65cd2a6b66c37732126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 46/88] fix: roaring integers compute statistics of their own
 type

---
 encodings/roaring/src/integer/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encodings/roaring/src/integer/mod.rs b/encodings/roaring/src/integer/mod.rs
index f504c24..b4a0dae 100644
--- a/encodings/roaring/src/integer/mod.rs
+++ b/encodings/roaring/src/integer/mod.rs
@@ -11,8 +11,8 @@ use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
 use vortex::validity::{ArrayValidity, LogicalValidity, Validity};
 use vortex::variants::{ArrayVariants, PrimitiveArrayTrait};
 use vortex::{
-    impl_encoding, Array, ArrayDType as _, ArrayTrait, Canonical, IntoArray, IntoCanonical,
-    TypedArray,
+    impl_encoding, Array, ArrayDType as _, ArrayTrait, Canonical, IntoArray, IntoArrayVariant,
+    IntoCanonical, TypedArray,
 };
 use vortex_buffer::Buffer;
 use vortex_dtype::Nullability::NonNullable;
@@ -135,8 +135,8 @@ impl ArrayStatisticsCompute for RoaringIntArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         // possibly faster to write an accumulator over the iterator, though not necessarily
         if stat == Stat::TrailingZeroFreq || stat == Stat::BitWidthFreq || stat == Stat::RunCount {
-            let primitive =
-                PrimitiveArray::from_vec(self.owned_bitmap().to_vec(), Validity::NonNullable);
+            // The statistics are of values of our own type, not of the bitmap's u32
+            let primitive = self.clone().into_primitive()?;
             primitive.statistics().compute(stat);
             Ok(primitive.statistics().to_set())
         } else {
-- 
2.43.0


From eca5657c28ac9aa9793c073740c0aa1c78bec7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 47/88] fix: taking many elements of a bit-packed array patches
 the right ones

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 102 +++---------------
 1 file changed, 16 insertions(+), 86 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..6c32083 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -1,9 +1,7 @@
-use std::cmp::min;
-
 use fastlanes::BitPacking;
 use itertools::Itertools;
 use vortex::array::{PrimitiveArray, SparseArray};
-use vortex::compute::{slice, take, TakeFn};
+use vortex::compute::{take, TakeFn};
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 use vortex_dtype::{
     match_each_integer_ptype, match_each_unsigned_integer_ptype, NativePType, PType,
@@ -16,7 +14,6 @@ use crate::{unpack_single_primitive, BitPackedArray};
 // all 1024 elements takes ~8.8x as long as unpacking a single element on an M2 Macbook Air.
 // see https://github.com/spiraldb/vortex/pull/190#issue-2223752833
 const UNPACK_CHUNK_THRESHOLD: usize = 8;
-const BULK_PATCH_THRESHOLD: usize = 64;
 
 impl TakeFn for BitPackedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
@@ -71,9 +68,7 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     let mut output = Vec::with_capacity(indices.len());
     let mut unpacked = [T::zero(); 1024];
 
-    let mut batch_count = 0_usize;
     for (chunk, offsets) in chunked_indices {
-        batch_count += 1;
         let chunk_size = 128 * bit_width / size_of::<T>();
         let packed_chunk = &packed[chunk * chunk_size..][..chunk_size];
 
@@ -118,96 +113,31 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     }
 
     if let Some(ref patches) = patches {
-        patch_for_take_primitive::<T, I>(patches, indices, offset, batch_count, &mut output)?;
+        patch_for_take_primitive::<T>(patches, indices, &mut output)?;
     }
 
     Ok(output)
 }
 
-fn patch_for_take_primitive<T: NativePType, I: NativePType>(
+fn patch_for_take_primitive<T: NativePType>(
     patches: &SparseArray,
     indices: &PrimitiveArray,
-    offset: usize,
-    batch_count: usize,
     output: &mut [T],
 ) -> VortexResult<()> {
-    #[inline]
-    fn inner_patch<T: NativePType>(
-        patches: &SparseArray,
-        indices: &PrimitiveArray,
-        output: &mut [T],
-    ) -> VortexResult<()> {
-        let taken_patches = take(patches.as_ref(), indices.as_ref())?;
-        let taken_patches = SparseArray::try_from(taken_patches)?;
-
-        let base_index = output.len() - indices.len();
-        let output_patches = taken_patches
-            .values()
-            .into_primitive()?
-            .reinterpret_cast(T::PTYPE);
-        taken_patches
-            .resolved_indices()
-            .iter()
-            .map(|idx| base_index + *idx)
-            .zip_eq(output_patches.maybe_null_slice::<T>())
-            .for_each(|(idx, val)| {
-                output[idx] = *val;
-            });
-
-        Ok(())
-    }
-
-    // if we have a small number of relatively large batches, we gain by slicing and then patching inside the loop
-    // if we have a large number of relatively small batches, the overhead isn't worth it, and we're better off with a bulk patch
-    // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
-    let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
-    if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
-    }
-
-    let min_index = patches.min_index().unwrap_or_default();
-    let max_index = patches.max_index().unwrap_or_default();
-
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
-    let chunked_indices = &indices
-        .maybe_null_slice::<I>()
+    let taken_patches = take(patches.as_ref(), indices.as_ref())?;
+    let taken_patches = SparseArray::try_from(taken_patches)?;
+
+    let output_patches = taken_patches
+        .values()
+        .into_primitive()?
+        .reinterpret_cast(T::PTYPE);
+    taken_patches
+        .resolved_indices()
         .iter()
-        .map(|i| {
-            i.to_usize()
-                .vortex_expect("index must be expressible as usize")
-                + offset
-        })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
-
-    for (chunk, offsets) in chunked_indices {
-        // NOTE: we need to subtract the array offset before slicing into the patches.
-        // This is because BitPackedArray is rounded to block boundaries, but patches
-        // is sliced exactly.
-        let patches_start = if chunk == 0 {
-            0
-        } else {
-            (chunk * 1024) - offset
-        };
-        let patches_end = min((chunk + 1) * 1024 - offset, patches.len());
-        let patches_slice = slice(patches.as_ref(), patches_start, patches_end)?;
-        let patches_slice = SparseArray::try_from(patches_slice)?;
-        if patches_slice.is_empty() {
-            continue;
-        }
-
-        let min_index = patches_slice.min_index().unwrap_or_default();
-        let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
-        if offsets.is_empty() {
-            continue;
-        }
-
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
-    }
+        .zip_eq(output_patches.maybe_null_slice::<T>())
+        .for_each(|(idx, val)| {
+            output[*idx] = *val;
+        });
 
     Ok(())
 }
-- 
2.43.0


From 1fb380e2ad875810121547a01e521f2004231431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 48/88] fix: filter the batch that follows one with no matching
 rows

---
 vortex-serde/src/layouts/read/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..65a2f3f 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -142,7 +142,8 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
 
                     if let Some(mask) = self.cached_mask.take() {
                         if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                            // No row of this batch matches, the next one has to be filtered too
+                            self.state = StreamingState::FilterInit;
                             continue;
                         }
 
-- 
2.43.0


From 25ff7bf7b26d07e5862b6711c2362fcdd1d2ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 49/88] fix: file scans resolve the column indices of a row
 filter against the columns of the file

---
 vortex-serde/src/layouts/read/builder.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..d88da86 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::VortexResult;
 use vortex_schema::projection::Projection;
 
@@ -77,11 +78,16 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         ));
         let read_projection = self.projection.unwrap_or_default();
 
-        let filter_projection = self
-            .row_filter
-            .as_ref()
-            .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+        let filter_projection = self.row_filter.as_ref().map(|f| {
+            let references = f.references();
+            // Indices refer to the columns of the file, they would point at different columns
+            // once the columns are narrowed to the referenced ones
+            if references.is_empty() || references.iter().any(|r| matches!(r, Field::Index(_))) {
+                Projection::All
+            } else {
+                Projection::from(references.into_iter().cloned().collect::<Vec<_>>())
+            }
+        });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0


From eca8911b4f47c9ee14d1cc43ebf98044e9c39d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 50/88] fix: a filter mask whose true count is unknown may have
 matching rows

---
 vortex-serde/src/layouts/read/filtering.rs | 2 +-
 vortex-serde/src/layouts/read/stream.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..796c7e7 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,7 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index 65a2f3f..7d3f508 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -141,7 +141,7 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                     let mut batch = arr.clone();
 
                     if let Some(mask) = self.cached_mask.take() {
-                        if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+                        if mask.statistics().compute_true_count() == Some(0) {
                             // No row of this batch matches, the next one has to be filtered too
                             self.state = StreamingState::FilterInit;
                             continue;
-- 
2.43.0


From d738135fcf0bd8c108b58f55e7d2c227c2329fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 51/88] fix: columns with more than 65535 chunks do not share
 cached messages between chunks

---
 vortex-serde/src/layouts/read/layouts/chunked.rs      | 3 ++-
 vortex-serde/src/layouts/read/layouts/column.rs       | 4 ++--
 vortex-serde/src/layouts/read/layouts/inline_dtype.rs | 2 +-
 vortex-serde/src/layouts/read/mod.rs                  | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/layouts/chunked.rs b/vortex-serde/src/layouts/read/layouts/chunked.rs
index 47ecc3e..50e478d 100644
--- a/vortex-serde/src/layouts/read/layouts/chunked.rs
+++ b/vortex-serde/src/layouts/read/layouts/chunked.rs
@@ -6,6 +6,7 @@ use vortex_flatbuffers::footer;
 
 use crate::layouts::read::buffered::BufferedReader;
 use crate::layouts::read::cache::RelativeLayoutCache;
+use crate::layouts::read::LayoutPartId;
 use crate::layouts::{
     LayoutDeserializer, LayoutId, LayoutReader, LayoutSpec, ReadResult, Scan, CHUNKED_LAYOUT_ID,
 };
@@ -102,7 +103,7 @@ impl LayoutReader for ChunkedLayout {
                         c._tab.loc(),
                         self.scan.clone(),
                         self.message_cache
-                            .relative(i as u16, self.message_cache.dtype().clone()),
+                            .relative(i as LayoutPartId, self.message_cache.dtype().clone()),
                     )
                 })
                 .collect::<VortexResult<VecDeque<_>>>()?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 2a0f39f..b102c3c 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -11,7 +11,7 @@ use vortex_schema::projection::Projection;
 use crate::layouts::read::batch::BatchReader;
 use crate::layouts::read::cache::{LazyDeserializedDType, RelativeLayoutCache};
 use crate::layouts::read::context::{LayoutDeserializer, LayoutId, LayoutSpec};
-use crate::layouts::read::{LayoutReader, ReadResult, Scan};
+use crate::layouts::read::{LayoutPartId, LayoutReader, ReadResult, Scan};
 use crate::layouts::COLUMN_LAYOUT_ID;
 
 #[derive(Debug)]
@@ -95,7 +95,7 @@ impl ColumnLayout {
             layout._tab.loc(),
             child_scan,
             self.message_cache.relative(
-                idx as u16,
+                idx as LayoutPartId,
                 Arc::new(LazyDeserializedDType::from_dtype(dtype)),
             ),
         )
diff --git a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
index ee969b6..1dafdc3 100644
--- a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
+++ b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
@@ -128,7 +128,7 @@ impl LayoutReader for InlineDTypeLayout {
                             layout._tab.loc(),
                             self.scan.clone(),
                             self.message_cache
-                                .relative(1u16, Arc::new(LazyDeserializedDType::from_dtype(d))),
+                                .relative(1, Arc::new(LazyDeserializedDType::from_dtype(d))),
                         )?,
                     );
                     self.read_next()
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index 9d93505..e715aaf 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -43,7 +43,7 @@ pub struct Scan {
 }
 
 /// Unique identifier for a message within a layout
-pub type LayoutPartId = u16;
+pub type LayoutPartId = u32;
 pub type MessageId = Vec<LayoutPartId>;
 pub type Message = (MessageId, ByteRange);
 
-- 
2.43.0


From 30aac4507370758da3ed4331b510450df9dfa2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 52/88] fix: opening a file whose footer is damaged or larger
 than the initial read does not panic

---
 vortex-serde/src/layouts/read/footer.rs | 64 +++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 6fc1341..64274d6 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -142,11 +142,12 @@ impl LayoutDescriptorReader {
         read: &R,
         file_size: u64,
     ) -> VortexResult<LayoutDescriptor> {
-        if file_size < EOF_SIZE as u64 {
+        let trailer_size = FOOTER_POSTSCRIPT_SIZE + EOF_SIZE;
+        if file_size < trailer_size as u64 {
             vortex_bail!(
                 "Malformed vortex file, size {} must be at least {}",
                 file_size,
-                EOF_SIZE,
+                trailer_size,
             )
         }
 
@@ -155,7 +156,7 @@ impl LayoutDescriptorReader {
         unsafe { buf.set_len(read_size) }
 
         let read_offset = file_size - read_size as u64;
-        buf = read.read_at_into(read_offset, buf).await?;
+        buf = read_exact_at(read, read_offset, buf).await?;
 
         let eof_loc = read_size - EOF_SIZE;
 
@@ -176,13 +177,66 @@ impl LayoutDescriptorReader {
         }
 
         let ps = root::<footer::Postscript>(&buf[eof_loc - FOOTER_POSTSCRIPT_SIZE..eof_loc])?;
+        let schema_offset = ps.schema_offset();
+        let footer_offset = ps.footer_offset();
+        let postscript_offset = file_size - trailer_size as u64;
+
+        // The schema is followed by the footer, which is followed by the postscript
+        if schema_offset >= footer_offset || footer_offset >= postscript_offset {
+            vortex_bail!(
+                "Malformed vortex file, schema at {}, footer at {} and postscript at {}",
+                schema_offset,
+                footer_offset,
+                postscript_offset,
+            )
+        }
+
+        // The schema and the footer can be larger than the initial read
+        let read_offset = if schema_offset < read_offset {
+            let missing = (read_offset - schema_offset) as usize;
+            let mut head = BytesMut::with_capacity(missing + buf.len());
+            unsafe { head.set_len(missing) }
+            head = read_exact_at(read, schema_offset, head).await?;
+            head.extend_from_slice(&buf);
+            buf = head;
+            schema_offset
+        } else {
+            read_offset
+        };
+
+        let schema_loc = (schema_offset - read_offset) as usize;
+        let footer_loc = (footer_offset - read_offset) as usize;
+        let postscript_loc = (postscript_offset - read_offset) as usize;
+        check_message(&buf[schema_loc..footer_loc])?;
+        check_message(&buf[footer_loc..postscript_loc])?;
 
         Ok(LayoutDescriptor {
-            schema_offset: ps.schema_offset(),
-            footer_offset: ps.footer_offset(),
+            schema_offset,
+            footer_offset,
             initial_read: buf.freeze(),
             initial_read_offset: read_offset,
             layout_serde: self.layout_serde.clone(),
         })
     }
 }
+
+async fn read_exact_at<R: VortexReadAt>(
+    read: &R,
+    offset: u64,
+    buf: BytesMut,
+) -> VortexResult<BytesMut> {
+    let len = buf.len();
+    let buf = read.read_at_into(offset, buf).await?;
+    if buf.len() != len {
+        vortex_bail!("Expected to read {} bytes but got {}", len, buf.len())
+    }
+    Ok(buf)
+}
+
+/// Check that the bytes are exactly one length prefixed message
+fn check_message(bytes: &[u8]) -> VortexResult<()> {
+    match bytes.split_first_chunk::<FLATBUFFER_SIZE_LENGTH>() {
+        Some((len, message)) if u32::from_le_bytes(*len) as usize == message.len() => Ok(()),
+        _ => vortex_bail!("Malformed vortex file, footer offsets don't point at messages"),
+    }
+}
-- 
2.43.0


From 1cd5d6fb9a4bf761ed8b63c4e017131e7a200a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 53/88] fix: a file scan ends after it reported an error

---
 vortex-serde/src/layouts/read/stream.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index 7d3f508..a872879 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -11,7 +11,9 @@ use vortex::compute::filter;
 use vortex::stats::ArrayStatistics;
 use vortex::Array;
 use vortex_dtype::DType;
-use vortex_error::{vortex_err, vortex_panic, VortexError, VortexExpect, VortexResult};
+use vortex_error::{
+    vortex_bail, vortex_err, vortex_panic, VortexError, VortexExpect, VortexResult,
+};
 use vortex_schema::Schema;
 
 use crate::io::VortexReadAt;
@@ -89,6 +91,17 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
     type Item = VortexResult<Array>;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+        let polled = self.poll_batch(cx);
+        if let Poll::Ready(Some(Err(_))) = &polled {
+            // The filter and the data may be at different rows by now, nothing can follow an error
+            self.state = StreamingState::Error;
+        }
+        polled
+    }
+}
+
+impl<R: VortexReadAt + Unpin + Send + 'static> LayoutBatchStream<R> {
+    fn poll_batch(&mut self, cx: &mut Context<'_>) -> Poll<Option<VortexResult<Array>>> {
         loop {
             match &mut self.state {
                 StreamingState::Init => {
-- 
2.43.0


From d355a9467fc0a29e62fe4f2cdb2567c32b952fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 54/88] fix: a file scan reports reads that return too few
 bytes

---
 vortex-serde/src/layouts/read/stream.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index a872879..cf5ac0f 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -228,10 +228,16 @@ async fn read_ranges<R: VortexReadAt>(
 
             let read_ft = reader.read_at_into(range.begin, buf);
 
-            read_ft.map(|result| {
-                result
-                    .map(|res| (id, res.freeze()))
-                    .map_err(VortexError::from)
+            read_ft.map(move |result| {
+                let res = result.map_err(VortexError::from)?;
+                if res.len() != range.len() {
+                    vortex_bail!(
+                        "Expected to read {} bytes but got {}",
+                        range.len(),
+                        res.len()
+                    )
+                }
+                Ok((id, res.freeze()))
             })
         })
         .buffered(10)
-- 
2.43.0


From 7fa2b09e952e5213304830b75dbcb612af10144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 55/88] fix: reading an object past its end is an error, not a
 panic

---
 vortex-serde/src/io/object_store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/io/object_store.rs b/vortex-serde/src/io/object_store.rs
index 13782a8..8dfb1b5 100644
--- a/vortex-serde/src/io/object_store.rs
+++ b/vortex-serde/src/io/object_store.rs
@@ -11,7 +11,7 @@ use object_store::path::Path;
 use object_store::{ObjectStore, WriteMultipart};
 use vortex_buffer::io_buf::IoBuf;
 use vortex_buffer::Buffer;
-use vortex_error::{vortex_panic, VortexError, VortexResult};
+use vortex_error::{vortex_err, vortex_panic, VortexError, VortexResult};
 
 use crate::io::{VortexRead, VortexReadAt, VortexWrite};
 
@@ -74,6 +74,12 @@ impl VortexReadAt for ObjectStoreReadAt {
             .object_store
             .get_range(&self.location, start_range..(start_range + buffer.len()))
             .await?;
+        if bytes.len() != buffer.len() {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                vortex_err!("unexpected eof"),
+            ));
+        }
         buffer.as_mut().copy_from_slice(bytes.as_ref());
         Ok(buffer)
     }
-- 
2.43.0


From b6eb250a5b79ff0c216dfe6d319d0e2cf0aa0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 56/88] fix: an IPC stream without any message is finished from
 the start

---
 vortex-serde/src/message_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..c82d502 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -30,7 +30,7 @@ impl<R: VortexRead> MessageReader<R> {
             prev_message: BytesMut::new(),
             finished: false,
         };
-        reader.load_next_message().await?;
+        reader.finished = !reader.load_next_message().await?;
         Ok(reader)
     }
 
-- 
2.43.0


From c068132db5950d4cf16e2a81c5b1f8b6623c6436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 57/88] fix: an IPC reader whose transport failed is finished

---
 vortex-serde/src/message_reader.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index c82d502..2fbbfce 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -57,7 +57,7 @@ impl<R: VortexRead> MessageReader<R> {
 
         buffer.reserve(len as usize);
         unsafe { buffer.set_len(len as usize) };
-        self.message = self.read.read_into(buffer).await?;
+        self.message = self.read_exact(buffer).await?;
 
         // Validate that the message is valid a flatbuffer.
         root::<fb::Message>(&self.message).map_err(
@@ -67,6 +67,23 @@ impl<R: VortexRead> MessageReader<R> {
         Ok(true)
     }
 
+    /// Read as many bytes as the buffer holds. Once this fails the position in the stream isn't
+    /// known anymore and the reader is finished.
+    async fn read_exact(&mut self, buffer: BytesMut) -> VortexResult<BytesMut> {
+        let len = buffer.len();
+        match self.read.read_into(buffer).await {
+            Ok(b) if b.len() == len => Ok(b),
+            Ok(b) => {
+                self.finished = true;
+                vortex_bail!("Expected to read {} bytes but got {}", len, b.len())
+            }
+            Err(e) => {
+                self.finished = true;
+                Err(e.into())
+            }
+        }
+    }
+
     fn peek(&self) -> Option<fb::Message> {
         if self.finished {
             return None;
@@ -80,9 +97,9 @@ impl<R: VortexRead> MessageReader<R> {
             vortex_bail!("Reader is finished, should've peeked!")
         }
         self.prev_message = self.message.split();
-        if !self.load_next_message().await? {
-            self.finished = true;
-        }
+        // Without a next message there's nothing left to read, even if it's due to an error
+        self.finished = true;
+        self.finished = !self.load_next_message().await?;
         Ok(Buffer::from(self.prev_message.clone().freeze()))
     }
 
@@ -121,7 +138,7 @@ impl<R: VortexRead> MessageReader<R> {
         // Issue a single read to grab all buffers
         let mut all_buffers = BytesMut::with_capacity(all_buffers_size);
         unsafe { all_buffers.set_len(all_buffers_size) };
-        let all_buffers = self.read.read_into(all_buffers).await?;
+        let all_buffers = self.read_exact(all_buffers).await?;
 
         if array_reader.read(all_buffers.freeze())?.is_some() {
             unreachable!("This is an implementation bug")
@@ -197,7 +214,7 @@ impl<R: VortexRead> MessageReader<R> {
 
         let mut buffer = BytesMut::with_capacity(total_len);
         unsafe { buffer.set_len(total_len) }
-        buffer = self.read.read_into(buffer).await?;
+        buffer = self.read_exact(buffer).await?;
         buffer.truncate(buffer_len);
         let page_buffer = Ok(Some(Buffer::from(buffer.freeze())));
         let _ = self.next().await?;
-- 
2.43.0


From 9a2322c53a75421b11827391fa3d397c06ded8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 58/88] fix: a file written from a stream without batches can
 be read

---
 vortex-serde/src/layouts/write/writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 9b44245..58502f8 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -64,6 +64,16 @@ impl<W: VortexWrite> LayoutWriter<W> {
             }
         }
 
+        if let (true, DType::Struct(st, _)) = (self.column_chunks.is_empty(), array_stream.dtype())
+        {
+            // Every column has a layout even if there's nothing to write
+            self.column_chunks = st
+                .names()
+                .iter()
+                .map(|_| BatchOffsets::new(vec![0], Vec::new()))
+                .collect();
+        }
+
         while let Some(columns) = array_stream.try_next().await? {
             let st = StructArray::try_from(&columns)?;
             self.row_count += st.len() as u64;
-- 
2.43.0


From c4d132c1e39404f9bca7679e13c233ab58941cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 59/88] fix: batches of a file scan have the declared
 nullability

---
 vortex-serde/src/layouts/read/batch.rs        | 26 ++++++++++++++++---
 .../src/layouts/read/layouts/column.rs        |  8 ++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/batch.rs b/vortex-serde/src/layouts/read/batch.rs
index ed50cdb..bce3f7f 100644
--- a/vortex-serde/src/layouts/read/batch.rs
+++ b/vortex-serde/src/layouts/read/batch.rs
@@ -2,7 +2,9 @@ use std::mem;
 use std::sync::Arc;
 
 use vortex::array::StructArray;
+use vortex::validity::Validity;
 use vortex::{Array, IntoArray};
+use vortex_dtype::Nullability;
 use vortex_error::{vortex_err, VortexResult};
 
 use crate::layouts::read::{LayoutReader, ReadResult};
@@ -11,15 +13,21 @@ use crate::layouts::read::{LayoutReader, ReadResult};
 pub struct BatchReader {
     names: Arc<[Arc<str>]>,
     children: Vec<Box<dyn LayoutReader>>,
+    nullability: Nullability,
     arrays: Vec<Option<Array>>,
 }
 
 impl BatchReader {
-    pub fn new(names: Arc<[Arc<str>]>, children: Vec<Box<dyn LayoutReader>>) -> Self {
+    pub fn new(
+        names: Arc<[Arc<str>]>,
+        children: Vec<Box<dyn LayoutReader>>,
+        nullability: Nullability,
+    ) -> Self {
         let arrays = vec![None; children.len()];
         Self {
             names,
             children,
+            nullability,
             arrays,
         }
     }
@@ -55,9 +63,21 @@ impl BatchReader {
                 .enumerate()
                 .map(|(i, a)| a.ok_or_else(|| vortex_err!("Missing child array at index {}", i)))
                 .collect::<VortexResult<Vec<_>>>()?;
+            let len = child_arrays
+                .first()
+                .map(|a| a.len())
+                .ok_or_else(|| vortex_err!("Can't read a batch without columns"))?;
             Ok(Some(ReadResult::Batch(
-                StructArray::from_fields(&self.names.iter().zip(child_arrays).collect::<Vec<_>>())?
-                    .into_array(),
+                StructArray::try_new(
+                    self.names.clone(),
+                    child_arrays,
+                    len,
+                    match self.nullability {
+                        Nullability::NonNullable => Validity::NonNullable,
+                        Nullability::Nullable => Validity::AllValid,
+                    },
+                )?
+                .into_array(),
             )))
         } else {
             Ok(Some(ReadResult::ReadMore(messages)))
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index b102c3c..0470f96 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -115,7 +115,7 @@ impl LayoutReader for ColumnLayout {
             br.read()
         } else {
             let result_lazy_dtype = self.lazy_dtype()?;
-            let DType::Struct(s, _) = result_lazy_dtype.value()? else {
+            let DType::Struct(s, nullability) = result_lazy_dtype.value()? else {
                 vortex_bail!("DType was not a struct")
             };
 
@@ -137,7 +137,11 @@ impl LayoutReader for ColumnLayout {
                     .collect::<VortexResult<Vec<_>>>()?,
             };
 
-            self.reader = Some(BatchReader::new(s.names().clone(), child_layouts));
+            self.reader = Some(BatchReader::new(
+                s.names().clone(),
+                child_layouts,
+                *nullability,
+            ));
             self.read_next()
         }
     }
-- 
2.43.0


From bebc566002ae01fa184beca1331a38c62ba7ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 60/88] fix: taking rows of a stream works for any integer type
 of the indices

---
 vortex-array/src/stream/take_rows.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index 2562b53..f0a8872 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -3,11 +3,11 @@ use std::task::{Context, Poll};
 
 use futures_util::{ready, Stream};
 use pin_project::pin_project;
-use vortex_dtype::match_each_integer_ptype;
+use vortex_dtype::PType;
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::compute::unary::subtract_scalar;
+use crate::compute::unary::{subtract_scalar, try_cast};
 use crate::compute::{search_sorted, slice, take, SearchSortedSide};
 use crate::stats::{ArrayStatistics, Stat};
 use crate::stream::ArrayStream;
@@ -52,6 +52,9 @@ impl<R: ArrayStream> TakeRows<R> {
             }
         }
 
+        // Row offsets don't have to fit the type of the indices
+        let indices = try_cast(indices.into_primitive()?, PType::U64.into())?;
+
         Ok(Self {
             reader,
             indices,
@@ -89,9 +92,10 @@ impl<R: ArrayStream> Stream for TakeRows<R> {
             // TODO(ngates): this is probably too heavy to run on the event loop. We should spawn
             //  onto a worker pool.
             let indices_for_batch = slice(this.indices, left, right)?.into_primitive()?;
-            let shifted_arr = match_each_integer_ptype!(indices_for_batch.ptype(), |$T| {
-                subtract_scalar(&indices_for_batch.into_array(), &Scalar::from(curr_offset as $T))?
-            });
+            let shifted_arr = subtract_scalar(
+                &indices_for_batch.into_array(),
+                &Scalar::from(curr_offset as u64),
+            )?;
             return Poll::Ready(take(&batch, &shifted_arr).map(Some).transpose());
         }
 
-- 
2.43.0


From e7bdbe24c40914f93581ad5213765d4ad5ce8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 61/88] fix: taking rows of a stored chunked array works for
 any integer type of the indices

---
 vortex-serde/src/chunked_reader/take_rows.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index eafc887..1789bf0 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -27,7 +27,9 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
             .unwrap_or(false)
         {
             // With strict-sorted indices, we can take the rows directly.
-            return self.take_rows_strict_sorted(indices).await;
+            // The rows of a chunk don't have to fit the type of the indices.
+            let indices = try_cast(indices.clone().into_primitive()?, PType::U64.into())?;
+            return self.take_rows_strict_sorted(&indices).await;
         }
 
         //         // Figure out which chunks are relevant to the read operation using the row_offsets array.
-- 
2.43.0


From 00fca5f8d39fe38399264f8aa9e2ed77b208a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 62/88] fix: comparing an identity expression with another one
 terminates

---
 vortex-expr/src/identity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-expr/src/identity.rs b/vortex-expr/src/identity.rs
index 8a28483..699b014 100644
--- a/vortex-expr/src/identity.rs
+++ b/vortex-expr/src/identity.rs
@@ -22,7 +22,7 @@ impl PartialEq<dyn Any> for Identity {
     fn eq(&self, other: &dyn Any) -> bool {
         unbox_any(other)
             .downcast_ref::<Self>()
-            .map(|x| x == other)
+            .map(|x| self == x)
             .unwrap_or(false)
     }
 }
-- 
2.43.0


From d0261fba8a88189dc180dd0a122bf835e8c40be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 63/88] fix: a chunked temporal array without chunks can be
 canonicalised

---
 vortex-array/src/array/chunked/canonical.rs  | 18 ++++++++++++------
 vortex-array/src/array/constant/canonical.rs |  2 +-
 vortex-array/src/array/constant/mod.rs       |  2 +-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/vortex-array/src/array/chunked/canonical.rs b/vortex-array/src/array/chunked/canonical.rs
index 741d8a8..e8b6ed8 100644
--- a/vortex-array/src/array/chunked/canonical.rs
+++ b/vortex-array/src/array/chunked/canonical.rs
@@ -1,8 +1,10 @@
 use arrow_buffer::{BooleanBufferBuilder, Buffer, MutableBuffer, ScalarBuffer};
+use vortex_datetime_dtype::TemporalMetadata;
 use vortex_dtype::{DType, PType, StructDType};
 use vortex_error::{vortex_bail, vortex_err, ErrString, VortexResult};
 
 use crate::array::chunked::ChunkedArray;
+use crate::array::constant::canonical::temporal_storage_ptype;
 use crate::array::extension::ExtensionArray;
 use crate::array::null::NullArray;
 use crate::array::primitive::PrimitiveArray;
@@ -69,7 +71,7 @@ pub(crate) fn try_canonicalize_chunks(
         //                /             \
         //          storage             storage
         //
-        DType::Extension(ext_dtype, _) => {
+        DType::Extension(ext_dtype, nullability) => {
             // Recursively apply canonicalization and packing to the storage array backing
             // each chunk of the extension array.
             let storage_chunks: Vec<Array> = chunks
@@ -78,11 +80,15 @@ pub(crate) fn try_canonicalize_chunks(
                 // ExtensionArray, so we should canonicalize each chunk into ExtensionArray first.
                 .map(|chunk| chunk.clone().into_extension().map(|ext| ext.storage()))
                 .collect::<VortexResult<Vec<Array>>>()?;
-            let storage_dtype = storage_chunks
-                .first()
-                .ok_or_else(|| vortex_err!("Expected at least one chunk in ChunkedArray"))?
-                .dtype()
-                .clone();
+            let storage_dtype = match storage_chunks.first() {
+                Some(storage) => storage.dtype().clone(),
+                // Without any chunk only the storage of the temporal types is known
+                None => TemporalMetadata::try_from(ext_dtype)
+                    .map(|metadata| {
+                        DType::Primitive(temporal_storage_ptype(&metadata), *nullability)
+                    })
+                    .map_err(|_| vortex_err!("Expected at least one chunk in ChunkedArray"))?,
+            };
             let chunked_storage =
                 ChunkedArray::try_new(storage_chunks, storage_dtype)?.into_array();
 
diff --git a/vortex-array/src/array/constant/canonical.rs b/vortex-array/src/array/constant/canonical.rs
index a312cc6..a901fc8 100644
--- a/vortex-array/src/array/constant/canonical.rs
+++ b/vortex-array/src/array/constant/canonical.rs
@@ -84,7 +84,7 @@ impl IntoCanonical for ConstantArray {
 }
 
 /// The storage type that Arrow prescribes for a temporal type.
-fn temporal_storage_ptype(metadata: &TemporalMetadata) -> PType {
+pub(crate) fn temporal_storage_ptype(metadata: &TemporalMetadata) -> PType {
     match metadata {
         TemporalMetadata::Date(TimeUnit::D)
         | TemporalMetadata::Time(TimeUnit::S | TimeUnit::Ms) => PType::I32,
diff --git a/vortex-array/src/array/constant/mod.rs b/vortex-array/src/array/constant/mod.rs
index 9314769..c1c88b8 100644
--- a/vortex-array/src/array/constant/mod.rs
+++ b/vortex-array/src/array/constant/mod.rs
@@ -11,7 +11,7 @@ use crate::stats::{Stat, StatsSet};
 use crate::validity::{ArrayValidity, LogicalValidity};
 use crate::{impl_encoding, ArrayDType, ArrayTrait};
 
-mod canonical;
+pub(crate) mod canonical;
 mod compute;
 mod stats;
 mod variants;
-- 
2.43.0


From bb9def42e3530db24d44a7529ee413512207ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 64/88] fix: taking rows works for indices of any encoding

---
 vortex-array/src/stream/take_rows.rs         | 13 ++++++++-----
 vortex-serde/src/chunked_reader/take_rows.rs |  5 ++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/stream/take_rows.rs b/vortex-array/src/stream/take_rows.rs
index f0a8872..5784747 100644
--- a/vortex-array/src/stream/take_rows.rs
+++ b/vortex-array/src/stream/take_rows.rs
@@ -23,6 +23,13 @@ pub struct TakeRows<R: ArrayStream> {
 
 impl<R: ArrayStream> TakeRows<R> {
     pub fn try_new(reader: R, indices: Array) -> VortexResult<Self> {
+        if !indices.dtype().is_int() {
+            vortex_bail!("Indices must be integers")
+        }
+
+        // Not every encoding knows whether it's sorted
+        let indices = indices.into_primitive()?.into_array();
+
         if !indices.is_empty() {
             if !indices.statistics().compute_is_sorted().unwrap_or(false) {
                 vortex_bail!("Indices must be sorted to take from IPC stream")
@@ -37,10 +44,6 @@ impl<R: ArrayStream> TakeRows<R> {
                 vortex_bail!("Indices must not contain nulls")
             }
 
-            if !indices.dtype().is_int() {
-                vortex_bail!("Indices must be integers")
-            }
-
             if indices.dtype().is_signed_int()
                 && indices
                     .statistics()
@@ -53,7 +56,7 @@ impl<R: ArrayStream> TakeRows<R> {
         }
 
         // Row offsets don't have to fit the type of the indices
-        let indices = try_cast(indices.into_primitive()?, PType::U64.into())?;
+        let indices = try_cast(indices, PType::U64.into())?;
 
         Ok(Self {
             reader,
diff --git a/vortex-serde/src/chunked_reader/take_rows.rs b/vortex-serde/src/chunked_reader/take_rows.rs
index 1789bf0..a944136 100644
--- a/vortex-serde/src/chunked_reader/take_rows.rs
+++ b/vortex-serde/src/chunked_reader/take_rows.rs
@@ -20,6 +20,9 @@ use crate::stream_reader::StreamArrayReader;
 
 impl<R: VortexReadAt> ChunkedArrayReader<R> {
     pub async fn take_rows(&mut self, indices: &Array) -> VortexResult<Array> {
+        // Not every encoding knows whether it's sorted
+        let indices = indices.clone().into_primitive()?.into_array();
+
         // Figure out if the row indices are sorted / unique. If not, we need to sort them.
         if indices
             .statistics()
@@ -28,7 +31,7 @@ impl<R: VortexReadAt> ChunkedArrayReader<R> {
         {
             // With strict-sorted indices, we can take the rows directly.
             // The rows of a chunk don't have to fit the type of the indices.
-            let indices = try_cast(indices.clone().into_primitive()?, PType::U64.into())?;
+            let indices = try_cast(indices, PType::U64.into())?;
             return self.take_rows_strict_sorted(&indices).await;
         }
 
-- 
2.43.0


From 88f9dbfc80cf21152273db0eaed91947e074d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 65/88] fix: an IPC reader reports a length prefix that was not
 read completely

---
 vortex-serde/src/message_reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index 2fbbfce..661e739 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -47,6 +47,14 @@ impl<R: VortexRead> MessageReader<R> {
             }
         };
 
+        if buffer.len() < FLATBUFFER_SIZE_LENGTH {
+            vortex_bail!(
+                "Expected to read {} bytes but got {}",
+                FLATBUFFER_SIZE_LENGTH,
+                buffer.len()
+            )
+        }
+
         let len = buffer.get_u32_le();
         if len == u32::MAX {
             // Marker for no more messages.
-- 
2.43.0


From dd5544e6db1df12eef334389c326c0b8c4a68bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 66/88] fix: reject a field index equal to the number of fields

---
 vortex-dtype/src/dtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-dtype/src/dtype.rs b/vortex-dtype/src/dtype.rs
index b2b16e6..8374d50 100644
--- a/vortex-dtype/src/dtype.rs
+++ b/vortex-dtype/src/dtype.rs
@@ -182,7 +182,7 @@ impl StructDType {
                 .ok_or_else(|| vortex_err!("Unknown field: {}", name))?,
             Field::Index(index) => *index,
         };
-        if index > self.names.len() {
+        if index >= self.names.len() {
             vortex_bail!("field index out of bounds: {}", index)
         }
         Ok(FieldInfo {
-- 
2.43.0


From d9cf201bc369dff31bfbb6b399000a8b4611c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 67/88] fix: reject a field index past the end of a serialized
 struct type

---
 vortex-dtype/src/serde/flatbuffers/project.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vortex-dtype/src/serde/flatbuffers/project.rs b/vortex-dtype/src/serde/flatbuffers/project.rs
index d577271..7af1662 100644
--- a/vortex-dtype/src/serde/flatbuffers/project.rs
+++ b/vortex-dtype/src/serde/flatbuffers/project.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use vortex_error::{vortex_err, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexResult};
 
 use crate::field::Field;
 use crate::{flatbuffers as fb, DType, StructDType};
@@ -48,15 +48,17 @@ pub fn deserialize_and_project(
 }
 
 fn read_field(fb_struct: fb::Struct_, idx: usize) -> VortexResult<(Arc<str>, DType)> {
-    let name = fb_struct
+    let names = fb_struct
         .names()
-        .ok_or_else(|| vortex_err!("Missing field names"))?
-        .get(idx);
-    let fb_dtype = fb_struct
+        .ok_or_else(|| vortex_err!("Missing field names"))?;
+    let dtypes = fb_struct
         .dtypes()
-        .ok_or_else(|| vortex_err!("Missing field dtypes"))?
-        .get(idx);
-    let dtype = DType::try_from(fb_dtype)?;
+        .ok_or_else(|| vortex_err!("Missing field dtypes"))?;
+    if idx >= names.len() || idx >= dtypes.len() {
+        vortex_bail!("field index out of bounds: {}", idx)
+    }
+    let name = names.get(idx);
+    let dtype = DType::try_from(dtypes.get(idx))?;
 
     Ok((name.into(), dtype))
 }
-- 
2.43.0


From 99b238b34aca0ffc7be5ae8661fc50913371d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 68/88] fix: cast a null primitive scalar to another primitive
 type

---
 vortex-scalar/src/primitive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vortex-scalar/src/primitive.rs b/vortex-scalar/src/primitive.rs
index b7add0d..687096a 100644
--- a/vortex-scalar/src/primitive.rs
+++ b/vortex-scalar/src/primitive.rs
@@ -65,6 +65,12 @@ impl<'a> PrimitiveScalar<'a> {
 
     pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
         let ptype = PType::try_from(dtype)?;
+        if self.pvalue.is_none() {
+            if !dtype.is_nullable() {
+                vortex_bail!("Can't cast null scalar to non-nullable type")
+            }
+            return Ok(Scalar::null(dtype.clone()));
+        }
         match_each_native_ptype!(ptype, |$Q| {
             match_each_native_ptype!(self.ptype(), |$T| {
                 Ok(Scalar::primitive::<$Q>(
-- 
2.43.0


From f7ac7986980fe636467384987ce1e4a627db34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 69/88] fix: deserialize a scalar's value as the type it has

---
 vortex-scalar/src/lib.rs         |  2 +-
 vortex-scalar/src/serde/serde.rs | 20 ++++++++++++++++++++
 vortex-scalar/src/value.rs       |  9 +++------
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f80db1d..5f9e0ea 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -34,7 +34,7 @@ use vortex_error::{vortex_bail, VortexResult};
 
 /// A single logical item, composed of both a [`ScalarValue`] and a logical [`DType`].
 #[derive(Debug, Clone)]
-#[cfg_attr(feature = "serde", derive(::serde::Serialize, ::serde::Deserialize))]
+#[cfg_attr(feature = "serde", derive(::serde::Serialize))]
 pub struct Scalar {
     pub(crate) dtype: DType,
     pub(crate) value: ScalarValue,
diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index cf94371..1ab2293 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -3,9 +3,29 @@ use std::fmt::Formatter;
 use serde::de::{Error, SeqAccess, Visitor};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use vortex_buffer::BufferString;
+use vortex_dtype::DType;
 
 use crate::pvalue::PValue;
 use crate::value::ScalarValue;
+use crate::Scalar;
+
+impl<'de> Deserialize<'de> for Scalar {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(rename = "Scalar")]
+        struct Parts {
+            dtype: DType,
+            value: ScalarValue,
+        }
+
+        // A value doesn't say how wide it is, so it must be read with its dtype in hand.
+        let Parts { dtype, value } = Parts::deserialize(deserializer)?;
+        Ok(Scalar::new(dtype, value))
+    }
+}
 
 impl Serialize for ScalarValue {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index de272c9..7af53c6 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -87,12 +87,9 @@ impl ScalarValue {
                     Self::Primitive(<$T>::try_from(pvalue).map_or(pvalue, PValue::from))
                 })
             }
-            (Self::List(values), DType::List(elem, _)) => Self::List(
-                values
-                    .iter()
-                    .map(|v| v.clone().normalize(elem))
-                    .collect(),
-            ),
+            (Self::List(values), DType::List(elem, _)) => {
+                Self::List(values.iter().map(|v| v.clone().normalize(elem)).collect())
+            }
             (Self::List(values), DType::Struct(structdt, _))
                 if values.len() == structdt.dtypes().len() =>
             {
-- 
2.43.0


From d57c6679922184c00456c279e574cafdfc4ced68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 70/88] fix: read the bytes of a binary scalar from a list of
 numbers

---
 vortex-scalar/src/value.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index 7af53c6..e4b5a8e 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -101,6 +101,20 @@ impl ScalarValue {
                         .collect(),
                 )
             }
+            // Some formats cannot tell bytes from a list of numbers.
+            (Self::List(values), DType::Binary(_)) => {
+                let bytes = values
+                    .iter()
+                    .map(|v| match v {
+                        Self::Primitive(pvalue) => u8::try_from(*pvalue).ok(),
+                        _ => None,
+                    })
+                    .collect::<Option<Vec<u8>>>();
+                match bytes {
+                    Some(bytes) => Self::Buffer(bytes.into()),
+                    None => Self::List(values),
+                }
+            }
             (value, _) => value,
         }
     }
-- 
2.43.0


From 53e8795caa4da3bf680ddf403febcc6ea9353e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 71/88] fix: give the values of temporal scalars the width that
 their type stores

---
 vortex-scalar/src/value.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/value.rs b/vortex-scalar/src/value.rs
index e4b5a8e..79a448c 100644
--- a/vortex-scalar/src/value.rs
+++ b/vortex-scalar/src/value.rs
@@ -3,7 +3,8 @@ use std::sync::Arc;
 
 use half::f16;
 use vortex_buffer::{Buffer, BufferString};
-use vortex_dtype::{match_each_native_ptype, DType};
+use vortex_datetime_dtype::{is_temporal_ext_type, TimeUnit, DATE_ID, TIME_ID};
+use vortex_dtype::{match_each_native_ptype, DType, ExtDType, PType};
 use vortex_error::{vortex_err, VortexResult};
 
 use crate::pvalue::PValue;
@@ -69,6 +70,21 @@ impl Display for ScalarValue {
     }
 }
 
+/// The type that values of a temporal type are stored as, or None for any other extension type.
+fn temporal_storage(ext_dtype: &ExtDType) -> Option<PType> {
+    if !is_temporal_ext_type(ext_dtype.id()) {
+        return None;
+    }
+    let unit = TimeUnit::try_from(*ext_dtype.metadata()?.as_ref().first()?).ok()?;
+    if ext_dtype.id() == &*DATE_ID && unit == TimeUnit::D
+        || ext_dtype.id() == &*TIME_ID && matches!(unit, TimeUnit::S | TimeUnit::Ms)
+    {
+        Some(PType::I32)
+    } else {
+        Some(PType::I64)
+    }
+}
+
 impl ScalarValue {
     pub fn is_null(&self) -> bool {
         matches!(self, Self::Null)
@@ -101,6 +117,13 @@ impl ScalarValue {
                         .collect(),
                 )
             }
+            (Self::Primitive(pvalue), DType::Extension(ext_dtype, _)) => {
+                Self::Primitive(match temporal_storage(ext_dtype) {
+                    Some(PType::I32) => i32::try_from(pvalue).map_or(pvalue, PValue::from),
+                    Some(_) => i64::try_from(pvalue).map_or(pvalue, PValue::from),
+                    None => pvalue,
+                })
+            }
             // Some formats cannot tell bytes from a list of numbers.
             (Self::List(values), DType::Binary(_)) => {
                 let bytes = values
-- 
2.43.0


From f9a744e5616bea76d320790f8669b87edc0c5f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 72/88] fix: reading the statistic of an array of nulls gives
 nothing instead of panicking

---
 vortex-array/src/stats/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vortex-array/src/stats/mod.rs b/vortex-array/src/stats/mod.rs
index 2a02d10..81a8afe 100644
--- a/vortex-array/src/stats/mod.rs
+++ b/vortex-array/src/stats/mod.rs
@@ -77,6 +77,7 @@ impl dyn Statistics + '_ {
         stat: Stat,
     ) -> Option<U> {
         self.get(stat)
+            .filter(|s| s.is_valid())
             .map(|s| U::try_from(&s))
             .transpose()
             .unwrap_or_else(|err| {
@@ -108,6 +109,7 @@ impl dyn Statistics + '_ {
         stat: Stat,
     ) -> Option<U> {
         self.compute(stat)
+            .filter(|s| s.is_valid())
             .map(|s| U::try_from(&s))
             .transpose()
             .unwrap_or_else(|err| {
-- 
2.43.0


From 998153dcfae95a57594e7ffc15fe15d5bb3cde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 73/88] fix: do not reuse an ALP-RD encoder for floats of
 another width

---
 .../src/compressors/alp_rd.rs                 | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/vortex-sampling-compressor/src/compressors/alp_rd.rs b/vortex-sampling-compressor/src/compressors/alp_rd.rs
index 3dcf23e..4cc0fb8 100644
--- a/vortex-sampling-compressor/src/compressors/alp_rd.rs
+++ b/vortex-sampling-compressor/src/compressors/alp_rd.rs
@@ -16,7 +16,13 @@ use crate::{constants, SamplingCompressor};
 #[derive(Debug)]
 pub struct ALPRDCompressor;
 
-impl EncoderMetadata for ALPRDEncoder {
+/// An encoder together with the type of the floats that it was trained on.
+struct ALPRDMetadata {
+    ptype: PType,
+    encoder: ALPRDEncoder,
+}
+
+impl EncoderMetadata for ALPRDMetadata {
     fn as_any(&self) -> &dyn Any {
         self
     }
@@ -52,20 +58,32 @@ impl EncodingCompressor for ALPRDCompressor {
         let primitive = array.clone().into_primitive()?;
 
         // Train a new compressor or reuse an existing compressor.
-        let encoder = like
-            .clone()
+        let train = || -> Arc<dyn EncoderMetadata> {
+            Arc::new(ALPRDMetadata {
+                ptype: primitive.ptype(),
+                encoder: alp_rd_new_encoder(&primitive),
+            })
+        };
+        let mut metadata = like
             .and_then(|mut tree| tree.metadata())
-            .map(VortexResult::Ok)
-            .unwrap_or_else(|| Ok(Arc::new(alp_rd_new_encoder(&primitive))))?;
+            .unwrap_or_else(train);
+        if metadata
+            .as_any()
+            .downcast_ref::<ALPRDMetadata>()
+            .is_some_and(|m| m.ptype != primitive.ptype())
+        {
+            // The position at which an encoder cuts floats only suits the type it was trained on.
+            metadata = train();
+        }
 
-        let Some(alp_rd_encoder) = encoder.as_any().downcast_ref::<ALPRDEncoder>() else {
-            vortex_bail!("Could not downcast metadata as ALPRDEncoder");
+        let Some(alp_rd) = metadata.as_any().downcast_ref::<ALPRDMetadata>() else {
+            vortex_bail!("Could not downcast metadata as ALPRDMetadata");
         };
 
-        let encoded = alp_rd_encoder.encode(&primitive).into_array();
+        let encoded = alp_rd.encoder.encode(&primitive).into_array();
         Ok(CompressedArray::new(
             encoded,
-            Some(CompressionTree::new_with_metadata(self, vec![], encoder)),
+            Some(CompressionTree::new_with_metadata(self, vec![], metadata)),
         ))
     }
 
-- 
2.43.0


From 5bef7d85e8226488b4982a347d24977cdf1f57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 74/88] fix: compress a struct like one with another number of
 fields

---
 vortex-sampling-compressor/src/compressors/struct_.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vortex-sampling-compressor/src/compressors/struct_.rs b/vortex-sampling-compressor/src/compressors/struct_.rs
index 9225f68..f9143e9 100644
--- a/vortex-sampling-compressor/src/compressors/struct_.rs
+++ b/vortex-sampling-compressor/src/compressors/struct_.rs
@@ -38,8 +38,8 @@ impl EncodingCompressor for StructCompressor {
         let compressed_validity = ctx.compress_validity(array.validity())?;
 
         let children_trees = match like {
-            Some(tree) => tree.children,
-            None => vec![None; array.nfields()],
+            Some(tree) if tree.children.len() == array.nfields() => tree.children,
+            _ => vec![None; array.nfields()],
         };
 
         let (arrays, trees) = array
-- 
2.43.0


From f7a1318512909f9464c2c60537f86c350c9045a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 75/88] fix: do not claim that offsets are strictly sorted

Offsets repeat wherever an element is empty.
---
 vortex-array/src/arrow/array.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index e85054b..fb6f956 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -63,9 +63,6 @@ where
             Validity::NonNullable,
         );
         primitive.statistics().set(Stat::IsSorted, true.into());
-        primitive
-            .statistics()
-            .set(Stat::IsStrictSorted, true.into());
         primitive.into_array()
     }
 }
-- 
2.43.0


From 41c72ec03b273817b944e404732e2a2859974775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 76/88] fix: accept a validity bitmap without nulls for a
 non-nullable Arrow array

---
 vortex-array/src/arrow/array.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index fb6f956..ae024f5 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -196,7 +196,12 @@ fn nulls(nulls: Option<&NullBuffer>, nullable: bool) -> Validity {
             })
             .unwrap_or_else(|| Validity::AllValid)
     } else {
-        assert!(nulls.is_none());
+        // NOTE: a bitmap without nulls is valid for a non-nullable Arrow array.
+        assert_eq!(
+            nulls.map_or(0, |n| n.null_count()),
+            0,
+            "nulls in a non-nullable array"
+        );
         Validity::NonNullable
     }
 }
-- 
2.43.0


From 1b897b7de13e8dc0903cc285b8995db45cbeefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 77/88] fix: accept Arrow structs whose non-nullable fields
 have nulls in null rows

---
 vortex-array/src/arrow/array.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index ae024f5..4974a19 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -1,5 +1,5 @@
 use arrow_array::array::{
-    Array as ArrowArray, ArrayRef as ArrowArrayRef, ArrowPrimitiveType,
+    make_array, Array as ArrowArray, ArrayRef as ArrowArrayRef, ArrowPrimitiveType,
     BooleanArray as ArrowBooleanArray, GenericByteArray, NullArray as ArrowNullArray,
     OffsetSizeTrait, PrimitiveArray as ArrowPrimitiveArray, StructArray as ArrowStructArray,
 };
@@ -167,7 +167,16 @@ impl FromArrowArray<&ArrowStructArray> for Array {
                 .columns()
                 .iter()
                 .zip(value.fields())
-                .map(|(c, field)| Self::from_arrow(c.clone(), field.is_nullable()))
+                .map(|(c, field)| {
+                    if field.is_nullable() || c.null_count() == 0 {
+                        Self::from_arrow(c.clone(), field.is_nullable())
+                    } else {
+                        // The nulls of a non-nullable field are masked by those of the struct itself.
+                        let data = c.to_data().into_builder().nulls(None);
+                        // SAFETY: the data is valid, and it remains so without its validity bitmap.
+                        Self::from_arrow(make_array(unsafe { data.build_unchecked() }), false)
+                    }
+                })
                 .collect(),
             value.len(),
             nulls(value.nulls(), nullable),
-- 
2.43.0


From 1a6c1b4f429dafcef0491de7818a550ad3b3cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 78/88] fix: keep the length of a struct without fields on its
 way to Arrow

---
 vortex-array/src/canonical.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index ff3c3f6..eb3c7cc 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -203,6 +203,13 @@ fn struct_to_arrow(struct_array: StructArray) -> VortexResult<ArrayRef> {
 
     let nulls = struct_array.logical_validity().to_null_buffer()?;
 
+    if field_arrays.is_empty() {
+        return Ok(Arc::new(ArrowStructArray::new_empty_fields(
+            struct_array.len(),
+            nulls,
+        )));
+    }
+
     Ok(Arc::new(ArrowStructArray::try_new(
         arrow_fields,
         field_arrays,
-- 
2.43.0


From ccae0be39b23d7b58fc2d190b0932cc5c5def7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 79/88] fix: report an error for a record batch of a struct
 with null rows

---
 vortex-array/src/arrow/recordbatch.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/arrow/recordbatch.rs b/vortex-array/src/arrow/recordbatch.rs
index 286e68e..7398718 100644
--- a/vortex-array/src/arrow/recordbatch.rs
+++ b/vortex-array/src/arrow/recordbatch.rs
@@ -1,7 +1,7 @@
 use arrow_array::cast::as_struct_array;
-use arrow_array::RecordBatch;
+use arrow_array::{Array as _, RecordBatch};
 use itertools::Itertools;
-use vortex_error::{vortex_err, VortexError, VortexResult};
+use vortex_error::{vortex_bail, vortex_err, VortexError, VortexResult};
 
 use crate::array::StructArray;
 use crate::arrow::FromArrowArray;
@@ -51,6 +51,9 @@ impl TryFrom<StructArray> for RecordBatch {
     fn try_from(value: StructArray) -> VortexResult<Self> {
         let array_ref = value.into_canonical()?.into_arrow()?;
         let struct_array = as_struct_array(array_ref.as_ref());
+        if struct_array.null_count() > 0 {
+            vortex_bail!("RecordBatch cannot represent the null rows of a StructArray");
+        }
         Ok(Self::from(struct_array))
     }
 }
-- 
2.43.0


From 5df44f996e4f09d36103663c3e630e9ced5adb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 80/88] fix: keep the timezone of a timestamp scalar on its way
 to Arrow

---
 vortex-scalar/src/arrow.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/vortex-scalar/src/arrow.rs b/vortex-scalar/src/arrow.rs
index 9a02462..36edd96 100644
--- a/vortex-scalar/src/arrow.rs
+++ b/vortex-scalar/src/arrow.rs
@@ -16,6 +16,14 @@ macro_rules! value_to_arrow_scalar {
     };
 }
 
+macro_rules! timestamp_to_arrow_scalar {
+    ($V:expr, $AR:ty, $TZ:expr) => {
+        Ok(std::sync::Arc::new(arrow_array::Scalar::new(
+            <$AR>::from(vec![$V]).with_timezone_opt($TZ.clone()),
+        )))
+    };
+}
+
 impl TryFrom<&Scalar> for Arc<dyn Datum> {
     type Error = VortexError;
 
@@ -101,22 +109,26 @@ impl TryFrom<&Scalar> for Arc<dyn Datum> {
                             }
                             _ => vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id()),
                         },
-                        TemporalMetadata::Timestamp(u, _) => match u {
-                            TimeUnit::Ns => value_to_arrow_scalar!(
+                        TemporalMetadata::Timestamp(u, tz) => match u {
+                            TimeUnit::Ns => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
-                                TimestampNanosecondArray
+                                TimestampNanosecondArray,
+                                tz
                             ),
-                            TimeUnit::Us => value_to_arrow_scalar!(
+                            TimeUnit::Us => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
-                                TimestampMicrosecondArray
+                                TimestampMicrosecondArray,
+                                tz
                             ),
-                            TimeUnit::Ms => value_to_arrow_scalar!(
+                            TimeUnit::Ms => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
-                                TimestampMillisecondArray
+                                TimestampMillisecondArray,
+                                tz
                             ),
-                            TimeUnit::S => value_to_arrow_scalar!(
+                            TimeUnit::S => timestamp_to_arrow_scalar!(
                                 pv.and_then(|p| p.as_i64()),
-                                TimestampSecondArray
+                                TimestampSecondArray,
+                                tz
                             ),
                             TimeUnit::D => {
                                 vortex_bail!("Unsupported TimeUnit {u} for {}", ext.id())
-- 
2.43.0


From c62b54e7f58048bd1ca05c5baeb377b796dea206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 81/88] fix: a null scalar becomes an Arrow scalar and not an
 array of one null

---
 vortex-scalar/src/arrow.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vortex-scalar/src/arrow.rs b/vortex-scalar/src/arrow.rs
index 36edd96..538ccfc 100644
--- a/vortex-scalar/src/arrow.rs
+++ b/vortex-scalar/src/arrow.rs
@@ -29,23 +29,23 @@ impl TryFrom<&Scalar> for Arc<dyn Datum> {
 
     fn try_from(value: &Scalar) -> Result<Arc<dyn Datum>, Self::Error> {
         match value.dtype() {
-            DType::Null => Ok(Arc::new(NullArray::new(1))),
+            DType::Null => Ok(Arc::new(arrow_array::Scalar::new(NullArray::new(1)))),
             DType::Bool(_) => value_to_arrow_scalar!(value.value.as_bool()?, BooleanArray),
             DType::Primitive(ptype, _) => {
                 let pvalue = value.value.as_pvalue()?;
                 Ok(match pvalue {
                     None => match ptype {
-                        PType::U8 => Arc::new(UInt8Array::new_null(1)),
-                        PType::U16 => Arc::new(UInt16Array::new_null(1)),
-                        PType::U32 => Arc::new(UInt32Array::new_null(1)),
-                        PType::U64 => Arc::new(UInt64Array::new_null(1)),
-                        PType::I8 => Arc::new(Int8Array::new_null(1)),
-                        PType::I16 => Arc::new(Int16Array::new_null(1)),
-                        PType::I32 => Arc::new(Int32Array::new_null(1)),
-                        PType::I64 => Arc::new(Int64Array::new_null(1)),
-                        PType::F16 => Arc::new(Float16Array::new_null(1)),
-                        PType::F32 => Arc::new(Float32Array::new_null(1)),
-                        PType::F64 => Arc::new(Float64Array::new_null(1)),
+                        PType::U8 => Arc::new(arrow_array::Scalar::new(UInt8Array::new_null(1))),
+                        PType::U16 => Arc::new(arrow_array::Scalar::new(UInt16Array::new_null(1))),
+                        PType::U32 => Arc::new(arrow_array::Scalar::new(UInt32Array::new_null(1))),
+                        PType::U64 => Arc::new(arrow_array::Scalar::new(UInt64Array::new_null(1))),
+                        PType::I8 => Arc::new(arrow_array::Scalar::new(Int8Array::new_null(1))),
+                        PType::I16 => Arc::new(arrow_array::Scalar::new(Int16Array::new_null(1))),
+                        PType::I32 => Arc::new(arrow_array::Scalar::new(Int32Array::new_null(1))),
+                        PType::I64 => Arc::new(arrow_array::Scalar::new(Int64Array::new_null(1))),
+                        PType::F16 => Arc::new(arrow_array::Scalar::new(Float16Array::new_null(1))),
+                        PType::F32 => Arc::new(arrow_array::Scalar::new(Float32Array::new_null(1))),
+                        PType::F64 => Arc::new(arrow_array::Scalar::new(Float64Array::new_null(1))),
                     },
                     Some(pvalue) => match pvalue {
                         PValue::U8(v) => Arc::new(UInt8Array::new_scalar(v)),
-- 
2.43.0


From 0f48d1d11c00c5be158ee6f2a770d17faa6cf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 82/88] fix: do not select rows for which a pushed down filter
 is null

---
 vortex-datafusion/src/plans.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vortex-datafusion/src/plans.rs b/vortex-datafusion/src/plans.rs
index 92097dd..76fa624 100644
--- a/vortex-datafusion/src/plans.rs
+++ b/vortex-datafusion/src/plans.rs
@@ -169,12 +169,15 @@ impl Stream for RowIndicesStream {
             .into_canonical()?
             .into_arrow()?;
 
+        // Rows for which the filter is null are not selected.
+        let selection = selection.as_boolean();
+        let selected = match arrow_array::Array::nulls(selection) {
+            None => selection.values().clone(),
+            Some(nulls) => selection.values() & nulls.inner(),
+        };
+
         // Convert the `selection` BooleanArray into a UInt64Array of indices.
-        let selection_indices = selection
-            .as_boolean()
-            .values()
-            .set_indices()
-            .map(|idx| idx as u64);
+        let selection_indices = selected.set_indices().map(|idx| idx as u64);
 
         let indices = Arc::new(UInt64Array::from_iter_values(selection_indices)) as ArrayRef;
         let indices_batch = RecordBatch::try_new(ROW_SELECTOR_SCHEMA_REF.clone(), vec![indices])?;
-- 
2.43.0


From 08b51f4769a48c87c7ba40267d205ad44d1e9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 83/88] fix: evaluate a column of a struct in any encoding

---
 vortex-expr/src/column.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vortex-expr/src/column.rs b/vortex-expr/src/column.rs
index d663b9b..b6eacc1 100644
--- a/vortex-expr/src/column.rs
+++ b/vortex-expr/src/column.rs
@@ -1,8 +1,6 @@
 use std::any::Any;
 use std::collections::HashSet;
 
-use vortex::array::StructArray;
-use vortex::variants::StructArrayTrait;
 use vortex::Array;
 use vortex_dtype::field::Field;
 use vortex_error::{vortex_err, VortexResult};
@@ -42,13 +40,17 @@ impl VortexExpr for Column {
     }
 
     fn evaluate(&self, batch: &Array) -> VortexResult<Array> {
-        let s = StructArray::try_from(batch)?;
+        batch.with_dyn(|a| {
+            let s = a
+                .as_struct_array()
+                .ok_or_else(|| vortex_err!("Not a struct array"))?;
 
-        match &self.field {
-            Field::Name(n) => s.field_by_name(n),
-            Field::Index(i) => s.field(*i),
-        }
-        .ok_or_else(|| vortex_err!("Array doesn't contain child array {}", self.field))
+            match &self.field {
+                Field::Name(n) => s.field_by_name(n),
+                Field::Index(i) => s.field(*i),
+            }
+            .ok_or_else(|| vortex_err!("Array doesn't contain child array {}", self.field))
+        })
     }
 
     fn collect_references<'a>(&'a self, references: &mut HashSet<&'a Field>) {
-- 
2.43.0


From e934ad46691010b8d824cb4f0e86c15dacd8e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 84/88] fix: count the rows of a Vortex file in DataFusion

---
 vortex-datafusion/src/persistent/opener.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/vortex-datafusion/src/persistent/opener.rs b/vortex-datafusion/src/persistent/opener.rs
index 73e1ea0..0dffaf0 100644
--- a/vortex-datafusion/src/persistent/opener.rs
+++ b/vortex-datafusion/src/persistent/opener.rs
@@ -8,6 +8,7 @@ use datafusion_physical_expr::PhysicalExpr;
 use futures::{FutureExt as _, StreamExt, TryStreamExt};
 use object_store::ObjectStore;
 use vortex::Context;
+use vortex_error::VortexError;
 use vortex_expr::datafusion::convert_expr_to_vortex;
 use vortex_serde::io::ObjectStoreReadAt;
 use vortex_serde::layouts::{
@@ -48,17 +49,28 @@ impl FileOpener for VortexFileOpener {
             builder = builder.with_row_filter(row_filter);
         }
 
-        if let Some(projection) = self.projection.as_ref() {
+        // A file cannot be read without columns: read one of them for the number of rows.
+        let no_columns = self.projection.as_ref().is_some_and(|p| p.is_empty());
+        if no_columns {
+            builder = builder.with_projection(Projection::new([0]));
+        } else if let Some(projection) = self.projection.as_ref() {
             builder = builder.with_projection(Projection::new(projection));
         }
 
-        Ok(async {
+        Ok(async move {
             Ok(Box::pin(
                 builder
                     .build()
                     .await?
                     .map_ok(RecordBatch::try_from)
-                    .map(|r| r.and_then(|inner| inner))
+                    .map(move |r| {
+                        let batch = r.and_then(|inner| inner)?;
+                        if no_columns {
+                            Ok::<_, VortexError>(batch.project(&[])?)
+                        } else {
+                            Ok(batch)
+                        }
+                    })
                     .map_err(|e| e.into()),
             ) as _)
         }
-- 
2.43.0


From 07e0e183d38f6ea5672df60fcfa8446349c89acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 85/88] fix: do not push down OR over columns with nulls, which
 Vortex evaluates differently

---
 vortex-datafusion/src/lib.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index e731766..bb1a499 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -158,12 +158,26 @@ impl SessionContextExt for SessionContext {
 
 fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     match expr {
-        Expr::BinaryExpr(expr)
-            if expr.op.is_logic_operator() || SUPPORTED_BINARY_OPS.contains(&expr.op) =>
-        {
+        // A row is dropped alike whether a conjunction is null or false.
+        Expr::BinaryExpr(expr) if expr.op == Operator::And => {
             can_be_pushed_down(expr.left.as_ref(), schema)
                 & can_be_pushed_down(expr.right.as_ref(), schema)
         }
+        _ => can_be_evaluated(expr, schema),
+    }
+}
+
+/// Whether Vortex evaluates the expression to the same value as DataFusion, nulls included.
+fn can_be_evaluated(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        Expr::BinaryExpr(binary)
+            if binary.op.is_logic_operator() || SUPPORTED_BINARY_OPS.contains(&binary.op) =>
+        {
+            // Vortex and/or propagate nulls, where those of SQL follow Kleene logic.
+            (!binary.op.is_logic_operator() || !can_be_null(expr, schema))
+                && can_be_evaluated(binary.left.as_ref(), schema)
+                && can_be_evaluated(binary.right.as_ref(), schema)
+        }
         Expr::Column(col) => match schema.column_with_name(col.name()) {
             Some((_, field)) => supported_data_types(field.data_type().clone()),
             _ => false,
@@ -173,6 +187,19 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     }
 }
 
+fn can_be_null(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        Expr::BinaryExpr(expr) => {
+            can_be_null(expr.left.as_ref(), schema) || can_be_null(expr.right.as_ref(), schema)
+        }
+        Expr::Column(col) => schema
+            .column_with_name(col.name())
+            .map_or(true, |(_, field)| field.is_nullable()),
+        Expr::Literal(lit) => lit.is_null(),
+        _ => true,
+    }
+}
+
 /// Physical plan node for scans against an in-memory, possibly chunked Vortex Array.
 #[derive(Clone)]
 struct VortexScanExec {
-- 
2.43.0


From 72a935d934700a8de0c97e60d1873f0e9f38b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:51 +0000
Subject: [PATCH 86/88] verif-hooks: observable lock for the statistics cache
 (feature verif-hooks of vortex-array)

---
 vortex-array/Cargo.toml         |   1 +
 vortex-array/src/data.rs        |   6 +-
 vortex-array/src/lib.rs         |   2 +
 vortex-array/src/verif_hooks.rs | 165 ++++++++++++++++++++++++++++++++
 4 files changed, 173 insertions(+), 1 deletion(-)
 create mode 100644 vortex-array/src/verif_hooks.rs

diff --git a/vortex-array/Cargo.toml b/vortex-array/Cargo.toml
index 32ed554..a67703d 100644
--- a/vortex-array/Cargo.toml
+++ b/vortex-array/Cargo.toml
@@ -55,6 +55,7 @@ vortex-scalar = { workspace = true }
 
 [features]
 default = ["flatbuffers", "serde"]
+verif-hooks = []
 arbitrary = ["dep:arbitrary", "vortex-dtype/arbitrary"]
 flatbuffers = [
     "dep:flatbuffers",
diff --git a/vortex-array/src/data.rs b/vortex-array/src/data.rs
index 9deb597..be840ed 100644
--- a/vortex-array/src/data.rs
+++ b/vortex-array/src/data.rs
@@ -1,4 +1,6 @@
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+#[cfg(not(feature = "verif-hooks"))]
+use std::sync::RwLock;
 
 use vortex_buffer::Buffer;
 use vortex_dtype::DType;
@@ -7,6 +9,8 @@ use vortex_scalar::Scalar;
 
 use crate::encoding::EncodingRef;
 use crate::stats::{Stat, Statistics, StatsSet};
+#[cfg(feature = "verif-hooks")]
+use crate::verif_hooks::RwLock;
 use crate::{Array, ArrayDType, ArrayMetadata, ToArray};
 
 /// Owned [`Array`] with serialized metadata, backed by heap-allocated memory.
diff --git a/vortex-array/src/lib.rs b/vortex-array/src/lib.rs
index 4827dcb..9c0eaa5 100644
--- a/vortex-array/src/lib.rs
+++ b/vortex-array/src/lib.rs
@@ -53,6 +53,8 @@ mod tree;
 mod typed;
 pub mod validity;
 pub mod variants;
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks;
 mod view;
 
 pub mod flatbuffers {
diff --git a/vortex-array/src/verif_hooks.rs b/vortex-array/src/verif_hooks.rs
new file mode 100644
index 0000000..60d788a
--- /dev/null
+++ b/vortex-array/src/verif_hooks.rs
@@ -0,0 +1,165 @@
+//! A lock that tells a verification harness what its clients do (feature `verif-hooks`).
+//!
+//! The harness decides at every event which thread runs next; a thread it does not control
+//! uses the lock like the one of the standard library.
+
+use std::fmt::{Debug, Formatter};
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// What a thread is about to do, or has done, with the lock at an address.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum LockEvent {
+    /// About to acquire the lock
+    Try,
+    /// Could not acquire the lock
+    Blocked,
+    /// Holds the lock for writing
+    Held,
+    /// No longer holds the lock
+    Released,
+}
+
+/// Called at every event; says whether the harness controls the calling thread.
+pub type Hook = fn(LockEvent, usize) -> bool;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Install the hook, once per process.
+pub fn set_hook(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+fn event(event: LockEvent, lock: usize) -> bool {
+    HOOK.get().is_some_and(|hook| hook(event, lock))
+}
+
+/// A [`std::sync::RwLock`] with events.
+#[derive(Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T: Debug> Debug for RwLock<T> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        Debug::fmt(&self.0, f)
+    }
+}
+
+/// A guard of either kind.
+pub struct Guard<G> {
+    guard: Option<G>,
+    lock: usize,
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+
+    #[allow(clippy::unwrap_used)]
+    fn deref(&self) -> &Self::Target {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    #[allow(clippy::unwrap_used)]
+    fn deref_mut(&mut self) -> &mut Self::Target {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<G> Drop for Guard<G> {
+    fn drop(&mut self) {
+        self.guard = None;
+        event(LockEvent::Released, self.lock);
+    }
+}
+
+/// See [`std::sync::RwLockReadGuard`]
+pub type RwLockReadGuard<'a, T> = Guard<std::sync::RwLockReadGuard<'a, T>>;
+/// See [`std::sync::RwLockWriteGuard`]
+pub type RwLockWriteGuard<'a, T> = Guard<std::sync::RwLockWriteGuard<'a, T>>;
+
+impl<T> RwLock<T> {
+    /// See [`std::sync::RwLock::new`]
+    pub fn new(value: T) -> Self {
+        Self(std::sync::RwLock::new(value))
+    }
+
+    fn id(&self) -> usize {
+        &self.0 as *const std::sync::RwLock<T> as usize
+    }
+
+    fn guard<G>(&self, result: LockResult<G>, write: bool) -> LockResult<Guard<G>> {
+        let wrap = |guard| Guard {
+            guard: Some(guard),
+            lock: self.id(),
+        };
+        let result = match result {
+            Ok(guard) => Ok(wrap(guard)),
+            Err(e) => Err(PoisonError::new(wrap(e.into_inner()))),
+        };
+        if write {
+            event(LockEvent::Held, self.id());
+        }
+        result
+    }
+
+    fn acquire<'a, G>(
+        &'a self,
+        attempt: impl Fn(&'a std::sync::RwLock<T>) -> TryLockResult<G>,
+        wait: impl Fn(&'a std::sync::RwLock<T>) -> LockResult<G>,
+        write: bool,
+    ) -> LockResult<Guard<G>> {
+        if !event(LockEvent::Try, self.id()) {
+            return self.guard(wait(&self.0), write);
+        }
+        loop {
+            match attempt(&self.0) {
+                Ok(guard) => return self.guard(Ok(guard), write),
+                Err(TryLockError::Poisoned(e)) => return self.guard(Err(e), write),
+                Err(TryLockError::WouldBlock) => {
+                    event(LockEvent::Blocked, self.id());
+                }
+            }
+        }
+    }
+
+    /// See [`std::sync::RwLock::read`]
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        self.acquire(|l| l.try_read(), |l| l.read(), false)
+    }
+
+    /// See [`std::sync::RwLock::write`]
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        self.acquire(|l| l.try_write(), |l| l.write(), true)
+    }
+
+    fn attempt<G>(&self, result: TryLockResult<G>, write: bool) -> TryLockResult<Guard<G>> {
+        match result {
+            Ok(guard) => Ok(self.guard(Ok(guard), write)?),
+            Err(TryLockError::Poisoned(e)) => Ok(self.guard(Err(e), write)?),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    /// See [`std::sync::RwLock::try_read`]
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        event(LockEvent::Try, self.id());
+        self.attempt(self.0.try_read(), false)
+    }
+
+    /// See [`std::sync::RwLock::try_write`]
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        event(LockEvent::Try, self.id());
+        self.attempt(self.0.try_write(), true)
+    }
+
+    /// See [`std::sync::RwLock::get_mut`]
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    /// See [`std::sync::RwLock::into_inner`]
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0


From 4177aee7b6b505107f983fe1899f944ad4ad636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 87/88] fix: scalar_at of an ALP array has the data type of the
 array

---
 encodings/alp/src/alp/compute.rs              | 4 +++-
 encodings/alp/src/alp_rd/compute/scalar_at.rs | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index 6237cb7..a1765bd 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -42,7 +42,9 @@ impl ScalarAtFn for ALPArray {
         if let Some(patches) = self.patches() {
             if patches.with_dyn(|a| a.is_valid(index)) {
                 // We need to make sure the value is actually in the patches array
-                return scalar_at_unchecked(&patches, index);
+                // Patches are always nullable, the array might not be
+                let patch = scalar_at_unchecked(&patches, index);
+                return Scalar::new(self.dtype().clone(), patch.into_value());
             }
         }
 
diff --git a/encodings/alp/src/alp_rd/compute/scalar_at.rs b/encodings/alp/src/alp_rd/compute/scalar_at.rs
index a6c42b6..a8717ec 100644
--- a/encodings/alp/src/alp_rd/compute/scalar_at.rs
+++ b/encodings/alp/src/alp_rd/compute/scalar_at.rs
@@ -1,4 +1,5 @@
 use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::ArrayDType;
 use vortex_error::{VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -22,11 +23,11 @@ impl ScalarAtFn for ALPRDArray {
         if self.is_f32() {
             let right: u32 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f32::from_bits((left as u32) << self.right_bit_width() | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         } else {
             let right: u64 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f64::from_bits(((left as u64) << self.right_bit_width()) | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         }
     }
 
-- 
2.43.0


From 417783f0907bd098b1b64269f64ce9bca050a6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 88/88] fix: LayoutWriter flushes the sink before it reports a
 finished file

---
 vortex-serde/src/layouts/write/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 58502f8..3932df8 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -194,6 +194,7 @@ impl<W: VortexWrite> LayoutWriter<W> {
         eof[0..2].copy_from_slice(&VERSION.to_le_bytes());
         eof[4..8].copy_from_slice(&MAGIC_BYTES);
         w.write_all(eof).await?;
+        w.flush().await?;
         Ok(w)
     }
 }
-- 
2.43.0

