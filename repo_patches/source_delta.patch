From 9661de16baa63f3290bb859c09cf40a6f23a7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 01/19] fix: InplaceLogicalAndWithOffsets must not touch memory
 for empty ranges

With bitmaps_size == 0 and lhs_skip > rhs_skip == 0 the rhs bitmap has no
words, but rhs[0] was read (and lhs[0] written).
---
 arolla/util/algorithms.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/util/algorithms.h b/arolla/util/algorithms.h
index 6554720..4a5efbb 100644
--- a/arolla/util/algorithms.h
+++ b/arolla/util/algorithms.h
@@ -156,6 +156,9 @@ void InplaceLogicalAndWithOffsets(
   DCHECK_GE(lhs_skip, 0);
   DCHECK_LT(rhs_skip, bits_per_word);
   DCHECK_GE(rhs_skip, 0);
+  if (bitmaps_size == 0) {
+    return;
+  }
   size_t rhs_words =
       (bitmaps_size + rhs_skip + bits_per_word - 1) / bits_per_word;
   size_t lhs_words =
-- 
2.43.0


From ef3669f32a5622c3c8af915d1bd80922e0b32cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 02/19] fix: exp_lower_bound must not advance its iterator past
 the end

The probe iterator was advanced before checking that the range is long
enough; for forward iterators (e.g. std::forward_list with 4 elements and
an answer near the end) that walks off the list.
---
 arolla/util/algorithms.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/util/algorithms.h b/arolla/util/algorithms.h
index 4a5efbb..150e1a0 100644
--- a/arolla/util/algorithms.h
+++ b/arolla/util/algorithms.h
@@ -43,6 +43,9 @@ inline FwdIter exp_lower_bound(FwdIter first, FwdIter last, const T& val,
       // Continue exponential search on tail
       first = ++it;
       count -= step;
+      if (2 * step >= count) {
+        break;  // Do not advance `it` past the end of the range.
+      }
       std::advance(it, step);
       step *= 2;
     } else {
-- 
2.43.0


From a51087266491b588aa36aabf8b730e0f0c335e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 03/19] fix: keep bash from expanding $ in arguments of
 build-time function calls

---
 arolla/codegen/utils.bzl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/utils.bzl b/arolla/codegen/utils.bzl
index 3ec7775..8ec0f0d 100644
--- a/arolla/codegen/utils.bzl
+++ b/arolla/codegen/utils.bzl
@@ -173,7 +173,10 @@ def is_python_function_call(x):
 
 def encode_call_python_function(fn):
     """Returns CLI representation of the function and stripping unnecessary info."""
-    return bash_escape_wo_make_vars(json.encode(_maybe_strip_deps_and_data(fn)))
+    escaped = bash_escape_wo_make_vars(json.encode(_maybe_strip_deps_and_data(fn)))
+
+    # After Bazel's expansion `$$` becomes `$`: keep bash from expanding it too.
+    return escaped.replace("$$", "\\$$")
 
 # Deps of //arolla/codegen:eval_python_function_call. We can avoid calling
 # make_build_script if no new deps are added.
-- 
2.43.0


From 4824fce366f1d49acd8b26f1f26f9c3fb59576b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 04/19] fix: quote environment values of build-time function
 calls

---
 arolla/codegen/utils.bzl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/codegen/utils.bzl b/arolla/codegen/utils.bzl
index 8ec0f0d..2cfba45 100644
--- a/arolla/codegen/utils.bzl
+++ b/arolla/codegen/utils.bzl
@@ -231,7 +231,7 @@ def python_function_call_genrule(
         name = name,
         outs = outs,
         cmd = '{env} $(execpath {generator}) --arolla_call_python_function_spec="{spec}"'.format(
-            env = " ".join(["{}={}".format(k, bash_escape(v)) for k, v in env.items()]),
+            env = " ".join(["{}=\"{}\"".format(k, bash_escape(v).replace("$$", "\\$$")) for k, v in env.items()]),
             generator = generator,
             spec = encode_call_python_function(function),
         ),
-- 
2.43.0


From ef037111394e9498c091ee99ef9f158881206e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 05/19] fix: escape a field named extern in generated protobuf
 accessors

The keyword was listed with a trailing space, so the getter of a field named
`extern` was generated without the underscore that protoc appends and the
generated C++ did not compile.
---
 arolla/codegen/io/protopath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 69813ee..5bcbb3a 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -77,7 +77,7 @@ _CPP_KEYWORDS = frozenset([
     'enum',
     'explicit',
     'export',
-    'extern ',
+    'extern',
     'false',
     'float',
     'for',
-- 
2.43.0


From 26cebbeeaed57379973c01db5a0e249335ade71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 06/19] fix: make sizes of maps below a single value path
 compile

The generated lambda that computes the size of a repeated element returned
int for a missing parent and size_t for map::size(), so protopaths such as
a/map[:]/@key or a/map[:]/@value/x produced C++ that did not compile.
---
 arolla/codegen/io/protopath.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 5bcbb3a..b2bb6ea 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -285,6 +285,11 @@ class MultipleValueElement(abc.ABC):
   def access_for_size(self) -> str:
     raise NotImplementedError()
 
+  @property
+  def zero_size(self) -> str:
+    """Returns zero of the same C++ type as the `access_for_size` expression."""
+    return '0'
+
   @abc.abstractmethod
   def resize(self, var_name: str, size: str) -> str:
     raise NotImplementedError()
@@ -443,6 +448,10 @@ class _MapKeysAccessElement(MultipleValueElement):
   def access_for_size(self) -> str:
     return f'.{self._getter}().size()'
 
+  @property
+  def zero_size(self) -> str:
+    return 'size_t{0}'
+
   def resize(self, var_name: str, size: str) -> str:
     raise ValueError("Keys access doesn't support mutability.")
 
@@ -501,6 +510,10 @@ class _MapValuesAccessElement(MultipleValueElement):
   def access_for_size(self) -> str:
     return '.' + self._getter + '().size()'
 
+  @property
+  def zero_size(self) -> str:
+    return 'size_t{0}'
+
   def resize(self, var_name: str, size: str) -> str:
     raise ValueError("Values access doesn't support resizing.")
 
@@ -1202,7 +1215,7 @@ class _SingleMultiElemPath:
           tmp_prefix=size_var + '_tmp',
           input_name=input_name,
           output_name=last_value,
-          missing_action='return 0',
+          missing_action=f'return {self._multi_elem.zero_size}',
       )  # we are inside of lambda returning size
 
     size_path = self._multi_elem.access_for_size
-- 
2.43.0


From 4c1d0e18a4e082bee1fb3b9af4a852685627c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 07/19] fix: PermanentEvent::Notify must not return before the
 event is set

---
 arolla/util/permanent_event.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arolla/util/permanent_event.h b/arolla/util/permanent_event.h
index bbfc9e1..ffdfab9 100644
--- a/arolla/util/permanent_event.h
+++ b/arolla/util/permanent_event.h
@@ -54,6 +54,10 @@ class PermanentEvent final : public RefcountedBase {
   void Notify() {
     if (!once_.test_and_set(std::memory_order_relaxed)) {
       notification_.Notify();
+    } else {
+      // Another thread may be between the lines above; the flag must be set when
+      // this call returns.
+      notification_.WaitForNotification();
     }
   }
 
-- 
2.43.0


From a5c6f111a2eb74b76da231782d0c1b9d3f1f938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 08/19] fix: reshuffle string buffers that have a base offset

A deep copied slice keeps its original offsets and a non-zero base offset.
ReshuffleBuilder wrote the rows of the default value, and the rows that are
never set, without it, so they pointed outside of the characters.
---
 arolla/memory/strings_buffer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index e2a93e5..ed0904c 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -63,8 +63,9 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
     // Due to default_value characters buffer can not be reused. So we copy the
     // buffer and add default_value at the end.
     int64_t def_value_size = default_value.value.size();
+    offset_type def_value_start = base_offset_ + characters_.size();
     offsets_bldr_.SetNConst(
-        0, max_size, {characters_.size(), def_value_size + characters_.size()});
+        0, max_size, {def_value_start, def_value_start + def_value_size});
     SimpleBuffer<char>::Builder chars_bldr(characters_.size() + def_value_size,
                                            buf_factory);
     char* data = chars_bldr.GetMutableSpan().data();
@@ -73,8 +74,7 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
                 def_value_size);
     characters_ = std::move(chars_bldr).Build();
   } else {
-    std::memset(offsets_bldr_.GetMutableSpan().begin(), 0,
-                max_size * sizeof(Offsets));
+    offsets_bldr_.SetNConst(0, max_size, {base_offset_, base_offset_});
   }
 }
 
-- 
2.43.0


From 1bb7c61a4fa67c345fc50b98089cf7a5b9e8d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 09/19] fix: VoidBuffer::Builder::GetInserter must start at the
 given offset

Build(inserter) of a Buffer<Unit> lost the rows before the inserter's offset.
---
 arolla/memory/void_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/memory/void_buffer.h b/arolla/memory/void_buffer.h
index f57ae62..c383b69 100644
--- a/arolla/memory/void_buffer.h
+++ b/arolla/memory/void_buffer.h
@@ -97,7 +97,7 @@ class VoidBuffer {
     VoidBuffer Build(int64_t size) && { return VoidBuffer(size); }
     VoidBuffer Build() && { return VoidBuffer(max_size_); }
 
-    Inserter GetInserter(int64_t offset = 0) { return Inserter(); }
+    Inserter GetInserter(int64_t offset = 0) { return Inserter{offset}; }
     VoidBuffer Build(Inserter ins) && { return VoidBuffer(ins.size); }
 
    private:
-- 
2.43.0


From 8ae8de01ca28aca8dfd2c9b9f6a705790d862b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 10/19] fix: fingerprint of a string buffer must include the
 base offset

The offsets of a buffer are relative to its base offset, so different values
(e.g. a slice of {"abcd", "ef", "gh"} and a deep copied and sliced
{"XXXX", "ab", "cdefgh"}) had the same fingerprint.
---
 arolla/memory/strings_buffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index ed0904c..e63abb5 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -207,6 +207,7 @@ void FingerprintHasherTraits<StringsBuffer>::operator()(
   // This is fine for now, but may be worth reconsidering in the future.
   hasher->Combine(value.size());
   if (!value.empty()) {
+    hasher->Combine(value.base_offset());
     auto offsets_span = value.offsets().span();
     hasher->CombineRawBytes(offsets_span.data(),
                             offsets_span.size() * sizeof(offsets_span[0]));
-- 
2.43.0


From 4996a6311ed214dd41bc266a22f6ccb614c10b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 11/19] fix: equal string buffers must have equal hashes

AbslHashValue hashed the offsets and the whole character buffer, while
operator== compares the elements.
---
 arolla/memory/strings_buffer.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/arolla/memory/strings_buffer.h b/arolla/memory/strings_buffer.h
index b531213..89317a4 100644
--- a/arolla/memory/strings_buffer.h
+++ b/arolla/memory/strings_buffer.h
@@ -291,15 +291,11 @@ class StringsBuffer {
 
   template <typename H>
   friend H AbslHashValue(H h, const StringsBuffer& buffer) {
-    // Here we hash the complete underlying character buffer even if this
-    // StringsBuffer may skip over large sections of it.
-    // This is fine for now, but may be worth reconsidering in the future.
+    // Equal buffers can have different offsets and characters, so we hash the
+    // elements.
     h = H::combine(std::move(h), buffer.size());
-    if (!buffer.empty()) {
-      auto* start = reinterpret_cast<const char*>(&*buffer.offsets().begin());
-      const size_t size = buffer.size() * sizeof(Offsets);
-      h = H::combine_contiguous(std::move(h), start, size);
-      h = H::combine(std::move(h), buffer.characters());
+    for (absl::string_view value : buffer) {
+      h = H::combine(std::move(h), value);
     }
     return h;
   }
-- 
2.43.0


From b0ccd2adf232d3e586d9e54188973b66c796636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 12/19] fix: AlmostFullBuilder::Build(size) without missed bits

The empty bitmap was sliced beyond its end, so e.g. Array::ToSparseForm of an
array with a full bitmap returned an array with an invalid one.
---
 arolla/dense_array/bitmap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arolla/dense_array/bitmap.h b/arolla/dense_array/bitmap.h
index 54fada1..dd1a173 100644
--- a/arolla/dense_array/bitmap.h
+++ b/arolla/dense_array/bitmap.h
@@ -250,6 +250,8 @@ class AlmostFullBuilder {
 
   Bitmap Build() && { return std::move(bitmap_buffer_); }
   Bitmap Build(int64_t size) && {
+    // Without missed bits there is no bitmap.
+    if (bitmap_ == nullptr) return Bitmap();
     return std::move(bitmap_buffer_).Slice(0, BitmapSize(size));
   }
 
-- 
2.43.0


From f249d23ffee99eb825d91a4fea98688b96bd9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 13/19] fix: ArraysAreEquivalent must not compare the unused
 missing_id_value of empty arrays

---
 arolla/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/array/array.h b/arolla/array/array.h
index 370efab..e5fd3dc 100644
--- a/arolla/array/array.h
+++ b/arolla/array/array.h
@@ -396,6 +396,7 @@ class AROLLA_API Array {
 template <typename T>
 bool ArraysAreEquivalent(const Array<T>& lhs, const Array<T>& rhs) {
   if (lhs.size() != rhs.size()) return false;
+  if (lhs.empty()) return true;  // missing_id_value is not used
   if (lhs.IsDenseForm() && rhs.IsDenseForm()) {
     return ArraysAreEquivalent(lhs.dense_data(), rhs.dense_data());
   }
-- 
2.43.0


From 96ca451fd4917ad6bef129e86bdfb0659eaec425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 14/19] fix: include ids_offset into the fingerprint of
 IdFilter

---
 arolla/array/id_filter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..b1e9745 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -60,7 +60,7 @@ void FingerprintHasherTraits<IdFilter>::operator()(
     FingerprintHasher* hasher, const IdFilter& value) const {
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
-    hasher->Combine(value.ids());
+    hasher->Combine(value.ids(), value.ids_offset());
   }
 }
 
-- 
2.43.0


From 22c787457cda5f6e1ad2c12e339d9d93f9e531f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 15/19] fix: array pointwise op must not report errors for rows
 that do not exist

---
 arolla/array/pointwise_op.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arolla/array/pointwise_op.h b/arolla/array/pointwise_op.h
index 7e0cadf..800de3f 100644
--- a/arolla/array/pointwise_op.h
+++ b/arolla/array/pointwise_op.h
@@ -76,6 +76,11 @@ class ArrayPointwiseOp<ResT, DenseArrayOp, PointwiseFn,
                                  id_filter, args.missing_id_value())...));
     }
 
+    if (size == 0 || id_filter.type() == IdFilter::kFull) {
+      // There are no rows with `missing_id_value`, so an error of
+      // `pointwise_fn_` on it must not be reported.
+      return Array<ResT>(size, std::move(id_filter), std::move(data));
+    }
     auto missing_id_value = pointwise_fn_(args.missing_id_value()...);
     RETURN_IF_ERROR(GetStatusOrOk(missing_id_value));
     return Array<ResT>(
-- 
2.43.0


From e0ea1e35d5c9ac2540f4bee962c09d6af0a33681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 16/19] fix: VerifyDerivedQType must check type_fields

---
 arolla/qtype/derived_qtype.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/qtype/derived_qtype.cc b/arolla/qtype/derived_qtype.cc
index f52cd69..414dc99 100644
--- a/arolla/qtype/derived_qtype.cc
+++ b/arolla/qtype/derived_qtype.cc
@@ -114,7 +114,7 @@ absl::Status VerifyDerivedQType(QTypePtr qtype) {
                       DecayDerivedQType(derived_field.GetType()) ==
                           DecayDerivedQType(base_field.GetType()));
   }
-  if (!type_layout_ok) {
+  if (!type_fields_ok) {
     return absl::FailedPreconditionError(absl::StrFormat(
         "invalid derived_qtype=%s: base_qtype=%s: incompatible type_fields",
         qtype->name(), base_qtype->name()));
-- 
2.43.0


From 72ab583d7e2c8012c6386a5179e5832b6e58fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 17/19] fix: concat/stack of a single jagged array must check
 its size

---
 arolla/jagged_shape/util/concat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arolla/jagged_shape/util/concat.h b/arolla/jagged_shape/util/concat.h
index 9dd34f5..5b4d491 100644
--- a/arolla/jagged_shape/util/concat.h
+++ b/arolla/jagged_shape/util/concat.h
@@ -387,10 +387,6 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
                    jagged_shape_internal::ConcatJaggedShapesAlongDimension(
                        array_shapes, dim, insert_concat_dim));
 
-  if (arrays.size() == 1) {
-    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
-  }
-
   for (int64_t i_array = 0; i_array < arrays.size(); ++i_array) {
     if (arrays[i_array].size() != array_shapes[i_array].size()) {
       return absl::InvalidArgumentError(absl::StrFormat(
@@ -400,6 +396,10 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
     }
   }
 
+  if (arrays.size() == 1) {
+    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
+  }
+
   const int64_t concat_dim_parent_size =
       result_jagged_shape.edges()[dim].parent_size();
 
-- 
2.43.0


From e510b8339d232679430fef68d93da548d6b194e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 18/19] fix: single-input decision forest evaluation at
 infinities and far thresholds

The values between split points were taken at (left + right) / 2, which
overflows for thresholds far from zero (float: infinity, int64: undefined
behaviour), and the values outside of the split points were taken at lowest()
and max(), which are split points themselves when a threshold is equal to them
and are not the infinities. Also a condition in [-inf, -inf] added no split
point.
---
 .../pointwise_evaluation/single_input_eval.cc | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index ad671e2..aada4b1 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -14,6 +14,7 @@
 //
 #include "arolla/decision_forest/pointwise_evaluation/single_input_eval.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <limits>
 #include <memory>
@@ -64,8 +65,7 @@ absl::Status AddSplitPoints(const SplitCondition* cond,
       if (interval_cond->left() != -inf) {
         split_points->push_back(interval_cond->left());
       }
-      if (interval_cond->right() != inf &&
-          interval_cond->right() != interval_cond->left()) {
+      if (interval_cond->right() != inf) {
         split_points->push_back(interval_cond->right());
       }
       return absl::OkStatus();
@@ -99,6 +99,21 @@ bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
   }
 }
 
+// Returns a value that is strictly between `left` and `right`, if there is one.
+// Requires: left < right.
+template <typename T>
+T ValueBetween(T left, T right) {
+  if constexpr (std::is_floating_point_v<T>) {
+    // NOTE: (left + right) / 2 can overflow, and the midpoint of a range with
+    // an infinite edge is not inside of it.
+    left = std::max(left, std::numeric_limits<T>::lowest());
+    right = std::min(right, std::numeric_limits<T>::max());
+    return left / 2 + right / 2;
+  } else {
+    return left + 1;
+  }
+}
+
 // Used only on compilation stage.
 template <typename T>
 class InternalEvaluator {
@@ -164,13 +179,18 @@ PiecewiseConstantCompiler<T>::Build(
   if (split_points.empty()) {
     middle_values.push_back(evaluator.Eval(static_cast<T>(0)));
   } else {
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::lowest()));
+    // The ranges before the first and after the last split points include the
+    // infinities, if T has them.
+    using Limits = std::numeric_limits<T>;
+    middle_values.push_back(evaluator.Eval(
+        Limits::has_infinity ? -Limits::infinity() : Limits::lowest()));
     for (int i = 1; i < split_points.size(); ++i) {
       T left = split_points[i - 1];
       T right = split_points[i];
-      middle_values.push_back(evaluator.Eval((left + right) / 2));
+      middle_values.push_back(evaluator.Eval(ValueBetween(left, right)));
     }
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::max()));
+    middle_values.push_back(evaluator.Eval(
+        Limits::has_infinity ? Limits::infinity() : Limits::max()));
   }
 
   return PiecewiseConstantEvaluator<T>(
-- 
2.43.0


From 7d6f949ee4973b28b5b17ad2d1b0b088c3f85d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:45 +0000
Subject: [PATCH 19/19] fix: do not turn negated float comparisons into
 opposite ones (NaN)

---
 .../peephole_optimizations/bool.cc            | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/arolla/expr/optimization/peephole_optimizations/bool.cc b/arolla/expr/optimization/peephole_optimizations/bool.cc
index 1acc255..2188845 100644
--- a/arolla/expr/optimization/peephole_optimizations/bool.cc
+++ b/arolla/expr/optimization/peephole_optimizations/bool.cc
@@ -32,7 +32,10 @@
 #include "arolla/expr/optimization/peephole_optimizer.h"
 #include "arolla/expr/registered_expr_operator.h"
 #include "arolla/memory/optional_value.h"
+#include "arolla/qtype/base_types.h"
+#include "arolla/qtype/qtype.h"
 #include "arolla/qtype/qtype_traits.h"
+#include "arolla/qtype/weak_qtype.h"
 #include "arolla/util/fingerprint.h"
 
 namespace arolla::expr {
@@ -62,6 +65,17 @@ constexpr std::array kComparisonOppositeOps = {
     std::pair{"bool.less", "bool.greater_equal"},
     std::pair{"bool.less_equal", "bool.greater"}};
 
+// Returns false if the values may be NaN: `less` is not the opposite of
+// `greater_equal` then.
+bool IsTotallyOrdered(const ExprNode& node) {
+  const QType* qtype = node.qtype();
+  if (qtype != nullptr && qtype->value_qtype() != nullptr) {
+    qtype = qtype->value_qtype();
+  }
+  return qtype != GetQType<float>() && qtype != GetQType<double>() &&
+         qtype != GetWeakFloatQType();
+}
+
 // Remove `bool.logical_not`:
 // 1. double negation
 // 2. around comparison operation by replacing operation with an opposite one.
@@ -82,8 +96,16 @@ absl::Status LogicalNotComparisonOptimizations(
         ExprNodePtr from,
         CallOpReference("bool.logical_not", {CallOpReference(cmp1, {a, b})}));
     ASSIGN_OR_RETURN(ExprNodePtr to, CallOpReference(cmp2, {a, b}));
-    ASSIGN_OR_RETURN(optimizations.emplace_back(),
-                     CreatePatternBasedOptimization(from, to));
+    if (cmp1 == absl::string_view("bool.less") ||
+        cmp1 == absl::string_view("bool.less_equal")) {
+      ASSIGN_OR_RETURN(optimizations.emplace_back(),
+                       CreatePatternBasedOptimization(
+                           from, to,
+                           {{"a", IsTotallyOrdered}, {"b", IsTotallyOrdered}}));
+    } else {
+      ASSIGN_OR_RETURN(optimizations.emplace_back(),
+                       CreatePatternBasedOptimization(from, to));
+    }
   }
   return absl::OkStatus();
 }
-- 
2.43.0

