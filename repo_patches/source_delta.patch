From af0db9a01c5ede31d5958513a8ef744a1574f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 01/21] fix: keep accumulators whose first component equals the
 default

NumPyCombiner discarded a whole accumulator when only its first
sub-accumulator equalled the default value, so e.g. tft.max lost batches made
of +inf only (and tft.min/max of such a dataset were wrong).
---
 tensorflow_transform/analyzers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 2caa9ad..6a73335 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -286,6 +286,12 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def _is_default_sub_accumulator(self, array):
         raise NotImplementedError("Implementation should be set in __init__.")
 
+    def _is_default_accumulator(self, accumulator):
+        # A single sub-accumulator may legitimately reduce to the default value
+        # (e.g. the negated minimum of a batch containing only +inf), so all of
+        # them need to be checked.
+        return all(self._is_default_sub_accumulator(sub) for sub in accumulator)
+
     def create_accumulator(self):
         return [self._create_sub_accumulator(shape) for shape in self._output_shapes]
 
@@ -300,9 +306,9 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def add_input(self, accumulator, batch_values):
         # TODO(b/112414577): Go back to accepting only a single input.
         # See comment in _numeric_combine.
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
-        if self._is_default_sub_accumulator(accumulator[0]):
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
+        if self._is_default_accumulator(accumulator):
             return batch_values
         else:
             return [
@@ -311,12 +317,12 @@ class NumPyCombiner(analyzer_nodes.Combiner):
             ]
 
     def merge_accumulators(self, accumulators):
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
         non_default_accumulators = [
             accumulator
             for accumulator in accumulators
-            if not self._is_default_sub_accumulator(accumulator[0])
+            if not self._is_default_accumulator(accumulator)
         ]
         if non_default_accumulators:
             return [
-- 
2.43.0


From eb5f1b8d7a5e6729c895901fc8a106296505e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 02/21] fix: include the op type in the analyzer cache hash

Operations with equal attributes but different types (e.g. x + y and x * y)
got the same cache key, so cached accumulators of one were reused for the
other.
---
 tensorflow_transform/graph_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 0792016..d486d3f 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -953,7 +953,9 @@ def describe_path_as_analyzer_cache_hash(
         return None
 
     if isinstance(x, tf.Operation):
-        values = _serialize_op_attr(x.node_def.attr)
+        # The op type is needed since distinct ops may have equal attributes, e.g.
+        # x + y and x * y.
+        values = [x.type] + _serialize_op_attr(x.node_def.attr)
     elif isinstance(x, tf.Tensor):
         # No need to add x.op to the hash since that should be included in parents.
         values = [tf.compat.as_str_any(x.value_index)]
-- 
2.43.0


From 4618ee2ba24b2ea98ca5291803f228da64c70006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 03/21] fix: bucketize_per_key with a single boundary per key
 ignored the key's own boundary

---
 tensorflow_transform/mappers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index aede2b6..542e077 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -2128,12 +2128,23 @@ def _apply_buckets_with_keys(
 
         transformed_x = x_values * scale_factors + shifts
 
+        max_bucket = num_buckets - 1
+
+        # With a single boundary per key all keys share that (only) boundary, so
+        # the values must not be offset by their key index.
+        transformed_x -= tf.cast(
+            tf.where(
+                tf.equal(max_bucket, 1),
+                adjusted_key_indices,
+                tf.zeros_like(adjusted_key_indices),
+            ),
+            transformed_x.dtype,
+        )
+
         offset_buckets = tf_utils.assign_buckets(
             transformed_x, bucket_boundaries, side=tf_utils.Side.RIGHT
         )
 
-        max_bucket = num_buckets - 1
-
         # Shift the bucket numbers back to the correct range [0, num_buckets].
         # We use max_bucket-1 due to different keys sharing 1 boundary.
         corrected_buckets = offset_buckets - ((max_bucket - 1) * adjusted_key_indices)
-- 
2.43.0


From ae7b9d8b450ac836329b4bfdace6cd749805c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 04/21] fix: tf-idf and document frequency with a vocabulary of
 one term

---
 tensorflow_transform/experimental/mappers.py | 2 +-
 tensorflow_transform/mappers.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/experimental/mappers.py b/tensorflow_transform/experimental/mappers.py
index f9e6e89..aa23653 100644
--- a/tensorflow_transform/experimental/mappers.py
+++ b/tensorflow_transform/experimental/mappers.py
@@ -200,7 +200,7 @@ def document_frequency(
         # df_values is a batch_size * sequence_size sparse tensor storing the
         # document frequency of each term, following the same order as the terms
         # within each document.
-        df_values = tf.gather(tf.squeeze(all_df), cleaned_input.values)
+        df_values = tf.gather(tf.reshape(all_df, [-1]), cleaned_input.values)
 
         return tf.SparseTensor(
             indices=cleaned_input.indices,
diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index 542e077..5a19301 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -967,7 +967,7 @@ def _to_tfidf(
     idf = tf_utils.document_frequency_to_idf(
         reduced_term_freq, corpus_size, smooth=smooth, add_baseline=True
     )
-    gathered_idfs = tf.gather(tf.squeeze(idf), term_frequency.indices[:, 1])
+    gathered_idfs = tf.gather(tf.reshape(idf, [-1]), term_frequency.indices[:, 1])
     tfidf_values = tf.cast(term_frequency.values, tf.float32) * tf.cast(
         gathered_idfs, tf.float32
     )
-- 
2.43.0


From 5cbd140fcc92f7fe6e6f637f3500d3928a5ffe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 05/21] fix: reported vocabulary size with reserved tokens that
 occur in the data

The reserved tokens are written once, so the size must not count a reserved
token that is also part of the input twice, nor a placeholder entry when only
reserved tokens are written.
---
 tensorflow_transform/analyzers.py           | 15 ++++-----
 tensorflow_transform/beam/analyzer_impls.py | 34 ++++++++++++++++-----
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 6a73335..391dcd6 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2281,13 +2281,10 @@ def _vocabulary_analyzer_nodes(
         input_dtype=input_dtype,
     )
 
-    reserved_tokens_size = 0
-    extra_apply_order_and_write_op_args = []
+    reserved_tokens_args = []
     if reserved_tokens is not None:
-        reserved_tokens_size = tf_utils.register_vocabulary_reserved_tokens(
-            vocab_filename, reserved_tokens
-        )
-        extra_apply_order_and_write_op_args.append(
+        tf_utils.register_vocabulary_reserved_tokens(vocab_filename, reserved_tokens)
+        reserved_tokens_args.append(
             nodes.apply_operation(
                 analyzer_nodes.ExtractVocabularyReservedTokens, name=vocab_filename
             )
@@ -2296,7 +2293,7 @@ def _vocabulary_analyzer_nodes(
     vocab_filename_node = nodes.apply_operation(
         analyzer_nodes.VocabularyOrderAndWrite,
         filtered_value_node,
-        *extra_apply_order_and_write_op_args,
+        *reserved_tokens_args,
         vocab_filename=vocab_filename,
         store_frequency=store_frequency,
         fingerprint_shuffle=fingerprint_shuffle,
@@ -2313,6 +2310,7 @@ def _vocabulary_analyzer_nodes(
     unfiltered_vocab_size_node = nodes.apply_operation(
         analyzer_nodes.VocabularyCount,
         merge_output_value_node,
+        *reserved_tokens_args,
         label=f"VocabularyCountUnfiltered[{scope}]",
     )
     unfiltered_vocab_size = analyzer_nodes.bind_future_as_tensor(
@@ -2323,6 +2321,7 @@ def _vocabulary_analyzer_nodes(
     filtered_vocab_size_node = nodes.apply_operation(
         analyzer_nodes.VocabularyCount,
         filtered_value_node,
+        *reserved_tokens_args,
         label=f"VocabularyCountFiltered[{scope}]",
     )
     filtered_vocab_size = analyzer_nodes.bind_future_as_tensor(
@@ -2331,8 +2330,6 @@ def _vocabulary_analyzer_nodes(
         name=f"{vocab_filename}_pruned_vocab_size",
     )
 
-    unfiltered_vocab_size += reserved_tokens_size
-    filtered_vocab_size += reserved_tokens_size
     _maybe_annotate_vocab_metadata(
         vocab_filename, unfiltered_vocab_size, filtered_vocab_size
     )
diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 88be5ef..4828873 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -331,8 +331,16 @@ class _VocabularyAccumulateImpl(beam.PTransform):
         return result
 
 
+def _is_not_reserved_token(count_and_token, reserved_tokens):
+    _, token = count_and_token
+    (reserved_tokens,) = reserved_tokens
+    return tf.compat.as_bytes(tf.compat.as_str_any(token)) not in set(reserved_tokens)
+
+
 @common.register_ptransform(analyzer_nodes.VocabularyCount)
-@beam.typehints.with_input_types(KV[_VocabIndicatorType, _VocabTokenType])
+@beam.typehints.with_input_types(
+    Union[List[np.ndarray], KV[_VocabIndicatorType, _VocabTokenType]]
+)
 @beam.typehints.with_output_types(np.int64)
 class _VocabularyCountImpl(beam.PTransform):
     """Counts the total number of tokens in the vocabulary."""
@@ -346,14 +354,24 @@ class _VocabularyCountImpl(beam.PTransform):
         # TODO(b/62272023) remove this workaround if/when fixed on tensorflow.
         return np.int64(np.maximum(count, 1))
 
-    def expand(self, inputs):
-        (pcoll,) = inputs
+    def _add_reserved_tokens_count(self, count, reserved_tokens):
+        (reserved_tokens,) = reserved_tokens
+        return count + len(reserved_tokens)
 
-        return (
-            pcoll
-            | "TotalVocabSize" >> beam.combiners.Count.Globally()
-            | "FormatCount" >> beam.Map(self._format_count)
-        )
+    def expand(self, inputs):
+        pcoll, *reserved_tokens = inputs
+        if reserved_tokens:
+            # Reserved tokens are written once even if they are part of the input.
+            reserved_tokens = beam.pvalue.AsSingleton(reserved_tokens[0])
+            pcoll |= "FilterReservedTokens" >> beam.Filter(
+                _is_not_reserved_token, reserved_tokens=reserved_tokens
+            )
+        count = pcoll | "TotalVocabSize" >> beam.combiners.Count.Globally()
+        if reserved_tokens:
+            count |= "AddReservedTokens" >> beam.Map(
+                self._add_reserved_tokens_count, reserved_tokens=reserved_tokens
+            )
+        return count | "FormatCount" >> beam.Map(self._format_count)
 
 
 @common.register_ptransform(analyzer_nodes.VocabularyMerge)
-- 
2.43.0


From 2f2a3aada6005762f8446be81320170dc6aa94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 06/21] fix: include the combiner's accumulator parameters in
 the analysis cache key

---
 tensorflow_transform/analyzer_nodes.py              | 11 ++++++++++-
 tensorflow_transform/analyzers.py                   |  8 ++++++++
 tensorflow_transform/beam/analysis_graph_builder.py |  5 +++++
 tensorflow_transform/experimental/analyzers.py      |  4 ++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/analyzer_nodes.py b/tensorflow_transform/analyzer_nodes.py
index 9ecb077..c7f06a9 100644
--- a/tensorflow_transform/analyzer_nodes.py
+++ b/tensorflow_transform/analyzer_nodes.py
@@ -26,7 +26,7 @@ import json
 import os
 import struct
 import uuid
-from typing import Any, Optional, Sequence, Type
+from typing import Any, Optional, Sequence, Tuple, Type
 
 import numpy as np
 import tensorflow as tf
@@ -416,6 +416,15 @@ class Combiner:
     def accumulator_coder(self):
         return JsonNumpyCacheCoder()
 
+    @property
+    def accumulator_params(self) -> Tuple[Any, ...]:
+        """Constructor parameters that determine the accumulators.
+
+        Accumulators of combiners of the same class are interchangeable only if
+        these are equal. They are a part of the analysis cache key.
+        """
+        return ()
+
 
 class CacheCoder(metaclass=abc.ABCMeta):
     """A coder iterface for encoding and decoding cache items."""
diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 391dcd6..7123551 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2424,6 +2424,10 @@ class QuantilesCombiner(analyzer_nodes.Combiner):
             self._output_shape = output_shape
         self._num_features = np.prod(feature_shape, dtype=np.int64).item()
 
+    @property
+    def accumulator_params(self):
+        return (self._epsilon, self._max_num_values, self._num_features)
+
     def create_accumulator(self):
         return sketches.QuantilesSketch(
             self._epsilon, self._max_num_values, self._num_features
@@ -2660,6 +2664,10 @@ class CovarianceCombiner(analyzer_nodes.Combiner):
         self._output_shape = output_shape
         self._numpy_dtype = numpy_dtype
 
+    @property
+    def accumulator_params(self):
+        return (self._output_shape[0], np.dtype(self._numpy_dtype).name)
+
     def create_accumulator(self):
         """Create an accumulator with all zero entries."""
         return [
diff --git a/tensorflow_transform/beam/analysis_graph_builder.py b/tensorflow_transform/beam/analysis_graph_builder.py
index ee2fccd..2e5fa9c 100644
--- a/tensorflow_transform/beam/analysis_graph_builder.py
+++ b/tensorflow_transform/beam/analysis_graph_builder.py
@@ -252,6 +252,11 @@ class _OptimizeVisitor(nodes.Visitor):
                 paths_to_hash.append(
                     tf.compat.as_bytes(str((field, operation_def.get_field_str(field))))
                 )
+                value = getattr(operation_def, field)
+                if isinstance(value, analyzer_nodes.Combiner):
+                    paths_to_hash.append(
+                        tf.compat.as_bytes(str(value.accumulator_params))
+                    )
 
         hash_container = hashlib.sha1()
         for path in paths_to_hash:
diff --git a/tensorflow_transform/experimental/analyzers.py b/tensorflow_transform/experimental/analyzers.py
index 1de0735..63edaf4 100644
--- a/tensorflow_transform/experimental/analyzers.py
+++ b/tensorflow_transform/experimental/analyzers.py
@@ -538,6 +538,10 @@ class _VocabularyCombiner(analyzer_nodes.Combiner):
         self._input_dtype = input_dtype
         self._output_pylist = output_pylist
 
+    @property
+    def accumulator_params(self) -> Tuple[Any, ...]:
+        return (self._top_k,)
+
     def create_accumulator(self) -> sketches.MisraGriesSketch:
         return sketches.MisraGriesSketch(
             self._top_k,
-- 
2.43.0


From cc067a5daf6bcb88bb23a6825361a94967291a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 07/21] fix: refuse CSV values that would be dropped, keep
 single falsy array values

---
 tensorflow_transform/coders/csv_coder.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/coders/csv_coder.py b/tensorflow_transform/coders/csv_coder.py
index 0774c7c..d7118cd 100644
--- a/tensorflow_transform/coders/csv_coder.py
+++ b/tensorflow_transform/coders/csv_coder.py
@@ -82,6 +82,11 @@ class _FixedLenFeatureHandler:
 
         if self._encoder:
             string_list[self._index] = self._encoder.encode_record(flattened_values)
+        elif self._size != 1:
+            raise ValueError(
+                'FixedLenFeature "{}" has {} values but is not one of the multivalent '
+                "columns".format(self._name, self._size)
+            )
         else:
             string_list[self._index] = _to_string(flattened_values[0])
 
@@ -108,8 +113,15 @@ class _VarLenFeatureHandler:
         """Encode the value of this feature into the CSV line."""
         if self._encoder:
             string_list[self._index] = self._encoder.encode_record(values)
+        elif values is None or len(values) == 0:
+            string_list[self._index] = ""
+        elif len(values) > 1:
+            raise ValueError(
+                'VarLenFeature "{}" got {} values but is not one of the multivalent '
+                "columns".format(self._name, len(values))
+            )
         else:
-            string_list[self._index] = _to_string(values[0]) if values else ""
+            string_list[self._index] = _to_string(values[0])
 
 
 class CsvCoder:
-- 
2.43.0


From 195c1c118d2642bcfbee71cf66d75c91174084e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 08/21] fix: publish a transform output as one version, also
 when a failed publish is retried

---
 .../beam/tft_beam_io/transform_fn_io.py       | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py b/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py
index a3a9f92..42009ad 100644
--- a/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py
+++ b/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py
@@ -110,15 +110,27 @@ class WriteTransformFn(beam.PTransform):
             if not tf.io.gfile.exists(self._path):
                 tf.io.gfile.makedirs(self._path)
 
-            if tf.io.gfile.exists(metadata_path):
-                tf.io.gfile.rmtree(metadata_path)
-            tf.io.gfile.rename(metadata_source_path, metadata_path, overwrite=True)
-
-            if tf.io.gfile.exists(transform_fn_path):
-                tf.io.gfile.rmtree(transform_fn_path)
-            tf.io.gfile.rename(
-                transform_fn_source_path, transform_fn_path, overwrite=True
-            )
+            # A failed attempt may have moved the metadata already, so a missing
+            # source is only an error if nothing was published in its place. An
+            # earlier output is removed first so that its graph can never be
+            # loaded together with the new metadata.
+            if tf.io.gfile.exists(metadata_source_path) or not tf.io.gfile.exists(
+                metadata_path
+            ):
+                if tf.io.gfile.exists(transform_fn_path):
+                    tf.io.gfile.rmtree(transform_fn_path)
+                if tf.io.gfile.exists(metadata_path):
+                    tf.io.gfile.rmtree(metadata_path)
+                tf.io.gfile.rename(metadata_source_path, metadata_path, overwrite=True)
+
+            if tf.io.gfile.exists(transform_fn_source_path) or not tf.io.gfile.exists(
+                transform_fn_path
+            ):
+                if tf.io.gfile.exists(transform_fn_path):
+                    tf.io.gfile.rmtree(transform_fn_path)
+                tf.io.gfile.rename(
+                    transform_fn_source_path, transform_fn_path, overwrite=True
+                )
 
             # TODO(b/211615643): Remove the exists check once importing TFIO in S3
             # addresses NotFoundError.
-- 
2.43.0


From 8114c876444427b81ee68d0449ee32ca80c3b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 09/21] fix: drop an asset map left by metadata written to the
 same path before

---
 .../beam/tft_beam_io/beam_metadata_io.py            | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/beam/tft_beam_io/beam_metadata_io.py b/tensorflow_transform/beam/tft_beam_io/beam_metadata_io.py
index 8182f97..21e7e9b 100644
--- a/tensorflow_transform/beam/tft_beam_io/beam_metadata_io.py
+++ b/tensorflow_transform/beam/tft_beam_io/beam_metadata_io.py
@@ -95,14 +95,15 @@ class WriteMetadata(beam.PTransform):
             if self._write_to_unique_subdirectory:
                 output_path = common.get_unique_temp_path(self._path)
             metadata_io.write_metadata(metadata, output_path)
+            asset_map_path = os.path.join(
+                output_path, output_wrapper.TFTransformOutput.ASSET_MAP
+            )
             if asset_map:
-                with tf.io.gfile.GFile(
-                    os.path.join(
-                        output_path, output_wrapper.TFTransformOutput.ASSET_MAP
-                    ),
-                    "w",
-                ) as f:
+                with tf.io.gfile.GFile(asset_map_path, "w") as f:
                     f.write(json.dumps(asset_map))
+            elif tf.io.gfile.exists(asset_map_path):
+                # Left by metadata written to the same path before.
+                tf.io.gfile.remove(asset_map_path)
             return output_path
 
         return metadata_pcoll | "WriteMetadata" >> beam.Map(write_metadata_output)
-- 
2.43.0


From 7208e98a0c55819bda2d7b19b460aeb8a0a6f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 10/21] fix: ptransform_analyzer treats None in
 output_asset_default_values as not an asset

A None item is documented to mean that the output is not an asset path,
but every item was wrapped in a TemporaryAssetInfo, so that mixing asset
and other outputs in one analyzer failed.
---
 tensorflow_transform/experimental/analyzers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorflow_transform/experimental/analyzers.py b/tensorflow_transform/experimental/analyzers.py
index 63edaf4..29e7b26 100644
--- a/tensorflow_transform/experimental/analyzers.py
+++ b/tensorflow_transform/experimental/analyzers.py
@@ -284,6 +284,8 @@ def ptransform_analyzer(
             )
         output_asset_default_values = [
             analyzer_nodes.TemporaryAssetInfo(value, "text")
+            if value is not None
+            else None
             for value in output_asset_default_values
         ]
     else:
-- 
2.43.0


From 65aec7d28f8c6dab88f49e98c771584cbc4e1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 11/21] fix: per-key scalers with key_vocabulary_filename on
 sparse, ragged and empty inputs

The looked up ranges were aligned with the dense shape of x, which sparse and
ragged inputs do not have, and a batch without any key gave a tensor without
columns.
---
 tensorflow_transform/mappers.py  |  8 +++----
 tensorflow_transform/tf_utils.py | 40 +++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index 5a19301..a990888 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -412,8 +412,8 @@ def _scale_by_min_max_internal(
                 raise NotImplementedError(
                     "Elementwise scaling does not support key_vocabulary_filename"
                 )
-            minus_min_max_for_key = tf_utils.apply_per_key_vocabulary(
-                key_values, key, target_ndims=x.get_shape().ndims
+            minus_min_max_for_key = tf_utils.apply_per_key_vocabulary_to_input(
+                key_values, key, x
             )
             min_x_value, max_x_value = (
                 -minus_min_max_for_key[:, 0],
@@ -695,8 +695,8 @@ def _scale_to_z_score_internal(
                 raise NotImplementedError(
                     "Elementwise scaling does not support key_vocabulary_filename"
                 )
-            mean_var_for_key = tf_utils.apply_per_key_vocabulary(
-                mean_and_var_per_key_result, key, target_ndims=x.get_shape().ndims
+            mean_var_for_key = tf_utils.apply_per_key_vocabulary_to_input(
+                mean_and_var_per_key_result, key, x
             )
             x_mean, x_var = (mean_var_for_key[:, 0], mean_var_for_key[:, 1])
 
diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 2876c16..0897415 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1047,7 +1047,18 @@ def apply_per_key_vocabulary(
     )
 
     sparse_result = tf.compat.v1.strings.split(table_lookup, sep=",")
-    dense_result = tf.sparse.to_dense(sparse_result, "0")
+    # An empty batch of keys has no entry to tell the number of values from.
+    num_values = len(default_value.split(","))
+    dense_shape = tf.concat(
+        [
+            sparse_result.dense_shape[:-1],
+            tf.maximum(sparse_result.dense_shape[-1:], num_values),
+        ],
+        axis=0,
+    )
+    dense_result = tf.sparse.to_dense(
+        tf.SparseTensor(sparse_result.indices, sparse_result.values, dense_shape), "0"
+    )
     # Add 0s where dense_result has empty strings.
     number_strings = tf.where(
         tf.strings.length(dense_result) > 0,
@@ -1060,6 +1071,33 @@ def apply_per_key_vocabulary(
     return numbers if not target_ndims else _align_dims(numbers, target_ndims + 1)
 
 
+def apply_per_key_vocabulary_to_input(
+    per_key_filename: tf.Tensor,
+    key: common_types.TensorType,
+    original_input: common_types.TensorType,
+) -> tf.Tensor:
+    """Apply a stored key-value mapping to the keys of an input.
+
+    Args:
+    ----
+      per_key_filename: The file name for the per-key vocabulary file.
+      key: A `Tensor` or `CompositeTensor` of dtype tf.string.
+      original_input: A `Tensor` or `CompositeTensor` that `key` belongs to.
+
+    Returns:
+    -------
+      The mapped values as given by `apply_per_key_vocabulary`. They are aligned
+      with original_input if it is dense, and with its values otherwise.
+    """
+    _, key = _validate_and_get_dense_value_key_inputs(original_input, key)
+    target_ndims = (
+        None
+        if isinstance(original_input, (tf.SparseTensor, tf.RaggedTensor))
+        else original_input.get_shape().ndims
+    )
+    return apply_per_key_vocabulary(per_key_filename, key, target_ndims=target_ndims)
+
+
 def _is_finite(x: common_types.TensorType) -> common_types.TensorType:
     """Extension of `tf.math.is_finite` that works with all dtypes."""
     if x.dtype.is_floating:
-- 
2.43.0


From 47d8996d0e331de3dae403182c221a963ba6bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:17 +0000
Subject: [PATCH 12/21] fix: feed apply_function_with_checkpoint's own
 placeholders

The inputs were mapped by the names of the original tensors, so inputs that
are not the first output of their op, two outputs of one op, or one tensor
given twice could not be imported.
---
 tensorflow_transform/pretrained_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/pretrained_models.py b/tensorflow_transform/pretrained_models.py
index c8a5ee0..8ce6918 100644
--- a/tensorflow_transform/pretrained_models.py
+++ b/tensorflow_transform/pretrained_models.py
@@ -292,7 +292,10 @@ def apply_function_with_checkpoint(fn, inputs, checkpoint, include=None, exclude
                 [tensor.op.name for tensor in output_tensors],
             )
 
-    input_map = {tensor.name: tensor for tensor in inputs}
+    input_map = {
+        placeholder.name: tensor
+        for placeholder, tensor in zip(input_placeholders, inputs)
+    }
     output_tensors = tf.import_graph_def(
         output_graph_def,
         input_map=input_map,
-- 
2.43.0


From e0db32cc1e9e2b8be4348cb9c47c71f08944cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 13/21] fix: skip cache entries that an interrupted pipeline
 did not write completely

The manifest is written when the pipeline is built, so a pipeline that stops before
its end leaves entries without (all of) their files behind. Reading them failed, or
gave a part of their content, in every later run.
---
 tensorflow_transform/beam/analyzer_cache.py | 49 +++++++++++++++++----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_cache.py b/tensorflow_transform/beam/analyzer_cache.py
index 3709a16..02c3ab6 100644
--- a/tensorflow_transform/beam/analyzer_cache.py
+++ b/tensorflow_transform/beam/analyzer_cache.py
@@ -356,8 +356,35 @@ class WriteAnalysisCacheToFS(beam.PTransform):
         return cache_is_written
 
 
+def _is_completely_written(path_prefix: str) -> bool:
+    """Whether all shards of the files with this prefix exist.
+
+    The manifest is written at pipeline construction time, so that a pipeline that
+    did not finish leaves behind entries for which some or all files are missing.
+
+    Args:
+    ----
+      path_prefix: The path that was given to the sink.
+
+    Returns:
+    -------
+      True iff exactly the files of one complete write exist.
+    """
+    shards = [
+        re.search(r"-of-(\d+)", path[len(path_prefix) :])
+        for path in tf.io.gfile.glob(f"{path_prefix}-*-of-*")
+    ]
+    return bool(shards) and all(
+        shard is not None and int(shard.group(1)) == len(shards) for shard in shards
+    )
+
+
 class ReadAnalysisCacheFromFS(beam.PTransform):
-    """Reads cache from the FS written by WriteAnalysisCacheToFS."""
+    """Reads cache from the FS written by WriteAnalysisCacheToFS.
+
+    Entries that were not written completely (because the pipeline that was to write
+    them was interrupted) are left out, unless a custom `source` is used.
+    """
 
     def __init__(
         self,
@@ -387,6 +414,7 @@ class ReadAnalysisCacheFromFS(beam.PTransform):
         )
         # TODO(b/37788560): Possibly use Riegeli as a default file format once
         # possible.
+        self._is_default_source = source is None
         self._source = source if source is not None else beam.io.ReadFromTFRecord
 
     def _should_read_cache_entry_key(self, key: str) -> bool:
@@ -411,14 +439,19 @@ class ReadAnalysisCacheFromFS(beam.PTransform):
             dataset_id = f"AnalysisIndex{dataset_key_idx}"
             cache_dict = {}
             for key, cache_key_idx in manifest.items():
-                if self._should_read_cache_entry_key(key):
-                    cache_dict[key] = (
-                        pipeline
-                        | f"Read[{dataset_id}]][CacheKeyIndex{cache_key_idx}]"
-                        >> self._source(
-                            f"{os.path.join(dataset_cache_path, str(cache_key_idx))}-*-of-*"
-                        )
+                if not self._should_read_cache_entry_key(key):
+                    continue
+                path = os.path.join(dataset_cache_path, str(cache_key_idx))
+                if self._is_default_source and not _is_completely_written(path):
+                    tf.compat.v1.logging.warning(
+                        "Ignoring incomplete analysis cache entry %s", path
                     )
+                    continue
+                cache_dict[key] = (
+                    pipeline
+                    | f"Read[{dataset_id}]][CacheKeyIndex{cache_key_idx}]"
+                    >> self._source(f"{path}-*-of-*")
+                )
             metadata = pipeline | f"ReadMetadata[{dataset_id}]" >> _ReadMetadata(
                 dataset_cache_path
             )
-- 
2.43.0


From 3e2b5d891ef891c8952f424df7e2ebe69a10957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 14/21] fix: add up narrow integers in the output type of
 tft.sum

The sum of a batch was computed in the type of the input, so that it overflowed
(int8, int16, int32, uint8, uint16, float16) although the output type is wide
enough, and the result depended on how rows were batched.
---
 tensorflow_transform/analyzers.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 7123551..e547fd9 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -706,19 +706,25 @@ def sum(  # pylint: disable=redefined-builtin
       TypeError: If the type of `x` is not supported.
     """
     with tf.compat.v1.name_scope(name, "sum"):
-        if reduce_instance_dims:
-            x = tf.reduce_sum(input_tensor=tf_utils.get_values(x))
-        elif isinstance(x, tf.SparseTensor):
+        # Values are cast before they are added up, so that sums of batches don't
+        # overflow types that are narrower than the output type.
+        sum_dtype = x.dtype
+        if not reduce_instance_dims and isinstance(x, tf.SparseTensor):
             if x.dtype == tf.uint8 or x.dtype == tf.uint16:
-                x = tf.cast(x, tf.int64)
+                sum_dtype = tf.int64
             elif x.dtype == tf.uint32 or x.dtype == tf.uint64:
                 raise TypeError("Data type %r is not supported" % x.dtype)
-            x = tf.sparse.reduce_sum(x, axis=0)
+        output_dtype, sum_fn = _sum_combine_fn_and_dtype(sum_dtype)
+        if reduce_instance_dims:
+            x = tf.reduce_sum(
+                input_tensor=tf.cast(tf_utils.get_values(x), output_dtype)
+            )
+        elif isinstance(x, tf.SparseTensor):
+            x = tf.sparse.reduce_sum(tf.cast(x, output_dtype), axis=0)
         elif isinstance(x, tf.RaggedTensor):
             raise NotImplementedError("Elementwise sum does not support RaggedTensors.")
         else:
-            x = tf.reduce_sum(input_tensor=x, axis=0)
-        output_dtype, sum_fn = _sum_combine_fn_and_dtype(x.dtype)
+            x = tf.reduce_sum(input_tensor=tf.cast(x, output_dtype), axis=0)
         return _numeric_combine(
             inputs=[x],
             fn=sum_fn,
-- 
2.43.0


From 350fa04fcce118e3928499f7559db2a22378d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:19 +0000
Subject: [PATCH 15/21] fix: never reuse the file names of analyzer cache
 entries whose manifest was lost

---
 tensorflow_transform/beam/analyzer_cache.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_cache.py b/tensorflow_transform/beam/analyzer_cache.py
index 02c3ab6..dce3341 100644
--- a/tensorflow_transform/beam/analyzer_cache.py
+++ b/tensorflow_transform/beam/analyzer_cache.py
@@ -17,7 +17,7 @@ import os
 import pickle
 import re
 import sys
-from typing import Iterable, List, Mapping, Optional, Tuple, Union
+from typing import Iterable, List, Mapping, Optional, Set, Tuple, Union
 
 import apache_beam as beam
 import tensorflow as tf
@@ -249,6 +249,15 @@ class _ReadMetadata(beam.PTransform):
             )
 
 
+def _get_file_indices(dataset_cache_path: str) -> Set[int]:
+    """Returns the indices of the cache entries with files in the given path."""
+    matches = (
+        re.match(r"(\d+)", file_name)
+        for file_name in tf.io.gfile.listdir(dataset_cache_path)
+    )
+    return {int(match.group(1)) for match in matches if match}
+
+
 class WriteAnalysisCacheToFS(beam.PTransform):
     """Writes a cache object that can be read by ReadAnalysisCacheFromFS.
 
@@ -300,7 +309,10 @@ class WriteAnalysisCacheToFS(beam.PTransform):
 
     def _write_cache(self, manifest_file, dataset_key_index, dataset_key_dir, cache):
         manifest = manifest_file.read()
-        start_cache_idx = max(manifest.values()) + 1 if manifest else 0
+        # Files that the manifest doesn't list may have been left behind by pipelines
+        # that were interrupted, and must not be taken for those of new entries.
+        cache_indices = set(manifest.values()) | _get_file_indices(dataset_key_dir)
+        start_cache_idx = max(cache_indices) + 1 if cache_indices else 0
 
         dataset_identifier = f"AnalysisIndex{dataset_key_index}"
         cache_is_written = []
-- 
2.43.0


From eb6958cae827ed14d133a4c7a511fbd069ba9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:04 +0000
Subject: [PATCH 16/21] fix: make deep_copy clone PCollections that are reached
 by paths of different lengths

---
 tensorflow_transform/beam/deep_copy.py | 64 +++++++++++---------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/tensorflow_transform/beam/deep_copy.py b/tensorflow_transform/beam/deep_copy.py
index 1207502..72ab2dc 100644
--- a/tensorflow_transform/beam/deep_copy.py
+++ b/tensorflow_transform/beam/deep_copy.py
@@ -24,7 +24,6 @@ _MATERIALIZATION_BARRIER_TRANSFORMS as a materialization boundary for this
 purpose.
 """
 
-import queue
 import re
 
 import apache_beam as beam
@@ -83,50 +82,43 @@ def _get_items_to_clone(pcollection):
       ValueError: if the input PCollection is invalid.
     """
     assert isinstance(pcollection, PCollection)
-    # List of items (either PCollection or PTransform, in reverse dependency
-    # order (i.e. here, consumers occur before producers).
-    reversed_to_clone = []
-    # Queue of PCollections to be processed in traversal of pipeline graph.
-    to_process = queue.Queue()
-    # Set of items (PCollections and PTransforms) already seen during pipeline
-    # graph traversal.
+    # List of items (either PCollection or PTransform) in dependency order.
+    to_clone = []
+    # Stack of items for a depth-first traversal of the pipeline graph: PCollections
+    # to be visited, and PTransforms all inputs of which have been visited once they
+    # are popped.
+    to_process = [pcollection]
+    # Set of PTransforms already seen during pipeline graph traversal.
     seen = set()
 
-    to_process.put(pcollection)
-    seen.add(pcollection)
-    while not to_process.empty():
-        current_pcollection = to_process.get()
+    while to_process:
+        current = to_process.pop()
+        if isinstance(current, beam_pipeline.AppliedPTransform):
+            to_clone.append(current)
+            for output in current.outputs.values():
+                assert isinstance(output, PCollection), output
+                to_clone.append(output)
+            continue
 
         # Stop if we have reached the beginning of the pipeline, or at a
         # materialization boundary.
-        if isinstance(
-            current_pcollection, pvalue.PBegin
-        ) or _is_at_materialization_boundary(current_pcollection):
+        if isinstance(current, pvalue.PBegin) or _is_at_materialization_boundary(
+            current
+        ):
             continue
 
-        reversed_to_clone.append(current_pcollection)
-        applied_transform = current_pcollection.producer
+        applied_transform = current.producer
         if applied_transform is None:
-            raise ValueError(
-                "PCollection node has invalid producer: %s" % current_pcollection
-            )
+            raise ValueError("PCollection node has invalid producer: %s" % current)
 
-        # Visit the input PCollection(s), and also add other outputs of that applied
-        # PTransform.
-        if applied_transform in seen:
-            continue
-        for output in applied_transform.outputs.values():
-            assert isinstance(output, PCollection), output
-            if output not in seen:
-                reversed_to_clone.append(output)
-        seen.add(applied_transform)
-        reversed_to_clone.append(applied_transform)
-        for input_pcollection in applied_transform.inputs:
-            if input_pcollection not in seen:
-                to_process.put(input_pcollection)
-                seen.add(input_pcollection)
-
-    return list(reversed(reversed_to_clone))
+        # Visit the input PCollection(s) before the applied PTransform and all of its
+        # outputs.
+        if applied_transform not in seen:
+            seen.add(applied_transform)
+            to_process.append(applied_transform)
+            to_process.extend(applied_transform.inputs)
+
+    return to_clone
 
 
 def _clone_items(pipeline, to_clone):
-- 
2.43.0


From c20d93660c5d2825e4c40f7d4b9f4ad12c1718dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:57 +0000
Subject: [PATCH 17/21] fix: keep the names of tracked objects apart from the
 attributes of the exported module

---
 tensorflow_transform/annotators.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tensorflow_transform/annotators.py b/tensorflow_transform/annotators.py
index 553c9c8..3d5920f 100644
--- a/tensorflow_transform/annotators.py
+++ b/tensorflow_transform/annotators.py
@@ -38,6 +38,13 @@ _OBJECT_TRACKER = None
 VOCABULARY_SIZE_BY_NAME_COLLECTION = "tft_vocabulary_size_by_name_collection"
 
 
+def _get_attribute_name(name: str) -> str:
+    """Returns the module attribute that holds the object tracked as `name`."""
+    # The prefix keeps names apart from the other attributes of the module, e.g.
+    # `name`, `variables` and those set when it is exported.
+    return f"tracked_object_{name}"
+
+
 class ObjectTracker:
     """A class that tracks a list of trackable objects."""
 
@@ -66,12 +73,13 @@ class ObjectTracker:
                     "`preprocessing_fn` is invoked within a `TFGraphContext` with a "
                     "valid `TFGraphContext.module_to_export`."
                 )
-            if hasattr(module, name):
+            attribute_name = _get_attribute_name(name)
+            if hasattr(module, attribute_name):
                 raise ValueError(
                     f"An object with name {name} is already being tracked. Check that a "
                     "unique name was passed."
                 )
-            setattr(module, name, trackable_object)
+            setattr(module, attribute_name, trackable_object)
 
 
 # Thread-Hostile
@@ -111,7 +119,7 @@ def _get_object(name: str) -> Optional[base.Trackable]:
             " invoked within a `TFGraphContext` with a valid "
             "`TFGraphContext.module_to_export`."
         )
-    return getattr(module, name, None)
+    return getattr(module, _get_attribute_name(name), None)
 
 
 # Thread-Hostile
-- 
2.43.0


From 8d433bc1ef5507c1b8000aa5f5a1530b450daee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:28 +0000
Subject: [PATCH 18/21] fix: look up a vocabulary by its own name before names
 in other scopes

get_asset_annotations strips scopes from asset keys, so that a vocabulary
v was replaced by a later a/v.
---
 tensorflow_transform/annotators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorflow_transform/annotators.py b/tensorflow_transform/annotators.py
index 3d5920f..105b794 100644
--- a/tensorflow_transform/annotators.py
+++ b/tensorflow_transform/annotators.py
@@ -216,10 +216,14 @@ def get_asset_annotations(graph: tf.Graph):
     assert len(asset_key_collection) == len(
         asset_filename_collection
     ), "Length of asset key and filename collections must match."
-    # Remove scope.
+    # Remove scope. Keys without one are handled last, so that they are never taken
+    # over by a key in some scope that ends like them.
+    items = sorted(
+        zip(asset_key_collection, asset_filename_collection),
+        key=lambda item: os.path.basename(item[0]) == item[0],
+    )
     annotations = {
-        os.path.basename(key): os.path.basename(filename)
-        for key, filename in zip(asset_key_collection, asset_filename_collection)
+        os.path.basename(key): os.path.basename(filename) for key, filename in items
     }
     return annotations
 
-- 
2.43.0


From b5167391c953452aa0634ee0ca6f8e4115c37116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:29 +0000
Subject: [PATCH 19/21] fix: annotate all outputs that share a tensor in the
 TF2 schema

Of several outputs that are one tensor, only the last one got its domain,
annotations and sparse shape.
---
 tensorflow_transform/schema_inference.py | 39 ++++++++++++------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/tensorflow_transform/schema_inference.py b/tensorflow_transform/schema_inference.py
index ebd3ece..89e225a 100644
--- a/tensorflow_transform/schema_inference.py
+++ b/tensorflow_transform/schema_inference.py
@@ -668,18 +668,18 @@ def _get_schema_annotations_common(tensor_annotation_keys, type_urls, proto_valu
     return tensor_annotations, global_annotations
 
 
-def _get_tensor_value_to_key_map(features_dict):
-    """Get reverse map from name of tensor values to key in `features_dict`."""
-    result = {}
+def _get_tensor_value_to_keys_map(features_dict):
+    """Get reverse map from name of tensor values to the keys that share them."""
+    result = collections.defaultdict(list)
     for key, tensor in features_dict.items():
         values = _get_tensor_values(tensor)
-        result[values.name] = key
+        result[values.name].append(key)
     return result
 
 
 def _get_schema_overrides(
     graph,
-    tensor_name_to_key_map,
+    tensor_name_to_keys_map,
     tensor_collection_key,
     overrides_keys,
     default_tensor_name=None,
@@ -687,16 +687,16 @@ def _get_schema_overrides(
     """Obtain schema overrides from graph collections.
 
     For every tensor in the `tensor_collection_key` collection, the corresponding
-    feature name is in `tensor_name_to_key_map` and its schema overrides are in
+    feature names are in `tensor_name_to_keys_map` and their schema overrides are in
     the graph collections defined by keys in `overrides_keys`.
-    If a tensor does not exist in `tensor_name_to_key_map` but its name starts
+    If a tensor does not exist in `tensor_name_to_keys_map` but its name starts
     with `default_tensor_name` (if provided), the overrides are returned with this
     key.
 
     Args:
     ----
       graph: A `FuncGraph`.
-      tensor_name_to_key_map: A dictionary from tensor name to output feature key.
+      tensor_name_to_keys_map: A dictionary from tensor name to output feature keys.
       tensor_collection_key: Key for the graph collection that contains list of
         tensors to annotate.
       overrides_keys: A list of graph collection keys that contain schema
@@ -722,8 +722,8 @@ def _get_schema_overrides(
             f" {overrides_list}"
         )
     for tensor, overrides_tuple in zip(tensors, zip(*overrides_list)):
-        if tensor.name in tensor_name_to_key_map:
-            result[tensor_collection_key].append(tensor_name_to_key_map[tensor.name])
+        if tensor.name in tensor_name_to_keys_map:
+            keys = tensor_name_to_keys_map[tensor.name]
         else:
             if default_tensor_name is None:
                 continue
@@ -731,15 +731,16 @@ def _get_schema_overrides(
             if tensor.dtype == tf.string and tensor_name.startswith(
                 default_tensor_name
             ):
-                result[tensor_collection_key].append(default_tensor_name)
+                keys = [default_tensor_name]
             else:
                 continue
 
-        # If a feature name was added to the result list for tensor_collection_key,
-        # add its annotations as well.
+        # For every feature name added to the result list for
+        # tensor_collection_key, add its annotations as well.
+        result[tensor_collection_key].extend(keys)
         assert len(overrides_keys) == len(overrides_tuple)
         for overrides_key, override in zip(overrides_keys, overrides_tuple):
-            result[overrides_key].append(override)
+            result[overrides_key].extend([override] * len(keys))
     return result
 
 
@@ -791,7 +792,7 @@ def get_traced_metadata_fn(
             transformed_features = preprocessing_fn(inputs)
 
         # Get a map from tensor value names to feature keys.
-        reversed_features = _get_tensor_value_to_key_map(transformed_features)
+        reversed_features = _get_tensor_value_to_keys_map(transformed_features)
 
         result = collections.defaultdict(list)
         if not evaluate_schema_overrides:
@@ -800,7 +801,7 @@ def get_traced_metadata_fn(
             )
             for tensor in schema_override_tensors:
                 if tensor.name in reversed_features:
-                    result[_TF_METADATA_TENSOR_COLLECTION].append(
+                    result[_TF_METADATA_TENSOR_COLLECTION].extend(
                         reversed_features[tensor.name]
                     )
         else:
@@ -916,11 +917,11 @@ def _get_sparse_output_annotations_v1(
 
 
 def _get_sparse_output_annotations_v2(
-    graph: tf.compat.v1.Graph, tensor_to_feature_names: Dict[str, str]
+    graph: tf.compat.v1.Graph, tensor_to_feature_names: Dict[str, List[str]]
 ) -> Dict[str, List[Union[str, tf.Tensor]]]:
     annotations = _get_sparse_output_annotations(graph)
     result = {}
     for tensor, v in annotations:
-        if tensor.name in tensor_to_feature_names:
-            result[tensor_to_feature_names[tensor.name]] = v
+        for feature_name in tensor_to_feature_names.get(tensor.name, ()):
+            result[feature_name] = v
     return result
-- 
2.43.0


From 6584c5270dea40405f4fb2aff4a5fd61b0b1e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:00 +0000
Subject: [PATCH 20/21] fix: do not share the output format between transformed
 datasets

TransformDataset recorded whether it outputs record batches on the metadata of
the transform function, so that transforming another dataset in the other
format broke EncodeTransformedDataset for the first one.
---
 tensorflow_transform/beam/impl.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/beam/impl.py b/tensorflow_transform/beam/impl.py
index 1f82bc7..eeb7d16 100644
--- a/tensorflow_transform/beam/impl.py
+++ b/tensorflow_transform/beam/impl.py
@@ -1687,12 +1687,20 @@ class TransformDataset(beam.PTransform):
                 output_metadata.deferred_metadata
                 | "GetDeferredSchema" >> beam.Map(lambda m: m.schema)
             )
-            output_dataset_metadata = output_metadata.dataset_metadata
+            # The given metadata may be shared with other transformed datasets, which
+            # may have another format.
+            output_dataset_metadata = copy.copy(output_metadata.dataset_metadata)
+            output_metadata = beam_metadata_io.BeamDatasetMetadata(
+                output_dataset_metadata,
+                output_metadata.deferred_metadata,
+                output_metadata.asset_map,
+            )
         else:
             deferred_schema = self.pipeline | "CreateDeferredSchema" >> beam.Create(
                 [output_metadata.schema]
             )
-            output_dataset_metadata = output_metadata
+            output_dataset_metadata = copy.copy(output_metadata)
+            output_metadata = output_dataset_metadata
         output_dataset_metadata._output_record_batches = self._output_record_batches  # pylint: disable=protected-access
 
         # Increment input metrics.
-- 
2.43.0


From 87260d72b8224afaf2ad28f291e11f9417ecfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:00 +0000
Subject: [PATCH 21/21] fix: encode datasets transformed by a transform
 function that was read

EncodeTransformedDataset only accepted metadata with a deferred schema, which
ReadTransformFn does not give.
---
 tensorflow_transform/beam/impl.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tensorflow_transform/beam/impl.py b/tensorflow_transform/beam/impl.py
index eeb7d16..0789cf0 100644
--- a/tensorflow_transform/beam/impl.py
+++ b/tensorflow_transform/beam/impl.py
@@ -1824,12 +1824,20 @@ class EncodeTransformedDataset(beam.PTransform):
     def expand(self, transformed_data_and_metadata):
         transformed_data, transformed_metadata = transformed_data_and_metadata
 
-        deferred_schema = (
-            transformed_metadata.deferred_metadata
-            | "GetDeferredSchema" >> beam.Map(lambda m: m.schema)
-        )
+        if isinstance(transformed_metadata, beam_metadata_io.BeamDatasetMetadata):
+            deferred_schema = (
+                transformed_metadata.deferred_metadata
+                | "GetDeferredSchema" >> beam.Map(lambda m: m.schema)
+            )
+            transformed_dataset_metadata = transformed_metadata.dataset_metadata
+        else:
+            deferred_schema = (
+                transformed_data.pipeline
+                | "CreateDeferredSchema" >> beam.Create([transformed_metadata.schema])
+            )
+            transformed_dataset_metadata = transformed_metadata
 
-        if transformed_metadata.dataset_metadata._output_record_batches:  # pylint: disable=protected-access
+        if transformed_dataset_metadata._output_record_batches:  # pylint: disable=protected-access
             transformed_data_coder_pcol = (
                 deferred_schema
                 | "RecordBatchToExamplesEncoder"
-- 
2.43.0

