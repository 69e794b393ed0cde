"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json
import os

P = []


def prop(id_, title, statement, over, qtext, why, files, mech, observe=(), state=()):
  P.append(dict(
      id=id_, title=title, statement=statement,
      quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
      anchors=dict(
          files=['tensorflow_transform/' + f for f in files],
          state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
          mechanism=[dict(name=a, where='tensorflow_transform/' + b) for a, b in mech],
          observe_at=list(observe), hook_needed=None)))


prop('A01', 'Numeric full-pass statistics equal their definition on the whole dataset',
     'For every dataset, the value an analysis computes for a minimum, maximum, sum, size, mean, variance or '
     'covariance is the mathematical definition of that statistic over all the rows of the dataset, whether the '
     'column is dense, sparse or ragged, elementwise or reduced over the instance. The value does not depend on how '
     'rows are grouped into batches, how batches are distributed over workers, or in which order and grouping partial '
     'results (including partial results of empty batches) are merged. Missing (NaN) entries are ignored exactly where documented.',
     ['inputs', 'schedules'],
     'all datasets with values in the stated bounds, all batch splits, all merge trees/orders of partial results, dense/sparse/ragged layouts, reduce_instance_dims on/off',
     'tests run one batching and whatever merge order the local runner picks, on a handful of arrays; most Beam-level tests do not even run in this environment',
     ['analyzers.py', 'tf_utils.py', 'beam/analyzer_impls.py'],
     [('NumPyCombiner / WeightedMeanAndVarCombiner / CovarianceCombiner create/add/merge/extract', 'analyzers.py'),
      ('batch-level graph reductions', 'tf_utils.py'), ('intermediate/merge accumulators over Beam', 'beam/analyzer_impls.py')],
     ['values of tft.min/max/sum/size/mean/var/covariance tensors after analysis'])

prop('A02', 'Per-key statistics equal the per-group definition for every merge order',
     'A per-key analysis (minimum, maximum, mean, variance or count per key) yields for each distinct '
     'key in the dataset exactly the statistic of the rows that carry this key, and yields no key that no row carries. '
     'The key list and the value list stay aligned, and the result does not depend on batching, worker assignment or merge order.',
     ['inputs', 'schedules'],
     'all small datasets of (key, value) rows with symbolic keys and values, all batch splits and merge orders, dense/sparse/ragged',
     'the number of key collision patterns times batchings times merge orders is not sampled by tests; most Beam-level tests cannot run here',
     ['analyzers.py', 'tf_utils.py', 'beam/analyzer_impls.py'],
     [('reduce_batch_*_per_key', 'tf_utils.py'), ('CombinePerKey / MergeAccumulatorsCombinePerKey / FormatKeys', 'beam/analyzer_impls.py'),
      ('_sum_combine_fn_and_per_key / _mean_and_var_per_key', 'analyzers.py')],
     ['values of tft.count_per_key, scale_*_per_key inputs, tft.sum/min/max per key'])

prop('A03', 'Bucketization assigns every value to the bucket its boundaries define',
     'Given ascending bucket boundaries, every value is assigned the index of the bucket containing it (0 below the first '
     'boundary, the last bucket at or above the last boundary), monotonically in the value, always within [0, number of buckets); '
     'the per-key form uses exactly the boundaries of that row\'s key. Interpolation onto boundaries is monotone, stays within [0,1] '
     'and is exact at the boundaries.',
     ['inputs'],
     'all ascending boundary vectors of bounded length and all values, including values equal to a boundary, duplicates, infinities; dense/sparse/ragged',
     'tests sample a few boundary vectors; equality with a boundary, single-bucket, missing keys and duplicate boundaries are rarely hit',
     ['mappers.py', 'tf_utils.py', 'analyzers.py'],
     [('apply_buckets / bucketize / bucketize_per_key / apply_buckets_with_interpolation', 'mappers.py'),
      ('assign_buckets / assign_buckets_all_shapes / apply_per_key_vocabulary / map_per_key_reductions', 'tf_utils.py')],
     ['output tensors of tft.bucketize, tft.apply_buckets, tft.apply_buckets_with_interpolation, tft.bucketize_per_key'])

prop('A04', 'Histogram counts partition the dataset',
     'A histogram over explicit boundaries counts every value of the dataset in exactly one bucket, so counts sum to the number of '
     'values, out-of-range values land in the first/last bucket, and each count equals the number of values between its two boundaries. '
     'A categorical histogram reports each distinct value with its exact number of occurrences. Both hold for every batching and merge order.',
     ['inputs', 'schedules'],
     'all small datasets and boundary vectors, all batch splits and merge orders',
     'tests sample few datasets, one batching',
     ['analyzers.py', 'tf_utils.py', 'mappers.py'],
     [('histogram', 'analyzers.py'), ('assign_buckets', 'tf_utils.py')],
     ['boundary and count tensors of tft.histogram'])

prop('A05', 'A vocabulary holds exactly the right tokens in the documented order',
     'The vocabulary computed for a dataset contains exactly the distinct valid tokens that survive the frequency threshold and top-k cut '
     '(plus the reserved tokens, first and in order), ordered by decreasing frequency or weight (or alphabetically where a fingerprint shuffle/'
     'ordering is not requested) with the documented tie-break. Stored frequencies equal the true (weighted) counts, and the reported vocabulary size '
     'equals the number of entries. None of this depends on batching, worker assignment or merge order.',
     ['inputs', 'schedules', 'configurations'],
     'all small token datasets (symbolic tokens and weights), all batchings/merge orders, configurations of top_k, frequency_threshold, store_frequency, weights, labels, reserved tokens, empty tokens',
     'the Beam-level vocabulary tests do not run in this environment and would only sample datasets; ties, duplicates and empties across batches are combinatorial',
     ['analyzers.py', 'tf_utils.py', 'beam/analyzer_impls.py'],
     [('vocabulary', 'analyzers.py'), ('reduce_batch_weighted_counts', 'tf_utils.py'),
      ('VocabularyAccumulate/Merge/CountDuplicates/Prune/OrderAndWrite', 'beam/analyzer_impls.py')],
     ['vocabulary asset file, vocab size tensor'])

prop('A06', 'Integerization maps a token to its vocabulary index, anything else to a default',
     'Mapping through a vocabulary returns for every token in the vocabulary its (zero-based) line index, and for every other token the default value, '
     'or with out-of-vocabulary buckets an index in [vocabulary size, vocabulary size + buckets). '
     'Every index produced lies in the integer domain the output metadata declares, and computing-and-applying a vocabulary equals computing it and applying it afterwards.',
     ['inputs', 'configurations'],
     'all small datasets and vocabularies with symbolic tokens, dense/sparse/ragged, default values, oov bucket counts, top-k/threshold pruning',
     'needs every combination of token pattern, pruning and oov configuration; Beam-level tests do not run here',
     ['mappers.py', 'tf_utils.py', 'schema_inference.py'],
     [('compute_and_apply_vocabulary / apply_vocabulary / _apply_vocabulary_internal', 'mappers.py'),
      ('construct_and_lookup_table / make_tfrecord_vocabulary_lookup_initializer', 'tf_utils.py'),
      ('set_tensor_schema_override', 'schema_inference.py')],
     ['output tensors and transformed schema of tft.compute_and_apply_vocabulary / tft.apply_vocabulary'])

prop('A07', 'Scaling outputs are the documented function of the full-pass statistics',
     'Min-max scaling maps each value affinely so the dataset minimum goes to the requested minimum and the maximum to the requested maximum, never leaving '
     'the range on the analysed dataset and following the documented fallback when the dataset is constant; z-score scaling yields (x-mean)/stddev with a '
     'documented result for zero variance. Per-key variants use precisely the statistics of the row\'s own key, and sparse/ragged layouts keep their indices/row partition.',
     ['inputs', 'configurations'],
     'all small datasets with symbolic real values and keys, all output ranges, dense/sparse/ragged, elementwise on/off',
     'tests compare a handful of arrays; constants, single rows, missing keys and negative ranges interact',
     ['mappers.py', 'tf_utils.py', 'analyzers.py'],
     [('_scale_by_min_max_internal / _scale_to_z_score_internal / *_per_key', 'mappers.py'), ('map_per_key_reductions', 'tf_utils.py')],
     ['outputs of tft.scale_by_min_max, scale_to_0_1, scale_to_z_score (+_per_key)'])

prop('A08', 'Bag-of-words, tf-idf, n-gram and sparse utilities compute their definition',
     'tf-idf gives for each (document, term) the term frequency within the document times the documented inverse document frequency over the dataset, '
     'with indices aligned and each pair once. n-grams, bag of words, word counts, per-row deduplication, segment indices and sparse-to-dense conversion return exactly what '
     'their definition says for each row, independent of the other rows in the batch.',
     ['inputs'],
     'all small documents with symbolic terms, ngram ranges, row lengths including empty rows, smoothing on/off',
     'tests sample specific documents; empty documents, repeated terms and single-term vocabularies interact',
     ['mappers.py'],
     [('tfidf / _to_tfidf / _to_term_frequency / _count_docs_with_term', 'mappers.py'),
      ('ngrams / bag_of_words / word_count / deduplicate_tensor_per_row / segment_indices / sparse_tensor_to_dense_with_shape / sparse_tensor_left_align', 'mappers.py')],
     ['outputs of tft.tfidf, tft.ngrams, tft.bag_of_words, tft.word_count, tft.deduplicate_tensor_per_row, tft.segment_indices, tft.sparse_tensor_to_dense_with_shape'])

prop('A09', 'Cached analysis gives the same result as analysing everything afresh',
     'Splitting a dataset into any number of parts, analysing them in any sequence of runs while writing and reusing per-part analysis cache, and restricting or extending the '
     'set of parts between runs, gives the same analysis result as one uncached run over exactly the rows of the requested parts. '
     'Parts whose cache is complete need not be read, and every other part is read.',
     ['histories', 'inputs'],
     'all histories of up to three runs over up to three dataset parts with symbolic rows, partially missing caches, for every kind of cacheable analysis',
     'the space of (partition, available cache subset, history) is exponential and tests check single examples; those tests cannot run in this environment',
     ['beam/analysis_graph_builder.py', 'beam/analyzer_cache.py', 'beam/analyzer_impls.py', 'analyzer_nodes.py', 'beam/impl.py'],
     [('_OptimizationTraversal / cache read & write nodes', 'beam/analysis_graph_builder.py'), ('cache coders', 'analyzer_nodes.py'),
      ('EncodeCache/DecodeCache/ InstrumentDatasetCache', 'beam/analyzer_impls.py')],
     ['analysis outputs with and without cache'])

prop('A10', 'Different computations never share an analysis cache key',
     'Two analyses that get the same cache key for the same dataset compute the same accumulator from the same rows; changing the preprocessing in any way that changes '
     'what is accumulated (operation, order of operands, constants, parameters, input column, layout) changes the key. Rebuilding the identical program gives the identical key.',
     ['programs'],
     'all pairs of preprocessing programs from a bounded program grammar; equal-key pairs are decided equivalent over all inputs',
     'quantifies over pairs of programs; tests pin a few keys',
     ['graph_tools.py', 'beam/analysis_graph_builder.py', 'analyzer_nodes.py', 'nodes.py'],
     [('describe_path_as_analyzer_cache_hash', 'graph_tools.py'), ('_make_cache_entry_key / hashing of analyzer defs', 'beam/analysis_graph_builder.py')],
     ['cache keys of get_analysis_cache_entry_keys; reuse of a stale cache'])

prop('A11', 'Accumulators survive the cache encoding unchanged',
     'Encoding any partial analysis result for the cache and decoding it again gives a partial result that merges and finishes exactly as the original would, for each kind of '
     'analysis, including special floating values, empty partial results, non-ASCII keys and vector-valued statistics.',
     ['inputs'],
     'all accumulators reachable from bounded symbolic batches for each combiner, composed with an arbitrary second accumulator',
     'tests round-trip one or two literal accumulators per coder',
     ['analyzers.py', 'analyzer_nodes.py', 'beam/analyzer_impls.py'],
     [('JsonNumpyCacheCoder and friends', 'analyzer_nodes.py'), ('_CombinerPerKeyAccumulatorCoder / cache_coder of ops', 'analyzer_nodes.py'), ('sketch coders', 'analyzers.py')],
     ['decoded accumulators'])

prop('A12', 'The cache store returns exactly what was last written for the requested datasets',
     'Writing analysis cache to a directory and reading it back for a set of datasets yields precisely the entries last written for those datasets under their original keys; distinct datasets '
     'and distinct keys never shadow one another, keys not written are absent, and rewriting an entry replaces it while entries of the dataset that are not rewritten remain. Dataset names that the documented sanitisation makes equal denote one dataset.',
     ['histories', 'inputs'],
     'all histories of up to three writes/reads over symbolic choices of datasets, keys and payloads',
     'tests do single write/read round trips with fixed names',
     ['beam/analyzer_cache.py'],
     [('WriteAnalysisCacheToFS / ReadAnalysisCacheFromFS / manifest', 'beam/analyzer_cache.py')],
     ['cache directory contents, decoded cache dict'])

prop('A13', 'Packing analyses together does not change any result',
     'Executing several analyses as one packed aggregation (including packed merging of cached partial results) gives each analysis exactly the value it has when executed on its own, in every '
     'combination of analyses, and whatever the batching and merge order.',
     ['programs', 'inputs', 'schedules'],
     'all subsets of a bounded list of packable analyses over shared/independent columns, with symbolic rows and schedules',
     'tests compare dot-graphs for fixed preprocessing functions',
     ['beam/combiner_packing_util.py', 'beam/analyzer_impls.py', 'beam/analysis_graph_builder.py'],
     [('perform_combiner_packing_optimization', 'beam/combiner_packing_util.py'), ('_PackedCombinerFn / CombinerOpWrapper', 'beam/analyzer_impls.py')],
     ['analysis outputs with packing on / off'])

prop('A14', 'Every analysis sees fully resolved inputs; column requirements are sound',
     'When an analysis depends on the results of other analyses, its input is computed with the final values of those analyses, at every nesting depth. The columns reported as needed for analysis '
     '(respectively for the transform) are sufficient: changing any other column\'s data changes no analysis result (respectively no requested output). A preprocessing function that meets its analyses (of different columns) in another order when it is traced again gets the right result for each of them or is refused.',
     ['programs', 'inputs'],
     'all programs in a bounded grammar of nested analyses; for every dataset pair that agrees on the reported columns',
     'a 2-safety property over all pairs of datasets; tests compare literal lists',
     ['graph_tools.py', 'inspect_preprocessing_fn.py', 'beam/analysis_graph_builder.py'],
     [('get_dependent_inputs / get_dependency graph analyzer', 'graph_tools.py'), ('get_analyze_input_columns / get_transform_input_columns', 'inspect_preprocessing_fn.py'),
      ('_translate_preprocessing_fn_to_nodes / phases', 'beam/analysis_graph_builder.py')],
     ['analysis outputs, transformed rows'])

prop('A15', 'The exported transform computes exactly what the pipeline computed',
     'Loading the exported transform graph and applying it to raw rows - directly, through the output wrapper or layer, inside another exported model after the transform output itself is gone, with both saved formats, with any subset of the inputs and any splitting into batches - gives '
     'for every row the same outputs the analysis pipeline\'s transform step produces with the same analysis results.',
     ['programs', 'inputs', 'configurations'],
     'all rows (symbolic) for each program of a bounded list covering every mapper; both export formats; every subset of inputs for partial application',
     'tests compare outputs on sample rows; equivalence of two graphs over all rows is not testable by sampling',
     ['saved/saved_transform_io.py', 'saved/saved_transform_io_v2.py', 'beam/impl.py', 'output_wrapper.py', 'impl_helper.py', 'graph_tools.py'],
     [('partially_apply_saved_transform_internal', 'saved/saved_transform_io.py'), ('SavedModelLoader / _prune / write_v2_saved_model', 'saved/saved_transform_io_v2.py'),
      ('_replace_tensors_with_constant_values', 'beam/impl.py'), ('TFTransformOutput.transform_raw_features / TransformFeaturesLayer', 'output_wrapper.py')],
     ['transformed features from TFTransformOutput and from TransformDataset'])

prop('A16', 'Transforming a row does not depend on which batch it is in',
     'For every documented row-wise mapping, transforming a batch of rows gives the concatenation of transforming any split of that batch, and permuting the rows permutes the outputs. '
     'Dense, sparse and ragged columns, empty rows and single-row batches behave alike.',
     ['inputs', 'schedules'],
     'all small batches with symbolic values and all splits of the batch, for each mapper',
     '2-safety over batches and splits; tests use one batch per case',
     ['mappers.py', 'tf_utils.py', 'beam/impl.py'],
     [('mappers', 'mappers.py'), ('_RunMetaGraphDoFn / batching', 'beam/impl.py')],
     ['transformed rows'])

prop('A17', 'CSV-encoded rows parse back to the same values',
     'Encoding an instance as CSV and parsing that line with a standard CSV parser returns every scalar and multi-valued field with its value in the column order given, with delimiters, quotes and multi-value separators '
     'inside values kept apart from structure; missing optional values become empty fields, and values that cannot be represented are refused instead of being silently altered.',
     ['inputs'],
     'all instances over a bounded symbolic alphabet including delimiters, quotes, separators and absent values, and all supported feature kinds',
     'tests encode a dozen literal rows',
     ['coders/csv_coder.py'],
     [('CsvCoder.encode, _FixedLength/_VarLen/_Sparse feature handlers', 'coders/csv_coder.py')],
     ['encoded CSV bytes'])

prop('A18', 'Example-encoded rows parse back to the same features',
     'Encoding an instance as a serialized example and parsing it with the feature spec derived from the same schema yields the same features, for fixed-length, variable-length, sparse and ragged columns of every supported type. '
     'Reusing one encoder for many instances never leaks values from an earlier instance into a later one, and ill-shaped or missing values are refused.',
     ['inputs', 'histories'],
     'all sequences of up to three instances with symbolic values and lengths for each feature kind',
     'leaks between instances depend on the sequence of encoded instances; tests encode few',
     ['coders/example_proto_coder.py'],
     [('ExampleProtoCoder.encode and feature handlers', 'coders/example_proto_coder.py')],
     ['serialized tf.Example'])

prop('A19', 'Schema and feature spec conversions are mutually inverse',
     'Turning a feature spec (with optional integer/string/float domains) into a schema and back returns the same feature spec and domains (ragged row partitions always as 64-bit ones, as documented); the schema obtained does not depend on the order in which features are listed except for its listing order.',
     ['inputs', 'configurations'],
     'all feature specs in a bounded grammar of fixed-length, variable-length, sparse and ragged features with symbolic names, shapes, sizes, defaults and domains',
     'tests have a table of examples; combinations (index keys shared between sparse features, zero-size domains, partitions) are combinatorial',
     ['tf_metadata/schema_utils.py', 'tf_metadata/schema_utils_legacy.py'],
     [('schema_from_feature_spec / schema_as_feature_spec', 'tf_metadata/schema_utils.py')],
     ['feature spec and schema proto'])

prop('A20', 'Converting batches to instances and back loses nothing',
     'Converting a batch of instances to tensors/record batches and converting the results back to instances yields the original instances, for dense, sparse (any rank), ragged and missing values, '
     'with row order kept; each output row holds exactly its own entries.',
     ['inputs'],
     'all small batches with symbolic values, row lengths and sparse positions',
     'tests use literal batches; row-boundary arithmetic over all row lengths is not covered',
     ['impl_helper.py', 'beam/impl.py'],
     [('to_instance_dicts / make_tensor_to_arrow_converter / convert_to_arrow', 'impl_helper.py')],
     ['instance dicts, record batches'])

prop('A21', 'Transformed data always conforms to the emitted output schema',
     'Every transformed row conforms to the schema written next to the transform: integer categorical outputs (bucket and vocabulary indices) declare a domain, whichever outputs share a tensor, and lie inside it, types, shapes and value counts match, and each output column of the '
     'preprocessing appears in the schema exactly once.',
     ['inputs', 'programs'],
     'all small datasets and fresh (unseen) rows for each program of a bounded list',
     'containment for all rows including unseen tokens; tests compare literal schemas',
     ['schema_inference.py', 'mappers.py', 'beam/impl.py'],
     [('infer_feature_schema / _get_tensor_schema_overrides', 'schema_inference.py'), ('deferred schema computation', 'beam/impl.py')],
     ['transformed schema, transformed rows'])

prop('A22', 'Metadata and asset maps written are the ones read back',
     'Writing dataset metadata (schema) and asset information and loading it back yields an equal schema and the same asset lookup, for every schema; the raw and transformed feature specs and domains that a transform output reports are those of the metadata written for it; overwriting an existing metadata directory leaves the last metadata written.',
     ['inputs', 'histories'],
     'all schemas in a bounded grammar, sequences of writes',
     'tests write and read a few literals',
     ['tf_metadata/metadata_io.py', 'tf_metadata/dataset_metadata.py', 'beam/tft_beam_io/beam_metadata_io.py'],
     [('write_metadata / read_metadata', 'tf_metadata/metadata_io.py')],
     ['schema.pbtxt, loaded metadata'])

prop('A23', 'Nested contexts resolve each setting to the innermost explicit value',
     'For any nesting of contexts, each option (temp dir, batch size, passthrough keys, compat mode, packing and the rest) read inside has the value given by the innermost enclosing context that sets it, or its default; leaving a '
     'context, normally or through an exception, restores the previous state, and temporary directories of distinct operations are distinct.',
     ['histories', 'configurations'],
     'all sequences of enter/exit/exception with symbolic option values up to depth three',
     'tests check single nestings',
     ['beam/context.py'],
     [('Context.__enter__/__exit__/ _get_topmost_state', 'beam/context.py')],
     ['option values seen by operations'])

prop('A24', 'Graph traversal visits each node exactly once, inputs first, and rejects cycles',
     'Walking an analysis graph visits each reachable operation exactly once, after all its inputs, handing the visitor precisely the results of those inputs in order; a cyclic graph is refused; identically-constructed '
     'nodes share one evaluation only when they are the same node.',
     ['programs'],
     'all operation DAGs (and cyclic graphs) of bounded size, edges symbolic',
     'tests use four fixed graphs',
     ['nodes.py'],
     [('Traverser.visit_value_node', 'nodes.py')],
     ['visit order, visitor arguments'])

prop('A25', 'Re-applying a recorded pipeline branch reproduces it faithfully',
     'Copying the upstream of a collection re-applies each upstream step exactly once with the same inputs, side inputs and tags, so the copy holds the same elements as the original, and collections shared inside the branch stay '
     'shared in the copy; steps applied after the copy do not affect it.',
     ['programs', 'inputs'],
     'all pipeline DAGs of bounded size over element-wise, flatten, grouping and side-input steps, symbolic elements',
     'tests use fixed pipelines (and cannot run here)',
     ['beam/deep_copy.py'],
     [('deep_copy / _clone_items', 'beam/deep_copy.py')],
     ['elements of the copied collection, pipeline structure'])

prop('A26', 'A published transform output is complete and consistent',
     'Once publishing of a transform function completes, the output directory holds the new transform graph together with its own metadata and assets; a failure at any point before completion leaves either no loadable '
     'output or the complete old/new one, never new metadata with an old transform graph, and a retried publish completes.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every crash point between filesystem operations of a publish, every retry sequence of bounded length, with or without earlier output',
     'tests publish once without faults',
     ['beam/tft_beam_io/transform_fn_io.py', 'beam/tft_beam_io/beam_metadata_io.py'],
     [('WriteTransformFn / publish_outputs', 'beam/tft_beam_io/transform_fn_io.py')],
     ['contents of the output directory'])

prop('A27', 'Information scores used for ranking follow their formulas',
     'Mutual information between a token and the labels is the documented sum over joint outcomes, is zero for independent counts, never negative beyond rounding, symmetric under exchanging the two variables, and the adjusted form subtracts '
     'the expected value under the permutation model.',
     ['inputs'],
     'all contingency counts within bounds',
     'tests check a dozen literals',
     ['info_theory.py', 'beam/analyzer_impls.py', 'analyzers.py'],
     [('calculate_partial_expected_mutual_information / _logfactorial', 'info_theory.py'), ('_MutualInformationTransformAccumulate etc.', 'beam/analyzer_impls.py')],
     ['ranking scores written to the vocabulary'])

prop('A28', 'Full-pass linear algebra results satisfy their defining equations',
     'The covariance matrix is symmetric and equals the definition over the dataset, and the matrix returned by principal component analysis consists of covariance eigenvectors, orthonormal, in decreasing order of '
     'explained variance and truncated to the requested dimension, for any batching and merge order.',
     ['inputs', 'schedules'],
     'all small datasets with symbolic entries',
     'tests sample few datasets',
     ['analyzers.py'],
     [('CovarianceCombiner / PCACombiner', 'analyzers.py')],
     ['covariance and pca outputs'])

prop('A29', 'Vocabulary accessors report the vocabulary actually stored',
     'Looking up a vocabulary in a transform output, by its own name or by one that was annotated for its asset (the last annotation of a name counts), returns its file, the exact number of entries, and exactly the stored tokens in order, for every storage format, with or without frequencies stored, whatever other vocabularies there are; unknown names are refused.',
     ['inputs', 'configurations'],
     'all small vocabularies, file formats and frequency options, stored domain annotations present or absent',
     'tests use few literal vocabularies',
     ['output_wrapper.py', 'annotators.py', 'mappers.py'],
     [('vocabulary_file_by_name / vocabulary_size_by_name / vocabulary_by_name / num_buckets_for_transformed_feature', 'output_wrapper.py')],
     ['return values of TFTransformOutput methods'])

prop('A30', 'Passthrough columns travel unchanged with their own rows',
     'Columns marked as passthrough appear in the transformed output unchanged and attached to the row they came from, for every batching; they never alter the transformed columns, and name clashes with outputs are refused.',
     ['inputs', 'schedules'],
     'all small batches with symbolic passthrough values and batch splits',
     'tests use one batch',
     ['beam/impl.py', 'impl_helper.py'],
     [('_RunMetaGraphDoFn passthrough / _convert_to_record_batch', 'beam/impl.py')],
     ['transformed record batches / instances'])

prop('A31', 'Splitting oversized output batches keeps every row once and in order',
     'When a transformed batch is split because it is too large, the concatenation of the pieces is exactly the batch, in order, and no row is lost or duplicated.',
     ['inputs'],
     'all row counts and size limits within bounds',
     'tests check one or two sizes',
     ['beam/impl.py', 'impl_helper.py'],
     [('record batch slicing', 'beam/impl.py')],
     ['transformed record batches'])

prop('A32', 'Approximate quantile boundaries are within the promised rank error',
     'Quantile boundaries computed for a dataset have ranks within the requested error of the exact quantiles, for any batching and merge order; weighted and elementwise forms likewise.',
     ['inputs', 'schedules'],
     'all datasets',
     'the sketch is randomised by schedule; tests sample',
     ['analyzers.py'],
     [('QuantilesCombiner', 'analyzers.py')],
     ['tft.quantiles boundaries'])

prop('A33', 'Every way of running a transform gives the same rows',
     'Analysing and transforming in one step gives exactly the rows, schema and transform graph of analysing first and transforming afterwards; rows delivered as record batches are the rows delivered as instances, and rows read as instances are the rows read as record batches; excluding outputs removes exactly those columns from rows and schema and changes nothing in the others; encoding the transformed rows as examples, in whatever form they are delivered, gives the same values; a transform that was published and is read again in another pipeline, and one of a function without analyses that was made without any data (analyze_in_place, which refuses functions with analyses), give the same rows, schema and examples.',
     ['inputs', 'configurations'],
     'all small datasets, batch splits, subsets of excluded outputs and output forms of six programs',
     'tests run each form on its own literal data',
     ['beam/impl.py', 'impl_helper.py', 'beam/tft_beam_io/transform_fn_io.py'],
     [('AnalyzeAndTransformDataset / TransformDataset(exclude_outputs, output_record_batches) / EncodeTransformedDataset', 'beam/impl.py'),
      ('analyze_in_place', 'impl_helper.py'), ('ReadTransformFn / WriteTransformFn', 'beam/tft_beam_io/transform_fn_io.py')],
     ['transformed rows, record batches, schemas and examples'])

prop('A34', 'Custom analyzers see the whole dataset and their results keep their places',
     'A user-provided analyzer receives every row of the dataset exactly once, its inputs in the order given and with their shapes; each of its outputs arrives in the transform at the place, with the type and shape, declared for it, whether it is a number, a vector, a string or a file; an analyzer split into accumulate, merge and extract steps gives the result of the whole dataset, with or without cache.',
     ['inputs', 'schedules'],
     'all small datasets, batch splits and merge orders of seven programs',
     'tests run literal data in one batch',
     ['experimental/analyzers.py', 'analyzer_nodes.py', 'beam/analyzer_impls.py'],
     [('ptransform_analyzer / CacheablePTransformAnalyzer', 'experimental/analyzers.py')],
     ['transform outputs that use the results of custom analyzers'])

prop('A35', 'Gaussianising uses the L-moments of the whole dataset',
     'tukey_location, tukey_scale, tukey_h_params and scale_to_gaussian fit the distribution whose L-moments are those of the analysed values: the averages over all pairs, triplets and quadruplets of values that share a batch, whatever the order of rows, batches and merges, per position when elementwise and with missing entries left out; scale_to_gaussian maps every value through that one fitted distribution (z-score if it has no long tail, the centred value if the column is constant), keeps layout and missing entries, and treats the two tails as mirror images.',
     ['inputs', 'schedules'],
     'all values, orders, batch splits and merge orders within bounds, for dense, vector, varlen, ragged and sparse columns',
     'tests compare a few literal arrays in one batch with constants',
     ['mappers.py', 'analyzers.py', 'tf_utils.py', 'gaussianization.py'],
     [('_LMomentsCombiner', 'analyzers.py'), ('reduce_batch_count_l_moments', 'tf_utils.py'), ('scale_to_gaussian', 'mappers.py'), ('inverse_tukey_hh', 'gaussianization.py')],
     ['tft.tukey_* and tft.scale_to_gaussian outputs'])

prop('A36', 'Embedded Python functions and models act on rows as on their own',
     'apply_pyfunc, apply_saved_model and apply_function_with_checkpoint give every row exactly what the function, the signature of the saved model, or the function with the variables of the checkpoint gives for the values of that row: arguments and results keep the order (or the keys) the caller used, whichever tensors are passed (any output of an op, one tensor twice, parts of sparse tensors), models keep their variables and lookup tables, analyzers can use their outputs and they can use analyzers, and the published transform gives the same results when it is loaded in another process.',
     ['inputs', 'histories'],
     'all rows, batch splits and unseen rows within bounds, in the pipeline and loaded from the published output with a fresh registry of Python functions',
     'tests apply one function of one argument to a few literals',
     ['pretrained_models.py', 'py_func/api.py', 'py_func/pyfunc_helper.py', 'saved/saved_transform_io.py'],
     [('apply_saved_model', 'pretrained_models.py'), ('apply_function_with_checkpoint', 'pretrained_models.py'), ('insert_pyfunc', 'py_func/pyfunc_helper.py'), ('register_pyfuncs_from_saved_transform', 'py_func/pyfunc_helper.py')],
     ['outputs of preprocessing functions that embed Python functions or models'])

prop('A37', 'An interrupted analysis never breaks or changes the ones after it',
     'Whatever a run of an analysis with a cache leaves behind when it stops before its end (the cache manifest with all, some or none of the files of the entries it lists, some of the shards of a file, a missing or damaged manifest), later runs with that cache succeed and give the results of analysing everything afresh: entries that are complete are returned with the content last written, incomplete ones are treated as absent, and files left behind by a stopped run are never taken for entries of another one.',
     ['crash points', 'histories', 'inputs'],
     'all values, with every subset of the files of one or two stopped runs in place, within bounds',
     'tests read caches of runs that finished',
     ['beam/analyzer_cache.py', 'beam/impl.py', 'beam/analysis_graph_builder.py'],
     [('WriteAnalysisCacheToFS', 'beam/analyzer_cache.py'), ('ReadAnalysisCacheFromFS', 'beam/analyzer_cache.py'), ('_ManifestFile', 'beam/analyzer_cache.py'), ('_OptimizeVisitor', 'beam/analysis_graph_builder.py')],
     ['results of AnalyzeDatasetWithCache after an interrupted run', 'DatasetCache objects read'])

prop('A38', 'Tracked objects of a preprocessing function are part of the transform',
     'An object that a preprocessing function makes with make_and_track_object (variable, module, lookup table, dataset, Keras layer, loaded model) has the same state in every analysis, in the transformation and in the published output, however that is applied, also inside another exported model and after everything it was made from is gone; within the function one name stands for one object whatever the name is, different names stand for different objects, and tracking is refused (ValueError) where it is impossible: for Keras layers without a name, and under TF1.',
     ['inputs', 'programs', 'histories'],
     'all rows within bounds, programs with each kind of object, every assignment of a few names to up to three objects',
     'tests apply a few tracked objects to fixed rows',
     ['annotators.py', 'graph_context.py', 'impl_helper.py', 'saved/saved_transform_io_v2.py'],
     [('make_and_track_object / ObjectTracker', 'annotators.py'), ('trace_and_update_module', 'saved/saved_transform_io_v2.py'), ('trace_and_write_v2_saved_model', 'impl_helper.py')],
     ['transformed rows', 'outputs of the published transform'])

if __name__ == '__main__':
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  for p in P:
    assert len(p['title']) <= 80, p['title']
  with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(p) + '\n')
