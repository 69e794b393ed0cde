"""Builds real tf.Transform pipelines whose input data is supplied per path."""
from __future__ import annotations

import gc
import os
import shutil
import tempfile

import apache_beam as beam
import numpy as np
import pyarrow as pa
import tensorflow as tf
from tensorflow_metadata.proto.v0 import schema_pb2
from google.protobuf import text_format
from tfx_bsl.tfxio.tensor_adapter import TensorAdapterConfig

import tensorflow_transform as tft
from tensorflow_transform.beam import context as tft_context
from tensorflow_transform.beam.tft_beam_io import transform_fn_io
from tensorflow_transform.beam import impl as beam_impl

from sx import core, markers, minibeam, nparr

DATA = {}


def _tables_per_path():
  """Gives tables of files a name of their own on every path.

  TensorFlow shares tables by file name within a process, and the same temporary
  file is written again on every path.
  """
  cls = tf.lookup.TextFileInitializer
  plain = cls._shared_name.fget
  cls._shared_name = property(lambda self: '%s_%d' % (
      plain(self), core.STARTED[0]) if core.STARTED[0] else plain(self))


_tables_per_path()


def _read(key):
  return DATA[key]


def source(p, key, label=None):
  """A PCollection holding DATA[key] at evaluation time."""
  label = label or str(key)
  return (p | f'Src[{label}]' >> beam.Create([key])
          | f'Read[{label}]' >> beam.FlatMap(_read))


def private(module, name):
  """A private function of the code, found again if it was renamed slightly."""
  f = getattr(module, name, None)
  if f is not None:
    return f
  found = [v for n, v in vars(module).items() if callable(v) and
           getattr(v, '__module__', None) == module.__name__ and
           name.strip('_') in n]
  if len({id(v) for v in found}) != 1:
    raise core.Unsupported(f'{module.__name__}.{name} is gone')
  return found[0]


class Col:
  """An input column. kind: dense | varlen | ragged | ragged2 | sparse."""

  def __init__(self, name, kind, dt, shape=()):
    self.name, self.kind, self.dt, self.shape = name, kind, dt, tuple(shape)

  @property
  def arrow_value_type(self):
    return {'f': pa.float32(), 'i': pa.int64(), 's': pa.large_binary()}[self.dt]

  @property
  def np_dtype(self):
    return {'f': np.float32, 'i': np.int64, 's': object}[self.dt]


def adapter_config(cols):
  fields, reps = [], {}
  for c in cols:
    vt = c.arrow_value_type
    if c.kind == 'ragged2':
      fields.append(pa.field(c.name, pa.large_list(pa.large_list(vt))))
      txt = f'ragged_tensor {{ feature_path {{ step: "{c.name}" }} row_partition_dtype: INT64 }}'
    elif c.kind == 'sparse':
      fields.append(pa.field(c.name, pa.large_list(vt)))
      fields.append(pa.field(c.name + '$i', pa.large_list(pa.int64())))
      txt = (f'sparse_tensor {{ index_column_names: "{c.name}$i" '
             f'value_column_name: "{c.name}" '
             f'dense_shape {{ dim {{ size: {c.shape[0]} }} }} }}')
    else:
      fields.append(pa.field(c.name, pa.large_list(vt)))
      if c.kind == 'dense':
        dims = ' '.join(f'dim {{ size: {d} }}' for d in c.shape)
        txt = f'dense_tensor {{ column_name: "{c.name}" shape {{ {dims} }} }}'
      elif c.kind == 'varlen':
        txt = f'varlen_sparse_tensor {{ column_name: "{c.name}" }}'
      elif c.kind == 'ragged':
        txt = (f'ragged_tensor {{ feature_path {{ step: "{c.name}" }} '
               'row_partition_dtype: INT64 }')
      else:
        raise ValueError(c.kind)
    reps[c.name] = text_format.Parse(txt, schema_pb2.TensorRepresentation())
  return TensorAdapterConfig(pa.schema(fields), reps)


def _flat(v):
  if isinstance(v, np.ndarray) and not isinstance(v, nparr.SymArray):
    v = v.tolist()
  if isinstance(v, (list, tuple)):
    out = []
    for e in v:
      out += _flat(e)
    return out
  return [v]


def _cell(c, v):
  if v is None:
    return None
  enc = lambda e: (markers.encode_scalar(e, np.dtype(c.np_dtype))
                   if core.active() else e)
  fix = lambda e: e.encode() if isinstance(e, str) else e
  if c.kind == 'ragged2':
    return [[fix(enc(e)) for e in r] for r in v]
  return [fix(enc(e)) for e in _flat(v)]


def record_batch(cols, rows, extra=()):
  """rows: list of dicts column -> value(s).  sparse: list of (index, value)."""
  arrays, fields = [], []
  for c in cols:
    vt = c.arrow_value_type
    if c.kind == 'sparse':
      vals = [None if r.get(c.name) is None else [
          _cell(c, x)[0] for _, x in r[c.name]] for r in rows]
      idx = [None if r.get(c.name) is None else [int(i) for i, _ in r[c.name]]
             for r in rows]
      arrays += [pa.array(vals, pa.large_list(vt)),
                 pa.array(idx, pa.large_list(pa.int64()))]
      fields += [pa.field(c.name, pa.large_list(vt)),
                 pa.field(c.name + '$i', pa.large_list(pa.int64()))]
      continue
    t = pa.large_list(pa.large_list(vt)) if c.kind == 'ragged2' else (
        pa.large_list(vt))
    vals = [_cell(c, r.get(c.name)) for r in rows]
    arrays.append(pa.array(vals, t))
    fields.append(pa.field(c.name, t))
  for name, typ, vals in extra:
    arrays.append(pa.array(vals, typ))
    fields.append(pa.field(name, typ))
  return pa.RecordBatch.from_arrays(arrays, schema=pa.schema(fields))


class Scratch:
  """A scratch directory removed at exit."""

  def __enter__(self):
    self.dir = tempfile.mkdtemp(prefix='sx_')
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.dir, ignore_errors=True)


class Built:
  """A constructed analysis (and transform) pipeline, evaluated per path."""

  def __init__(self, fn, cols, v1=True, transform=True, keys=None,
               desired_batch_size=None, passthrough=None, extra_fields=(),
               packing=None, record_batches=False, two_data=False,
               exclude_outputs=None, deep_copy=False, publish=False):
    self.cols = cols
    self.v1 = v1
    self._frozen = False
    self.dir = tempfile.mkdtemp(prefix='sx_')
    self.tmp = os.path.join(self.dir, 'tmp')
    cfg = adapter_config(cols)
    if extra_fields:
      sch = cfg.arrow_schema
      for f in extra_fields:
        sch = sch.append(f)
      cfg = TensorAdapterConfig(sch, cfg.tensor_representations)
    self.cfg = cfg
    self.p = beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
        pipeline_type_check=False))
    kw = dict(temp_dir=self.tmp, force_tf_compat_v1=v1)
    if desired_batch_size:
      kw['desired_batch_size'] = desired_batch_size
    if passthrough:
      kw['passthrough_keys'] = passthrough
    if deep_copy:
      kw['use_deep_copy_optimization'] = True
    with core.paused(), tft_context.Context(**kw):
      data = source(self.p, 'data')
      tdata = source(self.p, 'tdata') if two_data else data
      if transform == 'joint':
        (self.out, self.out_md), self.tfn = (
            (data, cfg) | beam_impl.AnalyzeAndTransformDataset(
                fn, output_record_batches=record_batches))
      else:
        self.tfn = (data, cfg) | beam_impl.AnalyzeDataset(fn)
        if transform:
          self.out, self.out_md = (
              ((tdata, cfg), self.tfn) | beam_impl.TransformDataset(
                  output_record_batches=record_batches,
                  exclude_outputs=exclude_outputs))
      if publish:
        self.published_dir = os.path.join(self.dir, 'published')
        self.written = self.tfn | transform_fn_io.WriteTransformFn(
            self.published_dir)

  def published(self, run):
    """The transform output directory, freshly written."""
    shutil.rmtree(self.published_dir, ignore_errors=True)
    run.get(self.written)
    return self.published_dir

  def run(self, batches, schedule=None, tbatches=None, memo=None):
    if not self.v1:
      # tables of the previous path's models carry the same shared name
      if not self._frozen:
        gc.collect()
        gc.freeze()
        self._frozen = True
      gc.collect()
    DATA['data'] = batches
    if tbatches is not None:
      DATA['tdata'] = tbatches
    return minibeam.Run(schedule, memo=memo)

  def instances(self, run):
    return [markers.decode(r) if core.active() else r
            for r in run.get(self.out)]

  def close(self):
    shutil.rmtree(self.dir, ignore_errors=True)


class CachedBuilt:
  """One analysis with cache over some datasets, and a transform of 'tdata'.

  read: dataset names that are supplied as data; datasets: all names analysed;
  cache: {name: list of entry keys} supplied as cache, or None for no cache.
  """

  def __init__(self, fn, cols, datasets, read, cache=None, v1=True,
               uncached=(), metadata=True, packing=None):
    from tensorflow_transform.beam import analyzer_cache as ac
    self.cols, self.datasets, self.v1 = cols, datasets, v1
    self.dir = tempfile.mkdtemp(prefix='sx_')
    cfg = adapter_config(cols)
    self.p = beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
        pipeline_type_check=False))
    self.keys = {d: ac.DatasetKey(d, is_cached=d not in uncached)
                 for d in datasets}
    self.cache_in = cache or {}
    with core.paused(), tft_context.Context(
        temp_dir=os.path.join(self.dir, 'tmp'), force_tf_compat_v1=v1):
      src = lambda k: source(self.p, (id(self), k), f'{k}')
      data = {self.keys[d]: src(f'data_{d}') if d in read else None
              for d in datasets}
      given = None
      if cache is not None:
        given = {ac.DatasetKey(d): ac.DatasetCache(
            {e: src(f'cache_{d}_{j}') for j, e in enumerate(es)},
            src(f'meta_{d}') if metadata else None)
                 for d, es in cache.items()}
      self.tfn, self.cache_out = (data, given, cfg) | (
          beam_impl.AnalyzeDatasetWithCache(fn, pipeline=self.p))
      self.out, _ = (((src('tdata')), cfg), self.tfn) | (
          beam_impl.TransformDataset())
    self.entries = {}
    for k, c in (self.cache_out or {}).items():
      self.entries[k.key] = sorted(c.keys())

  def run(self, data, tdata, cache_data=None, schedule=None):
    """data: {dataset: batches}; cache_data: {dataset: (entry -> bytes, meta)}."""
    for d, b in data.items():
      DATA[id(self), f'data_{d}'] = b
    DATA[id(self), 'tdata'] = tdata
    for d, es in self.cache_in.items():
      entries, meta = cache_data[d]
      for j, e in enumerate(es):
        DATA[id(self), f'cache_{d}_{j}'] = entries[e]
      DATA[id(self), f'meta_{d}'] = meta
    return minibeam.Run(schedule)

  def cache_of(self, run):
    """{dataset: ({entry: [bytes]}, [metadata])} written by the run."""
    out = {}
    for k, c in (self.cache_out or {}).items():
      out[k.key] = ({e: run.get(p) for e, p in c.items()},
                    run.get(c.metadata) if c.metadata is not None else [])
    return out

  instances = Built.instances
  close = Built.close


class GraphFn:
  """A function traced into a TF graph, fed per path with (symbolic) values.

  specs: name -> tf.TensorSpec | tf.SparseTensorSpec | tf.RaggedTensorSpec.
  """

  def __init__(self, fn, specs):
    self.graph = tf.Graph()
    with core.paused(), self.graph.as_default():
      self.inputs = {}
      for n, s in specs.items():
        if isinstance(s, tf.SparseTensorSpec):
          t = tf.compat.v1.sparse_placeholder(s.dtype, s.shape, name=n)
        elif isinstance(s, tf.RaggedTensorSpec):
          t = tf.compat.v1.ragged.placeholder(
              s.dtype, s.ragged_rank, s.shape[s.ragged_rank + 1:], name=n)
        else:
          t = tf.compat.v1.placeholder(s.dtype, s.shape, name=n)
        self.inputs[n] = t
      self.outputs = fn(dict(self.inputs))

  def __call__(self, **values):
    """Returns {output: value}; composite outputs as their value tuples."""
    from sx import runtime, tfsym
    feed = {self.inputs[n]: _feedable(self.inputs[n], v)
            for n, v in values.items()}
    if core.active():
      it = tfsym.Interp(self.graph, {})
      for t, v in feed.items():
        if isinstance(t, tf.SparseTensor):
          for a, b in zip((t.indices, t.values, t.dense_shape), v):
            it.feed(a, b)
        elif isinstance(t, tf.RaggedTensor):
          it.feed(t.flat_values, v.values)
          for a, b in zip(t.nested_row_splits, [v.row_splits]):
            it.feed(a, b)
        else:
          it.feed(t, v)
      return {k: self._fetch(it, o) for k, o in self.outputs.items()}
    with tf.compat.v1.Session(graph=self.graph) as s:
      s.run([tf.compat.v1.tables_initializer()] if
            self.graph.get_collection('table_initializer') else [])
      r = s.run(self.outputs, feed)
      return r

  def _fetch(self, it, o):
    if isinstance(o, tf.SparseTensor):
      return tf.compat.v1.SparseTensorValue(
          *[it.tensor(t) for t in (o.indices, o.values, o.dense_shape)])
    if isinstance(o, tf.RaggedTensor):
      return tf.compat.v1.ragged.RaggedTensorValue(
          it.tensor(o.values), np.asarray(it.tensor(o.row_splits)))
    return it.tensor(o)


def arr(values, dtype, shape=None):
  """Array of (possibly symbolic) values."""
  flat = _flat(values)
  shape = shape if shape is not None else np.shape(np.array(
      values, dtype=object)) if not flat else None
  if shape is None:
    shape = _shape(values)
  if any(isinstance(v, core.Sym) for v in flat):
    return nparr.make_sym(nparr.obj(shape, flat), np.dtype(dtype))
  fix = [v.encode() if isinstance(v, str) else v for v in flat]
  return np.array(fix, dtype=dtype).reshape(shape)


def _shape(v):
  if isinstance(v, (list, tuple)):
    return (len(v),) + (_shape(v[0]) if v else ())
  return np.shape(v) if isinstance(v, np.ndarray) else ()


def _feedable(t, v):
  if isinstance(t, (tf.SparseTensor, tf.RaggedTensor)):
    return v
  dt = t.dtype.as_numpy_dtype
  if isinstance(v, np.ndarray):
    return v
  return arr(v, object if t.dtype == tf.string else dt)


def sparse(rows, dtype, width=None):
  """SparseTensorValue of left-aligned rows."""
  idx = [(i, j) for i, r in enumerate(rows) for j in range(len(r))]
  flat = [v for r in rows for v in r]
  w = max([len(r) for r in rows] + [0]) if width is None else width
  return tf.compat.v1.SparseTensorValue(
      np.array(idx, np.int64).reshape(-1, 2), arr(flat, dtype, (len(flat),)),
      np.array([len(rows), w], np.int64))


def ragged(rows, dtype):
  flat = [v for r in rows for v in r]
  return tf.compat.v1.ragged.RaggedTensorValue(
      arr(flat, dtype, (len(flat),)),
      np.cumsum([0] + [len(r) for r in rows]).astype(np.int64))


def cells(rows, dtype, width):
  """SparseTensorValue of rows given as [(column or index tuple, value)]."""
  t = lambda c: tuple(c) if isinstance(c, (tuple, list)) else (c,)
  w = list(t(width))
  idx = [(i,) + t(c) for i, r in enumerate(rows) for c, _ in r]
  flat = [v for r in rows for _, v in r]
  return tf.compat.v1.SparseTensorValue(
      np.array(idx, np.int64).reshape(-1, 1 + len(w)),
      arr(flat, dtype, (len(flat),)), np.array([len(rows)] + w, np.int64))


def rows_of(value, n=None):
  """Per-row content: dense -> flat list; sparse -> [(index, value)];
  ragged -> list of values."""
  from sx.spec import as_list
  if isinstance(value, tf.compat.v1.SparseTensorValue):
    out = [[] for _ in range(int(value.dense_shape[0]))]
    idx = np.asarray(value.indices).tolist()
    for (i, *c), v in zip(idx, as_list(value.values)):
      out[int(i)].append((tuple(int(k) for k in c), v))
    return out
  if isinstance(value, tf.compat.v1.ragged.RaggedTensorValue):
    s = np.asarray(value.row_splits).tolist()
    if isinstance(value.values, tf.compat.v1.ragged.RaggedTensorValue):
      inner = rows_of(value.values)
      return [inner[a:b] for a, b in zip(s, s[1:])]
    v = as_list(value.values)
    return [v[a:b] for a, b in zip(s, s[1:])]
  shape = np.shape(value)
  flat = as_list(value)
  k = int(np.prod(shape[1:])) if len(shape) > 1 else 1
  return [flat[i * k:(i + 1) * k] for i in range(shape[0])]


def join(parts, sep=b''):
  """Concatenation of (possibly symbolic) byte strings."""
  out = []
  for i, p in enumerate(parts):
    if i and sep:
      out.append(sep)
    out.append(p)
  if any(isinstance(p, core.Sym) for p in out):
    return markers.SStr.build(out)
  return b''.join(p if isinstance(p, bytes) else str(p).encode() for p in out)


def vocab_file(b, run, filename):
  """Lines (or records) of a vocabulary asset of the exported transform."""
  model = run.get(b.tfn[0])[0]
  model = model if isinstance(model, (bytes, str)) else str(model)
  path = os.path.join(tf.compat.as_str(model), 'assets', filename)
  if filename.endswith('.gz'):
    opts = tf.io.TFRecordOptions(compression_type='GZIP')
    lines = list(tf.compat.v1.io.tf_record_iterator(path, opts))
  else:
    with open(path, 'rb') as f:
      lines = f.read().split(b'\n')
    assert lines[-1] == b'', lines
    lines = lines[:-1]
  return [markers.decode_string(l) if core.active() and
          core.has_placeholder(l) else l for l in lines]


def schema_of(b, run):
  """The complete output schema (as written next to the transform)."""
  md = b.tfn[1]
  d = getattr(md, 'deferred_metadata', None)
  r = run.get(d)[0] if d is not None else md
  return r.schema


def int_domain(schema, name):
  """(min, max) of an output feature's declared integer domain, or None."""
  for f in schema.feature:
    if f.name in (name, name + '$sparse_values', name + '$ragged_values'):
      if f.HasField('int_domain'):
        d = f.int_domain
        return markers.decode(int(d.min)), markers.decode(int(d.max))
  for f in schema.sparse_feature:
    if f.name == name:
      return int_domain(schema, f.value_feature.name)
  return None
