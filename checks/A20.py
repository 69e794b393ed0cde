"""Converting batches to instances and back loses nothing."""
import numpy as np
import tensorflow as tf
import apache_beam as beam
import tensorflow_transform.beam as tft_beam
from tensorflow_transform import impl_helper
from tensorflow_transform.tf_metadata import dataset_metadata, schema_utils

from sx import core, markers, minibeam, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, eqb

CHECK = Check(
    'A20',
    bounds=['batches of 0-3 rows, at most 3 values per row, all feature kinds '
            'and types, arbitrary values'])

DT = {'f': tf.float32, 'i': tf.int64, 's': tf.string}
NP = {'f': np.float32, 'i': np.int64, 's': object}


def fresh(env, t, name):
  if t == 's':
    return env.tok(name)
  return env.int(name, -50, 50) if t == 'i' else env.real(name, -50, 50)


# -- features -----------------------------------------------------------------


class Dense:

  def __init__(self, name, t, shape=()):
    self.name, self.t, self.shape = name, t, shape
    self.spec = {name: tf.io.FixedLenFeature(list(shape), DT[t])}

  def rows(self, env, n):
    k = int(np.prod(self.shape)) if self.shape else 1
    return [[fresh(env, self.t, f'{self.name}{i}_{j}') for j in range(k)]
            for i in range(n)]

  def tensor(self, rows):
    return P.arr([v for r in rows for v in r], NP[self.t],
                 (len(rows),) + tuple(self.shape))

  def instance(self, row):
    return {self.name: (self.shape, row)}


class VarLen(Dense):

  def __init__(self, name, t):
    self.name, self.t = name, t
    self.spec = {name: tf.io.VarLenFeature(DT[t])}

  def rows(self, env, n):
    return [[fresh(env, self.t, f'{self.name}{i}_{j}')
             for j in range(env.choose(4, f'{self.name}len{i}'))]
            for i in range(n)]

  def tensor(self, rows):
    return P.sparse(rows, NP[self.t])

  def instance(self, row):
    return {self.name: ((len(row),), row)}


class Sparse(Dense):
  """Cells at chosen positions, given as (position, value)."""

  def __init__(self, name, t, size):
    self.name, self.t, self.size = name, t, size
    self.spec = {name: tf.io.SparseFeature(
        index_key=[f'{name}$sparse_indices_{k}' for k in range(len(size))],
        value_key=f'{name}$sparse_values', dtype=DT[t], size=list(size),
        already_sorted=True)}
    self.cells = list(np.ndindex(*size))

  def rows(self, env, n):
    out = []
    for i in range(n):
      r = []
      for k, c in enumerate(self.cells):
        if env.choose(2, f'{self.name}{i}_at{k}'):
          r.append((c, fresh(env, self.t, f'{self.name}{i}_{k}')))
      out.append(r)
    return out

  def tensor(self, rows):
    return P.cells(rows, NP[self.t], self.size)

  def instance(self, row):
    d = {f'{self.name}$sparse_values': ((len(row),), [v for _, v in row])}
    for k in range(len(self.size)):
      d[f'{self.name}$sparse_indices_{k}'] = (
          (len(row),), [c[k] for c, _ in row])
    return d


class Ragged(Dense):

  def __init__(self, name, t):
    self.name, self.t = name, t
    self.spec = {name: tf.io.RaggedFeature(
        DT[t], value_key=f'{name}$ragged_values', partitions=[],
        row_splits_dtype=tf.int64)}

  rows = VarLen.rows

  def tensor(self, rows):
    return P.ragged(rows, NP[self.t])

  def instance(self, row):
    return {f'{self.name}$ragged_values': ((len(row),), row)}


class Ragged2(Dense):
  """Rows of lists of lists; the inner lists may have a fixed length."""

  def __init__(self, name, t, inner=None):
    self.name, self.t, self.inner = name, t, inner
    part = (tf.io.RaggedFeature.UniformRowLength(inner) if inner else
            tf.io.RaggedFeature.RowLengths(f'{name}$row_lengths_1'))
    self.spec = {name: tf.io.RaggedFeature(
        DT[t], value_key=f'{name}$ragged_values', partitions=[part],
        row_splits_dtype=tf.int64)}

  def rows(self, env, n):
    out = []
    for i in range(n):
      r = []
      for j in range(env.choose(3, f'{self.name}outer{i}')):
        m = self.inner or env.choose(3, f'{self.name}inner{i}_{j}')
        r.append([fresh(env, self.t, f'{self.name}{i}_{j}_{k}')
                  for k in range(m)])
      out.append(r)
    return out

  def tensor(self, rows):
    V = tf.compat.v1.ragged.RaggedTensorValue
    lists = [l for r in rows for l in r]
    outer = np.cumsum([0] + [len(r) for r in rows]).astype(np.int64)
    flat = [v for l in lists for v in l]
    if self.inner:
      return V(P.arr(flat, NP[self.t], (len(lists), self.inner)), outer)
    inner = np.cumsum([0] + [len(l) for l in lists]).astype(np.int64)
    return V(V(P.arr(flat, NP[self.t], (len(flat),)), inner), outer)

  def instance(self, row):
    flat = [v for l in row for v in l]
    d = {f'{self.name}$ragged_values': ((len(flat),), flat)}
    if not self.inner:
      d[f'{self.name}$row_lengths_1'] = ((len(row),), [len(l) for l in row])
    return d


def compare(env, got, want):
  env.check(set(got) == set(want), 'features of an instance',
            Lazy(sorted(got), sorted(want)))
  for k, (shape, vals) in want.items():
    g = got.get(k)
    if g is None:
      env.check(not vals, 'a value is missing', Lazy(k, vals))
      continue
    env.check(tuple(np.shape(g)) == tuple(shape), 'shape of a value',
              Lazy(k, np.shape(g)))
    gl = as_list(g)
    env.check(len(gl) == len(vals), 'number of values', Lazy(k, gl))
    for a, b in zip(gl, vals):
      env.eq(a, b, 'value', Lazy(k, a, b))


def encoded(t):
  V, S = tf.compat.v1.ragged.RaggedTensorValue, tf.compat.v1.SparseTensorValue
  if not core.active():
    return t
  if isinstance(t, V):
    return V(encoded(t.values), t.row_splits)
  if isinstance(t, S):
    return S(t.indices, markers.encode_array(t.values), t.dense_shape)
  return markers.encode_array(t)


def case(name, feats, n=3, quick=True, shards=1, budget=10):
  @CHECK.case(name, quick=quick, shards=shards, budget=budget,
              bounds=f'1-{n} rows of {[type(f).__name__ + f.t for f in feats]}')
  def run(env):
    spec_ = {}
    for f in feats:
      spec_.update(f.spec)
    schema = schema_utils.schema_from_feature_spec(spec_)
    conv = env.once('conv', lambda: impl_helper.make_tensor_to_arrow_converter(
        schema))
    m = 1 + env.choose(n, 'n')
    rows = {f.name: f.rows(env, m) for f in feats}
    batch = {f.name: encoded(f.tensor(rows[f.name])) for f in feats}
    rb = conv.convert(batch)
    env.check(rb.num_rows == m, 'rows of the record batch')
    got = impl_helper.record_batch_to_instance_dicts(rb, schema)
    env.check(len(got) == m, 'number of instances')
    for i, g in enumerate(got):
      want = {}
      for f in feats:
        want.update(f.instance(rows[f.name][i]))
      compare(env, {k: markers.decode(v) if core.active() else v
                    for k, v in g.items()}, want)


for _t in 'fis':
  case(f'dense_{_t}', [Dense('a', _t), Dense('b', _t, (2,)),
                       Dense('c', _t, (2, 2)), Dense('d', _t, (1,))], budget=3)
  case(f'varlen_{_t}', [VarLen('a', _t)], budget=6)
  case(f'sparse_{_t}', [Sparse('a', _t, (3,))], budget=14)
  case(f'ragged_{_t}', [Ragged('a', _t)], budget=6)
case('sparse2', [Sparse('a', 'f', (2, 2))], n=2)
case('sparse3', [Sparse('a', 'i', (2, 1, 2))], n=2)
case('ragged2', [Ragged2('a', 'f')], n=2)
case('ragged2_s', [Ragged2('a', 's')], n=2)
case('ragged_uniform', [Ragged2('a', 'i', 2)], n=2)
case('mixed', [VarLen('a', 's'), Sparse('b', 'f', (2,)), Dense('c', 'i')], n=2)
case('mixed_ragged', [Ragged('b', 'f'), VarLen('a', 'i'), Dense('z', 's')], n=2)


@CHECK.case('varlen_layout', budget=20, shards=4,
            bounds='up to 4 values at arbitrary positions')
def varlen_layout(env):
  """Only left-aligned, row-major sparse values can become instances."""
  n = env.shard + 1 if env.shard else env.choose(2, 'n')
  rows = env.ints('r', n, 0, 3)
  cols = env.ints('c', n, 0, 3)
  idx = P.arr([v for p in zip(rows, cols) for v in p], np.int64, (n, 2))
  ok = core.band(*[core.band(
      core.bor(core.band(rows[i] == rows[i - 1], cols[i] == cols[i - 1] + 1),
               core.band(rows[i] > rows[i - 1], cols[i] == 0)) if i else
      cols[0] == 0) for i in range(n)]) if n else True
  value = tf.compat.v1.SparseTensorValue(
      idx, np.zeros(n, np.float32), np.array([4, 4]))
  try:
    impl_helper.validate_varlen_sparse_value('x', value)
    env.check(ok, 'a layout that cannot be represented is refused',
              Lazy(rows, cols))
  except ValueError:
    env.check(core.bnot(ok), 'a left-aligned layout is accepted',
              Lazy(rows, cols))


# -- instances -> record batches -> instances ---------------------------------


class Identity:
  """The identity transformation of instance dicts."""

  def __init__(self, spec_, batch_size, v1=True):
    import tempfile, os
    self.dir = tempfile.mkdtemp(prefix='sx_')
    self.p = beam.Pipeline(
        options=beam.options.pipeline_options.PipelineOptions(
            pipeline_type_check=False))
    md = dataset_metadata.DatasetMetadata(
        schema_utils.schema_from_feature_spec(spec_))
    with core.paused(), tft_beam.Context(
        temp_dir=os.path.join(self.dir, 'tmp'), force_tf_compat_v1=v1,
        desired_batch_size=batch_size):
      data = P.source(self.p, 'data')
      tfn = (data, md) | tft_beam.AnalyzeDataset(lambda i: dict(i))
      self.out, _ = ((data, md), tfn) | tft_beam.TransformDataset()

  def close(self):
    import shutil
    shutil.rmtree(self.dir, ignore_errors=True)


def roundtrip(name, feats, n, batch_size, missing=False, quick=True, v1=True):
  @CHECK.case(name, quick=quick, shards=2, budget=20,
              bounds=f'1-{n} instances, batches of {batch_size}, '
              f'{[type(f).__name__ + f.t for f in feats]}')
  def run(env):
    spec_ = {}
    for f in feats:
      spec_.update(f.spec)
    b = env.once('b', lambda: Identity(spec_, batch_size, v1))
    m = 1 + env.choose(n, 'n')
    rows = {f.name: f.rows(env, m) for f in feats}
    insts, wants = [], []
    for i in range(m):
      d, w = {}, {}
      for f in feats:
        for k, (shape, vals) in f.instance(rows[f.name][i]).items():
          dt = np.int64 if '$sparse_indices' in k else NP[f.t]
          e = [markers.encode_scalar(v, np.dtype(dt))
               if core.active() else v for v in vals]
          if missing and not vals:
            d[k] = None if env.choose(2, f'form{k}{i}') else []
          else:
            d[k] = e[0] if shape == () else np.array(
                e, dtype=dt).reshape(shape) if e else []
          w[k] = (shape, vals)
      insts.append(d)
      wants.append(w)
    P.DATA['data'] = insts
    run = minibeam.Run(env.sched())
    got = [markers.decode(r) if core.active() else r for r in run.get(b.out)]
    env.check(len(got) == m, 'number of instances')
    for g, w in zip(got, wants):
      compare(env, g, w)


roundtrip('roundtrip_dense', [Dense('a', 'f'), Dense('b', 's', (2,)),
                              Dense('c', 'i', (1, 2))], 3, 2)
roundtrip('roundtrip_varlen', [VarLen('a', 's'), Dense('c', 'i')], 2, 2,
          missing=True)
roundtrip('roundtrip_sparse2', [Sparse('a', 's', (2, 2))], 2, 1)
roundtrip('roundtrip_sparse2i', [Sparse('a', 'i', (2, 1)), VarLen('b', 'f')],
          3, 2)
roundtrip('roundtrip_v2', [VarLen('a', 'f'), Dense('b', 'i', (2,))], 3, 2,
          v1=False)
