"""Every way of running a transform gives the same rows."""
import apache_beam as beam
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import impl_helper
from tensorflow_transform.beam import context as tft_context
from tensorflow_transform.beam import impl as beam_impl
from tensorflow_transform.beam.tft_beam_io import transform_fn_io
from tensorflow_transform.tf_metadata import dataset_metadata

from sx import core, exported, markers, minibeam, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list

CHECK = Check(
    'A33',
    bounds=['2 analysed rows and 1-2 transformed rows of at most 2 values, any '
            'numbers and tokens; one or two batches; 6 programs, every subset '
            'of excluded outputs'],
    excluded=['float rounding'])

COLS = {c.name: c for c in (
    P.Col('x', 'dense', 'f'), P.Col('xv', 'dense', 'f', (2,)),
    P.Col('n', 'dense', 'i'), P.Col('k', 'dense', 's'),
    P.Col('v', 'varlen', 'f'), P.Col('vk', 'varlen', 's'),
    P.Col('r', 'ragged', 'f'), P.Col('sp', 'sparse', 'f', (4,)))}


def dense(i):
  return {'a': tft.scale_to_0_1(i['x']), 'b': i['xv'] - tft.mean(i['x']),
          'c': i['n'] + 1, 'd': tft.compute_and_apply_vocabulary(i['k'])}


def lists(i):
  return {'v': tft.scale_by_min_max(i['v'], 0.0, 2.0), 'k': i['vk'],
          't': tft.compute_and_apply_vocabulary(i['vk'], num_oov_buckets=1)}


def ragged(i):
  return {'r': i['r'] - tft.min(i['x']), 'x': i['x']}


def sparse(i):
  tft.experimental.annotate_true_sparse_output(i['sp'])
  return {'s': i['sp'], 'm': tft.max(i['sp']) - i['x']}


def plain(i):
  return {'y': i['x'] * 2.0, 'z': i['n']}


PROGRAMS = {'dense': (dense, 'x xv n k'), 'lists': (lists, 'v vk'),
            'ragged': (ragged, 'r x'), 'sparse': (sparse, 'sp x'),
            'plain': (plain, 'x n')}


def rows_of(env, cols, n, tag):
  def new(c, m):
    return {'f': lambda: env.real(m, -50, 50), 's': lambda: env.tok(m, 12),
            'i': lambda: env.int(m, -20, 20)}[c.dt]()
  rows = []
  for j in range(n):
    r = {}
    for c in cols:
      nm = f'{c.name}{tag}{j}'
      if c.kind == 'dense':
        r[c.name] = [new(c, f'{nm}_{i}') for i in range(
            int(np.prod(c.shape)) if c.shape else 1)]
      else:
        least = 1 if j == 0 and not tag else 0
        m = least + env.choose(3 - least, nm + 'len')
        vals = [new(c, f'{nm}_{i}') for i in range(m)]
        r[c.name] = (list(zip((1, 3), vals)) if c.kind == 'sparse' else vals)
    rows.append(r)
  return rows


FEATURES = {'x': tf.io.FixedLenFeature([], tf.float32),
            'xv': tf.io.FixedLenFeature([2], tf.float32),
            'n': tf.io.FixedLenFeature([], tf.int64),
            'k': tf.io.FixedLenFeature([], tf.string),
            'v': tf.io.VarLenFeature(tf.float32),
            'vk': tf.io.VarLenFeature(tf.string),
            'r': tf.io.RaggedFeature(tf.float32, value_key='r',
                                     row_splits_dtype=tf.int64),
            'sp': tf.io.SparseFeature(['sp$i'], 'sp', tf.float32, [4],
                                      already_sorted=True)}


def instances_of(cols, rows):
  """The rows as a user writes instance dicts."""
  enc = lambda c, v: (markers.encode_scalar(v, np.dtype(c.np_dtype))
                      if core.active() else v)
  out = []
  for r in rows:
    d = {}
    for c in cols:
      vals = r[c.name]
      if c.kind == 'sparse':
        d[c.name] = [enc(c, v) for _, v in vals]
        d[c.name + '$i'] = [i for i, _ in vals]
        continue
      vals = [enc(c, v) for v in vals]
      d[c.name] = vals[0] if c.kind == 'dense' and not c.shape else vals
    out.append(d)
  return out


class Ways:
  """One analysis, and transforms of its data run in several ways."""

  def __init__(self, fn, cols, v1, exclude):
    b = self.b = P.Built(fn, cols, v1=v1, two_data=True)
    source = lambda name: P.source(b.p, 'tdata', name)
    with core.paused(), tft_context.Context(
        temp_dir=b.tmp, force_tf_compat_v1=v1):
      rb = ((source('again'), b.cfg), b.tfn) | 'Batches' >> (
          beam_impl.TransformDataset(output_record_batches=True))
      self.batches = rb[0]
      # after another use of the same transform with the other format
      self.examples = (b.out, b.out_md) | 'Encode' >> (
          beam_impl.EncodeTransformedDataset())
      self.batch_examples = rb | 'EncodeBatches' >> (
          beam_impl.EncodeTransformedDataset())
      self.less, self.less_md = ((source('less'), b.cfg), b.tfn) | 'Less' >> (
          beam_impl.TransformDataset(exclude_outputs=exclude))
      self.less_batches, _ = ((source('lessb'), b.cfg), b.tfn) | (
          'LessBatches' >> beam_impl.TransformDataset(
              exclude_outputs=exclude, output_record_batches=True))


class FromInstances:
  """The same analysis of instance dicts with a schema."""

  def __init__(self, fn, cols, v1, dirname, size=None):
    self.p = beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
        pipeline_type_check=False))
    md = dataset_metadata.DatasetMetadata.from_feature_spec(
        {c.name: FEATURES[c.name] for c in cols})
    with core.paused(), tft_context.Context(
        temp_dir=dirname, force_tf_compat_v1=v1, desired_batch_size=size):
      data = P.source(self.p, 'instances', 'instances')
      tdata = P.source(self.p, 'tinstances', 'tinstances')
      tfn = (data, md) | beam_impl.AnalyzeDataset(fn)
      self.out, _ = ((tdata, md), tfn) | beam_impl.TransformDataset()


def table(rb):
  return {n: [markers.decode(c) if core.active() else c
              for c in rb.column(k).to_pylist()]
          for k, n in enumerate(rb.schema.names)}


def rows_in(batches):
  out = []
  for rb, _ in batches:
    t = table(rb)
    # record batches hold ragged columns nested, under their own name
    out += [{(n + '$ragged_values' if n == 'r' else n): t[n][i] for n in t}
            for i in range(rb.num_rows)]
  return out


def example(data):
  e = tf.train.Example.FromString(data)
  out = {}
  for n, f in e.features.feature.items():
    kind = f.WhichOneof('kind')
    v = list(getattr(f, kind).value) if kind else []
    out[n] = [markers.decode(x) for x in v] if core.active() else v
  return out


def flat(v):
  return [] if v is None else as_list(v)


def same(env, got, want, label, absent=False):
  """The same rows; absent: a column without values may be left out."""
  env.check(len(got) == len(want), label + ': number of rows',
            Lazy(got, want))
  for g, w in zip(got, want):
    names = sorted(set(g) | set(w)) if absent else sorted(w)
    env.check(absent or sorted(g) == names, label + ': columns',
              Lazy(sorted(g), names))
    for n in names:
      a, b = flat(g.get(n)), flat(w.get(n))
      env.check(len(a) == len(b), label + ': number of values', Lazy(n, a, b))
      for x, y in zip(a, b):
        env.eq(x, y, label + ': value', Lazy(n, x, y))


def without(schema, out):
  """What the schema says of the other outputs."""
  mine = lambda n: n in out or n.split('$')[0] in out
  kept = type(schema)()
  kept.CopyFrom(schema)
  for fs in (kept.feature, kept.sparse_feature):
    left = sorted((f for f in fs if not mine(f.name)), key=lambda f: f.name)
    del fs[:]
    fs.extend(left)
  for g in kept.tensor_representation_group.values():
    for n in list(g.tensor_representation):
      if mine(n):
        del g.tensor_representation[n]
  for n in list(kept.tensor_representation_group):
    if not kept.tensor_representation_group[n].tensor_representation:
      del kept.tensor_representation_group[n]
  return kept


def case(name, exclude, v1=True, n=2, m=2, **kw):
  fn, used = PROGRAMS[name.split('.')[0]]
  cols = [COLS[c] for c in used.split()]

  @CHECK.case(name, bounds=f'{n}+{m} rows; columns {used}; without '
              f'{sorted(exclude)}', **kw)
  def run(env):
    w = env.once('w', lambda: Ways(fn, cols, v1, exclude))
    rows, fresh = rows_of(env, cols, n, ''), rows_of(env, cols, m, 'T')
    parts = env.split(fresh)
    run = w.b.run(spec.batches(env, cols, rows), env.sched(),
                  tbatches=[P.record_batch(cols, p) for p in parts])
    want = w.b.instances(run)
    env.check(len(want) == m, 'a row for each row', Lazy(want))
    same(env, rows_in(run.get(w.batches)), want, 'record batches')
    kept = [{k: v for k, v in r.items() if k.split('$')[0] not in exclude}
            for r in want]
    dec = lambda p: [markers.decode(r) if core.active() else r
                     for r in run.get(p)]
    same(env, dec(w.less), kept, 'outputs excluded')
    same(env, rows_in(run.get(w.less_batches)), kept,
         'outputs excluded (record batches)')
    same(env, [example(e) for e in run.get(w.examples)], want,
         'encoded instances', absent=True)
    same(env, [example(e) for e in run.get(w.batch_examples)], want,
         'encoded record batches', absent=True)
    full = without(P.schema_of(w.b, run), exclude)
    md = w.less_md
    less = run.get(md.deferred_metadata)[0] if hasattr(
        md, 'deferred_metadata') else md
    env.check(str(without(less.schema, ())) == str(full),
              'schema without the excluded outputs', Lazy(less.schema, full))


def joint_case(name, v1=True, deep_copy=False, n=2, batches=False, **kw):
  fn, used = PROGRAMS[name.split('.')[0]]
  cols = [COLS[c] for c in used.split()]

  @CHECK.case(name, bounds=f'{n} rows; columns {used}; one step and two', **kw)
  def run(env):
    a = env.once('a', lambda: P.Built(fn, cols, v1=v1))
    b = env.once('b', lambda: P.Built(fn, cols, v1=v1, transform='joint',
                                      deep_copy=deep_copy,
                                      record_batches=batches))
    rows = rows_of(env, cols, n, '')
    parts = [P.record_batch(cols, p) for p in env.split(rows)]
    r = a.run(parts, env.sched())
    want, schema = a.instances(r), P.schema_of(a, r)
    r = b.run(parts, env.sched())
    same(env, rows_in(r.get(b.out)) if batches else b.instances(r), want,
         'analysed and transformed in one step')
    got = P.schema_of(b, r)
    env.check(without(got, ()) == without(schema, ()), 'schema of one step',
              Lazy(got, schema))


def instance_case(name, v1=True, n=2, m=1, size=None, **kw):
  fn, used = PROGRAMS[name.split('.')[0]]
  cols = [COLS[c] for c in used.split()]

  @CHECK.case(name, bounds=f'{n}+{m} rows; columns {used}; given as instance '
              'dicts', **kw)
  def run(env):
    a = env.once('a', lambda: P.Built(fn, cols, v1=v1, two_data=True))
    b = env.once('b', lambda: FromInstances(fn, cols, v1, a.tmp + '_i', size))
    rows, fresh = rows_of(env, cols, n, ''), rows_of(env, cols, m, 'T')
    r = a.run([P.record_batch(cols, rows)],
              tbatches=[P.record_batch(cols, fresh)])
    want = a.instances(r)
    P.DATA['instances'] = instances_of(cols, rows)
    P.DATA['tinstances'] = instances_of(cols, fresh)
    r = minibeam.Run(env.sched())
    got = [markers.decode(e) if core.active() else e for e in r.get(b.out)]
    same(env, got, want, 'instance dicts')


class Reread:
  """A transform read from where it was published, in a pipeline of its own."""

  def __init__(self, path, cfg, v1, dirname, exclude=()):
    self.p = beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
        pipeline_type_check=False))
    with core.paused(), tft_context.Context(
        temp_dir=dirname, force_tf_compat_v1=v1):
      tfn = self.p | transform_fn_io.ReadTransformFn(path)
      source = lambda name: P.source(self.p, 'tdata', name)
      self.out, self.md = ((source('a'), cfg), tfn) | beam_impl.TransformDataset()
      self.batches, _ = ((source('b'), cfg), tfn) | 'Batches' >> (
          beam_impl.TransformDataset(output_record_batches=True))
      self.less, self.less_md = ((source('c'), cfg), tfn) | 'Less' >> (
          beam_impl.TransformDataset(exclude_outputs=exclude))
      self.examples = (self.out, self.md) | 'Encode' >> (
          beam_impl.EncodeTransformedDataset())
      self.less_examples = (self.less, self.less_md) | 'EncodeLess' >> (
          beam_impl.EncodeTransformedDataset())

  def check(self, env, want, schema, exclude, label):
    run = minibeam.Run(env.sched(2))
    dec = lambda p: [markers.decode(r) if core.active() else r
                     for r in run.get(p)]
    same(env, dec(self.out), want, label)
    env.check(without(self.md.schema, ()) == without(schema, ()),
              label + ': schema', Lazy(self.md.schema, schema))
    kept = [{k: v for k, v in r.items() if k.split('$')[0] not in exclude}
            for r in want]
    same(env, dec(self.less), kept, label + ', outputs excluded')
    env.check(without(self.less_md.schema, ()) == without(schema, exclude),
              label + ': schema without the excluded outputs',
              Lazy(self.less_md.schema, schema))
    same(env, rows_in(run.get(self.batches)), want, label + ', record batches')
    same(env, [example(e) for e in run.get(self.examples)], want,
         label + ', encoded', absent=True)
    same(env, [example(e) for e in run.get(self.less_examples)], kept,
         label + ', outputs excluded, encoded', absent=True)


def reread_case(name, exclude, v1=True, n=2, m=2, **kw):
  fn, used = PROGRAMS[name.split('.')[0]]
  cols = [COLS[c] for c in used.split()]

  @CHECK.case(name, bounds=f'{n}+{m} rows; columns {used}; published and read '
              'in another pipeline', **kw)
  def run(env):
    b = env.once('b', lambda: P.Built(fn, cols, v1=v1, two_data=True,
                                      publish=True))
    rows, fresh = rows_of(env, cols, n, ''), rows_of(env, cols, m, 'T')
    parts = env.split(fresh)
    r = b.run([P.record_batch(cols, rows)],
              tbatches=[P.record_batch(cols, p) for p in parts])
    want, schema = b.instances(r), P.schema_of(b, r)
    path = b.published(r)
    Reread(path, b.cfg, v1, b.tmp + '_r', exclude).check(
        env, want, schema, exclude, 'read again')


def copies(i):
  return dict(plain(i), k=i['k'],
              h=tft.hash_strings(i['k'], 3), v=i['v'],
              w=tf.sparse.map_values(tf.negative, i['v']),
              b=tft.apply_buckets(i['x'], [[-1.0, 2.0]]))


def ragged_copies(i):
  return dict(copies(i), r=i['r'] + 1.0)


def analysed(i):
  return {'y': i['x'] - tft.mean(i['x']), 'n': i['n']}


IN_PLACE = {'copies': (copies, 'x n k v'),
            'ragged_copies': (ragged_copies, 'x n k v r'),
            'plain': (plain, 'x n'),
            'analysed': (analysed, 'x n')}


def in_place_case(name, exclude, v1=True, m=2, **kw):
  fn, used = IN_PLACE[name.split('.')[0]]
  cols = [COLS[c] for c in used.split()]
  specs = {c.name: FEATURES[c.name] for c in cols}

  @CHECK.case(name, bounds=f'{m} rows; columns {used}; a program without '
              'analyses, traced without data', **kw)
  def run(env):
    b = env.once('b', lambda: P.Built(fn, cols, v1=v1, two_data=True))
    with P.Scratch() as s:
      with core.paused():
        refused = False
        try:
          impl_helper.analyze_in_place(
              fn, v1, specs, {c.name: exported.placeholder_spec(c)
                              for c in cols}, s.dir)
        except RuntimeError as e:
          refused = 'analyzers' in str(e)
          if not refused:
            raise
      env.check(refused == (fn is analysed), 'analyses are refused in place')
      if refused:
        return
      fresh = rows_of(env, cols, m, 'T')
      parts = env.split(fresh)
      r = b.run([P.record_batch(cols, fresh[:1])],
                tbatches=[P.record_batch(cols, p) for p in parts])
      want, schema = b.instances(r), P.schema_of(b, r)
      Reread(s.dir, b.cfg, v1, b.tmp + '_r', exclude).check(
          env, want, schema, exclude, 'analysed in place')


case('dense', {'a', 'd'}, shards=2, budget=15)
case('dense.one', {'b'}, shards=2, budget=15, quick=False)
case('dense.v2', {'a'}, v1=False, shards=1, budget=15)
case('lists', {'k'}, shards=2, budget=15)
case('lists.one', {'t', 'v'}, shards=2, budget=15)
case('ragged', {'r'}, shards=2, budget=12)
case('ragged.v2', {'x'}, v1=False, shards=1, budget=12)
case('sparse', {'s'}, shards=2, budget=12)
case('sparse.one', {'m'}, shards=2, budget=12)
case('sparse.v2', {'m'}, v1=False, shards=1, budget=12)
case('plain', set(), shards=1, budget=8)
case('plain.one', {'y'}, shards=1, budget=8)
for _n in ('dense', 'lists', 'sparse', 'ragged'):
  joint_case(_n + '.joint', shards=1, budget=10)
  joint_case(_n + '.joint_copied', deep_copy=True, shards=1, budget=10)
joint_case('dense.joint_v2', v1=False, shards=1, budget=10)
joint_case('lists.joint_batches', batches=True, shards=1, budget=8)
joint_case('ragged.joint_batches', batches=True, shards=1, budget=8)
for _n in ('dense', 'lists', 'sparse', 'ragged', 'plain'):
  instance_case(_n + '.instances', shards=1, budget=10)
instance_case('dense.instances_v2', v1=False, shards=1, budget=10)
instance_case('lists.instances_1', size=1, shards=1, budget=10)
for _n, _e in (('dense', {'a'}), ('lists', {'k'}), ('ragged', {'x'}),
               ('sparse', {'m'})):
  reread_case(_n + '.reread', _e, shards=1, budget=10)
reread_case('dense.reread_v2', {'b'}, v1=False, shards=1, budget=10)
in_place_case('copies.in_place', {'k', 'b'}, shards=1, budget=10)
# (feature specs of ragged columns are refused with TF1)
in_place_case('ragged_copies.in_place_v2', {'v'}, v1=False, shards=1, budget=10)
in_place_case('analysed.in_place', (), shards=1, budget=3)
in_place_case('analysed.in_place_v2', (), v1=False, shards=1, budget=3)
