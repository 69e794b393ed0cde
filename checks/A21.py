"""Every transformed row conforms to the schema emitted with the transform."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_metadata.proto.v0 import schema_pb2

from sx import core, markers, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import bc, eqb

CHECK = Check(
    'A21',
    bounds=['2 analysed rows and 1-2 fresh rows of at most 2 values each '
            '(any numbers, seen or unseen tokens); 19 programs over dense, '
            'varlen, ragged and sparse columns'],
    excluded=['annotations (annotations_pb2 is absent from this build)',
              'string hashing (a hashed bucket is any bucket)'])

NOTE = ('bucketize_per_key maps keys it never analysed to -1, outside the '
        'domain it declares: a known finding.')

COLS = {c.name: c for c in (
    P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f'),
    P.Col('x2', 'dense', 'f', (2,)), P.Col('x22', 'dense', 'f', (2, 2)),
    P.Col('n', 'dense', 'i'), P.Col('n1', 'dense', 'i', (1,)),
    P.Col('k', 'dense', 's'), P.Col('l', 'dense', 's'),
    P.Col('v', 'varlen', 'f'), P.Col('vk', 'varlen', 's'),
    P.Col('vn', 'varlen', 'i'), P.Col('r', 'ragged', 'f'),
    P.Col('rk', 'ragged', 's'), P.Col('rr', 'ragged2', 'f'),
    P.Col('sp', 'sparse', 'f', (3,)))}


def rows_of(env, cols, n, tag):
  def count(k, name, j):
    # a column has some value in the analysed data (see A05)
    return (1 + env.choose(k - 1, name) if k > 2 else 1) if (
        j == 0 and tag == '') else env.choose(k, name)
  rows = [{} for _ in range(n)]
  for c in cols:
    new = {'f': lambda m: env.real(m, -50, 50), 's': lambda m: env.tok(m, 12),
           'i': lambda m: env.int(m, 0, 2)}[c.dt]
    for j, r in enumerate(rows):
      nm = f'{c.name}{tag}{j}'
      if c.kind == 'dense':
        k = int(np.prod(c.shape)) if c.shape else 1
        vals = [new(f'{nm}_{i}') for i in range(k)]
        r[c.name] = vals if c.shape else vals[0]
      elif c.kind == 'ragged2':
        r[c.name] = [[new(f'{nm}_{i}_{q}') for q in range(
            count(2, f'{nm}_{i}len', i + j))]
                     for i in range(count(3, nm + 'len', j))]
      else:
        m = count(3, nm + 'len', j)
        vals = [new(f'{nm}_{i}') for i in range(m)]
        r[c.name] = ([(2 * i, v) for i, v in enumerate(vals)]
                     if c.kind == 'sparse' else vals)
  return rows


# -- what a row must look like ---------------------------------------------------


def nested(v):
  """(shape, flat values) of a row's cell."""
  if isinstance(v, np.ndarray):
    return v.shape, spec.as_list(v)
  if isinstance(v, (list, tuple)):
    flat = spec.as_list(v)
    if v and isinstance(v[0], (list, tuple, np.ndarray)):
      s = {nested(e)[0] for e in v}
      return (len(v),) + (s.pop() if len(s) == 1 else (None,)), flat
    return (len(v),), flat
  return (), [v]


def type_ok(t, v):
  if isinstance(v, core.Sym):
    return isinstance(v, (markers.SStr, core.STok)) == (
        t == schema_pb2.BYTES)
  if t == schema_pb2.BYTES:
    return isinstance(v, (bytes, str))
  if t == schema_pb2.INT:
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)
  return isinstance(v, (float, np.floating, int))


def outputs_of(schema):
  """Names of the output columns the schema describes, with repetitions."""
  parts = set()
  names = []
  for s in schema.sparse_feature:
    names.append(s.name)
    parts |= {i.name for i in s.index_feature} | {s.value_feature.name}
  for g in schema.tensor_representation_group.values():
    for name, rep in g.tensor_representation.items():
      if rep.WhichOneof('kind') == 'ragged_tensor':
        names.append(name)
        parts.add(rep.ragged_tensor.feature_path.step[0])
        parts |= {p.row_length for p in rep.ragged_tensor.partition
                  if p.row_length}
  for f in schema.feature:
    if f.name not in parts:
      names.append(f.name)
  return sorted(names)


def conforms(env, schema, row, below):
  by_name = {f.name: f for f in schema.feature}
  env.check(sorted(by_name) == sorted(row), 'columns of the row are the '
            'features of the schema', Lazy(sorted(by_name), sorted(row)))
  for name, f in by_name.items():
    if name not in row:
      continue
    shape, flat = nested(row[name])
    for v in flat:
      env.check(type_ok(f.type, v), 'value type', Lazy(name, f.type, v))
    if f.HasField('shape'):
      want = tuple(d.size for d in f.shape.dim)
      env.check(shape == want, 'declared shape', Lazy(name, shape, want))
    elif f.HasField('value_count'):
      if f.value_count.min:
        env.check(len(flat) >= f.value_count.min, 'least number of values')
      if f.value_count.max:
        env.check(len(flat) <= f.value_count.max, 'greatest number of values',
                  Lazy(name, flat, f.value_count.max))
    if f.HasField('int_domain') and f.int_domain.is_categorical:
      lo = markers.decode(int(f.int_domain.min))
      hi = markers.decode(int(f.int_domain.max))
      for v in flat:
        if below and eqb(v, -1):
          env.check(lo <= -1, f'domain holds the bucket of an unseen key '
                    f'({below})', Lazy(name, v, lo, hi))
          continue
        env.check(core.band(v >= lo, v <= hi), 'value lies in the declared '
                  'domain', Lazy(name, v, lo, hi))
  for s in schema.sparse_feature:
    values = row.get(s.value_feature.name)
    if values is None:
      env.check(False, 'sparse values column', Lazy(s.name))
      continue
    m = len(nested(values)[1])
    for i in s.index_feature:
      idx = nested(row.get(i.name, ()))[1]
      env.check(len(idx) == m, 'one index per sparse value',
                Lazy(s.name, idx, m))
      d = by_name[i.name].int_domain if i.name in by_name else None
      if d is not None and by_name[i.name].HasField('int_domain'):
        for e in idx:
          env.check(core.band(e >= d.min, e <= d.max), 'sparse index domain',
                    Lazy(s.name, e, d))
  for g in schema.tensor_representation_group.values():
    for name, rep in g.tensor_representation.items():
      if rep.WhichOneof('kind') != 'ragged_tensor':
        continue
      count = None
      for p in rep.ragged_tensor.partition:
        if p.row_length:
          lens = nested(row[p.row_length])[1]
          if count is not None:
            env.check(len(lens) == count, 'row lengths', Lazy(name, lens))
          count = sum(int(core.concrete(e)) if core.is_sym(e) else int(e)
                      for e in lens)
        else:
          count = None
      total = len(nested(row[rep.ragged_tensor.feature_path.step[0]])[1])
      if count is not None:
        env.check(total == count, 'ragged values match the row lengths',
                  Lazy(name, total, count))


# -- programs --------------------------------------------------------------------


def tokens(i):
  return {'a': tft.compute_and_apply_vocabulary(i['k']),
          'b': tft.compute_and_apply_vocabulary(i['k'], num_oov_buckets=2,
                                                vocab_filename='b'),
          'c': tft.compute_and_apply_vocabulary(i['l'], default_value=7,
                                                top_k=1),
          'd': tft.compute_and_apply_vocabulary(i['l'], default_value=-5,
                                                frequency_threshold=2)}


def token_lists(i):
  return {'v': tft.compute_and_apply_vocabulary(i['vk'], num_oov_buckets=1),
          'r': tft.compute_and_apply_vocabulary(i['rk'], default_value=-3),
          'n': tft.compute_and_apply_vocabulary(i['n1'])}


def shared(i):
  f = tft.vocabulary(tf.concat([i['k'], i['l']], 0), vocab_filename='shared')
  a = tft.apply_vocabulary(i['k'], f)
  return {'k': a, 'again': a, 'l': tft.apply_vocabulary(
      i['l'], f, default_value=3), 'n': tft.apply_vocabulary(
          tf.strings.as_string(i['n']), f, num_oov_buckets=3),
          'shifted': a + 1}


def looked_up(i):
  f = tft.vocabulary(i['k'], vocab_filename='lk')

  def lk(t, path):
    init = tf.lookup.TextFileInitializer(
        path, tf.string, tf.lookup.TextFileIndex.WHOLE_LINE, tf.int64,
        tf.lookup.TextFileIndex.LINE_NUMBER)
    table = tf.lookup.StaticVocabularyTable(init, 2)
    return table.lookup(t), table.size()
  return {'a': tft.apply_vocabulary(i['l'], f, lookup_fn=lk, num_oov_buckets=2)}


def buckets(i):
  s = tft.apply_buckets(i['sp'], tft.quantiles(i['x'], 2, 0.01))
  tft.experimental.annotate_true_sparse_output(s)
  return {'q': tft.bucketize(i['x'], 3), 'v': tft.bucketize(i['v'], 2),
          'a': tft.apply_buckets(i['y'], [[-1.0, 0.5, 20.0]]),
          's': s,
          'r': tft.bucketize(i['r'], 2),
          'p': tft.apply_buckets_with_interpolation(i['x'], [[0.0, 5.0]])}


def bucket_count(i):
  b, q = tft.apply_buckets(i['x'], [[0.0, 3.0]]), tft.bucketize(i['y'], 3)
  k = tft.compute_and_apply_vocabulary(i['k'], num_oov_buckets=1)
  num = tft.get_num_buckets_for_transformed_feature
  return {'b': b, 'q': q, 'k': k, 'bn': bc(num(b), i['x']),
          'qn': bc(num(q), i['x']), 'kn': bc(num(k), i['x'])}


def elementwise(i):
  return {'q': tft.bucketize(i['x2'], 2, elementwise=True),
          's': tft.scale_to_0_1(i['x2'], elementwise=True)}


def per_key(i):
  return {'q': tft.bucketize_per_key(i['x'], i['k'], 3),
          's': tft.scale_to_z_score_per_key(i['x'], i['k'])}


def hashed(i):
  return {'h': tft.hash_strings(i['k'], 5), 'v': tft.hash_strings(i['vk'], 2)}


def shapes(i):
  return {n: tf.identity(i[n]) if isinstance(i[n], tf.Tensor) else i[n]
          for n in i}


def sparse(i):
  tft.experimental.annotate_true_sparse_output(i['sp'])
  return {'sp': i['sp'], 'x': i['x']}


def lists(i):
  return {'n': tft.ngrams(i['vk'], (1, 2), ' '),
          'w': tft.word_count(i['vk']),
          'd': tft.deduplicate_tensor_per_row(i['vk']),
          'f': tft.sparse_tensor_to_dense_with_shape(
              i['v'], [None, 2], default_value=0.0),
          'l': tft.sparse_tensor_left_align(i['sp'])}


def counted(i):
  ids = tft.compute_and_apply_vocabulary(i['vk'], num_oov_buckets=1)
  a, w = tft.tfidf(ids, 3)
  return {'ids': ids, 'a': a, 'w': w, 'bow': tft.bag_of_words(
      i['vk'], (1, 1), ' ')}


def annotated(i):
  s = i['v']
  t = tf.sparse.map_values(lambda e: e + 1.0, i['v'])
  tft.experimental.annotate_sparse_output_shape(s, tf.constant([4]))
  tft.experimental.annotate_true_sparse_output(t)
  return {'s': s, 't': t, 'u': tf.sparse.map_values(tf.negative, i['v'])}


def deep_sparse(i):
  s = tf.sparse.expand_dims(i['v'], 1)
  tft.experimental.annotate_sparse_output_shape(s, tf.constant([1, 5]))
  return {'s': s, 'o': tf.expand_dims(i['x2'], 1)}


def two_names(i):
  k = tft.compute_and_apply_vocabulary(i['k'], num_oov_buckets=1)
  v = tft.bucketize(i['v'], 2)
  tft.experimental.annotate_sparse_output_shape(v, tf.constant([4]))
  r = tft.compute_and_apply_vocabulary(i['rk'])
  return {'a': k, 'b': k, 'v': v, 'w': tf.SparseTensor(
      v.indices, v.values, v.dense_shape), 'r': r, 'q': r}


def domain_from_table(i):
  ids = tft.compute_and_apply_vocabulary(i['k'], default_value=0)
  return {'a': ids, 'b': tf.identity(ids), 'c': tf.stack([ids, ids], 1)}


PROGRAMS = {
    'tokens': (tokens, 'k l'), 'token_lists': (token_lists, 'vk rk n1'),
    'shared': (shared, 'k l n'), 'looked_up': (looked_up, 'k l'),
    'buckets': (buckets, 'x y v r sp'), 'bucket_count': (bucket_count, 'x y k'),
    'elementwise': (elementwise, 'x2'), 'per_key': (per_key, 'x k'),
    'hashed': (hashed, 'k vk'), 'shapes': (shapes, 'x2 x22 n n1 k'),
    'varlens': (shapes, 'v vk vn'), 'raggeds': (shapes, 'r rk rr'),
    'sparse': (sparse, 'sp x'), 'lists': (lists, 'vk v sp'),
    'counted': (counted, 'vk'), 'annotated': (annotated, 'v'),
    'deep_sparse': (deep_sparse, 'v x2'),
    'domain_from_table': (domain_from_table, 'k'),
    'two_names': (two_names, 'k v rk'),
}


# The outputs that name buckets or vocabulary entries.
CATEGORICAL = {
    'tokens': 'a b c d', 'token_lists': 'v r n', 'shared': 'k again l n',
    'looked_up': 'a', 'buckets': 'q v a s r', 'bucket_count': 'b q k',
    'per_key': 'q', 'hashed': '', 'counted': 'ids',
    'domain_from_table': 'a', 'two_names': 'a b v w r q',
}


def declares(env, name, schema):
  by_name = {f.name: f for f in schema.feature}
  values = {s.name: s.value_feature.name for s in schema.sparse_feature}
  for n in CATEGORICAL.get(name, '').split():
    f = by_name.get(values.get(n, n)) or by_name.get(n + '$ragged_values')
    if f is None:
      env.check(False, 'categorical column', Lazy(n, sorted(by_name)))
      continue
    env.check(f.HasField('int_domain') and f.int_domain.is_categorical,
              'bucket and token indices declare a categorical domain',
              Lazy(n, f))
  if name == 'buckets':
    d = by_name['a'].int_domain
    env.check((d.min, d.max) == (0, 3), 'domain of three boundaries', Lazy(d))


def meaning(env, name, row):
  """What else a row of this program must satisfy."""
  if name == 'bucket_count':
    for n in 'bqk':
      v, m = (spec.cell(row[c]) for c in (n, n + 'n'))
      env.check(core.band(v >= 0, v < m), 'number of buckets', Lazy(n, v, m))


def case(name, v1=True, n=2, m=1, unseen=True, **kw):
  prog = name.split('.')[0]
  fn, used = PROGRAMS[prog]
  cols = [COLS[c] for c in used.split()]

  @CHECK.case(name, bounds=f'{n}+{m} rows; columns {used}', **kw)
  def run(env):
    seen = {}

    def recorded(i):
      out = fn(i)
      seen['names'] = sorted(out)
      return out
    b, names = env.once('p', lambda: (lambda p: (p, seen['names']))(P.Built(
        recorded, cols, v1=v1, two_data=True)))
    rows = rows_of(env, cols, n, '')
    fresh = rows_of(env, cols, m, 'T')
    if not unseen:
      for r in fresh:
        env.assume(any(eqb(r['k'], o['k']) for o in rows))
    run_ = b.run(spec.batches(env, cols, rows), env.sched(),
                 tbatches=[P.record_batch(cols, fresh + rows[:1])])
    schema = P.schema_of(b, run_)
    env.check(outputs_of(schema) == names, 'each output column once',
              Lazy(outputs_of(schema), names))
    declares(env, prog, schema)
    out = b.instances(run_)
    env.check(len(out) == m + 1, 'rows')
    for o in out:
      conforms(env, schema, o, 'bucketize_per_key' if unseen and
               prog == 'per_key' else None)
      meaning(env, prog, o)


for _n in PROGRAMS:
  if _n != 'per_key':
    case(_n, shards=2, budget=10)
case('per_key', unseen=False, shards=2, budget=10)
case('per_key.unseen', shards=1, budget=8)
for _n in ('tokens', 'buckets', 'raggeds', 'annotated', 'shapes',
           'deep_sparse', 'two_names', 'shared', 'looked_up', 'counted'):
  case(_n + '.v2', v1=False, shards=1, budget=10, quick=_n != 'deep_sparse')
for _n in ('tokens', 'shared', 'bucket_count', 'token_lists', 'per_key'):
  case(_n + '.more', n=3, m=2, unseen=_n != 'per_key', shards=4, budget=60,
       quick=False)
