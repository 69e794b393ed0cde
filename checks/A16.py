"""Transforming a row does not depend on which batch it is in."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list

CHECK = Check(
    'A16',
    bounds=['3 rows of at most 2 values (or [2] vectors); every split of the '
            'batch into two, single-row batches and the reversed batch'],
    assumptions=['the tfx_bsl quantile sketch is replaced by its contract'],
    excluded=['string hashing', 'mappers documented as batch-dependent '
              '(segment_indices)', 'padding widths of sparse outputs'])

SF = lambda dt: tf.SparseTensorSpec([None, None], dt)
RF = lambda dt: tf.RaggedTensorSpec([None, None], dt, 1, tf.int64)


def mappers(i):
  """Every row-wise mapping without a full pass, over every layout."""
  b = tf.constant([[1., 2., 4.]])
  o = {
      'ngrams': tft.ngrams(i['ss'], (1, 2), ' '),
      'bow': tft.bag_of_words(i['ss'], (1, 2), ' '),
      'wc': tft.word_count(i['ss']),
      'wcr': tft.word_count(i['rs']),
      'dedup': tft.deduplicate_tensor_per_row(i['ss']),
      'dedup_dense': tft.deduplicate_tensor_per_row(i['xv']),
      'left': tft.sparse_tensor_left_align(i['sx']),
      'dense': tft.sparse_tensor_to_dense_with_shape(i['sx'], [None, 3], -1.),
  }
  for k in ('x', 'sx', 'rx', 'xv'):
    o['buckets_' + k] = tft.apply_buckets(i[k], b)
  o['interp'] = tft.apply_buckets_with_interpolation(i['x'], b)
  o['interp_r'] = tft.apply_buckets_with_interpolation(i['rx'], b)
  return o


def compare(env, got, want, label):
  """Content of a row in the batch against the row on its own."""
  env.check(len(got) == len(want), label + ' layout', Lazy(got, want))
  for a, b in zip(got, want):
    if isinstance(a, tuple):
      env.check(a[0] == b[0], label + ' index', Lazy(a, b))
      a, b = a[1], b[1]
    env.eq(a, b, label)


def feed(rows):
  f32 = np.float32
  return dict(
      x=[r['x'] for r in rows], xv=P.arr([r['xv'] for r in rows], f32),
      sx=P.cells([r['sx'] for r in rows], f32, 3),
      rx=P.ragged([[v for _, v in r['sx']] for r in rows], f32),
      ss=P.cells([r['ss'] for r in rows], object, 3),
      rs=P.ragged([[v for _, v in r['ss']] for r in rows], object))


def graph_case(keys, name, n=3):
  @CHECK.case(name, shards=3, budget=12,
              bounds=f'{", ".join(keys)}: {n} rows against single rows and '
              'the reversed batch')
  def run(env):
    g = env.once('g', lambda: P.GraphFn(
        lambda i: {k: v for k, v in mappers(i).items() if k in keys},
        {'x': tf.TensorSpec([None], tf.float32),
         'xv': tf.TensorSpec([None, 2], tf.float32),
         'sx': SF(tf.float32), 'rx': RF(tf.float32), 'ss': SF(tf.string),
         'rs': RF(tf.string)}))
    rows = []
    str_needed = any(k in keys for k in ('ngrams', 'bow', 'wc', 'wcr',
                                         'dedup'))
    for j in range(n):
      m1 = 0 if str_needed else env.choose(8, f'm{j}')
      m2 = env.choose(8, f's{j}') if str_needed else 0
      rows.append({
          'x': env.real(f'x{j}', -9, 9), 'xv': env.reals(f'v{j}_', 2, -9, 9),
          'sx': [(c, env.real(f'y{j}_{c}', -9, 9)) for c in range(3)
                 if m1 >> c & 1],
          'ss': [(c, env.tok(f't{j}_{c}', 6)) for c in range(3)
                 if m2 >> c & 1]})
    whole = {k: P.rows_of(v) for k, v in g(**feed(rows)).items()}
    back = {k: P.rows_of(v) for k, v in g(**feed(rows[::-1])).items()}
    for k in whole:
      env.check(len(whole[k]) == n, 'row count', Lazy(k, whole[k]))
    for j in range(n):
      one = {k: P.rows_of(v) for k, v in g(**feed([rows[j]])).items()}
      for k in whole:
        compare(env, whole[k][j], one[k][0], k + ' of a row')
        compare(env, whole[k][j], back[k][n - 1 - j], k + ' reversed')


graph_case(('ngrams', 'wc', 'wcr'), 'ngrams')
graph_case(('bow', 'dedup', 'dedup_dense'), 'dedup', 2)
graph_case(('left', 'dense'), 'sparse')
graph_case(('buckets_x', 'buckets_sx', 'buckets_rx', 'buckets_xv', 'interp',
            'interp_r'), 'buckets', 2)

COLS = [P.Col('x', 'dense', 'f'), P.Col('xv', 'dense', 'f', (2,)),
        P.Col('v', 'varlen', 'f'), P.Col('r', 'ragged', 'f'),
        P.Col('k', 'dense', 's'), P.Col('kv', 'varlen', 's'),
        P.Col('i', 'varlen', 'i')]

FULL = {
    'scale': lambda i: {
        'x': tft.scale_to_0_1(i['x']), 'xv': tft.scale_to_z_score(
            i['xv'], elementwise=True), 'v': tft.scale_by_min_max(i['v']),
        'r': tft.scale_to_z_score(i['r'])},
    'scale_per_key': lambda i: {
        'x': tft.scale_to_0_1_per_key(i['x'], i['k']),
        'z': tft.scale_to_z_score_per_key(i['x'], i['k'])},
    'vocabulary': lambda i: {
        'k': tft.compute_and_apply_vocabulary(i['k']),
        'kv': tft.compute_and_apply_vocabulary(i['kv'], top_k=1,
                                               default_value=-7)},
    'tfidf': lambda i: dict(zip('ab', tft.tfidf(i['i'], 3))),
    'bucketize': lambda i: {'x': tft.bucketize(i['x'], 2),
                            'v': tft.bucketize(i['v'], 2)},
}
NEEDS = {'scale': ('x', 'xv', 'v', 'r'), 'scale_per_key': ('x', 'k'),
         'vocabulary': ('k', 'kv'), 'tfidf': ('i',), 'bucketize': ('x', 'v')}


def full_case(name, v1=True, quick=True):
  cols = [c for c in COLS if c.name in NEEDS[name]]

  @CHECK.case(name + ('' if v1 else '_v2'), shards=4, quick=quick,
              bounds='2 analysed rows; 3 transformed rows in one batch, '
              'reversed, and each alone; an empty batch in between')
  def run(env):
    b = env.once('p', lambda: P.Built(FULL[name], cols, v1=v1, two_data=True))

    def row(tag):
      r = {}
      for c in cols:
        n = (2 if c.shape else 1) if c.kind == 'dense' else env.choose(
            3, f'n_{c.name}{tag}') if tag != 'a1' else 1
        key = f'{c.name}{tag}_'
        r[c.name] = (env.reals(key, n, -9, 9) if c.dt == 'f' else
                     env.toks(key, n) if c.dt == 's' else
                     env.ints(key, n, 0, 2))
      return r
    data = [row('a0'), row('a1')]
    rows = [row(f'b{j}') for j in range(2)] + [data[0]]
    rb = lambda rs: P.record_batch(cols, rs)
    n = len(rows)
    tb = [rb(rows), rb(rows[::-1])] + [rb([r]) for r in rows]
    out = b.instances(b.run([rb(data)], None, tb))
    env.check(len(out) == 3 * n, 'row count', Lazy(len(out)))
    for j in range(n):
      one, rev = out[2 * n + j], out[2 * n - 1 - j]
      for k in out[j]:
        compare(env, as_list(out[j][k]), as_list(one[k]), k + ' of a row')
        compare(env, as_list(out[j][k]), as_list(rev[k]), k + ' reversed')


for _n in FULL:
  full_case(_n)
full_case('scale', v1=False, quick=False)
full_case('vocabulary', v1=False, quick=False)
