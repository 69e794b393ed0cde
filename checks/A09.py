"""Cached analysis gives the same result as analysing everything afresh."""
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import analyzers
from tensorflow_transform.beam import analyzer_cache, analysis_graph_builder
from tfx_bsl.tfxio.tensor_adapter import TensorAdapter

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, eqb, vec

CHECK = Check(
    'A09',
    bounds=['two or three datasets of 0-2 rows, two runs, every choice of which '
            'datasets each run analyses and reads; 12 kinds of analysis'],
    excluded=['float rounding', 'quantile streams beyond the exact buffer'])

COLS = [P.Col('x', 'dense', 'f'), P.Col('k', 'dense', 's')]


def numeric(i):
  x = i['x']
  return {'min': bc(tft.min(x), x), 'sum': bc(tft.sum(x), x),
          'mean': bc(tft.mean(x), x), 'var': bc(tft.var(x), x),
          'size': bc(tft.size(x), x), 'cov': bc(tft.covariance(
              tf.stack([x, 3 - x], 1), tf.float32), x, [2, 2])}


def numeric_want(env, o, row, rows):
  xs = [r['x'] for r in rows]
  env.eq(cell(o['size']), len(xs), 'size')
  env.eq(cell(o['sum']), spec.total(xs), 'sum')
  env.eq(cell(o['min']), spec.least(xs), 'min')
  env.eq(cell(o['mean']), spec.mean(xs), 'mean')
  env.eq(cell(o['var']), spec.var(xs), 'var')
  env.eq(as_list(o['cov'])[0], spec.var(xs), 'covariance')
  env.eq(as_list(o['cov'])[1], -spec.var(xs), 'covariance')


def nested(i):
  x = i['x']
  y = x - tft.mean(x)
  return {'y': y, 'max': bc(tft.max(y), x)}


def nested_want(env, o, row, rows):
  xs = [r['x'] for r in rows]
  m = spec.mean(xs)
  env.eq(cell(o['y']), row['x'] - m, 'value minus mean')
  env.eq(cell(o['max']), spec.greatest(xs) - m, 'max of a nested analysis')


def keyed(i):
  x, k = i['x'], i['k']
  out = {}
  kk, mean, var = P.private(analyzers, '_mean_and_var_per_key')(x, k)
  out.update(mk=vec(kk, x), mean=vec(mean, x), var=vec(var, x))
  with tf.compat.v1.name_scope('b'):
    kk, mn, mx = P.private(analyzers, '_min_and_max_per_key')(x, k)
  out.update(nk=vec(kk, x), min=vec(mn, x), max=vec(mx, x))
  kk, c = tft.count_per_key(k)
  out.update(ck=vec(kk, x), count=vec(c, x))
  return out


def keyed_want(env, o, row, rows):
  ks, xs = [r['k'] for r in rows], [r['x'] for r in rows]
  g = spec.group(ks, xs)
  for kn, n, f in (('mk', 'mean', spec.mean), ('mk', 'var', spec.var),
                   ('nk', 'min', spec.least), ('nk', 'max', spec.greatest),
                   ('ck', 'count', len)):
    spec.check_keyed(env, o[kn], as_list(o[n]), [(k, f(v)) for k, v in g],
                     n + ' per key')


def vocab(i):
  k = i['k']
  tft.vocabulary(k, vocab_filename='v', store_frequency=True)
  tft.vocabulary(k, weights=i['x'], vocab_filename='w')
  return {'id': tft.compute_and_apply_vocabulary(k, num_oov_buckets=1)}


def vocab_want(env, o, row, rows):
  g = sorted_vocab([(k, len(v)) for k, v in spec.group(
      [r['k'] for r in rows], rows)])
  for i, (k, _) in enumerate(g):
    if eqb(k, row['k']):
      env.eq(cell(o['id']), i, 'vocabulary index')
      return
  env.eq(cell(o['id']), len(g), 'index of an unseen token')


def sorted_vocab(g):
  """By decreasing count, then decreasing token."""
  out = []
  for k, c in g:
    i = 0
    while i < len(out) and bool(core.bor(
        out[i][1] > c, core.band(core.same(out[i][1], c), out[i][0] > k))):
      i += 1
    out.insert(i, (k, c))
  return out


def vocab_files(env, b, r, rows):
  ks = [r_['k'] for r_ in rows]
  for name, g in (('v', [(k, len(v)) for k, v in spec.group(ks, rows)]),
                  ('w', [(k, spec.total(v)) for k, v in spec.group(
                      ks, [r_['x'] for r_ in rows])])):
    lines = P.vocab_file(b, r, name)
    want = sorted_vocab(g)
    env.check(len(lines) == len(want), 'vocabulary entries', Lazy(lines, want))
    for l, (k, c) in zip(lines, want):
      if name == 'v':
        env.check(eqb(l, P.join([c, k], b' ')), 'vocabulary line',
                  Lazy(l, k, c))
      else:
        env.check(eqb(l, k), 'weighted vocabulary token', Lazy(l, k))


def buckets(i):
  x = i['x']
  return {'b': tft.bucketize(x, 2), 'h': vec(tft.histogram(i['k'], categorical=True)[0], x)}


def buckets_want(env, o, row, rows):
  xs = spec_sorted([r['x'] for r in rows])
  # two buckets: the boundary is the median of the sketch
  bound = xs[len(xs) // 2]
  env.eq(cell(o['b']), core.ite(row['x'] >= bound, 1, 0), 'bucket')
  counts = [len(v) for _, v in spec.group([r['k'] for r in rows], rows)]
  env.check(sorted(as_list(o['h'])) == sorted(counts), 'histogram counts',
            Lazy(o['h'], counts))


def spec_sorted(xs):
  out = []
  for x in xs:
    i = 0
    while i < len(out) and bool(out[i] < x):
      i += 1
    out.insert(i, x)
  return out


FNS = {'numeric': (numeric, numeric_want, None),
       'nested': (nested, nested_want, None),
       'keyed': (keyed, keyed_want, None),
       'vocab': (vocab, vocab_want, vocab_files),
       'buckets': (buckets, buckets_want, None)}

NAMES = ('b', 'a', 'c-1')


def subsets(names):
  return [[n for j, n in enumerate(names) if m >> j & 1]
          for m in range(1, 1 << len(names))]


def rows_for(env, names, sizes):
  data = {}
  for n in names:
    m = sizes[n]
    xs = env.reals(f'x{n}', m, 1, 100)
    ks = env.toks(f'k{n}', m)
    data[n] = [{'x': x, 'k': k} for x, k in zip(xs, ks)]
  return data


def case(name, ndata, sizes, v1=True, quick=True, shards=None, budget=30,
         reads=(0, 1)):
  fn, want, files = FNS[name.split('.')[0]]
  names = NAMES[:ndata]
  plans = [(s1, s2) for s1 in subsets(names) for s2 in subsets(names)]

  @CHECK.case(name, shards=shards or min(len(plans), 9), quick=quick,
              budget=budget, bounds=f'{ndata} datasets of {sizes} rows; every '
              'pair of dataset subsets for the two runs')
  def run(env):
    n_sh = shards or min(len(plans), 9)
    mine = plans[env.shard::n_sh]
    s1, s2 = mine[env.choose(len(mine), 'plan')]
    unread = env.choose(2, 'unread')
    b1 = env.once(('b1', tuple(s1)), lambda: P.CachedBuilt(
        fn, COLS, s1, s1, {}, v1=v1))
    data = rows_for(env, names, dict(zip(names, sizes)))
    batch = lambda d: [P.record_batch(COLS, [r]) for r in data[d]]
    env.assume(sum(len(data[d]) for d in s2) > 0)
    env.assume(sum(len(data[d]) for d in s1) > 0)
    r1 = b1.run({d: batch(d) for d in s1}, [P.record_batch(COLS, data[s1[0]] or [
        r for d in s1 for r in data[d]][:1])], schedule=env.sched())
    cache = b1.cache_of(r1)
    env.check(sorted(cache) == sorted(s1), 'datasets with cache output',
              Lazy(sorted(cache)))
    # the datasets the library says must be read in the second run
    need = env.once(('need', tuple(s1), tuple(s2)), lambda: must_read(
        fn, b1, s2, v1))
    full = [d for d in s2 if d in s1]
    if name.split('.')[0] != 'nested':
      env.check(sorted(need) == sorted(d for d in s2 if d not in full),
                'exactly the datasets without complete cache are read',
                Lazy(need, s2, full))
    read = [d for d in s2 if d in need or not unread]
    b2 = env.once(('b2', tuple(s1), tuple(s2), unread), lambda: P.CachedBuilt(
        fn, COLS, s2, read, {d: e for d, e in b1.entries.items() if d in s2 or
                             len(s1) == 1}, v1=v1))
    rows = [r for d in s2 for r in data[d]]
    allrows = [r for d in names for r in data[d]]
    r2 = b2.run({d: batch(d) for d in read}, [P.record_batch(COLS, allrows)],
                cache, schedule=env.sched())
    out = b2.instances(r2)
    env.check(len(out) == len(allrows), 'rows transformed')
    for row, o in zip(allrows, out):
      want(env, o, row, rows)
    if files:
      files(env, b2, r2, rows)
    env.check(not any(d in full for d in b2.entries) or not need or
              name.startswith('nested'),
              'complete cache is not written again', Lazy(b2.entries))


def must_read(fn, b1, s2, v1):
  from tensorflow_transform.beam import analyzer_cache as ac
  cache = {ac.DatasetKey(d): ac.DatasetCache({e: True for e in es}, None)
           for d, es in b1.entries.items()}
  with core.paused():
    keys = analysis_graph_builder.get_analysis_dataset_keys(
        fn, TensorAdapter(P.adapter_config(COLS)).OriginalTypeSpecs(),
        [ac.DatasetKey(d) for d in s2], cache, force_tf_compat_v1=v1)
  return [k.key for k in keys]


for _n in FNS:
  case(_n, 2, (1, 2))
  case(_n + '.empty', 2, (2, 0), quick=False)
  case(_n + '.three', 3, (1, 1, 1), quick=False, budget=90)


# -- longer histories and changed programs ------------------------------------


@CHECK.case('history', shards=7, budget=30, bounds='three runs over chosen '
            'subsets of two datasets of 1 and 2 rows, cache accumulating, one '
            'dataset possibly marked as not cached')
def history(env):
  names = NAMES[:2]
  subs = subsets(names)
  plans = [(a, b, c) for a in subs for b in subs for c in subs]
  mine = plans[env.shard::7]
  plan = mine[env.choose(len(mine), 'plan')]
  unc = ('a',) if env.choose(2, 'uncached') else ()
  data = rows_for(env, names, {'b': 1, 'a': 2})
  batch = lambda d: [P.record_batch(COLS, data[d])]
  allrows = [r for d in names for r in data[d]]
  store, used = {}, ()
  fn = lambda i: {**numeric(i), 'id': tft.compute_and_apply_vocabulary(
      i['k'], num_oov_buckets=1)}
  for step, ds in enumerate(plan):
    have = {d: sorted(e) for d, (e, _) in store.items() if d in ds}
    used = used + (tuple(ds),)
    b = env.once(('b', used, unc), lambda: P.CachedBuilt(
        fn, COLS, ds, ds, have, uncached=unc))
    r = b.run({d: batch(d) for d in ds}, [P.record_batch(COLS, allrows)],
              store, schedule=env.sched() if step == 2 else None)
    new = b.cache_of(r)
    env.check(all(d not in unc for d in new),
              'no cache is written for datasets marked as not cached')
    for d, (e, m) in new.items():
      old, om = store.get(d, ({}, []))
      store[d] = ({**old, **e}, m or om)
    rows = [x for d in ds for x in data[d]]
    if step == 2:
      for row, o in zip(allrows, b.instances(r)):
        numeric_want(env, o, row, rows)
        vocab_want(env, o, row, rows)


def changed_a(i):
  x, k = i['x'], i['k']
  y = x * 2
  return {'m': bc(tft.max(y), x), 's': bc(tft.sum(x), x),
          'id': tft.compute_and_apply_vocabulary(k, top_k=1)}


def changed_b(i):
  x, k = i['x'], i['k']
  y = x * 3
  return {'m': bc(tft.max(y), x), 's': bc(tft.sum(x), x),
          's2': bc(tft.sum(y), x), 'mean': bc(tft.mean(x), x),
          'id': tft.compute_and_apply_vocabulary(k)}


@CHECK.case('changed_program', shards=4, budget=20, bounds='the preprocessing '
            'changes between the two runs; one shared analysis')
def changed(env):
  data = rows_for(env, ['a', 'b'], {'a': 2, 'b': 1})
  batch = lambda d: [P.record_batch(COLS, data[d])]
  v1 = env.shard % 2 == 0
  one = env.once('one', lambda: P.CachedBuilt(
      changed_a, COLS, ['a'], ['a'], {}, v1=v1))
  cache = one.cache_of(one.run({'a': batch('a')}, batch('a')))
  two = env.once('two', lambda: P.CachedBuilt(
      changed_b, COLS, ['a', 'b'], ['a', 'b'], one.entries, v1=v1))
  rows = data['a'] + data['b']
  r = two.run({d: batch(d) for d in 'ab'}, [P.record_batch(COLS, rows)], cache,
              env.sched())
  xs = [r_['x'] for r_ in rows]
  for row, o in zip(rows, two.instances(r)):
    env.eq(cell(o['m']), spec.greatest(xs) * 3, 'maximum after the change')
    env.eq(cell(o['s']), spec.total(xs), 'shared sum')
    env.eq(cell(o['s2']), spec.total(xs) * 3, 'new sum')
    env.eq(cell(o['mean']), spec.mean(xs), 'new mean')
    vocab_want(env, o, row, rows)
