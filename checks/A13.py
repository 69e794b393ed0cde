"""Analyses computed together give what each gives when computed alone."""
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import analyzers

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc

CHECK = Check(
    'A13',
    bounds=['1-3 rows, any reals in [-100, 100] / any tokens, at most 3 '
            'batches, six distribution schedules; subsets of 22 analyses, '
            'forwards and in reverse; 0-2 datasets read from cache'],
    excluded=['float rounding', 'quantile streams beyond the exact buffer'])

NOTE = ('The reference for each analysis is the same real code running that '
        'analysis on its own (where nothing is packed with it).')

COLS = [P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f', (2,)),
        P.Col('n', 'dense', 'i'), P.Col('k', 'dense', 's'),
        P.Col('v', 'varlen', 'f')]



def own(key, keys, values):
  """The value of each row's own key."""
  hit = tf.equal(key[:, tf.newaxis], keys[tf.newaxis, :])
  return tf.reduce_sum(tf.where(hit, tf.ones_like(key[:, tf.newaxis], values.dtype)
                                * values, tf.zeros([], values.dtype)), axis=1)


UNITS = {
    'min': lambda i: bc(tft.min(i['x']), i['x']),
    'max': lambda i: bc(tft.max(i['x']), i['x']),
    'sum': lambda i: bc(tft.sum(i['x']), i['x']),
    'size': lambda i: bc(tft.size(i['x']), i['x']),
    'mean': lambda i: bc(tft.mean(i['x']), i['x']),
    'var': lambda i: bc(tft.var(i['x']), i['x']),
    'score': lambda i: tft.scale_to_0_1(i['x']),
    'imin': lambda i: bc(tft.min(i['n']), i['x']),
    'imax': lambda i: bc(tft.max(i['n']), i['x']),
    'isum': lambda i: bc(tft.sum(i['n']), i['x']),
    'imean': lambda i: bc(tft.mean(i['n']), i['x']),
    'ymin': lambda i: bc(tft.min(i['y'], reduce_instance_dims=False), i['x'], [2]),
    'ysum': lambda i: bc(tft.sum(i['y'], reduce_instance_dims=False), i['x'], [2]),
    'ymean': lambda i: bc(tft.mean(i['y'], reduce_instance_dims=False), i['x'], [2]),
    'yall': lambda i: bc(tft.sum(i['y']), i['x']),
    'cov': lambda i: bc(tft.covariance(i['y'], tf.float32), i['x'], [2, 2]),
    'quant': lambda i: bc(tft.quantiles(i['x'], 2, epsilon=0.01), i['x'], [1, 1]),
    'quant3': lambda i: bc(tft.quantiles(i['x'], 3, epsilon=0.01), i['x'], [1, 2]),
    'vsum': lambda i: bc(tft.sum(i['v']), i['x']),
    'vmean': lambda i: bc(tft.mean(i['v']), i['x']),
    # aggregations which are not packed
    'keys': lambda i: own(i['k'], *tft.count_per_key(i['k'])),
    'kmax': lambda i: own(i['k'], *P.private(analyzers, '_min_and_max_per_key')(
        i['x'], i['k'])[::2]),
    'voc': lambda i: tft.compute_and_apply_vocabulary(i['k'], num_oov_buckets=1),
    # a second phase
    'mean2': lambda i: bc(tft.mean(i['x'] - tft.mean(i['x'])), i['x']),
    'max2': lambda i: bc(tft.max(tft.scale_to_0_1(i['x']) - i['y'][:, 0]), i['x']),
    'sum2': lambda i: bc(tft.sum(i['x'] - tft.min(i['x'])), i['x']),
}


def program(units):
  def fn(i):
    return {u: UNITS[u](i) for u in units}
  fn.__name__ = '_'.join(units)
  return fn


def used(units):
  cols = {'x'}
  for u in units:
    for c, us in (('n', ('imin', 'imax', 'isum', 'imean')),
                  ('y', ('ymin', 'ysum', 'ymean', 'yall', 'cov', 'max2')),
                  ('k', ('keys', 'kmax', 'voc')), ('v', ('vsum', 'vmean'))):
      if u in us:
        cols.add(c)
  return [c for c in COLS if c.name in cols]


def symbolic(env, cols, n, tag=''):
  rows = [{} for _ in range(n)]
  for c in cols:
    for j, r in enumerate(rows):
      if c.name == 'y':
        r['y'] = env.reals(f'y{tag}{j}_', 2, -100, 100)
      elif c.name == 'v':
        w = env.choose(3, f'width{tag}{j}')
        r['v'] = env.reals(f'v{tag}{j}_', w, -100, 100)
    if c.name == 'x':
      vals = env.reals(f'x{tag}', n, -100, 100)
    elif c.name == 'n':
      vals = env.ints(f'n{tag}', n, -1000, 1000)
    elif c.name == 'k':
      vals = env.toks(f'k{tag}', n)
    else:
      continue
    for r, x in zip(rows, vals):
      r[c.name] = x
  if any(c.name == 'v' for c in cols):
    env.assume(n == 0 or any(len(r['v']) for r in rows))
  return rows


def compare(env, got, alone, units):
  """Every output of the packed run is the one of the run on its own."""
  for j, o in enumerate(got):
    for u in units:
      a, e = as_list(o[u]), as_list(alone[u][j][u])
      env.check(len(a) == len(e), f'{u} shape', Lazy(a, e))
      for p, q in zip(a, e):
        env.eq(p, q, u)


def case(name, units, n=2, v1=True, **kw):
  cols = used(units)

  @CHECK.case(name, bounds=f'{n} rows; {", ".join(units)}', **kw)
  def run(env):
    rev = env.choose(2, 'reversed')
    order = units[::-1] if rev else units
    b = env.once(('p', rev), lambda: P.Built(program(order), cols, v1=v1))
    one = {u: env.once(u, lambda: P.Built(program([u]), cols, v1=v1))
           for u in units}
    rows = symbolic(env, cols, n)
    got = b.instances(b.run(spec.batches(env, cols, rows), env.sched()))
    env.check(len(got) == n, 'rows')
    alone = {u: p.instances(p.run([P.record_batch(cols, rows)]))
             for u, p in one.items()}
    compare(env, got, alone, units)


case('basic', ['min', 'max', 'sum', 'size', 'mean', 'var'], shards=4, budget=16)
case('score', ['score', 'mean', 'imax'], shards=2, budget=10)
case('ints', ['imin', 'imax', 'isum', 'imean', 'size'], shards=2, budget=10)
case('shapes', ['ymin', 'ysum', 'ymean', 'yall', 'sum'], shards=2, budget=14)
case('varlen', ['vsum', 'vmean', 'sum', 'mean'], shards=2, budget=14)
case('covariance', ['cov', 'ymean', 'sum', 'quant'], shards=2, budget=14)
case('quantiles', ['quant', 'quant3', 'min', 'mean'], shards=2, budget=14)
case('two_columns', ['sum', 'isum', 'max', 'imax'], shards=2, budget=10)
case('sums', ['sum', 'isum', 'yall', 'ysum'], shards=2, budget=10)
case('unpacked', ['keys', 'mean', 'kmax', 'max', 'voc'], shards=2, budget=14)
case('phases', ['mean2', 'sum', 'max2', 'mean', 'sum2'], shards=2, budget=16)
case('phases_keys', ['sum2', 'mean2', 'keys', 'imax'], shards=2, budget=14)
case('many', [u for u in UNITS if u not in ('mean2', 'max2', 'sum2', 'vsum',
                                            'vmean')], shards=2, budget=20)
case('pairs_v2', ['sum', 'ymean', 'quant', 'size'], v1=False, shards=1, budget=14)
case('basic_3', ['min', 'sum', 'mean', 'var'], n=3, shards=4, budget=60,
     quick=False)
case('all', list(UNITS), shards=6, budget=90, quick=False)


# -- every subset of a list ----------------------------------------------------

SMALL = ['min', 'sum', 'mean', 'isum', 'ysum', 'quant', 'keys', 'sum2']
SUBSETS = [[u for j, u in enumerate(SMALL) if m >> j & 1]
           for m in range(1, 1 << len(SMALL))]
SUBSETS = [s for s in SUBSETS if len(s) > 1]


def subset_case(name, plans, n_sh, **kw):
  @CHECK.case(name, shards=n_sh, bounds=f'{len(plans)} subsets of '
              f'{", ".join(SMALL)}; one row in the data, or two', **kw)
  def run(env):
    mine = plans[env.shard::n_sh]
    units = mine[env.choose(len(mine), 'subset')]
    cols = used(SMALL)
    b = env.once(tuple(units), lambda: P.Built(program(units), cols))
    one = {u: env.once(u, lambda: P.Built(program([u]), cols)) for u in units}
    rows = symbolic(env, cols, 2)
    got = b.instances(b.run([P.record_batch(cols, [r]) for r in rows],
                            env.sched()))
    alone = {u: p.instances(p.run([P.record_batch(cols, rows)]))
             for u, p in one.items()}
    env.check(len(got) == 2, 'rows')
    compare(env, got, alone, units)


subset_case('pairs', [s for s in SUBSETS if len(s) == 2], 4, budget=16)
subset_case('triples', [s for s in SUBSETS if len(s) == 3], 7, budget=60,
            quick=False)
subset_case('subsets', [s for s in SUBSETS if len(s) > 3], 14, budget=120,
            quick=False)


# -- merging cached partial results ----------------------------------------------


def cached_case(name, units, sizes, first, second, read, v1=True, **kw):
  """first: datasets of run 1; second: datasets of run 2, which reads `read`."""
  cols = used(units)

  @CHECK.case(name, bounds=f'datasets of {sizes} rows, {first} then {second}; '
              f'{", ".join(units)}', **kw)
  def run(env):
    b1 = env.once('b1', lambda: P.CachedBuilt(
        program(units), cols, first, first, {}, v1=v1))
    b2 = env.once('b2', lambda: P.CachedBuilt(
        program(units), cols, second, read,
        {d: e for d, e in b1.entries.items() if d in second}, v1=v1))
    one = {u: env.once(u, lambda: P.Built(program([u]), cols, v1=v1))
           for u in units}
    data = {d: symbolic(env, cols, m, d) for d, m in sizes.items()}
    batch = lambda d: [P.record_batch(cols, [r]) for r in data[d]]
    rows = [r for d in second for r in data[d]]
    r1 = b1.run({d: batch(d) for d in first}, [P.record_batch(
        cols, [data[d][0] for d in first if data[d]][:1])])
    got1 = b1.instances(r1)
    cache = b1.cache_of(r1)
    r2 = b2.run({d: batch(d) for d in read}, [P.record_batch(cols, rows)],
                cache, schedule=env.sched())
    got = b2.instances(r2)
    env.check(len(got) == len(rows), 'rows')
    alone = {u: p.instances(p.run([P.record_batch(cols, rows)]))
             for u, p in one.items()}
    compare(env, got, alone, units)
    prior = {u: p.instances(p.run(
        [P.record_batch(cols, [r for d in first for r in data[d]])]))
             for u, p in one.items()}
    for o in prior.values():
      o[:] = o[:1]
    compare(env, got1, prior, units)


NUMERIC = ['min', 'sum', 'mean', 'isum', 'size']
cached_case('cached', NUMERIC, {'a': 1, 'b': 1}, ['a'], ['a', 'b'], ['b'],
            shards=2, budget=16)
cached_case('cached_only', NUMERIC, {'a': 1, 'b': 1}, ['a', 'b'], ['a', 'b'], [],
            shards=2, budget=16)
cached_case('cached_two', ['max', 'ymean', 'imax'], {'a': 2, 'b': 1, 'c': 1},
            ['a', 'b'], ['c', 'b', 'a'], ['c'], shards=2, budget=16)
cached_case('cached_kinds', ['quant', 'cov', 'keys', 'imean', 'ysum'],
            {'a': 1, 'b': 1}, ['a'], ['b', 'a'], ['b'], shards=2, budget=20)
cached_case('cached_phases', ['sum2', 'sum', 'mean2', 'max'], {'a': 1, 'b': 1},
            ['a'], ['a', 'b'], ['a', 'b'], shards=2, budget=16)
cached_case('cached_all', [u for u in UNITS if u[-1] != '2' and u not in (
    'vsum', 'vmean', 'kmax', 'voc')], {'a': 1, 'b': 1}, ['a'], ['a', 'b'], ['b'],
    shards=2, budget=60, quick=False)
