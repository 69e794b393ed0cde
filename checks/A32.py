"""Quantile boundaries have the ranks that were asked for."""
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, sketch, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, div, total

CHECK = Check(
    'A32',
    bounds=['at most 4 rows of at most 4 values, 2-5 buckets, values any reals '
            'in [-1000, 1000] with ties, weights any reals in [0, 100], '
            'six distribution schedules, at most 3 batches'],
    assumptions=['the tfx_bsl quantile sketch keeps its contract: the error it '
                 'is created with bounds the error of what it returns, for '
                 'streams up to the length it is created with (exact for the '
                 'streams run here, selftest/val_sketch.py)'],
    excluded=['float rounding', 'a feature of an elementwise result without '
              'any value'])

NOTE = ('The compiled sketch is taken by its contract: that it is created with '
        'at most the requested error, fed every value with its weight exactly '
        'once and read at the right ranks is decided; the error bound of the '
        'sketch itself for long streams is assumed.')


def ranks(env, got, vals, weights, k, eps, label):
  """got: boundaries between the k quantiles of the weighted values."""
  got = as_list(got)
  env.check(len(got) == k - 1, label + ': number', Lazy(got))
  w = total(weights)
  for i, b in enumerate(got, 1):
    below = total([core.ite(v < b, x, 0) for v, x in zip(vals, weights)])
    upto = total([core.ite(v <= b, x, 0) for v, x in zip(vals, weights)])
    env.check((below - eps * w) * k <= w * i, label + ': rank not too high',
              Lazy(got, vals))
    env.check((upto + eps * w) * k >= w * i, label + ': rank not too low',
              Lazy(got, vals))
  for a, b in zip(got, got[1:]):
    env.check(a <= b, label + ': ascending', Lazy(got))


def error(env, eps):
  for e, n in sketch.CREATED:
    env.check(e <= eps, 'error asked of the sketch', Lazy(e))
    env.check(n >= 1 << 24, 'stream length asked of the sketch', Lazy(n))


def case(name, cols, k, rows_of, groups, shape, eps=0.1, v1=True, **kw):
  """rows_of(env) -> rows; groups(rows) -> [(values, weights)] per feature."""
  args = {a: kw.pop(a) for a in ('fn_kw',) if a in kw}.get('fn_kw', {})

  @CHECK.case(name, **kw)
  def run(env):
    def fn(i):
      extra = dict(args)
      if 'w' in i:
        extra['weights'] = i['w']
      q = tft.quantiles(i['x'], k, eps, **extra)
      return {'q': bc(q, i['x'], shape + [k - 1])}
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1))
    rows = rows_of(env)
    gs = groups(rows)
    for _, ws in gs:
      env.assume(bool(ws))
      env.assume(total(ws) > 0)
    with sketch.recording():
      out = b.instances(b.run(spec.batches(env, cols, rows), env.sched()))
    error(env, eps)
    for o in (out[0], out[-1]):
      got = spec.chunks(o['q'], k - 1)
      env.check(len(got) == len(gs), 'number of features', Lazy(o['q']))
      for g, (vs, ws) in zip(got, gs):
        ranks(env, g, vs, ws, k, eps, 'boundaries')


X = P.Col('x', 'dense', 'f')
W = P.Col('w', 'dense', 'f')
ones = lambda vs: [(vs, [1] * len(vs))]


def plain(name, k, n, dt='f', **kw):
  cols = [P.Col('x', 'dense', dt)]
  case(name, cols, k,
       lambda env: [{'x': x} for x in (
           env.reals if dt == 'f' else env.ints)('x', n, -1000, 1000)],
       lambda rows: ones([r['x'] for r in rows]), [1],
       bounds=f'{n} rows, {k} buckets', **kw)


plain('two', 2, 3, shards=2, budget=12)
plain('three', 3, 4, shards=4, budget=16)
plain('five', 5, 3, shards=3, budget=14, eps=0.01)
plain('integers', 3, 3, 'i', shards=2, budget=12)
plain('v2', 3, 3, v1=False, shards=2, budget=16, quick=False)
plain('four5', 5, 5, shards=6, budget=60, quick=False)


def nan_rows(env):
  nan = float('nan')
  n = env.choose(3, 'at')
  xs = env.reals('x', 3, -1000, 1000)
  ws = env.reals('w', 3, 0, 100)
  if env.choose(2, 'which'):
    xs[n] = nan
  else:
    ws[n] = nan
  return [{'x': x, 'w': w} for x, w in zip(xs, ws)]


def known(rows):
  ok = [r for r in rows if all(
      core.is_sym(r[c]) or r[c] == r[c] for c in 'xw')]
  return [([r['x'] for r in ok], [r['w'] for r in ok])]


case('weighted', [X, W], 3,
     lambda env: [{'x': x, 'w': w} for x, w in zip(
         env.reals('x', 3, -1000, 1000), env.reals('w', 3, 0, 100))],
     lambda rows: [([r['x'] for r in rows], [r['w'] for r in rows])], [1],
     shards=6, budget=24, bounds='3 weighted rows, 3 buckets')
case('nan', [X, W], 2, nan_rows, known, [1], shards=3, budget=12,
     bounds='a NaN value or weight among 3 weighted rows, 2 buckets')


def vectors(env, n, d, dt='f'):
  return [{'x': env.reals(f'x{j}_', d, -1000, 1000)} for j in range(n)]


def per_feature(d):
  return lambda rows: [([r['x'][i] for r in rows],
                        [r['w'] if 'w' in r else 1 for r in rows])
                       for i in range(d)]


X2 = P.Col('x', 'dense', 'f', (2,))
case('elementwise', [X2], 3, lambda env: vectors(env, 3, 2), per_feature(2),
     [2], fn_kw={'reduce_instance_dims': False}, shards=6, budget=20,
     bounds='3 rows of [2], 3 buckets, per element')
case('elementwise4', [P.Col('x', 'dense', 'f', (4,))], 2,
     lambda env: vectors(env, 2, 4), per_feature(4), [4],
     fn_kw={'reduce_instance_dims': False}, shards=4, budget=14,
     bounds='2 rows of [4], 2 buckets, per element')
case('elementwise_weighted', [X2, W], 2,
     lambda env: [dict(r, w=w) for r, w in zip(
         vectors(env, 2, 2), env.reals('w', 2, 0, 100))],
     per_feature(2), [2], fn_kw={'reduce_instance_dims': False}, shards=4,
     budget=14, bounds='2 weighted rows of [2], 2 buckets, per element')
case('reduced', [X2], 3, lambda env: vectors(env, 2, 2),
     lambda rows: ones([v for r in rows for v in r['x']]), [1], shards=4,
     budget=14, bounds='2 rows of [2] taken together, 3 buckets')
case('reduced_weighted', [X2, P.Col('w', 'dense', 'f', (2,))], 2,
     lambda env: [dict(r, w=env.reals(f'w{j}_', 2, 0, 100))
                  for j, r in enumerate(vectors(env, 2, 2))],
     lambda rows: [([v for r in rows for v in r['x']],
                    [v for r in rows for v in r['w']])], [1], shards=4,
     budget=14, bounds='2 rows of [2] with their own weights, 2 buckets')


@CHECK.case('shaped', shards=2, budget=14,
            bounds='2 rows of [1, 2], 3 buckets, per element')
def shaped(env):
  cols = [P.Col('x', 'dense', 'f', (1, 2))]
  b = env.once('p', lambda: P.Built(
      lambda i: {'q': bc(tft.quantiles(i['x'], 3, 0.1,
                                       reduce_instance_dims=False),
                         i['x'], [1, 2, 2])}, cols))
  rows = vectors(env, 2, 2)
  with sketch.recording():
    out = b.instances(b.run(spec.batches(env, cols, rows), env.sched()))
  error(env, 0.1)
  got = spec.chunks(out[0]['q'], 2)
  env.check(len(got) == 2, 'number of features')
  for g, (vs, ws) in zip(got, per_feature(2)(rows)):
    ranks(env, g, vs, ws, 3, 0.1, 'boundaries')


@CHECK.case('bucketize', shards=3, budget=14,
            bounds='error asked for through tft.bucketize (default and given), '
            '3 rows, optional weights')
def bucketize(env):
  which = env.choose(3, 'how')
  eps = (0.01, 0.002, 0.01)[which]
  kw = ({}, {'epsilon': 0.002}, {})[which]
  cols = [X, W] if which == 2 else [X]

  def fn(i):
    return {'o': tft.bucketize(i['x'], 3, weights=i.get('w'), **kw)}
  b = env.once(('p', which), lambda: P.Built(fn, cols))
  xs = env.reals('x', 3, -1000, 1000)
  ws = env.reals('w', 3, 0, 100) if which == 2 else [1, 1, 1]
  env.assume(total(ws) > 0)
  rows = [{'x': x, 'w': w} for x, w in zip(xs, ws)]
  with sketch.recording():
    out = b.instances(b.run(spec.batches(env, cols, rows), env.sched()))
  error(env, eps)
  # bucket 0 ends, and bucket 2 starts, at values of the right ranks
  w = total(ws)
  for j in (1, 2):
    below = total([core.ite(spec.cell(o['o']) < j, v, 0)
                   for o, v in zip(out, ws)])
    env.check((below - eps * w) * 3 <= w * j, 'weight below a bucket')


@CHECK.case('many_buckets', shards=2, budget=12,
            bounds='error asked for by default through tft.bucketize and '
            'bucketize_per_key with 2, 100 or 140 buckets, 1 row')
def many_buckets(env):
  k = (140, 2, 100)[env.choose(3, 'buckets')]
  per_key = env.choose(2, 'per_key')
  cols = [X, P.Col('k', 'dense', 's')]

  def fn(i):
    return {'o': tft.bucketize_per_key(i['x'], i['k'], k) if per_key else (
        tft.bucketize(i['x'], k))}
  b = env.once(('p', k, per_key), lambda: P.Built(fn, cols))
  rows = [{'x': env.real('x', -1000, 1000), 'k': b'a'}]
  with sketch.recording():
    b.instances(b.run(spec.batches(env, cols, rows), env.sched()))
  env.check(bool(sketch.CREATED), 'a sketch is used')
  error(env, min(0.01, 1 / k) + 1e-12)
