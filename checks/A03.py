"""Bucketization assigns every value to the bucket its boundaries define."""
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check
from sx.spec import as_list, cell, div, group

CHECK = Check(
    'A03',
    bounds=['at most 4 values, at most 4 boundaries, values and boundaries '
            'any reals in [-1000, 1000] (ties included), 2 keys of at most 3 '
            'values for the per-key form'],
    assumptions=['the tfx_bsl quantile sketch is replaced by its contract '
                 '(exact for these stream lengths; selftest/val_sketch.py)'],
    excluded=['float rounding', 'NaN inputs of apply_buckets'])


def count_le(bs, x):
  r = 0
  for b in bs:
    r = r + core.ite(b <= x, 1, 0)
  return r


def ascending(env, bs, strict=False):
  for a, b in zip(bs, bs[1:]):
    env.assume(a < b if strict else a <= b)


DT = {'f': tf.float32, 'd': tf.float64, 'i': tf.int64, 'n': tf.int32}


def value(env, dt, name, n):
  if dt in 'fd':
    return env.reals(name, n, -1000, 1000)
  return env.ints(name, n, -1000, 1000)


def dense_case(xd, bd):
  @CHECK.case(f'apply_{xd}{bd}', budget=8,
              bounds='2 values, 1-4 ascending boundaries, ties allowed')
  def run(env):
    g = env.once('g', lambda: P.GraphFn(
        lambda i: {'o': tft.apply_buckets(i['x'], i['b'])},
        {'x': tf.TensorSpec([None], DT[xd]),
         'b': tf.TensorSpec([1, None], DT[bd])}))
    xs = value(env, xd, 'x', 2)
    bs = value(env, bd, 'b', 1 + env.choose(4, 'nb'))
    ascending(env, bs)
    out = as_list(g(x=xs, b=[bs])['o'])
    for x, o in zip(xs, out):
      env.eq(o, count_le(bs, x), 'bucket index')
      env.check((o >= 0) & (o <= len(bs)), 'bucket in range')
    env.check(core.implies(xs[0] <= xs[1], out[0] <= out[1]), 'monotone')


for _x, _b in (('f', 'f'), ('i', 'f'), ('f', 'i'), ('i', 'i'), ('d', 'f'),
               ('n', 'i')):
  dense_case(_x, _b)


@CHECK.case('layouts', budget=12,
            bounds='sparse, ragged and [2] inputs, rows of 0-2 values, 2 '
            'boundaries')
def layouts(env):
  S = tf.SparseTensorSpec([None, None], tf.float32)
  R = tf.RaggedTensorSpec([None, None], tf.float32, 1, tf.int64)
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {k: tft.apply_buckets(i[k], i['b']) for k in 'srd'},
      {'s': S, 'r': R, 'd': tf.TensorSpec([None, 2], tf.float32),
       'b': tf.TensorSpec([1, None], tf.float32)}))
  rows = [env.reals(f'x{j}_', env.choose(3, f'n{j}'), -1000, 1000)
          for j in range(2)]
  bs = env.reals('b', 2, -1000, 1000)
  ascending(env, bs)
  d = env.reals('d', 2, -1000, 1000)
  import numpy as np
  sv, rv = P.sparse(rows, np.float32), P.ragged(rows, np.float32)
  o = g(s=sv, r=rv, d=[d], b=[bs])
  flat = [v for r in rows for v in r]
  env.check(np.array_equal(o['s'].indices, sv.indices) and np.array_equal(
      o['s'].dense_shape, sv.dense_shape), 'sparse layout kept')
  env.check(np.array_equal(o['r'].row_splits, rv.row_splits),
            'ragged layout kept')
  for got, want in ((o['s'].values, flat), (o['r'].values, flat), (o['d'], d)):
    got = as_list(got)
    env.check(len(got) == len(want), 'number of values')
    for a, x in zip(got, want):
      env.eq(a, count_le(bs, x), 'bucket index of a layout')


@CHECK.case('interpolation', budget=20, shards=3,
            bounds='2 values, 1-4 boundaries, some of them infinite')
def interpolation(env):
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {'o': tft.apply_buckets_with_interpolation(i['x'], i['b'])},
      {'x': tf.TensorSpec([None], tf.float32),
       'b': tf.TensorSpec([1, None], tf.float32)}))
  n = 1 + env.choose(4, 'nb')
  strict = env.choose(2, 'ties') == 0
  bs = env.reals('b', n, -1000, 1000)
  ascending(env, bs, strict)
  all_bs = ([-float('inf')] if env.choose(2, 'lowinf') else []) + bs + (
      [float('inf')] if env.choose(2, 'highinf') else [])
  k = env.choose(n + 1, 'at')
  xs = env.reals('x', 2, -2000, 2000)
  probe = xs + ([bs[k]] if k < n else [])
  out = as_list(g(x=probe, b=[all_bs])['o'])
  for o in out:
    env.check((o >= 0) & (o <= 1), 'within [0,1]')
  env.check(core.implies(xs[0] <= xs[1], out[0] <= out[1]), 'monotone',
            core.Lazy(out) if hasattr(core, 'Lazy') else '')
  if k < n and strict and n > 1:
    env.eq(out[2], div(k, n - 1), 'exact at a boundary')
  if n == 1:
    env.eq(out[0], core.ite(xs[0] < bs[0], 0, 1), 'single boundary')
  if strict and n > 1:
    # affine between two neighbouring boundaries
    j = env.choose(n - 1, 'segment')
    env.assume((xs[0] >= bs[j]) & (xs[0] < bs[j + 1]))
    env.eq((out[0] * (n - 1) - j) * (bs[j + 1] - bs[j]), xs[0] - bs[j],
           'affine within a bucket')


@CHECK.case('interpolation_nan', budget=6,
            bounds='a NaN among two values, 2-3 boundaries')
def interpolation_nan(env):
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {'o': tft.apply_buckets_with_interpolation(i['x'], i['b'])},
      {'x': tf.TensorSpec([None], tf.float32),
       'b': tf.TensorSpec([1, None], tf.float32)}))
  bs = env.reals('b', 2 + env.choose(2, 'nb'), -1000, 1000)
  ascending(env, bs)
  x = env.real('x', -2000, 2000)
  out = as_list(g(x=[x, float('nan')], b=[bs])['o'])
  env.eq(out[1], 0.5, 'NaN maps to the middle')
  env.check((out[0] >= 0) & (out[0] <= 1), 'within [0,1]')


BUCKET = [P.Col('x', 'dense', 'f')]


def quantile(vals, k):
  """Interior boundaries of the exact k-quantiles of sorted values."""
  n, out = len(vals), []
  for i in range(1, k):
    out.append(vals[min(n - 1, (n * i) // k)])
  return out


def ordered(env, vals):
  """vals sorted (decided on this path)."""
  out = []
  for v in vals:
    i = 0
    while i < len(out) and bool(out[i] <= v):
      i += 1
    out.insert(i, v)
  return out


@CHECK.case('bucketize', shards=6, budget=16,
            bounds='tft.bucketize into 3 buckets, dense column, 3 rows')
def bucketize(env):
  b = env.once('p', lambda: P.Built(
      lambda i: {'o': tft.bucketize(i['x'], 3)}, BUCKET))
  xs = env.reals('x', 3, -1000, 1000)
  out = b.instances(b.run(spec.batches(env, BUCKET, [{'x': x} for x in xs]),
                          env.sched()))
  bs = quantile(ordered(env, xs), 3)
  for x, o in zip(xs, out):
    env.eq(cell(o['o']), count_le(bs, x), 'bucket of the quantiles')


KEYED = [P.Col('x', 'dense', 'f'), P.Col('k', 'dense', 's')]


def per_key_case(nb, n, quick=True):
  @CHECK.case(f'per_key_{nb}', shards=6, budget=24, quick=quick,
              bounds=f'bucketize_per_key into {nb} buckets, {n} analysed rows '
              'and one further row of any key')
  def run(env):
    b = env.once('p', lambda: P.Built(
        lambda i: {'o': tft.bucketize_per_key(i['x'], i['k'], nb)}, KEYED,
        two_data=True))
    xs = env.reals('x', n, -100, 100)
    ks = env.toks('k', n)
    rows = [{'x': x, 'k': k} for x, k in zip(xs, ks)]
    y, yk = env.real('y', -100, 100), env.tok('yk')
    tb = [P.record_batch(KEYED, rows + [{'x': y, 'k': yk}])]
    out = b.instances(b.run(spec.batches(env, KEYED, rows), env.sched(), tb))
    bounds = {}
    groups = [(k, quantile(ordered(env, v), nb)) for k, v in group(ks, xs)]
    for x, k, o in zip(xs + [y], ks + [yk], out):
      got = cell(o['o'])
      mine = [bs for g, bs in groups if spec.eqb(g, k)]
      if not mine:
        env.eq(got, -1, 'unknown key')
        continue
      bs = mine[0]
      if any(not bool(p < q) for p, q in zip(bs, bs[1:])):
        # equal boundaries are spread by a tiny amount: only the range is kept
        env.check((got >= 0) & (got < nb), 'bucket in range')
        continue
      env.eq(got, count_le(bs, x), 'bucket of the own key')


per_key_case(2, 3)
per_key_case(3, 4)
