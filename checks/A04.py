"""Histogram counts partition the dataset."""
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, vec

CHECK = Check(
    'A04',
    bounds=['at most 4 values, at most 4 boundaries, |x| <= 100'],
    excluded=['float rounding', 'values closer than 0.0001 below a boundary '
              '(the documented slack of the implementation)'])


def boundaries_case(name, cols, bs, n, quick=True, shards=6, v1=True):
  """bs: explicit ascending boundaries (None: the documented default)."""
  c = cols[0]
  edges = bs if bs is not None else [j / 10.0 for j in range(11)]

  def fn(i):
    counts, b = tft.histogram(
        i['x'], None if bs is None else tf.constant(bs, tf.float32))
    return {'c': vec(counts, i['x']), 'b': vec(b, i['x'])}

  @CHECK.case(name, shards=shards, quick=quick,
              bounds=f'{c.kind} {c.dt} column, {n} rows, boundaries {edges}')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1))
    vals, rows = [], []
    lo, hi = edges[0] - 3, edges[-1] + 3
    for j in range(n):
      k = (2 if c.shape else 1) if c.kind == 'dense' else env.choose(
          3, f'len{j}')
      r = (env.reals(f'x{j}_', k, lo, hi) if c.dt == 'f' else
           env.ints(f'x{j}_', k, int(lo), int(hi)))
      vals += r
      rows.append({'x': r})
    env.assume(bool(vals))
    for v in vals:
      for e in edges:
        env.assume((v >= e) | (v < e - 0.0002))
    out = b.instances(b.run(spec.batches(env, cols, rows), env.sched()))[0]
    counts = as_list(out['c$sparse_values_1'] if 'c$sparse_values_1' in out
                     else out['c'])
    env.check(len(counts) == len(edges) - 1, 'number of buckets',
              Lazy(counts))
    env.eq(spec.total(counts), len(vals), 'counts sum to the dataset')
    for j, got in enumerate(counts):
      want = 0
      for v in vals:
        inside = True
        if j > 0:
          inside = v >= edges[j]
        if j < len(counts) - 1:
          inside = (v < edges[j + 1]) & inside
        want = want + core.ite(inside, 1, 0)
      env.eq(got, want, 'count of a bucket')
    for a, e in zip(as_list(out['b']), edges):
      env.check((a <= e) & (a >= e - 0.0002), 'boundaries returned', Lazy(a))


boundaries_case('explicit', [P.Col('x', 'dense', 'f')], [0.0, 1.0, 3.0], 3)
boundaries_case('explicit_v2', [P.Col('x', 'dense', 'f')], [0.0, 1.0, 3.0], 3,
                v1=False, shards=3)
boundaries_case('two_values', [P.Col('x', 'dense', 'f', (2,))],
                [-2.0, 0.0, 1.5, 4.0], 2)
boundaries_case('varlen_ints', [P.Col('x', 'varlen', 'i')],
                [-1.0, 0.0, 2.0], 3)
boundaries_case('ragged', [P.Col('x', 'ragged', 'f')], [0.0, 5.0], 2, shards=3)
boundaries_case('default', [P.Col('x', 'dense', 'f')], None, 2, quick=False)
boundaries_case('explicit4', [P.Col('x', 'dense', 'f')],
                [0.0, 1.0, 3.0, 7.0], 4, quick=False)

COL = [P.Col('x', 'dense', 'f')]


def equal_width(n, k, quick=True):
  def fn(i):
    counts, b = tft.histogram(i['x'], k)
    return {'c': vec(counts, i['x']), 'b': vec(b, i['x'])}

  @CHECK.case(f'equal_width_{n}_{k}', shards=4, quick=quick,
              bounds=f'{k} equal-width boundaries, dense column, {n} rows')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, COL))
    xs = env.reals('x', n, -100, 100)
    lo, hi = spec.least(xs), spec.greatest(xs)
    env.assume(lo + 1 < hi)
    edges = [lo + spec.div((hi - lo) * j, k - 1) for j in range(k)]
    for v in xs:
      for e in edges:
        env.assume((v >= e) | (v < e - 0.0002))
    out = b.instances(b.run(
        spec.batches(env, COL, [{'x': x} for x in xs]), env.sched()))[0]
    counts = as_list(out['c'])
    env.check(len(counts) == k - 1, 'number of buckets')
    env.eq(spec.total(counts), n, 'counts sum to the dataset')
    for j, got in enumerate(counts):
      want = 0
      for v in xs:
        inside = v >= edges[j]
        if j < len(counts) - 1:
          inside = inside & (v < edges[j + 1])
        want = want + core.ite(inside, 1, 0)
      env.eq(got, want, 'count of an equal-width bucket')


equal_width(3, 3)


def categorical(name, col, n, quick=True):
  def fn(i):
    counts, e = tft.histogram(i['x'], categorical=True)
    return {'c': vec(counts, i['x']), 'e': vec(e, i['x'])}

  @CHECK.case('categorical_' + name, shards=6, quick=quick,
              bounds=f'{col.kind} column of type {col.dt}, {n} rows')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, [col]))
    rows, vals = [], []
    for j in range(n):
      k = 1 if col.kind == 'dense' else env.choose(3, f'len{j}')
      r = (env.toks(f'x{j}_', k) if col.dt == 's' else
           env.ints(f'x{j}_', k, -3, 5))
      rows.append({'x': r})
      vals += r
    env.assume(bool(vals))
    out = b.instances(b.run(spec.batches(env, [col], rows), env.sched()))[0]
    want = [(k, len(v)) for k, v in spec.group(vals, vals)]
    spec.check_keyed(env, out['e'], as_list(out['c']), want,
                     'categorical count')


categorical('strings', P.Col('x', 'dense', 's'), 3)
categorical('varlen', P.Col('x', 'varlen', 's'), 2)
categorical('ints', P.Col('x', 'dense', 'i'), 3)
