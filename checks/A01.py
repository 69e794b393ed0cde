"""Numeric full-pass statistics equal their definition on the whole dataset."""
import math

import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check
from sx.spec import bc, cell, as_list

CHECK = Check(
    'A01',
    bounds=['at most 4 rows, at most 2 values per row, at most 2 batches, '
            'six distribution schedules, |x| <= 1000 (64-bit ints: <= 10^6)'],
    excluded=['float rounding', 'int8/float16/bfloat16 inputs',
              'L-moments / tukey parameters'])

NAN, INF = float('nan'), float('inf')


def stats(x, p, **kw):
  return {p + 'min': tft.min(x, **kw), p + 'max': tft.max(x, **kw),
          p + 'sum': tft.sum(x, **kw), p + 'size': tft.size(x, **kw),
          p + 'mean': tft.mean(x, **kw), p + 'var': tft.var(x, **kw)}


def check_stats(env, out, p, vals, what=('min', 'max', 'sum', 'size', 'mean',
                                         'var')):
  if 'size' in what:
    env.eq(cell(out[p + 'size']), len(vals), p + 'size')
  if 'sum' in what:
    env.eq(cell(out[p + 'sum']), spec.total(vals), p + 'sum')
  if 'min' in what and vals:
    env.eq(cell(out[p + 'min']), spec.least(vals), p + 'min')
  if 'max' in what and vals:
    env.eq(cell(out[p + 'max']), spec.greatest(vals), p + 'max')
  if 'mean' in what:
    env.eq(cell(out[p + 'mean']), spec.mean(vals), p + 'mean')
  if 'var' in what:
    env.eq(cell(out[p + 'var']), spec.var(vals), p + 'var')


def dense_case(name, v1, n, shards, quick=True, budget=16):
  cols = [P.Col('x', 'dense', 'f')]

  def fn(i):
    return {k: bc(v, i['x']) for k, v in stats(i['x'], '').items()}

  @CHECK.case(name, shards=shards, quick=quick, budget=budget,
              bounds=f'dense float column, {n} rows in 1-2 batches')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1))
    xs = env.reals('x', n, -1000, 1000)
    r = b.run(spec.batches(env, cols, [{'x': x} for x in xs]), env.sched())
    out = b.instances(r)
    env.check(len(out) == n, 'row count')
    check_stats(env, out[0], '', xs)


dense_case('dense', True, 3, 6)
dense_case('dense_v2', False, 3, 3)
dense_case('dense4', True, 4, 6, quick=False, budget=60)

ELEM = [P.Col('x', 'dense', 'f', (2,))]


def elem_fn(i):
  return {k: bc(v, i['x']) for k, v in stats(
      i['x'], '', reduce_instance_dims=False).items()} | {
          'r' + k: bc(v, i['x']) for k, v in stats(i['x'], '').items()}


@CHECK.case('elementwise', shards=6,
            bounds='dense [2] column, 2-3 rows, elementwise and reduced')
def elementwise(env):
  b = env.once('p', lambda: P.Built(elem_fn, ELEM))
  n = 2 + env.choose(2, 'rows')
  xs = [env.reals(f'x{j}_', 2, -1000, 1000) for j in range(n)]
  r = b.run(spec.batches(env, ELEM, [{'x': x} for x in xs]), env.sched())
  out = b.instances(r)
  for d in range(2):
    col = [x[d] for x in xs]
    for k, f in (('min', spec.least), ('max', spec.greatest),
                 ('sum', spec.total), ('mean', spec.mean), ('var', spec.var)):
      env.eq(as_list(out[0][k])[d], f(col), f'elementwise {k}')
    env.eq(as_list(out[0]['size'])[d], n, 'elementwise size')
  check_stats(env, out[0], 'r', [v for x in xs for v in x])


def multi_case(kind, v1=True, quick=True):
  cols = [P.Col('x', kind, 'f')]

  def fn(i):
    return {k: bc(v, i['x']) for k, v in stats(i['x'], '').items()}

  @CHECK.case(kind + ('' if v1 else '_v2'), shards=6, quick=quick,
              bounds=f'{kind} float column, 3 rows of 0-2 values')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1))
    rows, vals = [], []
    for j in range(3):
      xs = env.reals(f'x{j}_', env.choose(3, f'len{j}'), -1000, 1000)
      vals += xs
      rows.append({'x': xs})
    env.assume(bool(vals))
    r = b.run(spec.batches(env, cols, rows), env.sched())
    check_stats(env, b.instances(r)[0], '', vals)


multi_case('varlen')
multi_case('ragged')
multi_case('ragged', v1=False, quick=False)
multi_case('varlen', v1=False, quick=False)

SPARSE = [P.Col('x', 'sparse', 'f', (3,))]


def sparse_fn(i):
  x = i['x']
  return {k: bc(v, x, [3]) for k, v in stats(
      x, '', reduce_instance_dims=False).items()}


@CHECK.case('sparse_elementwise', shards=6,
            bounds='sparse [3] column, 3 rows with any subset of positions '
            '0 and 1 present')
def sparse_elementwise(env):
  b = env.once('p', lambda: P.Built(sparse_fn, SPARSE))
  rows, col = [], [[], [], []]
  for j in range(3):
    cells = []
    m = env.choose(4, f'mask{j}')
    for d in range(2):
      if m >> d & 1:
        v = env.real(f'x{j}_{d}', -1000, 1000)
        cells.append((d, v))
        col[d].append(v)
    rows.append({'x': cells})
  env.assume(any(col))
  r = b.run(spec.batches(env, SPARSE, rows), env.sched())
  out = b.instances(r)[0]
  for d in range(3):
    vs = col[d]
    env.eq(as_list(out['sum'])[d], spec.total(vs), 'sparse sum')
    env.eq(as_list(out['size'])[d], len(vs), 'sparse size')
    if vs:
      env.eq(as_list(out['mean'])[d], spec.mean(vs), 'sparse mean')
      env.eq(as_list(out['var'])[d], spec.var(vs), 'sparse var')
    env.eq(as_list(out['max'])[d], spec.greatest(vs) if vs else NAN,
           'sparse max')
    env.eq(as_list(out['min'])[d], spec.least(vs) if vs else NAN, 'sparse min')


INT = [P.Col('x', 'dense', 'i'), P.Col('v', 'varlen', 'i')]


def int_fn(i):
  out = {k: bc(v, i['x']) for k, v in stats(i['x'], '').items()}
  out.update({k: bc(v, i['x']) for k, v in stats(i['v'], 'v').items()})
  y = tf.cast(i['x'], tf.int32)
  out.update({'n' + k: bc(tf.cast(f(y), tf.int64), i['x']) for k, f in (
      ('min', tft.min), ('max', tft.max), ('sum', tft.sum))})
  return out


@CHECK.case('integers', shards=6,
            bounds='int64 dense and varlen and int32 dense columns, 3 rows')
def integers(env):
  b = env.once('p', lambda: P.Built(int_fn, INT))
  xs = env.ints('x', 3, -10**6, 10**6)
  rows, vals = [], []
  for j in range(3):
    v = env.ints(f'v{j}_', (1, 0, 2)[j], -10**6, 10**6)
    vals += v
    rows.append({'x': xs[j], 'v': v})
  r = b.run(spec.batches(env, INT, rows), env.sched())
  out = b.instances(r)[0]
  check_stats(env, out, '', xs)
  check_stats(env, out, 'v', vals)
  check_stats(env, out, 'n', xs, ('min', 'max', 'sum'))


def narrow_case(dt, **kw):
  lo, hi = int(dt.min) + bool(int(dt.min)), int(dt.max)

  def fn(i):
    x = i['x']
    y, w = tf.cast(x, dt), i['v']
    w = tf.SparseTensor(w.indices, tf.cast(w.values, dt), w.dense_shape)
    back = lambda t, shape=(): bc(tf.cast(t, tf.int64), x, list(shape))
    out = {k: back(f(y)) for k, f in FNS}
    out.update({'v' + k: back(f(w)) for k, f in FNS})
    y2 = tf.stack([y, y], axis=1)
    out.update({'e' + k: back(f(y2, reduce_instance_dims=False), [2])
                for k, f in FNS})
    out.update(mean=bc(tft.mean(y), x), var=bc(tft.var(y), x))
    return out

  FNS = (('min', tft.min), ('max', tft.max), ('sum', tft.sum))

  @CHECK.case(f'narrow_{dt.name}', bounds=f'3 rows of any {dt.name} values, dense, '
              'varlen and elementwise', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(fn, INT))
    xs = env.ints('x', 3, lo, hi)
    rows, vals = [], []
    for j in range(3):
      v = env.ints(f'v{j}_', (1, 0, 2)[j], lo, hi)
      vals += v
      rows.append({'x': xs[j], 'v': v})
    r = b.run(spec.batches(env, INT, rows), env.sched())
    out = b.instances(r)[0]
    check_stats(env, out, '', xs, ('min', 'max', 'sum', 'mean', 'var'))
    check_stats(env, out, 'v', vals, ('min', 'max', 'sum'))
    for k, f in (('min', spec.least), ('max', spec.greatest),
                 ('sum', spec.total)):
      for got in as_list(out['e' + k]):
        env.eq(got, f(xs), f'elementwise {k}')


for _dt in (tf.int16, tf.int32, tf.uint8, tf.uint16):
  narrow_case(_dt, shards=1, quick=_dt != tf.uint16, budget=10)


def least_case(dt):
  lo, hi = int(dt.min), int(dt.max)

  def fn(i):
    x = i['x']
    y = tf.cast(x, dt)
    y2 = tf.stack([y, y], axis=1)
    back = lambda t, shape=(): bc(tf.cast(t, tf.int64), x, list(shape))
    return {'min': back(tft.min(y)), 'max': back(tft.max(y)),
            'emin': back(tft.min(y2, reduce_instance_dims=False), [2]),
            'emax': back(tft.max(y2, reduce_instance_dims=False), [2])}

  @CHECK.case(f'least_{dt.name}', budget=6, bounds=f'3 rows of {dt.name} values '
              'one of which is the least value of the type')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, INT[:1]))
    greatest = env.choose(2, 'greatest')
    xs = [lo] + (env.ints('x', 2, lo, hi) if env.choose(2, 'others') else [lo, lo])
    r = b.run(spec.batches(env, INT[:1], [{'x': x} for x in xs]), env.sched())
    out = b.instances(r)[0]
    most = spec.greatest(xs)
    if bool(most > lo):
      env.eq(cell(out['max']), most, 'maximum')
      env.eq(as_list(out['emax'])[0], most, 'elementwise maximum')
    label = 'where the least value of the type occurs'
    if greatest:
      env.eq(cell(out['max']), most, 'maximum ' + label)
      env.eq(as_list(out['emax'])[0], most, 'maximum ' + label)
    else:
      env.eq(cell(out['min']), lo, 'minimum ' + label)
      env.eq(as_list(out['emin'])[0], lo, 'minimum ' + label)


for _dt in (tf.int32, tf.int64):
  least_case(_dt)

NANC = [P.Col('x', 'dense', 'f')]


def nan_fn(i):
  x = i['x']
  return {'mean': bc(tft.mean(x), x), 'var': bc(tft.var(x), x),
          'size': bc(tft.size(x), x)}


@CHECK.case('nan_mean_var', shards=6,
            bounds='dense float column, 3 rows each finite, NaN or +inf')
def nan_mean_var(env):
  b = env.once('p', lambda: P.Built(nan_fn, NANC))
  xs = [env.float_(f'x{j}', (NAN, INF), -1000, 1000) for j in range(3)]
  r = b.run(spec.batches(env, NANC, [{'x': x} for x in xs]), env.sched())
  out = b.instances(r)[0]
  env.eq(cell(out['size']), 3, 'size counts NaN')
  env.eq(cell(out['mean']), spec.mean(spec.finite(xs)), 'mean ignores NaN')
  env.eq(cell(out['var']), spec.var(spec.finite(xs)), 'var ignores NaN')


@CHECK.case('infinite_min_max', shards=6,
            bounds='dense float column, 3 rows each finite, +inf or -inf')
def infinite_min_max(env):
  fn = lambda i: {'min': bc(tft.min(i['x']), i['x']),
                  'max': bc(tft.max(i['x']), i['x'])}
  b = env.once('p', lambda: P.Built(fn, NANC))
  xs = [env.float_(f'x{j}', (INF, -INF), -1000, 1000) for j in range(3)]
  r = b.run(spec.batches(env, NANC, [{'x': x} for x in xs]), env.sched())
  out = b.instances(r)[0]
  env.eq(cell(out['max']), spec.greatest(xs), 'max with infinities')
  env.eq(cell(out['min']), spec.least(xs), 'min with infinities')


COV = [P.Col('x', 'dense', 'f', (2,))]


@CHECK.case('covariance', shards=6, bounds='[2] column, 3 rows')
def covariance(env):
  fn = lambda i: {'c': bc(tft.covariance(i['x'], tf.float32), i['x'])}
  b = env.once('p', lambda: P.Built(fn, COV))
  xs = [env.reals(f'x{j}_', 2, -100, 100) for j in range(3)]
  r = b.run(spec.batches(env, COV, [{'x': x} for x in xs]), env.sched())
  c = as_list(b.instances(r)[0]['c'])
  m = [spec.mean([x[d] for x in xs]) for d in range(2)]
  for i in range(2):
    for j in range(2):
      want = spec.div(spec.total([(x[i] - m[i]) * (x[j] - m[j])
                                  for x in xs]), 3)
      env.eq(c[2 * i + j], want, f'covariance[{i},{j}]')
