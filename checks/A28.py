"""Covariance and principal components satisfy their defining equations."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import bc, chunks, div, mean, total

CHECK = Check(
    'A28',
    bounds=['at most 4 rows of 1-3 numbers, any reals in [-100, 100], at most '
            '3 batches, six distribution schedules, output dimensions up to '
            'the input dimension'],
    assumptions=['np.linalg.eigh is taken by its contract: ascending '
                 'eigenvalues and orthonormal eigenvectors of the symmetric '
                 'matrix it is given (which matrix it is given is decided)'],
    excluded=['float rounding', 'the sign of an eigenvector'])

NOTE = ('Accumulation, merging, the matrix handed to the decomposition and what '
        'is done with its result are encoded; the LAPACK decomposition itself '
        'is taken by its contract.')


def definition(xs):
  """Covariance matrix of the rows."""
  d, n = len(xs[0]), len(xs)
  m = [mean([x[i] for x in xs]) for i in range(d)]
  return [[div(total([(x[i] - m[i]) * (x[j] - m[j]) for x in xs]), n)
           for j in range(d)] for i in range(d)]


def data(env, n, d, hi=100):
  return [env.reals(f'x{j}_', d, -hi, hi) for j in range(n)]


def cov_case(name, n, d, dtype=tf.float32, v1=True, **kw):
  cols = [P.Col('x', 'dense', 'f', (d,))]

  @CHECK.case(name, bounds=f'{n} rows of [{d}], {dtype.name}', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(lambda i: {'c': tf.cast(
        bc(tft.covariance(i['x'], dtype), i['x']), tf.float32)}, cols, v1=v1))
    xs = data(env, n, d)
    out = b.instances(b.run(spec.batches(
        env, cols, [{'x': x} for x in xs]), env.sched()))
    want = definition(xs)
    for o in (out[0], out[-1]):
      got = chunks(o['c'], d)
      for i in range(d):
        for j in range(d):
          env.eq(got[i][j], want[i][j], 'definition')
          env.eq(got[i][j], got[j][i], 'symmetric')
        env.check(got[i][i] >= -1e-2, 'variances are not negative')


cov_case('covariance', 3, 2, shards=4, budget=16)
cov_case('covariance_1', 3, 1, shards=2, budget=8)
cov_case('covariance_3', 2, 3, shards=4, budget=16)
cov_case('covariance_double', 3, 2, dtype=tf.float64, shards=3, budget=12)
cov_case('covariance_4', 4, 2, shards=6, budget=60, quick=False)
cov_case('covariance_v2', 3, 2, v1=False, shards=4, budget=30, quick=False)


def decomposed(env, want, label, generic):
  """The covariance entries the eigenvector facts are stated over."""
  d = len(want)
  if not core.active():
    return want, env.check
  calls = core.engine().notes.get('eigh', [])
  if len(calls) != 1:
    raise core.Unsupported('not a single eigendecomposition')
  given, c, facts = calls[0]
  for i in range(d):
    for j in range(i + 1):
      env.eq(given[i, j], want[i][j], label)
  holds = lambda cond, label, detail='': core.engine().prove_from(
      facts, cond, label, detail, [generic])
  return [[c[i, j] for j in range(d)] for i in range(d)], holds


def pca_case(name, n, d, k, dtype=tf.float32, v1=True, **kw):
  cols = [P.Col('x', 'dense', 'f', (d,))]

  @CHECK.case(name, bounds=f'{n} rows of [{d}], {k} components, {dtype.name}',
              **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(lambda i: {'p': tf.cast(
        bc(tft.pca(i['x'], k, dtype), i['x'], [d, k]), tf.float32)}, cols,
        v1=v1))
    xs = data(env, n, d, 8)
    cov = definition(xs)
    # unequal, correlated features: every wrong order or axis shows
    generic = core.band(*[
        (u[0] >= v[0] + 2) & (u[1] >= v[1] + 0.25) & (u[1] <= v[1] + 0.5)
        for u, v in zip(xs, xs[1:])])
    out = b.instances(b.run(spec.batches(
        env, cols, [{'x': x} for x in xs]), env.sched()))
    label = 'eigenvectors of the covariance'
    c, holds = decomposed(env, cov, label, generic)
    got = chunks(out[-1]['p'], k)
    env.check(len(got) == d, 'shape', Lazy(got))
    cols_ = [[got[i][m] for i in range(d)] for m in range(k)]
    dot = lambda a, e: total([p * q for p, q in zip(a, e)])
    image = [[dot(c[i], v) for i in range(d)] for v in cols_]
    power = [dot(v, w) for v, w in zip(cols_, image)]   # explained variance
    # real arithmetic is exact; a replay has float32 rounding
    scale = 0 if core.active() else 1 + sum(abs(x) for r in c for x in r)
    slack = scale * 1e-4
    near = lambda a, e, s=1: (a == e) if core.active() else (
        abs(a - e) <= s * 1e-3)
    for m in range(k):
      for q in range(m + 1):
        holds(near(dot(cols_[m], cols_[q]), 1 if m == q else 0), 'orthonormal')
      for i in range(d):
        holds(near(image[m][i], power[m] * cols_[m][i], scale), label)
      if m:
        holds(power[m - 1] >= power[m] - slack,
                  'decreasing explained variance', Lazy(power))
    # what is left out explains no more than what is kept
    if k < d:
      rest = total([c[i][i] for i in range(d)]) - total(power)
      holds(rest <= power[-1] * (d - k) + slack,
                'the largest components are kept', Lazy(power))


pca_case('pca_2of2', 3, 2, 2, shards=4, budget=20)
pca_case('pca_1of2', 3, 2, 1, shards=4, budget=20)
pca_case('pca_double', 3, 2, 1, dtype=tf.float64, shards=3, budget=14)
pca_case('pca_two_rows', 2, 2, 2, shards=3, budget=12)
pca_case('pca_2of3', 2, 3, 2, shards=4, budget=14)
pca_case('pca_v2', 3, 2, 1, v1=False, shards=3, budget=30, quick=False)
