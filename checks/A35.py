"""Gaussianising uses the L-moments of the whole dataset."""
import itertools
import math

import numpy as np
import tensorflow as tf
import z3
import tensorflow_transform as tft
from tensorflow_transform import gaussianization

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, div, total

CHECK = Check(
    'A35',
    bounds=['at most 5 values in at most 3 batches, |x| <= 100, in any order '
            '(10 values in sorted batches); '
            'four shapes of the fitted distribution; six distribution '
            'schedules'],
    assumptions=['the numeric search for the shape parameters is replaced by a '
                 'stand-in that returns one of four pairs and records what it '
                 'was given; square root, exponential and logarithm are '
                 'uninterpreted up to their axioms'],
    excluded=['float rounding', 'accuracy of the numeric search and of the '
              'Lambert W iteration', 'NaN and infinite inputs'])

# (left, right) parameters and the first two L-moments of that distribution,
# by numeric integration of its quantile function.
SHAPES = ((0.0, 0.0), (0.25, 0.25), (0.0, 0.5), (0.125, 0.375))


def l_moments_of_shape(hl, hr):
  n = 40000
  z = [(-9 + 18 * (j + .5) / n) for j in range(n)]
  w = [math.exp(-u * u / 2) / math.sqrt(2 * math.pi) * 18 / n for u in z]
  cdf = [.5 * (1 + math.erf(u / math.sqrt(2))) for u in z]
  # (tails beyond 9 are below 1e-9 for these parameters)
  x = [u * math.exp((hl if u < 0 else hr) * u * u / 2) for u in z]
  l1 = sum(a * b for a, b in zip(x, w))
  l2 = sum(a * (2 * c - 1) * b for a, b, c in zip(x, w, cdf))
  return (l1 if abs(l1) > 1e-6 else 0.0), l2


MOMENTS = {}


def moments_of(h):
  if h not in MOMENTS:
    with core.paused():
      MOMENTS[h] = l_moments_of_shape(*h)
  return MOMENTS[h]


# -- definition --------------------------------------------------------------------

WEIGHTS = {1: (1,), 2: (-1, 1), 3: (1, -2, 1), 4: (-1, 3, -3, 1)}


def subset_sum(values, k):
  """Sum over all k-subsets of the L-statistic; values are ascending."""
  r = 0
  for s in itertools.combinations(values, k):
    r = r + total([w * v for w, v in zip(WEIGHTS[k], s)])
  return div(r, k)


def definition(groups):
  """[l1..l4] of groups of ascending values (None: no such subset)."""
  out = []
  for k in (1, 2, 3, 4):
    n = sum(math.comb(len(g), k) for g in groups)
    out.append(div(total([subset_sum(g, k) for g in groups]), n) if n else None)
  return out


def shuffled(env, name, n, few=False):
  """n values in any order, and the rank of each."""
  asc = env.reals(name, n, -100, 100)
  for a, b in zip(asc, asc[1:]):
    env.assume(a <= b)
  perms = list(itertools.permutations(range(n)))
  if few and n > 2:
    perms = [perms[0], perms[-1], perms[len(perms) // 2 + 1]]
  p = perms[env.choose(len(perms), name + '_order')]
  return [asc[j] for j in p], p


class StandIn:
  """The shape search: records what it gets, returns the shapes given."""

  def __init__(self, shapes):
    self.shapes, self.got = shapes, []

  def __call__(self, skew_kurt):
    self.got.append(list(as_list(skew_kurt)))
    return np.array(self.shapes[(len(self.got) - 1) % len(self.shapes)],
                    dtype=np.float32)

  def __enter__(self):
    if not callable(getattr(gaussianization, 'compute_tukey_hh_params', None)):
      raise core.Unsupported('gaussianization.compute_tukey_hh_params')
    self.real = gaussianization.compute_tukey_hh_params
    gaussianization.compute_tukey_hh_params = self
    return self

  def __exit__(self, *exc):
    gaussianization.compute_tukey_hh_params = self.real


def build(fn, cols, **kw):
  """The program, with a linear stand-in for the inverse of the distribution."""
  calls = []
  real = getattr(gaussianization, 'inverse_tukey_hh', None)

  def inverse(x, hl, hr):
    calls.append(x)
    return x + 10.0 * tf.cast(hl, x.dtype) + 100.0 * tf.cast(hr, x.dtype)
  gaussianization.inverse_tukey_hh = inverse
  try:
    b = P.Built(fn, cols, **kw)
  finally:
    if real is not None:
      gaussianization.inverse_tukey_hh = real
  if not calls:
    raise core.Unsupported('gaussianization.inverse_tukey_hh')
  return b


def params(x, reduce=True):
  h = tft.tukey_h_params(x, reduce_instance_dims=reduce)
  return {'loc': tft.tukey_location(x, reduce_instance_dims=reduce),
          'scale': tft.tukey_scale(x, reduce_instance_dims=reduce),
          'hl': h[0], 'hr': h[1]}


def scalars(x, like):
  return {k: bc(v, like) for k, v in params(x).items()}


def near(env, a, b, tol, label):
  d, m = a - b, abs(b) * 1e-3 + tol
  env.check((d <= m) & (-m <= d), label, Lazy(a, b))


def ratio(env, got, num, den, label):
  """got is num/den, up to rounding of the constants in both."""
  z = getattr(got, 'z', None)
  if z is not None and z.decl().kind() == z3.Z3_OP_DIV:
    # linear where the parts of the quotient are those of the definition
    a, b = [core.mk_real(c) for c in z.children()]
    t = 1e-3
    if core.engine().entailed((a - num <= t) & (num - a <= t) &
                              (b - den <= t) & (den - b <= t)):
      return
  near(env, got * den, num, 0.01, label)


def want_params(env, got, groups, h, searched):
  """Location and scale of `groups`; what every search was to be given."""
  l1, l2, l3, l4 = definition(groups)
  some = l2 is not None and not bool(l2 == 0)
  known = some and l4 is not None
  for skew, kurt in searched:
    for q, num, label in ((skew, l3, 'skewness'), (kurt, l4, 'kurtosis')):
      label = f'L-{label} given to the shape search'
      if known:
        ratio(env, q, num, l2, label)
      else:
        env.eq(q, 0.0, label)
  m1, m2 = moments_of(h)
  scale = div(l2, m2) if some else 1.0
  tol = 1e-3
  loc = l1 - scale * m1
  if got is not None:
    near(env, got['scale'], scale, tol, 'scale')
    near(env, got['loc'], loc, tol * 10, 'location')
    near(env, got['hl'], h[0], tol, 'left shape')
    near(env, got['hr'], h[1], tol, 'right shape')
  return scale, loc


def want_value(env, o, x, vals, loc, scale, h):
  """The scaled value, through the linear stand-in."""
  s = o - 10.0 * h[0] - 100.0 * h[1]
  if h[0] > 0 or h[1] > 0:
    near(env, s * scale, x - loc, 0.1, 'value of a long-tailed distribution')
    return
  v = spec.var(vals)
  if bool(v == 0):
    near(env, s, x - loc, 0.01, 'value of a constant column')
  else:
    near(env, s * core.ssqrt(v), x - loc, 0.01, 'z-score')


# -- whole pipeline ----------------------------------------------------------------

LAYOUT = {'dense': P.Col('x', 'dense', 'f'), 'ints': P.Col('x', 'dense', 'i'),
          'vector': P.Col('x', 'dense', 'f', (2,)),
          'varlen': P.Col('x', 'varlen', 'f'),
          'ragged': P.Col('x', 'ragged', 'f'),
          'sparse': P.Col('x', 'sparse', 'f', (3,))}


def column(values, layout, split):
  """Rows of a layout that hold the values in order."""
  if layout in ('dense', 'ints'):
    return [{'x': v} for v in values]
  if layout == 'vector':
    return [{'x': values[j:j + 2]} for j in range(0, len(values), 2)]
  rows = [values[:split], values[split:split + 1], values[split + 1:]]
  if layout == 'sparse':
    return [{'x': list(zip((0, 2), r)) if len(r) > 1 else
             list(zip((0,), r))} for r in rows]
  return [{'x': r} for r in rows]


def values_of(row, layout):
  x = row['x']
  if layout in ('dense', 'ints'):
    return [x]
  return [v for _, v in x] if layout == 'sparse' else list(x)


def case(name, layout, n, what, v1=True, few=False, **kw):
  cols = [LAYOUT[layout]]

  def fn(i):
    x = i['x']
    if what == 'gauss':
      g = tft.scale_to_gaussian(x)
      if layout == 'sparse':
        g = tf.ensure_shape(tf.sparse.to_dense(g, -9999.0), [None, 3])
      return {'g': g}
    return scalars(x, x)

  @CHECK.case(name, bounds=f'{layout} column, up to {n} values', **kw)
  def run(env):
    extra = what == 'gauss' and layout == 'dense'
    make = (lambda: build(fn, cols, v1=v1, two_data=extra)) if (
        what == 'gauss') else (lambda: P.Built(fn, cols, v1=v1))
    b = env.once('p', make)
    h = SHAPES[(0, 2, 3, 1)[env.choose(len(SHAPES), 'shape')]]
    m = n if layout == 'vector' else n - env.choose(3, 'fewer')
    values, rank = (env.ints('x', m, -20, 20), None) if layout == 'ints' else (
        shuffled(env, 'x', m, few))
    split = env.choose(2, 'layout') if layout not in ('dense', 'vector',
                                                      'ints') else 0
    index = column(list(range(m)), layout, split)
    rows = column(values, layout, split)
    order = env.split(list(range(len(rows))), max_parts=3)
    parts = [[rows[j] for j in p] for p in order]
    with StandIn([h]) as search:
      batches = [P.record_batch(cols, p) for p in parts]
      more = []
      if extra:
        # rows that were not analysed are scaled alike
        rows = rows[:1] + [{'x': env.real('unseen', -100, 100)}]
        more = [[P.record_batch(cols, rows)]]
      out = b.instances(b.run(batches, env.sched(), *more))
    if not search.got:
      raise core.Unsupported('the shape search was not called')
    groups = []
    for p in order:
      ids = [v for j in p for v in values_of(index[j], layout)]
      groups.append(network([values[j] for j in ids]) if rank is None else [
          values[j] for j in sorted(ids, key=lambda j: rank[j])])
    env.check(len(out) == len(rows), 'rows')
    for r, o in zip(rows, out):
      if what == 'gauss':
        scale, loc = want_params(env, None, groups, h, search.got[:1])
        got = as_list(o['g' if 'g' in o else 'g$ragged_values'])
        xs = values_of(r, layout)
        if layout == 'sparse':
          got = [got[d] for d, _ in r['x']]
        env.check(len(got) == len(xs), 'layout kept', Lazy(got, xs))
        for g, x in zip(got, xs):
          want_value(env, g, x, values, loc, scale, h)
      else:
        want_params(env, {k: cell(v) for k, v in o.items()}, groups, h,
                    search.got if r is rows[0] else [])


def network(xs):
  """The values in ascending order, without forking."""
  xs = [1.0 * x for x in xs]
  for i in range(len(xs)):
    for j in range(len(xs) - 1 - i):
      a, b = xs[j], xs[j + 1]
      xs[j], xs[j + 1] = core.smin(a, b), core.smax(a, b)
  return xs


case('dense', 'dense', 4, 'params', budget=20)
case('dense_5', 'dense', 5, 'params', few=True, budget=20)
case('ints', 'ints', 3, 'params', budget=10)
case('vector', 'vector', 4, 'params', few=True, budget=10)
case('varlen', 'varlen', 4, 'params', few=True, budget=10)
case('ragged', 'ragged', 4, 'params', few=True, budget=10)
case('sparse', 'sparse', 4, 'params', few=True, budget=10)
case('dense.v2', 'dense', 4, 'params', v1=False, few=True, budget=10)
case('scaled', 'dense', 3, 'gauss', few=True, shards=2, budget=20)
case('scaled_ints', 'ints', 3, 'gauss', budget=15)
case('scaled_vector', 'vector', 4, 'gauss', few=True, budget=12)
case('scaled_varlen', 'varlen', 3, 'gauss', few=True, budget=15)
case('scaled_ragged', 'ragged', 3, 'gauss', few=True, budget=15)
case('scaled_sparse', 'sparse', 3, 'gauss', few=True, budget=15)


@CHECK.case('constant', budget=12, bounds='1-3 rows of one value; an unseen row')
def constant(env):
  cols = [LAYOUT['dense']]

  def fn(i):
    x = i['x']
    return {'g': tft.scale_to_gaussian(x), **scalars(x, x)}
  b = env.once('p', lambda: build(fn, cols, two_data=True))
  h = SHAPES[(0, 2, 3, 1)[env.choose(4, 'shape')]]
  v, n = env.real('v', -100, 100), 1 + env.choose(3, 'n')
  parts = [[{'x': v} for _ in p] for p in env.split(list(range(n)))]
  more = [{'x': v}, {'x': env.real('unseen', -100, 100)}]
  with StandIn([h]) as search:
    out = b.instances(b.run([P.record_batch(cols, p) for p in parts], None,
                            [P.record_batch(cols, more)]))
  if not search.got:
    raise core.Unsupported('the shape search was not called')
  env.check(len(out) == 2, 'rows')
  groups = [[v] * len(p) for p in parts]
  for r, o in zip(more, out):
    o = {k: cell(c) for k, c in o.items()}
    scale, loc = want_params(env, o, groups, h, search.got)
    want_value(env, o['g'], r['x'], [v] * n, loc, scale, h)


def large_case(name, kind, **kw):
  """Sorted batches, so that many values stay cheap."""
  wide = kind != 'dense1'
  col = (P.Col('x', kind, 'f', (2,)) if wide else P.Col('x', 'dense', 'f'))

  def fn(i):
    x = i['x']
    return ({k: bc(v, x, [2]) for k, v in params(x, False).items()} if wide
            else scalars(x, x))

  @CHECK.case(name, bounds='2-3 batches of at most 4 values, each in ascending '
              'or descending order', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(fn, [col]))
    sizes = ((4, 4), (3, 4), (4, 2), (3, 3), (2, 4, 4), (4, 1, 3))
    sizes = sizes[env.choose(len(sizes), 'sizes')]
    down = env.choose(2, 'down') == 1
    groups = [[], []] if wide else [[]]
    batches = []
    for j, n in enumerate(sizes):
      batch = []
      for d, g in enumerate(groups):
        asc = env.reals(f'x{j}_{d}_', n, -100, 100)
        for u, v in zip(asc, asc[1:]):
          env.assume(u <= v)
        batch.append(asc[::-1] if down else asc)
        g.append(asc)
      if kind == 'sparse' and n == 4:
        # one missing entry
        d = env.choose(2, f'missing{j}')
        groups[d][-1] = [v for v in groups[d][-1] if v is not batch[d][1]]
        rows = [{'x': [(e, r[e]) for e in range(2) if (q, e) != (1, d)]}
                for q, r in enumerate(zip(*batch))]
      else:
        rows = [{'x': ([*enumerate(r)] if kind == 'sparse' else list(r))
                 if wide else r[0]} for r in zip(*batch)]
      batches.append(P.record_batch([col], rows))
    hs = [SHAPES[env.choose(2, 'shape')], SHAPES[3]][:len(groups)]
    with StandIn(hs) as search:
      out = b.instances(b.run(batches, env.sched()))
    if not search.got or len(search.got) % len(hs):
      raise core.Unsupported('the shape search was not called')
    for d, g in enumerate(groups):
      want_params(env, {k: as_list(v)[d] for k, v in out[0].items()}, g, hs[d],
                  search.got[d::len(hs)])


large_case('large_batches', 'dense1', budget=20)
large_case('large_elementwise', 'dense', budget=20)
large_case('large_elementwise_sparse', 'sparse', budget=20)


# -- every position of the instances on its own --------------------------------------

PAIR = (SHAPES[1], SHAPES[0]), (SHAPES[0], SHAPES[2]), (SHAPES[3], SHAPES[1])


def elementwise_case(name, kind, what, **kw):
  cols = [P.Col('x', kind, 'f', (2,))]

  def fn(i):
    x = i['x']
    if what == 'gauss':
      g = tft.scale_to_gaussian(x, elementwise=True)
      if kind == 'sparse':
        g = tf.ensure_shape(tf.sparse.to_dense(g, -9999.0), [None, 2])
      return {'g': g}
    return {k: bc(v, x, [2]) for k, v in params(x, False).items()}

  @CHECK.case(name, bounds=f'{kind} column of 2 positions, 3 rows', **kw)
  def run(env):
    make = (lambda: build(fn, cols)) if what == 'gauss' else (
        lambda: P.Built(fn, cols))
    b = env.once('p', make)
    h = PAIR[env.choose(len(PAIR), 'shape')]
    c0, r0 = shuffled(env, 'a', 3, few=True)
    c1, r1 = shuffled(env, 'b', 3, few=True)
    have = [(True, True)] * 3
    if kind == 'sparse':
      have = [(True, True), (env.choose(2, 'p') == 1, True),
              (True, env.choose(2, 'q') == 1)]
    pairs = list(zip(c0, c1))
    rows = [{'x': list(p) if kind == 'dense' else
             [(d, p[d]) for d in range(2) if h[d]]}
            for p, h in zip(pairs, have)]
    order = env.split(list(range(3)), max_parts=3)
    with StandIn(h) as search:
      out = b.instances(b.run([P.record_batch(cols, [rows[j] for j in p])
                               for p in order], env.sched()))
    if not search.got or len(search.got) % 2:
      raise core.Unsupported('the shape search was not called per position')
    for d, (c, rank) in enumerate(((c0, r0), (c1, r1))):
      groups = [[c[j] for j in sorted(p, key=lambda j: rank[j]) if have[j][d]]
                for p in order]
      vals = [c[j] for j in range(3) if have[j][d]]
      first = {k: as_list(v)[d] for k, v in out[0].items()}
      scale, loc = want_params(env, first if what == 'params' else None, groups,
                               h[d], search.got[d::2])
      for j, o in enumerate(out):
        if what == 'gauss':
          g = as_list(o['g'])
          env.check(len(g) == 2, 'width')
          if have[j][d]:
            want_value(env, g[d], c[j], vals, loc, scale, h[d])
          else:
            env.eq(g[d], -9999.0, 'missing entry stays missing')


elementwise_case('elementwise', 'dense', 'params', budget=15)
elementwise_case('elementwise_sparse', 'sparse', 'params', budget=15)
elementwise_case('scaled_elementwise', 'dense', 'gauss', budget=15)
elementwise_case('scaled_elementwise_sparse', 'sparse', 'gauss', budget=15)


# -- the inverse and the search ---------------------------------------------------------


@CHECK.case('inverse', budget=10,
            bounds='any |x| <= 20, six pairs of shapes; either side; the '
            'Lambert W function is a stand-in, W(y) = y * y')
def inverse(env):
  fn = getattr(gaussianization, 'inverse_tukey_hh', None)
  if fn is None:
    raise core.Unsupported('gaussianization.inverse_tukey_hh')
  hl, hr = (SHAPES + ((0.5, 0.0), (0.375, 0.125)))[
      (2, 4, 3, 5, 0, 1)[env.choose(6, 'shape')]]
  g = env.once(('g', hl, hr), lambda: inverse_graph(fn, hl, hr))
  x = env.real('x', -20, 20)
  u = as_list(g(x=P.arr([x], np.float32))['u'])[0]
  h = hl if bool(x < 0) else hr
  if h == 0:
    env.eq(u, x, 'no tail on this side: unchanged')
  # values so close to the middle that the tail does not count
  elif bool(x * x * h < 1.1e-7):
    env.assume(x * x * h < 0.9e-7)
    env.eq(u, x, 'unchanged near the middle')
  else:
    # the inverse is the square root of W(h x^2) / h
    e = core.ssqrt(h * x * x * x * x)
    near(env, u, -e if bool(x < 0) else e, 1e-3, 'the tail of its own side')


def inverse_graph(fn, hl, hr):
  real, calls = getattr(gaussianization, 'lambert_w', None), []

  def w(y):
    calls.append(y)
    return y * y
  gaussianization.lambert_w = w
  try:
    return P.GraphFn(
        lambda i: {'u': fn(i['x'], tf.constant(hl), tf.constant(hr))},
        {'x': tf.TensorSpec([None], tf.float32)})
  finally:
    if real is not None:
      gaussianization.lambert_w = real
    if not calls:
      raise core.Unsupported('gaussianization.lambert_w')


@CHECK.case('search', budget=10, bounds='any error function with a sign change '
            'in an interval of at most 6e-6: at most 4 bisections')
def search(env):
  find = getattr(gaussianization, '_binary_search', None)
  if find is None:
    raise core.Unsupported('gaussianization._binary_search')
  low = env.real('low', -1, 1)
  width = env.real('width', 0, 6e-6)
  env.assume(width > 0)
  seen = []

  def error(v):
    seen.append((v, env.real(f'e{len(seen)}', -1, 1)))
    return seen[-1][1]
  lo, hi = find(error, low, low + width)
  env.check((lo >= low) & (hi <= low + width) & (lo < hi), 'within the interval')
  at = lambda v, good: total_or([v == p for p, e in seen if bool(good(e))])
  env.check((lo == low) | at(lo, lambda e: e < 0), 'negative error below',
            Lazy(lo, hi, seen))
  env.check((hi == low + width) | at(hi, lambda e: e >= 0),
            'positive error above', Lazy(lo, hi, seen))
  # it stops only when there is nothing left to gain
  small = [abs(e) < 1e-6 for _, e in seen[-1:]] + [hi - lo < 1e-6]
  env.check((len(seen) > 10) | total_or(small), 'searched to the end',
            Lazy(lo, hi, seen))


def total_or(cs):
  r = False
  for c in cs:
    r = r | c
  return r
