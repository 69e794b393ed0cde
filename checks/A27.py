"""Information scores follow their formulas."""
import math

import tensorflow as tf
import tensorflow_transform as tft
import z3
from tensorflow_transform import info_theory

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import eqb, group, total

CHECK = Check(
    'A27',
    bounds=['the score of a cell: any positive real counts up to 10^6; tables '
            'of 2x2 and 2x3 cells; expected information: total up to 8 '
            '(thorough 14); vocabulary scores: 3-4 rows, symbolic tokens, '
            'labels in 0..2, weights 1/2, 1 or 2'],
    assumptions=['log2 is any function with log2(ab) = log2 a + log2 b and '
                 'ln t >= 1 - 1/t (true of the logarithm)'],
    excluded=['float rounding', 'the documented clipping of label means at '
              '1e-6 (compared within 1e-3)'])


def function(name):
  f = getattr(info_theory, name, None)
  if f is None:
    raise core.Unsupported('info_theory.' + name)
  return f


def lg(x):
  return core.slog2(x) if core.active() else math.log2(x)


def partial(n_ij, x, y, n):
  return function('calculate_partial_mutual_information')(n_ij, x, y, n)


def count(env, name, hi=10**6):
  r = env.real(name, 0, hi)
  env.assume(r > 0.001)
  return r


@CHECK.case('cell', budget=8, bounds='one cell, any positive real counts')
def cell_(env):
  n_ij, x, y, n = (count(env, v) for v in ('n_ij', 'x', 'y', 'n'))
  env.assume((n_ij <= x) & (n_ij <= y) & (x <= n) & (y <= n))
  got = partial(n_ij, x, y, n)
  env.eq(got, n_ij * (lg(n_ij) + lg(n) - lg(x) - lg(y)), 'cell')
  env.eq(got, partial(n_ij, y, x, n), 'symmetric')


@CHECK.case('zeros', budget=4, bounds='one count zero')
def zeros(env):
  v = [count(env, k) for k in 'abcd']
  i = env.choose(3, 'which')
  v[i] = 0 if env.choose(2, 'kind') else 0.0
  env.eq(partial(*v), 0, 'a cell without mass is zero')


def table(env, rows, cols):
  cells = [[count(env, f'n{i}{j}', 10**4) for j in range(cols)]
           for i in range(rows)]
  x = [total(r) for r in cells]
  y = [total([r[j] for r in cells]) for j in range(cols)]
  return cells, x, y, total(x)


def information(cells, x, y, n):
  return total([partial(cells[i][j], x[i], y[j], n)
                for i in range(len(x)) for j in range(len(y))])


def log_facts(env, n_ij, x, y, n):
  """ln t >= 1 - 1/t for t = n n_ij / (x y)."""
  if not core.active():
    return
  z = lambda v: core.SReal.lift(v).z
  l = z(lg(n_ij)) + z(lg(n)) - z(lg(x)) - z(lg(y))
  # log2 t >= (1 - 1/t) / ln 2, multiplied by n_ij > 0
  core.engine().axiom(
      z(n_ij) * l >= (z(n_ij) - z(x) * z(y) / z(n)) * z3.RealVal(
          repr(1 / math.log(2))))


def table_case(rows, cols):
  @CHECK.case(f'table_{rows}x{cols}', budget=14, quick=cols == 2,
              bounds=f'{rows}x{cols} table of any positive real counts')
  def run(env):
    n_ij, x, y, n = table(env, rows, cols)
    mi = information(n_ij, x, y, n)
    turned = [[n_ij[i][j] for i in range(rows)] for j in range(cols)]
    env.eq(mi, information(turned, y, x, n), 'symmetric')
    terms = total([n_ij[i][j] * (lg(n_ij[i][j]) + lg(n) - lg(x[i]) - lg(y[j]))
                   for i in range(rows) for j in range(cols)])
    env.eq(mi, terms, 'sum over joint outcomes')
    for i in range(rows):
      for j in range(cols):
        log_facts(env, n_ij[i][j], x[i], y[j], n)
      row = total([partial(n_ij[i][j], x[i], y[j], n) for j in range(cols)])
      env.check(row >= -1e-3, 'never negative', Lazy(row))


table_case(2, 2)
table_case(2, 3)


@CHECK.case('independent', budget=8,
            bounds='cells that are products of any positive real proportions')
def independent(env):
  n = count(env, 'n', 1000)
  p = [env.real(f'p{i}', 0, 1) for i in range(2)]
  for v in p:
    env.assume((v > 0.01) & (v < 0.99))
  x, y = n * p[0], n * p[1]
  env.eq(partial(n * p[0] * p[1], x, y, n), 0, 'independent counts score zero')


def emi(n, x, y):
  """Expected n_ij log2(n n_ij / (x y)) when labels are permuted."""
  r = 0.0
  for k in range(max(0, x + y - n), min(x, y) + 1):
    if k:
      p = math.comb(x, k) * math.comb(n - x, y - k) / math.comb(n, y)
      r += k * math.log2(n * k / (x * y)) * p
  return r


def expected_case(name, hi, **kw):
  @CHECK.case(name, bounds=f'integer totals up to {hi}', **kw)
  def run(env):
    n, x, y = env.int('n', 1, hi), env.int('x', 0, hi), env.int('y', 0, hi)
    env.assume((x <= n) & (y <= n))
    f = function('calculate_partial_expected_mutual_information')
    # the permutation model sums over every count in a range of x, y and n
    n, x, y = [core.concretize_int(v) if core.active() else v
               for v in (n, x, y)]
    got = f(n, x, y)
    env.eq(got, emi(n, x, y) if x and y else 0,
           'expected information of the permutation model', Lazy(n, x, y))


expected_case('expected', 8, budget=14)
expected_case('expected_14', 14, budget=90, quick=False)


def parse(l):
  """(score, token) of a line of the vocabulary."""
  if isinstance(l, bytes):
    s, t = l.split(b' ', 1)
    return float(s), t
  from sx import markers
  u = markers.SStr.units_of(l)
  k = [i for i, c in enumerate(u) if c == ('c', 32)][0]
  return float(bytes(c[1] for c in u[:k])), markers.SStr.of_units(u[k + 1:])


def scores(rows, adjusted, min_diff):
  """[(token, score)] of rows [(tokens, label, weight)]."""
  n = total([w for _, _, w in rows])
  ly = {}
  for _, y, w in rows:
    ly[y] = ly.get(y, 0) + w
  occ = [(t, y, w) for ts, y, w in rows for t in ts]
  out = []
  for t, g in group([t for t, _, _ in occ], [(y, w) for _, y, w in occ]):
    x = total([w for _, w in g])
    s = 0.0
    for y, c in ly.items():
      n_ij = total([w for v, w in g if v == y])
      if round(x) == round(n) or abs(x * c / n - n_ij) < min_diff:
        continue
      if n_ij:
        s += n_ij * math.log2(n * n_ij / (x * c))
      if adjusted:
        s -= emi(int(n), int(x), int(c))
    out.append((t, s))
  return out


def vocab_case(name, n, kind='dense', weighted=False, adjusted=False,
               min_diff=0, top_k=None, threshold=None, labels=2, dt='s',
               v1=True, **kw):
  cols = [P.Col('x', kind, dt), P.Col('y', 'dense', 'i')]
  if weighted:
    # weights follow the layout of the tokens
    cols.append(P.Col('w', kind, 'f'))

  def fn(i):
    tft.vocabulary(i['x'], labels=i['y'], store_frequency=True,
                   vocab_filename='v', use_adjusted_mutual_info=adjusted,
                   weights=i.get('w'), min_diff_from_avg=min_diff,
                   top_k=top_k, frequency_threshold=threshold)
    return {'y': i['y']}

  @CHECK.case(name, **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, transform=False, v1=v1))
    rows, data = [], []
    for j in range(n):
      y = env.choose(labels, f'y{j}')
      w = (1.0, 2.0, 0.5)[env.choose(3, f'w{j}')] if weighted else 1
      k = 1 if kind == 'dense' else env.choose(3, f'len{j}')
      ts = env.toks(f'x{j}_', k) if dt == 's' else [
          env.choose(3, f'x{j}_{m}') for m in range(k)]
      for a, c in zip(ts, ts[1:]):
        env.assume(a != c)    # a set of tokens per row, as documented
      data.append((ts, y, w))
      rows.append({'x': ts, 'y': y, 'w': [w] * k})
    run_ = b.run(spec.batches(env, cols, rows), env.sched())
    got = [parse(l) for l in P.vocab_file(b, run_, 'v')]
    want = [(t if dt == 's' else str(t).encode(), s)
            for t, s in scores(data, adjusted, min_diff)]
    kept = [e for e in want if threshold is None or e[1] >= threshold]
    if not kept:
      return
    exp = sorted([s for _, s in kept], reverse=True)[:top_k]
    env.check(len(got) == len(exp), 'number of entries', Lazy(got, want))
    env.check(all(a[0] >= c[0] - 1e-9 for a, c in zip(got, got[1:])),
              'decreasing scores', Lazy(got))
    for (s, t), e in zip(got, exp):
      env.check(abs(s - e) <= 1e-3, 'score at its rank', Lazy(got, want))
      mine = [v for u, v in kept if eqb(u, t)]
      env.check(len(mine) == 1 and abs(mine[0] - s) <= 1e-3,
                'score of the token', Lazy(t, s, want))


vocab_case('vocabulary', 4, shards=6, budget=20,
           bounds='4 rows of one token, 2 labels')
vocab_case('labels', 3, labels=3, shards=4, budget=14,
           bounds='3 rows of one token, 3 labels')
vocab_case('adjusted', 3, adjusted=True, shards=4, budget=14,
           bounds='3 rows, adjusted score')
vocab_case('min_diff', 4, min_diff=0.45, shards=4, budget=14,
           bounds='4 rows, cells near their average left out')
vocab_case('adjusted_min_diff', 4, adjusted=True, min_diff=0.45, shards=4,
           budget=14, quick=False,
           bounds='4 rows, adjusted, cells near their average left out')
vocab_case('weighted', 3, weighted=True, shards=4, budget=14,
           bounds='3 weighted rows')
vocab_case('top_k', 3, top_k=1, shards=4, budget=12,
           bounds='3 rows, the best token')
vocab_case('threshold', 3, threshold=0.5, shards=4, budget=12,
           bounds='3 rows, tokens scoring at least 0.5')
vocab_case('rows', 3, kind='varlen', shards=6, budget=18,
           bounds='3 rows of 0-2 distinct tokens')
vocab_case('rows_ragged', 3, kind='ragged', shards=6, budget=18, quick=False,
           bounds='3 rows of 0-2 distinct tokens, ragged')
vocab_case('integers', 3, dt='i', shards=4, budget=12,
           bounds='3 rows of integer tokens')
vocab_case('vocabulary_v2', 3, v1=False, shards=4, budget=20, quick=False,
           bounds='3 rows of one token, 2 labels, TF2')
