"""Custom analyzers see the whole dataset and their results keep their places."""
import os

import apache_beam as beam
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform.beam import experimental as beam_experimental

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, total

CHECK = Check(
    'A34',
    bounds=['1-3 rows in at most 3 batches, any reals in [-100, 100], any '
            'integers and tokens; six distribution schedules; analyzers with '
            'one to three outputs, nested, repeated, with own files, and with '
            'separate accumulate/merge/extract steps over two datasets'],
    excluded=['float rounding', 'typehints'])

COLS = [P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f', (2,)),
        P.Col('n', 'dense', 'i'), P.Col('k', 'dense', 's'),
        P.Col('v', 'varlen', 'f')]


def flatten(batch):
  """The rows of one batch: tuples of one entry per input."""
  return list(zip(*[list(a) for a in batch]))


class Fold(beam.PTransform):
  """All rows in one list, then one output collection per function."""

  def __init__(self, *fns, single=False):
    super().__init__()
    self.fns, self.single = fns, single

  def expand(self, pcoll):
    every = (pcoll | 'Rows' >> beam.FlatMap(flatten)
             | 'List' >> beam.combiners.ToList())
    if self.single:
      return every | 'Out' >> beam.Map(self.fns[0])
    return tuple(every | f'Out{j}' >> beam.Map(f)
                 for j, f in enumerate(self.fns))


def sumsq(rows):
  return total([r[0] * r[0] for r in rows])


def count(rows):
  return np.int64(len(rows))


def weighted(rows):
  """Componentwise sum of y * x."""
  return [total([r[1][c] * r[0] for r in rows]) for c in range(2)]


def analyze(inputs, ptransform, dtypes, shapes, **kw):
  return tft.experimental.ptransform_analyzer(
      inputs, ptransform, dtypes, shapes, **kw)


F, I, S = tf.float32, tf.int64, tf.string


def three(i):
  c, w, s = analyze([i['x'], i['y']], Fold(count, weighted, sumsq),
                    [I, F, F], [[], [2], []])
  return {'c': bc(c, i['x']), 'w': bc(w, i['x'], [2]), 's': bc(s, i['x'])}


def three_want(env, o, rows, row):
  env.eq(cell(o['c']), len(rows), 'first output')
  for j in range(2):
    env.eq(as_list(o['w'])[j], total([r['x'] * r['y'][j] for r in rows]),
           'second output')
  env.eq(cell(o['s']), total([r['x'] * r['x'] for r in rows]), 'third output')


def swapped(i):
  """The same columns in the other order, twice the same transform."""
  a, = analyze([i['x'], i['n']], Fold(lambda rows: total(
      [core_float(r[0]) - 2 * core_float(r[1]) for r in rows])), [F], [[]])
  b, = analyze([i['n'], i['x']], Fold(lambda rows: total(
      [core_float(r[0]) - 2 * core_float(r[1]) for r in rows])), [F], [[]])
  c, = analyze([i['x'] + 1.0], Fold(sumsq), [F], [[]], name='again')
  d, = analyze([i['x']], Fold(sumsq), [F], [[]])
  return {n: bc(t, i['x']) for n, t in zip('abcd', (a, b, c, d))}


def core_float(v):
  return 1.0 * cell(v)


def swapped_want(env, o, rows, row):
  xs, ns = [r['x'] for r in rows], [r['n'] for r in rows]
  f = [core_float(n) for n in ns]
  env.eq(cell(o['a']), total([x - 2 * n for x, n in zip(xs, f)]),
         'inputs in order')
  env.eq(cell(o['b']), total([n - 2 * x for x, n in zip(xs, f)]),
         'inputs in the other order')
  env.eq(cell(o['c']), total([(x + 1) * (x + 1) for x in xs]),
         'the same transform of other values')
  env.eq(cell(o['d']), total([x * x for x in xs]), 'the same transform')


def nested(i):
  """Between other analyses: each sees the final values."""
  z = i['x'] - tft.mean(i['x'])
  s, n = analyze([z], Fold(sumsq, count), [F, I], [[], []])
  top = tft.max(z + s)
  return {'s': bc(s, z), 'n': bc(n, z), 'top': bc(top, z), 'z': z * s}


def nested_want(env, o, rows, row):
  xs = [r['x'] for r in rows]
  m = spec.mean(xs)
  s = total([(x - m) * (x - m) for x in xs])
  env.eq(cell(o['s']), s, 'analyzer of centred values')
  env.eq(cell(o['n']), len(rows), 'number of values')
  env.eq(cell(o['z']), (row['x'] - m) * s, 'value times result')
  env.eq(cell(o['top']), spec.greatest([x - m for x in xs]) + s,
         'analysis of the result')


def lengths(i):
  """Batches keep their shapes: values of a sparse column."""
  t, m = analyze([i['v'].values, tf.cast(i['v'].dense_shape, I)],
                 Values(), [F, I], [[], []])
  return {'t': bc(t, i['x']), 'm': bc(m, i['x'])}


class Values(beam.PTransform):

  def expand(self, pcoll):
    return (pcoll | 'V' >> beam.Map(lambda b: total(as_list(b[0])))
            | 'SumV' >> beam.CombineGlobally(total),
            pcoll | 'R' >> beam.Map(lambda b: b[1][0])
            | 'SumR' >> beam.CombineGlobally(total))


def lengths_want(env, o, rows, row):
  env.eq(cell(o['t']), total([v for r in rows for v in r['v']]),
         'sum of the sparse values')
  env.eq(cell(o['m']), len(rows), 'rows of all batches')


def strings(i):
  """The greatest token, and the tokens in order of a number."""
  def greatest(rows):
    r = rows[0][0]
    for row in rows[1:]:
      if row[0] > r:
        r = row[0]
    return r
  t, = analyze([i['k']], Fold(greatest), [S], [[]])
  one, = analyze([i['k']], Fold(greatest, single=True), [S], [[]], name='one')
  return {'t': bc(t, i['x']), 'e': tf.cast(tf.equal(i['k'], one), I)}


def strings_want(env, o, rows, row):
  top = rows[0]['k']
  for r in rows[1:]:
    if r['k'] > top:
      top = r['k']
  env.check(spec.eqb(cell(o['t']), top), 'token result', Lazy(o))
  env.check(spec.eqb(cell(o['e']), 1) == bool(spec.eqb(row['k'], top)),
            'single collection result', Lazy(o))


class Files(beam_experimental.PTransformAnalyzer):
  """Writes a line per row in its own directory; the path and the number."""

  def __init__(self, what):
    super().__init__()
    self.what = what

  def expand(self, pcoll):
    what = self.what

    def write(n, base):
      tf.io.gfile.makedirs(base)
      path = os.path.join(base, 'rows')
      with tf.io.gfile.GFile(path, 'w') as f:
        f.write('\n'.join([what] * n) + '\n')
      return np.array(path.encode(), dtype=object)
    n = (pcoll | beam.FlatMap(lambda b: list(b[0]))
         | beam.combiners.Count.Globally())
    return (n | 'Write' >> beam.Map(write, self.base_temp_dir),
            n | 'Number' >> beam.Map(np.int64))


def files(i):
  out = {}
  for n in ('a', 'bbb'):
    path, number = analyze(
        [i['x']], Files(n), [S, I], [[], []],
        output_asset_default_values=[b'none', None], name=n)
    length = tf.cast(tf.strings.length(tf.io.read_file(path)), I)
    out[n[0]] = bc(length, i['x'])
    out[n[0] + 'n'] = bc(number, i['x'])
  return out


def files_want(env, o, rows, row):
  for n in ('an', 'bn'):
    env.eq(cell(o[n]), len(rows), 'result beside a file')
  env.eq(cell(o['a']), 2 * len(rows), 'own file of the first analyzer')
  env.eq(cell(o['b']), 4 * len(rows), 'own file of the second analyzer')


PROGRAMS = {'three': (three, three_want), 'swapped': (swapped, swapped_want),
            'nested': (nested, nested_want), 'lengths': (lengths, lengths_want),
            'strings': (strings, strings_want), 'files': (files, files_want)}


def rows_of(env, n):
  xs, ns, ks = env.reals('x', n, -100, 100), env.ints('n', n, -20, 20), (
      env.toks('k', n))
  return [{'x': xs[j], 'n': ns[j], 'k': ks[j],
           'y': env.reals(f'y{j}_', 2, -100, 100),
           'v': env.reals(f'v{j}_', env.choose(3, f'v{j}len') if j else 1,
                          -100, 100)} for j in range(n)]


def case(name, n=3, v1=True, **kw):
  fn, want = PROGRAMS[name.split('.')[0]]

  @CHECK.case(name, bounds=f'{n} rows', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(fn, COLS, v1=v1))
    rows = rows_of(env, 1 + env.choose(n, 'n'))
    parts = env.split(rows)
    r = b.run([P.record_batch(COLS, p) for p in parts], env.sched())
    out = b.instances(r)
    env.check(len(out) == len(rows), 'rows')
    for p, o in zip(rows, out):
      want(env, o, rows, p)


# -- separate steps --------------------------------------------------------------


class Accumulate(beam.PTransform):
  """(rows, sum, sum of squares) of each batch."""

  def expand(self, pcoll):
    return pcoll | beam.Map(lambda b: [
        len(b[0]), total(list(b[0])), total([x * x for x in b[0]])])


class Merge(beam.PTransform):

  def expand(self, pcoll):
    return (pcoll | beam.combiners.ToList() | beam.Map(
        lambda accs: [total([a[j] for a in accs]) for j in range(3)]))


class Extract(beam.PTransform):

  def expand(self, pcoll):
    return pcoll | beam.Map(lambda a: [a[0] * 1.0, a[0] * a[2] - a[1] * a[1]])


# (The key of a cached part holds the identity of these objects: see A10.)
STEPS = (Accumulate(), Merge(), Extract())


def separate(i):
  steps = tft.experimental.CacheablePTransformAnalyzer(
      *STEPS,
      tft.experimental.SimpleJsonPTransformAnalyzerCacheCoder())
  r, = analyze([i['x']], steps, [F], [[2]])
  t, = analyze([i['x'] * i['x'] - 1.0], steps, [F], [[2]], name='m')
  return {'n': bc(r[0], i['x']), 's': bc(r[1], i['x']), 't': bc(t[1], i['x'])}


def separate_want(env, o, rows, row):
  xs = [r['x'] for r in rows]
  spread = lambda xs: len(xs) * total([x * x for x in xs]) - (
      total(xs) * total(xs))
  env.eq(cell(o['n']), len(xs), 'first of two results')
  env.eq(cell(o['s']), spread(xs), 'second of two results')
  if 't' in o:
    env.eq(cell(o['t']), spread([x * x - 1 for x in xs]), 'other analyzer')


PROGRAMS['separate'] = (separate, separate_want)


@CHECK.case('cached', shards=3, budget=15, bounds='two datasets of 2 and 1 rows, '
            'any of them analysed first, then both, with its cache')
def cached(env):
  def fn(i):
    return {k: v for k, v in separate(i).items() if k != 't'}
  cols = COLS[:1]
  first = (['a'], ['b'], ['a', 'b'])[env.shard]
  xs = env.reals('x', 3, -100, 100)
  data = {'a': [{'x': x} for x in xs[:2]], 'b': [{'x': xs[2]}]}
  rows = data['a'] + data['b']
  batch = lambda d: [P.record_batch(cols, [r]) for r in data[d]]
  one = env.once(('one', *first), lambda: P.CachedBuilt(fn, cols, first, first, {}))
  r = one.run({d: batch(d) for d in first}, [P.record_batch(cols, rows)],
              schedule=env.sched())
  cache = one.cache_of(r)
  for p, o in zip(rows, one.instances(r)):
    separate_want(env, o, [q for d in first for q in data[d]], p)
  # datasets with complete cache are not even supplied
  rest = [d for d in 'ab' if d not in first]
  two = env.once(('two', *first), lambda: P.CachedBuilt(
      fn, cols, ['a', 'b'], rest, {d: one.entries[d] for d in first}))
  r = two.run({d: batch(d) for d in rest}, [P.record_batch(cols, rows)], cache,
              schedule=env.sched())
  for p, o in zip(rows, two.instances(r)):
    separate_want(env, o, rows, p)


for _n in PROGRAMS:
  case(_n, shards=2, budget=15)
for _n in ('three', 'nested', 'separate'):
  case(_n + '.v2', v1=False, shards=1, budget=12)
for _n in ('swapped', 'strings', 'lengths'):
  case(_n + '.v2', v1=False, shards=1, budget=12, quick=False)
