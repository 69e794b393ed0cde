"""Re-applying a recorded pipeline branch reproduces it faithfully."""
import collections
import itertools

import apache_beam as beam
import tensorflow_transform as tft
from apache_beam import pvalue
from tensorflow_transform.beam import deep_copy

from sx import core, minibeam, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import bc, cell

CHECK = Check(
    'A25',
    bounds=['every pipeline of up to four steps of ten kinds (element-wise, '
            'filtering, several outputs, flatten, side inputs, grouping, '
            'combining, composites) over two symbolic elements; one to three '
            'copies'],
    excluded=['windowing and triggers', 'resource hints'])

COUNTS = collections.Counter()


def counted(i, f):
  def fn(x, *side):
    COUNTS[i] += 1
    return f(x, *side)
  return fn


class Split(beam.DoFn):
  """Every element to 'low' or 'high', and a running copy to the main output."""

  def __init__(self, i):
    self.i = i

  def process(self, x):
    COUNTS[self.i] += 1
    yield pvalue.TaggedOutput('low' if bool(x < self.i) else 'high', x)
    yield x + 100


class Composite(beam.PTransform):

  def __init__(self, i):
    super().__init__()
    self.i = i

  def expand(self, pc):
    i = self.i
    return (pc | 'In' >> beam.Map(counted((i, 0), lambda x: x + 3))
            | 'Out' >> beam.Map(counted((i, 1), lambda x: x * 2)))


KINDS = ('map', 'filter', 'split', 'flatten', 'side_list', 'side_one', 'group',
         'combine', 'per_key', 'composite', 'flat_map')


def step(env, p, pool, i, kind, pick):
  """Applies a step to collections of the pool; its outputs join the pool."""
  a = pool[pick(f'in{i}')]
  n = f'{kind}{i}'
  if kind == 'map':
    out = [a | n >> beam.Map(counted(i, lambda x: 2 * x + i + 1))]
  elif kind == 'filter':
    out = [a | n >> beam.Filter(counted(i, lambda x: bool(x > i)))]
  elif kind == 'flat_map':
    out = [a | n >> beam.FlatMap(counted(i, lambda x: [x, x + i]))]
  elif kind == 'split':
    o = a | n >> beam.ParDo(Split(i)).with_outputs('low', 'high', main='main')
    out = [o.main, o.low, o.high]
  elif kind == 'flatten':
    out = [(a, pool[pick(f'in{i}b')]) | n >> beam.Flatten()]
  elif kind == 'side_list':
    out = [a | n >> beam.Map(counted(i, lambda x, s: x + spec.total(list(s))),
                             pvalue.AsList(pool[pick(f'in{i}b')]))]
  elif kind == 'side_one':
    one = (pool[pick(f'in{i}b')]
           | n + 'Sum' >> beam.CombineGlobally(counted_sum(i)))
    out = [a | n >> beam.Map(counted((i, 1), lambda x, s: x + 7 * s),
                             pvalue.AsSingleton(one))]
  elif kind == 'group':
    out = [a | n + 'Key' >> beam.Map(counted((i, 0), lambda x: (
        bool(x > 0), x)))
           | n >> beam.GroupByKey()
           | n + 'Sum' >> beam.Map(counted((i, 1), lambda kv: spec.total(
               list(kv[1])) + (1 if kv[0] else 0)))]
  elif kind == 'combine':
    out = [a | n >> beam.CombineGlobally(counted_sum(i)).without_defaults()]
  elif kind == 'per_key':
    out = [a | n + 'Key' >> beam.Map(counted((i, 0), lambda x: (
        bool(x > 0), x)))
           | n >> beam.CombinePerKey(counted_sum((i, 2)))
           | n + 'Value' >> beam.Map(counted((i, 1), lambda kv: kv[1]))]
  else:
    out = [a | n >> Composite(i)]
  pool.extend(out)
  return out


def counted_sum(i):
  def total(xs):
    COUNTS[i, 'sum'] += 1
    return spec.total(list(xs))
  return total


def same_elements(env, got, want, label):
  env.check(len(got) == len(want), label + ': number', Lazy(got, want))
  if len(got) != len(want):
    return
  if len(got) > 4:
    for g, w in zip(got, want):
      env.check(g == w, label, Lazy(got, want))
    return
  cond = False
  for q in itertools.permutations(want):
    c = core.band(*[g == w for g, w in zip(got, q)]) if got else True
    cond = core.bor(cond, c)
  env.check(cond, label, Lazy(got, want))


def evaluate(pc, sched=None):
  COUNTS.clear()
  r = minibeam.Run(minibeam.Schedule(0)).get(pc)
  return list(r), dict(COUNTS)


def pipe():
  return beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
      pipeline_type_check=False))


def upstream(pc):
  """Applied steps reachable from a collection."""
  seen, todo = [], [pc]
  while todo:
    x = todo.pop()
    ap = getattr(x, 'producer', None)
    if ap is None or ap in seen:
      continue
    seen.append(ap)
    todo += list(ap.inputs)
  return seen


def grouped(pc):
  """Whether this is the result of a grouping step, primitive or composite."""
  ap = pc.producer
  while ap is not None:
    if type(ap.transform) in (beam.GroupByKey, beam.CombinePerKey):
      return True
    ap = ap.parent
    if ap is None or pc not in ap.outputs.values():
      return False
  return False


def structure(env, original, copy):
  """The copy is well formed and made of the same transforms."""
  a, b = upstream(original), upstream(copy)
  shared = [x for x in b if x in a]
  fresh = [x for x in b if x not in a]
  env.check(len({x.full_label for x in a + fresh}) == len(
      {id(x) for x in a + fresh}), 'every step has its own label')
  for x in fresh:
    for i in x.main_inputs.values():
      env.check(isinstance(i, pvalue.PBegin) or i.producer in fresh or grouped(i),
                'steps are shared only before a grouping', Lazy(x.full_label))
    twins = [y for y in a if y.transform is x.transform]
    env.check(len(twins) == 1, 'each step copies one original step')
    twin = twins[0]
    env.check(sum(1 for z in fresh if z.transform is x.transform) == 1,
              'each step is re-applied once')
    env.check(list(x.side_inputs) == list(twin.side_inputs), 'side inputs')
    env.check(sum(1 for q in x.parent.parts if q is x) == 1,
              'belongs to its parent once')
    for tag, o in x.outputs.items():
      env.check(tag in twin.outputs and o.tag == twin.outputs[tag].tag and
                o.producer is x and o is not twin.outputs[tag], 'outputs')
  return shared, fresh


@CHECK.case('programs', shards=6, budget=40, bounds='up to three steps, then a '
            'copy, then a step on the original or on the copy')
def programs(env):
  xs = env.ints('x', 1 + env.choose(2, 'elements'), -1000, 1000)
  P.DATA['xs'] = xs
  program(env, 1 + env.choose(3, 'steps'))


@CHECK.case('programs4', shards=6, budget=60, quick=False,
            bounds='four steps')
def programs4(env):
  P.DATA['xs'] = env.ints('x', 2, -1000, 1000)
  program(env, 4)


@CHECK.case('diamonds', shards=4, budget=20,
            bounds='two steps from one collection and up to two that bring '
            'branches of any lengths together')
def diamonds(env):
  P.DATA['xs'] = env.ints('x', 1, -1000, 1000)
  program(env, 3 + env.choose(2, 'longer'), ('flatten', 'map', 'split'))


def program(env, n, kinds=KINDS):
  p = pipe()
  pool = []
  with core.paused():
    pool.append(P.source(p, 'xs'))
  last = None
  for i in range(n):
    first = kinds is not KINDS and i < n - 1
    kind = kinds[(env.choose(len(kinds), f'kind{i}') + first) % len(kinds)]
    def pick(name):
      return len(pool) - 1 - env.choose(min(len(pool), 3), name)
    last = step(env, p, pool, i, kind, pick)
  target = last[env.choose(len(last), 'target')]
  want, wc = evaluate(target)
  others = [pc for pc in pool if pc is not target]
  kept = {id(pc): evaluate(pc) for pc in others[-2:]}
  copies = []
  for c in range(1 + env.choose(2, 'copies')):
    src = target if not copies or env.choose(2, 'of_copy') == 0 else copies[-1]
    cp = deep_copy.deep_copy(src)
    env.check(isinstance(cp, pvalue.PCollection), 'a collection')
    structure(env, src, cp)
    copies.append(cp)
  # steps after the copy do not matter to it
  after = env.choose(3, 'after')
  if after:
    _ = (target if after == 1 else copies[0]) | 'after' >> beam.Map(
        counted('after', lambda x: x + 5))
  for cp in copies:
    got, gc = evaluate(cp)
    same_elements(env, got, want, 'same elements')
    env.check(gc == wc, 'each step is applied as often', Lazy(gc, wc))
  got, gc = evaluate(target)
  same_elements(env, got, want, 'original unchanged')
  env.check(gc == wc, 'original applied as often', Lazy(gc, wc))
  for pc in others[-2:]:
    got, gc = evaluate(pc)
    w, c = kept[id(pc)]
    same_elements(env, got, w, 'other collections unchanged')
    env.check(gc == c, 'other collections applied as often', Lazy(gc, c))
  # evaluating everything at once
  COUNTS.clear()
  run = minibeam.Run(minibeam.Schedule(0))
  for pc in [target] + copies:
    same_elements(env, list(run.get(pc)), want, 'all at once')


@CHECK.case('refused', budget=3, bounds='arguments that are not collections')
def refused(env):
  p = pipe()
  arg = (None, p, [1], 'x')[env.choose(4, 'arg')]
  try:
    deep_copy.deep_copy(arg)
  except ValueError:
    env.check(True, 'refused')
  else:
    env.check(False, 'refused', Lazy(arg))


# -- analyses that use it -----------------------------------------------------------


def two_phases(i):
  x = i['x']
  m = tft.mean(x)
  y = x - m
  return {'m': bc(m, x), 's': bc(tft.sum(y * y), x), 'b': bc(tft.max(y), x),
          'y': y}


@CHECK.case('analysis', shards=3, budget=20, bounds='three rows, an analysis of '
            'two phases with the option on')
def analysis(env):
  cols = [P.Col('x', 'dense', 'f')]
  b = env.once('p', lambda: P.Built(two_phases, cols, deep_copy=True))
  xs = env.reals('x', 3, -100, 100)
  rows = [{'x': x} for x in xs]
  run = b.run(spec.batches(env, cols, rows), env.sched())
  out = b.instances(run)
  m = spec.mean(xs)
  env.check(len(out) == 3, 'rows')
  for o, x in zip(out, xs):
    env.eq(cell(o['m']), m, 'mean')
    env.eq(cell(o['y']), x - m, 'rows')
    env.eq(cell(o['s']), spec.total([(v - m) * (v - m) for v in xs]), 'sum')
    env.eq(cell(o['b']), spec.greatest([v - m for v in xs]), 'max')
