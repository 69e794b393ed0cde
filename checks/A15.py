"""The exported transform computes exactly what the pipeline computed."""
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.exported import (by_layer, eagerly, finalized, in_function,
                         in_graph, placeholder_spec, served, value)
from sx.spec import as_list

CHECK = Check(
    'A15',
    bounds=['2 analysed rows; 1-3 raw rows transformed, of at most 2 values '
            'each; in one batch or two; every subset of the columns'],
    assumptions=['the tfx_bsl quantile sketch is replaced by its contract'],
    excluded=['string hashing', 'py_func based transforms',
              'padding widths of sparse outputs'])

COLS = {c.name: c for c in (
    P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f'),
    P.Col('xv', 'dense', 'f', (2,)), P.Col('v', 'varlen', 'f'),
    P.Col('r', 'ragged', 'f'), P.Col('k', 'dense', 's'),
    P.Col('kv', 'varlen', 's'), P.Col('kr', 'ragged', 's'),
    P.Col('i', 'varlen', 'i'), P.Col('j', 'dense', 'i'))}


def mixed(i):
  z = tft.scale_to_z_score(i['x'])
  return {'sum': z + tft.scale_to_0_1(i['y']), 'x': i['x'] - tft.mean(i['y']),
          'own': i['y'] * 2.0, 'nest': i['x'] - tft.max(i['x'] - tft.min(
              i['y'])), 'k': tft.compute_and_apply_vocabulary(
                  i['k'], num_oov_buckets=0)}


# name -> (program, {output: the columns it needs})
PROGRAMS = {
    'scale': (lambda i: {
        'x': tft.scale_to_0_1(i['x']),
        'xv': tft.scale_to_z_score(i['xv'], elementwise=True),
        'v': tft.scale_by_min_max(i['v'], -1.0, 2.0),
        'r': tft.scale_to_z_score(i['r'])},
              {'x': 'x', 'xv': 'xv', 'v': 'v', 'r': 'r'}),
    'mixed': (mixed, {'sum': 'x y', 'x': 'x', 'own': 'y', 'nest': 'x',
                      'k': 'k'}),
    'per_key': (lambda i: {
        'x': tft.scale_to_0_1_per_key(i['x'], i['k']),
        'y': tft.scale_to_z_score_per_key(i['y'], i['k']),
        'k': tf.identity(i['k'])}, {'x': 'x k', 'y': 'y k', 'k': 'k'}),
    'per_key_file': (lambda i: {
        'x': tft.scale_to_0_1_per_key(i['x'], i['k'],
                                      key_vocabulary_filename='keys'),
        'y': i['y'] + 1.0}, {'x': 'x k', 'y': 'y'}),
    'vocabulary': (lambda i: {
        'k': tft.compute_and_apply_vocabulary(i['k'], default_value=-7),
        'kv': tft.compute_and_apply_vocabulary(i['kv'], top_k=1)},
                   {'k': 'k', 'kv': 'kv'}),
    'vocabulary_ints': (lambda i: {
        'j': tft.compute_and_apply_vocabulary(i['j'], vocab_filename='ints'),
        'y': i['y']}, {'j': 'j', 'y': 'y'}),
    'vocabulary_gz': (lambda i: {
        'k': tft.compute_and_apply_vocabulary(
            i['k'], vocab_filename='g', file_format='tfrecord_gzip'),
        'kr': tft.compute_and_apply_vocabulary(i['kr'], default_value=5)},
                      {'k': 'k', 'kr': 'kr'}),
    'tfidf': (lambda i: dict(zip('ab', tft.tfidf(i['i'], 3)), y=i['y']),
              {'a': 'i', 'b': 'i', 'y': 'y'}),
    'bucketize': (lambda i: {'x': tft.bucketize(i['x'], 2),
                             'v': tft.bucketize(i['v'], 2),
                             'y': tft.bucketize_per_key(i['y'], i['k'], 2)},
                  {'x': 'x', 'v': 'v', 'y': 'y k'}),
    'strings': (lambda i: {
        'n': tft.ngrams(i['kv'], (1, 2), ' '),
        'd': tft.deduplicate_tensor_per_row(i['kv']),
        'w': tft.word_count(i['kv']), 'kr': i['kr'],
        'c': tft.apply_buckets(i['x'], tf.constant([[0., 1., 3.]]))},
                {'n': 'kv', 'd': 'kv', 'w': 'kv', 'kr': 'kr', 'c': 'x'}),
}


def columns(name):
  need = sorted({c for d in PROGRAMS[name][1].values() for c in d.split()})
  return [COLS[c] for c in need]


def row(env, cols, tag, full=False):
  r = {}
  for c in cols:
    n = (2 if c.shape else 1) if c.kind == 'dense' else (
        1 if full else env.choose(3, f'n_{c.name}{tag}'))
    key = f'{c.name}{tag}_'
    r[c.name] = (env.reals(key, n, -9, 9) if c.dt == 'f' else
                 env.toks(key, n) if c.dt == 's' else env.ints(key, n, 0, 2))
  return r


def strip(cells):
  return [x[1] if isinstance(x, tuple) else x for x in cells]


V1_WAYS = (in_graph, by_layer)
V2_WAYS = (by_layer, eagerly, in_function, finalized)


def case(name, v1, quick=True, shards=3, budget=20, ways=None, suffix=''):
  fn, deps = PROGRAMS[name]
  cols = columns(name)
  ways = ways or (V1_WAYS if v1 else V2_WAYS)

  @CHECK.case(name + ('' if v1 else '_v2') + suffix, quick=quick, shards=shards,
              budget=budget, bounds=f'program "{name}", exported as TF'
              f'{1 if v1 else 2}: ' + ', '.join(
                  w.__name__ for w in ways))
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1, two_data=True,
                                      publish=True))
    data = [row(env, cols, 'a0', True), row(env, cols, 'a1', True)]
    n = 1 + env.choose(2, 'rows')
    rows = [row(env, cols, f'b{j}') for j in range(n)]
    r = b.run([P.record_batch(cols, data)], None, [P.record_batch(cols, rows)])
    want = b.instances(r)
    env.check(len(want) == n, 'every row once')
    root = b.published(r)
    way = ways[env.choose(len(ways), 'way')]
    given = [c for c in cols if env.choose(2, 'with_' + c.name)] if env.choose(
        2, 'subset') else cols
    env.assume(bool(given))
    names = {c.name for c in given}
    ready = sorted(k for k, d in deps.items() if set(d.split()) <= names)
    env.assume(bool(ready))
    parts = [rows] if n == 1 or not env.choose(2, 'split') else [
        [x] for x in rows]
    drop = True
    kw = {}
    if way is finalized:
      some = env.choose(2, 'some') and len(ready) > 1
      kw['outputs'] = ready = ready[1:] if some else ready
    elif way is in_graph:
      drop = bool(env.choose(2, 'drop'))
    got = []
    for p in parts:
      out = way(root, given, p, drop, **kw) if drop else in_graph_some(
          root, given, p, ready)
      if drop:
        env.check(sorted(out) == ready, f'{way.__name__}: available outputs',
                  Lazy(sorted(out), ready))
      out = {k: P.rows_of(out[k]) for k in ready if k in out}
      for k in ready:
        env.check(k in out and len(out[k]) == len(p), 'row count', Lazy(k, out))
      got += [{k: v[j] for k, v in out.items()} for j in range(len(p))]
    for g, w in zip(got, want):
      for k in ready:
        a, e = as_list(strip(g[k])), as_list(w[k] if k in w else w[k + '$ragged_values'])
        label = f'{way.__name__}: same as the pipeline'
        env.check(len(a) == len(e), label, Lazy(k, a, e))
        for x, y in zip(a, e):
          if core.isnan(x) or core.isnan(y):
            env.check(core.isnan(x) and core.isnan(y), label, Lazy(k, x, y))
          else:
            env.check(x == y if isinstance(x, core.Sym) or isinstance(
                y, core.Sym) or isinstance(x, bytes) else
                      x == y or abs(x - y) <= 1e-4 * max(1, abs(y)),
                      label, Lazy(k, x, y))


def in_graph_some(root, cols, rows, ready):
  """All outputs are returned; only those that can be computed are fetched."""
  g = P.GraphFn(lambda i: {
      k: v for k, v in dict(tft.TFTransformOutput(root).transform_raw_features(
          i, drop_unused_features=False)).items() if k in ready},
                {c.name: placeholder_spec(c) for c in cols})
  return g(**{c.name: value(c, rows) for c in cols})


for _n in PROGRAMS:
  if _n != 'vocabulary_ints':
    case(_n, True)
    case(_n, False)
# (TensorFlow cannot save a loaded table that was made from a dataset, so the
# vocabularies in records only appear as exported by TF1)
for _n, _v1 in (('mixed', True), ('vocabulary', True), ('vocabulary', False),
                ('vocabulary_gz', True), ('bucketize', False),
                ('tfidf', False), ('per_key_file', False)):
  case(_n, _v1, ways=(served,), budget=8, shards=1, suffix='.served')
# real TF2 tables cannot hold the markers of symbolic integers
case('vocabulary_ints', True, ways=(in_graph,))


def parse_program(i):
  return {'m': tft.scale_to_0_1(i['x']), 'n': tf.strings.to_number(i['k'])}


def parse_case(name, v1, ways, **kw):
  """A feature may be absent even where no made-up value of it would do."""
  cols = [COLS['x'], COLS['k']]

  @CHECK.case(name, bounds='a column of numbers as text is missing or not; '
              'exported as TF' + ('1: ' if v1 else '2: ') + ', '.join(
                  w.__name__ for w in ways), **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(parse_program, cols, v1=v1,
                                      two_data=True, publish=True))
    new = lambda j: {'x': [env.real(f'x{j}', -50, 50)],
                     'k': [(b'1', b'-2.5')[env.choose(2, f'k{j}')]]}
    flat = lambda r: {k: v[0] for k, v in r.items()}
    data, rows = [new('a'), new('b')], [new('c')]
    r = b.run([P.record_batch(cols, [flat(d) for d in data])], None,
              [P.record_batch(cols, [flat(d) for d in rows])])
    want = b.instances(r)
    root = b.published(r)
    way = ways[env.choose(len(ways), 'way')]
    whole = env.choose(2, 'with_k')
    given, ready = (cols, ['m', 'n']) if whole else (cols[:1], ['m'])
    label = f'{way.__name__}: ' + (
        'same as the pipeline' if whole else 'text to be parsed is missing')
    try:
      out = way(root, given, rows, True)
    except tf.errors.OpError as e:
      env.check(False, label, Lazy(str(e)[:200]))
      return
    env.check(sorted(out) == ready, label, Lazy(sorted(out)))
    for k in ready:
      env.eq(as_list(out[k])[0], spec.cell(want[0][k]), label)


parse_case('parse', True, V1_WAYS, budget=8)
parse_case('parse_v2', False, (by_layer, eagerly, in_function), budget=8)
