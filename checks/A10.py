"""Different computations never share an analysis cache key."""
import pickle

import apache_beam as beam
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import analyzers
from tensorflow_transform.beam import analyzer_cache, analysis_graph_builder
from tfx_bsl.tfxio.tensor_adapter import TensorAdapter

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, vec

CHECK = Check(
    'A10',
    bounds=['about 150 one-analysis programs (operation, operands and their '
            'order, constants, parameters, column, layout, TF1 and TF2); every '
            'pair whose cache keys meet is run on two symbolic rows'],
    excluded=['hash collisions of SHA-1 itself',
              'vocabularies whose cut-offs apply after the cached stage are '
              'compared by their results only'])

COLS = [P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f'),
        P.Col('n', 'dense', 'i'), P.Col('k', 'dense', 's'),
        P.Col('j', 'dense', 's'), P.Col('z', 'dense', 'f', shape=[2]),
        P.Col('s', 'varlen', 'f')]


# -- programs: name -> function; one analysis each ------------------------------

MAPS = {
    'x': lambda i: i['x'],
    'y': lambda i: i['y'],
    'x+y': lambda i: i['x'] + i['y'],
    'x-y': lambda i: i['x'] - i['y'],
    'y-x': lambda i: i['y'] - i['x'],
    'x*y': lambda i: i['x'] * i['y'],
    'min': lambda i: tf.minimum(i['x'], i['y']),
    'max': lambda i: tf.maximum(i['x'], i['y']),
    'x*2': lambda i: i['x'] * 2,
    'x*3': lambda i: i['x'] * 3,
    'x+2': lambda i: i['x'] + 2,
    'x-2': lambda i: i['x'] - 2,
    '2-x': lambda i: 2 - i['x'],
    '-x': lambda i: -i['x'],
    'abs': lambda i: tf.abs(i['x']),
    'sq': lambda i: tf.square(i['x']),
    'where': lambda i: tf.where(i['x'] > 0, i['x'], i['y']),
    'where2': lambda i: tf.where(i['x'] > 0, i['y'], i['x']),
    'where3': lambda i: tf.where(i['x'] < 0, i['x'], i['y']),
    'where4': lambda i: tf.where(i['x'] > 1, i['x'], i['y']),
    'n': lambda i: tf.cast(i['n'], tf.float32),
    'z0': lambda i: i['z'][:, 0],
    'z1': lambda i: i['z'][:, 1],
    'u0': lambda i: tf.unstack(i['z'], axis=1)[0],
    'u1': lambda i: tf.unstack(i['z'], axis=1)[1],
    'sp0': lambda i: tf.squeeze(tf.split(i['z'], 2, axis=1)[0], 1),
    'sp1': lambda i: tf.squeeze(tf.split(i['z'], 2, axis=1)[1], 1),
    'rmin': lambda i: tf.reduce_min(i['z'], axis=1),
    'rmax': lambda i: tf.reduce_max(i['z'], axis=1),
    'g01': lambda i: tf.gather(i['z'], 0, axis=1),
    'g10': lambda i: tf.gather(i['z'], 1, axis=1),
    'dense0': lambda i: tf.sparse.to_dense(tf.sparse.reset_shape(
        tf.SparseTensor(i['s'].indices, i['s'].values, i['s'].dense_shape)),
                                           default_value=0.)[:, 0] + 0 * i['x'],
    'f2': lambda i: tf.function(lambda t: t * 2)(i['x']),
    'f3': lambda i: tf.function(lambda t: t * 3)(i['x']),
    'f+': lambda i: tf.function(lambda t: t + 2)(i['x']),
    'f2y': lambda i: tf.function(lambda t: t * 2)(i['y']),
    'fxy': lambda i: tf.function(lambda a, b: a - b)(i['x'], i['y']),
    'fyx': lambda i: tf.function(lambda a, b: a - b)(i['y'], i['x']),
    'fcap': lambda i: tf.function(lambda a: a - i['y'])(i['x']),
    'fcapy': lambda i: tf.function(lambda a: a - i['x'])(i['y']),
    'fo0': lambda i: tf.function(lambda a: (a + 1, a + 2))(i['x'])[0],
    'fo1': lambda i: tf.function(lambda a: (a + 1, a + 2))(i['x'])[1],
    'c1': lambda i: tf.cond(tf.size(i['x']) > 0, lambda: i['x'], lambda: i['y']),
    'c2': lambda i: tf.cond(tf.size(i['x']) > 0, lambda: i['y'], lambda: i['x']),
    'c3': lambda i: tf.cond(tf.size(i['x']) > 9, lambda: i['x'], lambda: i['y']),
}
SMAPS = {
    'k': lambda i: i['k'],
    'j': lambda i: i['j'],
    'kj': lambda i: tf.strings.join([i['k'], i['j']]),
    'jk': lambda i: tf.strings.join([i['j'], i['k']]),
    'k_j': lambda i: tf.strings.join([i['k'], i['j']], separator='_'),
    'k=j': lambda i: tf.where(tf.equal(i['k'], i['j']), 'a', 'b'),
    'k!=j': lambda i: tf.where(tf.not_equal(i['k'], i['j']), 'a', 'b'),
    'a:b': lambda i: tf.where(tf.equal(i['k'], i['j']), 'b', 'a'),
    'xs': lambda i: tf.where(i['x'] > 0, i['k'], i['j']),
    'ys': lambda i: tf.where(i['y'] > 0, i['k'], i['j']),
}

X, Y, K, J = (lambda i: i['x']), (lambda i: i['y']), (lambda i: i['k']), (
    lambda i: i['j'])


def two(f):
  def g(i):
    a, b = f(i)
    return {'a': bc(a, i['x']), 'b': bc(b, i['x'])}
  return g


def one(f, shape=()):
  return lambda i: {'a': bc(f(i), i['x'], list(shape))}


def keyed(f):
  def g(i):
    r = f(i)
    return {f'c{n}': vec(t, i['x']) for n, t in enumerate(r)}
  return g


def pair(i, a='x', b='y'):
  return tf.stack([i[a], i[b]], 1)


def voc(f, **kw):
  def g(i):
    kws = {k: (v(i) if callable(v) else v) for k, v in kw.items()}
    return {'a': tft.compute_and_apply_vocabulary(f(i), **kws)}
  return g


def programs():
  p = {}
  for n, f in MAPS.items():
    p['map.' + n] = one(lambda i, f=f: tft.max(f(i)))
  for n, f in SMAPS.items():
    p['smap.' + n] = voc(f, num_oov_buckets=1)
  n_ = lambda i: i['n']
  z_ = lambda i: i['z']
  s_ = lambda i: i['s']
  for on, op in (('min', tft.min), ('max', tft.max), ('sum', tft.sum),
                 ('mean', tft.mean), ('var', tft.var), ('size', tft.size)):
    for cn, c in (('x', X), ('y', Y), ('n', n_), ('z', z_), ('s', s_)):
      p[f'num.{on}.{cn}'] = one(lambda i, op=op, c=c: op(c(i)))
    for cn, c in (('z', z_), ('zr', lambda i: tf.reverse(i['z'], [1]))):
      p[f'num.{on}.{cn}.elementwise'] = one(
          lambda i, op=op, c=c: op(c(i), reduce_instance_dims=False), [2])
  p['num.mean.n.64'] = one(lambda i: tf.cast(
      tft.mean(i['n'], output_dtype=tf.float64), tf.float32))
  # operations given the same name
  for on, op in (('min', tft.min), ('max', tft.max), ('sum', tft.sum),
                 ('mean', tft.mean), ('var', tft.var), ('size', tft.size)):
    p[f'name.{on}'] = one(lambda i, op=op: op(i['x'], name='a'))
    p[f'name.{on}.elementwise'] = one(lambda i, op=op: op(
        i['z'], reduce_instance_dims=False, name='a'), [2])
  p['name.cov'] = one(lambda i: tft.covariance(
      i['z'], tf.float32, name='a'), [2, 2])
  p['name.pca'] = one(lambda i: tf.abs(tft.pca(
      i['z'], 2, tf.float32, name='a')), [2, 2])
  p['name.q2'] = lambda i: {'a': bc(tft.quantiles(
      i['z'], 2, .1, reduce_instance_dims=False, name='a'), i['x'], [2, 1])}
  p['name.qx'] = lambda i: {'a': vec(tft.quantiles(
      i['x'], 2, .1, name='a'), i['x'])}
  p['name.scale'] = lambda i: {'a': tft.scale_by_min_max(i['x'], name='a')}
  p['name.z'] = lambda i: {'a': tft.scale_to_z_score(i['x'], name='a')}
  p['name.z.el'] = lambda i: {'a': tft.scale_to_z_score(
      i['z'], elementwise=True, name='a')}
  p['name.s.el'] = lambda i: {'a': tft.scale_by_min_max(
      i['z'], elementwise=True, name='a')}
  for on, f in (('z', tft.scale_to_z_score_per_key),
                ('s', tft.scale_by_min_max_per_key)):
    p[f'name.{on}.key'] = lambda i, f=f: {'a': f(
        i['x'], key=i['k'], elementwise=False, name='a')}
  p['name.count'] = keyed(lambda i: tft.count_per_key(i['k'], name='a'))
  p['name.hist'] = lambda i: {'c': vec(tft.histogram(
      i['k'], categorical=True, name='a')[0], i['x'])}
  p['name.bucket'] = lambda i: {'a': tft.bucketize(i['x'], 2, name='a')}
  for cn, kw in (('plain', {}), ('w', dict(weights=lambda i: tf.abs(i['x']))),
                 ('lab', dict(labels=lambda i: tf.cast(
                     i['n'] > 0, tf.int64)))):
    p[f'name.v.{cn}'] = lambda i, kw=kw: voc_fn(i, K, dict(kw, name='a'))
  p['num.cov'] = one(lambda i: tft.covariance(pair(i), tf.float32), [2, 2])
  p['num.cov.yx'] = one(
      lambda i: tft.covariance(pair(i, 'y', 'x'), tf.float32), [2, 2])
  p['num.cov.64'] = one(
      lambda i: tf.cast(tft.covariance(pair(i), tf.float64), tf.float32), [2, 2])
  p['mv.x'] = two(lambda i: P.private(analyzers, '_mean_and_var')(i['x']))
  p['mv.y'] = two(lambda i: P.private(analyzers, '_mean_and_var')(i['y']))
  # per key
  min_max = lambda *a, **k: P.private(analyzers, '_min_and_max_per_key')(*a, **k)
  mean_var = lambda *a: P.private(analyzers, '_mean_and_var_per_key')(*a)
  for on, op in (('mm', lambda a, b: min_max(a, b)),
                 ('mv', lambda a, b: mean_var(a, b)),
                 ('cm', lambda a, b: (tft.count_per_key(b))),
                 ('mr', lambda a, b: min_max(
                     tf.reshape(a, [-1, 1]), b, reduce_instance_dims=True))):
    for an, a in (('x', X), ('y', Y)):
      for bn, b in (('k', K), ('j', J), ('kj', SMAPS['kj'])):
        p[f'key.{on}.{an}.{bn}'] = keyed(
            lambda i, op=op, a=a, b=b: op(a(i), b(i)))
  # quantiles and histograms
  for nb in (2, 3):
    for eps in (.1, .01):
      for w in (None, 'x', 'y'):
        for c in ('x', 'y'):
          if c == w:
            continue
          p[f'q.{c}.{nb}.{eps}.{w}'] = lambda i, c=c, nb=nb, eps=eps, w=w: {
              'a': tft.apply_buckets(i[c], tft.quantiles(
                  i[c], nb, eps, weights=None if w is None else
                  tf.abs(i[w]) + 1))}
  for c in ('x', 'y'):
    p[f'q.el.{c}'] = lambda i, c=c: {'a': bc(tft.quantiles(
        tf.stack([i[c], i['n'] * 1.] if False else [i[c], i['x']], 1), 2, .1,
        reduce_instance_dims=False), i['x'], [2, 1])}
  for m in ((), (0.,), (1.,), (0., 1.)):
    if m:
      p[f'h.{m}'] = lambda i, m=m: {'c': vec(tft.histogram(
          i['x'], boundaries=list(m))[0], i['x'])}
  p['h.cat.k'] = lambda i: {'c': vec(tft.histogram(
      i['k'], categorical=True)[0], i['x'])}
  p['h.cat.j'] = lambda i: {'c': vec(tft.histogram(
      i['j'], categorical=True)[0], i['x'])}
  # vocabularies
  lab = lambda i: tf.cast(i['n'] > 0, tf.int64)
  for n, kw in {
      'plain': {}, 'top1': dict(top_k=1), 'thr2': dict(frequency_threshold=2),
      'w.x': dict(weights=lambda i: tf.abs(i['x'])),
      'w.y': dict(weights=lambda i: tf.abs(i['y'])),
      'lab': dict(labels=lab),
      'lab2': dict(labels=lambda i: 1 - lab(i)),
      'lab.adj': dict(labels=lab, use_adjusted_mutual_info=True),
      'lab.diff': dict(labels=lab, min_diff_from_avg=.1),
      'reserved': dict(reserved_tokens=['a']),
  }.items():
    for cn, c in (('k', K), ('j', J)):
      p[f'v.{n}.{cn}'] = (lambda i, c=c, kw=kw: voc_fn(i, c, kw))
  for t in (1, 2):
    for cn, c in (('k', K), ('j', J)):
      p[f'v.approx{t}.{cn}'] = lambda i, c=c, t=t: {'a': tft.apply_vocabulary(
          c(i), tft.experimental.approximate_vocabulary(
              c(i), t, vocab_filename='v'))}
  return p


class Each(beam.PTransform):
  """One list of a function's value for every batch."""

  def __init__(self, fn):
    super().__init__()
    self.fn = fn

  def expand(self, pcoll):
    return pcoll | beam.Map(lambda b: [self.fn(list(b[0]))])


class Join(beam.PTransform):

  def expand(self, pcoll):
    return (pcoll | beam.combiners.ToList()
            | beam.Map(lambda accs: [spec.total([a[0] for a in accs])]))


def custom(fn, col):
  """A cacheable custom analyzer, of new objects in every construction."""
  def g(i):
    steps = tft.experimental.CacheablePTransformAnalyzer(
        Each(fn), Join(), beam.Map(lambda a: a[0]),
        tft.experimental.SimpleJsonPTransformAnalyzerCacheCoder())
    r, = tft.experimental.ptransform_analyzer(
        [i[col]], steps, [tf.float32], [[]], name='a')
    return {'a': bc(r, i['x'])}
  return g


def sketches(entries):
  """Parameters of the quantile sketches in cache entries."""
  out = []
  for e in entries:
    try:
      m = pickle.loads(e)
    except Exception:  # pylint: disable=broad-except
      continue
    out.append(getattr(m, 'args', None) or e)
  return out


def voc_fn(i, c, kw):
  kws = {k: (v(i) if callable(v) else v) for k, v in kw.items()}
  f = tft.vocabulary(c(i), store_frequency=False, vocab_filename='v', **kws)
  return {'a': tft.apply_vocabulary(c(i), f, num_oov_buckets=0)}


PROGRAMS = programs()
for _c in 'xy':
  for _n, _f in (('sum', spec.total), ('first', lambda b: b[0]),
                 ('squares', lambda b: spec.total([x * x for x in b]))):
    PROGRAMS[f'custom.{_n}.{_c}'] = custom(_f, _c)


def keys_of(fn, v1):
  with core.paused():
    return frozenset(analysis_graph_builder.get_analysis_cache_entry_keys(
        fn, TensorAdapter(P.adapter_config(COLS)).OriginalTypeSpecs(),
        [analyzer_cache.DatasetKey('a')], force_tf_compat_v1=v1))


def meeting(env, v1, want):
  """Pairs of programs with a cache key in common, and the keys of each."""
  names = [n for n in PROGRAMS if want(n)]
  keys, bad = {}, []
  for n in names:
    try:
      keys[n] = keys_of(PROGRAMS[n], v1)
    except Exception as e:  # pylint: disable=broad-except
      bad.append((n, repr(e)[:200]))
  pairs = [(a, b) for a in names for b in names
           if a != b and keys.get(a, frozenset()) & keys.get(b, frozenset())]
  return names, keys, pairs, bad


def rows(env):
  def row(n):
    return {'x': env.real(f'x{n}'), 'y': env.real(f'y{n}'),
            'n': env.int(f'n{n}', -3, 3), 'k': env.tok(f'k{n}', 6),
            'j': env.tok(f'j{n}', 6),
            'z': [env.real(f'z{n}.0'), env.real(f'z{n}.1')],
            's': [env.real(f's{n}')]}
  return [row(0), row(1)]


def case(name, want, v1, shards, budget):

  @CHECK.case(name + ('.v1' if v1 else '.v2'), shards=shards, budget=budget,
              bounds='every pair of programs whose keys meet, 2 rows')
  def go(env):
    names, keys, pairs, bad = env.once(
        'pairs', lambda: meeting(env, v1, want))
    env.assume(not bad or env.shard >= 0)
    if bad:
      raise core.Unsupported(f'tracing {bad[0]}')
    mine = pairs[env.shard::shards]
    # every program caches something
    missing = [n for n in names if not keys[n]]
    env.check(not missing, 'every program has cache keys', Lazy(missing))
    if not mine:
      return
    a, b = mine[env.choose(len(mine), 'pair')]
    data = rows(env)
    batch = [P.record_batch(COLS, data)]
    one_ = env.once(('one', a), lambda: P.CachedBuilt(
        PROGRAMS[a], COLS, ['a'], ['a'], {}, v1=v1))
    entries, meta = one_.cache_of(one_.run({'a': batch}, batch))['a']
    both = sorted(set(entries) & keys[b])
    env.assume(bool(both))
    fresh = env.once(('fresh', b), lambda: P.CachedBuilt(
        PROGRAMS[b], COLS, ['a'], ['a'], {}, v1=v1))
    frun = fresh.run({'a': batch}, batch)
    want_ = fresh.instances(frun)
    own, _ = fresh.cache_of(frun)['a']
    if a.startswith('q.'):
      # the accuracy of a sketch shows only on more data than fits here
      env.check(all(sketches(entries[e]) == sketches(own[e]) for e in both),
                f'quantile sketches of {a} and {b} under one cache key')
    warm = env.once(('warm', a, b), lambda: P.CachedBuilt(
        PROGRAMS[b], COLS, ['a'], ['a'], {'a': both}, v1=v1))
    got = warm.instances(warm.run({'a': batch}, batch, {'a': (entries, meta)}))
    env.check(len(got) == len(want_), 'rows')
    for g, w in zip(got, want_):
      for o in w:
        gl, wl = as_list(g[o]), as_list(w[o])
        env.check(len(gl) == len(wl), f'result size {a} cache used for {b}')
        for u, v in zip(gl, wl):
          env.eq(u, v, f'result of {b} with the cache of {a}')


for _v1 in (True, False):
  case('maps', lambda n: n.startswith(('map.', 'smap.')), _v1, 2, 20)
  case('numeric', lambda n: n.startswith(('num.', 'mv.', 'name.')), _v1, 2, 20)
  case('keyed', lambda n: n.startswith('key.'), _v1, 2, 20)
  case('ordered', lambda n: n.startswith(('q.', 'h.')), _v1, 2, 20)
  case('vocabulary', lambda n: n.startswith('v.'), _v1, 2, 20)
  case('custom', lambda n: n.startswith('custom.'), _v1, 1, 10)

for _n, _want in (('programs', lambda n: not n.startswith('custom.')),
                  ('custom', lambda n: n.startswith('custom.'))):
  for _v1 in (True, False):
    def rebuilt(env, want=_want, v1=_v1):
      names = [n for n in PROGRAMS if want(n)]
      n = names[env.choose(len(names), 'program')]
      env.check(keys_of(PROGRAMS[n], v1) == keys_of(PROGRAMS[n], v1),
                'rebuilding a program keeps its cache keys', Lazy(n))
    CHECK.case(f'{_n}.rebuilt' + ('' if _v1 else '.v2'), shards=2, budget=10,
               bounds='each program, built twice')(rebuilt)
