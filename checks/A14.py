"""Analyses see fully resolved inputs; the reported columns are sufficient."""
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import analyzers
from tfx_bsl.tfxio.tensor_adapter import TensorAdapter

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, eqb, total

CHECK = Check(
    'A14',
    bounds=['2 analysed rows (3 in the thorough tier) and 2 transformed rows; '
            '14 programs of up to four levels of nested analyses; every pair of '
            'datasets that agree on the reported columns'],
    excluded=['float rounding', 'string hashing'])

ALL = {c.name: c for c in (
    P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f'), P.Col('z', 'dense', 'f'),
    P.Col('v', 'varlen', 'f'), P.Col('w', 'varlen', 'f'), P.Col('r', 'ragged', 'f'),
    P.Col('k', 'dense', 's'), P.Col('l', 'dense', 's'),
    P.Col('n', 'dense', 'i'))}


def symbolic(env, cols, n, tag, like=None, keep=()):
  """n rows of unconstrained values; columns in keep are those of `like`."""
  rows = [{} for _ in range(n)]
  for c in cols:
    if like is not None and c.name in keep:
      for r, o in zip(rows, like):
        r[c.name] = o[c.name]
      continue
    if c.kind != 'dense':
      for j, r in enumerate(rows):
        # the same number of values in both columns of a pair
        m = len(r['v']) if c.name == 'w' and 'v' in r else env.choose(
            2, f'{c.name}{tag}{j}_values') + (1 if like is None else 0)
        r[c.name] = env.reals(f'{c.name}{tag}{j}_', m, -50, 50)
      continue
    vals = {'f': lambda m: env.reals(m, n, -50, 50),
            'i': lambda m: env.ints(m, n, -20, 20),
            's': lambda m: env.toks(m, n)}[c.dt](c.name + tag)
    for r, x in zip(rows, vals):
      r[c.name] = x
  return rows


# -- programs and what they mean ------------------------------------------------


def low(xs):
  return spec.least(xs)


def chain(i):
  a = i['x'] - tft.min(i['x'])
  b = a + tft.max(a)
  c = b - tft.mean(b)
  return {'o': c, 'top': bc(tft.max(c + i['y']), i['x']), 'z': i['z'] + 1.0}


def chain_want(rows, t):
  xs = [r['x'] for r in rows]
  a = [x - low(xs) for x in xs]
  top = spec.greatest(a)
  b = [p + top for p in a]
  m = spec.mean(b)
  hi = spec.greatest([p - m + r['y'] for p, r in zip(b, rows)])
  return [{'o': r['x'] - low(xs) + top - m, 'top': hi, 'z': r['z'] + 1}
          for r in t]


def diamond(i):
  lo, hi = tft.min(i['x']), tft.max(i['y'])
  s = i['x'] + hi - lo
  return {'o': bc(tft.sum(s) + tft.min(i['y'] * 2.0 + lo), i['x']),
          'd': i['n'] + 1}


def diamond_want(rows, t):
  lo = low([r['x'] for r in rows])
  hi = spec.greatest([r['y'] for r in rows])
  o = total([r['x'] + hi - lo for r in rows]) + low(
      [r['y'] * 2 + lo for r in rows])
  return [{'o': o, 'd': r['n'] + 1} for r in t]


def ids(ks):
  """Vocabulary of tokens: by decreasing count, then decreasing token."""
  out = []
  for k, g in spec.group(ks, ks):
    i = 0
    while i < len(out) and bool(core.bor(
        out[i][1] > len(g), core.band(out[i][1] == len(g), out[i][0] > k))):
      i += 1
    out.insert(i, (k, len(g)))
  return [k for k, _ in out]


def find(vocab, k):
  for i, e in enumerate(vocab):
    if eqb(e, k):
      return i
  return -1


def lookup(i):
  a = tft.compute_and_apply_vocabulary(i['k'])
  m = tft.max(a)
  f = tf.cast(a, tf.float32) + i['x']
  return {'m': bc(m, i['x']), 'o': f - tft.mean(f), 'l': tf.identity(i['l'])}


def lookup_want(rows, t):
  v = ids([r['k'] for r in rows])
  f = [find(v, r['k']) + r['x'] for r in rows]
  return [{'m': len(v) - 1, 'o': find(v, r['k']) + r['x'] - spec.mean(f),
           'l': r['l']} for r in t]


def second_table(i):
  a = tft.compute_and_apply_vocabulary(i['k'], num_oov_buckets=0)
  pair = tf.where(tf.equal(a, 0), i['l'], i['k'])
  return {'o': tft.compute_and_apply_vocabulary(pair), 'n': i['n'] * 2}


def second_table_want(rows, t):
  v = ids([r['k'] for r in rows])
  pair = lambda r: r['l'] if find(v, r['k']) == 0 else r['k']
  v2 = ids([pair(r) for r in rows])
  return [{'o': find(v2, pair(r)), 'n': r['n'] * 2} for r in t]


def buckets(i):
  b = tft.bucketize(i['x'], 2)
  s = tf.where(tf.equal(b, 1), i['y'], tf.zeros_like(i['y']))
  return {'o': bc(tft.sum(s), i['x']), 'b': b, 'z': i['z'] * i['z']}


def buckets_want(rows, t):
  xs = [r['x'] for r in rows]
  edge = spec.greatest(xs)      # the upper one of two values
  s = total([core.ite(r['x'] >= edge, r['y'], 0) for r in rows])
  return [{'o': s, 'b': core.ite(r['x'] >= edge, 1, 0), 'z': r['z'] * r['z']}
          for r in t]


def per_key(i):
  d = i['x'] - tft.scale_by_min_max_per_key(i['x'], i['k'], 0.0, 1.0) * 0.0
  d = d - tft.min(i['y'])
  k, lo, hi = P.private(analyzers, '_min_and_max_per_key')(d, i['k'])
  hit = tf.equal(i['k'][:, tf.newaxis], k[tf.newaxis, :])
  own = tf.reduce_sum(tf.where(hit, tf.zeros_like(d)[:, tf.newaxis] + hi,
                               tf.zeros([], d.dtype)), 1)
  return {'o': own, 'm': bc(tft.max(own), i['x'])}


def per_key_want(rows, t):
  lo = low([r['y'] for r in rows])
  g = [(k, spec.greatest(v)) for k, v in spec.group(
      [r['k'] for r in rows], [r['x'] - lo for r in rows])]

  def own(k):
    for e, h in g:
      if eqb(e, k):
        return h
    return 0
  m = spec.greatest([own(r['k']) for r in rows])
  return [{'o': own(r['k']), 'm': m} for r in t]


def branches(i):
  lo = tft.min(i['x'])
  s = tf.cond(lo > 0.0, lambda: i['y'] + lo, lambda: i['y'] - i['z'])
  return {'o': bc(tft.sum(s), i['x']), 'n': i['n']}


def branches_want(rows, t):
  lo = low([r['x'] for r in rows])
  o = total([core.ite(lo > 0, r['y'] + lo, r['y'] - r['z']) for r in rows])
  return [{'o': o, 'n': r['n']} for r in t]


def functions(i):
  @tf.function
  def shift(p, q):
    return p - tf.reduce_min(q) * 0.0 + q

  lo = tft.min(i['x'])
  s = shift(i['y'], tf.zeros_like(i['y']) + lo)
  t = tf.map_fn(lambda e: e[0] + e[1], (s, i['z']), fn_output_signature=tf.float32)
  return {'o': bc(tft.max(t), i['x']), 's': s - tft.mean(s)}


def functions_want(rows, t):
  lo = low([r['x'] for r in rows])
  s = [r['y'] + lo for r in rows]
  o = spec.greatest([p + r['z'] for p, r in zip(s, rows)])
  return [{'o': o, 's': r['y'] + lo - spec.mean(s)} for r in t]


def composite(i):
  # positions of one column, values of another
  m = tf.SparseTensor(i['v'].indices, i['w'].values - tft.min(i['x']),
                      i['v'].dense_shape)
  return {'o': bc(tft.sum(m), i['x']), 'm': m, 'y': i['y']}


def composite_want(rows, t):
  lo = low([r['x'] for r in rows])
  o = total([e - lo for r in rows for e in r['w']])
  return [{'o': o, 'm': [e - lo for e in r['w']], 'y': r['y']} for r in t]


def ragged(i):
  lo = tft.min(i['y'])
  r = i['r'].with_values(i['r'].values - lo)
  n = tf.cast(i['r'].row_lengths(), tf.float32)
  return {'o': bc(tft.max(r) + tft.sum(n + tft.sum(i['x'])), i['x']), 'n': i['n']}


def ragged_want(rows, t):
  lo = low([r['y'] for r in rows])
  s = total([r['x'] for r in rows])
  o = spec.greatest([e - lo for r in rows for e in r['r']]) + total(
      [len(r['r']) + s for r in rows])
  return [{'o': o, 'n': r['n']} for r in t]


def guarded(i):
  lo = tft.min(i['x'])
  with tf.control_dependencies([tf.debugging.assert_greater_equal(
      tf.zeros_like(i['z']) + 100.0, lo)]):
    a = i['y'] - lo
  return {'o': bc(tft.sum(a), i['x']), 'k': i['k']}


def guarded_want(rows, t):
  lo = low([r['x'] for r in rows])
  o = total([r['y'] - lo for r in rows])
  return [{'o': o, 'k': r['k']} for r in t]


def counts(i):
  n = tft.size(i['x'])
  s = i['x'] * tf.cast(n, tf.float32)
  h = tf.strings.as_string(i['n'])
  return {'o': bc(tft.sum(s), i['x']), 'q': bc(tft.max(
      tft.compute_and_apply_vocabulary(h) + tf.cast(i['n'], tf.int64)), i['x'])}


def counts_want(rows, t):
  o = total([r['x'] for r in rows]) * len(rows)
  hs = [P.join([r['n']]) for r in rows]
  v = ids(hs)
  q = spec.greatest([find(v, h) + r['n'] for h, r in zip(hs, rows)])
  return [{'o': o, 'q': q} for r in t]


def unused(i):
  tft.vocabulary(i['l'], vocab_filename='unused')
  m = tft.mean(i['y'])
  return {'o': i['x'] - tft.max(i['x'] + i['n_']), 'c': bc(m, i['x'])} if (
      'n_' in i) else {'o': i['x'] - tft.max(i['x']), 'c': bc(m, i['x']) * 0.0}


def unused_want(rows, t):
  m = spec.greatest([r['x'] for r in rows])
  return [{'o': r['x'] - m, 'c': 0} for r in t]


# name -> (program, meaning, columns)
PROGRAMS = {
    'chain': (chain, chain_want, 'x y z'),
    'diamond': (diamond, diamond_want, 'x y n z'),
    'lookup': (lookup, lookup_want, 'k l x y'),
    'second_table': (second_table, second_table_want, 'k l n'),
    'buckets': (buckets, buckets_want, 'x y z'),
    'per_key': (per_key, per_key_want, 'x y k l'),
    'branches': (branches, branches_want, 'x y z n'),
    'functions': (functions, functions_want, 'x y z n'),
    'composite': (composite, composite_want, 'x y v w'),
    'ragged': (ragged, ragged_want, 'x y r n'),
    'guarded': (guarded, guarded_want, 'x y z k'),
    'counts': (counts, counts_want, 'x n z'),
    'unused': (unused, unused_want, 'x y l'),
}


def reported(fn, cols, v1):
  with core.paused():
    specs = TensorAdapter(P.adapter_config(cols)).OriginalTypeSpecs()
    return (tuple(tft.get_analyze_input_columns(fn, specs, force_tf_compat_v1=v1)),
            tuple(tft.get_transform_input_columns(fn, specs,
                                                  force_tf_compat_v1=v1)))


def same_rows(env, got, want, label):
  env.check(len(got) == len(want), label + ': rows')
  for g, w in zip(got, want):
    env.check(sorted(g) == sorted(w), label + ': columns')
    for n in w:
      a, e = as_list(g[n]), as_list(w[n])
      env.check(len(a) == len(e), label + ': number of values', Lazy(n, a, e))
      for p, q in zip(a, e):
        if isinstance(q, core.Sym) or isinstance(p, core.Sym):
          env.check(core.same(p, q) if q is not p else True, label,
                    Lazy(n, p, q)) if core.active() else env.eq(p, q, label)
        else:
          env.eq(p, q, label)


def case(name, v1=True, n=2, **kw):
  fn, want, used = PROGRAMS[name.split('.')[0]]
  cols = [ALL[c] for c in used.split()]

  @CHECK.case(name, bounds=f'{n} rows; columns {used}', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1, two_data=True))
    an, tr = env.once('cols', lambda: reported(fn, cols, v1))
    rows = symbolic(env, cols, n, '')
    ask = symbolic(env, cols, 1, 'T')
    sched = env.sched()
    test = [P.record_batch(cols, ask + rows[:1])]
    got = b.instances(b.run([P.record_batch(cols, [r]) for r in rows], sched,
                            tbatches=test))
    # every analysis was given final values of the ones it depends on
    same_rows(env, got, want(rows, ask + rows[:1]), 'nested result')
    mode = env.choose(2, 'changed')
    if mode == 0:
      # a dataset which differs in columns said not to matter for analysis
      other = symbolic(env, cols, n, 'A', rows, an)
      again = b.instances(b.run([P.record_batch(cols, [r]) for r in other],
                                tbatches=test))
      label = 'analysis depends on a column not reported'
      same_rows(env, again, got, label)
    else:
      # transformed rows which differ in columns said not to matter
      other = symbolic(env, cols, 2, 'B', ask + rows[:1], tr)
      again = b.instances(b.run([P.record_batch(cols, rows)],
                                tbatches=[P.record_batch(cols, other)]))
      same_rows(env, again, got, 'output depends on a column not reported')


def retraced(name, named, kinds):
  """The analyses are met in another order at some of the tracings.

  Each of them is of another column, so that the results cannot be confused
  silently: the function is refused, or each column gets its own result.
  """
  cols = [ALL[c] for c in 'xyz']

  @CHECK.case(name, bounds='2 rows; the order changes at any one of the '
              'five tracings, or from it on', shards=2, budget=15)
  def run(env):
    at = env.choose(5, 'tracing')
    on = env.choose(2, 'from then on')
    order = ([1, 0, 2], [2, 0, 1])[env.choose(2, 'order')]
    xs, ys, zs = (env.reals(c, 2, -50, 50) for c in 'xyz')
    rows = [dict(x=x, y=y, z=z) for x, y, z in zip(xs, ys, zs)]
    # (not in a closure: the pipeline pickles those)
    P.DATA['traced'] = 0

    def fn(i):
      n = P.DATA['traced']
      P.DATA['traced'] = n + 1
      swap = n == at or (on and n > at)
      todo, out = list(zip('xyz', kinds)), {}
      for j in order if swap else range(3):
        c, kind = todo[j]
        one = {'mean': tft.mean, 'max': tft.max, 'sum': tft.sum}[kind]
        out[c] = i[c] - one(i[c], **(dict(name='own_' + c) if named else {}))
      return {c: out[c] for c in 'xyz'}

    b = None
    try:
      try:
        b = P.Built(fn, cols, v1=False)
        got = b.instances(b.run([P.record_batch(cols, rows)]))
      except RuntimeError as e:
        if 'non-deterministic' not in str(e):
          raise
        env.check(not named, 'analyses with names of their own are refused')
        return
      stat = {'mean': spec.mean, 'max': spec.greatest, 'sum': total}
      at_end = [stat[k]([r[c] for r in rows]) for c, k in zip('xyz', kinds)]
      want = [{c: r[c] - s for c, s in zip('xyz', at_end)} for r in rows]
      same_rows(env, got, want, 'result of another analysis')
    finally:
      if b is not None:
        b.close()


retraced('retraced.v2', False, ('mean', 'mean', 'mean'))
retraced('retraced_kinds.v2', False, ('max', 'mean', 'max'))
retraced('retraced_named.v2', True, ('mean', 'mean', 'sum'))

for _n in PROGRAMS:
  case(_n, shards=2, budget=12)
for _n in ('chain', 'lookup', 'branches', 'functions', 'composite', 'guarded'):
  case(_n + '.v2', v1=False, shards=1, budget=10)
for _n in PROGRAMS:
  case(_n + '.deep', n=3, shards=3, budget=60, quick=False)
