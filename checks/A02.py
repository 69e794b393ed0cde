"""Per-key statistics equal the per-group definition for every merge order."""
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import analyzers

from sx import pipeline as P, spec
from sx.checklib import Check
from sx.spec import as_list, bc, chunks, group, vec

CHECK = Check(
    'A02',
    bounds=['at most 4 rows, at most 2 values per row, at most 2 batches, '
            'symbolic keys drawn from 16 distinct strings, six distribution '
            'schedules, |x| <= 1000'],
    excluded=['float rounding', 'unsigned inputs'])


def outputs(x, key, size_key, scope='a', **kw):
  out = {}
  with tf.compat.v1.name_scope(scope + '1'):
    k, mean, var = P.private(analyzers, '_mean_and_var_per_key')(x, key, **kw)
  out.update(mk=vec(k, size_key), mean=vec(mean, size_key),
             var=vec(var, size_key))
  with tf.compat.v1.name_scope(scope + '2'):
    k, mn, mx = P.private(analyzers, '_min_and_max_per_key')(x, key, **kw)
  out.update(nk=vec(k, size_key), min=vec(mn, size_key), max=vec(mx, size_key))
  return out


def verify(env, out, keys, vals):
  g = group(keys, vals)
  for kn, n, f in (('mk', 'mean', spec.mean), ('mk', 'var', spec.var),
                   ('nk', 'min', spec.least), ('nk', 'max', spec.greatest)):
    spec.check_keyed(env, out[kn], as_list(out[n]),
                     [(k, f(v)) for k, v in g], n + ' per key')


def counts(env, out, keys):
  spec.check_keyed(env, out['ck'], as_list(out['count']),
                   [(k, len(v)) for k, v in group(keys, keys)],
                   'count per key')


DENSE = [P.Col('x', 'dense', 'f'), P.Col('k', 'dense', 's')]


def dense_fn(i):
  out = outputs(i['x'], i['k'], i['x'])
  k, c = tft.count_per_key(i['k'])
  out.update(ck=vec(k, i['x']), count=vec(c, i['x']))
  return out


def dense_case(name, n, v1=True, **kw):
  @CHECK.case(name, shards=6, bounds=f'dense column and key, {n} rows', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(dense_fn, DENSE, v1=v1))
    xs, ks = env.reals('x', n, -1000, 1000), env.toks('k', n)
    rows = [{'x': x, 'k': k} for x, k in zip(xs, ks)]
    out = b.instances(b.run(spec.batches(env, DENSE, rows), env.sched()))
    for o in (out[0], out[-1]):
      verify(env, o, ks, xs)
      counts(env, o, ks)


dense_case('dense', 3, budget=24)
dense_case('dense_v2', 3, v1=False, quick=False)
dense_case('dense4', 4, quick=False, budget=60)


def composite_case(kind):
  cols = [P.Col('x', kind, 'f'), P.Col('k', kind, 's')]

  def fn(i):
    out = outputs(i['x'], i['k'], i['x'])
    k, c = tft.count_per_key(i['k'])
    out.update(ck=vec(k, i['x']), count=vec(c, i['x']))
    return out

  @CHECK.case(kind, shards=6, budget=20,
              bounds=f'{kind} column and key, 3 rows of 0-2 values')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols))
    rows, keys, vals = [], [], []
    for j in range(3):
      n = env.choose(3, f'len{j}')
      xs, ks = env.reals(f'x{j}_', n, -1000, 1000), env.toks(f'k{j}_', n)
      rows.append({'x': xs, 'k': ks})
      vals += xs
      keys += ks
    env.assume(bool(vals) and len(vals) <= 4)
    out = b.instances(b.run(spec.batches(env, cols, rows), env.sched()))[0]
    verify(env, out, keys, vals)
    counts(env, out, keys)


composite_case('varlen')
composite_case('ragged')

ELEM = [P.Col('x', 'dense', 'f', (2,)), P.Col('k', 'dense', 's')]


@CHECK.case('elementwise', shards=6, budget=20,
            bounds='[2] column, dense key, elementwise and reduced, 3 rows')
def elementwise(env):
  def fn(i):
    out = {'e' + k: v for k, v in outputs(
        i['x'], i['k'], i['x'], 'b', reduce_instance_dims=False).items()}
    out.update(outputs(i['x'], i['k'], i['x']))
    return out
  b = env.once('p', lambda: P.Built(fn, ELEM))
  xs = [env.reals(f'x{j}_', 2, -1000, 1000) for j in range(3)]
  ks = env.toks('k', 3)
  rows = [{'x': x, 'k': k} for x, k in zip(xs, ks)]
  out = b.instances(b.run(spec.batches(env, ELEM, rows), env.sched()))[0]
  g = group(ks, xs)
  for kn, n, f in (('emk', 'emean', spec.mean), ('emk', 'evar', spec.var),
                   ('enk', 'emin', spec.least), ('enk', 'emax', spec.greatest)):
    def cmp(got, want, label):
      for d in range(2):
        env.eq(got[d], want[d], label)
    spec.check_keyed(env, out[kn], chunks(out[n], 2),
                     [(k, [f([v[d] for v in vs]) for d in range(2)])
                      for k, vs in g], 'elementwise ' + n + ' per key', cmp)
  verify(env, out, ks + ks, [x[0] for x in xs] + [x[1] for x in xs])


INT = [P.Col('x', 'dense', 'i'), P.Col('k', 'dense', 's'),
       P.Col('ik', 'dense', 'i')]


@CHECK.case('integers', shards=6,
            bounds='int64 column, string keys and int64 count keys, 3 rows')
def integers(env):
  def fn(i):
    out = outputs(i['x'], i['k'], i['x'])
    k, c = tft.count_per_key(i['ik'])
    out.update(ck=vec(k, i['x']), count=vec(c, i['x']))
    return out
  b = env.once('p', lambda: P.Built(fn, INT))
  xs, ks = env.ints('x', 3, -10**6, 10**6), env.toks('k', 3)
  ik = [env.choose(3, f'ik{j}') * 7 - 7 for j in range(3)]
  rows = [{'x': x, 'k': k, 'ik': i} for x, k, i in zip(xs, ks, ik)]
  out = b.instances(b.run(spec.batches(env, INT, rows), env.sched()))[0]
  verify(env, out, ks, xs)
  counts(env, out, ik)
