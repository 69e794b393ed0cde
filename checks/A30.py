"""Passthrough columns travel unchanged with their own rows."""
import numpy as np
import pyarrow as pa
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, markers, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, eqb

CHECK = Check(
    'A30',
    bounds=['1-4 rows in at most 2 batches, passthrough cells that are absent, '
            'empty or hold 1-2 values, 1-2 passthrough columns of strings, '
            'integers or numbers'])

X = P.Col('x', 'dense', 'f')
TYPES = {'s': pa.large_list(pa.large_binary()), 'i': pa.large_list(pa.int64()),
         'f': pa.large_list(pa.float32()), 'l': pa.list_(pa.binary())}
DT = {'s': object, 'i': np.int64, 'f': np.float32, 'l': object}


def fresh(env, t, name):
  if t in 'sl':
    return env.tok(name)
  return env.int(name, 0, 50) if t == 'i' else env.real(name, -50, 50)


def enc(t, cell):
  if cell is None:
    return None
  return [markers.encode_scalar(v, np.dtype(DT[t])) if core.active() else v
          for v in cell]


def case(name, keys, fn, n=3, cols=(X,), unary=False, quick=True, same=False,
         rows_out=None, shards=4, **kw):
  """keys: passthrough name -> type."""
  fields = [pa.field(k, TYPES[t]) for k, t in sorted(keys.items())]
  cols = list(cols)

  @CHECK.case(name, shards=shards, quick=quick, budget=12,
              bounds=f'up to {n} rows, passthrough {sorted(keys.items())}, '
              f'{"record batches" if kw.get("record_batches") else "instances"}')
  def run(env):
    b = env.once('p', lambda: P.Built(
        fn, cols, passthrough=set(keys), extra_fields=fields, **kw))
    m = 1 + env.choose(n, 'n')
    rows = []
    one = {k: fresh(env, t, f'{k}_all') for k, t in keys.items()}
    for j in range(m):
      r = {'x': [env.real(f'x{j}', -50, 50)]}
      for k, t in keys.items():
        if same:
          r[k] = [one[k]]
        else:
          c = env.choose(4, f'{k}len{j}')
          r[k] = None if c == 3 else [
              fresh(env, t, f'{k}{j}_{i}') for i in range(c)]
      rows.append(r)
    parts = env.split(rows)
    rbs = [P.record_batch(cols, part, extra=[
        (k, TYPES[keys[k]], [enc(keys[k], r[k]) for r in part])
        for k in sorted(keys)]) for part in parts]
    run = b.run(rbs, env.sched())
    got = []
    if kw.get('record_batches'):
      for rb, un in run.get(b.out):
        d = {nm: markers.decode(rb.column(k).to_pylist())
             for k, nm in enumerate(rb.schema.names)}
        for k in keys:
          if k in un:
            v = markers.decode(un[k].to_pylist())
            env.check(len(v) == 1, 'one value for the whole batch')
            d[k] = v * rb.num_rows
          else:
            env.check(rb.schema.field(k).type == TYPES[keys[k]],
                      'type of the column is unchanged')
        for i in range(rb.num_rows):
          got.append({c: d[c][i] for c in d})
    else:
      got = b.instances(run)
    want = list(rows)
    if unary:
      want = [rows_out(part) for part in parts]
    if unary:
      # one output row per batch: the common value of the batch is attached
      env.check(len(got) == len(parts), 'number of rows', Lazy(got))
      want = [part[0] for part in parts]
    env.check(len(got) == len(want), 'number of rows', Lazy(got))
    # batches may come out in any order: rows are recognised by their y
    left = list(range(len(got)))
    for w, part in zip(want, parts if unary else [[r] for r in rows]):
      y = spec.total([r['x'][0] for r in part]) if unary else w['x'][0] * 2
      hit = None
      for i in left:
        if bool(eqb(as_list(got[i]['y'])[0], y) if not env.concrete else
                env.isclose(as_list(got[i]['y'])[0], y)) and all(
                    same_cell(env, got[i].get(k), w[k], kw.get(
                        'record_batches')) for k in keys):
          hit = i
          break
      env.check(hit is not None, 'the row comes out with its passthrough cells '
                'and its own outputs', Lazy(got, w))
      if hit is not None:
        left.remove(hit)
      env.check(hit is None or set(got[hit]) == {'y'} | set(keys),
                'exactly the outputs and the passthrough columns',
                Lazy(sorted(got[0])))


def same_cell(env, g, w, strict):
  if strict and (g is None) != (w is None):
    return False
  if w is None or g is None:
    # an absent cell stays absent (instances do not tell absent from empty)
    return (g is None and w is None) or (g is None and not w) or (
        w is None and g is not None and not len(as_list(g)))
  g = as_list(g)
  if len(g) != len(w):
    return False
  for a, b in zip(g, w):
    if env.concrete:
      if not env.isclose(a, b) if isinstance(b, float) else a != b:
        return False
    elif not bool(eqb(a, b)):
      return False
  return True


def double(i):
  return {'y': i['x'] * 2}


def analysed(i):
  # an analyzer does not disturb the passthrough columns
  return {'y': i['x'] * 2 + 0 * tft.max(i['x'])}


case('strings', {'p': 's'}, double, record_batches=True)
case('strings_instances', {'p': 's'}, double)
case('ints', {'p': 'i'}, double, record_batches=True)
case('floats', {'p': 'f'}, double, record_batches=True)
case('lists', {'p': 'l'}, double, record_batches=True)
case('two', {'p': 's', 'a': 'i'}, double, record_batches=True, n=2)
case('two_instances', {'b': 'i', 'a': 's'}, double, n=2)
case('around', {'a': 's', 'zz': 's'}, double, record_batches=True, n=2)
case('analysed', {'p': 's'}, analysed, record_batches=True)
case('joint', {'p': 's'}, analysed, transform='joint', record_batches=True)
case('v2', {'p': 's'}, double, v1=False, record_batches=True, shards=3)


def summed(i):
  return {'y': tf.expand_dims(tf.reduce_sum(i['x'], 0, keepdims=False), 0)}


case('reduced_rows', {'p': 's'}, summed, unary=True, same=True,
     rows_out=lambda part: part, record_batches=True)
case('reduced_rows_instances', {'p': 's'}, summed, unary=True, same=True,
     rows_out=lambda part: part)


@CHECK.case('clash', budget=6, bounds='a passthrough key naming an input column')
def clash(env):
  k = env.choose(3, 'key')
  names = [('x',), ('p', 'x'), ('p',)][k]

  def build():
    f = [pa.field('p', TYPES['s'])] if 'p' in names else []
    return P.Built(double, [X], passthrough=set(names), extra_fields=f)
  try:
    with core.paused():
      build().close()
    env.check('x' not in names, 'clashing keys are refused')
  except ValueError:
    env.check('x' in names, 'distinct keys are accepted')


@CHECK.case('different_values', budget=8, bounds='2-3 rows reduced to another '
            'number of rows')
def different_values(env):
  """A batch whose rows disagree cannot be attached to fewer rows."""
  def fn(i):
    return {'y': tf.concat([i['x'], i['x']], 0)}
  b = env.once('p', lambda: P.Built(
      fn, [X], passthrough={'p'}, extra_fields=[pa.field('p', TYPES['s'])],
      record_batches=True))
  m = 2 + env.choose(2, 'n')
  ids = [env.choose(2, f'p{j}') for j in range(m)]
  vals = [[b'u'], [b'v']]
  rows = [{'x': [env.real(f'x{j}', -9, 9)]} for j in range(m)]
  try:
    run = b.run([P.record_batch([X], rows, extra=[
        ('p', TYPES['s'], [vals[k] for k in ids])])], env.sched())
    got = run.get(b.out)
    env.check(len(set(ids)) == 1, 'rows that disagree are refused')
    env.check(sum(rb.num_rows for rb, _ in got) == 2 * m, 'number of rows')
    for rb, un in got:
      env.check([list(v) for v in un['p'].to_pylist()] == [vals[ids[0]]],
                'the common value')
  except ValueError:
    env.check(len(set(ids)) > 1, 'rows that agree are accepted')
