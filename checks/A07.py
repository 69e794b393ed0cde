"""Scaling outputs are the documented function of the full-pass statistics."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, cell, div, group

CHECK = Check(
    'A07',
    bounds=['at most 3 analysed rows plus one further transformed row, at '
            'most 2 values per row, |x| <= 100'],
    assumptions=['sigmoid and square root are uninterpreted up to their '
                 'defining axioms'],
    excluded=['float rounding', 'infinite inputs', 'NaN inputs of min-max scaling', 'scale_to_gaussian'])

LO, HI = -2.0, 3.0


def want_min_max(env, o, x, vals, lo=0.0, hi=1.0, label='min-max'):
  """o against the documented scaling of x by the values' range."""
  mn, mx = (spec.least(vals), spec.greatest(vals)) if vals else (0.0, 0.0)
  if bool(mn < mx):
    env.eq((o - lo) * (mx - mn), (x - mn) * (hi - lo), label)
    env.check(core.implies((x >= mn) & (x <= mx), (o >= lo - 1e-4) &
                           (o <= hi + 1e-4)), label + ' in range')
  else:
    env.eq(o, core.ssigmoid(x) * (hi - lo) + lo, label + ' constant')


def want_z(env, o, x, vals, label='z-score'):
  m, v = (spec.mean(vals), spec.var(vals)) if vals else (0.0, 0.0)
  if vals and not bool(v == 0):
    env.eq(o * core.ssqrt(v), x - m, label)
  else:
    env.eq(o, x - m, label + ' zero variance')


def keep(vals):
  return [v for v in vals if not core.isnan(v)]


def scalers(i, per=None, which='muz'):
  x = i['x']
  if per:
    f = {'m': lambda: tft.scale_by_min_max_per_key(x, i['k'], LO, HI, **per),
         'u': lambda: tft.scale_to_0_1_per_key(x, i['k'], **per),
         'z': lambda: tft.scale_to_z_score_per_key(x, i['k'], **per)}
    return {k: f[k]() for k in which}
  return {'m': tft.scale_by_min_max(x, LO, HI), 'u': tft.scale_to_0_1(x),
          'z': tft.scale_to_z_score(x)}


def check_row(env, out, xs, vals):
  out = {k.replace('$ragged_values', ''): v for k, v in out.items()}
  for k, f in (('m', lambda o, x: want_min_max(env, o, x, vals, LO, HI)),
               ('u', lambda o, x: want_min_max(env, o, x, vals)),
               ('z', lambda o, x: want_z(env, o, x, vals))):
    if k not in out:
      continue
    got = as_list(out[k])
    env.check(len(got) == len(xs), 'layout kept', Lazy(got, xs))
    for o, x in zip(got, xs):
      f(o, x)


def dense_case(name, dt, n, which, quick=True, shards=4):
  col = [P.Col('x', 'dense', dt)]

  def fn(i):
    return {k: v for k, v in scalers(i).items() if k in which}

  @CHECK.case(name, quick=quick, shards=shards,
              bounds=f'dense {dt} column, {n} analysed rows and one more')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, col, two_data=True))
    xs = (env.reals('x', n, -100, 100) if dt == 'f' else
          env.ints('x', n, -100, 100))
    y = (env.real('y', -100, 100) if dt == 'f' else env.int('y', -100, 100))
    rows = [{'x': x} for x in xs]
    out = b.instances(b.run(
        spec.batches(env, col, rows), env.sched(),
        [P.record_batch(col, rows + [{'x': y}])]))
    for o, x in zip(out, xs + [y]):
      check_row(env, o, [x], xs)


dense_case('min_max', 'f', 3, 'mu')
dense_case('min_max_ints', 'i', 2, 'mu', shards=2)
dense_case('z_score', 'f', 2, 'z', shards=4)
dense_case('z_score_ints', 'i', 2, 'z', shards=2)
dense_case('z_score_3', 'f', 3, 'z', quick=False)

ELEM = [P.Col('x', 'dense', 'f', (2,)), P.Col('s', 'sparse', 'f', (2,))]


def densify(s):
  return tf.ensure_shape(tf.sparse.to_dense(s, -9999.0), [None, 2])


@CHECK.case('elementwise', shards=4,
            bounds='dense [2] and sparse column scaled elementwise, 2 rows')
def elementwise(env):
  b = env.once('p', lambda: P.Built(
      lambda i: {'m': tft.scale_by_min_max(i['x'], LO, HI, elementwise=True),
                 'z': tft.scale_to_z_score(i['x'], elementwise=True),
                 'sm': densify(tft.scale_to_0_1(i['s'], elementwise=True)),
                 'sz': densify(tft.scale_to_z_score(i['s'],
                                                    elementwise=True))}, ELEM))
  xs = [env.reals(f'x{j}_', 2, -100, 100) for j in range(2)]
  ss = []
  for j in range(2):
    mask = env.choose(4, f'mask{j}')
    ss.append([(d, env.real(f's{j}_{d}', -100, 100)) for d in range(2)
               if mask >> d & 1])
  env.assume(all(any(d == i for r in ss for i, _ in r) for d in range(2)))
  rows = [{'x': x, 's': s} for x, s in zip(xs, ss)]
  out = b.instances(b.run(spec.batches(env, ELEM, rows), env.sched()))
  for x, s, o in zip(xs, ss, out):
    for d in range(2):
      vals = [v[d] for v in xs]
      want_min_max(env, as_list(o['m'])[d], x[d], vals, LO, HI, 'elementwise')
      want_z(env, as_list(o['z'])[d], x[d], vals, 'elementwise z')
    for k in ('sm', 'sz'):
      got = as_list(o[k])
      env.check(len(got) == 2, 'row width', Lazy(got))
      have = dict(s)
      for d in range(2):
        if d not in have:
          env.eq(got[d], -9999.0, 'missing entry stays missing')
          continue
        vals = [w for r in ss for i, w in r if i == d]
        (want_min_max if k == 'sm' else want_z)(
            env, got[d], have[d], vals, label='sparse elementwise')


def layout_case(kind, which, quick=True):
  col = [P.Col('x', kind, 'f')]

  def fn(i):
    return {k: v for k, v in scalers(i).items() if k in which}

  @CHECK.case(f'{kind}_{which}', shards=3, quick=quick,
              bounds=f'{kind} column, 2 rows of 0-2 values')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, col))
    rows = [{'x': env.reals(f'x{j}_', env.choose(3, f'n{j}'), -100, 100)}
            for j in range(2)]
    vals = [v for r in rows for v in r['x']]
    env.assume(bool(vals))
    out = b.instances(b.run(spec.batches(env, col, rows), env.sched()))
    for o, r in zip(out, rows):
      check_row(env, o, r['x'], vals)


layout_case('varlen', 'mu')
layout_case('varlen', 'z')
layout_case('ragged', 'mu')
layout_case('ragged', 'z')


@CHECK.case('nan', shards=2, bounds='dense column with NaN entries, 3 rows')
def nan(env):
  col = [P.Col('x', 'dense', 'f')]
  b = env.once('p', lambda: P.Built(scalers_no_name, col))
  xs = [float('nan') if env.choose(2, f'nan{j}') else
        env.real(f'x{j}', -100, 100) for j in range(3)]
  vals = keep(xs)
  env.assume(bool(vals))
  out = b.instances(b.run(spec.batches(env, col, [{'x': x} for x in xs]),
                          env.sched()))
  for o, x in zip(out, xs):
    if core.isnan(x):
      env.check(core.isnan(cell(o['z'])),
                'NaN stays NaN')
    else:
      check_row(env, o, [x], vals)


def scalers_no_name(i):
  r = scalers(i)
  r.pop('u')
  r.pop('m')
  return r


def per_key_case(name, kind, which, n, per_file=False, quick=True, shards=6,
                 budget=16):
  kind, key_kind = kind if isinstance(kind, tuple) else (kind, kind)
  cols = [P.Col('x', kind, 'f'), P.Col('k', key_kind, 's')]

  def a_row(env, tag, least, most):
    n = 1 if kind == 'dense' else least + env.choose(most + 1 - least, tag)
    ks = env.toks('k' + tag, 1 if key_kind == 'dense' else n)
    return ({'x': env.reals('x' + tag, n, -100, 100), 'k': ks},
            ks * (n if key_kind != kind else 1))

  def fn(i):
    if per_file:
      out = {}
      for k in which:
        with tf.compat.v1.name_scope('scale_' + k):
          out.update({n: v for n, v in scalers(
              i, {'key_vocabulary_filename': 'keys_' + k}, [k]).items()})
      return out
    return scalers(i, {'name': None}, which)

  @CHECK.case(name, quick=quick, shards=shards, budget=budget,
              bounds=f'per-key scaling of {kind} columns, {n} analysed rows '
              'and one further batch, of a row of any key or without any value')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, two_data=True))
    rows, vals, keys = [], [], []
    row_keys = []
    for j in range(n):
      row, ks = a_row(env, f'{j}_', 0, 2)
      rows.append(row)
      vals += row['x']
      keys += ks
      row_keys.append(ks)
    env.assume(bool(vals))
    extra, ks = a_row(env, 'y', 0, 1)
    row_keys.append(ks)
    out = b.instances(b.run(
        spec.batches(env, cols, rows), env.sched(),
        [P.record_batch(cols, rows), P.record_batch(cols, [extra])]))
    groups = group(keys, vals)
    for o, r, r_keys in zip(out, rows + [extra], row_keys):
      for k in which:
        got = as_list(o.get(k, o.get(k + '$ragged_values')))
        env.check(len(got) == len(r['x']), 'layout kept', Lazy(got))
        for g, x, key in zip(got, r['x'], r_keys):
          mine = [v for q, v in groups if spec.eqb(q, key)]
          mine = mine[0] if mine else []
          if k == 'z':
            want_z(env, g, x, mine, 'per-key z')
          else:
            want_min_max(env, g, x, mine, *((LO, HI) if k == 'm' else
                                            (0., 1.)), label='per-key')


per_key_case('per_key_min_max', 'dense', 'mu', 3)
per_key_case('per_key_z', 'dense', 'z', 3)
per_key_case('per_key_varlen', 'varlen', 'mz', 2)
per_key_case('per_key_ragged', 'ragged', 'mz', 2, shards=3)
per_key_case('key_file_min_max', 'dense', 'm', 2, per_file=True, shards=2)
per_key_case('key_file_z', 'dense', 'z', 2, per_file=True, shards=2)
per_key_case('key_file_varlen', 'varlen', 'm', 2, per_file=True, shards=2)
per_key_case('key_file_ragged', 'ragged', 'm', 2, per_file=True, shards=2)
per_key_case('per_key_row_key', ('varlen', 'dense'), 'mz', 2)
per_key_case('key_file_row_key', ('ragged', 'dense'), 'm', 2, per_file=True,
             shards=2)


def key_text_case(name, texts, label, **kw):
  cols = [P.Col('x', 'dense', 'f'), P.Col('k', 'dense', 's')]

  def fn(i):
    return {'m': tft.scale_by_min_max_per_key(
        i['x'], i['k'], LO, HI, key_vocabulary_filename='keys')}

  @CHECK.case(name, bounds='per-key scaling through a key file: 2 rows with '
              f'any values, each key one of the texts {texts}', **kw)
  def run(env):
    b = env.once('text', lambda: P.Built(fn, cols, two_data=True))
    keys = [texts[env.choose(len(texts), f'k{j}')] for j in range(2)]
    rows = [{'x': [env.real(f'x{j}', -100, 100)], 'k': [key]}
            for j, key in enumerate(keys)]
    try:
      out = b.instances(b.run([P.record_batch(cols, rows)], env.sched(),
                              [P.record_batch(cols, rows)]))
    except (ValueError, RuntimeError, tf.errors.OpError) as e:
      env.check(False, label, Lazy(e))
      return
    for o, r in zip(out, rows):
      mine = [q['x'][0] for q in rows if q['k'] == r['k']]
      want_min_max(env, as_list(o['m'])[0], r['x'][0], mine, LO, HI,
                   label=label)


key_text_case('key_file_text', [b'a', b'', b'a,1', b'1,2'], 'per-key',
              shards=2, budget=12)
key_text_case('key_file_space', [b'x y', b'x z'], 'key with a space')
key_text_case('key_file_newline', [b'x\ny'], 'key with a newline')
