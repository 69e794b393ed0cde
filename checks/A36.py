"""Embedded Python functions and models act on rows as they do on their own."""
import atexit
import contextlib
import os
import shutil
import tempfile

import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import pretrained_models

from sx import core, markers, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, total

CHECK = Check(
    'A36',
    bounds=['1-2 analysed rows in at most 2 batches, any reals in [-50, 50], '
            'any tokens; 1-2 transformed rows; Python functions with one to '
            'three results; models with two inputs, two signatures, variables '
            'and a lookup table; checkpoints with three variables in two '
            'scopes; in the pipeline and loaded from its published output'],
    excluded=['TF2 (these functions refuse it)', 'float rounding'])

F, I, S = tf.float32, tf.int64, tf.string
COLS = [P.Col('x', 'dense', 'f'), P.Col('y', 'dense', 'f'),
        P.Col('v', 'dense', 'f', (2,)), P.Col('k', 'dense', 's'),
        P.Col('s', 'varlen', 'f')]


def scratch(name):
  d = os.path.join(tempfile.mkdtemp(prefix='a36_'), name)
  atexit.register(shutil.rmtree, os.path.dirname(d), ignore_errors=True)
  return d


# -- Python functions --------------------------------------------------------------


def py_program(i):
  x, y, v = i['x'], i['y'], i['v']
  one = tft.apply_pyfunc(lambda a, b: a - 2 * b, F, True, 'one', x, y)
  one.set_shape(x.shape)
  # the same arguments the other way round, and several results
  p, q, r = tft.apply_pyfunc(lambda a, b: [a - 2 * b, a * 3, b + 1],
                             [F, F, F], False, 'many', y, x)
  for t in (p, q, r):
    t.set_shape(x.shape)
  rows = tft.apply_pyfunc(lambda a: a[:, 0] - a[:, 1], F, True, None, v)
  rows.set_shape(x.shape)
  # analysed, and applied to what was analysed
  scaled = tft.scale_by_min_max(one, 0.0, 4.0)
  shifted = tft.apply_pyfunc(lambda a, m: a - m, F, True, 'shift', x,
                             tft.max(y))
  shifted.set_shape(x.shape)
  return {'one': one, 'p': p, 'q': q, 'r': r, 'rows': rows, 'shifted': shifted,
          'scaled': bc(tft.sum(one), x) + scaled * 0.0}


def py_want(data, r):
  x, y, v = r['x'], r['y'], r['v']
  return {'one': x - 2 * y, 'p': y - 2 * x, 'q': 3 * y, 'r': x + 1,
          'rows': v[0] - v[1], 'shifted': x - spec.greatest(
              [d['y'] for d in data]),
          'scaled': total([d['x'] - 2 * d['y'] for d in data])}


def py_sparse(i):
  s = i['s']
  values = tft.apply_pyfunc(lambda a: a * a - 1, F, True, None, s.values)
  values.set_shape([None])
  rows = tft.apply_pyfunc(lambda ix: ix[:, 0], I, True, None, s.indices)
  rows.set_shape([None])
  t = tf.SparseTensor(s.indices, values, s.dense_shape)
  return {'s': t, 'rows': tf.SparseTensor(s.indices, rows, s.dense_shape)}


# -- saved models --------------------------------------------------------------------


def save_model():
  d = scratch('model')
  with tf.compat.v1.Graph().as_default():
    a = tf.compat.v1.placeholder(F, [None], name='a')
    b = tf.compat.v1.placeholder(F, [None], name='b')
    k = tf.compat.v1.placeholder(S, [None], name='k')
    w = tf.compat.v1.get_variable('w', initializer=[2.0, -3.0])
    ids = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(
        ['red', 'green'], tf.constant([5, 9], I)), -4).lookup(k)
    out = {'lin': a * w[0] + b * w[1], 'diff': a - b, 'first': a + 0.5}
    build = tf.compat.v1.saved_model.build_tensor_info
    sig = lambda i, o: tf.compat.v1.saved_model.build_signature_def(
        {n: build(t) for n, t in i.items()}, {n: build(t) for n, t in o.items()})
    b1 = tf.compat.v1.saved_model.Builder(d)
    with tf.compat.v1.Session() as s:
      s.run([tf.compat.v1.global_variables_initializer(),
             tf.compat.v1.tables_initializer()])
      b1.add_meta_graph_and_variables(
          s, ['serve'], {'both': sig({'a': a, 'b': b}, out),
                         'single': sig({'in': a}, {'o': a * w[1]}),
                         'color': sig({'in': k}, {'o': ids})},
          main_op=tf.compat.v1.tables_initializer())
    b1.save()
  return d


MODEL = []


def model_program(i):
  d, x, y = MODEL[0], i['x'], i['y']
  ap = lambda *a, **k: pretrained_models.apply_saved_model(
      d, *a, tags=['serve'], **k)
  diff, lin = ap({'a': x, 'b': y}, signature_name='both',
                 output_keys_in_signature=['diff', 'lin'])
  lin2, = ap({'b': x, 'a': tf.abs(y)}, signature_name='both',
             output_keys_in_signature=['lin'])
  single = ap(x - 1.0, signature_name='single')
  again = ap({'in': single}, signature_name='single')
  color = ap(i['k'], signature_name='color')
  # The graph of an applied model states no shapes; the analyzers need one.
  for t in (diff, lin, lin2, single, again, color):
    t.set_shape(x.shape)
  return {'diff': diff, 'lin': lin, 'lin2': lin2, 'single': single,
          'again': again, 'color': color,
          'sum': bc(tft.sum(lin), x), 'colors': bc(tft.max(color), x)}


def color(k):
  return 5 if spec.eqb(k, b'red') else 9 if spec.eqb(k, b'green') else -4


def model_want(data, r):
  x, y = r['x'], r['y']
  lin = lambda d: 2 * d['x'] - 3 * d['y']
  return {'diff': x - y, 'lin': lin(r), 'lin2': 2 * abs(y) - 3 * x,
          'single': -3 * (x - 1), 'again': 9 * (x - 1), 'color': color(r['k']),
          'sum': total([lin(d) for d in data]),
          'colors': max(color(d['k']) for d in data)}


# -- functions with checkpoints ----------------------------------------------------------


def variables(scope, *names):
  with tf.compat.v1.variable_scope(scope):
    return [tf.compat.v1.get_variable(n, shape=[], initializer=(
        tf.compat.v1.zeros_initializer())) for n in names]


def save_checkpoint():
  d = scratch('ckpt')
  os.makedirs(d)
  with tf.compat.v1.Graph().as_default():
    vs = variables('one', 'a', 'b') + variables('two', 'a')
    with tf.compat.v1.Session() as s:
      for v, n in zip(vs, (2.0, -1.0, 7.0)):
        v.load(n, s)
      return tf.compat.v1.train.Saver(vs).save(s, os.path.join(d, 'c'))


CKPT = []


def ckpt_program(i):
  x, y = i['x'], i['y']
  ap = lambda f, inputs, **k: pretrained_models.apply_function_with_checkpoint(
      f, inputs, CKPT[0], **k)

  def affine(u, v):
    a, b = variables('one', 'a', 'b')
    return u * a + v * b

  def several(u):
    a, = variables('two', 'a')
    b, = variables('one', 'b')
    return [u - a, u * b]

  top = tf.math.top_k(i['v'], 2)
  p, q = ap(several, [x])
  return {'xy': ap(affine, [x, y]), 'yx': ap(affine, [y, x]),
          'xx': ap(affine, [x, x]), 'p': p, 'q': q,
          'one': ap(affine, [x, y], include=['one']),
          'two': ap(lambda u: several(u)[0], [x], exclude=['three']),
          'top': ap(lambda u, n: affine(u, tf.cast(n, F)),
                    [top.values, top.indices]),
          'sum': bc(tft.sum(ap(affine, [x, y])), x)}


def ckpt_want(data, r):
  x, y, v = r['x'], r['y'], r['v']
  aff = lambda a, b: 2 * a - b
  later = bool(v[1] > v[0])
  hi, lo = (v[1], v[0]) if later else (v[0], v[1])
  return {'xy': aff(x, y), 'yx': aff(y, x), 'xx': x, 'p': x - 7, 'q': -x,
          'one': aff(x, y), 'two': x - 7,
          'top': [aff(hi, 1 if later else 0), aff(lo, 0 if later else 1)],
          'sum': total([aff(d['x'], d['y']) for d in data])}


def py_sparse_want(data, r):
  del data
  return {'s': [e * e - 1 for e in r['s']], 'rows': None}


PROGRAMS = {'pyfunc': (py_program, py_want), 'model': (model_program, model_want),
            'checkpoint': (ckpt_program, ckpt_want),
            'pyfunc_sparse': (py_sparse, py_sparse_want)}


def placeholder_spec(c):
  dt = {'f': F, 's': S}[c.dt]
  if c.kind == 'varlen':
    return tf.SparseTensorSpec([None, None], dt)
  return tf.TensorSpec((None,) + c.shape, dt)


def value(c, rows):
  dt = object if c.dt == 's' else c.np_dtype
  cells = [r[c.name] for r in rows]
  if c.kind == 'varlen':
    return P.sparse(cells, dt)
  return P.arr([e for r in cells for e in r] if c.shape else cells, dt,
               (len(rows),) + c.shape)


def build(fn, cols):
  with core.paused():
    if not MODEL:
      MODEL.append(save_model())
      CKPT.append(save_checkpoint())
    return P.Built(fn, cols, two_data=True, publish=True)


@contextlib.contextmanager
def fresh_process():
  """Python functions are registered as in a process that has just started."""
  from tensorflow.python.ops import script_ops
  registry = script_ops._py_funcs
  before = dict(registry._funcs.items()), registry._unique_id
  registry._funcs.clear()
  registry._unique_id = 1
  try:
    yield
  finally:
    for k in list(registry._funcs):
      registry._funcs.pop(k)
    registry._funcs.update(before[0])
    registry._unique_id = before[1]


def cells(v):
  # A row of a sparse output that was fetched is a list of (index, value).
  if isinstance(v, list) and v and isinstance(v[0], tuple):
    return [e for _, e in v]
  return as_list(v)


def row(env, cols, tag):
  r = {}
  for c in cols:
    if c.dt == 's':
      t = env.choose(3, c.name + tag)
      r[c.name] = env.tok(c.name + tag) if t == 2 else (b'red', b'green')[t]
    elif c.kind == 'varlen':
      r[c.name] = env.reals(c.name + tag, env.choose(3, f'n{tag}'), -50, 50)
    elif c.shape:
      r[c.name] = env.reals(c.name + tag, 2, -50, 50)
    else:
      r[c.name] = env.real(c.name + tag, -50, 50)
  return r


def case(name, used, **kw):
  fn, want = PROGRAMS[name]
  cols = [c for c in COLS if c.name in used.split()]

  @CHECK.case(name, bounds=f'columns {used}; in the pipeline, or loaded from '
              'its published output', **kw)
  def run(env):
    b = env.once('p', lambda: build(fn, cols))
    data = [row(env, cols, f'a{j}') for j in range(1 + env.choose(2, 'n'))]
    rows = [row(env, cols, f'b{j}') for j in range(1 + env.choose(2, 'm'))]
    parts = env.split(data)
    r = b.run([P.record_batch(cols, p) for p in parts], None,
              [P.record_batch(cols, rows)])
    label = 'in the pipeline'
    if env.choose(2, 'published'):
      label = 'loaded from the published output'
      root = b.published(r)
      with fresh_process():
        g = P.GraphFn(lambda i: dict(tft.TFTransformOutput(
            root).transform_raw_features(i, drop_unused_features=True)),
                      {c.name: placeholder_spec(c) for c in cols})
        res = g(**{c.name: value(c, rows) for c in cols})
      res = {k: P.rows_of(v) for k, v in res.items()}
      out = [{k: v[j] for k, v in res.items()} for j in range(len(rows))]
    else:
      out = b.instances(r)
    env.check(len(out) == len(rows), 'every row once ' + label)
    for j, (p, o) in enumerate(zip(rows, out)):
      w = want(data, p)
      if 'rows' in w and w['rows'] is None:
        w['rows'] = [j] * len(p['s'])
      env.check(set(o) == set(w), 'outputs ' + label, Lazy(sorted(o)))
      for k, e in w.items():
        got = cells(o[k])
        e = e if isinstance(e, list) else [e]
        env.check(len(got) == len(e), f'{k} {label}', Lazy(got, e))
        for g, f in zip(got, e):
          env.eq(g, f, f'{k} {label}')


case('pyfunc', 'x y v', shards=2, budget=15)
case('pyfunc_sparse', 's', budget=10)
case('model', 'x y k', shards=2, budget=15)
case('checkpoint', 'x y v', shards=2, budget=15)
