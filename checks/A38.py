"""Objects tracked in a preprocessing function are part of the transform."""
import atexit
import contextlib
import os
import shutil
import tempfile

import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform.keras_lib import tf_keras

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.exported import by_layer, eagerly, finalized, in_function, served

CHECK = Check(
    'A38',
    bounds=['2 analysed rows in one batch or two; 2 rows transformed, by the '
            'pipeline and by its published output; up to two analysis phases; '
            'variables, modules, lookup tables, datasets, Keras layers and '
            'loaded models'],
    excluded=['float rounding', 'objects whose factory gives another state '
              'whenever it is called', 'objects that are assigned to'])

X, K = P.Col('x', 'dense', 'f'), P.Col('k', 'dense', 's')
same = []          # were objects tracked by one name one object?


def track(factory, name=None):
  return tft.make_and_track_object(factory, name=name)


def again(o, name):
  """Asks for an object that is tracked already."""
  other = track(lambda: tf.Variable(-77.0), name)
  same.append(other is o)
  return other


class Scaler(tf.Module):

  def __init__(self):
    self.v = tf.Variable(3.0)
    self.w = [tf.Variable([1.5, 0.5]), tf.Variable(2.0)]

  def __call__(self, x):
    return x * self.v + self.w[0][0] - self.w[1]


def fixed(value):
  """A variable whose initial value is not in the graph of the function."""
  return lambda: tf.Variable(np.float32(value), trainable=False)


def variable(i):
  v = track(fixed(4), 'v')
  y = i['x'] * v
  m = tft.mean(i['x'] * again(v, 'v'))
  return {'y': y, 'z': y - m}


def variable_want(data, x):
  return {'y': x * 4, 'z': x * 4 - spec.mean([d * 4 for d in data])}


def nested(i):
  s, v = track(Scaler, 's'), track(fixed(2), 'v')
  y = s(i['x'])
  z = (y - tft.min(again(s, 's')(i['x']))) * v
  w = track(fixed(0.5), 'w')
  return {'y': y, 'z': z, 't': tft.sum(z * w) + 0.0 * i['x']}


def nested_want(data, x):
  f = lambda e: e * 3 - 0.5
  ys = [f(d) for d in data]
  low = spec.least(ys)
  return {'y': f(x), 'z': (f(x) - low) * 2,
          't': spec.total([y - low for y in ys])}


def dataset(i):
  d = track(lambda: tf.data.Dataset.from_tensor_slices([1., 2., 4.]))
  e = track(lambda: tf.data.Dataset.from_tensor_slices([10., 20.]), 'e')
  with tf.init_scope():
    xs, ys = list(d.as_numpy_iterator()), list(e.as_numpy_iterator())
  return {'y': i['x'] + xs[2], 'z': i['x'] * ys[1] - tft.max(i['x'] * ys[0])}


def dataset_want(data, x):
  return {'y': x + 4, 'z': x * 20 - spec.greatest([d * 10 for d in data])}


def layers(i):
  init = tf_keras.initializers.Constant
  dense = track(lambda: tf_keras.layers.Dense(
      2, kernel_initializer=init([[2., -3.]]), bias_initializer=init(1.)),
                'dense')
  x = tf.expand_dims(i['x'], 1)
  y = dense(x)
  same.append(track(lambda: None, 'dense') is dense)
  return {'y': y[:, 0], 'z': y[:, 1] - tft.mean(y[:, 1])}


def layers_want(data, x):
  f = lambda e: e * -3 + 1
  return {'y': x * 2 + 1, 'z': f(x) - spec.mean([f(d) for d in data])}


MODEL = None


def model():
  """Directory of a saved model with a variable and a table."""
  global MODEL
  if MODEL is None:
    MODEL = os.path.join(tempfile.mkdtemp(prefix='a38_'), 'model')
    atexit.register(shutil.rmtree, os.path.dirname(MODEL), ignore_errors=True)
    m = tf.Module()
    m.v = tf.Variable(5.0)
    m.f = tf.function(lambda x: x * m.v, input_signature=[
        tf.TensorSpec([None], tf.float32)])
    tf.saved_model.save(m, MODEL)
  return MODEL


def loaded(i):
  m = track(lambda: tf.saved_model.load(model()), 'm')
  y = m.f(i['x'])
  return {'y': y, 'u': track(lambda: tf.saved_model.load(model())).f(i['x']), 'z': y - tft.min(m.f(i['x']))}


def loaded_want(data, x):
  return {'y': x * 5, 'u': x * 5, 'z': x * 5 - spec.least([d * 5 for d in data])}


@contextlib.contextmanager
def without_model():
  """The published output contains what was loaded."""
  if MODEL is None:
    yield
    return
  os.rename(MODEL, MODEL + '.gone')
  try:
    yield
  finally:
    os.rename(MODEL + '.gone', MODEL)


PROGRAMS = {'variable': (variable, variable_want),
            'nested': (nested, nested_want),
            'dataset': (dataset, dataset_want),
            'layers': (layers, layers_want),
            'loaded': (loaded, loaded_want)}


def asked(root, cols, rows, drop):
  return finalized(root, cols, rows, drop, ['y', 'z'])


WAYS = (by_layer, eagerly, in_function, asked)


def compare(env, out, data, rows, want_of, label):
  for o, x in zip(out, rows):
    for k, w in want_of(data, x).items():
      if k in o:
        env.eq(spec.cell(o[k]), w, label, Lazy(k, o, w))


def case(name, ways=WAYS, suffix='', **kw):
  fn, want_of = PROGRAMS[name]

  @CHECK.case(name + suffix, bounds=f'program "{name}": ' + ', '.join(
      w.__name__ for w in ways), **kw)
  def run(env):
    model()
    b = env.once('p' + name, lambda: P.Built(fn, [X], v1=False, two_data=True,
                                             publish=True))
    data = [env.real(f'a{j}', -9, 9) for j in range(2)]
    rows = [env.real(f'b{j}', -9, 9) for j in range(2)]
    del same[:]
    r = b.run(spec.batches(env, [X], [{'x': [v]} for v in data]),
              env.sched(), [P.record_batch([X], [{'x': [v]} for v in rows])])
    env.check(all(same), 'one object for one name', Lazy(same))
    out = b.instances(r)
    env.check(len(out) == 2, 'rows')
    compare(env, out, data, rows, want_of, 'state in the pipeline')
    way = ways[env.choose(len(ways), 'way')]
    with without_model():
      got = way(b.published(r), [X], [{'x': [v]} for v in rows], True)
    got = {k: P.rows_of(v) for k, v in got.items()}
    for k in 'yz':
      env.check(k in got and len(got[k]) == 2, 'published outputs', Lazy(got))
    compare(env, [{k: v[j] for k, v in got.items()} for j in range(2)], data,
            rows, want_of, f'{way.__name__}: state in the published output')


for _n in PROGRAMS:
  case(_n, shards=2, budget=15)
  if _n != 'dataset':
    case(_n, (served,), '.served', shards=1, budget=8)


TOKENS = [b'a', b'b', b'c']


def table(i):
  def make(values):
    return lambda: tf.lookup.StaticHashTable(
        tf.lookup.KeyValueTensorInitializer(
            ['a', 'b'], tf.constant(values, tf.int64)), -1)
  t = track(make([3, 8]), 't')
  u = track(make([5, 6]))
  n = t.lookup(i['k'])
  return {'y': n, 'z': u.lookup(i['k']) + tft.sum(n)}


def table_case(name, ways, **kw):

  @CHECK.case(name, bounds='lookup tables by name and without one: ' +
              ', '.join(w.__name__ for w in ways), **kw)
  def run(env):
    b = env.once('t', lambda: P.Built(table, [K], v1=False, two_data=True,
                                      publish=True))
    new = lambda n: TOKENS[env.choose(3, n)]
    data, rows = [new('a0'), new('a1')], [new('b0'), new('b1')]
    col = lambda ks: [{'k': [k]} for k in ks]
    r = b.run(spec.batches(env, [K], col(data)), env.sched(),
              [P.record_batch([K], col(rows))])
    t, u = {b'a': 3, b'b': 8}, {b'a': 5, b'b': 6}
    total = sum(t.get(k, -1) for k in data)
    way = ways[env.choose(len(ways), 'way')]
    got = way(b.published(r), [K], col(rows), True)
    got = {k: P.rows_of(v) for k, v in got.items()}
    for j, (o, k) in enumerate(zip(b.instances(r), rows)):
      for where, cells in (('pipeline', o), (way.__name__, {
          n: v[j] for n, v in got.items()})):
        env.eq(spec.cell(cells['y']), t.get(k, -1), f'table in {where}')
        env.eq(spec.cell(cells['z']), u.get(k, -1) + total,
               f'analysed table in {where}')


table_case('table', WAYS, shards=2, budget=10)
table_case('table.served', (served,), shards=1, budget=8)


# also names that a module or its export has uses for
NAMES = ('p', 'name', 'variables', 'transform_fn', 'resources')


@CHECK.case('names', shards=1, budget=10,
            bounds='two or three objects under at most two of the names ' +
            ', '.join(NAMES))
def names(env):
  n = 2 + env.choose(2, 'objects')
  two = [NAMES[env.choose(len(NAMES), f'is{j}')] for j in range(2)]
  env.assume(two[0] != two[1])
  of = [two[env.choose(2, f'name{j}')] for j in range(n)]
  x, d = env.real('x', -9, 9), env.real('d', -9, 9)

  def fn(i):
    y = i['x']
    for j, name in enumerate(of):
      y = y * 3 + track(fixed(j + 1), name) + tft.sum(i['x'])
    return {'y': y}

  b = env.once('names' + '-'.join(of), lambda: P.Built(
      fn, [X], v1=False, two_data=True))
  r = b.run(spec.batches(env, [X], [{'x': [d]}]), None,
            [P.record_batch([X], [{'x': [x]}])])
  want = x
  for name in of:
    want = want * 3 + of.index(name) + 1 + d
  env.eq(spec.cell(b.instances(r)[0]['y']), want, 'the first object of a name')


@CHECK.case('refused', shards=1, budget=5,
            bounds='a Keras layer with a name or without, in TF2 or TF1')
def refused(env):
  named, v1 = env.choose(2, 'named'), env.choose(2, 'v1')
  d = env.real('d', -9, 9)

  def fn(i):
    layer = track(lambda: tf_keras.layers.Dense(
        1, kernel_initializer=tf_keras.initializers.Constant([[2.]])),
                  'layer' if named else None)
    return {'y': layer(tf.expand_dims(i['x'], 1))[:, 0]}
  try:
    b = P.Built(fn, [X], v1=bool(v1), two_data=True)
    r = b.run([P.record_batch([X], [{'x': [d]}])], None,
              [P.record_batch([X], [{'x': [d]}])])
  except ValueError as e:
    env.check(v1 or not named, 'tracking fails where it is not possible',
              Lazy(e))
    return
  env.check(named and not v1, 'tracking is refused where it is not possible')
  env.eq(spec.cell(b.instances(r)[0]['y']), d * 2, 'layer')
