"""Ways of applying the published output of a transform."""
from __future__ import annotations

import contextlib
import os
import shutil
import tempfile

import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform.saved import saved_transform_io_v2

from sx import core, markers, pipeline as P


def value(c, rows):
  """Feedable value of a column."""
  dt = object if c.dt == 's' else c.np_dtype
  cells = [r[c.name] for r in rows]
  if c.kind == 'dense':
    if not c.shape:
      cells = [x[0] for x in cells]
    return P.arr(cells, dt, (len(rows),) + c.shape)
  return (P.sparse if c.kind == 'varlen' else P.ragged)(cells, dt)


def tensor(c, rows):
  """Eager tensor of a column; symbols become markers."""
  v = value(c, rows)
  const = lambda a, dt: tf.constant(np.asarray(markers.encode_array(
      a) if core.active() else a), dt)
  dt = {'f': tf.float32, 's': tf.string, 'i': tf.int64}[c.dt]
  if c.kind == 'dense':
    return const(v, dt)
  if c.kind == 'varlen':
    return tf.SparseTensor(v.indices, const(v.values, dt), v.dense_shape)
  return tf.RaggedTensor.from_row_splits(const(v.values, dt), v.row_splits)


def placeholder_spec(c):
  dt = {'f': tf.float32, 's': tf.string, 'i': tf.int64}[c.dt]
  if c.kind == 'dense':
    return tf.TensorSpec((None,) + c.shape, dt)
  if c.kind == 'varlen':
    return tf.SparseTensorSpec([None, None], dt)
  return tf.RaggedTensorSpec([None, None], dt, 1, tf.int64)


def back(t):
  """Values of an eager result."""
  d = lambda x: markers.decode_array(np.asarray(x)) if core.active() else (
      np.asarray(x))
  if isinstance(t, tf.SparseTensor):
    return tf.compat.v1.SparseTensorValue(
        t.indices.numpy(), d(t.values.numpy()), t.dense_shape.numpy())
  if isinstance(t, tf.RaggedTensor):
    v = t.values
    return tf.compat.v1.ragged.RaggedTensorValue(
        back(v) if isinstance(v, tf.RaggedTensor) else d(v.numpy()),
        t.row_splits.numpy())
  return d(t.numpy())


# -- the ways of applying an exported transform ------------------------------------


def in_graph(root, cols, rows, drop):
  o = tft.TFTransformOutput(root)
  specs = {c.name: placeholder_spec(c) for c in cols}
  use = lambda i: dict(o.transform_raw_features(i, drop_unused_features=drop))
  if drop:
    P.GraphFn(use, specs)     # the same output is first used in another graph
  g = P.GraphFn(use, specs)
  return g(**{c.name: value(c, rows) for c in cols})


def by_layer(root, cols, rows, drop):
  del drop
  layer = tft.TFTransformOutput(root).transform_features_layer()
  out = layer({c.name: tensor(c, rows) for c in cols})
  return {k: back(v) for k, v in out.items()}


def eagerly(root, cols, rows, drop):
  out = tft.TFTransformOutput(root).transform_raw_features(
      {c.name: tensor(c, rows) for c in cols}, drop_unused_features=drop)
  return {k: back(v) for k, v in out.items()}


def in_function(root, cols, rows, drop):
  del drop
  layer = tft.TransformFeaturesLayer(tft.TFTransformOutput(root))
  f = tf.function(lambda i: dict(layer(i)))
  out = f({c.name: tensor(c, rows) for c in cols})
  return {k: back(v) for k, v in out.items()}


def finalized(root, cols, rows, drop, outputs=None):
  del drop
  l = saved_transform_io_v2.SavedModelLoader(os.path.join(root, 'transform_fn'))
  l.finalize([c.name for c in cols], outputs)
  out = l.apply_transform_model({c.name: tensor(c, rows) for c in cols})
  return {k: back(v) for k, v in out.items()}


def served(root, cols, rows, drop):
  """A model that contains the transform, loaded after the transform is gone."""
  del drop
  m = tf.Module()
  m.layer = tft.TFTransformOutput(root).transform_features_layer()
  specs = {c.name: placeholder_spec(c) for c in cols}
  m.f = tf.function(lambda i: dict(m.layer(i)), input_signature=[specs])
  d = tempfile.mkdtemp(prefix='served_')
  try:
    tf.saved_model.save(m, os.path.join(d, 'model'))
    del m
    os.rename(os.path.join(d, 'model'), os.path.join(d, 'moved'))
    with gone(root):
      loaded = tf.saved_model.load(os.path.join(d, 'moved'))
      out = loaded.f({c.name: tensor(c, rows) for c in cols})
      return {k: back(v) for k, v in out.items()}
  finally:
    shutil.rmtree(d)


@contextlib.contextmanager
def gone(root):
  os.rename(root, root + '.gone')
  try:
    yield
  finally:
    os.rename(root + '.gone', root)
