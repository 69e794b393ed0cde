"""Reference definitions and small helpers shared by the checks."""
from __future__ import annotations

import numpy as np
import tensorflow as tf

from sx import core, pipeline as P
from sx.checklib import Lazy


def total(xs):
  r = 0
  for x in xs:
    r = r + x
  return r


def mean(xs):
  if not xs:
    return 0.0
  return div(total(xs), len(xs))


def div(a, b):
  if core.is_sym(a) or core.is_sym(b):
    return core.sdiv(a, b)
  return a / b


def var(xs):
  if not xs:
    return 0.0
  m = mean(xs)
  return div(total([(x - m) * (x - m) for x in xs]), len(xs))


def least(xs):
  r = xs[0]
  for x in xs[1:]:
    r = core.smin(r, x)
  return r


def greatest(xs):
  r = xs[0]
  for x in xs[1:]:
    r = core.smax(r, x)
  return r


def finite(xs):
  out = []
  for x in xs:
    if core.is_sym(x):
      out.append(x)
    elif x == x and abs(x) != float('inf'):
      out.append(x)
  return out


def bc(value, x, shape=None):
  """Repeats an analysis value for every row of the batch of x."""
  value = tf.convert_to_tensor(value)
  if shape is not None:
    value = tf.ensure_shape(value, shape)
  n = batch_size(x)
  v = tf.expand_dims(value, 0)
  return tf.tile(v, tf.concat([[n], tf.ones([value.shape.rank], tf.int32)], 0))


def batch_size(x):
  if isinstance(x, tf.SparseTensor):
    return tf.cast(x.dense_shape[0], tf.int32)
  if isinstance(x, tf.RaggedTensor):
    return tf.cast(x.nrows(), tf.int32)
  return tf.shape(x)[0]


def vec(value, x):
  """Repeats a vector of unknown length for every row (a varlen output)."""
  n = tf.cast(batch_size(x), tf.int64)
  k = tf.size(value, out_type=tf.int64)
  idx = tf.stack([tf.repeat(tf.range(n), k), tf.tile(tf.range(k), [n])], 1)
  return tf.SparseTensor(idx, tf.tile(tf.reshape(value, [-1]), [n]),
                         tf.stack([n, k]))


def as_list(v):
  """Values of an output cell as a flat list."""
  if v is None:
    return []
  if isinstance(v, np.ndarray):
    if v.shape == ():
      return [v.item()]
    return [e for e in (v.base_array() if hasattr(v, 'base_array') else
                        v).ravel().tolist()]
  if isinstance(v, (list, tuple)):
    out = []
    for e in v:
      out += as_list(e)
    return out
  return [v]


def cell(v):
  l = as_list(v)
  assert len(l) == 1, l
  return l[0]


def batches(env, cols, rows, split=None, extra=lambda rs: ()):
  """Rows cut into record batches (a symbolic choice unless given)."""
  parts = split if split is not None else env.split(rows)
  return [P.record_batch(cols, p, extra(p)) for p in parts]


def eqb(a, b):
  """Equality of two values as a Python bool (decided on this path)."""
  a, b = core._norm(a), core._norm(b)
  if isinstance(a, str):
    a = a.encode()
  if isinstance(b, str):
    b = b.encode()
  return bool(core.same(a, b)) if core.is_sym(a) or core.is_sym(b) else a == b


def group(keys, values):
  """Values grouped by key: list of (key, values) in first-seen order."""
  out = []
  for k, v in zip(keys, values):
    for g in out:
      if eqb(g[0], k):
        g[1].append(v)
        break
    else:
      out.append((k, [v]))
  return out


def chunks(values, n):
  values = as_list(values)
  return [values[i:i + n] for i in range(0, len(values), n)] if n else []


def check_keyed(env, keys, values, want, label, cmp=None):
  """keys/values of a per-key result against [(key, expected)]."""
  keys = as_list(keys)
  env.check(len(keys) == len(want), label + ' number of keys',
            Lazy(keys, want))
  for k, w in want:
    hit = [i for i, k2 in enumerate(keys) if eqb(k, k2)]
    env.check(len(hit) == 1, label + ' each key once', Lazy(k, keys))
    if len(hit) == 1:
      (cmp or env.eq)(values[hit[0]], w, label)
