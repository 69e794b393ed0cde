"""Example-encoded rows parse back to the same features."""
import pickle

import numpy as np
import tensorflow as tf
from tensorflow_transform.coders import example_proto_coder
from tensorflow_transform.tf_metadata import schema_utils

from sx import core, markers, pipeline as P
from sx.checklib import Check, Lazy

CHECK = Check(
    'A18',
    bounds=['two or three instances through one coder; 0-2 values (sparse and '
            'ragged: 0-3 entries) per column; int64, float32 and string'],
    assumptions=['protocol buffers store and return scalars unchanged'],
    excluded=['rounding of doubles to float32'])

KIND = {tf.int64: 'int64_list', tf.float32: 'float_list',
        tf.string: 'bytes_list'}
NP = {tf.int64: np.int64, tf.float32: np.float32, tf.string: object}


def schema(spec):
  with core.paused():
    return schema_utils.schema_from_feature_spec(spec)


def value(env, name, dtype):
  if dtype == tf.int64:
    return env.int(name, -2**63, 2**63 - 1) if not env.choose(
        2, name + '_small') else env.int(name, 0, 1)
  if dtype == tf.float32:
    return env.real(name)
  return env.tok(name)


def stored(env, encoded):
  """{feature name: (kind, values)} of an encoded example."""
  ex = encoded
  if isinstance(encoded, bytes):
    ex = tf.train.Example.FromString(bytes(encoded))
  out = {}
  for k, f in ex.features.feature.items():
    kind = f.WhichOneof('kind')
    out[k] = (kind, [markers.decode_scalar(v) for v in getattr(f, kind).value]
              if kind else [])
  return out


def flat(x):
  if isinstance(x, np.ndarray):
    return flat(x.tolist()) if not isinstance(x, core.Sym) else [x]
  if isinstance(x, (list, tuple)):
    return [z for y in x for z in flat(y)]
  return [x]


def matches(env, got, key, dtype, want, label):
  kind, vals = got.get(key, (None, []))
  env.check(kind in (KIND[dtype], None) and (kind is not None or not want),
            f'{label}: stored type', Lazy(key, kind, want))
  env.check(len(vals) == len(want), f'{label}: number of values',
            Lazy(key, vals, want))
  for a, b in zip(vals, want):
    env.eq(a, b, f'{label}: value', tol=1e-6)


def parsed(env, encoded, spec):
  """What TensorFlow's parser makes of it, on concrete runs."""
  if not env.concrete:
    return None
  b = encoded if isinstance(encoded, bytes) else encoded.SerializeToString()
  return tf.io.parse_single_example(b, spec)


def as_form(env, vals, dtype, name):
  """A list, a tuple of the same values as an array, or str for bytes."""
  k = env.choose(3, name + '_form')
  if k == 1:
    return P.arr(vals, NP[dtype])
  if k == 2 and dtype == tf.string and env.concrete:
    return [v.decode() if isinstance(v, bytes) else v for v in vals]
  return list(vals)


def run(env, spec, make, expect, n=2):
  """Encodes n instances with one coder; checks each, at once and at the end."""
  serialized = bool(env.choose(2, 'serialized'))
  c = example_proto_coder.ExampleProtoCoder(schema(spec), serialized)
  if env.choose(2, 'copy'):
    with core.paused():
      c = pickle.loads(pickle.dumps(c))
  done = []
  for k in range(n):
    inst, want = make(k)
    if want is None:
      try:
        c.encode(inst)
      except (ValueError, TypeError, KeyError):
        env.check(True, 'ill-shaped or missing values are refused')
      else:
        env.check(False, 'ill-shaped or missing values are refused',
                  Lazy(inst))
      continue
    done.append((c.encode(inst), want))
  for enc, want in done:
    got = stored(env, enc)
    env.check(set(got) == set(want), 'features stored', Lazy(
        sorted(got), sorted(want)))
    for key, (dtype, vals) in want.items():
      matches(env, got, key, dtype, vals, expect)
    p = parsed(env, enc, schema_utils.schema_as_feature_spec(
        schema(spec)).feature_spec)
    if p is not None:
      env.check(True, 'parses with the derived feature spec')
      compare_parsed(env, p, spec, want)


def compare_parsed(env, p, spec, want):
  for name, s in spec.items():
    t = p[name]
    if isinstance(s, tf.io.FixedLenFeature):
      exp = want[name][1]
      got = np.asarray(t).reshape(-1).tolist()
    elif isinstance(s, tf.io.VarLenFeature):
      exp = want[name][1]
      got = t.values.numpy().tolist()
    elif isinstance(s, tf.io.SparseFeature):
      exp = want[s.value_key][1]
      got = t.values.numpy().tolist()
    else:
      exp = want[s.value_key][1]
      got = t.flat_values.numpy().reshape(-1).tolist()
    env.check(len(got) == len(exp), 'parsed number of values', Lazy(got, exp))
    if not isinstance(s, tf.io.SparseFeature):
      for a, b in zip(got, exp):
        env.eq(a, b, 'parsed value', tol=1e-6)


DTYPES = (tf.int64, tf.float32, tf.string)


@CHECK.case('fixed', shards=3, budget=20, bounds='scalar, [1], [2] and [2,2] '
            'columns of one type; scalars given plainly or as 0-d arrays')
def fixed(env):
  dt = DTYPES[env.shard]
  spec = {'a': tf.io.FixedLenFeature([], dt), 'b': tf.io.FixedLenFeature([2], dt),
          'c': tf.io.FixedLenFeature([2, 2], dt)}

  def make(k):
    v = lambda n: value(env, f'{n}{k}', dt)
    a, b, c = v('a'), [v('b0'), v('b1')], [v(f'c{i}') for i in range(4)]
    bad = env.choose(5, f'bad{k}') if k < 2 else 0
    inst = {'a': P.arr([a], NP[dt]).reshape(()) if dt != tf.string and env.choose(
        2, f'zero{k}') else a,
            'b': as_form(env, b, dt, f'b{k}'), 'c': [c[:2], c[2:]]}
    if bad == 1:
      inst['b'] = b[:1]
    elif bad == 2:
      inst['c'] = [c[:2]]
    elif bad == 3:
      del inst['b']
    elif bad == 4:
      inst['b'] = b + [v('b2')]
    if bad:
      return inst, None
    return inst, {'a': (dt, [a]), 'b': (dt, b), 'c': (dt, c)}
  run(env, spec, make, 'fixed-length column', 3)


@CHECK.case('varlen', shards=3, budget=20, bounds='two variable-length columns '
            'of 0-2 values or missing; three instances')
def varlen(env):
  dt = DTYPES[env.shard]
  spec = {'a': tf.io.VarLenFeature(dt), 'b': tf.io.VarLenFeature(dt)}

  def make(k):
    inst, want = {}, {}
    for n in 'ab':
      m = env.choose(4, f'{n}{k}_n') if n == 'a' else env.choose(2, f'{n}{k}_n')
      if m == 3:
        inst[n], want[n] = None, (dt, [])
        continue
      v = [value(env, f'{n}{k}.{i}', dt) for i in range(m)]
      inst[n] = as_form(env, v, dt, f'{n}{k}') if v else v
      want[n] = (dt, v)
    return inst, want
  run(env, spec, make, 'variable-length column', 3)


@CHECK.case('sparse', shards=2, budget=20, bounds='one- and two-dimensional '
            'sparse columns of 0-3 entries; two instances')
def sparse(env):
  two = env.shard == 1
  dt = DTYPES[env.choose(3, 'dtype')]
  idx = ['i0', 'i1'] if two else ['i0']
  spec = {'s': tf.io.SparseFeature(idx if two else 'i0', 'v', dt,
                                   [4, 4] if two else 4)}

  def make(k):
    m = env.choose(4 if k == 0 else 3, f'n{k}')
    inst, want = {}, {}
    prev = None
    for d in idx:
      x = env.ints(f'{d}{k}.', m, 0, 3)
      for i in range(1, m):
        if d == 'i0':
          env.assume(x[i] > x[i - 1] if env.concrete else x[i] > x[i - 1])
      inst[d], want[d] = as_form(env, x, tf.int64, f'{d}{k}') if x else x, (
          tf.int64, x)
    v = [value(env, f'v{k}.{i}', dt) for i in range(m)]
    inst['v'], want['v'] = as_form(env, v, dt, f'v{k}') if v else v, (dt, v)
    return inst, want
  run(env, spec, make, 'sparse column')


@CHECK.case('ragged', shards=2, budget=20, bounds='ragged columns of rank 1 '
            'and 2 (ragged rows, or rows of uniform length 2); two instances')
def ragged(env):
  uniform = env.shard == 1
  dt = DTYPES[env.choose(3, 'dtype')]
  parts = [tf.io.RaggedFeature.RowLengths('rl')]
  if uniform:
    parts.append(tf.io.RaggedFeature.UniformRowLength(2))
  spec = {'r': tf.io.RaggedFeature(dt, value_key='v', partitions=parts,
                                   row_splits_dtype=tf.int64)}

  def make(k):
    lens = [env.choose(3, f'l{k}.{i}') for i in range(env.choose(3, f'n{k}'))]
    m = sum(lens) * (2 if uniform else 1)
    v = [value(env, f'v{k}.{i}', dt) for i in range(m)]
    return ({'rl': list(lens), 'v': as_form(env, v, dt, f'v{k}') if v else v},
            {'rl': (tf.int64, lens), 'v': (dt, v)})
  run(env, spec, make, 'ragged column')
