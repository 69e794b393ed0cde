"""Schema and feature spec conversions are mutually inverse."""
import tensorflow as tf
from tensorflow_metadata.proto.v0 import path_pb2, schema_pb2
from tensorflow_transform.tf_metadata import schema_utils
from tfx_bsl.tfxio import tensor_representation_util

from sx import core, symproto
from sx.checklib import Check, Lazy

CHECK = Check(
    'A19',
    bounds=['feature specs of up to three features of every kind: ranks 0-3, '
            'one or two sparse indices, 0-2 ragged partitions; sizes any int in '
            '[1, 2^40] or unknown, integer domains any 64-bit bounds, float '
            'domains any reals; every listing order'],
    assumptions=['protocol buffers store and return scalars unchanged '
                 '(lib/sx/symproto.py; the real ones run in every replay)'],
    excluded=['the legacy schema form, which this distribution refuses',
              'rounding of float domain bounds to float32',
              'row_splits_dtype other than int64'])

DTYPES = (tf.int64, tf.float32, tf.string)


def protos(env):
  """schema_pb2 and path_pb2 as the code under test sees them."""
  mods = (schema_pb2, path_pb2)
  if not env.concrete:
    mods = tuple(symproto.module(m) for m in mods)
  for m in (schema_utils, tensor_representation_util):
    m.schema_pb2, m.path_pb2 = mods
  return mods[0]


def size(env, name, unknown=True):
  k = env.choose(3 if unknown else 1, name + '_unknown')
  return [lambda: env.int(name, 1, 2**40), lambda: None, lambda: -1][k]()


def domain(env, pb, name, dtype):
  """A domain fitting the type, or None."""
  if dtype == tf.int64:
    k = env.choose(4, name + '_domain')
    if k == 0:
      return None
    kw = {}
    if k in (1, 2):
      kw['min'] = env.int(name + '_min', -2**63, 2**63 - 1)
    if k in (1, 3):
      kw['max'] = env.int(name + '_max', -2**63, 2**63 - 1)
    if k == 2:
      kw['is_categorical'] = True
    return pb.IntDomain(**kw)
  if dtype == tf.float32:
    k = env.choose(3, name + '_domain')
    if k == 0:
      return None
    kw = {'min': env.real(name + '_min')}
    if k == 1:
      kw['max'] = env.real(name + '_max')
    return pb.FloatDomain(**kw)
  k = env.choose(3, name + '_domain')
  if k == 0:
    return None
  return pb.StringDomain(name='d' + name if k == 1 else None,
                         value=['b', 'é', ''][:k])


def feature(env, pb, kind, name, dtype):
  """(spec, normal form, domain)."""
  d = domain(env, pb, name, dtype)
  if kind == 'fixed':
    shape = [env.int(f'{name}_s{j}', 0, 2**40)
             for j in range(env.choose(4, name + '_rank'))]
    form = env.choose(2, name + '_tuple')
    return (tf.io.FixedLenFeature(tuple(shape) if form else shape, dtype),
            ('fixed', dtype, shape), d)
  if kind == 'varlen':
    return tf.io.VarLenFeature(dtype), ('varlen', dtype), d
  if kind == 'sparse':
    k = env.choose(3, name + '_indices')
    srt = bool(env.choose(2, name + '_sorted'))
    if k == 0:
      n = env.int(name + '_n', 1, 2**40)
      return (tf.io.SparseFeature(name + '_i', name + '_v', dtype, n, srt),
              ('sparse', dtype, [name + '_i'], name + '_v', [n], srt), d)
    keys = [f'{name}_{j}' for j in ('z', 'a')[:k]]
    sizes = [size(env, f'{name}_n{j}') for j in range(k)]
    return (tf.io.SparseFeature(list(keys), name + '_v', dtype, list(sizes),
                                srt),
            ('sparse', dtype, keys, name + '_v',
             [-1 if s is None else s for s in sizes], srt), d)
  key = name + '_v' if env.choose(2, name + '_own_key') else None
  parts, want = [], []
  for j in range(env.choose(3, name + '_partitions')):
    if env.choose(2, f'{name}_uniform{j}'):
      n = env.int(f'{name}_u{j}', 1, 2**31 - 1)
      parts.append(tf.io.RaggedFeature.UniformRowLength(n))
      want.append(('uniform', n))
    else:
      parts.append(tf.io.RaggedFeature.RowLengths(f'{name}_l{j}'))
      want.append(('lengths', f'{name}_l{j}'))
  return (tf.io.RaggedFeature(dtype, value_key=key, partitions=parts,
                              row_splits_dtype=tf.int64),
          ('ragged', dtype, key or name, want), d)


def normal(s):
  if isinstance(s, tf.io.FixedLenFeature):
    if s.default_value is not None:
      return ('fixed', s.dtype, list(s.shape), s.default_value)
    return 'fixed', s.dtype, list(s.shape)
  if isinstance(s, tf.io.VarLenFeature):
    return 'varlen', s.dtype
  if isinstance(s, tf.io.SparseFeature):
    keys = s.index_key if isinstance(s.index_key, list) else [s.index_key]
    sizes = s.size if isinstance(s.size, (list, tuple)) else [s.size]
    return 'sparse', s.dtype, keys, s.value_key, list(sizes), bool(
        s.already_sorted)
  if isinstance(s, tf.io.RaggedFeature):
    parts = []
    for p in s.partitions:
      if isinstance(p, tf.io.RaggedFeature.UniformRowLength):
        parts.append(('uniform', p.length))
      else:
        parts.append(('lengths', p.key))
    return 'ragged', s.dtype, s.value_key, parts
  return type(s), s


def equal(a, b):
  """Condition that two normal forms agree."""
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) != len(b):
      return False
    r = True
    for x, y in zip(a, b):
      c = equal(x, y)
      if c is False:
        return False
      r = r & c
    return r
  if isinstance(a, core.Sym) or isinstance(b, core.Sym):
    return a == b
  return bool(a == b)


def same_proto(env, a, b):
  if isinstance(a, symproto.Message):
    return symproto.same(a, b)
  if a is None or b is None:
    return a is b
  return a == b


def proto_map(ms):
  return {m.name: m for m in ms}


def same_schema(env, a, b, label, ordered):
  """Equal, up to the order of listing unless ordered."""
  if ordered:
    env.check(same_proto(env, a, b), label, Lazy(a, b))
    return
  for f in ('feature', 'sparse_feature'):
    x, y = proto_map(getattr(a, f)), proto_map(getattr(b, f))
    env.check(set(x) == set(y) and len(getattr(a, f)) == len(getattr(b, f)),
              label + ': ' + f, Lazy(a, b))
    for n in x:
      if n in y:
        env.check(same_proto(env, x[n], y[n]), label, Lazy(x[n], y[n]))
  x, y = a.tensor_representation_group, b.tensor_representation_group
  env.check(set(x) == set(y), label + ': representations', Lazy(x, y))
  for g in x:
    if g in y:
      env.check(same_proto(env, x[g], y[g]), label, Lazy(x[g], y[g]))


def same_specs(env, got, want, label):
  env.check(sorted(got) == sorted(want), label + ': names',
            Lazy(sorted(got), sorted(want)))
  for n in want:
    if n in got:
      env.check(equal(normal(got[n]), want[n]), label, Lazy(got[n], want[n]))


def same_domains(env, got, want, label):
  env.check(sorted(got) == sorted(want), label + ': names',
            Lazy(sorted(got), sorted(want)))
  for n in want:
    if n in got:
      env.check(same_proto(env, got[n], want[n]), label, Lazy(got[n], want[n]))


def round_trip(env, names, kinds, dtypes=DTYPES):
  pb = protos(env)
  specs, want, doms = {}, {}, {}
  for name, kind in zip(names, kinds):
    dtype = dtypes[env.choose(len(dtypes), name + '_dtype')]
    specs[name], want[name], d = feature(env, pb, kind, name, dtype)
    if d is not None:
      doms[name] = d
  args = (specs, doms) if doms or env.choose(2, 'domains_given') else (specs,)
  schema = schema_utils.schema_from_feature_spec(*args)
  back = schema_utils.schema_as_feature_spec(schema)
  same_specs(env, back.feature_spec, want, 'same feature spec')
  same_domains(env, back.domains, doms, 'same domains')
  # The specs as returned mean the same schema.
  again = schema_utils.schema_from_feature_spec(
      back.feature_spec, back.domains)
  same_schema(env, again, schema, 'same schema from the returned spec', False)
  if len(names) > 1:
    p = env.perm(len(names))
    order = [names[j] for j in p]
    other = schema_utils.schema_from_feature_spec(
        {n: specs[n] for n in order},
        {n: doms[n] for n in reversed(order) if n in doms})
    same_schema(env, other, schema, 'listing order changes nothing', False)
  # A schema listing its features in another order means the same spec.
  turned = pb.Schema()
  turned.CopyFrom(schema)
  for f in ('feature', 'sparse_feature'):
    items = list(getattr(schema, f))
    turned.ClearField(f)
    getattr(turned, f).extend(items[::-1])
  back = schema_utils.schema_as_feature_spec(turned)
  same_specs(env, back.feature_spec, want, 'feature order in the schema')
  same_domains(env, back.domains, doms, 'domains, feature order in the schema')


KINDS = ('fixed', 'varlen', 'sparse', 'ragged')

for _k in KINDS:

  def _one(env, kind=_k):
    round_trip(env, ['b'], [kind])

  CHECK.case('one_' + _k, budget=12, shards=2, bounds='one feature')(_one)


@CHECK.case('two', budget=25, shards=4, bounds='two features of any kinds')
def two(env):
  names = (('b', 'a'), ('a', 'a b'), ('é', 'Z'))[env.choose(3, 'names')]
  round_trip(env, list(names), [KINDS[env.choose(4, 'k0')],
                                KINDS[env.choose(4, 'k1')]])


@CHECK.case('three', budget=20, shards=3, bounds='three features of any kinds')
def three(env):
  round_trip(env, ['b', 'c', 'a'], [KINDS[env.choose(4, f'k{j}')]
                                    for j in range(3)])


@CHECK.case('shared_domain', budget=8, bounds='schemas whose features refer to '
            'string domains by name')
def shared(env):
  pb = protos(env)
  schema = pb.Schema()
  want, doms = {}, {}
  given = env.choose(3, 'declared')
  for j in range(given):
    schema.string_domain.add(name=f'd{j}', value=['x', f'y{j}'])
  for n in ('p', 'q'):
    f = schema.feature.add(name=n, type=pb.BYTES)
    if env.choose(2, n + '_fixed'):
      f.presence.min_fraction = 1.0
      k = env.int(n + '_dim', 0, 2**40)
      f.shape.dim.add(size=k)
      want[n] = ('fixed', tf.string, [k])
    else:
      want[n] = ('varlen', tf.string)
    r = env.choose(3, n + '_ref')
    if r:
      f.domain = f'd{r - 1}'
      if r - 1 < given:
        doms[n] = schema.string_domain[r - 1]
  back = schema_utils.schema_as_feature_spec(schema)
  same_specs(env, back.feature_spec, want, 'feature spec')
  same_domains(env, back.domains, doms, 'shared domains')


@CHECK.case('refusals', budget=8, bounds='types, defaults, domains and '
            'partitions a schema cannot express')
def refusals(env):
  pb = protos(env)
  k = env.choose(6, 'what')
  doms = {}
  shape = [env.int('dim', 0, 2**40)]
  if k == 0:
    dt = (tf.float64, tf.int32, tf.bool, tf.uint8)[env.choose(4, 'dt')]
    kind = env.choose(3, 'kind')
    spec = (tf.io.FixedLenFeature(shape, dt), tf.io.VarLenFeature(dt),
            tf.io.SparseFeature('i', 'v', dt, shape[0]))[kind]
  elif k == 1:
    spec = tf.io.FixedLenFeature(
        shape, tf.int64, env.int('default', -2**40, 2**40))
  elif k == 2:
    spec = tf.io.FixedLenFeature([], tf.string, ('', 'x')[env.choose(2, 'd')])
  elif k == 3:
    spec = tf.io.VarLenFeature(tf.int64)
    doms = {'f': (pb.BoolDomain(), 'abc', 3)[env.choose(3, 'dom')]}
  elif k == 4:
    spec = tf.io.RaggedFeature(tf.int64, value_key='v', partitions=[
        (tf.io.RaggedFeature.RowSplits('s'), tf.io.RaggedFeature.RowStarts('s'),
         tf.io.RaggedFeature.ValueRowIds('s'))[env.choose(3, 'part')]])
  else:
    spec = (tf.io.FixedLenSequenceFeature(shape, tf.int64, True),
            tf.TensorSpec([None], tf.int64))[env.choose(2, 'kind')]
  try:
    got = schema_utils.schema_from_feature_spec({'f': spec}, doms)
  except (ValueError, TypeError):
    env.check(True, 'refused')
  else:
    env.check(False, 'refused', Lazy(spec, got))
