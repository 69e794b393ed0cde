"""Metadata and asset maps written are the ones read back."""
import json
import os

import apache_beam as beam
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_metadata.proto.v0 import path_pb2, schema_pb2
from tensorflow_transform.beam.tft_beam_io import beam_metadata_io
from tensorflow_transform.tf_metadata import (dataset_metadata, metadata_io,
                                              schema_utils)

from sx import core, markers, minibeam, pipeline as P
from sx.checklib import Check, Lazy

CHECK = Check(
    'A22',
    bounds=['schemas of up to two features of any kind with symbolic sizes, '
            'bounds and counts; histories of up to three writes to one or two '
            'directories; asset maps of 0-2 entries'],
    assumptions=['the protocol buffer text format reproduces scalars (it runs '
                 'for real, on markers)'])

TEXTS = ('a', 'é "q"\n\\', '', '7')
BIG = (2**63 - 1, -2**63, 0, -1)


def integer(env, name):
  k = env.choose(3, name + '_kind')
  if k == 0:
    return markers.encode(env.int(name, -2**40, 2**40))
  return BIG[env.choose(len(BIG), name + '_big')] if k == 1 else None


def real(env, name):
  return markers.encode_scalar(env.real(name), 'float32')


def text(env, name):
  return TEXTS[env.choose(len(TEXTS), name)]


def feature(env, s, name, j):
  kind = env.choose(6, f'kind{j}')
  f = s.feature.add(name=name)
  if kind == 0:
    f.type = schema_pb2.INT
    lo, hi = integer(env, f'lo{j}'), integer(env, f'hi{j}')
    f.int_domain.SetInParent()
    if lo is not None:
      f.int_domain.min = lo
    if hi is not None:
      f.int_domain.max = hi
    if env.choose(2, f'cat{j}'):
      f.int_domain.is_categorical = True
  elif kind == 1:
    f.type = schema_pb2.FLOAT
    f.float_domain.min = real(env, f'fmin{j}')
    if env.choose(2, f'fm{j}'):
      f.float_domain.max = float('inf')
  elif kind == 2:
    f.type = schema_pb2.BYTES
    if env.choose(2, f'ref{j}'):
      s.string_domain.add(name='d', value=[text(env, f'v{j}')])
      f.domain = 'd'
    else:
      f.string_domain.value.extend(['x', text(env, f'v{j}')])
  elif kind == 3:
    f.type = schema_pb2.INT
    f.presence.min_fraction = 1.0
    for d in range(env.choose(3, f'rank{j}')):
      f.shape.dim.add(size=markers.encode(env.int(f'd{j}{d}', 0, 2**39)))
    f.shape.SetInParent()
  elif kind == 4:
    f.type = schema_pb2.INT
    f.int_domain.min = 0
    f.int_domain.max = markers.encode(env.int(f'i{j}', 0, 2**39))
    v = s.feature.add(name=name + '_v', type=schema_pb2.FLOAT)
    v.value_count.min = 1
    sf = s.sparse_feature.add(name=name + '_s', is_sorted=True)
    sf.index_feature.add(name=name)
    sf.value_feature.name = name + '_v'
  else:
    f.type = schema_pb2.FLOAT
    t = s.tensor_representation_group[''].tensor_representation[name + '_r']
    t.ragged_tensor.feature_path.CopyFrom(path_pb2.Path(step=[name]))
    t.ragged_tensor.partition.add(uniform_row_length=markers.encode(
        env.int(f'u{j}', 1, 2**20)))


def schema(env, tag, n=None):
  s = schema_pb2.Schema()
  for j in range(env.choose(3, tag + 'features') if n is None else n):
    feature(env, s, ('f', 'g h')[j], f'{tag}{j}')
  if env.choose(2, tag + 'doc'):
    s.feature.add(name='doc').annotation.tag.append(text(env, tag + 'tag'))
  return s


def same(env, got, want, label):
  """Field by field, markers taken back to their symbolic values."""
  env.check(got.DESCRIPTOR is want.DESCRIPTOR, label)
  a = {f.name: (f, v) for f, v in got.ListFields()}
  b = {f.name: (f, v) for f, v in want.ListFields()}
  env.check(sorted(a) == sorted(b), label + ': fields', Lazy(got, want))
  for n in b:
    if n not in a:
      continue
    f, v = b[n]
    w = a[n][1]
    if hasattr(v, 'items'):
      env.check(sorted(v) == sorted(w), label + ': keys', Lazy(got, want))
      vs = [(v[k], w[k]) for k in v if k in w]
    elif isinstance(v, (str, bytes)) or not hasattr(v, '__iter__'):
      vs = [(v, w)]
    else:
      env.check(len(v) == len(w), label + ': length', Lazy(got, want))
      vs = list(zip(v, w))
    for x, y in vs:
      if hasattr(x, 'ListFields'):
        same(env, y, x, label)
      else:
        x, y = back(x), back(y)
        if x == x or y == y:
          env.check(x == y, label, Lazy(got, want))


def back(x):
  if not core.active() or isinstance(x, (bool, str, bytes)):
    return x
  return markers.decode(x)


def specs_of(f):
  try:
    return None, f()
  except (ValueError, NotImplementedError) as e:
    return type(e), None


def same_specs(env, got, want, label):
  env.check(sorted(got) == sorted(want), label + ': features', Lazy(got, want))
  for name in got:
    if name not in want:
      continue
    a, b = got[name], want[name]
    if hasattr(b, 'DESCRIPTOR'):
      same(env, a, b, label)
      continue
    env.check(type(a) is type(b), label + ': kind', Lazy(a, b))
    for x, y in zip(a, b):
      if isinstance(y, (list, tuple)) and len(x) == len(y):
        for p, q in zip(x, y):
          env.check(back(p) == back(q), label, Lazy(name, a, b))
      else:
        env.check(back(x) == back(y), label, Lazy(name, a, b))


def pipe():
  return beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
      pipeline_type_check=False))


def beam_write(env, md, path, assets, deferred, unique):
  p = pipe()
  with core.paused():
    x = md
    if deferred or assets:
      x = beam_metadata_io.BeamDatasetMetadata(
          dataset_metadata.DatasetMetadata(schema_pb2.Schema()),
          P.source(p, 'md'), assets)
    out = (x | beam_metadata_io.WriteMetadata(path, p, unique))
  P.DATA['md'] = [md]
  r = minibeam.Run(env.sched(2)).get(out)
  env.check(len(r) == 1, 'one directory is written', Lazy(r))
  return r[0]


@CHECK.case('direct', shards=3, budget=20, bounds='one or two writes of a schema '
            'to one directory')
def direct(env):
  with P.Scratch() as s:
    path = os.path.join(s.dir, *(['new', 'dir'][:env.choose(3, 'depth')]))
    n = 1 + env.choose(2, 'writes')
    for k in range(n):
      want = schema(env, 's' if k == n - 1 else 'e', None if k == n - 1 else 1)
      kept = schema_pb2.Schema()
      kept.CopyFrom(want)
      metadata_io.write_metadata(dataset_metadata.DatasetMetadata(want), path)
      same(env, want, kept, 'writing leaves the schema alone')
    got = metadata_io.read_metadata(path)
    same(env, got.schema, want, 'schema')
    env.check((got == dataset_metadata.DatasetMetadata(want)) is True and
              not got != dataset_metadata.DatasetMetadata(want),
              'equal as metadata')


@CHECK.case('pipeline', shards=3, budget=20, bounds='metadata and asset maps '
            'written by a pipeline, twice, read through the transform output')
def pipeline(env):
  with P.Scratch() as s:
    base = os.path.join(s.dir, 'out')
    md_dir = os.path.join(base, 'transformed_metadata')
    raw_dir = os.path.join(base, 'metadata')
    assets_dir = os.path.join(base, 'transform_fn', 'assets')
    os.makedirs(assets_dir)
    files = ['file_a', 'file b', 'c']
    for f in files:
      open(os.path.join(assets_dir, f), 'w').close()
    n = 1 + env.choose(2, 'writes')
    unique = bool(env.choose(2, 'unique'))
    wrote = []
    for k in range(n):
      want = schema(env, f's{k}', 1)
      assets = {}
      for a in range(env.choose(3, f'assets{k}')):
        assets[('voc/ab', 'é')[a]] = files[(a + k) % 3]
      md = dataset_metadata.DatasetMetadata(want)
      where = beam_write(env, md, md_dir, assets, env.choose(2, 'deferred'),
                         unique)
      wrote.append((where, want, assets))
    for where, want, assets in wrote if unique else wrote[-1:]:
      same(env, metadata_io.read_metadata(where).schema, want, 'schema')
      path = os.path.join(where, 'asset_map')
      env.check(os.path.exists(path) == bool(assets), 'asset map written')
      if assets and os.path.exists(path):
        with open(path) as f:
          env.check(json.load(f) == assets, 'asset map', Lazy(assets))
    env.check(len({w for w, _, _ in wrote}) == (n if unique else 1),
              'unique directories are distinct', Lazy(wrote))
    if unique:
      return
    env.check(wrote[-1][0] == md_dir, 'written where asked')
    raw = schema(env, 'raw', 1)
    metadata_io.write_metadata(dataset_metadata.DatasetMetadata(raw), raw_dir)
    o = tft.TFTransformOutput(base)
    same(env, o.transformed_metadata.schema, wrote[-1][1], 'transformed schema')
    same(env, o.raw_metadata.schema, raw, 'raw schema')
    for which, has in (('transformed', wrote[-1][1]), ('raw', raw)):
      kind, want = specs_of(lambda: schema_utils.schema_as_feature_spec(has))
      for part in ('feature_spec', 'domains'):
        read = getattr(tft.TFTransformOutput(base), f'{which}_{part}')
        k, got = specs_of(read)
        env.check(k is kind, f'{which} {part} is given or refused', Lazy(k, kind))
        if kind is None and k is None:
          same_specs(env, got, getattr(want, part), f'{which} {part}')
    if not wrote[-1][2]:
      env.check(o.vocabulary_file_by_name('voc/ab') is None,
                'an earlier asset map is not used')
    for key, f in wrote[-1][2].items():
      got = o.vocabulary_file_by_name(key)
      env.check(got == os.path.join(assets_dir, f), 'asset found',
                Lazy(key, got, f))


@CHECK.case('legacy', shards=2, budget=15, bounds='legacy JSON schemas of up to '
            'two features')
def legacy(env):
  feats, want = [], {}
  for j in range(1 + env.choose(2, 'n')):
    name = f'f{j}'
    t = env.choose(3, f'type{j}')
    dom = {('ints', 'floats', 'strings')[t]: {}}
    want_d = None
    if t == 0:
      lo, hi = env.int(f'lo{j}', -2**39, 2**39), env.int(f'hi{j}', -2**39, 2**39)
      want_d = [None, None, False]
      form = env.choose(2, f'form{j}')
      for i, (k, v) in enumerate((('min', lo), ('max', hi))):
        if env.choose(2, f'has{k}{j}'):
          m = markers.encode(v)
          dom['ints'][k] = str(m) if form else m
          want_d[i] = v
      if env.choose(2, f'cat{j}'):
        dom['ints']['isCategorical'] = True
        want_d[2] = True
      env.assume(bool(dom['ints']))
    f = {'name': name, 'domain': dom}
    if env.choose(2, f'fixed{j}'):
      shape = [env.int(f'd{j}{i}', 0, 2**39)
               for i in range(env.choose(3, f'rank{j}'))]
      f['parsingOptions'] = {'tfOptions': {'fixedLenFeature': {}}}
      f['fixedShape'] = {'axis': [{'size': str(markers.encode(x))}
                                  for x in shape]} if shape else {}
    else:
      shape = None
      f['parsingOptions'] = {'tfOptions': {'varLenFeature': {}}}
    feats.append(f)
    want[name] = (t, shape, want_d)
  with P.Scratch() as s:
    os.makedirs(os.path.join(s.dir, 'v1-json'))
    with open(os.path.join(s.dir, 'v1-json', 'schema.json'), 'w') as f:
      json.dump({'feature': feats}, f)
    both = env.choose(2, 'both')
    if both:
      new = schema(env, 's', 1)
      metadata_io.write_metadata(dataset_metadata.DatasetMetadata(new), s.dir)
    got = metadata_io.read_metadata(s.dir).schema
    if both:
      same(env, got, new, 'new format wins')
      return
  env.check(sorted(f.name for f in got.feature) == sorted(want), 'names')
  for f in got.feature:
    t, shape, d = want[f.name]
    env.check(f.type == (schema_pb2.INT, schema_pb2.FLOAT, schema_pb2.BYTES)[t],
              'type')
    env.check(f.HasField('shape') == (shape is not None), 'fixed shape')
    if shape is not None:
      env.check(len(f.shape.dim) == len(shape), 'rank')
      for a, b in zip(f.shape.dim, shape):
        env.check(back(a.size) == b, 'size', Lazy(f, shape))
    env.check(f.HasField('int_domain') == (d is not None), 'domain')
    if d is not None and f.HasField('int_domain'):
      for k, v in (('min', d[0]), ('max', d[1])):
        env.check(f.int_domain.HasField(k) == (v is not None), 'bound set')
        if v is not None:
          env.check(back(getattr(f.int_domain, k)) == v, 'bound', Lazy(f, d))
      env.check(bool(f.int_domain.is_categorical) == d[2], 'categorical')


@CHECK.case('missing', budget=4, bounds='a directory without metadata')
def missing(env):
  with P.Scratch() as s:
    path = os.path.join(s.dir, 'x') if env.choose(2, 'absent') else s.dir
    try:
      metadata_io.read_metadata(path)
    except (OSError, tf.errors.OpError):
      env.check(True, 'missing metadata is refused')
    else:
      env.check(False, 'missing metadata is refused')
