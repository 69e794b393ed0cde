"""Vocabulary accessors report the vocabulary actually stored."""
import json
import os
import shutil

import tensorflow as tf
import tensorflow_transform as tft

from sx import core, markers, pipeline as P, spec
from sx.checklib import Check, Lazy

CHECK = Check(
    'A29',
    bounds=['one or two vocabularies of up to three symbolic tokens, names with '
            'and without special characters, text and gzipped records, with and '
            'without frequencies, reserved tokens, cut-offs'],
    excluded=['names that the documented replacement of special characters '
              'makes equal'])

NAMES = ('my_vocab', 'a/b c', 'é-x', 'v.1', '-a  b', '*[x]?')


def dec(x):
  x = bytes(x)
  return markers.decode_string(x) if core.active() and core.has_placeholder(
      x) else x


def stored_lines(root, asset):
  """What the vocabulary asset holds, read independently."""
  path = os.path.join(root, 'transform_fn', 'assets', asset)
  if asset.endswith('.gz'):
    opts = tf.io.TFRecordOptions(compression_type='GZIP')
    with core.paused():
      raw = list(tf.compat.v1.io.tf_record_iterator(path, opts))
    return [dec(r) for r in raw]
  with open(path, 'rb') as f:
    data = f.read()
  return [dec(l) for l in data.split(b'\n')[:-1]]


def same_list(env, got, want, label):
  env.check(len(got) == len(want), label + ': number', Lazy(got, want))
  for g, w in zip(got, want):
    env.check(g == w, label, Lazy(got, want))


def accessors(env, root, name, asset, want, label):
  o = tft.TFTransformOutput(root)
  order = env.choose(2, 'order')
  if order:
    env.check(int(o.vocabulary_size_by_name(name)) == len(want),
              label + ': size', Lazy(want))
  f = o.vocabulary_file_by_name(name)
  env.check(f is not None and os.path.abspath(f) == os.path.abspath(os.path.join(
      root, 'transform_fn', 'assets', asset)), label + ': file', Lazy(f, asset))
  same_list(env, [dec(t) for t in o.vocabulary_by_name(name)], want,
            label + ': entries')
  env.check(int(o.vocabulary_size_by_name(name)) == len(want),
            label + ': size', Lazy(want))


def unknown(env, root, name):
  o = tft.TFTransformOutput(root)
  env.check(o.vocabulary_file_by_name(name) is None, 'unknown: file')
  for f in (o.vocabulary_by_name, o.vocabulary_size_by_name):
    try:
      r = f(name)
    except ValueError:
      env.check(True, 'unknown names are refused')
    else:
      env.check(False, 'unknown names are refused', Lazy(name, r))


def asset_of(name, fmt):
  import re
  n = re.sub(r'[-\s]+', '-', re.sub(r'[^\w\s-]', '_', name).strip())
  return n + ('.tfrecord.gz' if fmt == 'tfrecord_gzip' else '')


# -- written by a pipeline -------------------------------------------------------

S = [P.Col('x', 'dense', 's'), P.Col('y', 'varlen', 's')]


def pipeline_case(label, opts, v1=True, shards=2, n=3, quick=True):
  """opts: [(column, name, keyword arguments)]."""

  def fn(i):
    out = {}
    for c, name, kw in opts:
      out['i' + c] = tft.compute_and_apply_vocabulary(
          i[c], vocab_filename=name, **kw)
    return out

  @CHECK.case(label, shards=shards, budget=20, quick=quick, bounds=f'{n} rows '
              f'analysed and published; {opts}')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, S, v1=v1, transform=False,
                                      publish=True))
    rows = []
    for j in range(n):
      k = env.choose(3, f'len{j}') if j < 2 else 0
      rows.append({'x': env.toks(f'x{j}_', 1), 'y': env.toks(f'y{j}_', k)})
    run = b.run(spec.batches(env, S, rows), env.sched())
    root = b.published(run)
    model = core_path(run.get(b.tfn[0])[0])
    for c, name, kw in opts:
      asset = asset_of(name, kw.get('file_format', 'text'))
      want = stored_lines(root, asset)
      # the published asset is the one the analysis wrote
      made = P.vocab_file(b, run, asset)
      same_list(env, want, made, name + ': published')
      accessors(env, root, name, asset, want, name)
      toks = [t for r in rows for t in r[c]]
      distinct = []
      for t in toks:
        if not any(bool(t == d) for d in distinct):
          distinct.append(t)
      plain = not (set(kw) - {'file_format', 'num_oov_buckets'})
      if plain and distinct:
        got = [dec(t) for t in tft.TFTransformOutput(root).vocabulary_by_name(
            name)]
        env.check(len(got) == len(distinct), name + ': every token once',
                  Lazy(got, distinct))
        for d in distinct:
          env.check(core.bor(*[g == d for g in got]) if got else False,
                    name + ': every token is listed', Lazy(got, d))
      # the TF2 tables of an earlier path may still be alive
      oov = kw.get('num_oov_buckets') if v1 or env.concrete else None
      if oov:
        nb = tft.TFTransformOutput(root).num_buckets_for_transformed_feature(
            'i' + c)
        nb = markers.decode(int(nb - 1)) + 1
        env.check(nb == len(want) + oov, name + ': buckets', Lazy(nb, want, oov))
    unknown(env, root, 'other')
    unknown(env, root, 'my_voca')


def core_path(m):
  return tf.compat.as_str(m if isinstance(m, (bytes, str)) else str(m))


pipeline_case('text', [('x', 'my_vocab', {'num_oov_buckets': 2})])
pipeline_case('text_v2', [('y', 'my_vocab', {'num_oov_buckets': 1})], v1=False)
pipeline_case('names', [('x', 'a/b c', {}), ('y', 'a.b-x', {})])
pipeline_case('parts', [('x', 'v', {}), ('y', 'a/v', {})], shards=1)
pipeline_case('parts_v2', [('x', 'a/v', {}), ('y', 'v', {})], v1=False,
              shards=1)
pipeline_case('formats', [('x', 'v.1', {'file_format': 'tfrecord_gzip'}),
                          ('y', 'v', {})])
pipeline_case('formats_v2', [('x', 'v.1', {}),
                             ('y', 'v', {'file_format': 'tfrecord_gzip'})],
              v1=False)
pipeline_case('cut_offs', [('x', 'my_vocab', {'top_k': 1}), (
    'y', 'my_vocab_2', {'frequency_threshold': 2})])
pipeline_case('reserved', [('x', 'my_vocab', {'reserved_tokens': ['[a]', 'b']}),
                           ('y', 'w', {'store_frequency': True})])
pipeline_case('records_frequency', [
    ('x', 'my_vocab', {'store_frequency': True,
                       'file_format': 'tfrecord_gzip'})], quick=False)


def alias_case(label, v1, **kw):

  def fn(i):
    out = {'ix': tft.compute_and_apply_vocabulary(i['x'], vocab_filename='v x'),
           'iy': tft.compute_and_apply_vocabulary(
               i['y'], vocab_filename='w', file_format='tfrecord_gzip')}
    tft.annotate_asset('alias', 'v-x')
    tft.annotate_asset('twice', 'v-x')
    tft.annotate_asset('twice', 'w.tfrecord.gz')
    tft.annotate_asset('gone', 'no such file')
    return out

  @CHECK.case(label, bounds='2 rows; annotated assets: another name, a name '
              'annotated twice, a file that is not there', **kw)
  def run(env):
    b = env.once('p', lambda: P.Built(fn, S, v1=v1, transform=False,
                                      publish=True))
    rows = [{'x': env.toks(f'x{j}_', 1), 'y': env.toks(f'y{j}_', 1)}
            for j in range(2)]
    run = b.run(spec.batches(env, S, rows), env.sched())
    root = b.published(run)
    name, asset = (('alias', 'v-x'), ('twice', 'w.tfrecord.gz'), ('v x', 'v-x'),
                   ('w', 'w.tfrecord.gz'))[env.choose(4, 'name')]
    accessors(env, root, name, asset, stored_lines(root, asset), name)
    unknown(env, root, 'gone')


alias_case('aliases', True, shards=1, budget=10)
alias_case('aliases_v2', False, shards=1, budget=10)


# -- any transform output directory ------------------------------------------------


@CHECK.case('directory', shards=3, budget=20, bounds='hand-written outputs: one '
            'or two vocabularies of 0-3 entries, with or without an asset map '
            'and declared sizes')
def directory(env):
  with P.Scratch() as s:
    root = s.dir
    assets = os.path.join(root, 'transform_fn', 'assets')
    os.makedirs(assets)
    md = os.path.join(root, 'transformed_metadata')
    names = [NAMES[env.choose(len(NAMES), 'name')]]
    if env.choose(2, 'two'):
      names.append(names[0] + '_2')
    with_map = bool(env.choose(2, 'map'))
    with_schema = bool(env.choose(2, 'schema'))
    mapping, want = {}, {}
    for j, name in enumerate(names):
      fmt = ('text', 'tfrecord_gzip')[env.choose(2, f'fmt{j}')]
      asset = asset_of(name, fmt)
      toks = env.toks(f't{j}_', env.choose(4, f'n{j}'))
      freq = env.choose(2, f'freq{j}')
      lines = [P.join([str(7 - i), b' ', t]) if freq else t
               for i, t in enumerate(toks)]
      raw = [core_bytes(l) for l in lines]
      path = os.path.join(assets, asset)
      if fmt == 'text':
        with open(path, 'wb') as f:
          f.write(b''.join(l + b'\n' for l in raw))
      else:
        with core.paused(), tf.io.TFRecordWriter(
            path, tf.io.TFRecordOptions(compression_type='GZIP')) as w:
          for l in raw:
            w.write(l)
      if with_map:
        mapping[name] = asset
      want[name] = (asset, lines)
    if with_map or with_schema:
      os.makedirs(md)
    if with_map:
      with open(os.path.join(md, 'asset_map'), 'w') as f:
        json.dump(mapping, f)
    if with_schema:
      from tensorflow_metadata.proto.v0 import schema_pb2
      from tensorflow_transform.tf_metadata import dataset_metadata, metadata_io
      schema = schema_pb2.Schema()
      metadata_io.write_metadata(dataset_metadata.DatasetMetadata(schema), md)
    for name, (asset, lines) in want.items():
      accessors(env, root, name, asset, lines, 'directory')
    unknown(env, root, 'absent')


def core_bytes(x):
  x = markers.encode(x) if isinstance(x, core.Sym) or not isinstance(
      x, bytes) else x
  return x if isinstance(x, bytes) else bytes(x)
