"""A published transform output is complete and consistent."""
import os
import shutil
import tempfile

import apache_beam as beam
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow.python.lib.io import file_io
from tensorflow_metadata.proto.v0 import schema_pb2
from tensorflow_transform.beam.tft_beam_io import beam_metadata_io
from tensorflow_transform.beam.tft_beam_io import transform_fn_io
from tensorflow_transform.tf_metadata import dataset_metadata

from sx import core, minibeam, pipeline as P
from sx.checklib import Check, Lazy

CHECK = Check(
    'A26',
    bounds=['a crash at any file system step (every single file written, '
            'copied, renamed or deleted is a step), up to two crashes, then '
            'retries; nothing, an old output or left-over files before'],
    assumptions=['renaming and deleting one file or renaming one directory is '
                 'atomic (local file system semantics)'])


class Crash(Exception):
  """The process is lost at this point."""


class Disk:
  """The file system calls of TensorFlow, counted, failing where told."""

  def __init__(self, real, hit):
    self.__dict__.update(_real=real, _hit=hit)

  def __getattr__(self, name):
    return getattr(self._real, name)

  def RenameFile(self, src, dst, overwrite=False):
    self._hit('rename')
    self._real.RenameFile(src, dst, overwrite)
    self._hit('renamed')

  def DeleteFile(self, path):
    self._hit('delete')
    self._real.DeleteFile(path)

  def DeleteRecursively(self, path):
    p = tf.compat.as_str(path)
    if os.path.isdir(p):
      for d, dirs, files in os.walk(p, topdown=False):
        for f in sorted(files):
          self._hit('delete one of several')
          os.remove(os.path.join(d, f))
    self._hit('delete directories')
    self._real.DeleteRecursively(path)

  def CopyFile(self, src, dst, overwrite=False):
    self._hit('copy')
    self._real.CopyFile(src, dst, overwrite)

  def CreateDir(self, path):
    self._hit('mkdir')
    self._real.CreateDir(path)

  def RecursivelyCreateDir(self, path):
    self._hit('makedirs')
    self._real.RecursivelyCreateDir(path)

  def WritableFile(self, *a):
    self._hit('write')
    f = self._real.WritableFile(*a)
    return f


class Disks:
  """Installs a Disk while the pipeline runs."""

  def __init__(self, hit):
    self.hit = hit

  def __enter__(self):
    self.old = file_io._pywrap_file_io
    file_io._pywrap_file_io = Disk(self.old, self.hit)

  def __exit__(self, *a):
    file_io._pywrap_file_io = self.old


class Publishing:
  """A constructed publication; runs many times."""

  def __init__(self, assets):
    self.dir = tempfile.mkdtemp(prefix='sx_')
    self.root = os.path.join(self.dir, 'a', 'out')
    self.model = os.path.join(self.dir, 'model')
    self.p = beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
        pipeline_type_check=False))
    with core.paused():
      md = beam_metadata_io.BeamDatasetMetadata(
          dataset_metadata.DatasetMetadata(schema_pb2.Schema()),
          P.source(self.p, 'md'), assets)
      self.out = ((P.source(self.p, 'model'), md)
                  | transform_fn_io.WriteTransformFn(self.root))

  def close(self):
    shutil.rmtree(self.dir, ignore_errors=True)


FILES = ('saved_model.pb', 'assets/voc', 'variables/v')
KEY = 'voc'


def put(base, files, content):
  for f in files:
    p = os.path.join(base, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as h:
      h.write(content)


def metadata(version):
  s = schema_pb2.Schema()
  s.feature.add(name=version)
  return dataset_metadata.DatasetMetadata(s)


def read(path):
  try:
    with open(path) as f:
      return f.read()
  except OSError:
    return None


def graph_version(root):
  """Version of the transform graph and whether all of it is there."""
  vs = [read(os.path.join(root, 'transform_fn', f)) for f in FILES]
  return vs[0], len(set(vs)) == 1 and vs[0] is not None


def md_version(root):
  o = tft.TFTransformOutput(root)
  try:
    s = o.transformed_metadata.schema
  except (OSError, tf.errors.OpError):
    return None
  return s.feature[0].name if s.feature else ''


def complete(env, pub, assets, label):
  root = pub.root
  g, whole = graph_version(root)
  env.check(g == 'new' and whole, label + ': transform graph', Lazy(g, whole))
  env.check(md_version(root) == 'new', label + ': metadata')
  found = sorted(os.listdir(os.path.join(root, 'transform_fn'))
                 ) if os.path.isdir(os.path.join(root, 'transform_fn')) else []
  env.check(found == sorted({f.split('/')[0] for f in FILES}),
            label + ': exactly the new graph files', Lazy(found))
  o = tft.TFTransformOutput(root)
  f = o.vocabulary_file_by_name(KEY if not assets else 'key')
  env.check(f == os.path.join(root, 'transform_fn', 'assets', 'voc'),
            label + ': assets', Lazy(f))
  left = sorted(os.listdir(root)) if os.path.isdir(root) else []
  env.check(left == ['transform_fn', 'transformed_metadata'],
            label + ': nothing else is left', Lazy(left))


def consistent(env, pub):
  """Whatever can be loaded now is one version."""
  g, whole = graph_version(pub.root)
  m = md_version(pub.root)
  if g is None or m is None:
    env.check(True, 'after a crash: no loadable output')
    return
  env.check(g == m, 'after a crash: metadata and graph of one version',
            Lazy(g, whole, m))


def start(env, pub, assets):
  shutil.rmtree(os.path.join(pub.dir, 'a'), ignore_errors=True)
  shutil.rmtree(pub.model, ignore_errors=True)
  put(pub.model, FILES + ('.tft_metadata/x',), 'new')
  before = env.choose(4, 'before')
  if before in (1, 3):
    put(os.path.join(pub.root, 'transform_fn'), FILES + ('assets/old',), 'old')
    from tensorflow_transform.tf_metadata import metadata_io
    metadata_io.write_metadata(metadata('old'), os.path.join(
        pub.root, 'transformed_metadata'))
    if assets:
      put(os.path.join(pub.root, 'transformed_metadata'), ['asset_map'],
          '{"key": "old"}')
  if before in (2, 3):
    put(os.path.join(pub.root, 'transform_tmp', 'left'), ('f', 'g/h'), 'x')
  P.DATA['md'] = [metadata('new')]
  P.DATA['model'] = [pub.model]
  return before


def case(name, crashes, assets, shards, budget):
  @CHECK.case(name, shards=shards, budget=budget,
              bounds=f'{crashes} crashes' + (', asset map' if assets else ''))
  def run(env):
    pub = env.once('p', lambda: Publishing(assets))
    start(env, pub, assets)
    step = [0]
    at = []
    if crashes:
      at.append(env.int('crash', 0, 80))
    if crashes > 1:
      d = env.int('gap', 1, 60)
      at.append(at[0] + d)

    def hit(what):
      k = step[0]
      step[0] += 1
      if at and bool(at[0] == k):
        at.pop(0)
        raise Crash(what)

    sched = env.sched(1)
    r = minibeam.Run(sched)
    for attempt in range(crashes + 1):
      whole = attempt and env.choose(2, f'restart{attempt}')
      if whole:      # a new run of the whole pipeline instead of a retried step
        r = minibeam.Run(sched)
      try:
        with Disks(hit):
          r.get(pub.out)
      except Crash as e:
        env.note = str(e)
        consistent(env, pub)
        continue
      except Exception as e:  # pylint: disable=broad-except
        env.check(False, 'a retried publish completes',
                  Lazy(attempt, type(e).__name__, str(e)[:200]))
        return
      break
    else:
      env.assume(False)
    env.assume(attempt == crashes and not at)
    complete(env, pub, assets, 'published' if not crashes else
             'published after a retry')


case('plain', 0, {}, 1, 6)
case('plain_assets', 0, {'key': 'voc'}, 1, 6)
case('crash', 1, {}, 3, 25)
case('crash_assets', 1, {'key': 'voc'}, 3, 25)
case('two_crashes', 2, {}, 4, 30)
