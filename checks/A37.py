"""An interrupted analysis never breaks or changes the ones after it."""
import glob
import os
import shutil
import tempfile

import apache_beam as beam
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform.beam import analyzer_cache as ac
from tensorflow_transform.beam import context as tft_context
from tensorflow_transform.beam import impl as beam_impl

from sx import core, markers, minibeam, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import bc, cell, eqb

CHECK = Check(
    'A37',
    bounds=['2-3 runs over one or two datasets of 1-2 rows and at most 3 cache '
            'entries; any run stops after any subset of its files, with 0-2 of '
            'two shards of a file in place; the cache manifest is damaged or '
            'gone, or not'],
    assumptions=['a file appears as a whole (file systems rename atomically); '
                 'the manifest is written when a pipeline is built'],
    excluded=['runs at the same time', 'custom sinks and sources'])


def pipe():
  return beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
      pipeline_type_check=False))


def write_empty(path):
  with tf.io.TFRecordWriter(path, tf.io.TFRecordOptions(
      compression_type='GZIP' if path.endswith('.gz') else '')):
    pass


def content(f):
  with open(f, 'rb') as h:
    return os.stat(f).st_mtime_ns, h.read()


def touched(before, root):
  """Files of the last run: new ones, and those it wrote again."""
  return {f for f, s in files(root).items() if before.get(f) != s}


def entry_files(root):
  return [f for f in files(root) if '-of-' in f and
          not os.path.basename(f).startswith('METADATA')]


def interrupt(env, before, root, tag, most=9):
  """Takes files of the last run away, as if it had stopped before its end.

  A file that was there before is put back. Returns {path prefix: state}; 2 is a
  file that is in place.
  """
  state = {}
  for j, f in enumerate(sorted(touched(before, root))):
    if '-of-' not in f:
      continue
    s = env.choose(4, f'{tag}_{j}') if j < most else 2
    prefix, suffix = f.split('-00000-of-00001')
    state[prefix] = s
    part = lambda k: f'{prefix}-0000{k}-of-00002{suffix}'
    if s == 0:
      os.remove(f)
    elif s == 1:
      # the shard with the records is not in place yet
      os.remove(f)
      write_empty(part(0))
    elif s == 3:
      # two shards, all in place
      os.rename(f, part(1))
      write_empty(part(0))
    if s != 2 and f in before:
      with open(f, 'wb') as h:
        h.write(before[f][1])
  return state


def lose_manifest(root, damage):
  for f in glob.glob(root + '/*/MANIFEST'):
    os.remove(f)
    if damage:
      with open(f, 'wb') as h:
        h.write(b'\x80')


def files(root):
  return {f: content(f) for f in glob.glob(root + '/*/*') if os.path.isfile(f)}


# -- the store ------------------------------------------------------------------------

KEYS = (b'k1', b'k2', b'k3')


def write(env, base, entries, meta):
  p = pipe()
  with core.paused():
    d = {}
    for k, es in entries.items():
      c = {}
      for e, recs in es.items():
        P.DATA['w', k.key, e] = recs
        c[e] = P.source(p, ('w', k.key, e), f'{k.key}{e}')
      d[k] = ac.DatasetCache(c, p | f'M{k.key}' >> beam.Create(
          [ac.DatasetCacheMetadata(meta)]))
  done = d | ac.WriteAnalysisCacheToFS(p, base)
  run = minibeam.Run()
  for r in done:
    run.get(r) if isinstance(r, beam.PCollection) else run.finish(r)


def read(base, keys):
  p = pipe()
  c = p | ac.ReadAnalysisCacheFromFS(base, keys)
  run = minibeam.Run()
  dec = lambda l: [markers.decode(x) if core.active() else x for x in l]
  return {k: {e: dec(run.get(x)) for e, x in v.cache_dict.items()}
          for k, v in c.items()}


def store_case(name, lost, **kw):
  @CHECK.case(name, **kw)
  def store(env):
    base = tempfile.mkdtemp(prefix='a37_')
    try:
      k = ac.DatasetKey('a')
      keys = KEYS[:2 if lost else 1 + env.choose(3, 'keys')]
      want, old = {}, {}
      for w in range(2 if lost else 2 + env.choose(2, 'more')):
        s = 2 - env.choose((1 << len(keys)) - 1, f'entries{w}') if w and lost else (
            1 + env.choose((1 << len(keys)) - 1, f'entries{w}'))
        s = s or 3
        es = {e: [env.tok(f'r{w}_{j}')] for j, e in enumerate(keys) if s >> j & 1}
        before = files(base)
        write(env, base, {k: es}, w)
        new = [f for f in entry_files(base) if f in touched(before, base)]
        state = interrupt(env, before, base, f'stop{w}')
        if not lost:
          env.check(len(new) == len(es), 'an entry is written to a file of its own',
                    Lazy(new))
        # entries are written in the order of the dictionary
        order = sorted((f.split('-00000-of')[0] for f in new), key=lambda f: int(
            os.path.basename(f)))
        for e in es:
          for r in want.pop(e, []):
            old.setdefault(e, []).append(r)
        for e, f in zip(es, order):
          if state.get(f, 2) >= 2:
            want[e] = es[e]
        # the manifest is replaced by removing it first
        damage = 1 if lost and not w else env.choose(3, f'damage{w}')
        if damage:
          lose_manifest(base, damage == 2)
          for e in want:
            old.setdefault(e, []).extend(want[e])
          want = {}
      got = read(base, [k]).get(k, {})
      env.check(set(want) <= set(got), 'complete entries are there',
                Lazy(sorted(got), sorted(want)))
      for e, recs in got.items():
        if e in want:
          env.check(len(recs) == 1 and bool(eqb(recs[0], want[e][0])),
                    'content of a complete entry', Lazy(e, recs, want[e]))
        else:
          env.check(len(recs) == 1 and any(bool(eqb(recs[0], r))
                                           for r in old.get(e, [])),
                    'an incomplete entry is left out', Lazy(e, recs, old))
    finally:
      shutil.rmtree(base, ignore_errors=True)


store_case('store', False, budget=20, shards=2, bounds='2-3 writes of 1-3 entries '
           'to one dataset; each stops anywhere; the manifest may be lost')
store_case('store_lost', True, budget=12, bounds='two writes of 1-2 entries, the '
           'manifest is lost after the first; each stops anywhere')


# -- whole analyses ------------------------------------------------------------------------

COLS = [P.Col('x', 'dense', 'f'), P.Col('k', 'dense', 's')]


def program(i):
  x, k = i['x'], i['k']
  return {'mean': bc(tft.mean(x), x), 'max': bc(tft.max(x), x),
          'id': tft.compute_and_apply_vocabulary(k),
          'dev': x - tft.mean(x * 2.0)}


def numbers(i):
  x = i['x']
  return {'mean': bc(tft.mean(x), x), 'max': bc(tft.max(x), x)}


def nested(i):
  x = i['x']
  return {'top': bc(tft.max(x - tft.mean(x)), x)}


def check_rows(env, rows, out, data, label):
  xs, ks = [r['x'] for r in data], [r['k'] for r in data]
  env.check(len(out) == len(rows), 'every row once ' + label)
  mean = spec.mean(xs)
  for r, o in zip(rows, out):
    if 'mean' in o:
      env.eq(cell(o['mean']), mean, 'mean ' + label)
      env.eq(cell(o['max']), spec.greatest(xs), 'maximum ' + label)
    if 'top' in o:
      env.eq(cell(o['top']), spec.greatest(xs) - mean, 'nested ' + label)
    if 'id' in o:
      env.eq(cell(o['dev']), r['x'] - 2 * mean, 'deviation ' + label)
      i = cell(o['id'])
      ahead = 0
      for c, n in spec.group(ks, ks):
        mine = sum(bool(eqb(k, r['k'])) for k in ks)
        ahead += len(n) > mine
      same = sum(len(n) == sum(bool(eqb(k, r['k'])) for k in ks)
                 for c, n in spec.group(ks, ks))
      env.check(ahead <= int(i) < ahead + same, 'index ' + label, Lazy(i))


def analyse(env, fn, base, names, data, rows, label, v1):
  """A run with the cache of `base`; returns the transformed rows."""
  keys = {n: ac.DatasetKey(n) for n in names}
  p = pipe()
  tmp = os.path.join(base, 'tmp')
  for n in names:
    P.DATA['a37', n] = [P.record_batch(COLS, data[n])]
  P.DATA['a37', 't'] = [P.record_batch(COLS, rows)]
  with core.paused(), tft_context.Context(temp_dir=tmp, force_tf_compat_v1=v1):
    cfg = P.adapter_config(COLS)
    given = p | ac.ReadAnalysisCacheFromFS(base, list(keys.values()))
    d = {k: P.source(p, ('a37', n), f'data_{n}') for n, k in keys.items()}
    tfn, cache = (d, given, cfg) | beam_impl.AnalyzeDatasetWithCache(
        fn, pipeline=p)
    out, _ = ((P.source(p, ('a37', 't'), 't'), cfg), tfn) | (
        beam_impl.TransformDataset())
    done = cache | ac.WriteAnalysisCacheToFS(p, base) if cache else []
  run = minibeam.Run(env.sched())
  for r in done:
    run.get(r) if isinstance(r, beam.PCollection) else run.finish(r)
  return [markers.decode(r) if core.active() else r for r in run.get(out)]


def history(name, fn, datasets, runs, v1=True, **kw):
  @CHECK.case(name, bounds=f'{runs} runs over datasets {datasets}; each but the '
              'last stops anywhere', **kw)
  def run(env):
    base = tempfile.mkdtemp(prefix='a37_')
    try:
      row = lambda t: {'x': env.real('x' + t, -50, 50),
                       'k': (b'red', b'green')[env.choose(2, 'k' + t)]}
      data = {n: [row(f'{n}{j}') for j in range(1 + (n == 'a'))]
              for n in datasets}
      for w in range(runs):
        last = w == runs - 1
        names = datasets if last or not env.choose(2, f'fewer{w}') else (
            datasets[:1])
        every = [r for n in names for r in data[n]]
        rows = data[datasets[0]][:1]
        before = files(base)
        out = analyse(env, fn, base, names, data, rows, w, v1)
        check_rows(env, rows, out, every, 'after an interrupted run' if w else (
            'of the first run'))
        if not last:
          interrupt(env, before, base, f'stop{w}', most=5)
          if env.choose(4, f'damage{w}') == 1:
            lose_manifest(base, False)
    finally:
      shutil.rmtree(base, ignore_errors=True)


history('numbers', numbers, ('a', 'b'), 2, budget=25, shards=2)
history('numbers_3', numbers, ('a', 'b'), 3, budget=25, shards=2)
history('nested', nested, ('a',), 2, budget=15)
history('program', program, ('a', 'b'), 2, budget=25, shards=2)
history('program_v2', program, ('a',), 2, v1=False, budget=20)
