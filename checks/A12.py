"""The cache store returns exactly what was last written."""
import os
import shutil
import tempfile

import apache_beam as beam
from tensorflow_transform.beam import analyzer_cache as ac

from sx import core, markers, minibeam, pipeline as P
from sx.checklib import Check, Lazy
from sx.spec import eqb

CHECK = Check(
    'A12',
    bounds=['histories of 2-3 writes to 2-4 datasets of 1-3 entries each, every '
            'choice of datasets and entries; entries hold 0-2 symbolic records'],
    excluded=['concurrent writers', 'dataset names that the documented '
              'replacement of special characters makes equal'])

KEYS = (b'k1', b'k2', b'\x00k/1 \xff')
NAMES = ('a', 'a-1', 'a/b', 'uncached_x')


def pipe():
  return beam.Pipeline(options=beam.options.pipeline_options.PipelineOptions(
      pipeline_type_check=False))


def write(env, base, entries, meta, all_keys=None):
  """entries: {DatasetKey: {entry key: [records]}}."""
  p = pipe()
  with core.paused():
    d = {}
    for k, es in entries.items():
      c = {}
      for e, recs in es.items():
        tag = ('w', k.key, e)
        P.DATA[tag] = recs
        c[e] = P.source(p, tag, f'{k.key}{e}')
      m = None
      if k in meta:
        m = p | f'M{k.key}' >> beam.Create([ac.DatasetCacheMetadata(meta[k])])
      d[k] = ac.DatasetCache(c, m)
  done = d | ac.WriteAnalysisCacheToFS(p, base, dataset_keys=all_keys)
  run = minibeam.Run(env.sched())
  for r in done:
    run.get(r) if isinstance(r, beam.PCollection) else run.finish(r)
  run_all(run, p)


def run_all(run, p):
  f = getattr(run, 'run_pipeline', None)
  if f:
    f(p)


def read(base, keys, only=None):
  p = pipe()
  c = p | ac.ReadAnalysisCacheFromFS(base, keys, cache_entry_keys=only)
  run = minibeam.Run()
  dec = lambda l: [markers.decode(x) if core.active() else x for x in l]
  return {k: ({e: dec(run.get(x)) for e, x in v.cache_dict.items()},
              run.get(v.metadata) if v.metadata is not None else [])
          for k, v in c.items()}


def compare(env, got, want, metas, keys, only=None):
  env.check(set(got) == {k for k in keys if k in want}, 'datasets read',
            Lazy(sorted(got), sorted(want)))
  for k, (es, m) in got.items():
    w = {e: r for e, r in want[k].items() if only is None or e in only}
    env.check(set(es) == set(w), 'entries of a dataset',
              Lazy(k, sorted(es), sorted(w)))
    for e, recs in es.items():
      want_r = list(w.get(e, []))
      env.check(len(recs) == len(want_r), 'records of an entry',
                Lazy(k, e, recs, want_r))
      for r in want_r:
        hit = [i for i, x in enumerate(recs) if eqb(x, r)]
        env.check(bool(hit), 'content of an entry', Lazy(k, e, recs, want_r))
        if hit:
          recs = recs[:hit[0]] + recs[hit[0] + 1:]
    if k in metas:
      env.check([x.dataset_size for x in m] == [metas[k]],
                'metadata of a dataset', Lazy(m, metas))
    else:
      env.check(not m, 'no metadata was written', Lazy(m))


def records(env, name):
  n = env.choose(3, name + '_n')
  return [env.tok(f'{name}_{j}') for j in range(n)]


def history(env, nwrites, names, keys, filtered):
  base = tempfile.mkdtemp(prefix='sx_')
  try:
    ds = [ac.DatasetKey(n) for n in names]
    want, metas = {}, {}
    for w in range(nwrites):
      m = 1 + env.choose((1 << len(ds)) - 1, f'datasets{w}')
      entries, meta = {}, {}
      for j, k in enumerate(ds):
        if not m >> j & 1:
          continue
        s = 1 + env.choose((1 << len(keys)) - 1, f'entries{w}_{j}')
        entries[k] = {e: [env.tok(f'r{w}_{j}_{i}_{x}') for x in range(
            (w + i) % 3 if filtered else 1)]
                      for i, e in enumerate(keys) if s >> i & 1}
        if w != 1:
          meta[k] = 10 * w + j
      write(env, base, entries, meta, ds if env.choose(2, f'all{w}') else None)
      for k, es in entries.items():
        want.setdefault(k, {}).update(es)
        if k in meta:
          metas[k] = meta[k]
    only = None
    if filtered:
      s = env.choose(1 << len(keys), 'filter')
      only = [e for i, e in enumerate(keys) if s >> i & 1]
    m = 1 + env.choose((1 << len(ds)) - 1, 'read')
    asked = [k for j, k in enumerate(ds) if m >> j & 1]
    compare(env, read(base, asked, only), want, metas, asked, only)
  finally:
    shutil.rmtree(base, ignore_errors=True)


@CHECK.case('two_writes', budget=30, shards=3, bounds='2 writes, 2 datasets, 2 '
            'entries, any datasets read')
def two_writes(env):
  history(env, 2, [('a', 'a-1'), ('a/b', 'a'), ('x', 'X')][env.shard], KEYS[:2],
          False)


@CHECK.case('three_writes', budget=30, shards=2, bounds='3 writes to one '
            'dataset, 2-3 entries with 0-2 records')
def three_writes(env):
  history(env, 3, ['a'], KEYS if env.shard else KEYS[:2], False)


@CHECK.case('filtered', budget=20, shards=2, bounds='2 writes, one dataset, '
            'entries with 0-2 records, read with a filter of entry keys')
def filtered(env):
  history(env, 2, ['a:=@[b]*'] if env.shard else ['ab'], KEYS, True)


@CHECK.case('arguments', budget=6, bounds='dataset keys of every kind')
def arguments(env):
  base = tempfile.mkdtemp(prefix='sx_')
  try:
    a, b = ac.DatasetKey('a'), ac.DatasetKey('b')
    sub = env.choose(2, 'sub')
    try:
      write(env, base, {a: {b'k': [b'x']}, b: {b'k': [b'y']}}, {},
            [a] if sub else [a, b])
      env.check(not sub, 'unlisted datasets are refused')
    except ValueError:
      env.check(bool(sub), 'listed datasets are accepted')
      return
    got = read(base, [a, b, ac.DatasetKey('c')])
    compare(env, got, {a: {b'k': [b'x']}, b: {b'k': [b'y']}}, {},
            [a, b, ac.DatasetKey('c')])
    try:
      read(base, ['a'])
      env.check(False, 'a plain string is not a dataset key')
    except ValueError:
      pass
  finally:
    shutil.rmtree(base, ignore_errors=True)
