"""Splitting oversized output batches keeps every row once and in order."""
import contextlib

import numpy as np
import pyarrow as pa
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform.beam import impl

from sx import core, markers, pipeline as P, spec
from sx.checklib import Check, Lazy

CHECK = Check(
    'A31',
    bounds=['batches of at most 6 rows whose sizes are arbitrary between 0 and '
            '4000 bytes; a size limit between 1 and 4000 bytes (the limit of '
            '200 MB is scaled down)'])

LIMIT = '_MAX_TRANSFORMED_BATCH_BYTES_SIZE'
FN = '_maybe_slice_large_record_batch'


@contextlib.contextmanager
def limit(value):
  if not hasattr(impl, LIMIT):
    raise core.Unsupported('the size limit is not a module constant')
  old = getattr(impl, LIMIT)
  setattr(impl, LIMIT, value)
  try:
    yield
  finally:
    setattr(impl, LIMIT, old)


class Batch:
  """A record batch with symbolic row sizes (nbytes as Arrow counts them)."""

  def __init__(self, ids, sizes):
    self.ids, self.sizes = ids, sizes
    self.schema = None

  @property
  def num_rows(self):
    return len(self.ids)

  def __len__(self):
    return len(self.ids)

  @property
  def nbytes(self):
    n = 8 * len(self.ids)
    for s in self.sizes:
      n = n + s
    return n

  def slice(self, offset=0, length=None):
    end = len(self.ids) if length is None else offset + length
    return Batch(self.ids[offset:end], self.sizes[offset:end])


def real(sizes):
  return pa.RecordBatch.from_arrays(
      [pa.array([bytes([65 + i]) * s for i, s in enumerate(sizes)],
                pa.large_binary())], ['x'])


@CHECK.case('sizes', budget=30, shards=5, bounds='1-6 rows (0 rows included), '
            'symbolic sizes and limit')
def sizes(env):
  if not hasattr(impl, FN):
    raise core.Unsupported('slicing function')
  n = (0, 2, 3, 4, 5, 6, 1)[env.shard] if env.shard < 4 else (5, 6, 1)[
      env.choose(3, 'n')]
  s = env.ints('s', n, 0, 4000)
  lim = env.int('limit', 1, 4000)
  with limit(lim):
    if env.concrete:
      rb = real(s)
      if n and rb.nbytes != Batch(list(range(n)), s).nbytes:
        env.assume(False)
      out = list(getattr(impl, FN)(rb))
      ids = []
      pieces = []
      pos = 0
      for p in out:
        k = p.num_rows
        env.check(p.equals(rb.slice(pos, k)), 'rows are kept in order')
        ids += list(range(pos, pos + k))
        pieces.append((k, p.nbytes))
        pos += k
    else:
      out = list(getattr(impl, FN)(Batch(list(range(n)), s)))
      ids = [i for p in out for i in p.ids]
      pieces = [(p.num_rows, p.nbytes) for p in out]
  env.check(ids == list(range(n)), 'every row once and in order', Lazy(ids))
  for k, b in pieces:
    env.check(core.bor(k < 2, b <= lim), 'pieces respect the limit',
              Lazy(k, b))


def fn(i):
  # a per-row output and one of a different layout
  return {'y': i['x'], 'z': i['z'] + 1.0}


COLS = [P.Col('x', 'varlen', 's'), P.Col('z', 'dense', 'f')]


def pieces(b, run):
  """[(rows of the record batch as dicts, unary features)]."""
  out = []
  for rb, unary in run.get(b.out):
    d = {name: markers.decode(rb.column(k).to_pylist())
         for k, name in enumerate(rb.schema.names)}
    out.append((rb.num_rows, d, {
        k: markers.decode(v.to_pylist()) for k, v in unary.items()}))
  return out


def pipe(name, **kw):
  @CHECK.case(name, budget=25, shards=2, bounds='1-4 rows of 0-2 strings and a '
              'number, one batch, 6 limits')
  def run(env):
    rec = kw.get('record_batches')
    b = env.once('p', lambda: P.Built(fn, COLS, **kw))
    n = 1 + env.choose(4, 'n')
    rows = [{'x': env.toks(f'x{j}_', env.choose(3, f'len{j}')),
             'z': [env.real(f'z{j}', -100, 100)]} for j in range(n)]
    lim = (1, 40, 60, 90, 120, 10000)[env.choose(6, 'lim')]
    with limit(lim):
      run = b.run([P.record_batch(COLS, rows)], env.sched())
      if rec:
        got = []
        for k, d, _ in pieces(b, run):
          env.check(len(d['y']) == k and len(d['z']) == k, 'columns aligned')
          for y, z in zip(d['y'], d['z']):
            got.append((y or [], z[0]))
      else:
        got = [(spec.as_list(r['y']) if r['y'] is not None else [], r['z'])
               for r in b.instances(run)]
    env.check(len(got) == n, 'number of rows', Lazy(got))
    for r, (y, z) in zip(rows, got):
      env.check(len(y) == len(r['x']), 'values per row')
      for u, v in zip(r['x'], y):
        env.eq(v, u, 'strings of the row')
      env.eq(z, r['z'][0] + 1, 'number of the row')


pipe('record_batches', record_batches=True)
pipe('instances')
pipe('record_batches_v2', record_batches=True, v1=False)
