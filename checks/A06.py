"""Integerization maps a token to its vocabulary index or to a default."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, eqb

CHECK = Check(
    'A06',
    bounds=['2-3 analysed rows and 1-2 rows to transform, at most 2 tokens '
            'per row'],
    excluded=['which of the out-of-vocabulary buckets a token is hashed to'])

NAME = 'my_vocab'
EMPTY = b'49d0cd50-04bb-48c0-bc6f-5b575dce351a'


def positions(v, label):
  """Values of an output cell (dense, varlen or ragged row)."""
  return as_list(v)


def case(name, col, n, kw, m=1, oov=0, default=-1, separate=False, lens=1,
         shards=4, quick=True, v1=True, fmt='text', universe=16, hi=20,
         lookup=False, approx=False, reserved=()):
  cols = [col]

  def fn(i):
    k = dict(kw)
    if reserved:
      k['reserved_tokens'] = list(reserved)
    x = i['x']
    if separate:
      f = tft.vocabulary(x, vocab_filename=NAME, file_format=fmt, **k)
      if lookup:
        def lk(t, path):
          init = tf.lookup.TextFileInitializer(
              path, tf.string, tf.lookup.TextFileIndex.WHOLE_LINE, tf.int64,
              tf.lookup.TextFileIndex.LINE_NUMBER)
          table = tf.lookup.StaticHashTable(init, default)
          return table.lookup(t), table.size()
        y = tft.apply_vocabulary(x, f, default_value=default, lookup_fn=lk)
      else:
        y = tft.apply_vocabulary(x, f, default_value=default,
                                 num_oov_buckets=oov, file_format=fmt)
    else:
      g = (tft.experimental.compute_and_apply_approximate_vocabulary if approx
           else tft.compute_and_apply_vocabulary)
      y = g(x, default_value=default, num_oov_buckets=oov,
            vocab_filename=NAME, file_format=fmt, **k)
    return {'y': y}

  @CHECK.case(name, shards=shards, quick=quick, budget=12,
              bounds=f'{col.kind} {col.dt} column, {n}+{m} rows, '
              f'{"vocabulary then apply_vocabulary" if separate else "compute_and_apply"}'
              f', options {kw}, oov buckets {oov}, default {default}, {fmt}')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1, two_data=True))

    def row(j):
      k = lens if col.kind == 'dense' else env.choose(lens + 1, f'len{j}')
      return {'x': env.toks(f'x{j}_', k, universe) if col.dt == 's' else
              env.ints(f'x{j}_', k, 0, hi)}
    rows = [row(j) for j in range(n)]
    trows = [row(f't{j}') for j in range(m)]
    env.assume(any(r['x'] for r in rows))
    run = b.run(spec.batches(env, cols, rows), env.sched(),
                tbatches=[P.record_batch(cols, trows)])
    out = b.instances(run)
    fname = NAME + ('.tfrecord.gz' if fmt == 'tfrecord_gzip' else '')
    vocab = P.vocab_file(b, run, fname)
    if kw.get('store_frequency'):
      vocab = [spec_token(v) for v in vocab]
    if col.dt == 'i':
      same = lambda t, v: eqb(P.join([t]), v)
    else:
      same = eqb
    dom = P.int_domain(P.schema_of(b, run), 'y')
    env.check(dom is not None, 'an integer domain is declared')
    size = len(vocab)
    if oov:
      env.check(dom[0] == 0 and dom[1] == size + oov - 1, 'domain', Lazy(dom))
    env.check(len(out) == len(trows), 'row count')
    for r, o in zip(trows, out):
      got = positions(o.get('y', o.get('y$ragged_values')), 'y')
      env.check(len(got) == len(r['x']), 'number of indices', Lazy(got))
      for t, g in zip(r['x'], got):
        hit = [i for i, v in enumerate(vocab) if same(t, v)]
        env.check(len(hit) <= 1, 'vocabulary entries are distinct')
        env.check((g >= dom[0]) & (g <= dom[1]) if core.is_sym(g) else
                  dom[0] <= g <= dom[1], 'index lies in the declared domain',
                  Lazy(g, dom))
        if hit:
          env.eq(g, hit[0], 'index of a vocabulary token', Lazy(g, vocab))
        elif oov:
          env.check((g >= size) & (g < size + oov) if core.is_sym(g) else
                    size <= g < size + oov, 'out-of-vocabulary bucket',
                    Lazy(g, size))
        else:
          env.eq(g, default, 'default for an unknown token')


def spec_token(line):
  """Token of a 'frequency token' line."""
  from sx import markers
  if isinstance(line, bytes):
    return line.split(b' ', 1)[1]
  u = list(line.units)
  i = next(j for j, x in enumerate(u) if x == ('c', 32))
  return markers.SStr.of_units(u[i + 1:])


S1 = P.Col('x', 'dense', 's')
case('dense', S1, 3, {})
case('varlen', P.Col('x', 'varlen', 's'), 2, {}, m=2, lens=2)
case('ragged', P.Col('x', 'ragged', 's'), 2, {}, m=1, lens=2, shards=3)
case('vector', P.Col('x', 'dense', 's', (2,)), 2, {}, lens=2, shards=3)
case('oov', S1, 2, {}, m=2, oov=1)
case('oov_top_k', S1, 3, {'top_k': 1}, oov=2)
case('top_k', S1, 3, {'top_k': 2}, default=7)
case('threshold', S1, 3, {'frequency_threshold': 2}, default=3)
case('default_inside', S1, 2, {}, default=0, shards=3)
case('separate', S1, 3, {}, separate=True)
case('separate_oov', P.Col('x', 'varlen', 's'), 2, {'top_k': 2}, lens=2,
     separate=True, oov=1)
case('separate_lookup', S1, 2, {}, separate=True, lookup=True, shards=3)
case('tfrecord', S1, 2, {}, fmt='tfrecord_gzip', shards=3)
case('tfrecord_frequency', S1, 2, {'store_frequency': True},
     fmt='tfrecord_gzip', shards=3)
case('frequency', S1, 3, {'store_frequency': True}, shards=3)
case('ints', P.Col('x', 'dense', 'i'), 2, {}, hi=9, shards=3)
case('ints_oov', P.Col('x', 'dense', 'i'), 2, {}, hi=9, oov=2, shards=3)
case('reserved', S1, 2, {}, reserved=('zz', 't003'), universe=6, oov=1,
     shards=3)
case('approx', S1, 2, {'top_k': 10}, approx=True, shards=3)
