"""A vocabulary holds exactly the right tokens in the documented order."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, cell, eqb

CHECK = Check(
    'A05',
    bounds=['3-4 rows, at most 3 tokens per row'],
    excluded=['float rounding of weights', 'which of two integers of the same '
              'frequency comes first beyond their decimal string order'])

NAME = 'my_vocab'
DUMMY = {'s': b'49d0cd50-04bb-48c0-bc6f-5b575dce351a', 'i': b'-1'}


def text(t):
  """The string form of a token."""
  if isinstance(t, (bytes, str)) or not (
      isinstance(t, (int, np.integer)) or isinstance(t, core.SInt)):
    return t
  return P.join([t])


def order(entries):
  """Decreasing count, then reverse lexicographic (decided on this path)."""
  out = []
  for e in entries:
    i = 0
    while i < len(out):
      c, t = out[i]
      if bool(e[0] > c) or (bool(core.same(e[0], c)) and bool(e[1] > t)):
        break
      i += 1
    out.insert(i, e)
  return out


def expected(env, toks, weights=None, top_k=None, threshold=None, cov=None,
             reserved=(), kind='s'):
  """Expected [(count, token)] of the file."""
  w = weights if weights is not None else [1] * len(toks)
  ent = [(spec.total(ws), text(k)) for k, ws in spec.group(toks, w)]
  full = order(ent)
  keep = [e for e in full if threshold is None or bool(e[0] >= threshold)]
  if top_k is not None:
    keep = keep[:top_k]
  if cov:
    key_fn, ck, ct = cov
    seen = []
    for e in full:
      if ct is not None and not bool(e[0] >= ct):
        continue
      k = key_fn(e[1])
      n = len([s for s in seen if eqb(s, k)])
      seen.append(k)
      if ck is not None and n >= ck:
        continue
      if not any(eqb(e[1], o[1]) for o in keep):
        keep = keep + [e]
    keep = order(keep)
  res = [(-1, r) for r in reserved]
  keep = [e for e in keep if not any(eqb(e[1], r) for r in reserved)]
  out = res + keep
  return out or [(1, DUMMY[kind])]


def line(entry, store_frequency, approx=False):
  c, t = entry
  if approx and store_frequency and c != -1:
    c = float(c)
  return P.join([str(c) if not core.is_sym(c) else c, b' ', t]
                ) if store_frequency else t


def vocab_case(name, col, n, kw, quick=True, shards=5, lens=1, weights=False,
               reserved=(), universe=16, v1=True, wide=False, fmt='text',
               approx=False, budget=12, hi=20, empty_ok=False, size=True):
  cols = [col] + ([P.Col('w', 'dense', 'i' if weights == 'i' else 'f')]
                  if weights else [])

  def fn(i):
    k = dict(kw)
    if weights:
      k['weights'] = tf.cast(i['w'], tf.float32)
    if reserved:
      k['reserved_tokens'] = list(reserved)
    if approx:
      tft.experimental.approximate_vocabulary(
          i['x'], vocab_filename=NAME, file_format=fmt, **k)
      return {'n': spec.bc(tf.constant(0, tf.int64), i['x'])}
    tft.vocabulary(i['x'], vocab_filename=NAME, file_format=fmt, **k)
    return {'n': spec.bc(tft.experimental.get_vocabulary_size_by_name(NAME),
                         i['x'])}

  store = kw.get('store_frequency', False)

  @CHECK.case(name, shards=shards, quick=quick, budget=budget,
              bounds=f'{col.kind} {col.dt} column, {n} rows, options '
              f'{ {k: v for k, v in kw.items() if k != "key_fn"} }'
              + (f', reserved {list(reserved)}' if reserved else '')
              + (', weighted' if weights else '') + f', {fmt}')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, cols, v1=v1))
    rows, toks, ws = [], [], []
    for j in range(n):
      k = lens if col.kind == 'dense' else env.choose(lens + 1, f'len{j}')
      r = (env.toks(f'x{j}_', k, universe) if col.dt == 's' else
           env.ints(f'x{j}_', k, 0, hi))
      row = {'x': r}
      if weights:
        w = (env.int(f'w{j}', 1, 4) if weights == 'i' else
             env.real(f'w{j}', 0, 8))
        row['w'] = w
        ws += [w] * k
      rows.append(row)
      toks += r
    if not empty_ok:
      env.assume(bool(toks))
    run = b.run(spec.batches(env, cols, rows), env.sched())
    out = b.instances(run)
    fname = NAME + ('.tfrecord.gz' if fmt == 'tfrecord_gzip' else '')
    got = P.vocab_file(b, run, fname)
    key_fn = kw.get('key_fn')
    want = expected(
        env, toks, ws if weights else None, kw.get('top_k'),
        kw.get('frequency_threshold'),
        (key_fn, kw.get('coverage_top_k'),
         kw.get('coverage_frequency_threshold')) if key_fn else None,
        reserved, col.dt)
    env.check(len(got) == len(want), 'number of entries', Lazy(got, want))
    if kw.get('fingerprint_shuffle'):
      for w in want:
        hit = [g for g in got if eqb(g, line(w, store, approx))]
        env.check(len(hit) == 1, 'each token once', Lazy(w, got))
    else:
      for g, w in zip(got, want):
        env.eq(g, line(w, store, approx), 'entry', Lazy(got, want))
    if not approx:
      overlap = reserved and any(eqb(t, r) for t in toks for r in reserved)
      label = ('reported size (a reserved token occurs in the data)' if overlap
               else 'reported size (empty vocabulary with reserved tokens)'
               if reserved and not toks else 'reported size')
      for o in out:
        env.eq(cell(o['n']), len(want), label)


S1 = P.Col('x', 'dense', 's')
SV = P.Col('x', 'varlen', 's')
vocab_case('plain', S1, 3, {})
vocab_case('plain_v2', S1, 3, {}, v1=False, shards=3)
vocab_case('varlen', SV, 2, {}, lens=2)
vocab_case('ragged', P.Col('x', 'ragged', 's'), 2, {}, lens=2, shards=3,
           empty_ok=True)
vocab_case('top_k', S1, 4, {'top_k': 2})
vocab_case('top_k_frequency', S1, 3, {'top_k': 2, 'store_frequency': True})
vocab_case('top_1', SV, 2, {'top_k': 1}, lens=2, shards=3, empty_ok=True)
vocab_case('threshold', S1, 4, {'frequency_threshold': 2},
           empty_ok=True)
vocab_case('threshold_top_k', SV, 2,
           {'frequency_threshold': 2, 'top_k': 1, 'store_frequency': True},
           lens=3, quick=False)
vocab_case('frequency', S1, 3, {'store_frequency': True})
vocab_case('ints', P.Col('x', 'dense', 'i'), 3, {}, hi=120)
vocab_case('ints_top_k', P.Col('x', 'varlen', 'i'), 2, {'top_k': 2}, lens=2)
vocab_case('weighted', S1, 3, {}, weights='f')
vocab_case('weighted_top_k', S1, 3, {'top_k': 2}, weights='f')
vocab_case('weighted_threshold', S1, 3, {'frequency_threshold': 3},
           weights='f', shards=3)
vocab_case('reserved', SV, 2, {}, lens=2, reserved=('zz', 't003'),
           empty_ok=True, universe=6)
vocab_case('reserved_top_k', S1, 3, {'top_k': 2}, reserved=('b', 'a'),
           shards=3)
vocab_case('tfrecord', S1, 3, {'store_frequency': True}, fmt='tfrecord_gzip')
vocab_case('shuffle', S1, 3, {'fingerprint_shuffle': True, 'top_k': 2},
           shards=3, quick=False)
vocab_case('approx', S1, 3, {'top_k': 10}, approx=True)
vocab_case('approx_frequency', SV, 2, {'top_k': 10, 'store_frequency': True},
           approx=True, lens=2)
vocab_case('approx_weighted', S1, 3, {'top_k': 10}, approx=True, shards=3,
           weights='f')
vocab_case('approx_ints', P.Col('x', 'dense', 'i'), 2, {'top_k': 10},
           approx=True, shards=2, hi=15)
vocab_case('approx_reserved', S1, 3, {'top_k': 10}, approx=True, shards=3,
           reserved=('zz', 't003'), universe=6)


def parity(t):
  if isinstance(t, core.STok):
    import z3
    return 'even' if bool(core.mk_bool(t.z % 2 == 0)) else 'odd'
  return 'even' if int(t[-1:]) % 2 == 0 else 'odd'


vocab_case('coverage', S1, 4, {'top_k': 1, 'key_fn': parity,
                               'coverage_top_k': 1})
vocab_case('coverage_threshold', S1, 4,
           {'top_k': 1, 'key_fn': parity, 'coverage_frequency_threshold': 2},
           shards=3, quick=False)
vocab_case('coverage_frequency', S1, 4,
           {'frequency_threshold': 2, 'key_fn': parity, 'coverage_top_k': 1,
            'store_frequency': True}, shards=3)


@CHECK.case('invalid_tokens', shards=3,
            bounds='3 rows, tokens possibly empty or holding newlines')
def invalid(env):
  odd = ['', 'a\nb', '\r', 'a b', 'é']
  def fn(i):
    tft.vocabulary(i['x'], vocab_filename=NAME)
    tft.vocabulary(i['x'], vocab_filename='other', file_format='tfrecord_gzip')
    z = lambda n: spec.bc(tft.experimental.get_vocabulary_size_by_name(n),
                          i['x'])
    return {'n': z(NAME), 'm': z('other')}
  b = env.once('p', lambda: P.Built(fn, [S1]))
  toks = []
  for j in range(3):
    k = env.choose(len(odd) + 1, f'k{j}')
    toks.append(env.tok(f'x{j}', 16) if k == 0 else odd[k - 1].encode())
  run = b.run(spec.batches(env, [S1], [{'x': t} for t in toks]), env.sched())
  out = b.instances(run)
  ok = [t for t in toks if core.is_sym(t) or (
      t and b'\n' not in t and b'\r' not in t)]
  for name, vals, o in ((NAME, ok, 'n'), ('other.tfrecord.gz', toks, 'm')):
    want = expected(env, vals)
    got = P.vocab_file(b, run, name)
    env.check(len(got) == len(want), 'valid tokens: number', Lazy(got, want))
    for g, w in zip(got, want):
      env.eq(g, w[1], 'valid tokens: entry', Lazy(got, want))
    for r in out:
      env.eq(cell(r[o]), len(want), 'valid tokens: reported size')
