"""CSV-encoded rows parse back to the same values."""
import csv
import pickle

import numpy as np
import tensorflow as tf
from tensorflow_transform.coders import csv_coder
from tensorflow_transform.tf_metadata import schema_utils

from sx import core, markers, pipeline as P, symtext
from sx.checklib import Check, Lazy

CHECK = Check(
    'A17',
    bounds=['texts of 0-3 characters over all code points below U+D800, 0-2 '
            'values per multi-valued field, 2-4 columns, five delimiters'],
    assumptions=['the standard csv writer follows its documentation (modelled, '
                 'compared with the real one on every concrete replay)'],
    excluded=['digits of numbers: Python renders a number so that it parses '
              'back to itself'])

DELIMS = (',', '|', '\t', ' ', ';')


def coder(env, *args, **kw):
  if not env.concrete:
    csv_coder.csv = symtext.CsvShim()
  else:
    csv_coder.csv = csv
  return csv_coder.CsvCoder(*args, **kw)


def schema(spec):
  with core.paused():
    return schema_utils.schema_from_feature_spec(spec)


def fields(env, line, delim):
  """The fields of one line: strings, or code lists."""
  t = line.decode('utf-8') if isinstance(line, bytes) else line
  if env.concrete:
    rows = list(csv.reader([t], delimiter=delim))
  else:
    rows = symtext.parse_csv(t, delim) if len(t) else [[]]
  env.check(len(rows) == 1, 'one row per instance', Lazy(t))
  return rows[0]


def as_text(env, field):
  if env.concrete:
    return field
  return ''.join(chr(c) if isinstance(c, int) else symtext.carrier(c)
                 for c in field)


def eq_text(env, field, value, label):
  if env.concrete:
    env.check(field == value, label, Lazy(field, value))
  else:
    env.check(symtext.same(field, symtext.codes(value)), label, Lazy(field))


def eq_number(env, field, value, label):
  t = as_text(env, field)
  if env.concrete:
    got = float(t)
    env.check(got == value or got != got and value != value, label,
              Lazy(t, value))
    return
  got = markers.decode_scalar(t)
  if isinstance(got, str):
    try:
      got = float(got)
    except ValueError:
      env.check(False, label, Lazy(t, value))
      return
  env.check(core.same(got, value), label, Lazy(got, value))


def raw(env, t):
  """As the coder receives it: UTF-8 bytes, or str."""
  return t.encode('utf-8') if env.choose(2, 'bytes') else t


def refused(env, f, label):
  try:
    f()
  except (ValueError, TypeError):
    env.check(True, label)
    return
  env.check(False, label)


@CHECK.case('text', shards=5, budget=20, bounds='two or three text columns in '
            'any order, every delimiter; 0-3 characters each')
def text(env):
  delim = DELIMS[env.shard]
  n = 1 + env.choose(2, 'columns')
  names = ['b', 'a', 'c'][:n]
  spec = {k: tf.io.FixedLenFeature([], tf.string) for k in names}
  order = [sorted(names)[i] for i in env.perm(n)]
  c = coder(env, order, schema(spec), delimiter=delim)
  vals = {k: symtext.text(env, k, 3 if n == 1 else 2) for k in names}
  line = c.encode({k: raw(env, v) for k, v in vals.items()})
  env.check(isinstance(line, bytes), 'encoded line is bytes')
  row = fields(env, line, delim)
  env.check(len(row) == n, 'one field per column', Lazy(row))
  for k, f in zip(order, row):
    eq_text(env, f, vals[k], 'text field')


@CHECK.case('multivalent', shards=6, budget=20, bounds='multi-valued text '
            'columns of 0-2 values of 0-2 characters, secondary delimiter '
            'different from or equal to the delimiter, next to a text column')
def multivalent(env):
  delim, sec = ((',', '|'), (',', ','), ('|', ';'))[env.shard % 3]
  fixed = env.shard >= 3
  spec = {'m': tf.io.FixedLenFeature([2], tf.string) if fixed else
               tf.io.VarLenFeature(tf.string),
          't': tf.io.FixedLenFeature([], tf.string)}
  order = [['m', 't'], ['t', 'm']][env.choose(2, 'order')]
  c = coder(env, order, schema(spec), delimiter=delim, secondary_delimiter=sec,
            multivalent_columns=['m'])
  n = 2 if fixed else env.choose(3, 'n')
  vals = [symtext.text(env, f'v{i}', 2 if n == 1 else 1) for i in range(n)]
  t = symtext.text(env, 't', 1)
  line = c.encode({'m': [raw(env, v) for v in vals], 't': raw(env, t)})
  row = fields(env, line, delim)
  env.check(len(row) == 2, 'one field per column', Lazy(row))
  eq_text(env, row[order.index('t')], t, 'text field')
  inner = fields(env, as_text(env, row[order.index('m')]), sec)
  env.check(len(inner) == n, 'every value of the multi-valued column',
            Lazy(inner, n))
  for f, v in zip(inner, vals):
    eq_text(env, f, v, 'value of the multi-valued column')


@CHECK.case('optional', bounds='variable-length columns without a secondary '
            'delimiter: no value, one value, two values; two instances')
def optional(env):
  spec = {'s': tf.io.VarLenFeature(tf.string),
          'n': tf.io.VarLenFeature(tf.int64),
          'z': tf.io.FixedLenFeature([], tf.int64)}
  c = coder(env, ['z', 's', 'n'], schema(spec))
  for k in range(2):
    ns, nn = env.choose(3, f'ns{k}'), env.choose(3, f'nn{k}')
    s = [symtext.text(env, f's{k}.{i}', 1) for i in range(ns)]
    n = env.ints(f'n{k}.', nn, -5, 5)
    z = env.int(f'z{k}', -5, 5)
    if n and env.choose(2, f'array{k}'):
      n = P.arr(n, np.int64)
    inst = {'s': [raw(env, v) for v in s], 'n': n, 'z': z}
    if not ns and env.choose(2, f'none{k}'):
      inst['s'] = None
    if ns == 2 or nn == 2:
      refused(env, lambda: c.encode(inst),
              'more values than the column can hold are refused')
      continue
    row = fields(env, c.encode(inst), ',')
    env.check(len(row) == 3, 'one field per column', Lazy(row))
    eq_number(env, row[0], z, 'number')
    if ns:
      eq_text(env, row[1], s[0], 'single optional value')
    else:
      env.check(len(row[1]) == 0, 'missing value is an empty field')
    if nn:
      eq_number(env, row[2], n[0], 'single optional value')
    else:
      env.check(len(row[2]) == 0, 'missing value is an empty field')


@CHECK.case('numbers', shards=3, budget=20, bounds='int and float scalars, [1], '
            '[2,2] and variable-length columns; nan and infinities; a pickled '
            'copy of the coder')
def numbers(env):
  spec = {'i': tf.io.FixedLenFeature([], tf.int64),
          'f': tf.io.FixedLenFeature([], tf.float32),
          'one': tf.io.FixedLenFeature([1], tf.float32),
          'sq': tf.io.FixedLenFeature([2, 2], tf.float32),
          'v': tf.io.VarLenFeature(tf.float32)}
  order = [['i', 'f', 'one', 'sq', 'v'], ['v', 'sq', 'one', 'f', 'i'],
           ['f', 'v', 'i', 'sq', 'one']][env.shard]
  c = coder(env, order, schema(spec), secondary_delimiter='|',
            multivalent_columns=['sq', 'v'])
  if env.choose(2, 'copy'):
    with core.paused():
      c = pickle.loads(pickle.dumps(c))
  for k in range(2):
    i = env.int(f'i{k}', -10**6, 10**6)
    f = env.float_(f'f{k}', specials=(float('nan'), float('inf')))
    one, sq = env.real(f'one{k}'), env.reals(f'sq{k}.', 4)
    v = env.reals(f'v{k}.', env.choose(3, f'n{k}'))
    if env.concrete:
      one, sq, v = [np.float32(x) for x in (one,)][0], [
          float(np.float32(x)) for x in sq], v
    row = fields(env, c.encode({
        'i': i, 'f': f, 'one': [one], 'sq': [sq[:2], sq[2:]], 'v': v}), ',')
    env.check(len(row) == 5, 'one field per column', Lazy(row))
    got = dict(zip(order, row))
    eq_number(env, got['i'], i, 'int')
    eq_number(env, got['f'], f, 'float')
    eq_number(env, got['one'], one, 'size-one vector')
    for name, want in (('sq', sq), ('v', v)):
      inner = fields(env, as_text(env, got[name]), '|')
      env.check(len(inner) == len(want), f'every value of {name}', Lazy(inner))
      for a, b in zip(inner, want):
        eq_number(env, a, b, f'value of {name}')


@CHECK.case('sparse', shards=2, bounds='one- and two-dimensional sparse columns '
            'of 0-2 entries, multivalent')
def sparse(env):
  two = env.shard == 1
  idx = ['i0', 'i1'] if two else ['i0']
  spec = {'y': tf.io.SparseFeature(idx if two else 'i0', 'val', tf.float32,
                                   [4, 4] if two else 4),
          't': tf.io.FixedLenFeature([], tf.string)}
  cols = [['t', 'val'] + idx, idx + ['val', 't']][env.choose(2, 'order')]
  c = coder(env, cols, schema(spec), secondary_delimiter='|',
            multivalent_columns=['y'])
  n = env.choose(3, 'n')
  data = {k: env.ints(k, n, 0, 3) for k in idx}
  data['val'] = env.reals('val', n)
  t = symtext.text(env, 't', 1)
  row = fields(env, c.encode(dict(data, t=raw(env, t))), ',')
  env.check(len(row) == len(cols), 'one field per column', Lazy(row))
  got = dict(zip(cols, row))
  eq_text(env, got['t'], t, 'text field')
  for k, want in data.items():
    inner = fields(env, as_text(env, got[k]), '|')
    env.check(len(inner) == n, 'every sparse entry', Lazy(inner))
    for a, b in zip(inner, want):
      eq_number(env, a, b, 'sparse entry')


@CHECK.case('refusals', bounds='fixed-length columns given 0-4 values for a '
            'shape of 1, 2 or 2x2; with and without secondary delimiter')
def refusals(env):
  shape, multi = (([1], 0), ([2], 1), ([2, 2], 1), ([2], 0), ([2, 2], 0))[
      env.choose(5, 'shape')]
  size = int(np.prod(shape))
  n = env.choose(5, 'n')
  if len(shape) == 2 and n % 2:
    n = 4
  spec = {'x': tf.io.FixedLenFeature(shape, tf.int64),
          't': tf.io.FixedLenFeature([], tf.string)}
  c = coder(env, ['t', 'x'], schema(spec), secondary_delimiter='|',
            multivalent_columns=['x'] if multi else None)
  v = env.ints('v', n, -5, 5)
  x = [v[:n // 2], v[n // 2:]] if len(shape) == 2 else v
  t = symtext.text(env, 't', 1)
  inst = {'x': x, 't': raw(env, t)}
  if n != size or size > 1 and not multi:
    refused(env, lambda: c.encode(inst),
            'a number of values that the field cannot hold is refused')
  else:
    row = fields(env, c.encode(inst), ',')
    eq_text(env, row[0], t, 'text field')
    inner = fields(env, as_text(env, row[1]), '|')
    for a, b in zip(inner, v):
      eq_number(env, a, b, 'value')
  # the coder stays usable
  t2 = symtext.text(env, 'u', 1)
  w = env.ints('w', size, -5, 5)
  if multi or size == 1:
    row = fields(env, c.encode({'t': raw(env, t2), 'x': [w[:2], w[2:]] if
                                len(shape) == 2 else w}), ',')
    env.check(len(row) == 2, 'fields of the next instance')
    eq_text(env, row[0], t2, 'text of the next instance')
