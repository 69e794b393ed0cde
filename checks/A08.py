"""Bag-of-words, tf-idf, n-gram and sparse utilities compute their definition."""
import math

import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
import tensorflow_transform.experimental as tftx

from sx import core, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, cell, div

CHECK = Check(
    'A08',
    bounds=['2-3 rows of at most 3 tokens / values, vocabularies of at most 3 '
            'terms'],
    assumptions=['the natural logarithm is uninterpreted'],
    excluded=['hash_strings', 'empty-string tokens'])

SS = tf.SparseTensorSpec([None, None], tf.string)
SI = tf.SparseTensorSpec([None, None], tf.int64)
RS = tf.RaggedTensorSpec([None, None], tf.string, 1, tf.int64)


def token_rows(env, n=2, m=3, gaps=False):
  """Rows of up to m tokens; with gaps the used columns are arbitrary."""
  rows = []
  for j in range(n):
    if gaps:
      mask = env.choose(2 ** m, f'mask{j}')
      cols = [c for c in range(m) if mask >> c & 1]
    else:
      cols = list(range(env.choose(m + 1, f'n{j}')))
    rows.append(list(zip(cols, env.toks(f't{j}_', len(cols), 6))))
  return rows


def grams(tokens, lo, hi, sep):
  out = []
  for i in range(len(tokens)):
    for k in range(lo, hi + 1):
      if i + k <= len(tokens):
        out.append(P.join(tokens[i:i + k], sep))
  return out


def unique(values):
  out = []
  for v in values:
    if not any(spec.eqb(v, o) for o in out):
      out.append(v)
  return out


def check_rows(env, got, want, label):
  env.check(len(got) == len(want), label + ' rows', Lazy(got, want))
  for g, w in zip(got, want):
    env.check([i for i, _ in g] == [(k,) for k in range(len(w))],
              label + ' layout', Lazy(g, w))
    for (_, a), b in zip(g, w):
      env.eq(a, b, label)


def gram_case(lo, hi, sep, quick=True):
  @CHECK.case(f'grams_{lo}_{hi}', shards=2, budget=10, quick=quick,
              bounds='ngrams and bag of words of 2 rows of 0-3 tokens in '
              'arbitrary columns')
  def run(env):
    g = env.once('g', lambda: P.GraphFn(
        lambda i: {'n': tft.ngrams(i['x'], (lo, hi), sep),
                   'b': tft.bag_of_words(i['x'], (lo, hi), sep),
                   'w': tft.word_count(i['x'])}, {'x': SS}))
    rows = token_rows(env, gaps=True)
    o = g(x=P.cells(rows, object, 3))
    want = [grams([v for _, v in r], lo, hi, sep.encode()) for r in rows]
    check_rows(env, P.rows_of(o['n']), want, 'n-grams')
    check_rows(env, P.rows_of(o['b']), [unique(w) for w in want],
               'bag of words')
    for r, w in zip(rows, as_list(o['w'])):
      env.eq(w, len(r), 'word count')


gram_case(1, 2, ' ')
gram_case(2, 3, '_')
gram_case(1, 1, '', quick=False)


@CHECK.case('dedup', shards=2, budget=10,
            bounds='sparse, ragged-free and dense rows of up to 3 tokens, 2 '
            'rows')
def dedup(env):
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {'s': tft.deduplicate_tensor_per_row(i['x']),
                 'd': tft.deduplicate_tensor_per_row(i['d']),
                 'u': tft.deduplicate_tensor_per_row(i['u'])},
      {'x': SS, 'd': tf.TensorSpec([None, 3], tf.int64),
       'u': tf.TensorSpec([None], tf.string)}))
  rows = token_rows(env, gaps=True)
  ds = [env.ints(f'd{j}_', 3, 0, 5) for j in range(2)]
  us = env.toks('u', 2)
  o = g(x=P.cells(rows, object, 3), d=ds, u=us)
  check_rows(env, P.rows_of(o['s']), [unique([v for _, v in r]) for r in rows],
             'deduplicated sparse row')
  check_rows(env, P.rows_of(o['d']), [unique(r) for r in ds],
             'deduplicated dense row')
  check_rows(env, P.rows_of(o['u']), [[u] for u in us], 'univalent row')


@CHECK.case('word_count', budget=8,
            bounds='rank-3 sparse and ragged columns, 3 rows')
def word_count(env):
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {'s': tft.word_count(i['x']), 'r': tft.word_count(i['r'])},
      {'x': tf.SparseTensorSpec([None, None, None], tf.string), 'r': RS}))
  rows = []
  for j in range(3):
    mask = env.choose(8, f'mask{j}')
    rows.append([((c // 2, c % 2), t) for c, t in
                 zip(range(3), env.toks(f't{j}_', 3)) if mask >> c & 1])
  rag = [[t for _, t in r] for r in rows]
  o = g(x=P.cells(rows, object, (2, 2)), r=P.ragged(rag, object))
  for r, a, b in zip(rows, as_list(o['s']), as_list(o['r'])):
    env.eq(a, len(r), 'word count of a sparse row')
    env.eq(b, len(r), 'word count of a ragged row')


@CHECK.case('segments', budget=6, bounds='up to 5 ids of 3 segments, '
            'segments without members included')
def segments(env):
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {'o': tft.segment_indices(i['x'])},
      {'x': tf.TensorSpec([None], tf.int64)}))
  counts = [env.choose(3, f'c{j}') for j in range(3)]
  ids = [j for j, c in enumerate(counts) for _ in range(c)]
  o = as_list(g(x=np.array(ids, np.int64))['o'])
  env.check(o == [k for c in counts for k in range(c)], 'segment indices',
            Lazy(o, ids))


@CHECK.case('sparse_dense', shards=2, budget=8,
            bounds='sparse [3] column, 2 rows, any missing entries')
def sparse_dense(env):
  S = tf.SparseTensorSpec([None, 3], tf.float32)
  g = env.once('g', lambda: P.GraphFn(
      lambda i: {'d': tft.sparse_tensor_to_dense_with_shape(
          i['x'], [None, 3], 7.0),
                 'l': tft.sparse_tensor_left_align(i['x'])}, {'x': S}))
  rows = []
  for j in range(2):
    mask = env.choose(8, f'mask{j}')
    rows.append([(c, env.real(f'x{j}_{c}', -9, 9)) for c in range(3)
                 if mask >> c & 1])
  o = g(x=P.cells(rows, np.float32, 3))
  for r, d, l in zip(rows, P.rows_of(o['d']), P.rows_of(o['l'])):
    have = dict(r)
    for c in range(3):
      env.eq(d[c], have.get(c, 7.0), 'dense entry')
    env.check([i for i, _ in l] == [(k,) for k in range(len(r))],
              'left aligned', Lazy(l))
    for (_, v), (_, w) in zip(l, r):
      env.eq(v, w, 'left-aligned value')


def tfidf_case(vocab, smooth, n, m, lo=0, quick=True, shards=4):
  COL = [P.Col('x', 'varlen', 'i')]

  def fn(i):
    idx, w = tft.tfidf(i['x'], vocab, smooth)
    return {'i': idx, 'w': w}

  @CHECK.case(f'tfidf_{vocab}{"_smooth" if smooth else ""}', shards=shards,
              quick=quick,
              bounds=f'{n} documents of up to {m} terms in '
              f'[{lo}, {vocab - 1}], vocabulary of {vocab}')
  def run(env):
    b = env.once('p', lambda: P.Built(fn, COL))
    docs = [env.ints(f'x{j}_', env.choose(m + 1, f'n{j}'), lo, vocab - 1)
            for j in range(n)]
    env.assume(any(docs))
    out = b.instances(b.run(
        spec.batches(env, COL, [{'x': d} for d in docs]), env.sched()))
    term = lambda v: v if not core.is_sym(v) and v >= 0 else core.ite(
        v < 0, v + vocab, v)
    docs = [[term(v) for v in d] for d in docs]
    for d, o in zip(docs, out):
      want = [(t, len(v)) for t, v in spec.group(d, d)]
      idx, w = as_list(o['i']), as_list(o['w'])
      env.check(len(idx) == len(want) and len(w) == len(want),
                'each term once', Lazy(idx, w, want))
      for a, c in zip(idx, idx[1:]):
        env.check(a < c, 'terms ascending')
      for t, k in want:
        hit = [j for j, e in enumerate(idx) if spec.eqb(e, t)]
        env.check(len(hit) == 1, 'term present', Lazy(idx, t))
        df = sum(any(spec.eqb(e, t) for e in q) for q in docs)
        idf = 1.0 + (math.log((n + 1.0) / (1.0 + df)) if smooth else
                     math.log(n / df))
        env.eq(w[hit[0]], idf * k / len(d), 'tf-idf weight', tol='close')


tfidf_case(2, True, 3, 2)
tfidf_case(3, False, 2, 2, lo=-1)
tfidf_case(3, True, 2, 3, quick=False)
tfidf_case(1, True, 2, 2, shards=2)


def df_case(vocab, shards=2):
  @CHECK.case(f'idf_{vocab}', shards=shards,
              bounds='experimental document frequency and idf, 2 documents of '
              f'up to 2 terms, vocabulary of {vocab}')
  def run(env):
    COL = [P.Col('x', 'varlen', 'i')]
    b = env.once('p', lambda: P.Built(
        lambda i: {'d': tftx.document_frequency(i['x'], vocab),
                   'i': tftx.idf(i['x'], vocab, smooth=True,
                                 add_baseline=False)}, COL))
    docs = [env.ints(f'x{j}_', env.choose(3, f'n{j}'), 0, vocab - 1)
            for j in range(2)]
    env.assume(any(docs))
    out = b.instances(b.run(
        spec.batches(env, COL, [{'x': d} for d in docs]), env.sched()))
    for d, o in zip(docs, out):
      got, idf = as_list(o['d']), as_list(o['i'])
      env.check(len(got) == len(d) and len(idf) == len(d), 'layout kept')
      for t, g, i in zip(d, got, idf):
        df = sum(any(spec.eqb(e, t) for e in q) for q in docs)
        env.eq(g, df, 'document frequency')
        env.eq(i, math.log(3.0 / (1.0 + df)), 'idf', tol='close')


df_case(3)
df_case(1)


@CHECK.case('density', shards=3, bounds='estimated probability density of 2 '
            'analysed and 1 further value over boundaries 0, 2, 4')
def density(env):
  COL = [P.Col('x', 'dense', 'f')]
  b = env.once('p', lambda: P.Built(
      lambda i: {'o': tft.estimated_probability_density(
          i['x'], tf.constant([0., 2., 4.]))}, COL, two_data=True))
  xs = env.reals('x', 2, -3, 7)
  y = env.real('y', -3, 7)
  for v in xs + [y]:
    for e in (0., 2., 4.):
      env.assume((v >= e) | (v < e - 0.0002))
  rows = [{'x': x} for x in xs]
  out = b.instances(b.run(spec.batches(env, COL, rows), env.sched(),
                          [P.record_batch(COL, rows + [{'x': y}])]))
  for o, v in zip(out, xs + [y]):
    high = v >= 2
    want = 0
    for x in xs:
      same = (high & (x >= 2)) | (core.bnot(high) & core.bnot(x >= 2))
      want = want + core.ite(same, 1, 0)
    env.eq(cell(o['o']) * 4, want, 'density of the own bucket',
           tol='close')


@CHECK.case('mass', shards=3, bounds='categorical probability of 3 analysed '
            'and 1 further token')
def mass(env):
  COL = [P.Col('x', 'dense', 's')]
  b = env.once('p', lambda: P.Built(
      lambda i: {'o': tft.estimated_probability_density(
          i['x'], categorical=True)}, COL, two_data=True))
  xs = env.toks('x', 3)
  y = env.tok('y')
  rows = [{'x': x} for x in xs]
  out = b.instances(b.run(spec.batches(env, COL, rows), env.sched(),
                          [P.record_batch(COL, rows + [{'x': y}])]))
  for o, v in zip(out, xs + [y]):
    env.eq(cell(o['o']) * 3, sum(spec.eqb(x, v) for x in xs),
           'probability of the token', tol='close')
