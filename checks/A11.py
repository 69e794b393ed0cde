"""Accumulators survive the cache encoding unchanged."""
import numpy as np
import tensorflow as tf
import tensorflow_transform as tft
from tensorflow_transform import analyzers, impl_helper, nodes
from tensorflow_transform.beam import analysis_graph_builder
import tensorflow_transform.experimental as tfte

from sx import core, markers, pipeline as P, spec
from sx.checklib import Check, Lazy
from sx.spec import as_list, bc, vec

CHECK = Check(
    'A11',
    bounds=['accumulators of one or two inputs of up to 2 values, symbolic or '
            'one of 7 special values; keys of 6 shapes; any part of the merged '
            'partial results coming from the cache'],
    excluded=['float rounding of symbolic values'])

NAN, INF = float('nan'), float('inf')
SPECIAL = (NAN, INF, -INF, 0.1, 1e300, -0.0, 5e-324)
BIG = (2**63 - 1, -2**63, 2**53 + 1, 0, -1, 7)
KEYS = (b'', 'é'.encode(), b'\x00\xff"\\', b'a,b\n', b'k', None)


# -- the analyses, found in the real analysis graph --------------------------------


def ops_of(fn, specs):
  """Operations of the analysis graph whose results are cached."""
  with core.paused():
    graph, ins, outs = impl_helper.trace_preprocessing_function(
        fn, specs, use_tf_compat_v1=True)
    future, _, _ = analysis_graph_builder.build(graph, ins, outs)
  found = []

  class V(nodes.Visitor):

    def visit(self, d, inputs):
      if d.cache_coder is not None and not any(d is f for f in found):
        found.append(d)
      # packed aggregations hold the original operations
      for c in getattr(d, 'combiners', ()) or ():
        found.append(Packed(c.combiner))
      return nodes.OperationNode(d, inputs).outputs

    def validate_value(self, value):
      pass
  nodes.Traverser(V()).visit_value_node(future)
  return found


class Packed:

  def __init__(self, combiner):
    self.combiner, self.cache_coder = combiner, combiner.accumulator_coder


F = tf.TensorSpec([None], tf.float32)
F2 = tf.TensorSpec([None, 2], tf.float32)
I = tf.TensorSpec([None], tf.int64)
S = tf.TensorSpec([None], tf.string)
SP = tf.SparseTensorSpec([None, 2], tf.float32)


def scalar(env, name, kind='f'):
  if kind == 'i':
    k = env.choose(len(BIG) + 1, name + '_kind')
    return np.int64(BIG[k - 1]) if k else env.int(name, -1000, 1000)
  k = env.choose(len(SPECIAL) + 1, name + '_kind')
  return SPECIAL[k - 1] if k else env.real(name, -1000, 1000)


def array(env, name, shape, kind='f', dt=None):
  n = int(np.prod(shape)) if shape else 1
  v = [scalar(env, f'{name}{j}', kind) for j in range(n)]
  dt = dt or (np.int64 if kind == 'i' else np.float64)
  return P.arr(v, dt, shape)


def leaves(x):
  if isinstance(x, np.ndarray):
    out = []
    for e in as_list(x):
      out += leaves(e) if isinstance(e, (list, tuple, np.ndarray)) else [e]
    return out
  if isinstance(x, (list, tuple)):
    out = []
    for e in x:
      out += leaves(e)
    return out
  return [x.item() if isinstance(x, np.generic) else x]


def same(a, b):
  if core.is_sym(a) or core.is_sym(b):
    return core.same(core._norm(a), core._norm(b))
  if isinstance(a, float) and a != a:
    return isinstance(b, float) and b != b
  return a == b


def compare(env, got, want, label):
  g, w = leaves(got), leaves(want)
  env.check(len(g) == len(w), label + ': number of values', Lazy(g, w))
  for a, b in zip(g, w):
    env.check(same(a, b), label, Lazy(g, w))


def combiner_case(name, fn, specs, inputs, ninputs=2, shards=1, budget=10,
                  extract=True):
  """inputs(env, i) -> the i-th input of the combiner."""

  @CHECK.case(name, shards=shards, budget=budget, bounds='1-2 partial results '
              'of 0-2 inputs each, any of them decoded')
  def run(env):
    ops = env.once('ops', lambda: ops_of(fn, specs))
    ops = [o for o in ops if getattr(o, 'combiner', None) is not None]
    env.check(bool(ops), 'the analysis is cacheable')
    env.assume(bool(ops))
    op = ops[env.choose(len(ops), 'op')]
    c, coder = op.combiner, op.cache_coder
    vals = [inputs(env, i) for i in range(ninputs)]
    plan = env.choose(4, 'plan')
    groups = ([vals], [vals[:1], vals[1:]], [[], vals], [vals, []])[plan]

    def make():
      out = []
      for g in groups:
        a = c.create_accumulator()
        for v in g:
          a = c.add_input(a, v)
        out.append(a)
      return out
    mask = 1 + env.choose((1 << len(groups)) - 1, 'decoded')
    mixed = [coder.decode_cache(coder.encode_cache(a)) if mask >> i & 1 else a
             for i, a in enumerate(make())]
    got = c.merge_accumulators([c.create_accumulator()] + mixed)
    want = c.merge_accumulators([c.create_accumulator()] + make())
    if extract:
      got, want = c.extract_output(got), c.extract_output(want)
    compare(env, got, want, 'result with decoded partial results')


for _n, _f in (('min', tft.min), ('max', tft.max), ('sum', tft.sum)):
  combiner_case(_n, lambda i, f=_f: {'y': bc(f(i['x']), i['x'])}, {'x': F},
                lambda env, i: [array(env, f'x{i}_', (), dt=np.float32)],
                budget=6)
combiner_case('sum_int', lambda i: {'y': bc(tft.sum(i['x']), i['x'])}, {'x': I},
              lambda env, i: [array(env, f'x{i}_', (), 'i')], budget=5)
combiner_case('max_int', lambda i: {'y': bc(tft.max(i['x']), i['x'])}, {'x': I},
              lambda env, i: [array(env, f'x{i}_', (), 'i')], budget=5)
combiner_case('min_vector', lambda i: {'y': bc(tft.min(
    i['x'], reduce_instance_dims=False), i['x'])}, {'x': F2},
    lambda env, i: [array(env, f'x{i}_', (2,), dt=np.float32)], budget=10)


def mv_input(shape):
  def f(env, i):
    count = env.int(f'c{i}', 0, 3) if not shape else P.arr(
        env.ints(f'c{i}_', shape[0], 0, 3), np.int64, shape)
    count = P.arr([count], np.int64, ()) if not shape else count
    return [count, array(env, f'm{i}_', shape), array(env, f'v{i}_', shape),
            np.array(1.0) if not shape else np.ones(shape)]
  return f


combiner_case('mean_var', lambda i: {'y': bc(tft.var(i['x']), i['x'])},
              {'x': F}, mv_input(()), shards=3, budget=20)
combiner_case('mean_var_vector', lambda i: {'y': bc(tft.var(
    i['x'], reduce_instance_dims=False), i['x'])}, {'x': F2}, mv_input((2,)),
    ninputs=1, shards=2, budget=20)
combiner_case('covariance', lambda i: {'y': bc(tft.covariance(
    i['x'], tf.float64), i['x'])}, {'x': F2},
    lambda env, i: [P.arr(env.reals(f'x{i}_', 4, -9, 9), np.float32, (2, 2))],
    budget=15)
combiner_case('pca', lambda i: {'y': bc(tft.pca(
    i['x'], 1, tf.float64), i['x'])}, {'x': F2},
    lambda env, i: [P.arr(env.reals(f'x{i}_', 4, -9, 9), np.float32, (2, 2))],
    budget=10, extract=False)


def quant_input(env, i):
  return [array(env, f'x{i}_', (2,), dt=np.float32)]


combiner_case('quantiles', lambda i: {'y': bc(tft.quantiles(
    i['x'], 3, 0.01), i['x'])}, {'x': F}, lambda env, i: [P.arr(
        env.reals(f'x{i}_', 2, -9, 9), np.float32, (2,))], shards=2, budget=20)
combiner_case('approximate_vocabulary', lambda i: {
    'y': i['x'], 'v': bc(tfte.approximate_vocabulary(i['x'], 4), i['x'])},
    {'x': S}, lambda env, i: [
        P.arr(env.toks(f'x{i}_', 2), object, (2,)),
        P.arr([float(env.choose(3, f'w{i}') + 1), 1.0], np.float32, (2,))],
    shards=2, budget=20)


# -- accumulators per key and per token ----------------------------------------------


def key(env, name):
  k = KEYS[env.choose(len(KEYS), name + '_kind')]
  return env.tok(name) if k is None else k


def per_key_fn(i):
  x, k = i['x'], i['k']
  kk, m, v = P.private(analyzers, '_mean_and_var_per_key')(x, k)
  with tf.compat.v1.name_scope('b'):
    k2, mn, mx = P.private(analyzers, '_min_and_max_per_key')(x, k)
  return {'m': vec(m, x), 'n': vec(mn, x)}


@CHECK.case('per_key', shards=2, budget=20, bounds='a keyed partial result of '
            'one of 6 key shapes')
def per_key(env):
  ops = [o for o in env.once('ops', lambda: ops_of(
      per_key_fn, {'x': F, 'k': S})) if not isinstance(o, Packed)]
  op = ops[env.choose(len(ops), 'op')]
  c, coder = op.combiner, op.cache_coder
  k = key(env, 'k')
  n = len(c.create_accumulator())
  if n == 4:
    vals = [P.arr([env.int('c', 1, 3)], np.int64, ()), array(env, 'm', ()),
            array(env, 'v', ()), np.array(1.0)]
  else:
    vals = [array(env, f'x{j}', (), dt=np.float32) for j in range(n)]
  make = lambda: c.add_input(c.create_accumulator(), vals)
  k2, acc = coder.decode_cache(coder.encode_cache((k, make())))
  env.check(spec.eqb(k2, k), 'key of a decoded partial result', Lazy(k2, k))
  env.check(isinstance(k2, (bytes, core.Sym)), 'type of the key')
  fin = lambda a: c.extract_output(c.merge_accumulators(
      [c.create_accumulator(), a]))
  compare(env, fin(acc), fin(make()), 'value of a decoded keyed result')


def vocab_ops(kind):
  def fn(i):
    kw = {}
    if kind == 'weighted':
      kw['weights'] = i['w']
    if kind == 'mutual_information':
      kw['labels'] = i['l']
    if kind == 'labels_weighted':
      kw.update(labels=i['l'], weights=i['w'])
    x = i['n'] if kind.startswith('int') else i['x']
    return {'y': tft.compute_and_apply_vocabulary(x, **kw)}
  return ops_of(fn, {'x': S, 'w': F, 'l': I, 'n': I})


def vocab_case(kind):
  @CHECK.case('vocab_' + kind, budget=10, shards=1,
              bounds='one partial result per token')
  def run(env):
    ops = [o for o in env.once('ops', lambda: vocab_ops(kind))
           if not isinstance(o, Packed)]
    env.check(bool(ops), 'the vocabulary is cacheable')
    coder = ops[0].cache_coder
    if kind.startswith('int'):
      tok = scalar(env, 't', 'i')
      tok = tok if core.is_sym(tok) else int(tok)
    else:
      tok = key(env, 't')
    if kind in ('frequency', 'int'):
      v = env.int('v', 1, 1000)
    elif kind == 'weighted':
      v = scalar(env, 'v')
    else:
      from tensorflow_transform import analyzers as an
      n = 2
      v = an.WeightedMeanAndVarCombiner.accumulator_class(
          P.arr(env.ints('c', n, 0, 3), np.int64, (n,)),
          array(env, 'm', (n,)), np.zeros(n),
          P.arr([scalar(env, 'w')] + env.reals('w1', 1, 0, 5), np.float64, (n,)))
    t2, v2 = coder.decode_cache(coder.encode_cache((tok, v)))
    env.check(spec.eqb(t2, tok), 'decoded token', Lazy(t2, tok))
    if isinstance(v, tuple):
      env.check(len(v2) == 4, 'parts of a decoded partial result')
      for a, b in zip(v2, v):
        env.check(np.shape(a) == np.shape(b), 'shape of a part')
        compare(env, a, b, 'part of a decoded partial result')
    else:
      compare(env, v2, v, 'decoded count or weight')


for _k in ('frequency', 'weighted', 'int', 'mutual_information',
           'labels_weighted'):
  vocab_case(_k)
