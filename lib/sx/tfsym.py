"""Interpreter for real TensorFlow graphs over symbolic tensors.

The graph is the one TensorFlow itself built (traced preprocessing function, loaded
SavedModel).  An operation whose inputs are all concrete is executed by the real
TensorFlow kernel; an operation with a symbolic input is executed by the semantics
below, element by element, on z3 terms.  Shapes are concrete; data dependent shapes
(tf.where, tf.unique, ...) fork the path.
"""
from __future__ import annotations

from tensorflow.core.framework import tensor_shape_pb2
import functools
import math
import re
import weakref

import numpy as np
import tensorflow as tf
from tensorflow.python.eager import context as _ctx
from tensorflow.python.eager import execute as _execute
from tensorflow.python.framework import function_def_to_graph as _fdg

from sx import core, markers, nparr
from sx.core import Sym, SBool, SInt, SReal, STok, Unsupported, ite
from sx.markers import SStr
from sx.nparr import elementwise, make, obj, pylist, make_sym

OPS = {}
FORCE = False
USED_OPS = {}


def op(*names):
  def d(f):
    for n in names:
      OPS[n] = f
    return f
  return d


class TFError(tf.errors.InvalidArgumentError):

  def __init__(self, msg):
    super().__init__(None, None, msg)


def npdt(dtype):
  d = tf.as_dtype(dtype)
  if d == tf.string:
    return np.dtype(object)
  return np.dtype(d.as_numpy_dtype)


def is_conc(a):
  """Is the tensor value fully concrete?"""
  if isinstance(a, Table):
    return False
  if isinstance(a, nparr.SymArray):
    return not any(isinstance(e, Sym) for e in a.base_array().ravel())
  if isinstance(a, np.ndarray):
    if a.dtype == object:
      return not any(isinstance(e, Sym) for e in a.ravel())
    return True
  return False


def conc(a):
  if isinstance(a, nparr.SymArray):
    return make(a.base_array(), a._ldt)
  return a


def shape_of(a):
  return tuple(np.shape(pylist(a))) if isinstance(
      a, nparr.SymArray) else tuple(np.shape(a))


def ints(a):
  """Concrete list of Python ints of an integer tensor (forks if needed)."""
  return [int(core.concretize_int(x)) for x in pylist(a).ravel()]


def scalar(a):
  return pylist(a).ravel()[0]


class Table:
  """A lookup table: ordered (key, value) entries and a default."""

  def __init__(self, key_dt, val_dt):
    self.entries = []
    self.key_dt = key_dt
    self.val_dt = val_dt
    self.shape = ()


# ---------------------------------------------------------------------------
# real kernel execution


_ATTR_CACHE = {}


def run_real(o, inputs):
  """Executes one op eagerly with the real kernel."""
  key = id(o)
  attrs = _ATTR_CACHE.get(key)
  if attrs is None or attrs[0] is not o:
    lst = []
    for name in o.node_def.attr:
      if name.startswith('_') and name not in ('_output_shapes',):
        continue
      if name == '_output_shapes':
        continue
      v = o.get_attr(name)
      lst.append(name)
      lst.append(_eager_attr(v))
    attrs = (o, tuple(lst))
    _ATTR_CACHE[key] = attrs
  ins = []
  for a, t in zip(inputs, o.inputs):
    ins.append(tf.constant(a, dtype=t.dtype.base_dtype)
               if not isinstance(a, tf.Tensor) else a)
  with tf.device('/CPU:0'):
    outs = _execute.execute(str(o.type).encode(), len(o.outputs), ins,
                            attrs[1], _context())
  return [x.numpy() if not isinstance(x.numpy(), bytes) else np.array(
      x.numpy(), dtype=object) for x in outs]


def _eager_attr(v):
  if isinstance(v, tf.DType):
    return v.as_datatype_enum
  if isinstance(v, list):
    return [_eager_attr(x) for x in v]
  if isinstance(v, tf.TensorShape):
    v = v.as_proto()
  if isinstance(v, tensor_shape_pb2.TensorShapeProto):
    return None if v.unknown_rank else [d.size for d in v.dim]
  return v


def _context():
  c = _ctx.context()
  c.ensure_initialized()
  return c


class _Eager:

  def __enter__(self):
    self._c = _ctx.eager_mode()
    self._c.__enter__()

  def __exit__(self, *a):
    self._c.__exit__(*a)


# ---------------------------------------------------------------------------
# the interpreter


class Interp:

  def __init__(self, graph, table_cache=None, file_reader=None):
    self.graph = graph
    self.values = {}
    self.done_ops = set()
    self.tables = {} if table_cache is None else table_cache
    self.fn_cache = {}

  # values -------------------------------------------------------------------
  def feed(self, tensor, value):
    self.values[_tkey(tensor)] = value

  def tensor(self, t):
    k = _tkey(t)
    if k not in self.values:
      self._eval_op(t.op)
    v = self.values[k]
    return v

  def _eval_op(self, o):
    # Iterative DFS to avoid deep recursion.
    stack = [o]
    while stack:
      cur = stack[-1]
      if _okey(cur) in self.done_ops:
        stack.pop()
        continue
      pend = [t.op for t in cur.inputs if _tkey(t) not in self.values and
              _okey(t.op) not in self.done_ops]
      pend += [c for c in cur.control_inputs if _okey(c) not in self.done_ops
               and self._relevant_control(c)]
      if pend:
        if len(stack) > 20000:
          raise Unsupported('graph recursion')
        stack.extend(pend)
        continue
      self._run(cur)
      self.done_ops.add(_okey(cur))
      stack.pop()

  def _relevant_control(self, c):
    return True

  def _run(self, o):
    t = o.type
    if t == 'Const':
      v = _const_value(o)
      self.values[(o.name, 0)] = markers.decode_array(v)
      return
    ins = [self.values[_tkey(x)] for x in o.inputs]
    if t == 'NoOp':
      return
    if all(is_conc(a) for a in ins) and t not in ALWAYS and not (FORCE and t in OPS):
      with _Eager():
        outs = run_real(o, [conc(a) for a in ins])
    else:
      f = OPS.get(t)
      if f is None:
        raise Unsupported(f'tf op {t}')
      USED_OPS[t] = USED_OPS.get(t, 0) + 1
      outs = f(self, o, *ins)
      if not isinstance(outs, (list, tuple)):
        outs = [outs]
      outs = [_norm_out(v, x) for v, x in zip(outs, o.outputs)]
    for i, v in enumerate(outs):
      self.values[(o.name, i)] = v

  # functions ------------------------------------------------------------------
  def call(self, name, args):
    if isinstance(name, bytes):
      name = name.decode()
    root = getattr(self, 'root', self)
    g = _func_graph(self.graph, name, root.graph)
    sub = Interp(g, self.tables)
    sub.root = root
    for t, a in zip(g.inputs, args):
      sub.feed(t, a)
    outs = [sub.tensor(t) for t in g.outputs]
    # Control outputs (asserts) of stateful functions.
    for o in getattr(g, 'control_outputs', []) or []:
      sub._eval_op(o)
    return outs


def _tkey(t):
  n, _, i = t.name.rpartition(':')
  return (n, int(i))


def _okey(o):
  return o.name


_FG = {}


def _func_graph(graph, name, root=None):
  for gr in ((graph, root) if root is not None and root is not graph
             else (graph,)):
    key = (id(gr), name)
    hit = _FG.get(key)
    if hit is not None:
      return hit[1]
    g = _func_graph_in(gr, name)
    if g is not None:
      _FG[key] = (gr, g)
      return g
  raise Unsupported(f'function {name} not found')


def _func_graph_in(graph, name):
  try:
    f = graph._get_function(name)
  except ValueError:
    f = None
  if f is not None and getattr(f, 'graph', None) is not None and getattr(
      f.graph, 'inputs', None) is not None:
    return f.graph
  fdef = None
  if fdef is None:
    for fd in graph.as_graph_def().library.function:
      if fd.signature.name == name:
        fdef = fd
  if fdef is None:
    return None
  with graph.as_default():
    return _fdg.function_def_to_graph(fdef)


_CONST = {}


def _const_value(o):
  k = id(o)
  hit = _CONST.get(k)
  if hit is not None and hit[0] is o:
    return hit[1]
  v = tf.make_ndarray(o.get_attr('value'))
  _CONST[k] = (o, v)
  return v


def _norm_out(v, t):
  if isinstance(v, Table):
    return v
  dt = npdt(t.dtype.base_dtype)
  if isinstance(v, nparr.SymArray):
    if v._ldt != dt:
      v = make_sym(elementwise(lambda e: nparr.cast_scalar(e, dt), v), dt)
    return make(v.base_array(), dt)
  if isinstance(v, np.ndarray):
    if v.dtype == object:
      if dt == object:
        return v
      return make(elementwise(lambda e: nparr.cast_scalar(e, dt), v), dt)
    return v
  return make(obj((), [v]), dt)


def run(graph, fetches, feeds, tables=None):
  """Evaluates fetches (tensors / composites) with feeds {tensor: value}."""
  it = Interp(graph, tables)
  for t, v in feeds.items():
    it.feed(graph.get_tensor_by_name(t) if isinstance(t, str) else t, v)
  out = []
  for f in fetches:
    out.append(fetch(it, f))
  return out


def fetch(it, f):
  if isinstance(f, (tf.SparseTensor, tf.compat.v1.SparseTensor)):
    return tf.compat.v1.SparseTensorValue(
        it.tensor(f.indices), it.tensor(f.values), it.tensor(f.dense_shape))
  if isinstance(f, tf.RaggedTensor):
    vals = fetch(it, f.values)
    return tf.compat.v1.ragged.RaggedTensorValue.__new__ and RaggedV(
        vals, it.tensor(f.row_splits))
  return it.tensor(f)


class RaggedV:
  """A ragged value with (possibly symbolic) flat values."""

  def __init__(self, values, row_splits):
    self.values = values
    self.row_splits = row_splits

  def to_list(self):
    vals = self.values.to_list() if isinstance(self.values, RaggedV) else list(
        pylist(self.values)) if np.ndim(pylist(self.values)) == 1 else [
            pylist(self.values)[i] for i in range(len(pylist(self.values)))]
    s = ints(self.row_splits)
    return [vals[s[i]:s[i + 1]] for i in range(len(s) - 1)]


# ---------------------------------------------------------------------------
# op semantics

ALWAYS = {'HashTableV2', 'MutableHashTableV2', 'InitializeTableFromTextFileV2',
          'InitializeTableV2', 'LookupTableImportV2', 'LookupTableFindV2',
          'LookupTableSizeV2', 'If', 'StatelessIf', 'While', 'StatelessWhile',
          'PartitionedCall', 'StatefulPartitionedCall', 'Placeholder',
          'VarHandleOp', 'ReadVariableOp', 'Print', 'PrintV2', 'Assert',
          'InitializeTableFromDataset', 'TensorListReserve',
          'TensorListSetItem', 'TensorListConcatV2', 'EmptyTensorList',
          'TensorListPushBack', 'TensorListStack', 'TensorListFromTensor',
          'TensorListGetItem', 'TFRecordDataset', 'TensorSliceDataset',
          'FlatMapDataset', 'RangeDataset', 'RewriteDataset', 'ZipDataset',
          'MapDataset', 'TensorDataset', 'ParallelMapDatasetV2',
          'OptionsDataset', 'TextLineDataset', 'EagerPyFunc', 'PyFunc'}


def _ident(it, o, x, *rest):
  return x


for _n in ('Identity', 'StopGradient', 'Snapshot', 'PreventGradient',
           'PlaceholderWithDefault', 'CheckNumerics'):
  OPS[_n] = _ident


@op('EnsureShape')
def _ensure(it, o, x):
  return x


@op('IdentityN')
def _identn(it, o, *xs):
  return list(xs)


@op('Placeholder')
def _ph(it, o):
  raise Unsupported(f'placeholder {o.name} not fed')


def _ew(f, kind=None):
  def g(it, o, *xs):
    dt = npdt(o.outputs[0].dtype)
    return make_sym(elementwise(lambda *e: nparr._fin(f(*e), dt), *xs), dt)
  return g


def _add(a, b):
  if isinstance(a, (STok, SStr, bytes)) or isinstance(b, (STok, SStr, bytes)):
    return SStr.build([a, b])
  return a + b


def _divnonan(a, b):
  z = b == 0
  if not isinstance(z, SBool):
    return 0.0 if z else core.sdiv(a, b)
  if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
    return 0.0 if bool(z) else core.sdiv(a, b)
  la, lb = SReal.lift(a), SReal.lift(b)
  return core.mk_real(core.z3.If(z.z, core.rv(0), la.z / lb.z))


def _floormod(a, b):
  return nparr.mod_(a, b)


def _neq(a, b):
  return core.bnot(nparr._cmp('==')(a, b))


_EQ = nparr._cmp('==')

_BIN = {
    'Add': _add, 'AddV2': _add, 'Sub': nparr.sub_, 'Mul': nparr.mul_,
    'RealDiv': core.sdiv, 'Div': None, 'DivNoNan': _divnonan,
    'FloorDiv': nparr.floordiv_, 'FloorMod': _floormod,
    'Maximum': core.smax_nan, 'Minimum': core.smin_nan,
    'Less': nparr._cmp('<'), 'LessEqual': nparr._cmp('<='),
    'Greater': nparr._cmp('>'), 'GreaterEqual': nparr._cmp('>='),
    'LogicalAnd': lambda a, b: core.band(a, b),
    'LogicalOr': lambda a, b: core.bor(a, b),
    'SquaredDifference': lambda a, b: (a - b) * (a - b),
    'MulNoNan': lambda a, b: 0.0 if b == 0 else a * b,
}
for _n, _f in _BIN.items():
  if _f is not None:
    OPS[_n] = _ew(_f)


@op('Equal', 'NotEqual')
def _equal(it, o, a, b):
  sa, sb = shape_of(a), shape_of(b)
  try:
    np.broadcast_shapes(sa, sb)
  except ValueError:
    if o.node_def.attr['incompatible_shape_error'].b is False:
      return np.array(o.type == 'NotEqual')
    raise TFError('incompatible shapes')
  return _ew(_EQ if o.type == 'Equal' else _neq)(it, o, a, b)


_UN = {
    'Neg': nparr.neg_, 'Abs': abs, 'Square': lambda a: a * a,
    'Sqrt': core.ssqrt, 'Exp': core.sexp, 'Log': core.slog,
    'Sigmoid': core.ssigmoid, 'LogicalNot': core.bnot,
    'IsNan': core.isnan, 'IsFinite': core.isfinite,
    'IsInf': lambda a: isinstance(a, float) and math.isinf(a),
    'Sign': nparr._np_sign, 'Floor': core.sfloor, 'Ceil': core.sceil,
    'Round': lambda a: core.to_real(core.sround(a)),
    'Rint': lambda a: core.to_real(core.sround(a)),
    'ZerosLike': None, 'OnesLike': None,
    'Reciprocal': lambda a: core.sdiv(1.0, a),
    'Rsqrt': lambda a: core.sdiv(1.0, core.ssqrt(a)),
    'Relu': lambda a: core.smax(a, 0.0),
    'Tanh': lambda a: core.uf_apply('tanh', a) if isinstance(a, Sym) else math.tanh(a),
    'Erf': lambda a: core.uf_apply('erf', a) if isinstance(a, Sym) else math.erf(a),
    'Log1p': lambda a: core.slog(1.0 + a),
    'Erfinv': lambda a: core.uf_apply('erfinv', a),
}
for _n, _f in _UN.items():
  if _f is not None:
    OPS[_n] = _ew(_f)


@op('Sigmoid')
def _sigm(it, o, x):
  def f(a):
    if isinstance(a, float) and not isinstance(a, Sym):
      if math.isnan(a):
        return a
      if a > 700:
        return 1.0
      if a < -700:
        return 0.0
    return core.ssigmoid(a)
  return _ew(f)(it, o, x)


@op('Pow')
def _pow(it, o, a, b):
  return _ew(nparr.pow_)(it, o, a, b)


@op('ZerosLike', 'OnesLike')
def _zl(it, o, x):
  dt = npdt(o.outputs[0].dtype)
  v = (0 if o.type == 'ZerosLike' else 1) if dt != object else b''
  if dt == object:
    return obj(shape_of(x), [b''] * int(np.prod(shape_of(x))))
  return np.full(shape_of(x), v, dtype=dt)


@op('Shape')
def _shape(it, o, x):
  return np.array(shape_of(x), dtype=npdt(o.outputs[0].dtype))


@op('ShapeN')
def _shapen(it, o, *xs):
  return [np.array(shape_of(x), dtype=npdt(t.dtype))
          for x, t in zip(xs, o.outputs)]


@op('Size')
def _size(it, o, x):
  return np.array(int(np.prod(shape_of(x))), dtype=npdt(o.outputs[0].dtype))


@op('Rank')
def _rank(it, o, x):
  return np.array(len(shape_of(x)), dtype=np.int32)


def _w(a, o):
  return make_sym(a, npdt(o.outputs[0].dtype))


@op('Reshape')
def _reshape(it, o, x, s):
  shp = ints(s)
  p = pylist(x)
  if -1 in shp and 0 in shp:
    n = int(np.prod([d for d in p.shape if d > 0], dtype=np.int64))
    k = int(np.prod([d for d in shp if d > 0], dtype=np.int64))
    shp = [n // k if d == -1 else d for d in shp]
  try:
    return _w(p.reshape(tuple(shp)), o)
  except ValueError as e:
    raise TFError(str(e))


@op('ExpandDims')
def _expand(it, o, x, d):
  return _w(np.expand_dims(pylist(x), ints(d)[0]), o)


@op('Squeeze')
def _squeeze(it, o, x):
  dims = list(o.get_attr('squeeze_dims'))
  p = pylist(x)
  try:
    r = np.squeeze(p, tuple(dims)) if dims else np.squeeze(p)
  except ValueError as e:
    raise TFError(str(e))
  return _w(np.asarray(r, dtype=object), o)


@op('Transpose')
def _transpose(it, o, x, perm):
  return _w(np.transpose(pylist(x), ints(perm)), o)


@op('Pack')
def _pack(it, o, *xs):
  return _w(_stack([pylist(x) for x in xs], o.get_attr('axis')), o)


def _stack(ps, axis):
  r = np.empty((len(ps),) + ps[0].shape, object)
  for i, p in enumerate(ps):
    r[i] = p if p.shape else p.item()
  nd = r.ndim
  return np.moveaxis(r, 0, axis % nd)


@op('Unpack')
def _unpack(it, o, x):
  ax = o.get_attr('axis')
  p = np.moveaxis(pylist(x), ax, 0)
  return [_o0(p[i]) for i in range(p.shape[0])]


def _o0(e):
  if isinstance(e, np.ndarray):
    return e
  return obj((), [e])


@op('ConcatV2')
def _concat(it, o, *xs):
  ax = ints(xs[-1])[0]
  ps = [pylist(x) for x in xs[:-1]]
  try:
    return _w(np.concatenate(ps, ax), o)
  except ValueError as e:
    raise TFError(str(e))


@op('Split')
def _split(it, o, axis, x):
  return [p for p in np.split(pylist(x), len(o.outputs), ints(axis)[0])]


@op('SplitV')
def _splitv(it, o, x, sizes, axis):
  s = ints(sizes)
  cuts = np.cumsum(s)[:-1]
  return list(np.split(pylist(x), cuts, ints(axis)[0]))


@op('Fill')
def _fill(it, o, dims, v):
  shp = tuple(ints(dims))
  return _w(obj(shp, [scalar(v)] * int(np.prod(shp))), o)


@op('Tile')
def _tile(it, o, x, m):
  return _w(np.tile(pylist(x), ints(m)), o)


@op('BroadcastTo')
def _bto(it, o, x, s):
  try:
    return _w(np.array(np.broadcast_to(pylist(x), tuple(ints(s))),
                       dtype=object), o)
  except ValueError as e:
    raise TFError(str(e))


@op('Pad', 'PadV2')
def _pad(it, o, x, pads, cv=None):
  p = pylist(x)
  pw = np.asarray(ints(pads)).reshape(-1, 2)
  dt = npdt(o.outputs[0].dtype)
  c = scalar(cv) if cv is not None else (b'' if dt == object else
                                         nparr.cast_scalar(0, dt))
  shape = tuple(int(s + a + b) for s, (a, b) in zip(p.shape, pw))
  out = obj(shape, [c] * int(np.prod(shape)))
  out[tuple(slice(a, a + s) for s, (a, b) in zip(p.shape, pw))] = p
  return _w(out, o)


@op('Range')
def _range(it, o, a, b, d):
  av, bv, dv = (core.concretize_int(scalar(x)) if isinstance(
      scalar(x), SInt) else scalar(x) for x in (a, b, d))
  return np.arange(av, bv, dv, dtype=npdt(o.outputs[0].dtype))


@op('StridedSlice')
def _ss(it, o, x, b, e, s):
  bm, em, sm = o.get_attr('begin_mask'), o.get_attr('end_mask'), o.get_attr(
      'shrink_axis_mask')
  el, na = o.get_attr('ellipsis_mask'), o.get_attr('new_axis_mask')
  bs, es, st = ints(b), ints(e), ints(s)
  p = pylist(x)
  idx = []
  dim = 0
  n_real = len([i for i in range(len(bs)) if not (na >> i) & 1
                and not (el >> i) & 1])
  for i in range(len(bs)):
    if (el >> i) & 1:
      idx.append(Ellipsis)
      dim += p.ndim - n_real
      continue
    if (na >> i) & 1:
      idx.append(None)
      continue
    if (sm >> i) & 1:
      n = p.shape[dim]
      k = bs[i]
      if k < -n or k >= n:
        raise TFError('slice index out of bounds')
      idx.append(k)
    else:
      idx.append(slice(None if (bm >> i) & 1 else bs[i],
                       None if (em >> i) & 1 else es[i], st[i]))
    dim += 1
  return _w(_o0(p[tuple(idx)]), o)


@op('Slice')
def _slice(it, o, x, b, s):
  p = pylist(x)
  idx = []
  for i, (bb, sz) in enumerate(zip(ints(b), ints(s))):
    if sz == -1:
      sz = p.shape[i] - bb
    if bb < 0 or bb + sz > p.shape[i]:
      raise TFError('Slice out of bounds')
    idx.append(slice(bb, bb + sz))
  return _w(p[tuple(idx)], o)


@op('Cast')
def _cast(it, o, x):
  dt = npdt(o.outputs[0].dtype)
  return make_sym(elementwise(lambda e: nparr.cast_scalar(e, dt), x), dt)


@op('SelectV2', 'Select')
def _select(it, o, c, a, b):
  if o.type == 'Select' and np.ndim(pylist(c)) == 1 and np.ndim(pylist(a)) > 1:
    p = pylist(c)
    c = make_sym(p.reshape(p.shape + (1,) * (np.ndim(pylist(a)) - 1)), bool)
  return _w(elementwise(ite, c, a, b), o)


# reductions -------------------------------------------------------------------
def _axes(x, ax):
  nd = np.ndim(pylist(x))
  return tuple(sorted({a % nd for a in ints(ax)})) if nd else ()


def _reduction(f, ident):
  def g(it, o, x, ax):
    keep = o.get_attr('keep_dims')
    axes = _axes(x, ax)
    dt = npdt(o.outputs[0].dtype)
    r = x if isinstance(x, np.ndarray) else np.asarray(x)
    ide = ident(dt) if callable(ident) else ident
    if not axes:
      return x
    return nparr._reduce(f, r, axes, ide, keep, dt)
  return g


def _lowest(dt):
  if dt.kind == 'f':
    return -math.inf
  return int(np.iinfo(dt).min)


def _highest(dt):
  if dt.kind == 'f':
    return math.inf
  return int(np.iinfo(dt).max)


OPS['Sum'] = _reduction(nparr.add_, 0)
OPS['Prod'] = _reduction(nparr.mul_, 1)
OPS['Max'] = _reduction(core.smax_nan, _lowest)
OPS['Min'] = _reduction(core.smin_nan, _highest)
OPS['All'] = _reduction(lambda a, b: core.band(a, b), True)
OPS['Any'] = _reduction(lambda a, b: core.bor(a, b), False)


@op('Mean')
def _mean(it, o, x, ax):
  axes = _axes(x, ax)
  s = nparr._reduce(nparr.add_, x, axes, 0.0, o.get_attr('keep_dims'))
  n = int(np.prod([shape_of(x)[a] for a in axes]))
  return _w(elementwise(lambda e: core.sdiv(e, n), s), o)


def _segment(comb, ident, sorted_ids=False):
  def g(it, o, data, seg, num=None):
    dt = npdt(o.outputs[0].dtype)
    p = pylist(data)
    ids_arr = pylist(seg)
    ids = [core.concretize_int(i) for i in ids_arr.ravel()]
    k = ids_arr.ndim
    rest = p.shape[k:]
    q = p.reshape((len(ids),) + rest) if len(ids) else np.empty(
        (0,) + rest, object)
    n = (ids[-1] + 1 if ids else 0) if sorted_ids else ints(num)[0]
    ide = ident(dt) if callable(ident) else ident
    if sorted_ids:
      ide = nparr.cast_scalar(0, dt) if comb is nparr.add_ else ide
    out = obj((n,) + rest, [nparr._fin(ide, dt)] * int(np.prod((n,) + rest)))
    seen = set()
    for i, s in enumerate(ids):
      if s < 0:
        continue
      if s >= n:
        raise TFError('segment id out of range')
      for j in np.ndindex(rest):
        cell = (s,) + j
        v = q[(i,) + j]
        out[cell] = v if cell not in seen else nparr._fin(
            comb(out[cell], v), dt)
        seen.add(cell)
    return _w(out, o)
  return g


OPS['UnsortedSegmentSum'] = _segment(nparr.add_, 0)
OPS['UnsortedSegmentMax'] = _segment(core.smax, lambda d: (
    float(np.finfo(d).min) if d.kind == 'f' else int(np.iinfo(d).min)))
OPS['UnsortedSegmentMin'] = _segment(core.smin, lambda d: (
    float(np.finfo(d).max) if d.kind == 'f' else int(np.iinfo(d).max)))
OPS['UnsortedSegmentProd'] = _segment(nparr.mul_, 1)
OPS['SegmentSum'] = _segment(nparr.add_, 0, True)
OPS['SegmentMax'] = _segment(core.smax, 0, True)
OPS['SegmentMin'] = _segment(core.smin, 0, True)


@op('Cumsum', 'Cumprod')
def _cumsum(it, o, x, ax):
  if o.get_attr('reverse'):
    raise Unsupported('reverse cumsum')
  f = nparr.add_ if o.type == 'Cumsum' else nparr.mul_
  ide = 0 if o.type == 'Cumsum' else 1
  a = ints(ax)[0]
  m = np.moveaxis(pylist(x), a, 0).copy()
  dt = npdt(o.outputs[0].dtype)
  if o.get_attr('exclusive'):
    r = np.empty(m.shape, object)
    for j in np.ndindex(m.shape[1:]):
      acc = nparr.cast_scalar(ide, dt)
      for i in range(m.shape[0]):
        r[(i,) + j] = acc
        acc = f(acc, m[(i,) + j])
    m = r
  else:
    for i in range(1, m.shape[0]):
      m[i] = elementwise(f, m[i - 1], m[i]) if m.ndim > 1 else f(
          m[i - 1], m[i])
  return _w(np.moveaxis(m, 0, a), o)


@op('MatMul', 'BatchMatMulV2')
def _matmul(it, o, a, b):
  x, y = pylist(a), pylist(b)
  ta = o.get_attr('transpose_a' if o.type == 'MatMul' else 'adj_x')
  tb = o.get_attr('transpose_b' if o.type == 'MatMul' else 'adj_y')
  if x.ndim != 2:
    raise Unsupported('batch matmul')
  if ta:
    x = x.T
  if tb:
    y = y.T
  dt = npdt(o.outputs[0].dtype)
  return nparr._matmul(make_sym(x, dt), make_sym(y, dt))


@op('ArgMax', 'ArgMin')
def _argmax(it, o, x, ax):
  p = np.moveaxis(pylist(x), ints(ax)[0], 0)
  out = np.empty(p.shape[1:], object)
  for j in np.ndindex(p.shape[1:]):
    best, bi = p[(0,) + j], 0
    for i in range(1, p.shape[0]):
      c = p[(i,) + j] > best if o.type == 'ArgMax' else p[(i,) + j] < best
      best, bi = ite(c, p[(i,) + j], best), ite(c, i, bi)
    out[j] = bi
  return _w(out, o)


# gather / scatter -------------------------------------------------------------
def select_index(vals, i):
  """vals[i] for a symbolic index known to be in range."""
  if not isinstance(i, SInt):
    return vals[int(i)]
  r = vals[len(vals) - 1]
  for k in range(len(vals) - 2, -1, -1):
    r = ite(i == k, vals[k], r)
  return r


def check_range(i, n, what='index'):
  if isinstance(i, Sym):
    ok = core.band(i >= 0, i < n)
    if not isinstance(ok, bool):
      ok = bool(ok)
  else:
    ok = 0 <= i < n
  if not ok:
    raise TFError(f'{what} out of range [0, {n})')


@op('GatherV2', 'Gather', 'ResourceGather')
def _gather(it, o, params, idx, axis=None):
  ax = ints(axis)[0] if axis is not None else 0
  try:
    bd = o.get_attr('batch_dims')
  except ValueError:
    bd = 0
  p = pylist(params)
  q = pylist(idx)
  if bd:
    if bd < 0:
      bd += q.ndim
    if bd != 1 or ax % p.ndim != 1:
      raise Unsupported('gather batch dims')
    rows = [_gather_1(p[i], q[i], 0) for i in range(p.shape[0])]
    if not rows:
      return _w(np.empty((0,) + q.shape[1:] + p.shape[2:], object), o)
    return _w(_stack(rows, 0), o)
  return _w(_gather_1(p, q, ax % p.ndim), o)


def _gather_1(p, q, ax):
  m = np.moveaxis(p, ax, 0)
  out = np.empty(q.shape + m.shape[1:], object)
  for i in np.ndindex(q.shape):
    k = q[i]
    check_range(k, m.shape[0])
    if isinstance(k, SInt):
      for j in np.ndindex(m.shape[1:]):
        out[i + j] = select_index([m[(t,) + j] for t in range(m.shape[0])], k)
    else:
      if m.ndim == 1:
        out[i] = m[k]
      else:
        out[i] = m[k]
  if ax:
    nq = q.ndim
    out = np.moveaxis(out, list(range(nq)), list(range(ax, ax + nq)))
  return out


@op('GatherNd')
def _gathernd(it, o, params, idx):
  p, q = pylist(params), pylist(idx)
  d = q.shape[-1]
  out = np.empty(q.shape[:-1] + p.shape[d:], object)
  for i in np.ndindex(q.shape[:-1]):
    ks = [core.concretize_int(k) for k in q[i]]
    for k, n in zip(ks, p.shape):
      check_range(k, n)
    out[i] = p[tuple(ks)]
  return _w(out, o)


@op('ScatterNd')
def _scatternd(it, o, idx, upd, shape):
  shp = tuple(ints(shape))
  dt = npdt(o.outputs[0].dtype)
  out = obj(shp, [nparr.cast_scalar(0, dt) if dt != object else b''] *
            int(np.prod(shp)))
  q, u = pylist(idx), pylist(upd)
  d = q.shape[-1]
  for i in np.ndindex(q.shape[:-1]):
    ks = tuple(core.concretize_int(k) for k in q[i])
    for k, n in zip(ks, shp):
      check_range(k, n)
    if d == len(shp):
      out[ks] = _add(out[ks], u[i]) if dt != object else u[i]
    else:
      out[ks] = elementwise(_add, out[ks], u[i])
  return _w(out, o)


@op('TensorScatterUpdate', 'TensorScatterAdd')
def _tsu(it, o, t, idx, upd):
  out = pylist(t).copy()
  q, u = pylist(idx), pylist(upd)
  d = q.shape[-1]
  for i in np.ndindex(q.shape[:-1]):
    ks = tuple(core.concretize_int(k) for k in q[i])
    for k, n in zip(ks, out.shape):
      check_range(k, n)
    if o.type == 'TensorScatterUpdate':
      out[ks] = u[i]
    else:
      out[ks] = elementwise(_add, _o0(out[ks]), _o0(u[i])) if d < out.ndim \
          else out[ks] + u[i]
  return _w(out, o)


@op('Where')
def _where(it, o, c):
  p = pylist(c)
  out = []
  for i in np.ndindex(p.shape):
    e = p[i]
    if isinstance(e, (SInt, SReal)):
      e = e != 0
    if bool(e):
      out.append(list(i))
  return np.array(out, dtype=np.int64).reshape(len(out), p.ndim)


@op('Unique', 'UniqueWithCounts', 'UniqueV2', 'UniqueWithCountsV2')
def _unique(it, o, x, axis=None):
  vals = list(pylist(x).ravel())
  uniq, idx, cnt = [], [], []
  for v in vals:
    for k, u in enumerate(uniq):
      if bool(_EQ(v, u)):
        idx.append(k)
        cnt[k] += 1
        break
    else:
      idx.append(len(uniq))
      uniq.append(v)
      cnt.append(1)
  outs = [obj((len(uniq),), uniq),
          np.array(idx, dtype=npdt(o.outputs[1].dtype))]
  if 'Counts' in o.type:
    outs.append(np.array(cnt, dtype=npdt(o.outputs[2].dtype)))
  return outs


@op('TopKV2', 'TopK')
def _topk(it, o, x, k=None):
  n = ints(k)[0] if k is not None else o.get_attr('k')
  p = pylist(x)
  out = np.empty(p.shape[:-1] + (n,), object)
  ind = np.empty(p.shape[:-1] + (n,), object)
  for i in np.ndindex(p.shape[:-1]):
    row = list(p[i])
    order = sorted(range(len(row)), key=functools.cmp_to_key(
        lambda a, b: -1 if bool(nparr._cmp('>')(row[a], row[b])) else
        1 if bool(nparr._cmp('<')(row[a], row[b])) else a - b))[:n]
    for j, t in enumerate(order):
      out[i + (j,)] = row[t]
      ind[i + (j,)] = t
  return [out, ind]


@op('UpperBound', 'LowerBound', 'SearchSorted')
def _bound(it, o, srt, vals):
  p, q = pylist(srt), pylist(vals)
  out = np.empty(q.shape, object)
  upper = o.type == 'UpperBound'
  for r in range(q.shape[0]):
    row = list(p[r])
    for a, b in zip(row, row[1:]):
      ok = nparr._cmp('<=')(a, b)
      if not bool(ok):
        return _binsearch(p, q, upper, o)
    for j in range(q.shape[1]):
      v = q[r, j]
      if core.isnan(v):
        return _binsearch(p, q, upper, o)
      acc = 0
      for b in row:
        acc = acc + ite(nparr._cmp('<=' if upper else '<')(b, v), 1, 0)
      if isinstance(acc, SInt):
        acc = SInt(acc.z, 0, len(row))
      out[r, j] = acc
  return _w(out, o)


def _binsearch(p, q, upper, o):
  """std::upper_bound / lower_bound exactly (for unsorted input or NaN)."""
  out = np.empty(q.shape, object)
  for r in range(q.shape[0]):
    row = list(p[r])
    for j in range(q.shape[1]):
      v = q[r, j]
      first, count = 0, len(row)
      while count > 0:
        step = count // 2
        mid = first + step
        if upper:
          c = core.bnot(nparr._cmp('<')(v, row[mid]))
        else:
          c = nparr._cmp('<')(row[mid], v)
        if bool(c):
          first = mid + 1
          count -= step + 1
        else:
          count = step
      out[r, j] = first
  return _w(out, o)


@op('DenseBincount', 'Bincount')
def _bincount(it, o, x, size, w):
  n = ints(size)[0]
  p = pylist(x)
  wp = pylist(w)
  dt = npdt(o.outputs[0].dtype)
  binary = False
  try:
    binary = o.get_attr('binary_output')
  except ValueError:
    pass
  rows = [p] if p.ndim == 1 else [p[i] for i in range(p.shape[0])]
  res = []
  for ri, row in enumerate(rows):
    out = [nparr.cast_scalar(0, dt)] * n
    for j, v in enumerate(row):
      wt = (wp[j] if p.ndim == 1 else wp[ri, j]) if wp.size else 1
      for b in range(n):
        hit = _EQ(v, b)
        if binary:
          out[b] = ite(hit, nparr.cast_scalar(1, dt), out[b])
        else:
          out[b] = out[b] + ite(hit, nparr.cast_scalar(wt, dt),
                                nparr.cast_scalar(0, dt))
    res.append(obj((n,), out))
  return _w(res[0] if p.ndim == 1 else (
      _stack(res, 0) if res else np.empty((0, n), object)), o)


@op('InvertPermutation')
def _invperm(it, o, x):
  p = ints(x)
  r = [0] * len(p)
  for i, v in enumerate(p):
    r[v] = i
  return np.array(r, dtype=npdt(o.outputs[0].dtype))


@op('OneHot')
def _onehot(it, o, idx, depth, on, off):
  d = ints(depth)[0]
  p = pylist(idx)
  out = np.empty(p.shape + (d,), object)
  for i in np.ndindex(p.shape):
    for k in range(d):
      out[i + (k,)] = ite(_EQ(p[i], k), scalar(on), scalar(off))
  if o.get_attr('axis') != -1:
    raise Unsupported('one_hot axis')
  return _w(out, o)


# sparse ----------------------------------------------------------------------
@op('SparseToDense')
def _s2d(it, o, idx, shape, vals, default):
  shp = tuple(ints(shape))
  out = obj(shp, [scalar(default)] * int(np.prod(shp)))
  q = pylist(idx)
  if q.ndim == 1:
    q = q[:, None]
  v = pylist(vals)
  prev = None
  for i in range(q.shape[0]):
    ks = tuple(core.concretize_int(k) for k in q[i])
    if o.get_attr('validate_indices'):
      if prev is not None and ks <= prev:
        raise TFError('indices out of order or repeated')
      prev = ks
    for k, n in zip(ks, shp):
      check_range(k, n)
    out[ks] = v[i] if v.ndim else v.item()
  return _w(out, o)


def _sp_reduce(f, ident):
  def g(it, o, idx, vals, shape, axes):
    shp = tuple(ints(shape))
    keep = o.get_attr('keep_dims')
    dt = npdt(o.outputs[-1].dtype if 'Sparse' not in o.type[6:] else
              o.outputs[1].dtype)
    nd = len(shp)
    ax = sorted({a % nd for a in ints(axes)}) if np.size(
        pylist(axes)) else list(range(nd))
    kept = [d for d in range(nd) if d not in ax]
    groups = {}
    q = pylist(idx)
    v = pylist(vals)
    for i in range(q.shape[0]):
      ks = tuple(core.concretize_int(k) for k in q[i])
      g_ = tuple(ks[d] for d in kept)
      groups[g_] = nparr._fin(f(groups[g_], v[i]), dt) if g_ in groups else v[i]
    if o.type.endswith('Sparse'):
      keys = sorted(groups)
      oi = []
      for k in keys:
        if keep:
          full = [0] * nd
          for d, x in zip(kept, k):
            full[d] = x
          oi.append(full)
        else:
          oi.append(list(k))
      width = nd if keep else len(kept)
      oshape = [(shp[d] if d in kept else 1) for d in range(nd)] if keep else [
          shp[d] for d in kept]
      return [np.array(oi, dtype=np.int64).reshape(len(keys), width),
              make(obj((len(keys),), [groups[k] for k in keys]),
                   npdt(o.outputs[1].dtype)),
              np.array(oshape, dtype=np.int64)]
    dt = npdt(o.outputs[0].dtype)
    out_shape = tuple(shp[d] for d in kept)
    out = obj(out_shape, [nparr.cast_scalar(ident, dt)] *
              int(np.prod(out_shape)))
    for k, x in groups.items():
      out[k] = x
    if keep:
      for d in ax:
        out = np.expand_dims(out, d)
    return make_sym(out, dt)
  return g


OPS['SparseReduceSum'] = _sp_reduce(nparr.add_, 0)
OPS['SparseReduceMax'] = _sp_reduce(core.smax, 0)
OPS['SparseReduceSumSparse'] = _sp_reduce(nparr.add_, 0)
OPS['SparseReduceMaxSparse'] = _sp_reduce(core.smax, 0)


@op('SparseTensorDenseAdd')
def _stda(it, o, idx, vals, shape, dense):
  out = pylist(dense).copy()
  q, v = pylist(idx), pylist(vals)
  for i in range(q.shape[0]):
    ks = tuple(core.concretize_int(k) for k in q[i])
    out[ks] = out[ks] + v[i]
  return _w(out, o)


@op('SparseReorder')
def _sreorder(it, o, idx, vals, shape):
  q = pylist(idx)
  rows = [tuple(core.concretize_int(k) for k in q[i])
          for i in range(q.shape[0])]
  order = sorted(range(len(rows)), key=lambda i: rows[i])
  v = pylist(vals)
  return [np.array([rows[i] for i in order], dtype=np.int64).reshape(q.shape),
          obj((len(order),), [v[i] for i in order])]


@op('SparseSlice')
def _sslice(it, o, idx, vals, shape, start, size):
  q, v = pylist(idx), pylist(vals)
  st, sz, shp = ints(start), ints(size), ints(shape)
  oi, ov = [], []
  for i in range(q.shape[0]):
    ks = [core.concretize_int(k) for k in q[i]]
    if all(s <= k < s + z for k, s, z in zip(ks, st, sz)):
      oi.append([k - s for k, s in zip(ks, st)])
      ov.append(v[i])
  osh = [max(min(z, d - s), 0) for z, d, s in zip(sz, shp, st)]
  return [np.array(oi, dtype=np.int64).reshape(len(oi), len(shp)),
          obj((len(ov),), ov), np.array(osh, dtype=np.int64)]


@op('RaggedTensorToSparse')
def _r2s(it, o, *args):
  splits = [ints(a) for a in args[:-1]]
  vals = pylist(args[-1])
  idx = []

  def rec(level, row, prefix):
    s = splits[level]
    for j, k in enumerate(range(s[row], s[row + 1])):
      if level + 1 < len(splits):
        rec(level + 1, k, prefix + [j])
      else:
        tail = vals[k]
        if isinstance(tail, np.ndarray):
          for t in np.ndindex(tail.shape):
            idx.append((prefix + [j] + list(t), tail[t]))
        else:
          idx.append((prefix + [j], tail))
  n = len(splits[0]) - 1
  for r in range(n):
    rec(0, r, [r])
  nd = 1 + len(splits) + (vals.ndim - 1)
  shape = [n]
  for s in splits:
    lens = [b - a for a, b in zip(s, s[1:])]
    shape.append(max(lens) if lens else 0)
  shape += list(vals.shape[1:])
  return [np.array([i for i, _ in idx], dtype=np.int64).reshape(len(idx), nd),
          obj((len(idx),), [v for _, v in idx]),
          np.array(shape, dtype=np.int64)]


@op('RaggedTensorToTensor')
def _r2t(it, o, shape, values, default, *parts):
  types = [t.decode() if isinstance(t, bytes) else t
           for t in o.get_attr('row_partition_types')]
  if any(t not in ('ROW_SPLITS', 'FIRST_DIM_SIZE', 'VALUE_ROWIDS')
         for t in types):
    raise Unsupported('ragged partition type')
  splits = []
  i = 0
  if types and types[0] == 'FIRST_DIM_SIZE':
    n = ints(parts[0])[0]
    cur = n
    i = 1
    while i < len(types):
      ids = ints(parts[i])
      s = [0] * (cur + 1)
      for r in ids:
        s[r + 1] += 1
      s = list(np.cumsum(s))
      splits.append([int(x) for x in s])
      cur = len(ids)
      i += 1
  else:
    splits = [ints(p) for p in parts]
  vals = pylist(values)
  dims = [len(splits[0]) - 1]
  for s in splits:
    lens = [b - a for a, b in zip(s, s[1:])]
    dims.append(max(lens) if lens else 0)
  dims += list(vals.shape[1:])
  want = ints(shape) if np.ndim(pylist(shape)) else []
  for k, w_ in enumerate(want):
    if w_ >= 0:
      dims[k] = w_
  out = obj(tuple(dims), [scalar(default)] * int(np.prod(dims)))

  def rec(level, row, prefix):
    s = splits[level]
    for j, k in enumerate(range(s[row], s[row + 1])):
      if j >= dims[level + 1]:
        break
      if level + 1 < len(splits):
        rec(level + 1, k, prefix + (j,))
      else:
        out[prefix + (j,)] = vals[k]
  for r in range(min(len(splits[0]) - 1, dims[0])):
    rec(0, r, (r,))
  return _w(out, o)


@op('RaggedGather')
def _rgather(it, o, *args):
  n = o.get_attr('PARAMS_RAGGED_RANK')
  splits = [ints(a) for a in args[:n]]
  vals = pylist(args[n])
  idx = ints(args[n + 1])
  if n != 1:
    raise Unsupported('ragged gather rank')
  out, sp = [], [0]
  for r in idx:
    check_range(r, len(splits[0]) - 1)
    out += list(range(splits[0][r], splits[0][r + 1]))
    sp.append(len(out))
  return [np.array(sp, dtype=npdt(o.outputs[0].dtype)), vals[out] if out else
          vals[:0]]


@op('DenseToDenseSetOperation')
def _d2dset(it, o, a, b):
  p, q = pylist(a), pylist(b)
  kind = o.get_attr('set_operation')
  kind = kind.decode() if isinstance(kind, bytes) else kind
  if p.ndim != 2:
    raise Unsupported('set operation rank')
  idx, vals, mx = [], [], 0
  for r in range(p.shape[0]):
    A, B = _set(p[r]), _set(q[r])
    if kind == 'intersection':
      s = [x for x in A if any(bool(_EQ(x, y)) for y in B)]
    elif kind == 'union':
      s = _set(list(A) + list(B))
    elif kind == 'a-b':
      s = [x for x in A if not any(bool(_EQ(x, y)) for y in B)]
    else:
      s = [x for x in B if not any(bool(_EQ(x, y)) for y in A)]
    s = sorted(s, key=functools.cmp_to_key(
        lambda x, y: -1 if bool(nparr._cmp('<')(x, y)) else 1))
    mx = max(mx, len(s))
    for j, x in enumerate(s):
      idx.append([r, j])
      vals.append(x)
  return [np.array(idx, dtype=np.int64).reshape(len(idx), 2),
          obj((len(vals),), vals), np.array([p.shape[0], mx], dtype=np.int64)]


def _set(xs):
  out = []
  for x in xs:
    if not any(bool(_EQ(x, y)) for y in out):
      out.append(x)
  return out


# strings ---------------------------------------------------------------------
@op('StaticRegexFullMatch')
def _regex(it, o, x):
  pat = o.get_attr('pattern')
  if isinstance(pat, bytes):
    pat = pat.decode()

  def f(s):
    if isinstance(s, (STok, SStr)):
      return _regex_tok(pat, s)
    return bool(tf.strings.regex_full_match([s], pat).numpy()[0])
  with _Eager():
    return _w(elementwise(f, x), o)


@op('StaticRegexReplace')
def _regrep(it, o, x):
  pat, rw = o.get_attr('pattern'), o.get_attr('rewrite')

  def real(b):
    return tf.raw_ops.StaticRegexReplace(
        input=[b], pattern=pat, rewrite=rw,
        replace_global=o.get_attr('replace_global')).numpy()[0]

  def f(s):
    if isinstance(s, STok):
      if any(real(core.token_string(i)) != core.token_string(i)
             for i in range(0, 200, 7)):
        raise Unsupported('regex replacement inside a token')
      return s
    if isinstance(s, SStr):
      raise Unsupported('regex replacement in a composite string')
    return real(s)
  with _Eager():
    return _w(elementwise(f, x), o)


@functools.lru_cache(None)
def _regex_uniform(pat):
  """Same verdict on a spread of token strings -> treat as uniform."""
  with _Eager():
    r = tf.strings.regex_full_match(
        [core.token_string(i) for i in range(0, 200)], pat).numpy()
  if r.all():
    return True
  if not r.any():
    return False
  return None


def _regex_tok(pat, s):
  if isinstance(s, STok):
    u = _regex_uniform(pat)
    if u is None:
      raise Unsupported('regex distinguishes tokens')
    return u
  # composite: every token replaced by a representative
  rep = b''.join(bytes([u[1]]) if u[0] == 'c' else
                 core.token_string(7)[u[2]:u[2] + 1] if u[0] == 't' else b'7'
                 for u in s.units)
  with _Eager():
    return bool(tf.strings.regex_full_match([rep], pat).numpy()[0])


@op('RegexFullMatch')
def _regexd(it, o, x, pat):
  p = scalar(pat)
  if isinstance(p, Sym):
    raise Unsupported('symbolic pattern')
  p = p.decode()
  return _w(elementwise(
      lambda s: _regex_tok(p, s) if isinstance(s, Sym) else bool(
          re.fullmatch(p.encode(), s)), x), o)


@op('StringLength')
def _slen(it, o, x):
  def f(s):
    if isinstance(s, STok):
      return 4
    return len(s)
  return _w(elementwise(f, x), o)


@op('StringJoin')
def _sjoin(it, o, *xs):
  sep = o.get_attr('separator')
  sep = sep if isinstance(sep, bytes) else sep.encode()

  def f(*ps):
    parts = []
    for i, p in enumerate(ps):
      if i and sep:
        parts.append(sep)
      parts.append(p)
    return SStr.build(parts)
  return _w(elementwise(f, *xs), o)


@op('ReduceJoin')
def _rjoin(it, o, x, ax):
  sep = o.get_attr('separator')
  sep = sep if isinstance(sep, bytes) else sep.encode()
  axes = _axes(x, ax)
  if len(axes) != 1:
    raise Unsupported('reduce_join axes')
  p = np.moveaxis(pylist(x), axes[0], -1)
  out = np.empty(p.shape[:-1], object)
  for i in np.ndindex(out.shape):
    parts = []
    for k, e in enumerate(p[i]):
      if k and sep:
        parts.append(sep)
      parts.append(e)
    out[i] = SStr.build(parts)
  if o.get_attr('keep_dims'):
    out = np.expand_dims(out, axes[0])
  return _w(out, o)


@op('AsString')
def _asstr(it, o, x):
  def f(e):
    if isinstance(e, SInt):
      return SStr.of_units(markers.dec_units(e))
    if isinstance(e, (STok, SStr, bytes)):
      return e
    if isinstance(e, Sym):
      raise Unsupported('as_string of a real')
    with _Eager():
      return tf.strings.as_string(tf.constant(e, o.inputs[0].dtype)).numpy()
  return _w(elementwise(f, x), o)


@op('StringToNumber')
def _s2n(it, o, x):
  dt = npdt(o.outputs[0].dtype)

  def f(s):
    if isinstance(s, SStr):
      u = s.units
      if len(u) == 1 and u[0][0] == 'r':
        return nparr.cast_scalar(u[0][1], dt)
      if all(c[0] == 'd' for c in u) and len(u) == u[0][3]:
        return nparr.cast_scalar(u[0][1], dt)
      if u[0] == ('c', 45) and all(c[0] == 'd' for c in u[1:]) and (
          len(u) - 1 == u[1][3]):
        return nparr.cast_scalar(-u[1][1], dt)
      raise Unsupported(f'string_to_number of a composite {u[:4]}')
    if isinstance(s, (SInt, SReal)):
      return nparr.cast_scalar(s, dt)
    if isinstance(s, STok):
      raise TFError('StringToNumberOp could not correctly convert string')
    with _Eager():
      return core._norm(tf.strings.to_number(
          [s], tf.as_dtype(o.outputs[0].dtype)).numpy()[0])
  return _w(elementwise(f, x), o)


@op('StringSplitV2')
def _ssplit(it, o, x, sep):
  s = scalar(sep)
  idx, vals, mx = [], [], 0
  for r, e in enumerate(pylist(x).ravel()):
    parts = _split_str(e, s)
    mx = max(mx, len(parts))
    for j, p in enumerate(parts):
      idx.append([r, j])
      vals.append(p)
  return [np.array(idx, dtype=np.int64).reshape(len(idx), 2),
          obj((len(vals),), vals),
          np.array([len(pylist(x).ravel()), mx], dtype=np.int64)]


def _split_str(e, s):
  if isinstance(e, STok):
    if any(bytes([c]) in b't0123456789' for c in s):
      raise Unsupported('separator occurs in tokens')
    return [e]
  if isinstance(e, SStr):
    if any(bytes([c]) in b't0123456789' for c in s):
      raise Unsupported('separator occurs in tokens')
    out, cur = [], []
    u = list(e.units)
    i = 0
    sp = s or b' '
    while i < len(u):
      if all(i + k < len(u) and u[i + k] == ('c', c)
             for k, c in enumerate(sp)):
        out.append(cur)
        cur = []
        i += len(sp)
      else:
        cur.append(u[i])
        i += 1
    out.append(cur)
    if not s:
      out = [c for c in out if c]
    return [SStr.of_units(c) for c in out]
  if not s:
    return e.split()
  return e.split(s)


@op('StringToHashBucketFast', 'StringToHashBucket', 'StringToHashBucketStrong')
def _hash(it, o, x):
  n = o.get_attr('num_buckets')
  key = o.type + (str(list(o.get_attr('key'))) if o.type.endswith('Strong')
                  else '')
  return _w(elementwise(lambda s: hash_bucket(s, n, key, o), x), o)


def hash_bucket(s, n, key, o=None):
  if not isinstance(s, Sym):
    with _Eager():
      if key.startswith('StringToHashBucketFast'):
        return int(tf.strings.to_hash_bucket_fast([s], n).numpy()[0])
      if key == 'StringToHashBucket':
        return int(tf.compat.v1.strings.to_hash_bucket([s], n).numpy()[0])
      return int(tf.strings.to_hash_bucket_strong(
          [s], n, list(o.get_attr('key'))).numpy()[0])
  if isinstance(s, STok):
    f = core._uf(f'hash_{key}_{n}')
    v = core.z3.ToInt(f(core.z3.ToReal(s.z)))
  elif isinstance(s, SStr):
    e = core.engine()
    zs, shape = [], ''
    for u in s.units:
      if u[0] == 'c':
        shape += chr(u[1])
      elif u[2] == 0:
        shape += f'<{u[0]}>'
        zs.append(core.z3.ToReal(u[1].z))
    f = core._uf(f'hash_{key}_{n}_{shape}', len(zs))
    v = core.z3.ToInt(f(*zs))
  else:
    raise Unsupported('hash')
  core.engine().axiom(core.z3.And(v >= 0, v < n))
  return SInt(v, 0, n - 1)


@op('StringUpper', 'StringLower', 'StringStrip')
def _supper(it, o, x):
  def f(s):
    if isinstance(s, STok):
      if o.type == 'StringUpper':
        raise Unsupported('upper')
      return s
    if isinstance(s, SStr):
      raise Unsupported(o.type)
    return {'StringUpper': s.upper, 'StringLower': s.lower,
            'StringStrip': s.strip}[o.type]()
  return _w(elementwise(f, x), o)


# control flow ------------------------------------------------------------------
@op('If', 'StatelessIf')
def _if(it, o, c, *args):
  e = scalar(c)
  if isinstance(e, (bytes, STok, SStr)):
    e = len(e) > 0
  br = o.get_attr('then_branch' if bool(e) else 'else_branch')
  return it.call(_fname(br), args)


def _fname(a):
  return a.name if hasattr(a, 'name') else a


@op('Case', 'StatelessCase')
def _case(it, o, c, *args):
  n = ints(c)[0]
  br = o.get_attr('branches')
  if n < 0 or n >= len(br):
    n = len(br) - 1
  return it.call(_fname(br[n]), args)


@op('While', 'StatelessWhile')
def _while(it, o, *args):
  args = list(args)
  for _ in range(200):
    c = scalar(it.call(_fname(o.get_attr('cond')), args)[0])
    if not bool(c):
      return args
    args = list(it.call(_fname(o.get_attr('body')), args))
  raise Unsupported('while bound')


@op('PartitionedCall', 'StatefulPartitionedCall')
def _pcall(it, o, *args):
  return it.call(_fname(o.get_attr('f')), args)


@op('PyFunc', 'PyFuncStateless')
def _pyfunc(it, o, *args):
  """Calls the registered Python function on arrays of symbols."""
  from tensorflow.python.ops import script_ops
  token = o.get_attr('token')
  token = token.decode() if isinstance(token, bytes) else token
  f = script_ops._py_funcs._funcs.get(token)
  f = f() if isinstance(f, weakref.ref) else f
  if f is None:
    raise TFError(f'Python function {token} is not registered')
  f = getattr(f, '_func', f)
  outs = f(*args)
  outs = outs if isinstance(outs, (list, tuple)) else [outs]
  if len(outs) != len(o.outputs):
    raise TFError(f'{len(outs)} results of {token}, not {len(o.outputs)}')
  return [np.asarray(a) for a in outs]


@op('Assert')
def _assert(it, o, c, *data):
  e = scalar(c)
  if not bool(e):
    raise TFError('assertion failed: ' + ' '.join(
        str(pylist(d).ravel()[:3]) for d in data))
  return []


@op('Print', 'PrintV2')
def _print(it, o, x=None, *rest):
  return [x] if o.outputs else []


# tensor lists -------------------------------------------------------------------
class TList:
  shape = ()

  def __init__(self, items):
    self.items = items


_orig_is_conc = is_conc


def is_conc(a):  # noqa: F811
  if isinstance(a, TList):
    return False
  return _orig_is_conc(a)


def _norm_out2(v, t):
  if isinstance(v, TList):
    return v
  return _norm_out1(v, t)


_norm_out1 = _norm_out
_norm_out = _norm_out2


@op('TensorListReserve')
def _tlr(it, o, shape, n):
  return TList([None] * ints(n)[0])


@op('EmptyTensorList')
def _etl(it, o, shape, n):
  return TList([])


@op('TensorListSetItem')
def _tls(it, o, l, i, x, *rest):
  items = list(l.items)
  k = ints(i)[0]
  while len(items) <= k:
    items.append(None)
  items[k] = x
  return TList(items)


@op('TensorListPushBack')
def _tlp(it, o, l, x):
  return TList(list(l.items) + [x])


@op('TensorListGetItem')
def _tlg(it, o, l, i, shape):
  return l.items[ints(i)[0]]


@op('TensorListFromTensor')
def _tlf(it, o, x, shape):
  p = pylist(x)
  dt = nparr.ldtype(x)
  return TList([make(_o0(p[i]), dt) for i in range(p.shape[0])])


@op('TensorListStack')
def _tlst(it, o, l, shape):
  if not l.items:
    shp = [max(s, 0) for s in ints(shape)] if np.ndim(pylist(shape)) else []
    return np.zeros([0] + shp, npdt(o.outputs[0].dtype)) if npdt(
        o.outputs[0].dtype) != object else np.empty([0] + shp, object)
  return _w(_stack([pylist(x) for x in l.items], 0), o)


@op('TensorListConcatV2')
def _tlc(it, o, l, shape, lead):
  ps = [pylist(x) for x in l.items if x is not None]
  if not ps:
    return [np.zeros((0,), npdt(o.outputs[0].dtype)) if npdt(
        o.outputs[0].dtype) != object else np.empty((0,), object),
            np.array([], dtype=np.int64)]
  return [np.concatenate(ps, 0), np.array([p.shape[0] for p in ps],
                                          dtype=np.int64)]


# tables ------------------------------------------------------------------------
@op('HashTableV2', 'MutableHashTableV2')
def _table(it, o):
  root = getattr(it, 'root', it)
  key = o.name
  t = it.tables.get(key)
  if t is None:
    t = Table(npdt(o.get_attr('key_dtype')), npdt(o.get_attr('value_dtype')))
    it.tables[key] = t
    _init_table(root, o, t)
  return t


def _init_table(it, o, t):
  g = o.graph
  for c in list(o.outputs[0].consumers()):
    if c.type == 'InitializeTableFromTextFileV2':
      fname = it.tensor(c.inputs[1])
      path = _file_of(it, c.inputs[1], fname)
      t.entries = text_file_entries(
          path, c.get_attr('key_index'), c.get_attr('value_index'),
          c.get_attr('vocab_size'), c.get_attr('delimiter'), t.key_dt,
          t.val_dt, _opt_attr(c, 'offset', 0))
      return
    if c.type in ('InitializeTableV2', 'LookupTableImportV2'):
      ks, vs = it.tensor(c.inputs[1]), it.tensor(c.inputs[2])
      t.entries = list(zip(pylist(ks).ravel(), pylist(vs).ravel()))
      return
    if c.type == 'InitializeTableFromDataset':
      t.entries = dataset_entries(it, c, t)
      return
  if hasattr(g, 'structured_outputs'):      # a function's graph
    # initialised earlier, by another function: the live table of that name
    name = _opt_attr(o, 'shared_name', b'') or o.name
    try:
      with _Eager():
        kd, vd = o.get_attr('key_dtype'), o.get_attr('value_dtype')
        h = tf.raw_ops.HashTableV2(
            key_dtype=kd, value_dtype=vd, shared_name=name,
            container=_opt_attr(o, 'container', b''))
        keys, vals = tf.raw_ops.LookupTableExportV2(
            table_handle=h, Tkeys=kd, Tvalues=vd)
        keys, vals = keys.numpy(), vals.numpy()
    except tf.errors.OpError as e:
      raise Unsupported('table without initializer') from e
    t.entries = list(zip(pylist(markers.decode_array(keys)).ravel(),
                         pylist(markers.decode_array(vals)).ravel()))
    return
  raise Unsupported('table without initializer')


def _opt_attr(o, n, d):
  try:
    return o.get_attr(n)
  except ValueError:
    return d


FILE_HOOK = [lambda path: path]


def _file_of(it, tensor, value):
  p = scalar(value)
  if isinstance(p, Sym):
    raise Unsupported('symbolic file name')
  return FILE_HOOK[0](p.decode() if isinstance(p, bytes) else p)


def read_lines(path):
  with tf.io.gfile.GFile(path, 'rb') as f:
    data = f.read()
  lines = data.split(b'\n')
  if lines and lines[-1] == b'':
    lines.pop()
  return lines


def text_file_entries(path, key_index, value_index, vocab_size, delim, kdt,
                      vdt, offset):
  """Semantics of TextFileInitializer."""
  if isinstance(delim, str):
    delim = delim.encode()
  lines = read_lines(path)
  entries = []
  for n, line in enumerate(lines):
    if vocab_size != -1 and n >= vocab_size:
      break

    def col(i, dt, n=n, line=line):
      if i == -1:
        return n + offset if dt != object else str(n).encode()
      if i == -2:
        tok = line
      else:
        tok = line.split(delim)[i]
      v = markers.decode_scalar(tok)
      if dt == object:
        return v
      if isinstance(v, (bytes, str)):
        return int(v) if dt.kind in 'iu' else float(v)
      return nparr.cast_scalar(_num_of(v), dt)
    k, v = col(key_index, kdt), col(value_index, vdt)
    for k2, v2 in entries:
      if not isinstance(k, Sym) and not isinstance(k2, Sym):
        dup = k == k2
      else:
        dup = bool(core.same(k, k2))
      if dup and not (not isinstance(v, Sym) and not isinstance(v2, Sym)
                      and v == v2):
        raise tf.errors.FailedPreconditionError(
            None, None, 'HashTable has different value for same key.')
    entries.append((k, v))
  return entries


def _num_of(v):
  if isinstance(v, SStr):
    u = v.units
    if all(c[0] == 'd' for c in u) or len(u) == 1 and u[0][0] == 'r':
      return u[0][1]
    raise Unsupported('numeric column')
  return v


def dataset_entries(it, c, t):
  """Keys/values of a table initialised from a tf.data pipeline over a file.

  The real initializer runs on the real file, whose bytes carry markers.
  """
  keys, vals = real_dataset_items(c)
  return [(markers.decode_scalar(k), markers.decode_scalar(v))
          for k, v in zip(keys, vals)]


def real_dataset_items(c):
  """Elements of the real tf.data graph feeding table initializer c."""
  sess_graph = c.graph
  with sess_graph.as_default() as g:
    fin = g._finalized
    g._finalized = False
    try:
      name = f'sx_probe_{c.name}'
      try:
        nxt = g.get_operation_by_name(name + '_next')
        init = g.get_operation_by_name(name + '_init')
      except KeyError:
        from tensorflow.python.data.ops import dataset_ops
        from tensorflow.python.ops import gen_dataset_ops
        types = [tf.as_dtype(c.get_attr('Tkey')) if 'Tkey' in c.node_def.attr
                 else tf.string, tf.int64]
        itr = gen_dataset_ops.anonymous_iterator_v2 and \
            gen_dataset_ops.iterator_v2(
                shared_name=name, container='', output_types=types,
                output_shapes=[tf.TensorShape([]), tf.TensorShape([])])
        init = gen_dataset_ops.make_iterator(c.inputs[1], itr,
                                             name=name + '_init')
        nxt = gen_dataset_ops.iterator_get_next(
            itr, output_types=types,
            output_shapes=[tf.TensorShape([]), tf.TensorShape([])],
            name=name + '_next')[0].op
        init = g.get_operation_by_name(name + '_init')
    finally:
      g._finalized = fin
    ks, vs = [], []
    with tf.compat.v1.Session(graph=g) as s:
      s._sx_real = True
      s.run(init)
      while True:
        try:
          k, v = s.run([nxt.outputs[0], nxt.outputs[1]])
        except tf.errors.OutOfRangeError:
          break
        ks.append(k)
        vs.append(int(v))
    return ks, vs


@op('InitializeTableFromTextFileV2', 'InitializeTableV2',
    'LookupTableImportV2', 'InitializeTableFromDataset')
def _inittab(it, o, *a):
  return []


@op('LookupTableSizeV2')
def _tsize(it, o, t):
  return np.array(len(t.entries), dtype=np.int64)


@op('BiasAdd')
def _bias(it, o, x, b):
  if o.get_attr('data_format') != b'NHWC':
    raise Unsupported('BiasAdd layout')
  return _w(elementwise(_add, x, b), o)


@op('LookupTableFindV2')
def _tfind(it, o, t, keys, default):
  d = pylist(default)
  dt = npdt(o.outputs[0].dtype)
  if d.shape:
    raise Unsupported('vector-valued table')

  def f(k):
    r = d.item()
    for ek, ev in reversed(t.entries):
      r = ite(core.same(k, ek), ev, r)
    return nparr._fin(r, dt)
  return _w(elementwise(f, keys), o)


# variables ---------------------------------------------------------------------
class Variable:
  """A captured variable, whose value does not change meanwhile."""

  def __init__(self, value):
    self.value = value


@op('ReadVariableOp')
def _read_var(it, o, v):
  if not isinstance(v, Variable):
    raise Unsupported('variable')
  return markers.decode_array(v.value)


@op('VarHandleOp')
def _var(it, o):
  raise Unsupported('variable')


@op('StatelessRandomUniform', 'RandomUniform')
def _rnd(it, o, *a):
  raise Unsupported('random op')


@op('RaggedRange')
def _ragged_range(it, o, a, b, d):
  A, B, D = (list(pylist(x).ravel()) for x in (a, b, d))
  full = [len(L) for x, L in ((a, A), (b, B), (d, D)) if len(shape_of(x)) > 0]
  n = full[0] if full else 1
  out, sp = [], [0]
  for i in range(n):
    s, e, t = (core.concretize_int(L[i % len(L)]) for L in (A, B, D))
    out += list(range(s, e, t))
    sp.append(len(out))
  return [np.array(sp, dtype=npdt(o.outputs[0].dtype)),
          np.array(out, dtype=npdt(o.outputs[1].dtype))]


@op('LinSpace')
def _linspace(it, o, a, b, n):
  k = ints(n)[0]
  s, e = scalar(a), scalar(b)
  if k == 1:
    return _w(obj((1,), [s]), o)
  return _w(obj((k,), [s + (e - s) * i / (k - 1) for i in range(k)]), o)


@op('Einsum')
def _einsum(it, o, *xs):
  raise Unsupported('einsum')


@op('AddN')
def _addn(it, o, *xs):
  r = xs[0]
  for x in xs[1:]:
    r = make_sym(elementwise(_add, r, x), npdt(o.outputs[0].dtype))
  return r


@op('BroadcastArgs')
def _bargs(it, o, a, b):
  return np.array(np.broadcast_shapes(tuple(ints(a)), tuple(ints(b))),
                  dtype=npdt(o.outputs[0].dtype))


@op('ClipByValue')
def _clip(it, o, x, lo, hi):
  return _w(elementwise(
      lambda e, l, h: core.smax_nan(core.smin_nan(e, h), l), x, lo, hi), o)


@op('ReverseV2')
def _rev(it, o, x, ax):
  return _w(np.flip(pylist(x), _axes(x, ax)), o)


@op('ReverseSequence')
def _revseq(it, o, x, l):
  raise Unsupported('reverse_sequence')


@op('TensorListLength')
def _tll(it, o, l):
  return np.array(len(l.items), dtype=np.int32)


@op('Bucketize')
def _bucketize(it, o, x):
  bs = list(o.get_attr('boundaries'))

  def f(v):
    acc = 0
    for b in bs:
      acc = acc + ite(nparr._cmp('<=')(b, v), 1, 0)
    return acc
  return _w(elementwise(f, x), o)
