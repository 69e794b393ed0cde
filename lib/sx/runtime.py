"""Hooks that let the unmodified tf.Transform code run on symbolic data.

`install()` replaces, while a path is being explored (and only then):
  * the `np` global of the tensorflow_transform modules by a NumPy front end that
    understands symbolic scalars;
  * tf.constant / tf.convert_to_tensor, which store symbols as marker values;
  * Session.run / Session.make_callable and ConcreteFunction calls, whose graphs are
    interpreted symbolically (tfsym);
  * tfx_bsl's tensor-to-Arrow conversion, which receives marker values.
Without an active path every hook calls the original, and `uninstall()` removes them.
"""
from __future__ import annotations

import math
import hashlib
import importlib
import pkgutil

import numpy as np
import tensorflow as tf
from tensorflow.python.client import session as _session
from tensorflow.python.eager import context as _ctx
from tensorflow.python.eager.polymorphic_function import concrete_function as _cf

from sx import core, markers, nparr, tfsym
from sx.core import Unsupported

_ORIG = {}
_MODS = []
# Modules that only move values around: they handle marker values undisturbed.
MOVERS = {'tensorflow_transform.coders.example_proto_coder'}


def tft_modules():
  import tensorflow_transform
  import tensorflow_transform.beam
  out = [tensorflow_transform]
  for m in pkgutil.walk_packages(tensorflow_transform.__path__,
                                 'tensorflow_transform.'):
    if m.name.endswith('_test') or 'test_case' in m.name or (
        'tft_unit' in m.name) or 'test_helpers' in m.name:
      continue
    try:
      out.append(importlib.import_module(m.name))
    except Exception:  # pylint: disable=broad-except
      pass
  return out


def _enc(v):
  """Values handed to TensorFlow or Arrow: symbols become markers."""
  if isinstance(v, core.Sym):
    return markers.encode(v)
  if isinstance(v, nparr.SymArray):
    return np.asarray(markers.encode_array(v))
  if isinstance(v, np.ndarray):
    return markers.encode_array(v) if v.dtype == object else v
  if isinstance(v, (list, tuple)) and not hasattr(v, '_fields'):
    return type(v)(_enc(e) for e in v)
  if isinstance(v, tf.compat.v1.SparseTensorValue):
    return tf.compat.v1.SparseTensorValue(*[_enc(e) for e in v])
  if isinstance(v, tf.compat.v1.ragged.RaggedTensorValue):
    return tf.compat.v1.ragged.RaggedTensorValue(
        _enc(v.values), np.asarray(_enc(v.row_splits)))
  return v


def _to_base(v):
  if isinstance(v, nparr.SymArray):
    return v if nparr.contains_sym(v) else np.asarray(
        v.base_array().tolist(), dtype=v._ldt).reshape(v.shape)
  return v


def _has_sym(v):
  if isinstance(v, core.Sym):
    return True
  if isinstance(v, np.ndarray):
    return nparr.contains_sym(v)
  if isinstance(v, (list, tuple)):
    return any(_has_sym(e) for e in v)
  return False


def _constant(value, dtype=None, *a, **k):
  if core.active():
    if isinstance(value, tf.Tensor):
      return _ORIG['constant'](value, dtype, *a, **k)
    if _has_sym(value):
      if dtype is not None and tf.as_dtype(dtype) != tf.string:
        d = tf.as_dtype(dtype).as_numpy_dtype
        arr = value if isinstance(value, np.ndarray) else np.array(
            value, dtype=object)
        value = markers.encode_array(nparr.make_sym(
            nparr.elementwise(lambda e: e, arr), np.dtype(d)), d)
      else:
        value = _enc(value)
    elif isinstance(value, nparr.SymArray):
      value = _to_base(value)
  return _ORIG['constant'](value, dtype, *a, **k)


def _convert(value, dtype=None, *a, **k):
  if core.active() and (_has_sym(value) or isinstance(value, nparr.SymArray)):
    return _constant(value, dtype)
  return _ORIG['convert'](value, dtype, *a, **k)


# -- sessions -------------------------------------------------------------------


def _tables():
  n = core.engine().notes
  return n.setdefault('tables', {})


def _is_tensorish(f):
  return isinstance(f, (tf.Tensor, tf.SparseTensor, tf.RaggedTensor))


def _resolve(graph, f):
  if isinstance(f, str):
    try:
      return graph.as_graph_element(f)
    except Exception:  # pylint: disable=broad-except
      return f
  return f


def _map(f, s):
  if isinstance(s, dict):
    return type(s)((k, _map(f, v)) for k, v in s.items()) if not hasattr(
        s, 'default_factory') else {k: _map(f, v) for k, v in s.items()}
  if isinstance(s, (list, tuple)) and not _is_tensorish(s):
    if hasattr(s, '_fields'):
      return type(s)(*[_map(f, v) for v in s])
    return type(s)(_map(f, v) for v in s)
  return f(s)


def _leaves(s):
  out = []
  _map(out.append, s)
  return out


def feed_value(it, t, v):
  if isinstance(t, tf.SparseTensor):
    it.feed(t.indices, _feed1(v[0], t.indices))
    it.feed(t.values, _feed1(v[1], t.values))
    it.feed(t.dense_shape, _feed1(v[2], t.dense_shape))
  elif isinstance(t, tf.RaggedTensor):
    feed_value(it, t.values, v.values)
    it.feed(t.row_splits, _feed1(v.row_splits, t.row_splits))
  else:
    it.feed(t, _feed1(v, t))


def _feed1(v, t):
  if isinstance(v, tf.Tensor):
    v = v.numpy()
    if isinstance(v, bytes):
      v = np.array(v, dtype=object)
  if isinstance(v, nparr.SymArray):
    return v
  if isinstance(v, core.Sym):
    return nparr.make_sym(nparr.obj((), [v]), tfsym.npdt(t.dtype))
  if not isinstance(v, np.ndarray):
    if _has_sym(v):
      return nparr.make_sym(np.array(v, dtype=object), tfsym.npdt(t.dtype))
    v = np.asarray(v)
  dt = tfsym.npdt(t.dtype)
  if dt == object:
    if v.dtype.kind in 'SU':
      v = v.astype(object)
    v = np.vectorize(lambda e: e.encode() if isinstance(e, str) else e,
                     otypes=[object])(v) if v.size else v.astype(object)
  elif v.dtype != dt:
    v = v.astype(dt)
  return markers.decode_array(v)


def _fetch(it, f):
  if isinstance(f, tf.SparseTensor):
    return tf.compat.v1.SparseTensorValue(
        _to_base(it.tensor(f.indices)), _to_base(it.tensor(f.values)),
        _to_base(it.tensor(f.dense_shape)))
  if isinstance(f, tf.RaggedTensor):
    vals = _fetch(it, f.values)
    rs = np.asarray(tfsym.ints(it.tensor(f.row_splits)),
                    dtype=f.row_splits.dtype.as_numpy_dtype)
    return tf.compat.v1.ragged.RaggedTensorValue(vals, rs)
  v = _to_base(it.tensor(f))
  if isinstance(v, np.ndarray) and v.shape == () and not nparr.contains_sym(v):
    return v[()] if v.dtype != object else v.item()
  return v


def _session_run(self, fetches, feed_dict=None, options=None,
                 run_metadata=None):
  if core.active() and not getattr(self, '_sx_real', False):
    graph = self.graph
    fe = _map(lambda f: _resolve(graph, f), fetches)
    ls = _leaves(fe)
    if any(_is_tensorish(l) for l in ls):
      it = tfsym.Interp(graph, _tables())
      for t, v in (feed_dict or {}).items():
        feed_value(it, _resolve(graph, t), v)
      def one(l):
        if _is_tensorish(l):
          return _fetch(it, l)
        if isinstance(l, tf.Operation):
          it._eval_op(l)
          return None
        raise Unsupported(f'fetch of {type(l)}')
      return _map(one, fe)
  try:
    return _ORIG['session_run'](self, fetches, feed_dict, options,
                                run_metadata)
  except tf.errors.InvalidArgumentError as e:
    # a real table with integer keys cannot hold a placeholder; lookups read the
    # file symbolically
    if core.active() and core.PH_OPEN in str(e) and 'is not a valid' in str(e):
      return None
    raise


def _make_callable(self, fetches, feed_list=None, accept_options=False):
  orig = []

  def call(*args):
    if core.active() and not getattr(self, '_sx_real', False):
      return self.run(fetches, dict(_FeedItems(zip(feed_list or (), args))))
    if not orig:
      orig.append(_ORIG['make_callable'](
          self, fetches, feed_list, accept_options))
    return orig[0](*args)
  if not core.active():
    return _ORIG['make_callable'](self, fetches, feed_list, accept_options)

  def sym_call(*args):
    if not core.active():
      return call(*args)
    graph = self.graph
    it = tfsym.Interp(graph, _tables())
    for t, v in zip(feed_list or (), args):
      feed_value(it, _resolve(graph, t), v)
    return _map(lambda l: _fetch(it, _resolve(graph, l)), fetches)
  return sym_call


class _FeedItems(list):
  pass


# -- concrete functions -----------------------------------------------------------


_MARKED = {}


def _graph_marked(graph):
  k = id(graph)
  hit = _MARKED.get(k)
  if hit is not None and hit[0] is graph:
    return hit[1]
  r = _scan(graph, set())
  _MARKED[k] = (graph, r)
  return r


def _scan(graph, seen):
  for o in graph.get_operations():
    if o.type == 'Const' and o.outputs[0].dtype in (
        tf.float32, tf.float64, tf.int32, tf.int64, tf.string):
      if markers.has_markers(np.asarray(tfsym._const_value(o))):
        return True
    for a in ('f', 'then_branch', 'else_branch', 'body', 'cond'):
      if a in o.node_def.attr and o.node_def.attr[a].HasField('func'):
        n = o.node_def.attr[a].func.name
        if n in seen:
          continue
        seen.add(n)
        try:
          g = tfsym._func_graph(graph, n, graph)
        except Unsupported:
          continue
        if _scan(g, seen):
          return True
  return False


_INIT = {}


def _initialises_table(graph):
  k = id(graph)
  if k not in _INIT or _INIT[k][0] is not graph:
    if len(_INIT) > 300:
      _INIT.clear()
    r = _initialises(graph, graph)
    _INIT[k] = (graph, r)
  return _INIT[k][1]


def _initialises(graph, root, depth=0):
  ops = graph.get_operations()
  if len(ops) >= 40:
    return False
  if any(o.type.startswith('InitializeTable') for o in ops):
    return True
  for o in ops:
    a = o.node_def.attr
    if depth < 8 and 'f' in a and a['f'].HasField('func'):
      try:
        g = tfsym._func_graph(graph, a['f'].func.name, root)
      except Unsupported:
        continue
      if _initialises(g, root, depth + 1):
        return True
  return False


def table_types(graph, t, root, depth=0):
  for c in t.consumers():
    nd = c.node_def.attr
    if c.type.startswith('LookupTableFind') or c.type.startswith(
        'InitializeTable') or c.type.startswith('LookupTableInsert'):
      for a, b in (('Tin', 'Tout'), ('Tkey', 'Tval')):
        if a in nd and b in nd:
          return c.get_attr(a), c.get_attr(b)
    if c.type in ('PartitionedCall', 'StatefulPartitionedCall', 'If',
                  'StatelessIf') and depth < 20:
      off = 1 if c.type in ('If', 'StatelessIf') else 0
      for a in ('f', 'then_branch', 'else_branch'):
        if a in nd and nd[a].HasField('func'):
          g = tfsym._func_graph(graph, nd[a].func.name, root)
          for i, x in enumerate(c.inputs):
            if x is t and i >= off:
              r = table_types(g, g.inputs[i - off], root, depth + 1)
              if r:
                return r
  return None


def export_table(graph, ph, resource):
  """Entries of an initialised table as a tfsym.Table (markers decoded)."""
  types = table_types(graph, ph, graph)
  if types is None:
    return None
  kd, vd = types
  keys, vals = tf.raw_ops.LookupTableExportV2(
      table_handle=resource, Tkeys=kd, Tvalues=vd)
  tb = tfsym.Table(tfsym.npdt(kd), tfsym.npdt(vd))
  kk = markers.decode_array(np.asarray(keys.numpy()))
  vv = markers.decode_array(np.asarray(vals.numpy()))
  tb.entries = list(zip(list(nparr.pylist(kk)), list(nparr.pylist(vv))))
  d = tf.raw_ops.LookupTableFindV2
  # default values are passed at lookup time
  return tb


def _call_flat(self, tensor_inputs, captured_inputs):
  if not core.active() or not _ctx.executing_eagerly():
    return _ORIG['call_flat'](self, tensor_inputs, captured_inputs)
  if not self.graph.outputs:
    return _ORIG['call_flat'](self, tensor_inputs, captured_inputs)
  args = list(tensor_inputs) + list(captured_inputs)
  graph = self.graph
  if _initialises_table(graph):
    return _ORIG['call_flat'](self, tensor_inputs, captured_inputs)
  with core.paused():
    vals = []
    resources = []
    for t, a in zip(graph.inputs, args):
      if a.dtype == tf.resource:
        resources.append((t, a))
        vals.append(None)
      elif a.dtype == tf.variant:
        return _ORIG['call_flat'](self, tensor_inputs, captured_inputs)
      else:
        v = a.numpy()
        vals.append(np.array(v, dtype=object) if isinstance(v, bytes)
                    else np.asarray(v))
  marked = any(v is not None and markers.has_markers(v) for v in vals)
  if not marked:
    marked = _graph_marked(graph)
  tabs = {}
  for t, a in resources:
    with core.paused():
      v = _variable_value(a)
    if v is not None:
      marked = marked or markers.has_markers(v)
      tabs[id(t)] = tfsym.Variable(v)
      continue
    tb = _export_cached(graph, t, a)
    tabs[id(t)] = tb
    if tb is not None and any(
        isinstance(x, core.Sym) for e in tb.entries for x in e):
      marked = True
  if not marked:
    return _ORIG['call_flat'](self, tensor_inputs, captured_inputs)
  it = tfsym.Interp(graph, _tables())
  for t, v in zip(graph.inputs, vals):
    if v is None:
      tb = tabs[id(t)]
      if tb is not None:
        it.feed(t, tb)
    else:
      it.feed(t, markers.decode_array(v))
  outs = []
  for t in graph.outputs:
    v = _to_base(it.tensor(t))
    v = markers.encode_array(v, None if tfsym.npdt(t.dtype) == object
                             else tfsym.npdt(t.dtype))
    outs.append(_ORIG['constant'](v, dtype=t.dtype))
  for o in getattr(graph, 'control_outputs', None) or []:
    it._eval_op(o)
  return self._build_call_outputs(outs) if hasattr(
      self, '_build_call_outputs') else self.function_type.pack_output(outs)


def _variable_value(res):
  """Value of the variable a resource stands for; None for anything else."""
  data = getattr(res, '_handle_data', None)
  if data is None or not data.is_set or not data.shape_and_type:
    return None
  v = tf.raw_ops.ReadVariableOp(
      resource=res, dtype=tf.dtypes.as_dtype(data.shape_and_type[0].dtype))
  v = v.numpy()
  return np.array(v, dtype=object) if isinstance(v, bytes) else np.asarray(v)


def _export_cached(graph, ph, res):
  n = core.engine().notes.setdefault('exported', {})
  k = res._id if hasattr(res, '_id') else id(res)
  if k not in n:
    try:
      n[k] = (res, export_table(graph, ph, res))
    except (tf.errors.OpError, TypeError) as e:
      raise Unsupported(f'captured resource: {str(e)[:80]}')
  return n[k][1]


# -- arrow ------------------------------------------------------------------------


def _convert_rb(self, tensors):
  if core.active():
    tensors = {k: _enc_tensor(v) for k, v in tensors.items()}
  return _ORIG['rb'](self, tensors)


def _enc_tensor(v):
  if isinstance(v, tf.Tensor):
    return v
  return _enc(v)


# -- sets -------------------------------------------------------------------------
class _SetMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (set, _SetBase))


class _SetBase(set):
  """A set whose membership test compares symbolic members by value."""

  def __init__(self, it=()):
    super().__init__()
    for x in it:
      self.add(x)

  def __contains__(self, x):
    if core.active() and isinstance(x, (str, bytes)):
      x = core.unplace(x)
    if core.active() and (isinstance(x, core.Sym) or any(
        isinstance(e, core.Sym) for e in self)):
      return any(bool(core.same(x, e)) for e in list(self))
    return super().__contains__(x)

  def add(self, x):
    if x not in self:
      super().add(x)


class SymSet(_SetBase, metaclass=_SetMeta):
  pass


# -- cache coders: symbols cross an encoding as marker values ---------------------


_IN_CODER = [0]


def _hook_coders():
  from tensorflow_transform import analyzer_nodes
  import tensorflow_transform.experimental.analyzers  # pylint: disable=unused-import
  done = _ORIG['coders'] = []
  todo = [analyzer_nodes.CacheCoder]
  while todo:
    cls = todo.pop()
    todo += cls.__subclasses__()
    for name in ('encode_cache', 'decode_cache'):
      old = vars(cls).get(name)
      if old is not None and not getattr(old, '__isabstractmethod__', False):
        done.append((cls, name, old))
        setattr(cls, name, (_encoder if name[0] == 'e' else _decoder)(old))


def _encoder(old):
  def encode_cache(self, x):
    if not core.active() or _IN_CODER[0]:
      return old(self, x)
    _IN_CODER[0] += 1
    try:
      r = old(self, markers.encode(x, scalars=True))
    finally:
      _IN_CODER[0] -= 1
    return markers.Opaque(r) if isinstance(r, bytes) else r
  return encode_cache


def _decoder(old):
  def decode_cache(self, x):
    if not core.active() or _IN_CODER[0]:
      return old(self, x)
    _IN_CODER[0] += 1
    try:
      r = old(self, bytes(x) if isinstance(x, markers.Opaque) else x)
    finally:
      _IN_CODER[0] -= 1
    return markers.decode(r)
  return decode_cache


# -- hashes of symbolic strings: an arbitrary injection ----------------------------


class HashShim:

  def __getattr__(self, n):
    f = getattr(hashlib, n)
    if n not in ('sha1', 'md5', 'sha256'):
      return f

    def hashed(x=b'', *a, **k):
      if core.active() and isinstance(x, (str, bytes)):
        x = core.unplace(x)
      if not (core.active() and isinstance(x, core.Sym)):
        return f(x, *a, **k)
      seen = core.engine().notes.setdefault('hashed', [])
      for i, y in enumerate(seen):
        if bool(core.same(x, y)):
          return _Digest(i)
      seen.append(x)
      return _Digest(len(seen) - 1)
    return hashed


HASH_SHIM = HashShim()


class _Digest:

  def __init__(self, i):
    self.i = i

  def digest(self):
    return b'%020d' % self.i

  def hexdigest(self):
    return '%040x' % self.i


# -- install ----------------------------------------------------------------------


def install():
  if _ORIG:
    return
  _ORIG['constant'] = tf.constant
  _ORIG['convert'] = tf.convert_to_tensor
  _ORIG['session_run'] = _session.BaseSession.run
  _ORIG['make_callable'] = _session.BaseSession.make_callable
  _ORIG['call_flat'] = _cf.ConcreteFunction._call_flat
  from tfx_bsl.tfxio import tensor_to_arrow as tta
  _ORIG['rb'] = tta.TensorsToRecordBatchConverter.convert
  tf.constant = _constant
  tf.convert_to_tensor = _convert
  _session.BaseSession.run = _session_run
  _session.BaseSession.make_callable = _make_callable
  _cf.ConcreteFunction._call_flat = _call_flat
  tta.TensorsToRecordBatchConverter.convert = _convert_rb
  from tensorflow_transform.coders import example_proto_coder as epc
  enc = _ORIG['example_encode'] = epc.ExampleProtoCoder.encode

  def encode(self, instance):
    if not core.active():
      return enc(self, instance)
    r = enc(self, markers.encode(instance))
    return markers.Opaque(r) if isinstance(r, bytes) else r

  epc.ExampleProtoCoder.encode = encode
  _hook_coders()
  from tfx_bsl import sketches as real_sketches
  import pyarrow as real_pa
  from sx import sketch
  for m in tft_modules():
    if getattr(m, 'np', None) is np and m.__name__ not in MOVERS:
      m.np = nparr.TYPED_SHIM
      _MODS.append((m, 'np', np))
    for n, v in list(vars(m).items()):
      if v is math:
        _MODS.append((m, n, v))
        setattr(m, n, core.MATH_SHIM)
      elif callable(v) and getattr(v, '__module__', '') == 'math' and v is (
          getattr(math, getattr(v, '__name__', ''), None)):
        _MODS.append((m, n, v))
        setattr(m, n, getattr(core.MATH_SHIM, v.__name__))
    if m.__name__.endswith('.analyzer_impls') and 'set' not in vars(m):
      m.set = SymSet
      if hasattr(m, 'hashlib'):
        _MODS.append((m, 'hashlib', m.hashlib))
        m.hashlib = HASH_SHIM
    if getattr(m, 'sketches', None) is real_sketches:
      m.sketches = sketch.SketchShim()
      _MODS.append((m, 'sketches', real_sketches))
      if getattr(m, 'pa', None) is real_pa:
        m.pa = sketch.PaShim()
        _MODS.append((m, 'pa', real_pa))


def uninstall():
  if not _ORIG:
    return
  tf.constant = _ORIG['constant']
  tf.convert_to_tensor = _ORIG['convert']
  _session.BaseSession.run = _ORIG['session_run']
  _session.BaseSession.make_callable = _ORIG['make_callable']
  _cf.ConcreteFunction._call_flat = _ORIG['call_flat']
  from tfx_bsl.tfxio import tensor_to_arrow as tta
  tta.TensorsToRecordBatchConverter.convert = _ORIG['rb']
  from tensorflow_transform.coders import example_proto_coder as epc
  epc.ExampleProtoCoder.encode = _ORIG['example_encode']
  for cls, name, old in _ORIG['coders']:
    setattr(cls, name, old)
  for m, name, old in _MODS:
    setattr(m, name, old)
  for m in tft_modules():
    if vars(m).get('set') is SymSet:
      del m.set
  _MODS.clear()
  _ORIG.clear()


def new_path():
  """Drops per-graph caches of the previous path."""
  if len(tfsym._FG) > 200 or len(tfsym._CONST) > 5000 or len(
      tfsym._ATTR_CACHE) > 5000:
    tfsym._FG.clear()
    tfsym._CONST.clear()
    tfsym._ATTR_CACHE.clear()
  if len(_MARKED) > 50:
    _MARKED.clear()
