"""Symbolic NumPy arrays and a shim for the module global `np` (and friends).

A SymArray is an object-dtype ndarray whose elements are concrete Python scalars
or symbolic values (core.Sym) together with a logical dtype.  Floats are reals
with concrete NaN/inf; integers wrap at the width of the logical dtype.
"""
from __future__ import annotations

import builtins
import functools
import math

import numpy as np
import z3

from sx import core
from sx.core import Sym, SBool, SInt, SReal, STok, Unsupported
from sx.core import ite


# ---------------------------------------------------------------------------
# helpers


def wrap_int(x, dt):
  """Wraps a Python/symbolic integer into integer dtype dt."""
  info = np.iinfo(dt)
  lo, hi = int(info.min), int(info.max)
  if isinstance(x, bool):
    return int(x)
  if isinstance(x, int):
    if lo <= x <= hi:
      return x
    return (x - lo) % (hi - lo + 1) + lo
  if isinstance(x, SBool):
    return x.as_int()
  if isinstance(x, SInt):
    if x.lo is not None and x.lo >= lo and x.hi is not None and x.hi <= hi:
      return x
    m = hi - lo + 1
    z = x.z
    return SInt(z3.If(z3.And(z >= lo, z <= hi), z, (z - lo) % m + lo), lo, hi)
  return x


def cast_scalar(x, dt, src=None):
  """numpy/TF style cast of one scalar to logical dtype dt."""
  dt = np.dtype(dt)
  x = core._norm(x)
  if dt == np.dtype(object):
    return x
  if dt.kind == 'b':
    if isinstance(x, (SBool, bool)):
      return x
    if isinstance(x, (SInt, SReal)):
      return x != 0
    return bool(x)
  if dt.kind in 'iu':
    if isinstance(x, SReal):
      return wrap_int(core.strunc(x), dt)
    if isinstance(x, float):
      if math.isnan(x) or math.isinf(x):
        # Implementation defined in C; numpy/TF on x86 give the minimum.
        return int(np.iinfo(dt).min)
      return wrap_int(int(x), dt)
    if isinstance(x, (int, SInt, SBool)):
      return wrap_int(x, dt)
    if isinstance(x, (str, bytes)):
      return int(x)
    raise Unsupported(f'cast {type(x)} -> {dt}')
  if dt.kind == 'f':
    if isinstance(x, (SInt, SBool)):
      return core.to_real(x)
    if isinstance(x, SReal):
      return x
    if isinstance(x, (int, float)):
      return float(x) if dt.itemsize == 8 else float(dt.type(x))
    if isinstance(x, core.Fraction):
      return float(x)
    raise Unsupported(f'cast {type(x)} -> {dt}')
  if dt.kind in 'SU':
    return x
  raise Unsupported(f'cast to {dt}')


def infer_dtype(elems):
  kinds = set()
  for e in elems:
    e = core._norm(e)
    if isinstance(e, (SBool, bool)):
      kinds.add('b')
    elif isinstance(e, (SInt, int)):
      kinds.add('i')
    elif isinstance(e, (SReal, float, core.Fraction)):
      kinds.add('f')
    else:
      kinds.add('O')
  if 'O' in kinds:
    return np.dtype(object)
  if 'f' in kinds or not kinds:
    return np.dtype(np.float64)
  if 'i' in kinds:
    return np.dtype(np.int64)
  return np.dtype(bool)


def pylist(a):
  """Elements of any array as Python scalars (object ndarray)."""
  if isinstance(a, SymArray):
    return a.base_array()
  a = np.asarray(a)
  if a.dtype == object:
    out = np.empty(a.shape, object)
    for i in np.ndindex(a.shape):
      out[i] = core._norm(a[i])
    return out
  out = np.empty(a.shape, object)
  if a.size:
    flat = a.ravel().tolist()
    o = out.ravel()
    for i, v in enumerate(flat):
      o[i] = v
    out = o.reshape(a.shape)
  return out


def obj(shape, values=None):
  out = np.empty(shape, object)
  if values is not None:
    f = out.reshape(-1)
    for i, v in enumerate(values):
      f[i] = v
    out = f.reshape(shape)
  return out


def contains_sym(x, depth=0):
  if isinstance(x, (Sym, SymArray)):
    return True
  if depth < 5 and isinstance(x, (list, tuple)):
    return any(contains_sym(e, depth + 1) for e in x)
  if isinstance(x, np.ndarray) and x.dtype == object:
    return any(isinstance(e, Sym) for e in x.ravel())
  return False


def ldtype(x):
  if isinstance(x, SymArray):
    return x._ldt
  if isinstance(x, np.ndarray):
    return x.dtype
  if isinstance(x, np.generic):
    return x.dtype
  if isinstance(x, (SBool, bool)):
    return bool
  if isinstance(x, (SInt, int)):
    return int
  if isinstance(x, (SReal, float, core.Fraction)):
    return float
  return object


def make(arr, dt):
  """Object ndarray -> SymArray, or a real ndarray when fully concrete."""
  dt = np.dtype(dt)
  if not isinstance(arr, np.ndarray):
    arr = obj((), [arr])
  if arr.dtype != object:
    arr = pylist(arr)
  if dt == object or not any(isinstance(e, Sym) for e in arr.ravel()):
    if dt == object:
      return np.array(arr, dtype=object, copy=True).view(np.ndarray)
    if dt.kind in 'SU':
      return arr.astype(dt)
    try:
      with np.errstate(all='ignore'):
        return np.asarray(arr.tolist(), dtype=dt).reshape(arr.shape)
    except OverflowError:
      return np.asarray([wrap_int(int(e), dt) for e in arr.ravel()],
                        dtype=dt).reshape(arr.shape)
  r = arr.view(SymArray)
  r._ldt = dt
  return r


def make_sym(arr, dt):
  """Like make but always a SymArray."""
  r = np.asarray(arr, dtype=object).view(SymArray)
  r._ldt = np.dtype(dt)
  return r


_DUMMY = {}


def _res_dtype(ufunc, inputs):
  key = (ufunc, tuple(str(ldtype(i)) for i in inputs))
  r = _DUMMY.get(key)
  if r is None:
    args = []
    for i in inputs:
      d = ldtype(i)
      if d is bool:
        args.append(True)
      elif d is int:
        args.append(1)
      elif d is float:
        args.append(1.0)
      elif d is object or d == np.dtype(object):
        return np.dtype(object)
      else:
        args.append(np.ones((1,), d))
    with np.errstate(all='ignore'):
      out = ufunc(*args)
    r = np.asarray(out).dtype
    _DUMMY[key] = r
  return r


def _logical(f):
  return lambda a, b: f(a, b)


def _np_sign(a):
  return ite(a > 0, 1, ite(a < 0, -1, 0))


def pow_(a, b):
  a, b = core._norm(a), core._norm(b)
  if isinstance(b, Sym):
    raise Unsupported('symbolic exponent')
  if not isinstance(a, Sym):
    with np.errstate(all='ignore'):
      return core._norm(np.power(a, b))
  return a ** b


def add_(a, b):
  if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
    return core.bor(a, b)
  if isinstance(a, bytes) or isinstance(b, bytes):
    return a + b
  with np.errstate(all='ignore'):
    return a + b


def mul_(a, b):
  if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
    return core.band(a, b)
  return a * b


def sub_(a, b):
  return a - b


def _cmp(op):
  def f(a, b):
    a, b = core._norm(a), core._norm(b)
    if not isinstance(a, Sym) and isinstance(b, Sym):
      r = _SWAP[op](b, a)
    else:
      r = _CMP[op](a, b)
    if r is NotImplemented:
      raise Unsupported(f'compare {type(a)} {type(b)}')
    return r
  return f


_CMP = {
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
    '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
}
_SWAP = {
    '<': lambda a, b: a > b, '<=': lambda a, b: a >= b,
    '>': lambda a, b: a < b, '>=': lambda a, b: a <= b,
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
}


def floordiv_(a, b):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    if b == 0:
      return 0 if isinstance(b, int) else core.sdiv(a, b)
    return a // b
  if isinstance(b, (SInt, int)) and not isinstance(b, bool):
    if isinstance(b, int) and b == 0:
      return 0
    if isinstance(b, SInt) and bool(b == 0):
      return 0
  return a // b


def mod_(a, b):
  if isinstance(b, int) and b == 0:
    return 0
  return a % b


def neg_(a):
  return -a


UFUNCS = {
    'add': add_, 'subtract': sub_, 'multiply': mul_,
    'true_divide': core.sdiv, 'divide': core.sdiv,
    'floor_divide': floordiv_, 'remainder': mod_, 'mod': mod_,
    'negative': neg_, 'positive': lambda a: a, 'absolute': abs, 'abs': abs,
    'fabs': abs,
    'less': _cmp('<'), 'less_equal': _cmp('<='), 'greater': _cmp('>'),
    'greater_equal': _cmp('>='), 'equal': _cmp('=='), 'not_equal': _cmp('!='),
    'logical_and': lambda a, b: core.band(_tb(a), _tb(b)),
    'logical_or': lambda a, b: core.bor(_tb(a), _tb(b)),
    'logical_not': lambda a: core.bnot(_tb(a)),
    'bitwise_and': lambda a, b: core.band(a, b),
    'bitwise_or': lambda a, b: core.bor(a, b),
    'invert': core.bnot,
    'maximum': core.smax_nan, 'minimum': core.smin_nan,
    'fmax': lambda a, b: b if core.isnan(a) else a if core.isnan(b)
            else core.smax(a, b),
    'fmin': lambda a, b: b if core.isnan(a) else a if core.isnan(b)
            else core.smin(a, b),
    'sqrt': core.ssqrt, 'exp': core.sexp, 'log': core.slog,
    'log2': core.slog2,
    'isnan': core.isnan, 'isfinite': core.isfinite,
    'isinf': lambda a: isinstance(a, float) and math.isinf(a),
    'power': pow_, 'square': lambda a: a * a, 'sign': _np_sign,
    'floor': core.sfloor, 'ceil': core.sceil, 'rint': core.sround,
    'trunc': lambda a: core.to_real(core.strunc(a)),
}


def _tb(x):
  """Truth value as bool/SBool."""
  x = core._norm(x)
  if isinstance(x, (bool, SBool)):
    return x
  if isinstance(x, (SInt, SReal)):
    return x != 0
  return bool(x)


def elementwise(f, *arrays):
  bs = np.broadcast_arrays(*[pylist(a) for a in arrays])
  out = np.empty(bs[0].shape, object)
  for i in np.ndindex(out.shape):
    out[i] = f(*[b[i] for b in bs])
  return out


def _conc_index(i):
  """Index with symbolic parts decided on this path."""
  if isinstance(i, tuple):
    return tuple(_conc_index(e) for e in i)
  if isinstance(i, SymArray):
    b = i.base_array()
    if i._ldt == np.dtype(bool):
      return np.array([bool(e) for e in b.ravel()], bool).reshape(b.shape)
    return np.array([core.concretize_int(e) for e in b.ravel()],
                    np.int64).reshape(b.shape)
  if isinstance(i, core.SInt):
    return core.concretize_int(i)
  return i


class SymArray(np.ndarray):
  """Object ndarray with a logical dtype."""
  __array_priority__ = 500

  def __array_finalize__(self, o):
    self._ldt = getattr(o, '_ldt', np.dtype(object))

  @property
  def dtype(self):
    return self._ldt

  def base_array(self):
    return np.ndarray.view(self, np.ndarray)

  def astype(self, dt, copy=True, **kw):
    dt = np.dtype(getattr(dt, 'dtype', dt) if not isinstance(dt, type) else dt)
    return make(elementwise(lambda x: cast_scalar(x, dt), self), dt)

  def __getitem__(self, i):
    r = np.ndarray.__getitem__(self.base_array(), _conc_index(i))
    if isinstance(r, np.ndarray):
      return make(r, self._ldt) if not r.flags.writeable else self._wrap(r)
    return make_sym(obj((), [r]), self._ldt)

  def _wrap(self, r):
    v = r.view(SymArray)
    v._ldt = self._ldt
    return v

  def __setitem__(self, i, v):
    b = self.base_array()
    if isinstance(i, SymArray) and i._ldt == np.dtype(bool) and (
        not isinstance(v, (np.ndarray, list, tuple)) or np.shape(v) == ()):
      # masked assignment of one value: no decision is needed
      v = cast_scalar(v.item() if isinstance(v, np.ndarray) else v, self._ldt)
      m = np.broadcast_to(i.base_array().reshape(
          i.shape + (1,) * (b.ndim - i.ndim)), b.shape)
      for ix in np.ndindex(b.shape):
        b[ix] = core.ite(m[ix], v, b[ix])
      return
    i = _conc_index(i)
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
      vv = pylist(v) if isinstance(v, np.ndarray) else pylist(
          np.array(v, dtype=object))
      vv = elementwise(lambda x: cast_scalar(x, self._ldt), vv)
      b[i] = vv if vv.shape else vv.item()
    else:
      b[i] = cast_scalar(v, self._ldt)

  def item(self, *a):
    return np.ndarray.item(self.base_array(), *a)

  def tolist(self):
    return self.base_array().tolist()

  def __bool__(self):
    if self.size != 1:
      raise ValueError('truth value of an array is ambiguous')
    return bool(self.item())

  def __int__(self):
    return int(self.item())

  def __index__(self):
    return core.concretize_int(self.item())

  def __float__(self):
    return float(self.item())

  def __iter__(self):
    for i in range(len(self)):
      yield self[i]

  def __hash__(self):
    if self.shape == ():
      return 0
    raise TypeError('unhashable')

  def __deepcopy__(self, memo):
    return self._wrap(self.base_array().copy())

  def __reduce__(self):
    raise Unsupported('pickling a symbolic array')

  def __str__(self):
    return core.placeholder(self.item()) if self.shape == () else (
        np.ndarray.__str__(self.base_array()))

  def __format__(self, spec):
    return str(self)

  def tobytes(self, *a):
    raise Unsupported('tobytes')

  # reductions
  def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
    return FUNCS['sum'](self, axis=axis, keepdims=keepdims)

  def max(self, axis=None, **k):
    return FUNCS['max'](self, axis=axis)

  def min(self, axis=None, **k):
    return FUNCS['min'](self, axis=axis)

  def mean(self, axis=None, **k):
    return FUNCS['mean'](self, axis=axis)

  def all(self, axis=None, **k):
    return FUNCS['all'](self, axis=axis)

  def any(self, axis=None, **k):
    return FUNCS['any'](self, axis=axis)

  def dot(self, o):
    return FUNCS['matmul'](self, o)

  def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True,
                      **kw):
    f = UFUNCS.get(ufunc.__name__)
    if f is None:
      if ufunc.__name__ == 'matmul':
        return FUNCS['matmul'](*inputs)
      raise Unsupported(f'ufunc {ufunc.__name__}')
    if method == 'reduce':
      return _reduce(f, inputs[0], kw.get('axis', 0), ufunc.identity,
                     kw.get('keepdims', False))
    if method != '__call__':
      raise Unsupported(f'ufunc method {method}')
    inputs = [i if isinstance(i, (np.ndarray, Sym)) else np.asarray(i)
              if isinstance(i, (list, tuple)) else i for i in inputs]
    dt = _res_dtype(ufunc, inputs)
    if kw.get('dtype') is not None:
      dt = np.dtype(kw['dtype'])
    arrs = [pylist(i) if isinstance(i, np.ndarray) else obj((), [core._norm(i)])
            for i in inputs]
    if out is not None:
      o = out[0] if isinstance(out, tuple) else out
      if not isinstance(o, SymArray):
        raise Unsupported('symbolic ufunc into a concrete out array')
      ob = o.base_array()
      w = np.broadcast_to(pylist(where) if isinstance(where, np.ndarray)
                          else np.array(where, dtype=object), ob.shape)
      bs = [np.broadcast_to(a, ob.shape) for a in arrs]
      for i in np.ndindex(ob.shape):
        c = w[i]
        if not isinstance(c, Sym):
          if c:
            ob[i] = _fin(f(*[b[i] for b in bs]), o._ldt)
        elif bool(c):
          ob[i] = _fin(f(*[b[i] for b in bs]), o._ldt)
      return o
    res = elementwise(lambda *x: _fin(f(*x), dt), *arrs)
    return make_sym(res, dt)

  def __array_function__(self, func, types, args, kwargs):
    f = FUNCS.get(func.__name__)
    if f is None:
      if func.__name__ in _STRUCTURAL:
        return _structural(func, args, kwargs)
      raise Unsupported(f'np.{func.__name__}')
    return f(*args, **kwargs)


def _fin(x, dt):
  dt = np.dtype(dt)
  x = core._norm(x)
  if dt.kind in 'iu' and isinstance(x, (int, SInt, SBool)):
    return wrap_int(x, dt)
  if dt.kind == 'f':
    if isinstance(x, (SInt, SBool)):
      return core.to_real(x)
    if isinstance(x, int):
      return float(x)
  return x


def _reduce(f, a, axis, identity, keepdims=False, dt=None):
  dt = np.dtype(dt if dt is not None else ldtype(a))
  b = pylist(a)
  if axis is None:
    items = list(b.ravel())
    r = None
    for x in items:
      r = x if r is None else _fin(f(r, x), dt)
    if r is None:
      if identity is None:
        raise ValueError('zero-size array to reduction operation')
      r = identity
    shape = (1,) * b.ndim if keepdims else ()
    return make_sym(obj(shape, [_fin(r, dt)]), dt)
  if isinstance(axis, (tuple, list)):
    for ax in sorted((x % b.ndim for x in axis), reverse=True):
      a = _reduce(f, a, ax, identity, keepdims, dt)
    return a
  axis = axis % b.ndim
  m = np.moveaxis(b, axis, 0)
  shape = m.shape[1:]
  out = np.empty(shape, object)
  for i in np.ndindex(shape):
    r = None
    for j in range(m.shape[0]):
      x = m[(j,) + i]
      r = x if r is None else _fin(f(r, x), dt)
    if r is None:
      if identity is None:
        raise ValueError('zero-size array to reduction operation')
      r = identity
    out[i] = _fin(r, dt)
  if keepdims:
    out = np.expand_dims(out, axis)
  return make_sym(out, dt)


def to_arr(x, dtype=None):
  """np.array/asarray for anything containing symbolic values."""
  if isinstance(x, np.ndarray):
    a = pylist(x)
    src = ldtype(x)
    if np.dtype(src) == object:
      src = infer_dtype(a.ravel())
  elif isinstance(x, Sym) or np.isscalar(x):
    a = obj((), [core._norm(x)])
    src = infer_dtype([x])
  else:
    parts = [to_arr(e) for e in x]
    shapes = {p.shape for p in parts}
    if len(shapes) > 1:
      if dtype is not None and np.dtype(dtype) == object:
        r = obj((len(x),), list(x))
        return r
      raise ValueError('inhomogeneous shape')
    src = np.result_type(*[ldtype(p) if ldtype(p) != object else object
                           for p in parts]) if parts else np.dtype(float)
    if parts:
      a = np.empty((len(parts),) + parts[0].shape, object)
      for i, p in enumerate(parts):
        a[i] = pylist(p) if p.shape else pylist(p).item()
    else:
      a = np.empty((0,), object)
  dt = np.dtype(dtype) if dtype is not None else np.dtype(src)
  if dt.kind in 'SU':
    dt = np.dtype(object)
  a = elementwise(lambda e: cast_scalar(e, dt), a)
  if dt == object:
    return a
  return make_sym(a, dt)


def _out_int_dtype(dt):
  dt = np.dtype(dt)
  if dt.kind == 'b' or (dt.kind == 'i' and dt.itemsize < 8):
    return np.dtype(np.int64)
  if dt.kind == 'u' and dt.itemsize < 8:
    return np.dtype(np.uint64)
  return dt


def _nnum(x):
  return x if isinstance(x, np.ndarray) else to_arr(x)


def _sum(a, axis=None, dtype=None, keepdims=False, **k):
  a = _nnum(a)
  dt = np.dtype(dtype) if dtype is not None else _out_int_dtype(ldtype(a))
  if np.dtype(ldtype(a)).kind == 'b':
    a = to_arr(a, dt)
  return _reduce(add_, a, axis, 0, keepdims, dt)


def _minmax(f, nan_skip=False):
  def g(a, axis=None, keepdims=False, **k):
    a = _nnum(a)
    return _reduce(f, a, axis, None, keepdims)
  return g


def _where(c, a=None, b=None):
  if a is None:
    c = _nnum(c)
    flat = [bool(x) for x in pylist(c).ravel()]
    return np.nonzero(np.asarray(flat).reshape(c.shape))
  dt = _res_dtype(np.add, [_nnum(a) if not isinstance(a, Sym) else a,
                           _nnum(b) if not isinstance(b, Sym) else b])
  r = elementwise(lambda x, y, z: _fin(ite(x, y, z), dt), _nnum(c), _nnum(a),
                  _nnum(b))
  return make_sym(r, dt)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
  arr = isinstance(x, np.ndarray)
  a = _nnum(x)
  dt = np.dtype(ldtype(a))

  def f(e):
    if isinstance(e, float):
      if math.isnan(e):
        return nan
      if math.isinf(e):
        m = float(np.finfo(dt if dt.kind == 'f' else float).max)
        return (m if posinf is None else posinf) if e > 0 else (
            -m if neginf is None else neginf)
    return e
  r = elementwise(f, a)
  if arr and not copy and isinstance(x, SymArray):
    x.base_array()[...] = r
    return x
  return make_sym(r, dt)


def _array_equal(a, b, equal_nan=False):
  a, b = _nnum(a), _nnum(b)
  if a.shape != b.shape:
    return False
  out = []
  for x, y in zip(pylist(a).ravel(), pylist(b).ravel()):
    if equal_nan and core.isnan(x) and core.isnan(y):
      continue
    out.append(_cmp('==')(x, y))
  return core.band(*out)


def _matmul(a, b, **k):
  a, b = _nnum(a), _nnum(b)
  dt = np.result_type(ldtype(a), ldtype(b))
  x, y = pylist(a), pylist(b)
  sa, sb = x, y
  if x.ndim == 1:
    sa = x[None, :]
  if y.ndim == 1:
    sb = y[:, None]
  if sa.ndim != 2 or sb.ndim != 2:
    raise Unsupported('batched matmul')
  out = np.empty((sa.shape[0], sb.shape[1]), object)
  for i in range(sa.shape[0]):
    for j in range(sb.shape[1]):
      r = 0.0 if dt.kind == 'f' else 0
      for t in range(sa.shape[1]):
        r = r + sa[i, t] * sb[t, j]
      out[i, j] = r
  if x.ndim == 1:
    out = out[0]
  if y.ndim == 1:
    out = out[..., 0]
  return make_sym(out, dt)


def _outer(a, b, out=None):
  a, b = _nnum(a), _nnum(b)
  return make_sym(
      elementwise(mul_, pylist(a).ravel()[:, None], pylist(b).ravel()[None, :]),
      np.result_type(ldtype(a), ldtype(b)))


def _like(fill):
  def f(a, dtype=None, **k):
    a = _nnum(a)
    dt = np.dtype(dtype) if dtype is not None else np.dtype(ldtype(a))
    return make_sym(obj(a.shape, [cast_scalar(fill, dt)] * a.size), dt)
  return f


def _full(shape, v, dtype=None, **k):
  if isinstance(shape, (int, np.integer)):
    shape = (shape,)
  dt = np.dtype(dtype) if dtype is not None else infer_dtype(
      [v] if not isinstance(v, np.ndarray) else pylist(v).ravel())
  b = np.broadcast_to(pylist(_nnum(v)), shape)
  return make_sym(elementwise(lambda e: cast_scalar(e, dt), b), dt)


def _argsort(a, axis=-1, **k):
  a = _nnum(a)
  if a.ndim != 1:
    raise Unsupported('argsort nd')
  vals = list(pylist(a))

  def cmp(i, j):
    if bool(_cmp('<')(vals[i], vals[j])):
      return -1
    if bool(_cmp('<')(vals[j], vals[i])):
      return 1
    return 0
  return np.array(sorted(range(len(vals)), key=functools.cmp_to_key(cmp)),
                  dtype=np.int64)


def _cumsum(a, axis=None, dtype=None, **k):
  a = _nnum(a)
  b = pylist(a)
  if axis is None:
    b = b.ravel()
    axis = 0
  m = np.moveaxis(b, axis, 0).copy()
  for i in range(1, m.shape[0]):
    m[i] = elementwise(add_, m[i - 1], m[i])
  return make_sym(np.moveaxis(m, 0, axis), _out_int_dtype(ldtype(a)))


def _clip(a, lo=None, hi=None, **k):
  r = _nnum(a)
  dt = ldtype(r)

  def f(e, l, h):
    if l is not None:
      e = core.smax_nan(e, l)
    if h is not None:
      e = core.smin_nan(e, h)
    return e
  L = np.array(None, dtype=object) if lo is None else _nnum(lo)
  H = np.array(None, dtype=object) if hi is None else _nnum(hi)
  return make_sym(elementwise(f, r, L, H), dt)


def _diff(a, n=1, axis=-1, **k):
  a = _nnum(a)
  b = pylist(a)
  m = np.moveaxis(b, axis, 0)
  r = elementwise(sub_, m[1:], m[:-1])
  return make_sym(np.moveaxis(r, 0, axis), ldtype(a))


def _mean(a, axis=None, **k):
  a = _nnum(a)
  s = _sum(a, axis=axis)
  n = a.size if axis is None else a.shape[axis]
  return make_sym(elementwise(lambda e: core.sdiv(e, n), s), np.float64)


def _all(a, axis=None, **k):
  a = _nnum(a)
  if axis is not None:
    return _reduce(lambda x, y: core.band(_tb(x), _tb(y)), a, axis, True,
                   dt=bool)
  return core.band(*[_tb(x) for x in pylist(a).ravel()])


def _any(a, axis=None, **k):
  a = _nnum(a)
  if axis is not None:
    return _reduce(lambda x, y: core.bor(_tb(x), _tb(y)), a, axis, False,
                   dt=bool)
  return core.bor(*[_tb(x) for x in pylist(a).ravel()])


def _scalar_or(f):
  """ufunc-like accessible through the shim on bare scalars."""
  def g(*args, **kw):
    if any(isinstance(a, (np.ndarray, list, tuple)) for a in args) or kw:
      arrs = [_nnum(a) for a in args]
      ref = next((a for a in arrs if isinstance(a, SymArray)), None)
      if ref is None:
        arrs = [make_sym(pylist(a), ldtype(a)) for a in arrs]
        ref = arrs[0]
      if kw.get('out') is not None and not isinstance(kw['out'], SymArray):
        kw = dict(kw)
        o = kw['out']
        res = make_sym(pylist(o), o.dtype)
        kw['out'] = res
        return ref.__array_ufunc__(f, '__call__', *arrs, **kw)
      return ref.__array_ufunc__(f, '__call__', *arrs, **kw)
    return UFUNCS[f.__name__](*[core._norm(a) for a in args])
  return g


def _structural(func, args, kwargs):
  """Shape-only functions: run on base arrays and rewrap."""
  dts = []

  def conv(x):
    if isinstance(x, SymArray):
      dts.append(x._ldt)
      return x.base_array()
    if isinstance(x, np.ndarray):
      dts.append(x.dtype)
      return pylist(x)
    if isinstance(x, Sym):
      return obj((), [x])
    if isinstance(x, (list, tuple)):
      return type(x)(conv(e) for e in x)
    return x
  a = tuple(conv(x) for x in args)
  k = {n: conv(v) for n, v in kwargs.items()}
  if func.__name__ == 'pad' and len(a) < 3 and 'mode' not in k:
    k['mode'] = 'constant'
  r = func(*a, **k)
  dt = np.result_type(*dts) if dts and all(
      d != object for d in dts) else np.dtype(object)

  def back(x):
    if isinstance(x, np.ndarray):
      return make_sym(x, dt)
    if isinstance(x, (list, tuple)):
      return type(x)(back(e) for e in x)
    return x
  return back(r)


def _pad(array, pad_width, mode='constant', constant_values=0, **k):
  if mode != 'constant':
    raise Unsupported('pad mode')
  a = _nnum(array)
  dt = np.dtype(ldtype(a))
  cv = cast_scalar(core._norm(constant_values), dt)
  b = pylist(a)
  pw = np.broadcast_to(np.asarray(pad_width), (b.ndim, 2))
  shape = tuple(int(s + p[0] + p[1]) for s, p in zip(b.shape, pw))
  out = obj(shape, [cv] * int(np.prod(shape)))
  out[tuple(slice(int(p[0]), int(p[0]) + s) for s, p in zip(b.shape, pw))] = b
  return make_sym(out, dt)


_STRUCTURAL = {
    'reshape', 'ravel', 'stack', 'concatenate', 'transpose', 'expand_dims',
    'squeeze', 'insert', 'append', 'vstack', 'hstack', 'dstack', 'tile',
    'repeat', 'moveaxis', 'broadcast_to', 'split', 'array_split', 'flip',
    'swapaxes', 'atleast_1d', 'atleast_2d', 'take', 'copy', 'diag', 'delete',
    'column_stack', 'flatnonzero', 'roll', 'triu', 'tril',
}

def _eigh(a, **k):
  raise Unsupported('eigh')


def _unique(a, return_inverse=False, return_counts=False, **k):
  a = _nnum(a)
  vals = list(pylist(a).ravel())
  uniq = []
  inv = []
  for v in vals:
    for i, u in enumerate(uniq):
      if bool(core.same(v, u)):
        inv.append(i)
        break
    else:
      inv.append(len(uniq))
      uniq.append(v)

  def cmp(i, j):
    x, y = uniq[i], uniq[j]
    return -1 if bool(_cmp('<')(x, y)) else 1 if bool(_cmp('<')(y, x)) else 0
  order = sorted(range(len(uniq)), key=functools.cmp_to_key(cmp))
  pos = {o: i for i, o in enumerate(order)}
  out = [make_sym(obj((len(uniq),), [uniq[i] for i in order]), ldtype(a))]
  inv = [pos[i] for i in inv]
  if return_inverse:
    out.append(np.array(inv, dtype=np.int64).reshape(a.shape))
  if return_counts:
    out.append(np.array([inv.count(i) for i in range(len(uniq))]))
  return out[0] if len(out) == 1 else tuple(out)


def _sort(a, axis=-1, **k):
  a = _nnum(a)
  return a[_argsort(a)]


FUNCS = {
    'sum': _sum, 'max': _minmax(core.smax_nan), 'amax': _minmax(core.smax_nan),
    'min': _minmax(core.smin_nan), 'amin': _minmax(core.smin_nan),
    'nanmax': _minmax(UFUNCS['fmax']), 'nanmin': _minmax(UFUNCS['fmin']),
    'nansum': lambda a, **k: _sum(_nan_to_num(a), **k),
    'where': _where, 'nan_to_num': _nan_to_num, 'array_equal': _array_equal,
    'matmul': _matmul, 'dot': _matmul, 'outer': _outer,
    'zeros_like': _like(0), 'ones_like': _like(1),
    'full_like': lambda a, v, dtype=None, **k: _full(
        np.shape(a), v, dtype or ldtype(a)),
    'full': _full, 'argsort': _argsort, 'cumsum': _cumsum, 'clip': _clip,
    'diff': _diff, 'mean': _mean, 'all': _all, 'any': _any, 'eigh': _eigh,
    'pad': _pad, 'unique': _unique, 'sort': _sort,
    'prod': lambda a, axis=None, **k: _reduce(mul_, _nnum(a), axis, 1),
    'ndim': lambda a: np.ndim(pylist(a)), 'shape': lambda a: a.shape,
    'size': lambda a: a.size,
    'array': lambda x, dtype=None, copy=True, **k: to_arr(x, dtype),
    'asarray': lambda x, dtype=None, **k: (
        x if isinstance(x, SymArray) and (dtype is None or
                                          np.dtype(dtype) == x._ldt)
        else to_arr(x, dtype)),
    'isscalar': lambda x: isinstance(x, Sym) or np.isscalar(x),
    'vectorize': None,
    'result_type': lambda *a: np.result_type(*[
        x._ldt if isinstance(x, SymArray) else x for x in a]),
    'array_equiv': _array_equal,
    'apply_along_axis': None,
}
FUNCS['asanyarray'] = FUNCS['asarray']
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}


def _apply_along_axis(f, axis, arr, *args, **kw):
  a = _nnum(arr)
  b = np.moveaxis(pylist(a), axis, -1)
  outs = {}
  for i in np.ndindex(b.shape[:-1]):
    outs[i] = _nnum(f(make_sym(b[i], ldtype(a)), *args, **kw))
  first = outs[next(iter(outs))]
  res = np.empty(b.shape[:-1] + first.shape, object)
  for i, v in outs.items():
    res[i] = pylist(v) if v.shape else pylist(v).item()
  if first.ndim:
    res = np.moveaxis(res, -1, axis)
  return make_sym(res, ldtype(first))


FUNCS['apply_along_axis'] = _apply_along_axis


# ---------------------------------------------------------------------------
# the `np` module shim


class _TypeShimMeta(type):

  def __call__(cls, x=0, *a, **k):
    if contains_sym(x):
      if isinstance(x, (np.ndarray, list, tuple)):
        r = to_arr(x, cls.real)
        return r
      return make_sym(obj((), [cast_scalar(x, cls.real)]), cls.real)
    return cls.real(x, *a, **k)

  def __instancecheck__(cls, x):
    if isinstance(x, SymArray):
      return x.shape == () and x._ldt.type is cls.real
    return isinstance(x, cls.real)

  def __eq__(cls, o):
    return o is cls or o is cls.real or (
        isinstance(o, _TypeShimMeta) and o.real is cls.real)

  def __hash__(cls):
    return hash(cls.real)

  def __repr__(cls):
    return repr(cls.real)

  def __getattr__(cls, name):
    return getattr(type.__getattribute__(cls, 'real'), name)


_SHIMS = {}


def dtype_shim(t):
  """A stand-in for a NumPy scalar type that can be called on symbols."""
  s = _SHIMS.get(t)
  if s is None:
    q = '_shimtype_' + t.__name__
    s = _TypeShimMeta(t.__name__, (), {'real': t, 'dtype': np.dtype(t),
                                       '__module__': __name__,
                                       '__qualname__': q})
    globals()[q] = s     # picklable by reference
    _SHIMS[t] = s
  return s


class NPShim:
  """Replaces the module-global `np` in the code under test."""

  def __init__(self):
    self._cache = {}

  def __reduce__(self):
    return 'TYPED_SHIM' if isinstance(self, _TypedNPShim) else 'SHIM'

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    c = self._cache.get(name)
    if c is None:
      c = self._make(name)
      self._cache[name] = c
    return c

  def _make(self, name):
    real = getattr(np, name)
    if name == 'linalg':
      return _Sub(np.linalg)
    if name == 'ndarray':
      return _NdArray
    if isinstance(real, type):
      return real
    if isinstance(real, np.ufunc):
      g = _scalar_or(real)

      def call(*a, **k):
        if any(contains_sym(x) for x in a) or any(
            contains_sym(x) for x in k.values()):
          return g(*a, **k)
        return real(*a, **k)
      call.__name__ = name
      call.reduce = real.reduce
      return call
    if callable(real):
      f = FUNCS.get(name)

      def call2(*a, **k):
        if any(contains_sym(x) for x in a) or any(
            contains_sym(x) for x in k.values()):
          if f is not None:
            return f(*a, **k)
          if name in _STRUCTURAL:
            return _structural(real, a, k)
          raise Unsupported(f'np.{name}')
        if name == 'apply_along_axis':
          return _apply_concrete(*a, **k)
        return real(*a, **k)
      call2.__name__ = name
      return call2
    return real


class _NdMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, np.ndarray)

  def __subclasscheck__(cls, c):
    return issubclass(c, np.ndarray)

  def __getattr__(cls, name):
    real = getattr(np.ndarray, name)
    if not callable(real):
      return real
    return lambda a, *r, **k: getattr(a, name)(*r, **k)


class _NdArray(metaclass=_NdMeta):
  """np.ndarray whose unbound methods dispatch on the argument."""

  def __new__(cls, *a, **k):
    return np.ndarray(*a, **k)


def _apply_concrete(f, axis, arr, *a, **k):
  return np.apply_along_axis(f, axis, arr, *a, **k)


def _eigh(a, UPLO='L'):
  """The contract of np.linalg.eigh: ascending eigenvalues and orthonormal
  eigenvectors of the symmetric matrix in one triangle of its argument.

  The facts are stated over fresh entries c, which are the entries of a; the
  matrices decomposed are kept in the engine's notes as (entries of a, c,
  facts); only the order of the eigenvalues is added to the path.
  """
  a = _nnum(a)
  b = pylist(a)
  n = b.shape[0]
  e = core.engine()
  calls = e.notes.setdefault('eigh', [])
  k = len(calls)
  var = lambda s: core.SReal(z3.Real(f'eigh{k}_{s}'))
  given, c = {}, {}
  for i in range(n):
    for j in range(i + 1):
      given[i, j] = given[j, i] = b[i, j] if UPLO == 'L' else b[j, i]
      c[i, j] = c[j, i] = var(f'c{i}{j}')
  l = [var(f'l{i}') for i in range(n)]
  v = [[var(f'v{i}{j}') for j in range(n)] for i in range(n)]
  sm = lambda xs: functools.reduce(lambda p, q: p + q, xs)
  facts = []
  fact = lambda f: facts.append(f.z)
  for x, y in zip(l, l[1:]):
    fact(x <= y)
    e.axiom((x <= y).z)
  for j in range(n):
    for m in range(j + 1):
      fact(sm([v[i][j] * v[i][m] for i in range(n)]) == (1 if j == m else 0))
    for i in range(n):
      fact(sm([c[i, m] * v[m][j] for m in range(n)]) == l[j] * v[i][j])
      fact((v[i][j] <= 1) & (v[i][j] >= -1))
  calls.append((given, c, facts))
  return (make_sym(obj((n,), l), a.dtype),
          make_sym(obj((n, n), [x for r in v for x in r]), a.dtype))


def _get_sub(name):
  return getattr(TYPED_SHIM, name.rpartition('.')[2])


class _Sub:

  def __init__(self, mod):
    self._m = mod

  def __reduce__(self):
    return (_get_sub, (self._m.__name__,))

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    real = getattr(self._m, name)
    if not callable(real) or isinstance(real, type):
      return real

    def call(*a, **k):
      if any(contains_sym(x) for x in a):
        if name == 'eigh':
          return _eigh(*a, **k)
        raise Unsupported(f'np.linalg.{name}')
      return real(*a, **k)
    return call


SHIM = NPShim()


class _TypedNPShim(NPShim):
  """np shim that also shims scalar types when they are called."""

  def _make(self, name):
    real = getattr(np, name)
    if isinstance(real, type) and issubclass(real, np.generic) and real in (
        np.float32, np.float64, np.int64, np.int32, np.float16, np.uint64,
        np.bool_, np.int8, np.int16, np.uint8):
      return dtype_shim(real)
    return NPShim._make(self, name)


TYPED_SHIM = _TypedNPShim()


def patch_modules(mods):
  """Installs the shim as global `np` in the given modules."""
  for m in mods:
    if getattr(m, 'np', None) is np:
      m.np = TYPED_SHIM


def shim_types_in(o, depth=0, seen=None):
  """Replaces NumPy scalar types stored in instance attributes by shims."""
  seen = set() if seen is None else seen
  if id(o) in seen or depth > 4:
    return
  seen.add(id(o))
  d = getattr(o, '__dict__', None)
  if not isinstance(d, dict):
    return
  for k, v in list(d.items()):
    if isinstance(v, type) and issubclass(v, np.generic):
      try:
        setattr(o, k, dtype_shim(v))
      except Exception:  # pylint: disable=broad-except
        pass
    elif isinstance(v, (list, tuple)) and depth < 4:
      for e in v:
        if getattr(type(e), '__module__', '').startswith('tensorflow_transform'):
          shim_types_in(e, depth + 1, seen)
    elif getattr(type(v), '__module__', '').startswith('tensorflow_transform'):
      shim_types_in(v, depth + 1, seen)
