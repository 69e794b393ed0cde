"""Carrying symbolic values through code that only moves data around.

A symbolic value is represented by a unique concrete marker value (a float, an
integer or a byte string) while it travels through compiled code, Arrow arrays,
protos, files and SavedModels.  `decode` turns markers back into symbols; code that
computes with values only ever sees decoded symbols (the marker ranges are disjoint
from every literal the harnesses use).
"""
from __future__ import annotations

import numpy as np

from sx import core, nparr
from sx.core import Sym, SBool, SInt, SReal, STok, Unsupported

FBASE = 4194304          # 2**22: exact in float32
FSPAN = 2000000
IBASE = 1 << 40
I32BASE = 1 << 30
ISPAN = 1 << 20


class Opaque(bytes):
  """Serialized data with markers inside: not itself a symbolic string."""


def registry():
  e = core.engine()
  r = e.notes.get('markers')
  if r is None:
    r = {'f': [], 'fid': {}, 'i': [], 'iid': {}}
    e.notes['markers'] = r
  return r


def _reg(kind, x):
  r = registry()
  ids = r[kind + 'id']
  key = id(x)
  hit = ids.get(key)
  if hit is not None and r[kind][hit] is x:
    return hit
  n = len(r[kind])
  r[kind].append(x)
  ids[key] = n
  return n


def encode_scalar(x, dt):
  """Marker for one scalar, for a container of numpy dtype dt."""
  x = core._norm(x)
  if not isinstance(x, Sym):
    return x
  dt = np.dtype(dt)
  if dt.kind == 'f':
    if dt.itemsize < 4:
      raise Unsupported('marker in float16')
    if isinstance(x, (SInt, SBool)):
      x = core.to_real(x)
    return float(FBASE + _reg('f', x))
  if dt.kind in 'iu':
    if isinstance(x, SBool):
      x = x.as_int()
    if dt.itemsize == 8:
      return IBASE + _reg('i', x)
    if dt.itemsize == 4:
      return I32BASE + _reg('i', x)
    raise Unsupported(f'marker in {dt}')
  if dt.kind == 'O':
    if isinstance(x, SStr):
      return x.rendered()
    if isinstance(x, STok):
      return core.placeholder(x).encode('utf-8')
    if isinstance(x, SInt):
      return IBASE + _reg('i', x)
    if isinstance(x, SReal):
      return float(FBASE + _reg('f', x))
  if dt.kind == 'b':
    return bool(x)     # forks
  raise Unsupported(f'marker for {type(x)} in {dt}')


def encode_array(a, dt=None):
  """SymArray / object array with symbols -> real ndarray with markers."""
  if isinstance(a, Sym):
    dt = np.dtype(dt) if dt is not None else nparr.infer_dtype([a])
    return np.array(encode_scalar(a, dt), dtype=dt)
  if not isinstance(a, np.ndarray):
    return a
  if not nparr.contains_sym(a):
    if isinstance(a, nparr.SymArray):
      return nparr.make(a.base_array(), a._ldt)
    return a
  ld = np.dtype(nparr.ldtype(a)) if dt is None else np.dtype(dt)
  p = nparr.pylist(a)
  out = np.empty(p.shape, object)
  for i in np.ndindex(p.shape):
    out[i] = encode_scalar(p[i], ld)
  if ld == object:
    return out
  return np.asarray(out.tolist(), dtype=ld).reshape(p.shape)


def decode_scalar(x):
  if isinstance(x, (Sym, Opaque)):
    return x
  x = core._norm(x)
  if isinstance(x, bool):
    return x
  if isinstance(x, float):
    if FBASE <= x < FBASE + FSPAN and core.active():
      r = registry()['f']
      k = int(x) - FBASE
      if k < len(r) and x == int(x):
        return r[k]
    if IBASE <= x < IBASE + ISPAN and core.active():
      # an integer marker that went through a container of floats
      r = registry()['i']
      k = int(x) - IBASE
      if k < len(r) and x == int(x):
        return core.to_real(r[k])
    return x
  if isinstance(x, int):
    if core.active():
      r = registry()['i']
      if IBASE <= x < IBASE + len(r):
        return r[x - IBASE]
      if I32BASE <= x < I32BASE + len(r):
        return r[x - I32BASE]
    return x
  if isinstance(x, (bytes, str)):
    if core.has_placeholder(x) and core.active():
      return decode_string(x)
    return x
  return x


def decode_string(s):
  parts = core.split_placeholders(s)
  if len(parts) == 1 and not isinstance(parts[0], (SInt, SReal)):
    return parts[0]
  return SStr.build(parts)


def _maybe_marked(a):
  if a.dtype.kind == 'f':
    return a.dtype.itemsize >= 4 and a.size and bool(
        np.any((a >= FBASE) & (a < FBASE + FSPAN)) or
        a.dtype.itemsize == 8 and np.any((a >= IBASE) & (a < IBASE + ISPAN)))
  if a.dtype.kind in 'iu' and a.dtype.itemsize >= 4 and a.size:
    m = np.any((a >= I32BASE) & (a < I32BASE + ISPAN))
    if a.dtype.itemsize == 8:
      m = m or np.any((a >= IBASE) & (a < IBASE + ISPAN))
    return bool(m)
  if a.dtype.kind == 'O':
    return any(isinstance(e, (list, tuple, dict, np.ndarray)) or isinstance(e, Sym) or core.has_placeholder(e)
               if isinstance(e, (bytes, str, Sym)) else
               isinstance(e, (int, float)) for e in a.ravel())
  if a.dtype.kind in 'SU':
    return any(core.has_placeholder(e) for e in a.ravel())
  return False


def has_markers(a):
  return isinstance(a, np.ndarray) and not isinstance(
      a, nparr.SymArray) and _maybe_marked(a)


def decode_array(a):
  """Real ndarray possibly holding markers -> SymArray/object array/same."""
  if isinstance(a, nparr.SymArray) or not isinstance(a, np.ndarray):
    return a
  if not _maybe_marked(a):
    return a
  dt = a.dtype
  p = nparr.pylist(a)
  out = np.empty(p.shape, object)
  for i in np.ndindex(p.shape):
    e = p[i]
    out[i] = decode(e) if isinstance(e, (list, tuple, dict, np.ndarray)) else (
        decode_scalar(e))
  if dt.kind in 'OSU':
    return out
  return nparr.make(out, dt)


def decode(x, depth=0):
  """Recursively decodes containers (arrays, tuples, lists, dicts)."""
  if isinstance(x, np.ndarray):
    return decode_array(x)
  if isinstance(x, (np.generic, float, int, bytes, str)):
    if isinstance(x, Opaque):
      return x
    r = decode_scalar(x)
    return r if isinstance(r, Sym) else x
  if depth > 6:
    return x
  if isinstance(x, tuple):
    vals = [decode(e, depth + 1) for e in x]
    if all(a is b for a, b in zip(vals, x)):
      return x
    if hasattr(x, '_fields'):
      return type(x)(*vals)
    return type(x)(vals)
  if isinstance(x, list):
    vals = [decode(e, depth + 1) for e in x]
    if all(a is b for a, b in zip(vals, x)):
      return x
    return vals
  if isinstance(x, dict):
    vals = {k: decode(v, depth + 1) for k, v in x.items()}
    if all(vals[k] is x[k] for k in x):
      return x
    try:
      r = type(x)()
      r.update(vals)
      return r
    except TypeError:
      return vals
  return x


class _Float(float):
  """A marker scalar that also offers NumPy's tolist()."""

  def tolist(self):
    return float(self)


class _Int(int):

  def tolist(self):
    return int(self)


def encode(x, depth=0, scalars=False):
  """Recursively encodes symbols in containers into markers."""
  if isinstance(x, Sym):
    if scalars and isinstance(x, SReal):
      return _Float(encode_scalar(x, np.float64))
    if scalars and isinstance(x, (SInt, SBool)):
      return _Int(encode_scalar(x, np.int64))
    if isinstance(x, SReal):
      return encode_scalar(x, np.float64)
    if isinstance(x, (SInt, SBool)):
      return encode_scalar(x, np.int64)
    return encode_scalar(x, np.dtype(object))
  if isinstance(x, np.ndarray):
    return encode_array(x)
  if depth > 6:
    return x
  if isinstance(x, tuple):
    vals = [encode(e, depth + 1, scalars) for e in x]
    if hasattr(x, '_fields'):
      return type(x)(*vals)
    return type(x)(vals)
  if isinstance(x, list):
    return [encode(e, depth + 1, scalars) for e in x]
  if isinstance(x, dict):
    return {encode(k, depth + 1, scalars): encode(v, depth + 1, scalars)
            for k, v in x.items()}
  return x


# ---------------------------------------------------------------------------
# composite symbolic strings


class SStr(Sym):
  """Concatenation of literal bytes, tokens and fixed-width decimal integers.

  units: list of ('c', byte) | ('t', STok, k) with k in 0..3 | ('d', SInt, k, w)
  | ('r', SReal, 0, 1)
  Every unit is one character, so the length is concrete.
  """
  __slots__ = ('units',)

  def __init__(self, units):
    self.units = tuple(units)

  @staticmethod
  def units_of(x):
    if isinstance(x, SStr):
      return list(x.units)
    if isinstance(x, STok):
      return [('t', x, k) for k in range(4)]
    if isinstance(x, SInt):
      return dec_units(x)
    if isinstance(x, SReal):
      return [('r', x, 0, 1)]      # its shortest text, an indivisible unit
    if isinstance(x, str):
      x = x.encode('utf-8')
    if isinstance(x, bytes):
      return [('c', b) for b in x]
    if isinstance(x, (int, float)):
      return [('c', b) for b in str(x).encode()]
    raise Unsupported(f'string part {type(x)}')

  @staticmethod
  def build(parts):
    u = []
    for p in parts:
      u.extend(SStr.units_of(p))
    return SStr.of_units(u)

  @staticmethod
  def of_units(u):
    if all(x[0] == 'c' for x in u):
      return bytes(x[1] for x in u)
    if len(u) == 4 and all(x[0] == 't' for x in u) and all(
        x[1] is u[0][1] and x[2] == i for i, x in enumerate(u)):
      return u[0][1]
    return SStr(u)

  def __len__(self):
    return len(self.units)

  def __hash__(self):
    return 0

  def _cmp_units(self, o):
    try:
      return SStr.units_of(o)
    except Unsupported:
      return None

  def __eq__(self, o):
    u = self._cmp_units(o)
    if u is None or len(u) != len(self.units):
      return False
    conds = []
    i = 0
    while i < len(u):
      a, b = self.units[i], u[i]
      if a[0] == 'c' and b[0] == 'c':
        if a[1] != b[1]:
          return False
        i += 1
        continue
      n, c = _block_eq(self.units, u, i)
      if c is False:
        return False
      if c is not True:
        conds.append(c)
      i += n
    return core.band(*conds)

  def __ne__(self, o):
    return core.bnot(self == o)

  def _lt(self, o, strict_len):
    u = self._cmp_units(o)
    if u is None:
      return NotImplemented
    import z3
    n = min(len(u), len(self.units))
    r = z3.BoolVal(len(self.units) < len(u))
    for i in range(n - 1, -1, -1):
      a, b = _char(self.units[i]), _char(u[i])
      r = z3.Or(a < b, z3.And(a == b, r))
    return core.mk_bool(r)

  def __lt__(self, o):
    return self._lt(o, True)

  def __gt__(self, o):
    if isinstance(o, SStr):
      return o < self
    return core.bnot(core.bor(self < o, self == o))

  def __le__(self, o):
    return core.bor(self < o, self == o)

  def __ge__(self, o):
    return core.bnot(self < o)

  def rendered(self):
    """Literal bytes with a placeholder per whole token or number."""
    out, i, u = b'', 0, self.units
    while i < len(u):
      if u[i][0] == 'c':
        out += bytes([u[i][1]])
        i += 1
        continue
      n = 4 if u[i][0] == 't' else u[i][3]
      if i + n > len(u) or any(
          v[0] != u[i][0] or v[1] is not u[i][1] or v[2] != k
          for k, v in enumerate(u[i:i + n])):
        return core.placeholder(self).encode('utf-8')
      out += core.placeholder(u[i][1]).encode('utf-8')
      i += n
    return out

  def __str__(self):
    return core.placeholder(self)

  def __format__(self, spec):
    return core.placeholder(self)

  def decode(self, *a, **k):
    return self

  def encode(self, *a, **k):
    return self

  def __repr__(self):
    return f'SStr({len(self.units)})'


def _char(u):
  import z3
  if u[0] == 'c':
    return z3.IntVal(u[1])
  if u[0] == 't':
    k = u[2]
    if k == 0:
      return z3.IntVal(ord('t'))
    return 48 + (u[1].z / z3.IntVal(10 ** (3 - k))) % 10
  if u[0] == 'r':
    raise Unsupported('characters of a real number')
  _, x, k, w = u
  return 48 + (x.z / z3.IntVal(10 ** (w - 1 - k))) % 10


def _block_eq(a, b, i):
  """Equality of a maximal aligned block starting at i: (length, cond)."""
  x, y = a[i], b[i]
  if x[0] == 't' and y[0] == 't' and x[2] == y[2] == 0 and all(
      a[i + k][0] == 't' and b[i + k][0] == 't' for k in range(4)):
    return 4, core.mk_bool(x[1].z == y[1].z)
  if x[0] == 'd' and y[0] == 'd' and x[2] == y[2] == 0 and x[3] == y[3]:
    return x[3], core.mk_bool(x[1].z == y[1].z)
  if x[0] == 'r' and y[0] == 'r':
    return 1, core.mk_bool(x[1].z == y[1].z)
  for v, w in ((x, y), (y, x)):
    if v[0] == 'r' and w[0] == 'c' and w[1] not in b'0123456789+-.einfa':
      return 1, False
  return 1, core.mk_bool(_char(x) == _char(y))


def dec_units(x):
  """Decimal representation of a symbolic non-negative int (forks on width)."""
  if not isinstance(x, SInt):
    return [('c', b) for b in str(int(x)).encode()]
  if bool(x < 0):
    return [('c', ord('-'))] + dec_units(-x)
  w = 1
  while not bool(x < 10 ** w):
    w += 1
    if w > 9:
      raise Unsupported('wide symbolic integer to string')
  return [('d', x, k, w) for k in range(w)]


def is_string_sym(x):
  return isinstance(x, (STok, SStr))


# let tokens compare with composites
_tok_eq = STok.__eq__


def _stok_eq(self, o):
  if isinstance(o, SStr):
    return o == self
  return _tok_eq(self, o)


STok.__eq__ = _stok_eq
STok.__hash__ = lambda self: 0
for _n, _swap in (('__lt__', '__gt__'), ('__gt__', '__lt__'),
                  ('__le__', '__ge__'), ('__ge__', '__le__')):
  def _mk(orig, swap):
    def f(self, o):
      if isinstance(o, SStr):
        return getattr(SStr.build([self]) if False else SStr(
            SStr.units_of(self)), orig.__name__)(o)
      return orig(self, o)
    f.__name__ = orig.__name__
    return f
  setattr(STok, _n, _mk(getattr(STok, _n), _swap))
