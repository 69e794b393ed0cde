"""Contracts of the compiled tfx_bsl sketches, used on symbolic streams.

For streams that fit in its first buffer the quantile sketch is exact; the model
below reproduces that (selftest/val_sketch.py compares it with the library).
"""
from __future__ import annotations

import numpy as np
import pyarrow as pa
from tfx_bsl import sketches as _real

from sx import core, markers, nparr
from sx.core import Unsupported

_QUANTILES = _real.QuantilesSketch
_REG = {}
CREATED = []  # (error, stream bound) of the quantile sketches made


def _load(k):
  return core.engine().notes['sketches'][k]


def _vals(a):
  if isinstance(a, SymArrow):
    return list(a.values)
  if isinstance(a, (pa.Array, pa.ChunkedArray)):
    return a.to_pylist()
  return list(nparr.pylist(np.asarray(a)).ravel())


class SymArrow:
  """A pyarrow array of symbolic values."""

  def __init__(self, values):
    self.values = values

  def __len__(self):
    return len(self.values)

  def to_pylist(self):
    return list(self.values)


class PaShim:

  def __getattr__(self, n):
    return getattr(pa, n)

  def array(self, x, *a, **k):
    if core.active() and isinstance(x, np.ndarray) and (
        isinstance(x, nparr.SymArray) or nparr.contains_sym(x)):
      return SymArrow(list(nparr.pylist(x).ravel()))
    return pa.array(x, *a, **k)


class _Model:

  def __reduce__(self):
    reg = core.engine().notes.setdefault('sketches', {})
    k = len(reg)
    reg[k] = self.copy()
    return (_copy_of, (k,))


def _copy_of(k):
  return _load(k).copy()


def _is_nan(v):
  return not core.is_sym(v) and v != v


class QuantilesModel(_Model):

  def __init__(self, eps, max_num_values, num_streams=1):
    self.streams = [[] for _ in range(num_streams)]
    self.args = (eps, max_num_values, num_streams)

  def copy(self):
    r = QuantilesModel(*self.args)
    r.streams = [list(s) for s in self.streams]
    return r

  def AddValues(self, values, weights=None):
    v = _vals(values)
    n = len(self.streams)
    if len(v) % n:
      raise ValueError('number of values is not a multiple of the streams')
    w = [1] * (len(v) // n) if weights is None else _vals(weights)
    if len(w) * n != len(v):
      raise ValueError('weights do not match values')
    for i, x in enumerate(v):
      wt = w[i // n]
      if x is None or _is_nan(x) or _is_nan(wt) or not bool(wt > 0):
        continue
      self.streams[i % n].append((x, wt))

  def Merge(self, other):
    for s, o in zip(self.streams, other.streams):
      s.extend(o)

  def Compact(self):
    pass

  def GetQuantiles(self, k):
    out = [self._quantiles(s, k) for s in self.streams]
    return SymArrow([q for q in out if q])  # a stream without values is dropped

  def _quantiles(self, s, k):
    merged = []
    for x, w in s:
      i = 0
      while i < len(merged) and bool(merged[i][0] < x):
        i += 1
      if i < len(merged) and bool(core.same(core._norm(merged[i][0]),
                                            core._norm(x))):
        merged[i] = (merged[i][0], merged[i][1] + w)
      else:
        merged.insert(i, (x, w))
    if not merged:
      return []
    total = 0
    for _, w in merged:
      total = total + w
    out = []
    for i in range(k + 1):
      cum, pick = 0, merged[-1][0]
      for x, w in merged[:-1]:
        cum = cum + w
        if bool(cum * k > total * i):
          pick = x
          break
      out.append(pick)
    return out


class MisraGriesModel(_Model):
  """Exact while the number of distinct items is below the number of buckets."""

  def __init__(self, num_buckets, *args, order_on_tie=None, **kw):
    self.k = num_buckets
    self.order = order_on_tie
    self.items = []

  def copy(self):
    r = MisraGriesModel(self.k, order_on_tie=self.order)
    r.items = list(self.items)
    return r

  def _add(self, x, w):
    for i, (y, v) in enumerate(self.items):
      if bool(core.same(core._norm(x), core._norm(y))):
        self.items[i] = (y, v + w)
        return
    self.items.append((x, w))
    if len(self.items) > self.k:
      raise Unsupported('more distinct items than sketch buckets')

  def AddValues(self, items, weights=None):
    items = _vals(items)
    weights = [1] * len(items) if weights is None else _vals(weights)
    for x, w in zip(items, weights):
      if isinstance(x, (core.SInt, int, np.integer)):
        x = markers.SStr.build([x])      # integers are kept as their text
      if x is not None:
        self._add(x, w)

  def Merge(self, other):
    for x, w in other.items:
      self._add(x, w)

  def Serialize(self):
    return b'sxmodel%d' % self.__reduce__()[1][0]

  def Estimate(self):
    order = _real.MisraGriesSketch.OrderOnTie
    rev = self.order == order.ReverseLexicographical
    out = []
    for x, w in self.items:
      i = 0
      while i < len(out):
        y, v = out[i]
        if bool(w > v):
          break
        if bool(core.same(core._norm(w), core._norm(v))) and (
            bool(x > y) if rev else bool(x < y)):
          break
        i += 1
      out.insert(i, (x, w))
    return _Estimate(out)


class _Estimate:

  def __init__(self, items):
    self.items = items

  def validate(self, *a, **k):
    pass

  def flatten(self):
    return [nparr.make_sym(nparr.obj((len(self.items),),
                                     [x for x, _ in self.items]), np.dtype(object)),
            nparr.make_sym(nparr.obj((len(self.items),),
                                     [w for _, w in self.items]),
                           np.dtype(np.float32))]


def _bounds(eps, max_num_values, *a, **k):
  return eps, max_num_values


def _factory(real, model):
  class F:
    def __new__(cls, *a, **k):
      if real is _QUANTILES and core.active():
        CREATED.append(_bounds(*a, **k))
      return model(*a, **k) if core.active() else real(*a, **k)

  for n in dir(real):
    if not n.startswith('__'):
      setattr(F, n, getattr(real, n))
  if hasattr(real, 'Deserialize'):
    def deserialize(data):
      if isinstance(data, bytes) and data.startswith(b'sxmodel'):
        return _copy_of(int(data[7:]))
      return real.Deserialize(data)
    F.Deserialize = staticmethod(deserialize)
  F.__name__ = real.__name__
  return F


class recording:
  """The quantile sketches created meanwhile, also by concrete runs."""

  def __enter__(self):
    del CREATED[:]
    self.real = cls = _real.QuantilesSketch

    class Recorder(_factory_base(cls)):
      def __new__(c, *a, **k):
        if not core.active():
          CREATED.append(_bounds(*a, **k))
        return cls(*a, **k)
    _real.QuantilesSketch = Recorder
    return CREATED

  def __exit__(self, *a):
    _real.QuantilesSketch = self.real


def _factory_base(cls):
  class B:
    pass
  for n in dir(cls):
    if not n.startswith('__'):
      setattr(B, n, getattr(cls, n))
  return B


class SketchShim:
  QuantilesSketch = _factory(_real.QuantilesSketch, QuantilesModel)
  MisraGriesSketch = _factory(_real.MisraGriesSketch, MisraGriesModel)

  def __getattr__(self, n):
    return getattr(_real, n)
