"""Evaluates real Beam pipelines, in process, over (possibly symbolic) elements.

The pipeline object is the one the code under test constructed.  Every ParDo runs
the real DoFn, every combine runs the real CombineFn; only the runner is replaced:
bundling, grouping and the order and shape of accumulator merges come from a
Schedule, which the harness makes symbolic.
"""
from __future__ import annotations

import copy
import glob
import inspect
import os

import apache_beam as beam
import numpy as np
from apache_beam import pvalue
from apache_beam.internal import util as beam_util
from apache_beam.transforms import combiners, core as bcore
from apache_beam.transforms import util as tutil
from apache_beam.utils import shared, windowed_value

from sx import core, markers
from sx.core import Unsupported

GW = beam.transforms.window.GlobalWindow()


class Schedule:
  """How a run distributes work.  kind 0..N_KINDS-1."""

  N_KINDS = 6
  NAMES = ('one bundle', 'a bundle per element, merged in order',
           'a bundle per element, merged in reverse with empty and compacted '
           'accumulators', 'nested pairwise merges with empty accumulators',
           'two bundles, last first', 'incremental merges into an empty one')

  def __init__(self, kind=0):
    self.kind = kind

  # bundles of a ParDo whose DoFn keeps state per bundle
  def bundles(self, elements):
    n = len(elements)
    if n <= 1 or self.kind in (0,):
      return [elements]
    if self.kind in (1, 3, 5):
      return [[e] for e in elements]
    k = (n + 1) // 2
    return [elements[:k], elements[k:]]

  def order(self, elements):
    """Order in which a PCollection's elements are delivered after a shuffle."""
    if self.kind in (2, 4):
      return list(reversed(elements))
    return list(elements)

  def batches(self, elements, lo, hi):
    """BatchElements: any batching within the limits is allowed."""
    if not elements:
      return []
    out = []
    hi = max(1, hi)
    if self.kind in (0, 1) or (lo == hi and lo <= 16):
      step = hi
    elif self.kind in (2, 5):
      step = 1
    else:
      step = max(1, min(hi, (len(elements) + 1) // 2))
    for i in range(0, len(elements), step):
      out.append(elements[i:i + step])
    return out

  def combine(self, fn, values, args=(), kwargs=None):
    kw = kwargs or {}
    k = self.kind
    new = lambda: fn.create_accumulator(*args, **kw)

    def acc_of(vals):
      a = new()
      for v in vals:
        a = fn.add_input(a, v, *args, **kw)
      return a
    merge = lambda accs: fn.merge_accumulators(accs, *args, **kw)
    if k == 0 or not values:
      a = acc_of(values)
    elif k == 1:
      a = merge([acc_of([v]) for v in values])
    elif k == 2:
      accs = [fn.compact(acc_of([v]), *args, **kw) for v in reversed(values)]
      a = merge([new()] + accs + [new()])
      a = fn.compact(a, *args, **kw)
    elif k == 3:
      a = merge([acc_of(values[:1]), new()])
      for v in values[1:]:
        a = merge([merge([new(), acc_of([v])]), a])
      a = merge([a])
    elif k == 4:
      h = (len(values) + 1) // 2
      a = merge([acc_of(values[h:]), acc_of(values[:h])])
    else:
      a = new()
      for v in values:
        a = merge([a, acc_of([v])])
      a = merge([new(), a])
    return fn.extract_output(a, *args, **kw)


def eq(a, b):
  if isinstance(a, tuple) and isinstance(b, tuple):
    if len(a) != len(b):
      return False
    return all(eq(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and all(
        eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
  if isinstance(a, core.Sym) or isinstance(b, core.Sym):
    return bool(core.same(a, b))
  if type(a) is not type(b) and (isinstance(a, (str, bytes)) or
                                 isinstance(b, (str, bytes))):
    return isinstance(a, type(b)) and a == b or (
        isinstance(b, type(a)) and a == b)
  return bool(a == b)


class Run:
  """One evaluation of a pipeline."""

  def __init__(self, schedule=None, symbolic=None, memo=None):
    self.schedule = schedule or Schedule()
    self.results = {}
    self.symbolic = core.active() if symbolic is None else symbolic
    self.memo = memo
    self.evaluated = []

  # -- PCollections -----------------------------------------------------------
  def get(self, pc):
    """Elements of a PCollection (list)."""
    # iterative scheduling would be nicer; the graphs are shallow enough
    ap, kind = self._producer(pc)
    if id(ap) not in self.results:
      self.results[id(ap)] = (ap, self._apply(ap, kind))
    out = self.results[id(ap)][1]
    if kind is not None and kind != 'ParDo':
      return out
    tag = self._tag_of(ap, pc)
    return out.get(tag, [])

  def value(self, pc):
    v = self.get(pc)
    if len(v) != 1:
      raise AssertionError(f'expected one element in {pc}, got {len(v)}')
    return v[0]

  @staticmethod
  def _tag_of(ap, pc):
    for tag, o in ap.outputs.items():
      if o is pc:
        if pc.tag is not None:
          return pc.tag
        main = getattr(ap.transform, 'main_tag', None)
        return None if tag in (None, 'None', main) else tag
    return pc.tag

  def _producer(self, pc):
    ap = pc.producer
    if ap is None:
      raise Unsupported(f'PCollection without producer {pc}')
    best = (ap, None)
    cur = ap
    while cur is not None and cur.transform is not None:
      k = self._intercept(cur.transform)
      if k is not None and any(o is pc for o in cur.outputs.values()):
        best = (cur, k)
      par = cur.parent
      if par is None or not any(o is pc for o in par.outputs.values()):
        break
      cur = par
    return best

  @staticmethod
  def _intercept(t):
    if isinstance(t, beam.Create):
      return 'create'
    if isinstance(t, (bcore._CombinePerKeyWithHotKeyFanout,)):
      return 'fanout'
    if isinstance(t, beam.CombinePerKey):
      return 'cpk'
    if isinstance(t, tutil.BatchElements):
      return 'batch'
    if isinstance(t, tutil.Reshuffle):
      return 'identity'
    if isinstance(t, (beam.io.WriteToText, beam.io.WriteToTFRecord)):
      return 'write'
    if isinstance(t, beam.io.ReadFromTFRecord):
      return 'readtfr'
    if isinstance(t, beam.io.ReadFromText):
      return 'readtxt'
    return None

  # -- transforms -------------------------------------------------------------
  def _main_input(self, ap):
    ins = [p for p in ap.inputs]
    if len(ins) != 1:
      raise Unsupported(f'{ap.full_label}: {len(ins)} inputs')
    return self.get(ins[0])

  def _apply(self, ap, kind):
    t = ap.transform
    self.evaluated.append(ap.full_label)
    if kind == 'create':
      return list(t.values)
    if kind == 'identity':
      return self.schedule.order(self._main_input(ap))
    if kind == 'batch':
      est = t._batch_size_estimator
      return [list(b) for b in self.schedule.batches(
          self._main_input(ap), est._min_batch_size, est._max_batch_size)]
    if kind in ('cpk', 'fanout'):
      return self._combine_per_key(ap, t)
    if kind == 'write':
      return self._write(ap, t)
    if kind == 'readtfr':
      return self._read_tfr(t)
    if kind == 'readtxt':
      return self._read_txt(t)
    if isinstance(t, beam.Flatten):
      out = []
      for p in ap.inputs:
        if isinstance(p, pvalue.PBegin):
          continue
        out.extend(self.get(p))
      return {None: self.schedule.order(out)}
    if isinstance(t, beam.Impulse):
      return {None: [b'']}
    if isinstance(t, beam.GroupByKey):
      return {None: [(k, vs) for k, vs in self._group(self._main_input(ap))]}
    if isinstance(t, bcore.CombineValues):
      fn = t.fn
      side = self._side(t)
      args, kw = beam_util.insert_values_in_args(t.args, t.kwargs, side)
      return {None: [(k, self.schedule.combine(fn, list(vs), args, kw))
                     for k, vs in self._main_input(ap)]}
    if isinstance(t, beam.ParDo):
      return self._pardo(ap, t)
    if isinstance(t, beam.WindowInto):
      return {None: self._main_input(ap)}
    if isinstance(t, beam.io.Read):
      raise Unsupported(f'source {t.source}')
    raise Unsupported(f'transform {type(t).__name__} at {ap.full_label}')

  def _group(self, kvs):
    groups = []
    fast = {}
    for kv in kvs:
      k, v = kv
      k = _norm_key(k)
      if not _has_sym(k) and not any(_has_sym(g[0]) for g in groups):
        hk = _hash_key(k)
        if hk is not None:
          g = fast.get(hk)
          if g is None:
            g = (k, [])
            fast[hk] = g
            groups.append(g)
          g[1].append(v)
          continue
      for g in groups:
        if eq(g[0], k):
          g[1].append(v)
          break
      else:
        g = (k, [v])
        groups.append(g)
        if not _has_sym(k):
          hk = _hash_key(k)
          if hk is not None:
            fast[hk] = g
    return self.schedule.order(groups)

  def _combine_per_key(self, ap, t):
    kvs = [self._dec(e) for e in self._main_input(ap)]
    if isinstance(t, bcore._CombinePerKeyWithHotKeyFanout):
      fn, args, kw = t._combine_fn, (), {}
    else:
      fn = t.fn
      args, kw = beam_util.insert_values_in_args(
          t.args, t.kwargs, self._side(t))
    try:
      fn = copy.deepcopy(fn)
    except Exception:  # pylint: disable=broad-except
      pass
    fn = self._prepare_fn(fn)
    if hasattr(fn, 'setup'):
      fn.setup(*args, **kw)
    out = []
    for k, vs in self._group(kvs):
      out.append((k, self.schedule.combine(fn, vs, args, kw)))
    if hasattr(fn, 'teardown'):
      fn.teardown(*args, **kw)
    return out

  def _prepare_fn(self, fn):
    if self.symbolic:
      from sx import nparr
      _shim_deep(fn, 0, nparr)
    return fn

  def _side(self, t):
    return [self._side_value(s) for s in (t.side_inputs or ())]

  def _side_value(self, s):
    els = [self._dec(e) for e in self.get(s.pvalue)]
    if isinstance(s, pvalue.AsSingleton):
      if len(els) == 1:
        return els[0]
      if not els:
        if s.default_value is not pvalue.AsSingleton._NO_DEFAULT:
          return s.default_value
        return pvalue.EmptySideInput()
      raise ValueError('more than one element accessed as a singleton view')
    if isinstance(s, (pvalue.AsIter, pvalue.AsList)):
      return list(els)
    if isinstance(s, pvalue.AsDict):
      return dict(els)
    raise Unsupported(f'side input {type(s)}')

  def _dec(self, e):
    return markers.decode(e) if self.symbolic else e

  def _pardo(self, ap, t):
    elements = self._main_input(ap)
    args, kwargs = beam_util.insert_values_in_args(
        t.args, t.kwargs, self._side(t))
    args = [self._dec(a) for a in args]
    kwargs = {k: self._dec(v) for k, v in kwargs.items()}
    if any(isinstance(a, pvalue.EmptySideInput)
           for a in list(args) + list(kwargs.values())) and elements:
      raise ValueError('empty side input accessed as singleton')
    if self.memo is not None:
      hit = self.memo.pardo(self, ap, t, elements, args, kwargs)
      if hit is not None:
        return {None: hit}
    fn = None
    if self.memo is not None:
      fn = self.memo.dofn(self, ap, t, args, kwargs)
    if fn is None:
      fn = _fresh_dofn(t.fn)
    out = {}

    def emit(res):
      if res is None:
        return
      for r in res:
        tag = None
        if isinstance(r, pvalue.TaggedOutput):
          tag, r = r.tag, r.value
        if isinstance(r, windowed_value.WindowedValue):
          r = r.value
        out.setdefault(tag, []).append(r)

    names, pos_defaults = _param_defaults(fn)
    for bundle in (self.schedule.bundles(elements)
                   if _has_bundle_state(fn) else [elements]):
      if hasattr(fn, 'start_bundle'):
        fn.start_bundle()
      for e in bundle:
        e = self._dec(e)
        kw = dict(kwargs)
        for n, d in pos_defaults.items():
          if n in kw:
            continue
          v = _dofn_param(d, e)
          if v is not _NOPARAM:
            kw[n] = v
        emit(fn.process(e, *args, **kw))
      if hasattr(fn, 'finish_bundle'):
        emit(fn.finish_bundle())
    main = getattr(t, 'main_tag', None)
    if main is not None and main in out:
      out.setdefault(None, []).extend(out.pop(main))
    return out

  # -- files ------------------------------------------------------------------
  def _encoded_lines(self, ap, sink):
    coder = sink.coder
    out = []
    for e in self._main_input(ap):
      e = markers.encode(self._dec(e)) if self.symbolic else e
      if isinstance(e, np.ndarray) and e.shape == ():
        e = e.item()
      if isinstance(e, markers.Opaque):
        # data with markers inside, which are not to be decoded when it is read
        e = bytes(e)
        _opaque().add(e)
      out.append(coder.encode(e))
    return out

  def _write(self, ap, t):
    sink = t._sink
    lines = self._encoded_lines(ap, sink)
    prefix = _vp(sink.file_path_prefix)
    suffix = _vp(sink.file_name_suffix) or ''
    tmpl = sink.shard_name_template
    path = prefix + ('' if tmpl == '' else '-00000-of-00001') + suffix
    if os.path.dirname(path):
      os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(t, beam.io.WriteToText):
      data = b''.join(l + (b'\n' if sink._append_trailing_newlines else b'')
                      for l in lines)
      with beam.io.filesystems.FileSystems.create(
          path, compression_type=sink.compression_type) as f:
        f.write(data)
    else:
      import tensorflow as tf
      gz = path.endswith('.gz') or 'gzip' in str(sink.compression_type)
      opts = tf.io.TFRecordOptions(compression_type='GZIP' if gz else '')
      with tf.io.TFRecordWriter(path, opts) as w:
        for l in lines:
          w.write(l)
    return [path]

  def _read_tfr(self, t):
    import tensorflow as tf
    out = []
    src = t._source
    for f in sorted(glob.glob(_vp(src._pattern))):
      opts = tf.io.TFRecordOptions(
          compression_type='GZIP' if f.endswith('.gz') else '')
      for r in tf.compat.v1.io.tf_record_iterator(f, opts):
        e = src._coder.decode(r) if hasattr(src, '_coder') else r
        if self.symbolic and isinstance(e, bytes) and e in _opaque():
          e = markers.Opaque(e)
        out.append(e)
    return out

  def _read_txt(self, t):
    out = []
    for f in sorted(glob.glob(_vp(t._source._pattern))):
      with open(f, 'rb') as h:
        out += [l.decode() for l in h.read().split(b'\n') if l]
    return out


def _opaque():
  return core.engine().notes.setdefault('opaque', set())


def _vp(v):
  return v.get() if hasattr(v, 'get') else v


def _norm_key(k):
  if isinstance(k, np.ndarray) and k.shape == ():
    return k.item()
  return k


def _has_sym(k):
  if isinstance(k, core.Sym):
    return True
  if isinstance(k, tuple):
    return any(_has_sym(x) for x in k)
  return False


def _hash_key(k):
  """Keys are grouped by their encoding: str and bytes never coincide."""
  if isinstance(k, tuple):
    parts = [_hash_key(x) for x in k]
    return None if any(p is None for p in parts) else ('t',) + tuple(parts)
  if isinstance(k, (str, bytes)):
    return (type(k).__name__, k)
  if k is None or isinstance(k, (bool, int, float, np.generic)):
    if k != k:
      return ('nan',)
    return ('n', k)
  return None


_NOPARAM = object()


def _dofn_param(d, e):
  n = str(d)
  if d is beam.DoFn.ElementParam:
    return e
  if d is beam.DoFn.WindowParam:
    return GW
  if d is beam.DoFn.TimestampParam:
    return beam.utils.timestamp.MIN_TIMESTAMP
  if isinstance(d, bcore._DoFnParam):
    raise Unsupported(f'DoFn parameter {n}')
  return _NOPARAM


def _param_defaults(fn):
  try:
    sig = inspect.signature(fn.process)
  except (TypeError, ValueError):
    return [], {}
  return list(sig.parameters), {
      n: p.default for n, p in sig.parameters.items()
      if isinstance(p.default, bcore._DoFnParam)}


def _has_bundle_state(fn):
  cls = type(fn)
  return (getattr(cls, 'finish_bundle', None) is not None and
          cls.finish_bundle is not beam.DoFn.finish_bundle)


def _fresh_dofn(fn):
  """A worker deserialises its own copy of the DoFn."""
  if isinstance(fn, bcore.CallableWrapperDoFn):
    if hasattr(fn, 'setup'):
      fn.setup()
    return fn
  try:
    c = copy.copy(fn)
    for k, v in list(fn.__dict__.items()):
      if isinstance(v, shared.Shared):
        c.__dict__[k] = shared.Shared()
  except Exception:  # pylint: disable=broad-except
    c = fn
  if hasattr(c, 'setup'):
    c.setup()
  return c


def _shim_deep(x, depth, nparr):
  """Replaces numpy scalar types held by combiner objects with shims."""
  if depth > 4 or x is None or isinstance(
      x, (str, bytes, int, float, type, np.ndarray)):
    return
  if isinstance(x, (list, tuple)):
    for e in x:
      _shim_deep(e, depth + 1, nparr)
    return
  if hasattr(x, '__dict__'):
    nparr.shim_types_in(x)
    for v in list(vars(x).values()):
      _shim_deep(v, depth + 1, nparr)
