"""Path exploration and symbolic scalar values.

A harness is an ordinary Python function.  Values created with `E.real(...)`,
`E.int(...)`, `E.bool(...)`, `E.tok(...)` are symbolic; operators on them build z3
terms; whenever Python needs a concrete truth value (`if a < b`, `x in d`,
`sorted(...)`), `Engine.fork` asks z3 which outcomes are feasible under the path
condition and explores every feasible one (by re-executing the harness along a
recorded decision prefix).
"""
from __future__ import annotations

import fractions
import math
import random
import time

import numpy as np
import z3

Fraction = fractions.Fraction


class Unsupported(Exception):
  """The symbolic semantics does not cover an operation the code performed."""


class PathAbort(BaseException):
  """Path is infeasible (assume failed) or was cut on purpose."""


class Budget(BaseException):
  """Exploration budget (time / paths / decisions) exhausted."""


_CUR = []
STARTED = [0]    # paths begun in this process


def engine() -> 'Engine':
  if not _CUR:
    raise RuntimeError('no active engine')
  return _CUR[-1]


def active() -> bool:
  return bool(_CUR)


class paused:
  """Code run inside behaves as if no path were being explored."""

  def __enter__(self):
    self._saved = list(_CUR)
    _CUR.clear()

  def __exit__(self, *a):
    _CUR.extend(self._saved)


class Stats:

  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.unknown = 0
    self.proved = 0
    self.forks = 0

  def add(self, o):
    self.queries += o.queries
    self.solver_s += o.solver_s
    self.unknown += o.unknown
    self.proved += o.proved
    self.forks += o.forks

  def as_dict(self):
    return dict(queries=self.queries, solver_s=round(self.solver_s, 3),
                unknown=self.unknown, obligations_proved=self.proved,
                forks=self.forks)


class Violation:
  """A failed obligation: model of the inputs plus a description."""

  def __init__(self, label, inputs, decisions, detail=''):
    self.label = label
    self.inputs = inputs
    self.decisions = decisions
    self.detail = detail


class PathResult:

  def __init__(self, value, exc, decisions):
    self.value = value
    self.exc = exc
    self.decisions = decisions


class Engine:

  def __init__(self, max_paths=2000, deadline=None, query_ms=4000,
               final_ms=20000):
    self.max_paths = max_paths
    self.deadline = deadline
    self.query_ms = query_ms
    self.final_ms = final_ms
    self.stats = Stats()
    self.paths = 0
    self.aborted = 0
    self.truncated = False
    self.violations = []
    self.inconclusive = []
    self.samples = []
    self.errors = []
    self._reset()

  # -- per path state -------------------------------------------------------
  def _reset(self):
    self.solver = z3.Solver()
    self.solver.set('timeout', self.query_ms)
    self.pc = []
    self.decided = {}
    self.inputs = {}
    self.trace = []
    self.counter = 0
    self.notes = {}

  def fresh_name(self, base):
    self.counter += 1
    return f'{base}!{self.counter}'

  # -- solver ---------------------------------------------------------------
  def _check(self, *extra, ms=None):
    self.stats.queries += 1
    t = time.time()
    if ms is not None:
      self.solver.set('timeout', ms)
    r = self.solver.check(*extra)
    if ms is not None:
      self.solver.set('timeout', self.query_ms)
    self.stats.solver_s += time.time() - t
    if r == z3.unknown:
      self.stats.unknown += 1
    return r

  def _add(self, c):
    self.pc.append(c)
    self.solver.add(c)

  def assume(self, cond):
    """Restrict this path; abort it when infeasible."""
    z = to_bool(cond)
    z = z3.simplify(z)
    if z3.is_true(z):
      return
    if z3.is_false(z):
      raise PathAbort()
    self._add(z)

  def axiom(self, z):
    self._add(z)

  def feasible(self):
    return self._check() != z3.unsat

  _choosing = False

  def fork(self, z) -> bool:
    z = z3.simplify(z)
    if z3.is_true(z):
      return True
    if z3.is_false(z):
      return False
    key = z.get_id()
    hit = self.decided.get(key)
    if hit is not None:
      return hit[0]
    i = len(self.trace)
    if i < len(self.prefix):
      d = self.prefix[i]
      self.trace.append(d)
    else:
      if self.deadline and time.time() > self.deadline:
        raise Budget()
      self.stats.forks += 1
      t = self._check(z)
      if t == z3.unsat:
        d = False
        f = z3.sat
      else:
        f = self._check(z3.Not(z))
        if f == z3.unsat:
          d = True
        else:
          d = True
          (self.fresh if self._choosing else self.work).append(
              list(self.trace) + [False])
      self.trace.append(d)
    self._add(z if d else z3.Not(z))
    self.decided[key] = (d, z)
    nz = z3.simplify(z3.Not(z))
    self.decided[nz.get_id()] = (not d, nz)
    return d

  def pick(self, z):
    """A feasible value of z (recorded so that replays pick the same one)."""
    i = len(self.trace)
    if i < len(self.prefix):
      v = self.prefix[i][1]
    else:
      if self._check() != z3.sat:
        raise PathAbort()
      v = self.solver.model().eval(z, model_completion=True).as_long()
    self.trace.append(('v', v))
    return v

  def choose(self, n, name='choice'):
    """A symbolic schedule/configuration choice in range(n)."""
    if n <= 1:
      return 0
    v = z3.Int(name if name not in self.inputs else self.fresh_name(name))
    self.inputs[v.decl().name()] = v
    self._add(z3.And(v >= 0, v < n))
    self._choosing = True
    try:
      for i in range(n - 1):
        if self.fork(v == i):
          return i
    finally:
      self._choosing = False
    return n - 1

  # -- input creation -------------------------------------------------------
  def real(self, name, lo=None, hi=None):
    v = z3.Real(name)
    self.inputs[name] = v
    if lo is not None:
      self._add(v >= lo)
    if hi is not None:
      self._add(v <= hi)
    return SReal(v)

  def float_(self, name, specials=(), lo=None, hi=None):
    """A symbolic float: finite real, or one of the given special values."""
    if specials:
      k = self.choose(len(specials) + 1, name + '_special')
      if k:
        return float(specials[k - 1])
    return self.real(name, lo, hi)

  def int(self, name, lo, hi):
    v = z3.Int(name)
    self.inputs[name] = v
    self._add(z3.And(v >= lo, v <= hi))
    return SInt(v, lo, hi)

  def bool(self, name):
    v = z3.Bool(name)
    self.inputs[name] = v
    return SBool(v)

  def tok(self, name, n=64):
    v = z3.Int(name)
    self.inputs[name] = v
    self._add(z3.And(v >= 0, v < n))
    return STok(v)

  # -- obligations ----------------------------------------------------------
  def prove(self, cond, label, detail='', strong=()):
    """Obligation: cond holds on this path for every input.

    strong: conditions preferred in a counterexample (tried in order).
    """
    z = to_bool(cond)
    z = z3.simplify(z, som=True, arith_lhs=True) if not z3.is_true(z) else z
    if z3.is_true(z):
      self.stats.proved += 1
      return True
    if z3.is_false(z):
      r = self._check(ms=self.final_ms)
      neg = z3.BoolVal(True)
    else:
      neg = z3.Not(z)
      r = self._check(neg, ms=self.final_ms)
    if r == z3.unsat:
      self.stats.proved += 1
      return True
    if r == z3.unknown:
      r = self._second_opinion(neg)
      if r == z3.unsat:
        self.stats.proved += 1
        return True
    if r == z3.sat:
      m = None
      for c in strong:
        zc = to_bool(c)
        if not z3.is_false(zc) and self._check(
            z3.And(neg, zc), ms=2000) == z3.sat:
          m = self._nice_model(z3.And(neg, zc))
          if m is not None:
            break
      if m is None:
        m = self._nice_model(neg)
      if m is not None:
        self.violations.append(
            Violation(label, m, list(self.trace), detail))
        return False
    self.inconclusive.append(label)
    return None

  def entailed(self, cond):
    """Whether cond is shown to hold on this path (never a violation)."""
    z = to_bool(cond)
    if z3.is_true(z) or self._check(z3.Not(z), ms=self.final_ms) == z3.unsat:
      self.stats.proved += 1
      return True
    return False

  def prove_from(self, facts, cond, label, detail='', prefer=()):
    """Obligation over fresh variables described by facts alone.

    Decided without the path condition, which mentions none of those
    variables; a counterexample is completed by any input of the path
    (with the preferred conditions where there is one).
    """
    z = to_bool(cond)
    s = z3.Solver()
    s.set('timeout', self.final_ms)
    s.add(*facts)
    s.add(z3.Not(z))
    t = time.time()
    self.stats.queries += 1
    r = s.check()
    self.stats.solver_s += time.time() - t
    if r == z3.unsat:
      self.stats.proved += 1
      return True
    if r == z3.sat:
      m = None
      for c in list(prefer) + [True]:
        if self._check(to_bool(c), ms=4000) == z3.sat:
          m = self._nice_model(to_bool(c))
          if m is not None:
            break
      if m is not None:
        self.violations.append(Violation(label, m, list(self.trace), detail))
        return False
    self.inconclusive.append(label)
    return None

  def _second_opinion(self, neg):
    for tac in ('qfnra-nlsat', 'smt'):
      try:
        s = z3.Tactic(tac).solver() if tac != 'smt' else z3.SolverFor('QF_NRA')
        s.set('timeout', self.final_ms)
        s.add(*self.pc)
        s.add(neg)
        t = time.time()
        self.stats.queries += 1
        r = s.check()
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
          self._so_model = s.model()
          return r
        if r == z3.unsat:
          return r
      except z3.Z3Exception:
        continue
    return z3.unknown

  def _model_dict(self, m):
    out = {}
    for k, v in self.inputs.items():
      e = m.eval(v, model_completion=True)
      out[k] = z3_to_py(e)
    return out

  def _nice_model(self, neg):
    reals = [v for v in self.inputs.values() if z3.is_real(v)]
    tries = []
    if reals:
      tries.append([z3.And(z3.IsInt(v), v >= -16, v <= 16) for v in reals])
      tries.append([z3.And(z3.IsInt(v * 4), v >= -64, v <= 64) for v in reals])
      tries.append([z3.And(v >= -1000, v <= 1000) for v in reals])
    tries.append([])
    for cs in tries:
      self.solver.push()
      self.solver.add(neg, *cs)
      r = self._check(ms=3000 if cs else self.final_ms)
      m = self._model_dict(self.solver.model()) if r == z3.sat else None
      self.solver.pop()
      if m is not None:
        return m
    m = getattr(self, '_so_model', None)
    return self._model_dict(m) if m is not None else None

  def witness(self, extra=None):
    """A concrete input reaching this point of the path (or None)."""
    if extra is not None and not isinstance(extra, bool):
      r = self._check(to_bool(extra), ms=self.final_ms)
    else:
      r = self._check(ms=self.final_ms)
    if r != z3.sat:
      return None
    return self._nice_model(z3.BoolVal(True))

  # -- exploration ----------------------------------------------------------
  def explore(self, fn, order='mix'):
    """Runs fn() on every feasible path. Yields PathResult lazily."""
    # open decisions: of the code under test, and of the harness (choose)
    self.work, self.fresh = [[]], []
    self._rnd = random.Random(1)
    try:
      while self.work or self.fresh:
        if self.paths >= self.max_paths or (
            self.deadline and time.time() > self.deadline):
          self.truncated = True
          break
        if self.fresh and (not self.work or order == 'mix' and self.paths % 2):
          # every other path takes up an untried choice of the harness
          self.work.append(self.fresh.pop(0))
        elif order == 'mix' and self.paths % 2:
          # every other path continues from a random open decision
          k = self._rnd.randrange(len(self.work))
          self.work[k], self.work[-1] = self.work[-1], self.work[k]
        self.prefix = self.work.pop(0 if order == 'bfs' else -1)
        self._reset()
        STARTED[0] += 1
        _CUR.append(self)
        try:
          try:
            val = fn()
            res = PathResult(val, None, list(self.trace))
          except PathAbort:
            self.aborted += 1
            continue
          except Budget:
            self.truncated = True
            continue
          except Exception as e:  # pylint: disable=broad-except
            res = PathResult(None, e, list(self.trace))
          self.paths += 1
          yield res
        finally:
          _CUR.pop()
    finally:
      pass


# ---------------------------------------------------------------------------
# conversions


def z3_to_py(e):
  if z3.is_int_value(e):
    return e.as_long()
  if z3.is_rational_value(e):
    f = Fraction(e.numerator_as_long(), e.denominator_as_long())
    return f
  if z3.is_algebraic_value(e):
    a = e.approx(20)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  if z3.is_string_value(e):
    return e.as_string()
  return str(e)


def is_sym(x):
  return isinstance(x, Sym)


def to_bool(x):
  if isinstance(x, SBool):
    return x.z
  if isinstance(x, z3.BoolRef):
    return x
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, (SInt, SReal)):
    return x.z != 0
  if isinstance(x, (int, float, np.number)):
    return z3.BoolVal(bool(x))
  if isinstance(x, np.ndarray) and x.shape == ():
    return to_bool(x.item())
  raise Unsupported(f'to_bool {type(x)}')


def rv(x):
  """Exact z3 real for a Python number."""
  if isinstance(x, Fraction):
    return z3.RealVal(f'{x.numerator}/{x.denominator}')
  if isinstance(x, int):
    return z3.RealVal(x)
  f = snap(x)
  return z3.RealVal(f'{f.numerator}/{f.denominator}')


def snap(x):
  """The rational a double stands for: 1/3 computed in floats is 1/3."""
  f = Fraction(float(x))
  if f.denominator > 10**6:
    g = f.limit_denominator(5000)
    if abs(f - g) <= abs(f) / 2**50:
      return g
  return f


class Sym:
  __slots__ = ()
  __array_priority__ = 1000

  def __hash__(self):
    return 0

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __reduce__(self):
    raise Unsupported('pickling a symbolic value')


def _norm(x):
  """Python scalar normalisation (numpy scalars and 0-d arrays)."""
  if isinstance(x, np.ndarray):
    if x.shape == ():
      return _norm(x.item())
    return x
  if isinstance(x, np.bool_):
    return bool(x)
  if isinstance(x, np.integer):
    return int(x)
  if isinstance(x, np.floating):
    return float(x)
  return x


def _special(x):
  return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


class SBool(Sym):
  __slots__ = ('z',)

  def __init__(self, z):
    self.z = z

  def __bool__(self):
    return engine().fork(self.z)

  def __and__(self, o):
    if isinstance(_norm(o), (bool, SBool)):
      return mk_bool(z3.And(self.z, to_bool(o)))
    return self.as_int() & o
  __rand__ = __and__

  def __or__(self, o):
    if isinstance(_norm(o), (bool, SBool)):
      return mk_bool(z3.Or(self.z, to_bool(o)))
    return NotImplemented
  __ror__ = __or__

  def __xor__(self, o):
    return mk_bool(z3.Xor(self.z, to_bool(o)))
  __rxor__ = __xor__

  def __invert__(self):
    return mk_bool(z3.Not(self.z))

  def __eq__(self, o):
    o = _norm(o)
    if isinstance(o, (bool, SBool)):
      return mk_bool(self.z == to_bool(o))
    if isinstance(o, (int, float, SInt, SReal)):
      return self.as_int() == o
    return False

  def __ne__(self, o):
    return bnot(self == o)

  __hash__ = Sym.__hash__

  def as_int(self):
    return SInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)), 0, 1)

  def __add__(self, o):
    return self.as_int() + (o.as_int() if isinstance(o, SBool) else o)
  __radd__ = __add__

  def __mul__(self, o):
    return self.as_int() * (o.as_int() if isinstance(o, SBool) else o)
  __rmul__ = __mul__

  def __sub__(self, o):
    return self.as_int() - o

  def __rsub__(self, o):
    return o - self.as_int()

  def __int__(self):
    return int(bool(self))

  __index__ = __int__

  def __repr__(self):
    return f'SBool({self.z})'


def mk_bool(z):
  if z3.is_true(z):
    return True
  if z3.is_false(z):
    return False
  z = z3.simplify(z)
  if z3.is_true(z):
    return True
  if z3.is_false(z):
    return False
  return SBool(z)


def bnot(x):
  x = _norm(x)
  if isinstance(x, bool):
    return not x
  return mk_bool(z3.Not(to_bool(x)))


def band(*xs):
  return mk_bool(z3.And(*[to_bool(x) for x in xs])) if xs else True


def bor(*xs):
  return mk_bool(z3.Or(*[to_bool(x) for x in xs])) if xs else False


def implies(a, b):
  return bor(bnot(a), b)


def _iv(*vals):
  if any(v is None for v in vals):
    return None, None
  return min(vals), max(vals)


def mk_int(z, lo=None, hi=None):
  if lo is not None and lo == hi:
    return lo
  if z3.is_int_value(z):
    return z.as_long()
  return SInt(z, lo, hi)


def mk_real(z):
  if z3.is_rational_value(z):
    f = Fraction(z.numerator_as_long(), z.denominator_as_long())
    v = float(f)
    if Fraction(v) == f:
      return v
  return SReal(z)


class SInt(Sym):
  __slots__ = ('z', 'lo', 'hi')

  def __init__(self, z, lo=None, hi=None):
    self.z = z
    self.lo = lo
    self.hi = hi

  def real(self):
    return SReal(z3.ToReal(self.z))

  def _lift(self, o):
    o = _norm(o)
    if isinstance(o, bool):
      o = int(o)
    if isinstance(o, SBool):
      o = o.as_int()
    if isinstance(o, int):
      return SInt(z3.IntVal(o), o, o)
    if isinstance(o, SInt):
      return o
    return None

  def _arith(self, o, op, rev=False):
    o = _norm(o)
    if isinstance(o, np.ndarray):
      return NotImplemented
    if isinstance(o, (float, SReal, Fraction)):
      return (op(SReal.lift(o), self.real()) if rev else op(self.real(), o))
    l = self._lift(o)
    if l is None:
      return NotImplemented
    return (l, self) if rev else (self, l)

  def __add__(self, o):
    r = self._arith(o, lambda a, b: a + b)
    if not isinstance(r, tuple):
      return r
    a, b = r
    lo = None if None in (a.lo, b.lo) else a.lo + b.lo
    hi = None if None in (a.hi, b.hi) else a.hi + b.hi
    return mk_int(a.z + b.z, lo, hi)
  __radd__ = __add__

  def __sub__(self, o):
    r = self._arith(o, lambda a, b: a - b)
    if not isinstance(r, tuple):
      return r
    a, b = r
    lo = None if None in (a.lo, b.hi) else a.lo - b.hi
    hi = None if None in (a.hi, b.lo) else a.hi - b.lo
    return mk_int(a.z - b.z, lo, hi)

  def __rsub__(self, o):
    l = self._lift(o)
    if l is not None:
      return l - self
    if isinstance(_norm(o), np.ndarray):
      return NotImplemented
    return SReal.lift(o) - self.real()

  def __mul__(self, o):
    r = self._arith(o, lambda a, b: a * b)
    if not isinstance(r, tuple):
      return r
    a, b = r
    if None in (a.lo, a.hi, b.lo, b.hi):
      lo = hi = None
    else:
      lo, hi = _iv(a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return mk_int(a.z * b.z, lo, hi)
  __rmul__ = __mul__

  def __truediv__(self, o):
    return self.real() / o

  def __rtruediv__(self, o):
    if isinstance(_norm(o), np.ndarray):
      return NotImplemented
    return sdiv(o, self)

  def __floordiv__(self, o):
    o = _norm(o)
    if isinstance(o, int) and o != 0:
      # z3 div is floor for positive divisor.
      if o > 0:
        q = mk_int(self.z / z3.IntVal(o),
                   None if self.lo is None else self.lo // o,
                   None if self.hi is None else self.hi // o)
        return q
      return (-self) // (-o)
    l = self._lift(o)
    if l is None:
      return (self.real() / o).floor()
    if bool(l == 0):
      raise ZeroDivisionError
    if bool(l > 0):
      return mk_int(self.z / l.z)
    return mk_int((-self.z) / (-l.z))

  def __rfloordiv__(self, o):
    l = self._lift(o)
    return l // self

  def __mod__(self, o):
    o = _norm(o)
    if isinstance(o, int) and o > 0:
      return mk_int(self.z % z3.IntVal(o), 0, o - 1)
    return self - (self // o) * o

  def __rmod__(self, o):
    l = self._lift(o)
    return l % self

  def __neg__(self):
    return mk_int(-self.z, None if self.hi is None else -self.hi,
                  None if self.lo is None else -self.lo)

  def __pos__(self):
    return self

  def __abs__(self):
    return ite(self >= 0, self, -self)

  def __pow__(self, k):
    k = _norm(k)
    if isinstance(k, int) and 0 <= k <= 4:
      r = 1
      for _ in range(k):
        r = self * r
      return r
    if k == 0.5:
      return ssqrt(self)
    raise Unsupported('pow')

  def _cmp(self, o, f, g):
    o = _norm(o)
    if isinstance(o, np.ndarray):
      return NotImplemented
    if isinstance(o, (bool, SBool, int, SInt)):
      l = self._lift(o)
      if None not in (self.lo, self.hi, l.lo, l.hi):
        q = g(self, l)
        if q is not None:
          return q
      return mk_bool(f(self.z, l.z))
    if isinstance(o, (float, SReal, Fraction)):
      return f(self.real(), o)
    return NotImplemented

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b, lambda a, b: True
                     if a.hi < b.lo else False if a.lo >= b.hi else None)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b, lambda a, b: True
                     if a.hi <= b.lo else False if a.lo > b.hi else None)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b, lambda a, b: True
                     if a.lo > b.hi else False if a.hi <= b.lo else None)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b, lambda a, b: True
                     if a.lo >= b.hi else False if a.hi < b.lo else None)

  def __eq__(self, o):
    r = self._cmp(o, lambda a, b: a == b, lambda a, b: False
                  if a.hi < b.lo or a.lo > b.hi else None)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    if isinstance(_norm(o), np.ndarray):
      return NotImplemented
    return bnot(self == o)

  __hash__ = Sym.__hash__

  def __bool__(self):
    return engine().fork(self.z != 0)

  def __index__(self):
    return concretize_int(self)
  __int__ = __index__

  def __float__(self):
    raise Unsupported('float() of a symbolic int')

  def __round__(self, n=None):
    return self

  def __format__(self, spec):
    return placeholder(self)

  def __str__(self):
    return placeholder(self)

  def __repr__(self):
    return f'SInt({self.z})'


def concretize_int(x, limit=64):
  """Fork over the feasible values of a (small) symbolic int."""
  if not isinstance(x, SInt):
    return int(x)
  if x.lo is not None and x.hi is not None and x.hi - x.lo <= limit:
    for v in range(x.lo, x.hi):
      if engine().fork(x.z == v):
        return v
    return x.hi
  e = engine()
  for _ in range(limit):
    v = e.pick(x.z)
    if e.fork(x.z == v):
      return v
  raise Unsupported('concretisation of an unbounded int')


class SReal(Sym):
  """A finite real (float idealised as real)."""
  __slots__ = ('z',)

  def __init__(self, z):
    self.z = z

  @staticmethod
  def lift(o):
    o = _norm(o)
    if isinstance(o, SReal):
      return o
    if isinstance(o, SInt):
      return o.real()
    if isinstance(o, SBool):
      return o.as_int().real()
    if isinstance(o, (bool, int, float, Fraction)):
      if _special(o):
        return o
      return SReal(rv(o))
    return None

  def _bin(self, o, f):
    o = _norm(o)
    if isinstance(o, np.ndarray):
      return NotImplemented
    l = SReal.lift(o)
    if l is None:
      return NotImplemented
    if isinstance(l, float):
      return l
    return f(self.z, l.z)

  def __add__(self, o):
    r = self._bin(o, lambda a, b: mk_real(a + b))
    return r
  __radd__ = __add__

  def __sub__(self, o):
    o = _norm(o)
    if _special(o):
      return -o
    return self._bin(o, lambda a, b: mk_real(a - b))

  def __rsub__(self, o):
    o = _norm(o)
    if _special(o):
      return o
    return self._bin(o, lambda a, b: mk_real(b - a))

  def __mul__(self, o):
    o = _norm(o)
    if _special(o):
      if math.isnan(o):
        return o
      if bool(self == 0):
        return math.nan
      return o if bool(self > 0) else -o
    if isinstance(o, (int, float)) and not isinstance(o, bool):
      if o == 0:
        return 0.0
      if o == 1:
        return self
    return self._bin(o, lambda a, b: mk_real(a * b))
  __rmul__ = __mul__

  def __truediv__(self, o):
    return sdiv(self, o)

  def __rtruediv__(self, o):
    if isinstance(_norm(o), np.ndarray):
      return NotImplemented
    return sdiv(o, self)

  def __floordiv__(self, o):
    return sfloor(sdiv(self, o))

  def __neg__(self):
    return mk_real(-self.z)

  def __pos__(self):
    return self

  def __abs__(self):
    return mk_real(z3.If(self.z >= 0, self.z, -self.z))

  def __pow__(self, k):
    k = _norm(k)
    if isinstance(k, float) and k == int(k):
      k = int(k)
    if isinstance(k, int) and 0 <= k <= 4:
      r = 1.0
      for _ in range(k):
        r = self * r
      return r
    if k == 0.5:
      return ssqrt(self)
    raise Unsupported('pow')

  def _cmp(self, o, f, nan_value, pinf, ninf):
    o = _norm(o)
    if isinstance(o, np.ndarray):
      return NotImplemented
    if _special(o):
      if math.isnan(o):
        return nan_value
      return pinf if o > 0 else ninf
    l = SReal.lift(o)
    if l is None:
      return NotImplemented
    return mk_bool(f(self.z, l.z))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b, False, True, False)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b, False, True, False)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b, False, False, True)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b, False, False, True)

  def __eq__(self, o):
    r = self._cmp(o, lambda a, b: a == b, False, False, False)
    return False if r is NotImplemented else r

  def __ne__(self, o):
    if isinstance(_norm(o), np.ndarray):
      return NotImplemented
    return bnot(self == o)

  __hash__ = Sym.__hash__

  def __bool__(self):
    return engine().fork(self.z != 0)

  def floor(self):
    return SInt(z3.ToInt(self.z))

  def __float__(self):
    raise Unsupported('float() of a symbolic real')

  def __int__(self):
    return concretize_int(strunc(self))

  def __round__(self, n=None):
    if n:
      raise Unsupported('round digits')
    return sround(self)

  def __format__(self, spec):
    return placeholder(self)

  def __str__(self):
    return placeholder(self)

  def __repr__(self):
    return f'SReal({self.z})'


def sdiv(a, b):
  """IEEE style true division."""
  a = _norm(a)
  b = _norm(b)
  if isinstance(a, SBool):
    a = a.as_int()
  if isinstance(b, SBool):
    b = b.as_int()
  if not is_sym(b):
    b = float(b) if not isinstance(b, Fraction) else b
    if isinstance(b, float) and math.isnan(b):
      return math.nan
    if isinstance(b, float) and math.isinf(b):
      if _special(a):
        return math.nan
      return 0.0
    if b == 0:
      if not is_sym(a):
        a = float(a)
        return math.nan if a == 0 or math.isnan(a) else math.copysign(
            math.inf, a)
      if bool(a == 0):
        return math.nan
      return math.inf if bool(a > 0) else -math.inf
    if not is_sym(a):
      if _special(a):
        return a if b > 0 else -a
      return float(a) / b
    la = SReal.lift(a)
    return mk_real(la.z / rv(b))
  # symbolic denominator
  lb = SReal.lift(b)
  if bool(mk_bool(lb.z == 0)):
    return sdiv(a, 0.0)
  if _special(a):
    if math.isnan(a):
      return a
    return a if bool(mk_bool(lb.z > 0)) else -a
  la = SReal.lift(a)
  return mk_real(la.z / lb.z)


def sfloor(x):
  x = _norm(x)
  if isinstance(x, SReal):
    return mk_real(z3.ToReal(z3.ToInt(x.z)))
  if isinstance(x, SInt):
    return x
  if _special(x):
    return x
  return math.floor(x) if isinstance(x, int) else float(math.floor(x))


def sceil(x):
  x = _norm(x)
  if isinstance(x, SReal):
    return mk_real(-z3.ToReal(z3.ToInt(-x.z)))
  if isinstance(x, SInt) or _special(x):
    return x
  return float(math.ceil(x))


def strunc(x):
  x = _norm(x)
  if isinstance(x, SReal):
    return mk_int(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
  if isinstance(x, (SInt, int)):
    return x
  if isinstance(x, SBool):
    return x.as_int()
  if isinstance(x, Fraction):
    return int(x)
  if _special(x):
    raise Unsupported('int of nan/inf')
  return int(x)


def sround(x):
  """Round half to even."""
  x = _norm(x)
  if isinstance(x, SReal):
    f = z3.ToInt(x.z)
    d = x.z - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return mk_int(
        z3.If(d < half, f,
              z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
  if isinstance(x, SInt):
    return x
  return round(x)


def ite(c, a, b):
  c = _norm(c)
  if isinstance(c, (bool, int)):
    return a if c else b
  if isinstance(c, (SInt, SReal)):
    c = c != 0
    if isinstance(c, bool):
      return a if c else b
  a = _norm(a)
  b = _norm(b)
  if a is b:
    return a
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    raise Unsupported('ite on arrays')
  if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
    return mk_bool(z3.If(c.z, to_bool(a), to_bool(b)))
  if isinstance(a, STok) and isinstance(b, STok):
    return STok(z3.If(c.z, a.z, b.z))
  ints = (bool, int, SInt, SBool)
  if isinstance(a, ints) and isinstance(b, ints):
    if not is_sym(a) and not is_sym(b) and a == b:
      return a
    la = SInt._lift(SInt(z3.IntVal(0)), a)
    lb = SInt._lift(SInt(z3.IntVal(0)), b)
    lo = None if None in (la.lo, lb.lo) else min(la.lo, lb.lo)
    hi = None if None in (la.hi, lb.hi) else max(la.hi, lb.hi)
    return mk_int(z3.If(c.z, la.z, lb.z), lo, hi)
  nums = ints + (float, SReal, Fraction)
  if isinstance(a, nums) and isinstance(b, nums):
    if _special(a) or _special(b):
      # nan/inf are kept concrete: resolve the condition by forking.
      return a if bool(c) else b
    if not is_sym(a) and not is_sym(b) and a == b:
      return a
    return mk_real(z3.If(c.z, SReal.lift(a).z, SReal.lift(b).z))
  # strings / mixed: fork
  return a if bool(c) else b


def smin(a, b):
  return ite(a <= b, a, b)


def smax(a, b):
  return ite(a >= b, a, b)


def smax_nan(a, b):
  """np.maximum / tf.maximum semantics: NaN propagates."""
  a, b = _norm(a), _norm(b)
  if isinstance(a, float) and math.isnan(a):
    return a
  if isinstance(b, float) and math.isnan(b):
    return b
  return smax(a, b)


def smin_nan(a, b):
  a, b = _norm(a), _norm(b)
  if isinstance(a, float) and math.isnan(a):
    return a
  if isinstance(b, float) and math.isnan(b):
    return b
  return smin(a, b)


def isnan(x):
  x = _norm(x)
  return isinstance(x, float) and math.isnan(x)


def isfinite(x):
  x = _norm(x)
  return not _special(x)


def to_real(x):
  """Numeric cast to a float type (idealised)."""
  x = _norm(x)
  if isinstance(x, SInt):
    return x.real()
  if isinstance(x, SBool):
    return x.as_int().real()
  if isinstance(x, SReal) or isinstance(x, Fraction):
    return x
  return float(x)


# -- uninterpreted real functions ------------------------------------------
_UFS = {}


def _uf(name, arity=1):
  f = _UFS.get(name)
  if f is None:
    f = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
    _UFS[name] = f
  return f


def uf_apply(name, *xs):
  return SReal(_uf(name, len(xs))(*[canon(SReal.lift(x).z) for x in xs]))


def canon(z):
  """A normal form, so that equal polynomials become the same argument."""
  return z3.simplify(z, som=True, sort_sums=True)


def ssqrt(x):
  x = _norm(x)
  if not is_sym(x):
    if isinstance(x, float) and math.isnan(x):
      return x
    return math.sqrt(x) if x >= 0 else math.nan
  lx = SReal.lift(x)
  if bool(mk_bool(lx.z < 0)):
    return math.nan
  cz = canon(lx.z)
  s = _uf('sqrt')(cz)
  e = engine()
  e.axiom(s >= 0)
  if e.notes.get('sqrt_exact', False):
    e.axiom(s * s == cz)
  else:
    e.axiom((s == 0) == (cz == 0))
  return SReal(s)


def sexp(x):
  x = _norm(x)
  if not is_sym(x):
    return math.exp(x)
  r = uf_apply('exp', x)
  engine().axiom(r.z > 0)
  return r


def slog(x):
  x = _norm(x)
  if not is_sym(x):
    if isinstance(x, float) and math.isnan(x):
      return x
    if x == 0:
      return -math.inf
    return math.log(x) if x > 0 else math.nan
  lx = SReal.lift(x)
  if bool(mk_bool(lx.z <= 0)):
    return -math.inf if bool(mk_bool(lx.z == 0)) else math.nan
  r = uf_apply('log', x)
  engine().axiom((r.z > 0) == (lx.z > 1))
  engine().axiom((r.z == 0) == (lx.z == 1))
  return r


def _log2_parts(z, sign, out):
  """log2 of a product as a sum: [(sign, factor)] of non-product factors."""
  k = z.decl().kind()
  if k == z3.Z3_OP_MUL:
    for c in z.children():
      _log2_parts(c, sign, out)
  elif k == z3.Z3_OP_DIV:
    _log2_parts(z.arg(0), sign, out)
    _log2_parts(z.arg(1), -sign, out)
  elif k == z3.Z3_OP_UMINUS:
    out.append((sign, z))
  elif k == z3.Z3_OP_TO_REAL and z.arg(0).decl().kind() == z3.Z3_OP_MUL:
    for c in z.arg(0).children():
      _log2_parts(z3.ToReal(c), sign, out)
  else:
    out.append((sign, z))


def slog2(x):
  """log2, with log2(ab) = log2 a + log2 b and log2(a/b) = log2 a - log2 b."""
  x = _norm(x)
  if not is_sym(x):
    if isinstance(x, float) and math.isnan(x):
      return x
    if x == 0:
      return -math.inf
    return math.log2(x) if x > 0 else math.nan
  lx = SReal.lift(x)
  if bool(mk_bool(lx.z <= 0)):
    return -math.inf if bool(mk_bool(lx.z == 0)) else math.nan
  parts = []
  _log2_parts(lx.z, 1, parts)
  if len(parts) > 1 and not all(
      bool(mk_bool(f > 0)) for _, f in parts):
    parts = [(1, lx.z)]
  r = 0.0
  for sign, f in parts:
    v = z3.simplify(f)
    if z3.is_rational_value(v):
      t = math.log2(v.as_fraction())
    else:
      t = uf_apply('log2', SReal(f))
    r = r + t if sign > 0 else r - t
  return r


class MathShim:
  """math with the logarithms, exp and rounding of symbolic numbers."""

  def __getattr__(self, n):
    return getattr(math, n)

  def log2(self, x):
    return slog2(x) if is_sym(_norm(x)) else math.log2(x)

  def log(self, x, *base):
    if not is_sym(_norm(x)) or (base and is_sym(_norm(base[0]))):
      return math.log(x, *base)
    return slog2(x) / math.log2(base[0] if base else math.e)

  def log10(self, x):
    return self.log(x, 10)

  def exp(self, x):
    return sexp(x) if is_sym(_norm(x)) else math.exp(x)

  def sqrt(self, x):
    return ssqrt(x) if is_sym(_norm(x)) else math.sqrt(x)

  def floor(self, x):
    return sfloor(x) if is_sym(_norm(x)) else math.floor(x)

  def ceil(self, x):
    return sceil(x) if is_sym(_norm(x)) else math.ceil(x)

  def isnan(self, x):
    return isnan(x)

  def isinf(self, x):
    x = _norm(x)
    return isinstance(x, float) and math.isinf(x)

  def isfinite(self, x):
    return isfinite(x)

  def lgamma(self, x):
    return math.lgamma(_decided(x))

  def gamma(self, x):
    return math.gamma(_decided(x))

  def factorial(self, x):
    return math.factorial(_decided(x))

  def comb(self, n, k):
    return math.comb(_decided(n), _decided(k))


def _decided(x):
  """The value of a symbolic integer on this path."""
  x = _norm(x)
  if isinstance(x, SInt):
    return concretize_int(x)
  if isinstance(x, SReal):
    if not bool(mk_bool(z3.IsInt(x.z))):
      raise Unsupported('gamma of a symbolic non-integer')
    return concretize_int(mk_int(z3.ToInt(x.z)))
  return x


MATH_SHIM = MathShim()


def ssigmoid(x):
  x = _norm(x)
  if not is_sym(x):
    return 1.0 / (1.0 + math.exp(-x))
  r = uf_apply('sigmoid', x)
  engine().axiom(z3.And(r.z > 0, r.z < 1))
  engine().axiom((r.z >= z3.RealVal('1/2')) == (SReal.lift(x).z >= 0))
  return r


# -- string tokens ------------------------------------------------------------
class STok(Sym):
  """A symbolic non-empty byte string token.

  Only equality and byte order are symbolic: a token is an integer rank r and
  stands for the concrete string token_string(r); ranks order like the strings.
  Tokens contain no newline, space, NUL or other special characters.  Literals
  compare through their position among the token strings.
  """
  __slots__ = ('z',)

  def __init__(self, z):
    self.z = z

  def _rank(self, o):
    """(exact rank or None, number of token strings < o)."""
    if isinstance(o, STok):
      return o.z, None
    o = _norm(o)
    if isinstance(o, str):
      o = o.encode('utf-8')
    if not isinstance(o, bytes):
      return None, None
    return None, o

  def __eq__(self, o):
    if isinstance(o, STok):
      return mk_bool(self.z == o.z)
    r = token_rank(o)
    if r is None:
      return False
    return mk_bool(self.z == r)

  def __ne__(self, o):
    return bnot(self == o)

  def __lt__(self, o):
    if isinstance(o, STok):
      return mk_bool(self.z < o.z)
    p = literal_pos(o)
    if p is None:
      return NotImplemented
    exact, n = p
    return mk_bool(self.z < n)

  def __le__(self, o):
    return bor(self < o, self == o)

  def __gt__(self, o):
    if isinstance(o, STok):
      return mk_bool(self.z > o.z)
    if literal_pos(o) is None:
      return NotImplemented
    return bnot(self <= o)

  def __ge__(self, o):
    return bnot(self < o)

  __hash__ = Sym.__hash__

  def __str__(self):
    return placeholder(self)

  def __format__(self, spec):
    return placeholder(self)

  def __bool__(self):
    return True

  def decode(self, *a, **k):
    return self

  def encode(self, *a, **k):
    return self

  def strip(self, *a):
    return self

  rstrip = lstrip = strip

  def __repr__(self):
    return f'STok({self.z})'


def token_string(r) -> bytes:
  return b't%03d' % r


def token_rank(o):
  o = _norm(o)
  if isinstance(o, str):
    o = o.encode('utf-8')
  if isinstance(o, bytes) and len(o) == 4 and o[:1] == b't' and o[1:].isdigit():
    return int(o[1:])
  return None


def literal_pos(o):
  """For a literal: (is itself a token string, #token strings below it)."""
  o = _norm(o)
  if isinstance(o, str):
    o = o.encode('utf-8')
  if not isinstance(o, bytes):
    return None
  r = token_rank(o)
  if r is not None:
    return True, r
  lo, hi = 0, 1000
  while lo < hi:
    mid = (lo + hi) // 2
    if token_string(mid) < o:
      lo = mid + 1
    else:
      hi = mid
  return False, lo


# -- placeholders: symbolic values embedded into real strings -----------------
_PH = {}
PH_OPEN, PH_CLOSE = '\u27e6', '\u27e7'


def placeholder(x):
  e = engine()
  d = e.notes.setdefault('placeholders', {})
  for k, v in d.items():
    if v is x:
      return k
  k = f'{PH_OPEN}{len(d)}{PH_CLOSE}'
  d[k] = x
  return k


def split_placeholders(s):
  """Splits a str into literal parts and symbolic values."""
  if isinstance(s, bytes):
    s = s.decode('utf-8')
  out = []
  d = engine().notes.get('placeholders', {})
  while s:
    i = s.find(PH_OPEN)
    if i < 0:
      out.append(s)
      break
    if i:
      out.append(s[:i])
    j = s.index(PH_CLOSE, i)
    out.append(d[s[i:j + 1]])
    s = s[j + 1:]
  return out


def has_placeholder(s):
  if isinstance(s, bytes):
    return PH_OPEN.encode('utf-8') in s
  return isinstance(s, str) and PH_OPEN in s


def unplace(s):
  """A str/bytes that is exactly one placeholder -> its symbolic value."""
  if not has_placeholder(s):
    return s
  parts = split_placeholders(s)
  if len(parts) == 1:
    return parts[0]
  return s


# -- equality used by oracles -------------------------------------------------
def same(a, b):
  """Semantic equality of two scalars (NaN equals NaN)."""
  a, b = _norm(a), _norm(b)
  if isinstance(a, (str, bytes)):
    a = unplace(a)
  if isinstance(b, (str, bytes)):
    b = unplace(b)
  if isinstance(a, str):
    a = a.encode('utf-8')
  if isinstance(b, str):
    b = b.encode('utf-8')
  if isnan(a) or isnan(b):
    return isnan(a) and isnan(b)
  if not is_sym(a) and is_sym(b):
    a, b = b, a
  r = (a == b)
  if r is NotImplemented:
    return False
  return r


def close(a, b, tol=Fraction(1, 10**4)):
  """|a-b| <= tol*(1+|b|) (for results rounded by real float arithmetic)."""
  a, b = _norm(a), _norm(b)
  if _special(a) or _special(b):
    return same(a, b)
  d = a - b
  bb = abs(b)
  return band(d <= tol * (1 + bb), -d <= tol * (1 + bb))
