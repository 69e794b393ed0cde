"""Runs the cases of one property: symbolic exploration, replay, evidence.

python -m sx.checklib A01 [--tier quick|thorough] [--case NAME] [-v]
python -m sx.checklib --replay FILE
"""
from __future__ import annotations

import argparse
import fnmatch
import functools
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))
REPO = os.environ.get('SX_REPO', '/repo')
NPROC = int(os.environ.get('SX_PROCS', '8'))


class Case:

  def __init__(self, name, fn, quick, budget, thorough_budget, shards,
               max_paths, bounds, assumptions, samples, setup, needs_sym):
    self.name, self.fn, self.quick = name, fn, quick
    self.budget, self.thorough_budget = budget, thorough_budget
    self.shards, self.max_paths = shards, max_paths
    self.bounds, self.assumptions = bounds, assumptions
    self.samples = samples
    self.setup = setup
    self.needs_sym = needs_sym


class Check:
  """The cases deciding one property."""

  def __init__(self, prop, bounds=(), assumptions=(), excluded=()):
    self.prop = prop
    self.cases = []
    self.bounds = list(bounds)
    self.assumptions = list(assumptions)
    self.excluded = list(excluded)

  def case(self, name, quick=True, budget=16, thorough_budget=None, shards=1,
           max_paths=4000, bounds='', assumptions=(), samples=2, setup=None,
           needs_sym=True):
    def d(fn):
      self.cases.append(Case(
          name, fn, quick, budget, thorough_budget or budget * 5, shards,
          max_paths, bounds, list(assumptions), samples, setup, needs_sym))
      return fn
    return d


# ---------------------------------------------------------------------------
# environments


class Lazy:
  """Text of two values, rendered only when reported."""

  def __init__(self, *values):
    self.values = values

  def __str__(self):
    return ' vs '.join(map(repr, self.values))


class Mismatch(Exception):
  pass


class EnvBase:
  concrete = False
  on_setup = None

  def __init__(self, case, shard, cache):
    self.case, self.shard = case, shard
    self._cache = cache
    self._names = {}
    self.reached = set()

  def _name(self, base):
    k = self._names.get(base, 0)
    self._names[base] = k + 1
    return base if not k else f'{base}.{k}'

  def once(self, key, make):
    if key not in self._cache:
      from sx import core
      t = time.time()
      with core.paused():
        self._cache[key] = make()
      if self.on_setup:
        self.on_setup(time.time() - t)
    return self._cache[key]

  def sched(self, n=None):
    """The distribution schedule of this run."""
    from sx import minibeam
    n = n or minibeam.Schedule.N_KINDS
    if self.case.shards > 1:
      k = self.shard % n
    else:
      k = self.choose(n, 'sched')
    return minibeam.Schedule(k)

  def reals(self, base, n, lo=None, hi=None):
    return [self.real(f'{base}{i}', lo, hi) for i in range(n)]

  def ints(self, base, n, lo, hi):
    return [self.int(f'{base}{i}', lo, hi) for i in range(n)]

  def toks(self, base, n, universe=16):
    return [self.tok(f'{base}{i}', universe) for i in range(n)]

  def perm(self, n, name='perm'):
    """A choice of permutation of range(n)."""
    left, out = list(range(n)), []
    for i in range(n):
      out.append(left.pop(self.choose(len(left), f'{name}{i}')))
    return out

  def split(self, rows, name='split', max_parts=2, allow_empty=False):
    """A choice of how rows are cut into consecutive batches."""
    n = len(rows)
    cuts = []
    for i in range(1, n):
      if len(cuts) < max_parts - 1 and self.choose(2, f'{name}{i}'):
        cuts.append(i)
    out, prev = [], 0
    for c in cuts + [n]:
      out.append(rows[prev:c])
      prev = c
    return out

  def reach(self, label):
    self.reached.add(label)


class SymEnv(EnvBase):

  def __init__(self, case, shard, cache, engine):
    super().__init__(case, shard, cache)
    self.e = engine

  def real(self, name, lo=None, hi=None):
    return self.e.real(self._name(name), lo, hi)

  def float_(self, name, specials=(), lo=None, hi=None):
    return self.e.float_(self._name(name), specials, lo, hi)

  def int(self, name, lo, hi):
    return self.e.int(self._name(name), lo, hi)

  def bool(self, name):
    return self.e.bool(self._name(name))

  def tok(self, name, n=16):
    return self.e.tok(self._name(name), n)

  def choose(self, n, name='choice'):
    return self.e.choose(n, self._name(name))

  def assume(self, cond):
    self.e.assume(cond)

  def check(self, cond, label, detail='', strong=()):
    self.reached.add(label)
    return self.e.prove(cond, label, detail, strong)

  def eq(self, a, b, label, detail='', tol=1e-3):
    from sx import core
    a, b = core._norm(a), core._norm(b)
    strong = ()
    if isinstance(a, core.SReal) or isinstance(b, core.SReal):
      if not (core._special(a) or core._special(b)) and not isinstance(
          a, (bytes, str)) and not isinstance(b, (bytes, str)):
        d = abs(core.to_real(a) - core.to_real(b))
        m = 1 + abs(core.to_real(b))
        strong = (d > m, d > m / 16, d > m / 256)
        if tol == 'close':
          return self.check(core.close(a, b), label, detail, strong)
    elif isinstance(a, float) and isinstance(b, (float, int)) and a == a and (
        b == b) and abs(a) != float('inf') and abs(b) != float('inf'):
      # two concrete numbers: rounding of real float arithmetic is allowed
      return self.check(abs(a - b) <= 1e-5 * (1 + abs(b)), label,
                        detail or f'{a} != {b}')
    return self.check(core.same(a, b), label, detail or Lazy(a, b), strong)

  def isclose(self, a, b):
    from sx import core
    return core.same(a, b)


class ConcEnv(EnvBase):
  concrete = True

  def __init__(self, case, shard, cache, inputs):
    super().__init__(case, shard, cache)
    self.inputs = inputs
    self.failures = []

  def _get(self, name, default):
    name = self._name(name)
    return self.inputs.get(name, default)

  def real(self, name, lo=None, hi=None):
    return float(Fraction(self._get(name, lo if lo is not None else 0)))

  def float_(self, name, specials=(), lo=None, hi=None):
    n = self._name(name)
    if specials:
      k = int(self.inputs.get(n + '_special', 0))
      if k:
        return float(specials[k - 1])
    return float(Fraction(self.inputs.get(n, lo if lo is not None else 0)))

  def int(self, name, lo, hi):
    return int(self._get(name, lo))

  def bool(self, name):
    return bool(self._get(name, False))

  def tok(self, name, n=16):
    from sx import core
    return core.token_string(int(self._get(name, 0)))

  def choose(self, n, name='choice'):
    if n <= 1:
      return 0
    return int(self._get(name, 0))

  def assume(self, cond):
    if not cond:
      raise Mismatch('assumption')

  def check(self, cond, label, detail='', strong=()):
    self.reached.add(label)
    if not cond:
      self.failures.append((label, str(detail)))
    return bool(cond)

  def eq(self, a, b, label, detail='', tol=1e-3):
    if tol == 'close':
      tol = 1e-3
    return self.check(conc_eq(a, b, tol), label, detail or f'{a!r} vs {b!r}')

  def isclose(self, a, b):
    return conc_eq(a, b, 1e-3)


def conc_eq(a, b, tol=1e-3):
  import numpy as np
  if isinstance(a, np.ndarray) and a.shape == ():
    a = a.item()
  if isinstance(b, np.ndarray) and b.shape == ():
    b = b.item()
  if isinstance(a, np.generic):
    a = a.item()
  if isinstance(b, np.generic):
    b = b.item()
  if isinstance(a, str):
    a = a.encode()
  if isinstance(b, str):
    b = b.encode()
  if isinstance(a, bytes) or isinstance(b, bytes) or a is None or b is None:
    return a == b
  if isinstance(a, float) or isinstance(b, float) or isinstance(
      a, Fraction) or isinstance(b, Fraction):
    a, b = float(a), float(b)
    if a != a or b != b:
      return a != a and b != b
    if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
      return a == b
    return abs(a - b) <= tol * (1 + abs(b))
  return a == b


# ---------------------------------------------------------------------------
# children


def load_check(prop):
  path = os.path.join(VERIF, 'checks', f'{prop}.py')
  spec = importlib.util.spec_from_file_location(f'check_{prop}', path)
  m = importlib.util.module_from_spec(spec)
  sys.modules[spec.name] = m
  spec.loader.exec_module(m)
  return m.CHECK


_FUNCS = set()


def _monitor():
  mon = sys.monitoring
  try:
    mon.use_tool_id(3, 'sx')
  except ValueError:
    return
  pref = os.path.join(REPO, 'tensorflow_transform') + os.sep

  def start(code, off):
    f = code.co_filename
    if f.startswith(pref):
      _FUNCS.add(f[len(pref):-3].replace('/', '.') + ':' + code.co_qualname)
    return mon.DISABLE
  mon.register_callback(3, mon.events.PY_START, start)
  mon.set_events(3, mon.events.PY_START)


def _ser(v):
  if isinstance(v, Fraction):
    return str(v)
  return v


def _exc_text(e, n=1200):
  chain, c = [], e
  while c is not None and len(chain) < 8:
    fr = ' '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                  for f in traceback.extract_tb(c.__traceback__)[-8:])
    chain.append(f'{type(c).__name__}: {str(c)[:400]!r} [{fr}]')
    c = c.__cause__ or c.__context__
  return ' <- '.join(reversed(chain))[:n]


def _root_exc(e):
  seen = 0
  while (e.__cause__ is not None or e.__context__ is not None) and seen < 10:
    e = e.__cause__ or e.__context__
    seen += 1
  return e


def run_shards(case, shards, budget, seed, verbose=False):
  """Executed in a child process: the shards share the built pipelines."""
  cache, out, left = {}, [], budget
  for k, s in enumerate(shards):
    r = run_symbolic(case, s, left / (len(shards) - k), seed, verbose, cache)
    left -= min(left, r['explore_s'])
    out.append(r)
  for b in cache.values():
    if hasattr(b, 'close'):
      b.close()
  return out


def run_symbolic(case, shard, budget, seed, verbose=False, cache=None):
  import sx
  from sx import core, runtime
  runtime.install()
  _monitor()
  t0 = time.time()
  eng = core.Engine(max_paths=case.max_paths, deadline=t0 + budget,
                    query_ms=4000, final_ms=15000)
  cache = {} if cache is None else cache
  setup_s = [0.0]
  reached = {}
  samples = []
  unsupported = {}
  excs = []
  n_viol_seen = 0
  n_ok = 0
  from sx import tfsym

  def on_setup(t):
    # construction of the pipelines does not count towards the budget
    setup_s[0] += t
    eng.deadline += t

  def body():
    runtime.new_path()
    env = SymEnv(case, shard, cache, eng)
    body.env = env
    env.on_setup = on_setup
    return case.fn(env)

  rnd = random.Random(seed)
  for res in eng.explore(body):
    env = body.env
    for l in env.reached:
      reached[l] = reached.get(l, 0) + 1
    if res.exc is not None:
      root = res.exc
      chain = []
      while root is not None and len(chain) < 12:
        chain.append(root)
        root = root.__cause__ or root.__context__
      uns = [c for c in chain if isinstance(c, core.Unsupported) or _moved(c)]
      with_model = None
      core._CUR.append(eng)
      try:
        with_model = eng.witness()
      except Exception:  # pylint: disable=broad-except
        pass
      finally:
        core._CUR.pop()
      if uns:
        k = str(uns[-1])[:160]
        unsupported[k] = unsupported.get(k, 0) + 1
        if verbose:
          print('UNSUPPORTED', case.name, _exc_text(res.exc, 3500))
        if with_model is not None and len(samples) < 12:
          samples.append({k2: _ser(v) for k2, v in with_model.items()})
      else:
        if verbose:
          print('EXC', case.name, _exc_text(res.exc, 3500))
        if with_model is not None and len(excs) < 6:
          excs.append({'label': f'exception {type(chain[-1]).__name__}',
                       'inputs': {k2: _ser(v) for k2, v in with_model.items()},
                       'detail': _exc_text(res.exc, 900)})
        elif with_model is None:
          unsupported['exception on a path without witness'] = 1
    else:
      n_ok += 1
      if n_ok <= case.samples or (n_ok & (n_ok - 1)) == 0 and len(
          samples) < case.samples + 3:
        core._CUR.append(eng)
        try:
          w = eng.witness()
        except Exception:  # pylint: disable=broad-except
          w = None
        finally:
          core._CUR.pop()
        if w is not None:
          samples.append({k2: _ser(v) for k2, v in w.items()})
    if verbose and len(eng.violations) > n_viol_seen:
      for v in eng.violations[n_viol_seen:]:
        print('CAND', case.name, v.label, v.inputs, str(v.detail)[:1500])
    n_viol_seen = len(eng.violations)
    if len(eng.violations) >= 8 or len(excs) >= 6:
      eng.truncated = True
      break
    if time.time() > eng.deadline:
      if eng.work:
        eng.truncated = True
      break
  viols, seen = [], {}
  for v in eng.violations:
    if seen.get(v.label, 0) < 3:
      seen[v.label] = seen.get(v.label, 0) + 1
      viols.append({'label': v.label, 'detail': str(v.detail)[:600],
                    'inputs': {k: _ser(x) for k, x in v.inputs.items()}})
  return {
      'explore_s': time.time() - t0 - setup_s[0],
      'case': case.name, 'shard': shard, 'viols': viols + excs,
      'samples': samples, 'unsupported': unsupported,
      'inconclusive': sorted(set(eng.inconclusive))[:20],
      'n_inconclusive': len(eng.inconclusive),
      'paths': eng.paths, 'ok': n_ok, 'aborted': eng.aborted,
      'truncated': eng.truncated, 'reached': reached,
      'stats': eng.stats.as_dict(), 'funcs': sorted(_FUNCS),
      'ops': dict(tfsym.USED_OPS), 'wall': round(time.time() - t0, 2)}


_OURS = os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))


@functools.lru_cache(None)
def _our_names():
  names = set()
  for f in glob.glob(_OURS + '/checks/*.py') + glob.glob(_OURS + '/lib/sx/*.py'):
    with open(f) as fh:
      names.update(re.findall(r'^(?:class|def) (\w+)', fh.read(), re.M))
  return names


def _moved(e):
  """Whether e says that private code this machinery looks into has changed."""
  tb, last = e.__traceback__, ''
  while tb is not None:
    last = tb.tb_frame.f_code.co_filename
    tb = tb.tb_next
  ours = os.path.abspath(last).startswith(_OURS + os.sep)
  text = str(e)
  if isinstance(e, TypeError):
    m = re.match(r'([\w.<>]+)\(\) (got an unexpected keyword|missing \d|takes )',
                 text)
    return bool(m) and (ours or m.group(1).split('.')[0] in _our_names())
  if not ours:
    return False
  if isinstance(e, AttributeError):
    return bool(re.search(r"module 'tensorflow_transform[^']*' has no attribute|"
                          r"has no attribute '_\w+'", text))
  return isinstance(e, ImportError) and 'tensorflow_transform' in text


def run_concrete(case, shard, inputs_list, budget=120, cache=None):
  """Runs the case on concrete inputs with the unmodified libraries."""
  from sx import core
  out = []
  own = cache is None
  cache = {} if own else cache
  t0 = time.time()
  for inputs in inputs_list:
    if time.time() - t0 > budget:
      break
    env = ConcEnv(case, shard, cache, inputs)
    try:
      case.fn(env)
      out.append({'failures': env.failures[:5]})
    except Mismatch:
      out.append({'failures': [], 'mismatch': True})
    except Exception as e:  # pylint: disable=broad-except
      r = _root_exc(e)
      if isinstance(r, core.Unsupported) or _moved(r):
        out.append({'failures': [], 'mismatch': True})
        continue
      out.append({'failures': env.failures[:5],
                  'exc': type(r).__name__, 'text': _exc_text(e, 900)})
  for b in cache.values() if own else ():
    if hasattr(b, 'close'):
      b.close()
  return out


def run_validation(case, samples, budget):
  """Concrete runs of sampled path witnesses, interleaving the shards."""
  cache, out = {}, []
  t0 = time.time()
  for shard, inputs in samples:
    if time.time() - t0 > budget:
      break
    out += run_concrete(case, shard, [inputs], cache=cache)
  for b in cache.values():
    if hasattr(b, 'close'):
      b.close()
  return out


def _child(conn, fn, args, quiet):
  try:
    os.setpgrp()
    if quiet:
      dn = os.open(os.devnull, os.O_WRONLY)
      os.dup2(dn, 2)
      if quiet > 1:
        os.dup2(dn, 1)
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    soft = 40 << 30
    resource.setrlimit(resource.RLIMIT_AS, (
        soft if hard == resource.RLIM_INFINITY else min(soft, hard), hard))
    sys.setrecursionlimit(10000)
    r = ('ok', fn(*args))
  except BaseException as e:  # pylint: disable=broad-except
    r = ('err', _exc_text(e, 3000))
  try:
    conn.send(r)
    conn.close()
  finally:
    os._exit(0)


class Pool:
  """Forks one child per task; kills those that exceed their limit."""

  def __init__(self, n, quiet):
    self.n, self.quiet = n, quiet
    self.pending, self.running = [], []

  def submit(self, key, fn, args, limit):
    self.pending.append((key, fn, args, limit))

  def results(self):
    from multiprocessing import connection
    while self.pending or self.running:
      while self.pending and len(self.running) < self.n:
        key, fn, args, limit = self.pending.pop(0)
        a, b = mp.Pipe(False)
        p = mp.get_context('fork').Process(
            target=_child, args=(b, fn, args, self.quiet))
        p.start()
        b.close()
        self.running.append((key, p, a, time.time() + limit))
      connection.wait([r[2] for r in self.running], 1.0)
      keep = []
      for key, p, a, dl in self.running:
        done = None
        if a.poll():
          try:
            done = a.recv()
          except EOFError:
            done = ('err', 'child died')
        elif time.time() > dl:
          done = ('timeout', None)
        elif not p.is_alive():
          done = ('err', f'child exited {p.exitcode}')
        if done is None:
          keep.append((key, p, a, dl))
          continue
        try:
          os.killpg(p.pid, signal.SIGKILL)
        except OSError:
          pass
        p.join(5)
        if p.is_alive():
          p.kill()
        a.close()
        yield key, done
      self.running = keep


# ---------------------------------------------------------------------------


def known_findings(prop):
  """Lines `known property=A01 case=<glob> label=<glob> :: text`."""
  out = []
  path = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(path):
    for l in open(path):
      m = re.match(r'known: property=(\S+) case=(\S+) label=(\S+) :: (.*)', l)
      if m and m.group(1) == prop:
        out.append((m.group(2), m.group(3).replace('_', '?'), m.group(4)))
  return out


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--case', default=None)
  ap.add_argument('--replay', default=None)
  ap.add_argument('--budget', type=float, default=None)
  ap.add_argument('--list', action='store_true')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args(argv)
  if a.replay:
    return replay_file(a.replay)
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  seed = int(os.environ.get('VERIF_SEED') or 1)
  random.seed(seed)
  t0 = time.time()
  _scrub()
  tmp = tempfile.mkdtemp(prefix='sxrun_')
  os.environ['TMPDIR'] = tmp
  tempfile.tempdir = tmp
  try:
    return _main(a, tier, seed, t0)
  finally:
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)


def _scrub():
  import warnings
  warnings.simplefilter('ignore')
  import logging
  logging.disable(logging.CRITICAL)


def _main(a, tier, seed, t0):
  if not a.v:
    saved = os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
  import_err = None
  try:
    import sx  # noqa: F401
    from sx import core, runtime, pipeline  # noqa: F401
    check = load_check(a.prop)
  except Exception as e:  # pylint: disable=broad-except
    import_err = e
  finally:
    if not a.v:
      os.dup2(saved, 2)
  if import_err is not None:
    sys.stderr.write(_exc_text(import_err, 4000))
    return 2
  cases = [c for c in check.cases
           if (c.quick or tier == 'thorough') and
           (a.case is None or fnmatch.fnmatch(c.name, a.case))]
  if a.list:
    for c in check.cases:
      print(c.name, 'quick' if c.quick else 'thorough', c.bounds)
    return 0
  pool = Pool(1 if a.v and os.environ.get('SX_SERIAL') else NPROC, 0 if a.v else 1)
  tasks = []
  for c in cases:
    n = max(1, c.shards)
    g = min(n, 2 if tier == 'quick' else 6)
    for k in range(g):
      tasks.append((c, list(range(n))[k::g]))
  scale = 1.0
  if tier == 'quick' and not a.budget:
    # keep the check within its wall-clock target; every task also builds its
    # pipeline and validates samples
    target = float(os.environ.get('SX_TARGET', '45'))
    avail = target * NPROC - 4.5 * len(tasks)
    scale = max(0.25, min(1.0, avail / max(1, sum(c.budget for c, _ in tasks))))
  for c, s in tasks:
    b = a.budget or (max(3.0, c.budget * scale) if tier == 'quick' else
                     c.thorough_budget)
    pool.submit(('sym', c.name, s), run_shards, (c, s, b, seed, a.v), b + 150)
  byname = {c.name: c for c in check.cases}
  known = known_findings(a.prop)
  results, problems = [], []
  cands = []
  validated = 0
  val_fail = []
  nviol = {}
  for key, (st, r) in pool.results():
    kind, name, s = key[:3]
    c = byname[name]
    if kind in ('sym', 'run'):
      if st != 'ok':
        problems.append({'case': name, 'shard': s, 'what': st,
                         'text': (r or '')[-1500:]})
        if a.v:
          print('PROBLEM', name, s, st, r)
        continue
      results += r
      samples = []
      for r1 in r:
        if a.v:
          print(json.dumps({k: r1[k] for k in (
              'case', 'shard', 'paths', 'ok', 'aborted', 'truncated',
              'unsupported', 'inconclusive', 'n_inconclusive', 'stats',
              'wall')}))
        for v in r1['viols']:
          n = nviol.get((name, v['label']), 0)
          if n < 4:
            nviol[(name, v['label'])] = n + 1
            pool.submit(('rep', name, r1['shard'], v), run_concrete,
                        (c, r1['shard'], [v['inputs']]), 200)
        samples += [(r1['shard'], x) for x in r1['samples'][:c.samples + 10]]
      if samples:
        pool.submit(('val', name, s, samples), run_validation,
                    (c, samples, 15 if tier == 'quick' else 60), 200)
    elif kind == 'rep':
      v = key[3]
      if st != 'ok' or not r:
        problems.append({'case': name, 'shard': s, 'what': f'replay {st}',
                         'label': v['label']})
        if a.v:
          print('REPLAY', name, s, st, r)
        continue
      o = r[0]
      bad = o['failures'] or ([('exception ' + o['exc'], o['text'])]
                              if o.get('exc') else [])
      if a.v:
        print('REPLAY', name, v['label'], v['inputs'], '->', str(o)[:900])
      if bad:
        cands.append((c, s, v, bad))
        if tier == 'quick' and len([x for x in cands if not _known(
            known, x)]) >= 6:
          pool.pending = [t for t in pool.pending if t[0][0] == 'rep'][:2]
      else:
        problems.append({'case': name, 'shard': s, 'label': v['label'],
                         'what': 'counterexample did not reproduce',
                         'inputs': v['inputs'], 'detail': v['detail']})
    else:
      if st != 'ok':
        problems.append({'case': name, 'shard': s, 'what': f'validation {st}'})
        continue
      for (s, inp), o in zip(key[3], r):
        bad = o['failures'] or ([('exception ' + o['exc'], o['text'])]
                                if o.get('exc') else [])
        if o.get('mismatch'):
          continue
        validated += 1
        if bad:
          if a.v:
            print('VALIDATION', name, inp, str(o)[:900])
          cands.append((c, s, {'label': bad[0][0], 'inputs': inp,
                               'detail': bad[0][1]}, bad))
  # -- verdict ---------------------------------------------------------------
  printed = set()
  violations = 0
  rdir = os.path.join(VERIF, 'evidence', 'replays')
  reported = []
  for c, s, v, bad in cands:
    lab = bad[0][0]
    k = _known(known, (c, s, v, bad))
    if k is not None:
      if k not in printed:
        printed.add(k)
        print(f'KNOWN-FINDING: property={a.prop} {k[2]}')
      continue
    violations += 1
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f'{a.prop}-{violations}.json')
    with open(path, 'w') as f:
      json.dump({'property': a.prop, 'case': c.name, 'shard': s,
                 'label': v['label'], 'inputs': v['inputs'],
                 'failures': bad}, f, indent=1, default=str)
    reported.append({'case': c.name, 'label': lab, 'inputs': v['inputs'],
                     'detail': str(bad[0][1])[:800]})
    if violations <= 10:
      print(f'VIOLATION property={a.prop} replay={path}')
      print(f'  case {c.name}: {lab}: {str(bad[0][1])[:600]}')
      print(f'  inputs {json.dumps(v["inputs"], default=str)[:600]}')
  ev = evidence(check, a.prop, tier, seed, results, problems, validated,
                reported, violations, t0, tasks)
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  if a.case is None:
    with open(os.path.join(VERIF, 'evidence', f'{a.prop}.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
  cov = ev['coverage']
  print(f'{a.prop} {tier}: {cov["paths"]} paths, {cov["solver_queries"]} '
        f'queries, {cov["obligations_proved"]} obligations proved, '
        f'{cov["inconclusive"]} inconclusive, {validated} concrete '
        f'validations, {len(problems)} problems, {violations} violations, '
        f'{time.time() - t0:.0f}s')
  for p in problems[:6]:
    print('  note:', str(p)[:700 if not a.v else 3000])
  uns = {}
  for r in results:
    for k, n in r['unsupported'].items():
      uns[k] = uns.get(k, 0) + n
  for k, n in sorted(uns.items(), key=lambda x: -x[1])[:6]:
    print(f'  unsupported x{n}: {k}')
  tr = sorted({r['case'] for r in results if r['truncated']})
  if tr:
    print('  truncated:', ', '.join(tr))
  if violations:
    return 1
  if not any(r['ok'] for r in results):
    sys.stderr.write('no case could be decided\n')
    return 2
  return 0


def _known(known, cand):
  c, _, _, bad = cand
  return next((x for x in known if fnmatch.fnmatch(c.name, x[0]) and
               fnmatch.fnmatch(bad[0][0].replace(' ', '_'), x[1])), None)


def evidence(check, prop, tier, seed, results, problems, validated, reported,
             violations, t0, tasks):
  tot = lambda k: sum(r[k] for r in results)
  st = lambda k: sum(r['stats'][k] for r in results)
  funcs = sorted({f for r in results for f in r['funcs']})
  ops = {}
  for r in results:
    for k, n in r['ops'].items():
      ops[k] = ops.get(k, 0) + n
  per = {}
  for r in results:
    d = per.setdefault(r['case'], {
        'paths': 0, 'completed': 0, 'obligations': 0, 'exhausted': True,
        'unsupported': {}, 'inconclusive': 0, 'reached': {}})
    d['paths'] += r['paths']
    d['completed'] += r['ok']
    d['obligations'] += r['stats']['obligations_proved']
    d['exhausted'] = d['exhausted'] and not r['truncated'] and not (
        r['unsupported'])
    d['inconclusive'] += r['n_inconclusive']
    for k, n in r['unsupported'].items():
      d['unsupported'][k] = d['unsupported'].get(k, 0) + n
    for k, n in r['reached'].items():
      d['reached'][k] = d['reached'].get(k, 0) + n
  names = {c.name: c for c, _ in tasks}
  for n, d in per.items():
    d['bounds'] = names[n].bounds
    if len(d['reached']) > 30:
      d['reached'] = dict(list(d['reached'].items())[:30])
  unreached = [n for n in names if n not in per or not per[n]['reached']]
  samples = []
  for r in results:
    for s in r['samples'][:1]:
      samples.append({'case': r['case'], 'inputs': s})
  assum = list(check.assumptions)
  for c in names.values():
    assum += [x for x in c.assumptions if x not in assum]
  assum += [
      'floating point is modelled by exact real arithmetic with NaN and '
      'infinities as separate cases; float rounding is outside the claim',
      'TensorFlow kernels are modelled by sx/tfsym.py (checked against real '
      'TensorFlow by selftest/val_tfsym.py and by the concrete validations)',
      'the Beam runner is replaced by sx/minibeam.py: any of six schedules of '
      'bundling, batching, ordering and merging']
  explored = sum(1 for d in per.values() if d['exhausted'])
  return {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation': (
              'Symbolic execution of the real code: every case below ran the '
              'functions listed under functions_encoded on symbolic inputs; '
              'each completed path discharges its obligations with z3 over '
              'all values of its inputs. Cases marked exhausted covered '
              'every path within their stated bounds; for the others only '
              'the explored paths are claimed. Witness inputs of sampled '
              'paths were re-run on the unmodified code and libraries '
              '(concrete_validations).'),
          'paths': tot('paths'), 'paths_completed': tot('ok'),
          'path_rule': 'one per distinct set of branch decisions of the code '
                       'under test (and of the harness) on symbolic inputs',
          'cases': len(per), 'cases_exhausted': explored,
          'solver_queries': st('queries'),
          'solver_s': round(st('solver_s'), 3),
          'obligations_proved': st('obligations_proved'),
          'inconclusive': tot('n_inconclusive'),
          'solver_unknown': st('unknown'),
          'concrete_validations': validated,
          'per_case': per,
          'cases_without_reached_assertion': unreached,
          'bounds': check.bounds, 'outside_the_claim': check.excluded,
          'functions_encoded': funcs[:400],
          'functions_encoded_count': len(funcs),
          'tf_ops_interpreted': ops,
          'problems': problems[:20],
          'samples': samples[:12] or [{'case': 'none', 'inputs': {}}],
          'reported': reported[:10]},
      'assumptions': assum, 'wall_s': round(time.time() - t0, 2),
      'violations': violations}


def replay_file(path):
  d = json.load(open(path))
  _scrub()
  import sx  # noqa: F401
  from sx import core, runtime, pipeline  # noqa: F401
  check = load_check(d['property'])
  c = next(c for c in check.cases if c.name == d['case'])
  r = run_concrete(c, d['shard'], [d['inputs']])[0]
  print(json.dumps(r, indent=1, default=str))
  if r['failures'] or r.get('exc'):
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1
  return 0


if __name__ == '__main__':
  sys.exit(main())
