"""Strings of symbolic characters, and a model of the standard CSV writer.

A symbolic character is carried as a private-use code point; code that inspects
characters through the methods below forks on the character's symbolic code.
"""
from __future__ import annotations

import csv as _csv

from sx import core
from sx.core import Unsupported

BASE, SPAN = 0xE000, 6000


def _codes():
  return core.engine().notes.setdefault('chars', [])


def carrier(code):
  """The character standing for a symbolic code."""
  r = _codes()
  r.append(code)
  if len(r) > SPAN:
    raise Unsupported('too many symbolic characters')
  return chr(BASE + len(r) - 1)


def codes(text):
  """The codes (int or SInt) of a text with carriers."""
  if not core.active():
    return [ord(c) for c in text]
  r = _codes()
  return [r[ord(c) - BASE] if BASE <= ord(c) < BASE + len(r) else ord(c)
          for c in str.__str__(text)]


def is_(code, *chars):
  """Whether the code is one of the given characters (forks)."""
  if isinstance(code, int):
    return any(code == ord(c) for c in chars)
  return bool(core.bor(*[code == ord(c) for c in chars]))


def same(a, b):
  """Equality of two code lists as a condition."""
  if len(a) != len(b):
    return False
  return core.band(*[core.same(x, y) for x, y in zip(a, b)])


SPACE = ' \t\n\r\x0b\x0c'


class SymText(str):
  """A str with carriers whose inspecting methods see the symbolic codes."""

  def _pairs(self):
    return list(zip(str.__str__(self), codes(self)))

  def __getitem__(self, k):
    return SymText(str.__getitem__(self, k))

  def __add__(self, o):
    return SymText(str.__add__(self, o))

  def __radd__(self, o):
    return SymText(str.__add__(o, self))

  def __iter__(self):
    return (SymText(c) for c in str.__str__(self))

  def __hash__(self):
    return 0

  def __eq__(self, o):
    if not isinstance(o, str):
      return False
    return bool(same(codes(self), codes(o)))

  def __ne__(self, o):
    return not self == o

  def __contains__(self, o):
    return self.find(o) >= 0

  def find(self, o, *a):
    if a:
      raise Unsupported('find in a range')
    n, w = codes(self), codes(o)
    for i in range(len(n) - len(w) + 1):
      if bool(same(n[i:i + len(w)], w)):
        return i
    return -1

  def startswith(self, o, *a):
    if a or not isinstance(o, str):
      raise Unsupported('startswith')
    w = codes(o)
    return len(w) <= len(self) and bool(same(codes(self)[:len(w)], w))

  def endswith(self, o, *a):
    if a or not isinstance(o, str):
      raise Unsupported('endswith')
    w = codes(o)
    return len(w) <= len(self) and bool(same(codes(self)[len(self) - len(w):], w))

  def lstrip(self, chars=None):
    p = self._pairs()
    while p and is_(p[0][1], *(chars or SPACE)):
      p.pop(0)
    return SymText(''.join(c for c, _ in p))

  def rstrip(self, chars=None):
    p = self._pairs()
    while p and is_(p[-1][1], *(chars or SPACE)):
      p.pop()
    return SymText(''.join(c for c, _ in p))

  def strip(self, chars=None):
    return self.lstrip(chars).rstrip(chars)

  def replace(self, old, new, count=-1):
    if len(old) != 1 or count != -1:
      raise Unsupported('replace')
    return SymText(''.join(new if is_(k, old) else c for c, k in self._pairs()))

  def split(self, sep=None, maxsplit=-1):
    if sep is None or len(sep) != 1 or maxsplit != -1:
      raise Unsupported('split')
    out = ['']
    for c, k in self._pairs():
      if is_(k, sep):
        out.append('')
      else:
        out[-1] += c
    return [SymText(o) for o in out]

  def encode(self, *a, **k):
    return SymBytes(str.encode(str.__str__(self), 'utf-8'))

  def __str__(self):
    return self

  def __reduce_ex__(self, p):
    raise Unsupported('pickling symbolic text')


for _n in ('lower', 'upper', 'title', 'count', 'index', 'rfind', 'partition',
           'rsplit', 'splitlines', 'translate', 'isdigit', 'isspace', 'casefold',
           'zfill', 'capitalize', 'isalnum', 'isalpha', 'isnumeric'):
  def _no(self, *a, _n=_n, **k):
    raise Unsupported(f'str.{_n} of symbolic text')
  setattr(SymText, _n, _no)


class SymBytes(bytes):

  def decode(self, *a, **k):
    return SymText(bytes.decode(self, 'utf-8'))

  def __hash__(self):
    return 0

  def __eq__(self, o):
    return isinstance(o, bytes) and self.decode() == o.decode('utf-8')

  def __ne__(self, o):
    return not self == o


def text(env, name, max_len, lo=0, hi=0xD7FF):
  """A symbolic text of up to max_len characters."""
  n = env.choose(max_len + 1, name + '_len')
  cs = [env.int(f'{name}_{i}', lo, hi) for i in range(n)]
  if env.concrete:
    return ''.join(chr(c) for c in cs)
  return SymText(''.join(carrier(c) if not isinstance(c, int) else chr(c)
                         for c in cs))


class CsvShim:
  """Stands in for the csv module: the writer sees symbolic characters."""

  def __getattr__(self, n):
    return getattr(_csv, n)

  @staticmethod
  def writer(f, *args, **kw):
    return _Writer(f, *args, **kw)


class _Writer:

  def __init__(self, f, dialect='excel', **kw):
    self.f, self.real = f, _csv.writer(f, dialect, **kw)
    d = _csv.get_dialect(dialect) if isinstance(dialect, str) else dialect
    get = lambda n: kw.get(n, getattr(d, n))
    self.delim, self.quote = get('delimiter'), get('quotechar')
    self.end, self.quoting = get('lineterminator'), get('quoting')
    self.double, self.esc = get('doublequote'), get('escapechar')
    self.dialect = self.real.dialect

  def _field(self, x, alone):
    if x is None:
      return '""' if alone else ''
    t = x if isinstance(x, str) else str(x)
    p = list(zip(str.__str__(t), codes(t)))
    if self.quoting == _csv.QUOTE_MINIMAL:
      q = any([is_(k, self.delim, self.quote, '\n', '\r', *self.end)
               for _, k in p]) or (alone and not p)
    elif self.quoting == _csv.QUOTE_ALL:
      q = True
    elif self.quoting == _csv.QUOTE_NONNUMERIC:
      q = not isinstance(x, (int, float))
    else:
      raise Unsupported('csv quoting mode')
    if not q:
      return ''.join(c for c, _ in p)
    if not self.double or self.esc:
      raise Unsupported('csv escape character')
    return self.quote + ''.join(
        self.quote * 2 if is_(k, self.quote) else c for c, k in p) + self.quote

  def writerow(self, row):
    if not core.active():
      return self.real.writerow(row)
    row = list(row)
    line = self.delim.join(self._field(x, len(row) == 1) for x in row)
    return self.f.write(str.__str__(line) + self.end)

  def writerows(self, rows):
    for r in rows:
      self.writerow(r)


def parse_csv(line, delim, quote='"'):
  """Rows of fields (code lists), as the standard reader understands them."""
  rows, row, cur, state = [], [], [], 'start'
  for k in codes(line):
    if state in ('start', 'plain'):
      if state == 'start' and is_(k, quote):
        state = 'quoted'
      elif is_(k, delim):
        row.append(cur)
        cur, state = [], 'start'
      elif is_(k, '\n', '\r'):
        row.append(cur)
        rows.append(row)
        row, cur, state = [], [], 'start'
      else:
        cur.append(k)
        state = 'plain'
    elif state == 'quoted':
      if is_(k, quote):
        state = 'close'
      else:
        cur.append(k)
    else:
      if is_(k, quote):
        cur.append(k)
        state = 'quoted'
      elif is_(k, delim):
        row.append(cur)
        cur, state = [], 'start'
      elif is_(k, '\n', '\r'):
        row.append(cur)
        rows.append(row)
        row, cur, state = [], [], 'start'
      else:
        cur.append(k)
        state = 'plain'
  row.append(cur)
  rows.append(row)
  return rows
