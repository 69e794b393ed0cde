"""Protocol buffer messages whose scalar fields may hold symbolic values.

`module(real_module)` stands for a generated `*_pb2` module: message classes are
built from the real descriptors (fields, defaults, oneofs, maps, presence);
everything else (enums, constants) is the real module's.
"""
from __future__ import annotations

from google.protobuf import descriptor as _d

from sx import core
from sx.core import Sym, SInt, SReal, Unsupported

_CLASSES = {}
_INTS = {_d.FieldDescriptor.CPPTYPE_INT32: 31, _d.FieldDescriptor.CPPTYPE_INT64: 63,
         _d.FieldDescriptor.CPPTYPE_UINT32: 32, _d.FieldDescriptor.CPPTYPE_UINT64: 64}
_F = _d.FieldDescriptor


def _is_map(fd):
  return (fd.message_type is not None and
          fd.message_type.GetOptions().map_entry)


def _repeated(fd):
  r = getattr(fd, 'is_repeated', None)
  return r if isinstance(r, bool) else fd.label == _F.LABEL_REPEATED


def _scalar(fd, v):
  """v as stored in field fd (type errors like the real ones)."""
  c = fd.cpp_type
  v = core._norm(v) if not isinstance(v, (str, bytes)) else v
  if c in _INTS:
    if isinstance(v, SInt):
      return v
    if isinstance(v, bool) or not isinstance(v, int):
      raise TypeError(f'{v!r} has type {type(v)}, but expected int')
    return v
  if c == _F.CPPTYPE_ENUM:
    if isinstance(v, Sym):
      raise Unsupported('symbolic enum')
    if isinstance(v, str):
      return fd.enum_type.values_by_name[v].number
    return int(v)
  if c in (_F.CPPTYPE_FLOAT, _F.CPPTYPE_DOUBLE):
    if isinstance(v, (SReal, float)):
      return v
    if isinstance(v, SInt):
      return core.to_real(v)
    if isinstance(v, (int, float)):
      return float(v)
    raise TypeError(f'{v!r} has type {type(v)}, but expected float')
  if c == _F.CPPTYPE_BOOL:
    return v if isinstance(v, core.SBool) else bool(v)
  if c == _F.CPPTYPE_STRING:
    if isinstance(v, Sym):
      return v
    if fd.type == _F.TYPE_BYTES:
      if not isinstance(v, bytes):
        raise TypeError(f'{v!r} has type {type(v)}, but expected bytes')
      return v
    if isinstance(v, bytes):
      return v.decode('utf-8')
    if not isinstance(v, str):
      raise TypeError(f'{v!r} has type {type(v)}, but expected str')
    return v
  raise Unsupported(f'field type {c}')


class Repeated(list):
  """A repeated field."""

  def __init__(self, fd, owner):
    super().__init__()
    self._fd, self._owner = fd, owner

  def _item(self, v):
    if self._fd.message_type is None:
      return _scalar(self._fd, v)
    m = klass(self._fd.message_type)()
    m.CopyFrom(v)
    return m

  def append(self, v):
    super().append(self._item(v))
    self._owner._touch()

  def extend(self, vs):
    for v in vs:
      self.append(v)

  def add(self, **kw):
    m = klass(self._fd.message_type)(**kw)
    super().append(m)
    self._owner._touch()
    return m

  def __setitem__(self, i, v):
    if self._fd.message_type is not None:
      raise TypeError('does not support item assignment')
    super().__setitem__(i, _scalar(self._fd, v))

  MergeFrom = extend

  def __deepcopy__(self, memo):
    out = Repeated(self._fd, self._owner)
    out.extend(self)
    return out


class Map(dict):
  """A map field."""

  def __init__(self, fd, owner):
    super().__init__()
    self._value = fd.message_type.fields_by_name['value']
    self._owner = owner

  def __getitem__(self, k):
    if k not in self:
      if self._value.message_type is None:
        return self._value.default_value
      dict.__setitem__(self, k, klass(self._value.message_type)())
      self._owner._touch()
    return dict.__getitem__(self, k)

  def __setitem__(self, k, v):
    if self._value.message_type is not None:
      raise ValueError('May not set values directly')
    dict.__setitem__(self, k, _scalar(self._value, v))
    self._owner._touch()

  def get_or_create(self, k):
    return self[k]


class Message:
  DESCRIPTOR = None

  def __init__(self, **kw):
    object.__setattr__(self, '_f', {})
    object.__setattr__(self, '_parent', None)
    for k, v in kw.items():
      if v is None:
        continue
      fd = self._fd(k)
      if fd is None:
        raise ValueError(f'Protocol message {self.DESCRIPTOR.name} has no '
                         f'"{k}" field.')
      if _is_map(fd):
        m = getattr(self, k)
        for kk, vv in v.items():
          if fd.message_type.fields_by_name['value'].message_type is None:
            m[kk] = vv
          else:
            m[kk].CopyFrom(vv)
      elif _repeated(fd):
        getattr(self, k).extend(v)
      elif fd.message_type is not None:
        if isinstance(v, dict):
          v = klass(fd.message_type)(**v)
        child = getattr(self, k)
        child.CopyFrom(v)
        child._touch()
      else:
        setattr(self, k, v)

  def _fd(self, name):
    return self.DESCRIPTOR.fields_by_name.get(name)

  def _touch(self):
    p = self._parent
    if p is not None:
      owner, fd = p
      if owner._f.get(fd.name) is not self or not owner.HasField(fd.name):
        owner._clear_oneof(fd)
        owner._f[fd.name] = self
        self.__dict__['_present'] = True
      owner._touch()
    self.__dict__['_present'] = True

  def _clear_oneof(self, fd):
    if fd.containing_oneof is not None:
      for o in fd.containing_oneof.fields:
        if o.name != fd.name:
          self._f.pop(o.name, None)

  def __getattr__(self, name):
    fd = self.DESCRIPTOR.fields_by_name.get(name)
    if fd is None:
      raise AttributeError(name)
    v = self._f.get(name)
    if v is not None:
      return v
    if _is_map(fd):
      v = Map(fd, self)
    elif _repeated(fd):
      v = Repeated(fd, self)
    elif fd.message_type is not None:
      v = klass(fd.message_type)()
      v.__dict__['_parent'] = (self, fd)
      v.__dict__['_present'] = False
    else:
      return fd.default_value
    if not (fd.containing_oneof is not None and any(
        o.name in self._f for o in fd.containing_oneof.fields)):
      self._f[name] = v
    return v

  def __setattr__(self, name, v):
    fd = self._fd(name)
    if fd is None:
      raise AttributeError(
          f"Assignment not allowed (no field \"{name}\" in protocol message "
          f"object).")
    if _repeated(fd) or fd.message_type is not None:
      raise AttributeError(f'Assignment not allowed to field "{name}"')
    v = _scalar(fd, v)
    self._clear_oneof(fd)
    self._f[name] = v
    self._touch()

  def HasField(self, name):
    fd = self._fd(name)
    if fd is None:
      if name in self.DESCRIPTOR.oneofs_by_name:
        return self.WhichOneof(name) is not None
      raise ValueError(f'no field {name}')
    if _repeated(fd):
      raise ValueError(f'Protocol message has no singular "{name}" field.')
    v = self._f.get(name)
    if v is None:
      return False
    if fd.message_type is not None:
      return bool(v.__dict__.get('_present', True))
    return True

  def WhichOneof(self, name):
    for o in self.DESCRIPTOR.oneofs_by_name[name].fields:
      if self.HasField(o.name):
        return o.name
    return None

  def ListFields(self):
    out = []
    for fd in self.DESCRIPTOR.fields:
      v = self._f.get(fd.name)
      if v is None:
        continue
      if _is_map(fd) or _repeated(fd):
        if len(v):
          out.append((fd, v))
      elif self.HasField(fd.name):
        out.append((fd, v))
    return out

  def Clear(self):
    self._f.clear()
    self._touch()

  def ClearField(self, name):
    self._f.pop(name, None)

  def SetInParent(self):
    self._touch()

  def CopyFrom(self, other):
    if other is self:
      return
    if other.DESCRIPTOR.full_name != self.DESCRIPTOR.full_name:
      raise TypeError('Parameter to CopyFrom() must be instance of same class')
    fields = other.ListFields()
    self._f.clear()
    self._merge(fields)
    self._touch()

  def MergeFrom(self, other):
    self._merge(other.ListFields())
    self._touch()

  def _merge(self, fields):
    for fd, v in fields:
      if _is_map(fd):
        m = getattr(self, fd.name)
        for k in v:
          if fd.message_type.fields_by_name['value'].message_type is None:
            m[k] = v[k]
          else:
            m[k].CopyFrom(v[k])
      elif _repeated(fd):
        getattr(self, fd.name).extend(v)
      elif fd.message_type is not None:
        getattr(self, fd.name).MergeFrom(v)
      else:
        setattr(self, fd.name, v)

  def __deepcopy__(self, memo):
    m = type(self)()
    m.CopyFrom(self)
    return m

  def ByteSize(self):
    raise Unsupported('size of a symbolic message')

  SerializeToString = SerializePartialToString = ByteSize

  def __eq__(self, other):
    if not isinstance(other, Message):
      return NotImplemented
    return bool(same(self, other))

  __hash__ = None

  def __repr__(self):
    return f'{self.DESCRIPTOR.name}({dict((f.name, v) for f, v in self.ListFields())})'


def same(a, b):
  """Equality of two messages (symbolic or real) as a condition."""
  if a is None or b is None:
    return a is b
  if a.DESCRIPTOR.full_name != b.DESCRIPTOR.full_name:
    return False
  fa = {f.name: (f, v) for f, v in a.ListFields()}
  fb = {f.name: (f, v) for f, v in b.ListFields()}
  if set(fa) != set(fb):
    return False
  r = True
  for n, (fd, v) in fa.items():
    w = fb[n][1]
    r = core.sand(r, _same_field(fd, v, w)) if hasattr(core, 'sand') else (
        r & _same_field(fd, v, w))
    if r is False:
      return False
  return r


def _same_field(fd, v, w):
  if _is_map(fd):
    if set(v) != set(w):
      return False
    val = fd.message_type.fields_by_name['value']
    pairs = [(v[k], w[k]) for k in v]
  elif _repeated(fd):
    if len(v) != len(w):
      return False
    pairs, val = list(zip(v, w)), fd
  else:
    pairs, val = [(v, w)], fd
  r = True
  for x, y in pairs:
    c = same(x, y) if val.message_type is not None else (x == y)
    r = r & c
    if r is False:
      return False
  return r


def klass(desc):
  """The model class of a message descriptor."""
  c = _CLASSES.get(desc.full_name)
  if c is None:
    real = desc._concrete_class

    class Meta(type):

      def __getattr__(cls, name):
        for n in desc.nested_types:
          if n.name == name:
            return klass(n)
        return getattr(real, name)

      def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or isinstance(obj, real)

    c = Meta(desc.name, (Message,), {'DESCRIPTOR': desc})
    _CLASSES[desc.full_name] = c
  return c


class Module:
  """Stands for a generated module."""

  def __init__(self, real):
    self.__dict__['_real'] = real

  def __getattr__(self, name):
    d = self._real.DESCRIPTOR.message_types_by_name.get(name)
    if d is not None:
      return klass(d)
    return getattr(self._real, name)


def module(real):
  return real if isinstance(real, Module) else Module(real)
