"""Nested contexts resolve each setting to the innermost explicit value."""
import os
import tempfile
import threading

import tensorflow as tf
import tensorflow_transform.beam as tft_beam
from tensorflow_transform.beam import common as beam_common
from tensorflow_transform.beam import context

from sx import core
from sx.checklib import Check, Lazy

CHECK = Check(
    'A23',
    bounds=['histories of at most 5 enter/leave steps over at most 3 context '
            'objects (which may be re-entered), every option unset or set to an '
            'arbitrary value'])

OPTIONS = ('temp_dir', 'desired_batch_size', 'passthrough_keys',
           'use_deep_copy_optimization', 'force_tf_compat_v1', 'save_options')
SAVE = [tf.saved_model.SaveOptions(), tf.saved_model.SaveOptions(
    function_aliases={'a': lambda: 0})]


def value(env, opt, i):
  n = f'{opt}{i}'
  if opt == 'temp_dir':
    return os.path.join(env.once('tmp', tempfile.mkdtemp), f'd{i}')
  if opt == 'desired_batch_size':
    return env.int(n, 0, 100000)
  if opt == 'passthrough_keys':
    return [set(), {f'k{i}'}, [f'k{i}', 'z']][env.choose(3, n)]
  if opt in ('use_deep_copy_optimization', 'force_tf_compat_v1'):
    return env.bool(n)
  return SAVE[env.choose(2, n)]


def read(opt):
  C = context.Context
  if opt == 'desired_batch_size':
    return C.get_desired_batch_size()
  if opt == 'passthrough_keys':
    return C.get_passthrough_keys()
  if opt == 'use_deep_copy_optimization':
    return C.get_use_deep_copy_optimization()
  if opt == 'save_options':
    return C.get_save_options()
  if opt == 'force_tf_compat_v1':
    return C.get_use_tf_compat_v1()
  try:
    return C.create_base_temp_dir()
  except ValueError:
    return None


def expected(opt, v):
  if opt == 'passthrough_keys' and v is None:
    return set()
  if opt == 'use_deep_copy_optimization' and v is None:
    return False
  if opt == 'force_tf_compat_v1':
    return True if not tf.executing_eagerly() and not tf.inside_function() and (
        not tf.compat.v1.executing_eagerly_outside_functions()) else (
            False if v is None else v)
  if opt == 'temp_dir' and v is not None:
    return os.path.join(v, 'tftransform_tmp')
  return v


def verify(env, opts, stack, where):
  for opt in opts:
    v = None
    for s in stack:
      if s[opt] is not None:
        v = s[opt]
    w = expected(opt, v)
    g = read(opt)
    if core.is_sym(w) or core.is_sym(g):
      env.check(core.same(g, w) if g is not None and w is not None else False,
                f'{opt} {where}', Lazy(g, w))
    else:
      env.check(type(g) is type(w) and g == w, f'{opt} {where}', Lazy(g, w))
    if opt == 'temp_dir' and g is not None:
      env.check(os.path.isdir(g), 'the temporary directory exists')
      a, b = (beam_common.get_unique_temp_path(g) for _ in range(2))
      env.check(a != b and os.path.dirname(a) == g and os.path.dirname(b) == g,
                'distinct operations get distinct directories')


class Boom(Exception):
  pass


def history(env, opts, steps):
  objs, stack = [], []
  verify(env, opts, [], 'before any context')

  def make(i):
    kw = {o: value(env, o, i) if env.choose(2, f'has_{o}{i}') else None
          for o in opts}
    ctx = tft_beam.Context(**{k: v for k, v in kw.items() if v is not None})
    objs.append((ctx, kw))
    verify(env, opts, stack, 'after constructing a context')

  def level(left):
    while left > 0:
      act = env.choose(2 if stack else 1, f'act{left}')
      left -= 1
      if act:
        return left
      k = env.choose(min(len(objs) + 1, 3), f'obj{left}')
      if k == len(objs):
        make(k)
      ctx, kw = objs[k]
      boom = env.choose(2, f'boom{left}')
      try:
        with ctx:
          stack.append(kw)
          verify(env, opts, stack, 'inside')
          left = level(left)
          if boom:
            raise Boom()
        env.check(not boom, 'exceptions propagate')
      except Boom:
        env.check(bool(boom), 'only the raised exception propagates')
      finally:
        stack.pop()
      verify(env, opts, stack, 'after leaving a context')
    return 0
  level(steps)
  verify(env, opts, [], 'after leaving all contexts')


for _name, _opts in (('temp_dir', ('temp_dir',)),
                     ('batch_size', ('desired_batch_size',)),
                     ('passthrough', ('passthrough_keys',)),
                     ('deep_copy', ('use_deep_copy_optimization',)),
                     ('compat', ('force_tf_compat_v1',)),
                     ('save_options', ('save_options',))):
  @CHECK.case(_name, budget=10, bounds='up to 4 steps')
  def one(env, opts=_opts):
    history(env, opts, 4)


@CHECK.case('all_options', budget=20, bounds='up to 3 steps, all options')
def all_options(env):
  history(env, OPTIONS, 3)


@CHECK.case('pairs', budget=20, shards=5, bounds='up to 3 steps, two options')
def pairs(env):
  history(env, (OPTIONS[env.shard], OPTIONS[env.shard + 1]), 3)


@CHECK.case('threads', budget=8, bounds='one other thread, two contexts')
def threads(env):
  opts = OPTIONS[1:3]

  def other():
    for opt in opts:
      got[opt] = read(opt)
    with tft_beam.Context(desired_batch_size=other_size):
      got['inner'] = read('desired_batch_size')
    got['after'] = read('desired_batch_size')
  got = {}
  other_size = 11
  size = env.int('size', 0, 1000)
  with tft_beam.Context(desired_batch_size=size,
                        passthrough_keys={'a'}):
    t = threading.Thread(target=other)
    t.start()
    t.join()
    g = read('desired_batch_size')
    env.check(core.same(g, size) if core.is_sym(g) else g == size,
              "another thread's contexts do not leak in", Lazy(g, size))
  env.check(got['desired_batch_size'] is None and got['passthrough_keys'] == set(),
            'contexts are not seen by another thread', Lazy(got))
  env.check(got['inner'] == other_size and got['after'] is None,
            'contexts of the other thread work', Lazy(got))
