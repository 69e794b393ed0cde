"""sx: a small dynamic symbolic execution toolkit for tensorflow/transform.

core.py     path exploration and symbolic scalars on top of z3
nparr.py    symbolic NumPy arrays and the numpy module shim
tfsym.py    interpreter for real TensorFlow graphs over symbolic tensors
minibeam.py evaluator for real Beam pipelines over symbolic elements
pipeline.py the whole of tf.Transform (analysis + transform) on symbolic data
checklib.py case scheduling, replay bookkeeping, evidence, exit codes
"""
import os
import sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _load_z3():
  try:
    import z3  # noqa: F401
    return
  except ImportError:
    pass
  if _VT not in sys.path:
    sys.path.append(_VT)
  import z3  # noqa: F401


_load_z3()
