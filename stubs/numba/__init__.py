"""Pure-Python stand-in for numba.

The real numba (a patched fork) is not installable here.  This package gives the
subset of numba's surface that r_u_sure uses, with every jit decorator being the
identity, so that exactly the source text of the "jitted" functions is executed
by CPython.  It records overloads, so that a harness can also run the
implementation an `@overload` hands to numba.
"""
import contextlib
import sys

from numba import types
from numba import typed
from numba import extending
from numba import core
from numba.types import int64, int32, float64, float32, boolean, optional
from numba._typeof import typeof


def _identity_decorator(*args, **kwargs):
  if len(args) == 1 and callable(args[0]) and not isinstance(args[0], types.Type) and not kwargs:
    return args[0]
  def wrap(fn):
    return fn
  return wrap


njit = _identity_decorator


def jit(signature_or_function=None, *args, **kwargs):
  if callable(signature_or_function) and not isinstance(
      signature_or_function, (list, tuple, types.Type)):
    return signature_or_function
  return lambda fn: fn


vectorize = guvectorize = jit
prange = range


@contextlib.contextmanager
def objmode(*args, **kwargs):
  yield


class _Config:
  pass


config = _Config()
__version__ = "0.0-stub"
IS_VERIF_STUB = True
