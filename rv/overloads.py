"""Runs the implementations that are handed to the JIT compiler."""
import numba


def impls(fn, *args, **kwargs):
  """Implementations registered as compiled replacements of `fn`.

  Empty if none is registered (nothing to compare then).
  """
  table = getattr(numba.extending, "OVERLOADS", {})
  return [maker(*args, **kwargs) for maker in table.get(fn, [])]
