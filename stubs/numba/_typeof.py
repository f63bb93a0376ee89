from numba import extending
from numba import types
def typeof(value):
  impl = extending.typeof_impl.registry.get(type(value))
  if impl is not None:
    return impl(value, None)
  return types.Type(type(value).__name__, example=type(value))
