OVERLOADS = {}
def overload(fn, **kw):
  def wrap(impl):
    OVERLOADS.setdefault(fn, []).append(impl)
    return impl
  return wrap
METHODS = {}
def overload_method(cls, name, **kw):
  def wrap(impl):
    METHODS.setdefault((cls, name), []).append(impl)
    return impl
  return wrap
def overload_attribute(*a, **kw):
  return lambda impl: impl
def register_jitable(*args, **kw):
  if args and callable(args[0]):
    return args[0]
  return lambda fn: fn
def intrinsic(*args, **kw):
  if args and callable(args[0]):
    return args[0]
  return lambda fn: fn
class _TypeofImpl:
  registry = {}
  def register(self, cls):
    def wrap(fn):
      self.registry[cls] = fn
      return fn
    return wrap
typeof_impl = _TypeofImpl()
