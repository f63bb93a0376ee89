from numba import types
class List(list):
  _numba_type_ = types.Type("List", item_type=types.Type("any"))
  def __init__(self, iterable=(), **kw):
    super().__init__(iterable)
  @classmethod
  def empty_list(cls, item_type=None, allocated=0):
    return cls()
  def __getitem__(self, i):
    r = list.__getitem__(self, i)
    return List(r) if isinstance(i, slice) else r
  def copy(self):
    return List(self)
class Dict(dict):
  _numba_type_ = types.Type("Dict", key_type=types.Type("any"), value_type=types.Type("any"))
  def __init__(self, *a, **kw):
    super().__init__(*a)
  @classmethod
  def empty(cls, key_type=None, value_type=None, n_keys=0):
    return cls()
