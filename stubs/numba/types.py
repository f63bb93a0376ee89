class Type:
  def __init__(self, name="type", **kw):
    self.name = name
    self.__dict__.update(kw)
  def __repr__(self):
    return f"stubtype({self.name})"
  def __call__(self, value=None, *a):
    return value
  def __getitem__(self, item):
    return self
class EnumMember(Type): pass
class IntEnumMember(EnumMember): pass
class Literal(Type): pass
class TypeRef(Type): pass
class NumberClass(Type): pass
class Optional(Type): pass
int64 = Type("int64"); int32 = Type("int32")
float64 = Type("float64"); float32 = Type("float32")
boolean = Type("boolean"); none = Type("none"); unicode_type = Type("str")
def optional(t): return Optional(f"optional({t!r})", inner=t)
