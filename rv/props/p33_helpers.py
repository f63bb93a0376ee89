"""P33: helpers for compiled code mean the same as plain Python."""
import contextlib
import enum
import importlib
import inspect
import io
import pkgutil

import numba
import r_u_sure
from r_u_sure.numba_helpers import numba_raise
from r_u_sure.numba_helpers import numba_type_util as ntu
from r_u_sure.numba_helpers import register_enum_hash as reh
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import part_selection_dags
from r_u_sure.edit_distance_utility import region_decisions
from rv import overloads

ID = "P33"
RULE = (
    "all enums of the package and random ones: hash, equality, use as keys, plain"
    " and as handed to the compiler; random exceptions and message parts; random"
    " values through casts; declared types of wrapped examples; nontrivial:"
    " distinct (helper, input)"
)
QUICK = dict(cases=40000, budget=20)
THOROUGH = dict(cases=1000000, budget=200)
MIN_EVENTS = {"hash": 5000, "package_enums": 2000, "raised": 5000,
              "compiled_raise": 2000, "casts": 5000, "types": 2000,
              "keys": 2000}
# Occur in DAG states and decisions, so compiled code uses them as keys.
KEYED = (constraint_dags.ConstraintDagStateCategory,
         edit_dags.EditDagStateAlignment, edit_dags.EditDagStateConfidence,
         part_selection_dags.DagStateCategory, region_decisions.DecisionCategory,
         region_decisions.DecisionValue)


def setup():
  global ENUMS
  ENUMS = []
  for m in pkgutil.walk_packages(r_u_sure.__path__, "r_u_sure."):
    if m.name.endswith("_test") or m.name.endswith("_test_lib"):
      continue
    try:
      mod = importlib.import_module(m.name)
    except ImportError:
      continue
    for _, c in inspect.getmembers(mod, inspect.isclass):
      if issubclass(c, enum.Enum) and c.__module__ == m.name and len(c):
        if c not in ENUMS:
          ENUMS.append(c)
  ENUMS.sort(key=lambda c: (c.__module__, c.__name__))


def value(rng):
  return rng.choice([
      rng.randrange(-5, 5), rng.random(), rng.choice(["", "a", "\u00e9", "x y"]),
      None, True, (1, "a"), 10 ** 30, -1, -2, float("inf"),
      (rng.randrange(3), (rng.randrange(3),))])


def compiled_hash(cls, member):
  base = (numba.types.IntEnumMember if issubclass(cls, enum.IntEnum)
          else numba.types.EnumMember)
  makers = getattr(numba.extending, "METHODS", {}).get((base, "__hash__"), [])
  return [mk(base("enum", instance_class=cls))(member) for mk in makers]


def hashes(rng, mon):
  if rng.random() < 0.5:
    cls = rng.choice(ENUMS)
    if cls not in KEYED and any(hash(m) != hash(m.value) for m in cls):
      # Not meant for compiled code, but still usable as keys.
      ms = list(cls)
      mon.eq(len({m: 0 for m in ms}), len(ms), "members as keys")
      mon.event("package_enums")
      return
    mon.event("package_enums")
  else:
    base = rng.choice([enum.Enum, enum.IntEnum])
    vals = {}
    for q in range(rng.randint(1, 6)):
      v = rng.randrange(-50, 50) if base is enum.IntEnum else value(rng)
      if not any(v == w for w in vals.values()):
        vals[f"M{q}"] = v

    ns = enum.EnumType.__prepare__("E", (base,))
    for k, v in vals.items():
      ns[k] = v
    ns["__hash__"] = reh.jitable_enum_hash
    cls = enum.EnumType("E", (base,), ns)
  for m in cls:
    mon.note(enum=cls, member=m)
    h = hash(m)
    mon.eq(h, hash(m.value), "hash is not that of the value")
    for c in compiled_hash(cls, m):
      mon.eq(c, h, "compiled hash differs")
    mon.check(m == cls(m.value) and hash(cls(m.value)) == h, "lookup by value")
    mon.event("hash")
    mon.key(str(cls), m.name)
  table = {m: m.name for m in cls}
  mon.eq([table[m] for m in cls], [m.name for m in cls], "members as keys")
  pair = {(m, 1): m.name for m in cls}
  mon.eq([pair[cls(m.value), 1] for m in cls], [m.name for m in cls],
         "members inside keys")
  mon.event("keys")


class Custom(Exception):
  pass


def raising(rng, mon):
  cls = rng.choice([ValueError, KeyError, RuntimeError, TypeError, Custom,
                    NotImplementedError])
  parts = tuple(value(rng) for _ in range(rng.randint(0, 5)))
  mon.note(exception=cls, parts=parts)
  try:
    numba_raise.safe_raise(cls, parts)
  except Exception as e:  # pylint: disable=broad-except
    mon.check(type(e) is cls, "other exception raised", got=repr(e))
    mon.eq(e.args, (" ".join(str(p) for p in parts),), "message")
  else:
    mon.check(False, "nothing raised")
  mon.event("raised")
  mon.key("raise", cls.__name__, repr(parts))
  # As compiled: literal parts are known, the others are printed.
  kinds = tuple(
      numba.types.Literal("literal", literal_value=p) if rng.random() < 0.6
      else numba.types.Type("value") for p in parts)
  for impl in overloads.impls(numba_raise.safe_raise, cls, kinds):
    buf = io.StringIO()
    try:
      with contextlib.redirect_stdout(buf):
        impl(cls, parts)
    except RuntimeError as e:
      text = " ".join(str(a) for a in e.args)
      mon.check(str(cls) in text, "class not named", got=text)
      at = 0
      for k, p in zip(kinds, parts):
        if isinstance(k, numba.types.Literal):
          at2 = text.find(str(p), at)
          mon.check(at2 >= 0, "literal part missing", got=text, part=p)
          at = at2 + len(str(p))
        mon.check(repr(p) in buf.getvalue(), "part not printed", part=p,
                  printed=buf.getvalue())
    else:
      mon.check(False, "compiled version does not raise")
    mon.event("compiled_raise")


def casting(rng, mon):
  v = value(rng)
  t = rng.choice([numba.int64, numba.optional(numba.int64), None, numba.float64])
  mon.check(ntu.as_numba_type(v, t) is v, "cast changed the value", value=v)
  inner = numba.types.Type("t" + str(rng.randrange(3)))
  ref = rng.choice([numba.types.TypeRef, numba.types.NumberClass])(
      "ref", instance_type=inner)
  for impl in overloads.impls(ntu.as_numba_type, numba.types.Type("v"), ref):
    if impl is not None:
      mon.check(impl(v, inner) is v, "compiled cast changed the value", value=v)
  mon.event("casts")
  mon.key("cast", repr(v), repr(t))


def declared(rng, mon):
  t = numba.types.Type("t" + str(rng.randrange(100)))
  mon.check(numba.typeof(ntu.PretendType(t)) is t, "declared type", type=t)
  got = numba.typeof(ntu.PretendOptional(ntu.PretendType(t)))
  mon.check(isinstance(got, numba.types.Optional) and got.inner is t,
            "declared optional type", got=got)
  v = value(rng)
  got = numba.typeof(ntu.PretendOptional(v))
  mon.check(isinstance(got, numba.types.Optional)
            and got.inner.example is type(v), "type of an optional", got=got)
  mon.event("types")


def run_case(rng, mon, idx):
  (hashes, raising, casting, declared)[idx % 4](rng, mon)
