"""Contexts, suggestions and settings for the task wrappers, with an oracle."""
import math

from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from rv import codegen
from rv import editgen
from rv import treegen
from rv.props import p08_transforms as p08
from rv.props import p09_context_removal as p09

TYPES = ("CONTENT_LEAF", "CONTENT_LEAF", "MATCH", "MATCH_INNER", "ROOT")
WORDS = ["a", "bb", "x", "(", ")", "foo", "\u00e9", "<b>", "==", "\n", "&", "",
         "'s'", '"', "\\", " ", "A", "a\tb", "\U0001f600", "&amp;", "%s{}"]
JIT = {}


def setup():
  """The wrappers with compiled helpers are expensive: one of each."""
  if not JIT:
    JIT["regions"] = urw.UncertaintyRegionsWrapper(use_numba=True)
    JIT["prefix"] = ptw.PrefixByEditDistanceWrapper(use_numba=True)


def prices(precision, start, sens):
  """The documented derivation of prices."""
  low_delete = 1 - 2 * precision * (1 - sens)
  return edit_dags.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=1.0,
      high_confidence_delete_cost_per_char=1.0,
      low_confidence_match_utility_per_char=2 * sens - low_delete,
      low_confidence_delete_cost_per_char=low_delete,
      insert_cost_per_char=0.0,
      low_confidence_region_cost=(1 - precision) * (1 - sens) * start,
      high_confidence_start_editing_cost=start,
      low_confidence_start_editing_cost=sens * start)


class Setting:
  """A wrapper and what is expected of it."""

  def __init__(self, rng, kind=None, **baselines):
    self.kind = kind or rng.choice(["regions", "regions", "prefix", "both"])
    prec = rng.choice([0.7, 0.5, 0.9, 0.25])
    start = float(rng.choice([5, 0, 1, 2.5]))
    sens = rng.choice([0.5, 0.0, 0.9, 0.25])
    self.regions = self.kind != "prefix"
    self.exits = self.kind != "regions"
    if rng.random() < 0.15 and self.kind in JIT and not baselines:
      self.wrapper = JIT[self.kind]
      self.jit = True
      prec, sens = 0.7, 0.5
      start = 5.0 if self.kind == "regions" else 0.0
    elif self.kind == "regions":
      self.jit = False
      self.wrapper = urw.UncertaintyRegionsWrapper(
          effective_precision=prec, high_confidence_start_inserting_cost=start,
          low_confidence_edit_sensitivity=sens, use_numba=False, **baselines)
    else:
      self.jit = False
      self.wrapper = ptw.PrefixByEditDistanceWrapper(
          start_editing_cost=start,
          also_insert_uncertainty_regions=self.kind == "both",
          uncertainty_region_effective_precision=prec,
          low_confidence_edit_sensitivity=sens, use_numba=False, **baselines)
    self.prices = prices(prec, start, sens)
    self.desc = (self.kind, self.jit, prec, start, sens)

  def prototype(self, tree, loc, mon):
    out = tree
    if self.regions:
      out = p08.regions(out, True, p08.allowed)
    if self.exits:
      out = p08.exits(out, True, True)
    return p09.expected(out, loc, mon)

  def cost(self, proto, target, a):
    return editgen.edit_cost(proto, target, a, editgen.exit_of(a), self.prices)


CTX_BIG = ["def f(x):\n  ", "x = foo(", "import os\nclass A:\n  def g(self):\n",
           "", "for (;;) {\n  a;"]


def big_trees(rng, n_targets):
  """The same with long suggestions."""
  if rng.random() < 0.6:
    lang = rng.choice(["python", "python", "javascript", "cpp"])
    h = parser_tools.ParserHelper(lang, flatten=rng.random() < 0.3)
    context = rng.choice(CTX_BIG)
    make = (lambda: codegen.py_program(rng, max_stmts=2) if lang == "python"
            else codegen.c_program(rng, lang, max_stmts=2))
    base = make()
    sugg = [base] + [rng.choice([base, make(), codegen.mutate(rng, base),
                                 base[:len(base) // 2] + make()])
                     for _ in range(n_targets)]
    trees = [treegen.tup(h.parse_to_nodes(context + s)) for s in sugg]
    return trees[0], trees[1:], len(context), context
  words = editgen.vocabulary(rng, WORDS, 6, 6)
  ctx = editgen.prototype(rng, max_nodes=3, regions=False, exits=False,
                          types=TYPES, words=words)
  base = editgen.big_prototype(rng, size=14, regions=False, exits=False,
                               types=TYPES, words=words)
  targets = [ctx + editgen.mutate(rng, base, rng.choice([0.0, 0.1, 0.3]),
                                  types=TYPES, words=words)
             for _ in range(n_targets)]
  context = treegen.text(ctx)
  return ctx + base, targets, len(context), context


def random_trees(rng, n_targets, size=6):
  """(tree of context + suggestion, trees of context + target, location)."""
  if size == "big":
    return big_trees(rng, n_targets)
  if rng.random() < 0.25:
    lang = rng.choice(["python", "python", "javascript", "cpp"])
    h = parser_tools.ParserHelper(lang, flatten=rng.random() < 0.3)
    context = rng.choice(["", "x = ", "f(", "if x:\n  ", "{a;", "\n", "def f"])
    sugg = [rng.choice(["1", "f(y)", "y\n", "a + b\n", "x)", "[a]", "", "}",
                        "y;z", "\n\n", "a\n  b", "aB"]) for _ in range(n_targets + 1)]
    trees = [treegen.tup(h.parse_to_nodes(context + s)) for s in sugg]
    return trees[0], trees[1:], len(context), context
  words = editgen.vocabulary(rng, WORDS, 4, 4)
  kw = dict(regions=False, exits=False, types=TYPES, words=words)
  ctx = editgen.prototype(rng, max_nodes=rng.choice([1, 2, 3]), **kw)
  if rng.random() < 0.3:
    ctx = ()
  sugg = editgen.prototype(rng, max_nodes=size, **kw)
  # The cut may fall inside a group: nest the suggestion in the context.
  nest = rng.random() < 0.3 and ctx

  def join(s):
    if nest:
      return ctx[:-1] + (("grp", TYPES[0], ctx[-1:] + s[:2]),) + s[2:]
    return ctx + s
  tree = join(sugg)
  targets = []
  for _ in range(n_targets):
    s = editgen.mutate(rng, sugg, rng.choice([0.0, 0.3, 0.6]), types=TYPES,
                       words=words)
    targets.append(join(s))
  context = treegen.text(ctx)
  return tree, targets, len(context), context


def long_context(rng, tree, targets, loc, context):
  """The same task at the end of a long file."""
  pad = tuple(
      ("tok", rng.choice(["line", "x", "=", "\u4e2d", "<&>"]), TYPES[0])
      if i % 3 else ("dec", rng.choice(["\n", " ", "\n  ", ""]))
      for i in range(rng.choice([66, 140, 300])))
  if rng.random() < 0.3:
    pad += (("tok", "c" * rng.choice([2500, 9000]), TYPES[0]),)
  text = treegen.text(pad)
  return (pad + tree, [pad + t for t in targets], loc + len(text),
          text + context)


def long_line(rng, n):
  """A suggestion of very many words in a row."""
  return tuple(("tok", rng.choice(["a", "bb", "x"]), TYPES[0]) if i % 4
               else ("dec", " ") for i in range(n))


def unpack(packed):
  return treegen.tup(psn.unpack(packed))


def weighted(setting, proto, targets, weights, a):
  return math.fsum(w * setting.cost(proto, t, a)
                   for w, t in zip(weights, targets))
