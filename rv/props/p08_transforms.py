"""P08: tree transforms add or remove exactly what they say, purely."""
import copy

from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import parser_tools
from rv import codegen
from rv import treegen

ID = "P08"
RULE = (
    "random node trees (tokens, decorations, groups, existing markers) and"
    " parsed code through every transform and option; nontrivial: distinct"
    " input trees with 3+ nodes"
)
QUICK = dict(cases=40000, budget=70)
THOROUGH = dict(cases=1200000, budget=780)
MIN_EVENTS = {k: 1000 for k in (
    "flatten", "singleton", "exit", "regions", "single_regions", "strip")}
MIN_EVENTS.update({"big": 100, "filtered_nodes": 500, "collapsed_groups": 300,
                   "pipelines": 500})

RS, RE, EX = ("RS",), ("RE",), ("EX",)


def flatten(t):
  out = []
  for x in t:
    out.extend(flatten(x[2]) if x[0] == "grp" else [x])
  return tuple(out)


def singleton(t):
  out = []
  for x in t:
    if x[0] in ("tok", "grp"):
      chain = []
      while x[0] == "grp" and len(x[2]) == 1 and x[2][0][0] in ("tok", "grp"):
        chain.append(x[1])
        x = x[2][0]
      chain.append(x[1] if x[0] == "grp" else x[2])
      if x[0] == "grp":
        out.append(("grp", tuple(chain), singleton(x[2])))
      else:
        out.append(("tok", x[1], tuple(chain)))
    else:
      out.append(x)
  return tuple(out)


def exits(t, inside, start):
  out = [EX] if start else []
  for x in t:
    if x[0] == "grp":
      kids = exits(x[2], True, False) if inside else x[2]
      out += [("grp", x[1], kids), EX]
    elif x[0] == "tok":
      out += [x, EX]
    else:
      out.append(x)
  return tuple(out)


def regions(t, empty, keep):
  out = []
  for x in t:
    if x[0] == "grp":
      y = ("grp", x[1], regions(x[2], empty, keep))
    else:
      y = x
    if x[0] in ("grp", "tok") and keep(x):
      out += [RS] + ([RE] if empty else []) + [y, RE]
    else:
      out.append(y)
  if empty:
    out += [RS, RE]
  return tuple(out)


def single(t):
  out = []
  for x in t:
    if x[0] == "grp":
      y = ("grp", x[1], single(x[2]))
    else:
      y = x
    if x[0] in ("grp", "tok"):
      out.append(("grp", "region_scope", (RS, y, RE)))
    else:
      out.append(y)
  return tuple(out)


def strip(t):
  out = []
  for x in t:
    if x[0] == "grp":
      out.append(("grp", x[1], strip(x[2])))
    elif x[0] in ("tok", "dec"):
      out.append(x)
  return tuple(out)


def allowed(x):
  """Regions are not put around bracket parts or lone newlines."""
  if x[0] == "grp":
    return x[1] not in ("MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT")
  return x[2] not in ("MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT") and x[1] != "\n"


def run_case(rng, mon, idx):
  if idx % 5 == 4:
    lang = rng.choice(["python", "cpp", "java", "javascript"])
    seq = parser_tools.ParserHelper(lang).parse_to_nodes(
        codegen.any_code(rng, lang, max_stmts=4))
  elif idx % 50 == 7:
    seq = treegen.big(rng, types=("T", None, "MATCH_INNER", "ROOT"))
    mon.event("big")
  else:
    seq = treegen.tree(
        rng, max_nodes=rng.choice([3, 8, 16]), markers=rng.random() < 0.5,
        types=("T", None, "MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT", "ROOT"))
  before = treegen.tup(seq)
  mon.note(tree=before)

  def judge(name, got, want):
    mon.event(name)
    mon.eq(treegen.tup(got), want, f"{name}: result differs")
    mon.check(isinstance(got, list), f"{name}: result is not a list")
    mon.eq(treegen.text(want), treegen.text(before), "oracle")
    mon.eq(treegen.tup(seq), before, f"{name}: input was modified")

  judge("flatten", transforms.flatten_groups(seq), flatten(before))
  want = singleton(before)
  judge("singleton", transforms.flatten_singleton_groups(seq), want)
  mon.event("collapsed_groups", treegen.count(before) - treegen.count(want))
  if seq:
    n = rng.choice(seq)
    mon.eq(
        treegen.tup([transforms.flatten_singleton_groups_for_node(n)]),
        singleton((treegen.tup(n),)), "singleton flattening of one node")

  inside, start = rng.random() < 0.5, rng.random() < 0.5
  mon.note(inside=inside, start=start)
  got = transforms.insert_early_exit(
      seq, allowed_within_group=inside, allowed_at_start=start)
  judge("exit", got, exits(before, inside, start))
  if rng.random() < 0.2:
    judge("exit", transforms.insert_early_exit(seq), exits(before, True, True))

  empty = rng.random() < 0.5
  which = rng.randrange(5)
  calls = []
  if which == 0:
    keep, real = (lambda x: True), None
  elif which == 1:
    keep = allowed
    real = parser_tools.allow_regions_around_pseudoparse_node
  elif which == 2:
    keep = lambda x: x[0] == "grp"
    real = lambda n: hasattr(n, "children")
  elif which == 3:
    # Groups are judged by their own children, not by what is inserted there.
    keep = lambda x: x[0] == "tok" or len(x[2]) % 3 != 1
    real = lambda n: not hasattr(n, "children") or len(n.children) % 3 != 1
  else:
    keep = lambda x: x[0] == "tok" and len(x[1]) > 1
    real = lambda n: not hasattr(n, "children") and len(n.text_contents) > 1
  mon.note(empty=empty, which=which)
  if real is None:
    got = transforms.insert_region_options_around_subsequences(
        seq, allow_empty_regions=empty)
  else:
    def filt(node):
      calls.append(node)
      return real(node)
    got = transforms.insert_region_options_around_subsequences(
        seq, allow_empty_regions=empty, node_filter=filt)
    mon.event("filtered_nodes", sum(1 for c in calls if not real(c)))
  judge("regions", got, regions(before, empty, keep))
  if rng.random() < 0.2:
    judge("regions", transforms.insert_region_options_around_subsequences(seq),
          regions(before, True, lambda x: True))

  judge("single_regions",
        transforms.insert_region_options_around_single_nodes(seq), single(before))
  stripped = strip(before)
  judge("strip", transforms.strip_decision_nodes(seq), stripped)

  # Stripping undoes any combination of insertions.
  x = list(transforms.strip_decision_nodes(seq))
  order = rng.randrange(3)
  if order != 1:
    x = transforms.insert_early_exit(x, rng.random() < 0.5, rng.random() < 0.5)
  if order != 0:
    x = transforms.insert_region_options_around_subsequences(
        x, allow_empty_regions=rng.random() < 0.5)
  mon.eq(treegen.tup(transforms.strip_decision_nodes(x)), stripped,
         "stripping does not undo inserting decision points")
  mon.event("pipelines")

  # Results do not alias mutable state of the input groups in a harmful way:
  # editing the result's own lists leaves the input alone.
  res = transforms.insert_region_options_around_subsequences(seq)
  def scribble(ns):
    for n in ns:
      if hasattr(n, "children"):
        scribble(n.children)
        n.children.append(copy.copy(n))
    ns.append(None)
  scribble(res)
  mon.eq(treegen.tup(seq), before, "editing a result changed the input")

  if treegen.count(before) >= 3:
    mon.key(before)
  mon.sample(dict(tree=before))
