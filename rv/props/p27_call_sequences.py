"""P27: API call sequences are extracted, priced and reported as documented."""
import builtins
import html
import keyword
import math

from r_u_sure.decision_diagrams import consistent_path_dual_solver as cs
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import parser_tools
from rv import codegen
from rv import e2e
from rv import editgen
from rv import treegen
from rv.props import p22_part_selection as p22
from rv.props import p23_regions as p23
from rv.props import p25_solution_reports as p25

ID = "P27"
RULE = (
    "programs made of call-like statements (and random trees), cut at random"
    " cursors; extracted calls compared with a reference reading of the rules,"
    " prices of random selections with an independent placement, solutions,"
    " baselines, reports and HTML recomputed; nontrivial: distinct (program,"
    " cursor) with at least one call"
)
QUICK = dict(cases=7000, budget=110)
THOROUGH = dict(cases=150000, budget=800)
MIN_EVENTS = {"programs": 3000, "calls": 3000, "novel": 2000, "expected": 1000,
              "priced": 1500, "solved": 1000, "baselines": 3000,
              "selected_by_solver": 300, "matched_lines": 300,
              "wrong_lines": 300, "partial_reports": 100, "empty_context": 300, "mid_line": 300,
              "long_contexts": 60, "many_calls": 40, "many_targets": 10}
PUNCT = set("( ) [ ] : , ; + - * / | & < > = . % { } == != <= >= ~ ^ << >> ** +="
            " -= *= /= %= &= |= ^= <<= >>= **= // //= @ @= -> ... :=".split())
# Names whose status the documentation leaves open are not used in programs.
OPEN = {"BaseExceptionGroup", "EncodingWarning", "ExceptionGroup", "aiter",
        "anext", "copyright", "credits", "exit", "help", "license", "open",
        "quit", "_"}
BUILTIN = PUNCT | set(keyword.kwlist) | (set(dir(builtins)) - OPEN)
NAMES = ["f", "g", "hh", "np", "x", "y", "self", "print", "len", "foo_bar", "_k",
         "\u00e9", "super"]
CAT = psd.DagStateCategory
JIT = {}


def setup():
  JIT["w"] = csw.ApiCallSequenceWrapper(use_numba=True)


def call(rng, depth=0):
  name = ".".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3])))
  arg = rng.choice(["", "x", "x, 1", "y=2", "a < b", "'s'"])
  if depth < 2 and rng.random() < 0.2:
    arg = call(rng, depth + 1)
  if rng.random() < 0.01:
    arg = ", ".join(rng.choice(NAMES) for _ in range(rng.choice([30, 120])))
  if rng.random() < 0.01:
    name = ".".join(rng.choice(NAMES) + str(q) for q in range(12))
  return f"{name}({arg})"


def statement(rng, ind=""):
  r = rng.randrange(12)
  c = call(rng)
  return ind + [
      c, "x = " + c, "return " + c, f"if {c}:\n{ind}  {call(rng)}",
      f"[{c}, {call(rng)}]", f"def {c}:\n{ind}  pass", f"class {c}:\n{ind}  pass",
      f"{c}.{call(rng)}", f"x  =\t{c}", f"'a b'.{c}", "x = 1", f"({c})"][r]


def program(rng):
  n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 8
  return "\n".join(statement(rng) for _ in range(n)) + rng.choice(["", "\n"])


def long_text(rng):
  """Many statements, each with a name of its own."""
  n = rng.choice([30, 60, 150, 400])
  return "\n".join(f"w{q} = {call(rng)}" if rng.random() < 0.5 else statement(rng)
                   for q in range(n)) + "\n"


def nested(rng):
  n = rng.choice([4, 9, 20])
  return "[" * n + call(rng) + "]" * n + "\n"


def is_paren(x):
  return (x[0] == "grp" and x[1] == "MATCH" and len(x[2]) == 3
          and x[2][0] == ("tok", "(", "MATCH_LEFT"))


def calls(seq, seen):
  """Reference extraction: [children of a call]."""
  g = next((q for q, x in enumerate(seq) if x[0] == "grp"), len(seq) - 1)
  s = next((q for q, x in enumerate(seq) if x[0] != "dec"), len(seq))
  cand = seq[s : g + 1]
  out = []
  if (len(cand) > 1 and is_paren(cand[-1]) and cand[-2][0] == "tok"
      and cand[0] not in (("tok", "def", "CONTENT_LEAF"),
                          ("tok", "class", "CONTENT_LEAF"))):
    c = [("RS",)]
    for x in cand[:-1]:
      if x[0] == "dec":
        c.append(x)
        if x[1].isspace():
          c.append(("RS",))
      elif x == ("tok", ".", "CONTENT_LEAF"):
        c += [("RS",), ("tok", ".", "ATTRIBUTE_DOT")]
      else:
        c.append(("tok", x[1], "EXPECTED" if x[1] in seen else "NOVEL"))
    args = treegen.text((cand[-1][2][1],))
    c += [("tok", "(", "START_CALL"), ("RE",),
          ("tok", args, "ARGS" if args else "EMPTY_ARGS"),
          ("tok", ")", "END_CALL"), ("RE",)]
    out.append(tuple(c))
    rest = seq[g + 1 :]
  else:
    rest = seq
  for x in rest:
    if x[0] == "grp":
      out += calls(x[2], seen)
  return out


def seen_in_context(tree, loc):
  """Tokens of the context; and the token cut by the cursor, if any."""
  pos = 0
  out, partial = set(), set()
  for _, x in treegen.walk(tree):
    if x[0] in ("tok", "dec"):
      if pos >= loc:
        break
      if x[0] == "tok":
        (out if pos + len(x[1]) <= loc else partial).add(x[1])
      pos += len(x[1])
  return out, partial


def call_tree(tree, loc, mon, with_partial):
  text = treegen.text(tree)
  cut = max(0, text[:loc].rfind("\n"))
  seen, partial = seen_in_context(tree, loc)
  if with_partial:
    seen = seen | partial
  body = e2e.p09.expected(tree, cut, mon)
  out = []
  for c in calls(body, seen | BUILTIN):
    out += [("grp", "API_CALL", c), ("dec", "\n")]
  return tuple(out)


def make_util(prec):
  unit = {"ARGS": 1.0, "EMPTY_ARGS": 1.0, "EXPECTED": 1.0, "NOVEL": 10.0}

  def util(x):
    u = unit.get(x[2], 0.0)
    return u * (1 - prec), u * prec
  return util


def trees(rng):
  if rng.random() < 0.2:
    tree, ttrees, loc, _ = e2e.random_trees(rng, 2, 5)
    def paren(t):
      return tuple(("grp", "MATCH", (("tok", "(", "MATCH_LEFT"),
                                     ("grp", "MATCH_INNER", x[2][:1]),
                                     ("tok", ")", "MATCH_RIGHT")))
                   if x[0] == "grp" and x[2] and rng.random() < 0.6
                   else (("grp", x[1], paren(x[2])) if x[0] == "grp" else x)
                   for x in t)
    return tree, [paren(t) for t in ttrees], loc
  lang = rng.choice(["python"] * 5 + ["javascript", "java"])
  h = parser_tools.ParserHelper(lang, flatten=rng.random() < 0.05)
  context = rng.choice(["", "", program(rng), program(rng) + "\n", "x = ",
                        "def f(self):\n  ", "np."])
  base = program(rng)
  r = rng.random()
  if r < 0.03:
    context = long_text(rng)
    at = rng.randrange(1 + context.count("\n"))
    base = rng.choice(["w0.w1(w2)\n", f"x = w{at}.zz(w4)\n",
                       f"w{at}.w{at + 1}()\n"]) + base
  elif r < 0.05:
    base = long_text(rng)
  elif r < 0.07:
    base += "\n" + nested(rng)
  out = []
  for k in range(rng.choice([2, 3]) if rng.random() < 0.99 else 60):
    s = base
    if k and rng.random() < 0.6:
      s = rng.choice([program(rng), base.replace("f", "g"),
                      base + "\n" + statement(rng),
                      codegen.mutate(rng, base)])
    out.append(treegen.tup(h.parse_to_nodes(context + s)))
  return out[0], out[1:], len(context)


def shorter(c):
  """Index (in the call's children) of the start of the short form."""
  last = max((q for q, x in enumerate(c) if x[0] == "dec"), default=-1)
  return next(q for q, x in enumerate(c) if q > last and x[0] == "RS")


def run_case(rng, mon, idx):
  tree, ttrees, loc = trees(rng)
  mon.note(tree=tree, targets=ttrees, location=loc)
  use_jit = rng.random() < 0.1
  prec = 0.3 if use_jit else rng.choice([0.3, 0.5, 0.9, 0.1])
  w = JIT["w"] if use_jit else csw.ApiCallSequenceWrapper(
      effective_precision=prec, use_numba=False)
  util = make_util(prec)
  nodes = treegen.untup(tree)
  packed, info = w.process_prototype_and_context(nodes, loc)
  mon.eq(treegen.tup(nodes), tree, "the parsed code was modified")
  got = e2e.unpack(packed)
  options = [call_tree(tree, loc, mon, b) for b in (True, False)]
  mon.check(got in options, "extracted calls", got=got, want=options[0])
  proto = got
  mon.event("programs")
  mon.event("empty_context", int(loc == 0))
  mon.event("mid_line", int(loc > 0 and treegen.text(tree)[loc - 1] != "\n"))
  targets, ptargets = [], []
  for t in ttrees:
    if t == tree or loc <= len(treegen.text(t)):
      pt = w.process_target(treegen.untup(t), loc)
      gt = e2e.unpack(pt)
      mon.check(gt in [editgen.strip(call_tree(t, loc, mon, b))
                       for b in (True, False)], "extracted calls of a target",
                got=gt)
      targets.append(gt)
      ptargets.append(pt)
  cs_ = [x[2] for x in proto if x[0] == "grp"]
  mon.event("calls", len(cs_))
  mon.event("long_contexts", int(loc > 400))
  mon.event("many_calls", int(len(cs_) > 20))
  mon.event("many_targets", int(len(targets) > 50))
  for c in cs_:
    mon.event("novel", sum(x[0] == "tok" and x[2] == "NOVEL" for x in c))
    mon.event("expected", sum(x[0] == "tok" and x[2] == "EXPECTED" for x in c))
  if cs_:
    mon.key(tree, loc)

  # Baselines.
  res = w.build_baseline_assignments(packed, packed, info, [])
  mon.eq(set(res), {"all_calls_full", "all_calls_shorter",
                    "novel_calls_shorter"}, "names of the baselines")
  if not any(x[0] == "dec" and not x[1].isspace() for c in cs_ for x in c):
    for name, a in res.items():
      want = {}
      for i, x, kids in editgen.numbered(proto)[0]:
        if x[0] != "grp":
          continue
        c = x[2]
        if name == "all_calls_full":
          span = (0, len(c) - 1)
        else:
          span = (shorter(c), len(c) - 4)
        if name == "novel_calls_shorter" and not any(
            y[0] == "tok" and y[2] == "NOVEL" for y in c[span[0] : span[1]]):
          span = (None, None)
        inside = False
        for q, (j, y, _) in enumerate(kids):
          if y[0] == "RS":
            v = editgen.NA if inside else (
                editgen.T if q == span[0] else editgen.F)
            inside = inside or v == editgen.T
          elif y[0] == "RE":
            v = editgen.NA if not inside else (
                editgen.T if q == span[1] else editgen.F)
            inside = inside and v != editgen.T
          else:
            continue
          want[editgen.key_of(j, y)] = v
      mon.eq({k: v for k, v in a.items()
              if k.category != editgen.C.NODE_IN_REGION}, want,
             "baseline " + name)
      mon.event("baselines")

  if not cs_ or not targets or treegen.count(proto) > 130:
    return
  n = len(targets)
  weights = rng.choice([None, [rng.choice([0.5, 1.0, 3.0]) for _ in targets]])
  ws = weights or [1 / n] * n
  mon.note(weights=weights, precision=prec)
  system = w.build_system(packed, info, ptargets,
                          target_utility_scale_factors=weights)
  mon.eq(len(system.data.dag_tables), n + 1, "subproblems")
  known = set(system.variable_keys)
  keys = editgen.all_keys(proto)
  tins = [p22.in_order(t) for t in targets]

  def costs(a):
    parts = p22.parts_of(proto, a)
    return [p22.best_cost(parts, t, util) for t in tins]

  def total(a):
    return math.fsum(x * y for x, y in zip(ws, costs(a)))

  seen = []
  for _ in range(2):
    a, _ = editgen.random_annotation(rng, proto, p_start=0.5)
    c = cs.clone_system(system)
    cs.constrain_system(c, {k: v for k, v in a.items() if k in known})
    _, cost = cs.greedy_extract(c.data, cs.SweepDirection.FORWARD)
    mon.note(selection=a)
    mon.close(cost, total(a), "price of a selection", tol=1e-7)
    seen.append(total(a))
    mon.event("priced")
  r = cs.solve_system_with_sweeps(system.data, soft_timeout=20.0)
  vec, cost = cs.greedy_extract(system.data, cs.SweepDirection.FORWARD)
  sol = cs.assignments_from_assignment_vector(system, vec)
  if math.isfinite(cost):
    full = {k: sol.get(k, editgen.NA) for k in keys}
    mon.note(solution=full)
    why = editgen.why_malformed(proto, full)
    mon.check(why is None, "the solution is not well formed", why=why)
    mon.close(cost, total(full), "reported cost of the solution", tol=1e-7)
    seen.append(total(full))
    mon.event("solved")
    mon.event("selected_by_solver", int(bool(p22.parts_of(proto, full))))
  # Selecting nothing costs nothing.
  mon.check(r.objective_at_step[-1] <= min(seen + [0.0]) + 1e-6,
            "the bound exceeds the cost of a selection",
            bound=r.objective_at_step[-1], cost=min(seen))

  # Reports.
  a = rng.choice([a, sol]) if math.isfinite(cost) else a
  a = {k: v for k, v in a.items() if k in known}
  full = {k: a.get(k, editgen.NA) for k in keys}
  mon.note(reported=full)
  j = rng.randrange(n)
  single = w.build_system(packed, info, [ptargets[j]])
  got = w.solution_info(packed, ptargets[j], info, single, a, system)
  parts, _ = p23.expected(proto, full, "")
  mon.eq([tuple(x) for x in got["extracted_parts"]], parts, "extracted parts")
  each = costs(full)
  mon.close(got["total_cost"], each[j], "total cost", tol=1e-7)
  for x, y in zip(got["sample_system_costs_unsorted"], each):
    mon.close(x, y, "cost for a sample", tol=1e-7)
  mon.eq(list(got["sample_system_costs"]),
         sorted(got["sample_system_costs_unsorted"]), "sorted costs")
  mon.close(got["sample_system_cost_average"], math.fsum(each) / n, "average",
            tol=1e-7)
  var = got["sample_system_cost_variance"]
  mean = math.fsum(each) / n
  if n == 1:
    mon.check(math.isnan(var), "variance of one sample", var=var)
  else:
    mon.close(var, math.fsum((c - mean) ** 2 for c in each) / (n - 1),
              "variance", tol=1e-6)
  mon.eq(got["true_cost_rank_in_sample_system"],
         sum(c < got["total_cost"] for c in got["sample_system_costs"]), "rank")
  if rng.random() < 0.2:
    # Without an evaluation target, or a system, or samples.
    some = rng.choice([(ptargets[j], None, system), (None, single, system),
                       (None, None, None), (ptargets[j], single, None)])
    other = w.solution_info(packed, some[0], info, some[1], a, some[2])
    want = {k for k in got if k == "extracted_parts"
            or k.startswith("sample_system") and some[2] is not None
            or not k.startswith(("sample_system", "true_cost"))
            and some[0] is not None and some[1] is not None}
    mon.eq(set(other), want, "names in a partial report")
    mon.check(all(repr(other[k]) == repr(got[k]) for k in want),
              "a partial report differs", got=other, want=got)
    mon.event("partial_reports")
  path, _ = pd.constrained_best_path(
      single.data.dag_tables[0].dag, single.conversion_data[0], a)
  p22.judge_path(mon, path, proto, targets[j], util)
  nodes_by = p22.p21.table(proto)
  count = {}
  for e in path:
    if e.info is None or e.info.prototype_node_preorder_index == -1:
      continue
    x = nodes_by[e.info.prototype_node_preorder_index][0]
    kind = {CAT.SELECT_MATCHED: "correct", CAT.SELECT_UNMATCHED: "deleted"}.get(
        e.info.category)
    what = {"NOVEL": "novel", "EXPECTED": "not_novel", "ARGS": "args"}.get(
        x[2]) if x[0] == "tok" else None
    if kind and what:
      count[f"{kind}_{what}"] = count.get(f"{kind}_{what}", 0) + 1
  for kind in ("correct", "deleted"):
    for what in ("novel", "not_novel", "args"):
      k = f"{kind}_{what}"
      mon.eq(got[k], count.get(k, 0), "count " + k)

  out, bad = p25.spans(w.render_solution_html(packed, info, a))
  mon.check(not bad, "malformed HTML")
  marked, _ = p23.expected(proto, full, "\ufe19")
  mon.eq("".join(d for c, d in out if c != "br"), "".join(x for x, _ in marked),
         "text shown")
  s = w.render_pairwise_matching_html(packed, ptargets, info, system, a)
  want = []
  for i in range(n):
    want.append(f"========== Target {i} ==========")
    path, _ = pd.constrained_best_path(
        system.data.dag_tables[i].dag, system.conversion_data[i], a)
    run = None
    for e in path:
      cat = e.info.category if e.info else None
      if cat != run:
        group = []
        if cat in (CAT.SELECT_MATCHED, CAT.SELECT_UNMATCHED):
          want.append((cat, group))
        run = cat
      if cat in (CAT.SELECT_MATCHED, CAT.SELECT_UNMATCHED):
        x = nodes_by[e.info.prototype_node_preorder_index][0]
        if x[0] == "tok":
          group.append(x[1])
  lines = []
  for x in want:
    if isinstance(x, str):
      lines.append(x)
    elif x[1]:
      good = x[0] == CAT.SELECT_MATCHED
      lines.append(("MATCHED: " if good else "WRONG: ") + " ".join(x[1]))
      mon.event("matched_lines" if good else "wrong_lines")
  out, bad = p25.spans(s)
  mon.check(not bad, "malformed HTML", html=s)
  shown, cur = [], ""
  for c, d in out + [("br", "")]:
    if c == "br":
      if cur:
        shown.append(cur)
      cur = ""
    else:
      cur += d
  mon.eq(shown, lines, "matches shown", html=s)
