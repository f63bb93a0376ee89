"""P22: selected parts get credit exactly when they appear, in order."""
import functools
import math

from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from rv import editgen
from rv.props import p21_edit_script as p21

ID = "P22"
RULE = (
    "random prototypes with region markers, targets and token utilities; cost of"
    " each random selection compared with an independent in-order placement of"
    " the selected parts in the target; random and cheapest paths replayed;"
    " match groups recomputed; nontrivial: distinct (prototype, target,"
    " selection) with a selected token"
)
QUICK = dict(cases=40000, budget=75)
THOROUGH = dict(cases=700000, budget=780)
MIN_EVENTS = {"priced": 5000, "matched_parts": 1000, "unmatched_parts": 1000,
              "two_parts": 500, "paths": 5000, "groups": 10000,
              "free_optimum": 1000, "SELECT_MATCHED": 1000,
              "SELECT_UNMATCHED": 1000, "SKIP_IN_TARGET": 1000}
CAT = psd.DagStateCategory
T, F, NA = editgen.T, editgen.F, editgen.NA


def in_order(t):
  """[(kind, preorder index, node)] without decorations."""
  out = []

  def rec(nodes):
    for i, x, kids in nodes:
      if x[0] == "grp":
        out.append(("before", i, x))
        rec(kids)
        out.append(("after", i, x))
      elif x[0] != "dec":
        out.append((x[0], i, x))
  rec(editgen.numbered(t)[0])
  return out


def same(a, b):
  if a[0] != b[0]:
    return False
  return a[2] == b[2] if a[0] == "tok" else a[2][1] == b[2][1]


def parts_of(p, a):
  parts = []
  cur = None
  for item in in_order(p):
    kind, i, x = item
    if kind == "RS":
      if a[editgen.key_of(i, x)] == T:
        cur = []
    elif kind == "RE":
      if a[editgen.key_of(i, x)] == T:
        parts.append(cur)
        cur = None
    elif cur is not None:
      cur.append(item)
  assert cur is None
  return parts


def best_cost(parts, target, util):
  """Cheapest placement; also returns whether some part is matched there."""
  @functools.lru_cache(maxsize=None)
  def f(k, pos):
    if k == len(parts):
      return 0.0
    part = parts[k]
    best = sum(util(x)[1] for kind, _, x in part if kind == "tok") + f(k + 1, pos)
    gain = sum(util(x)[0] for kind, _, x in part if kind == "tok")
    for s in range(pos, len(target) - len(part) + 1):
      if all(same(a, b) for a, b in zip(part, target[s : s + len(part)])):
        best = min(best, -gain + f(k + 1, s + len(part)))
    return best
  return f(0, 0)


def make_util(rng, names):
  m = {c: (rng.choice([0.0, 0.5, 1.0, 2.0]), rng.choice([0.0, 0.25, 1.0, 1.5]))
       for c in names}
  per_char = rng.random() < 0.5

  def util(x):
    a, b = m[x[2]]
    n = len(x[1]) if per_char else 1
    return a * n, b * n
  return util


def judge_path(mon, path, p, t, util):
  pin = in_order(p)
  tin = in_order(t)
  nodes = p21.table(p)
  tnodes = p21.table(t)
  decided = {}
  state = "out"  # out / matched / unmatched / skipping
  order_p, order_t = [], []
  for a, b in zip(path, path[1:]):
    mon.check(a.dest == b.source, "path is not connected")
  for e in path:
    r = e.required_assignment
    if r is not None:
      mon.check(r.key not in decided, "decided twice")
      decided[r.key] = r.value
    i = e.info
    want = 0.0
    if i is not None:
      mon.event(i.category.name)
      if i.prototype_node_preorder_index != -1:
        order_p.append(i.prototype_node_preorder_index)
        x = nodes[i.prototype_node_preorder_index][0]
        if x[0] == "tok" and i.category == CAT.SELECT_UNMATCHED:
          want = util(x)[1]
        if i.category == CAT.SELECT_MATCHED and x[0] in ("tok", "grp"):
          y = tnodes[i.target_node_preorder_index][0]
          mon.check(x[0] == y[0] and (x == y if x[0] == "tok" else x[1] == y[1]),
                    "matched nodes differ", pair=(x, y))
          if x[0] == "tok":
            want = -util(x)[0]
        if x[0] in ("tok", "grp") and r is not None:
          mon.eq(r.value, T if i.category in (
              CAT.SELECT_MATCHED, CAT.SELECT_UNMATCHED) else F,
              "status of a node")
      if i.target_node_preorder_index != -1:
        order_t.append(i.target_node_preorder_index)
    mon.close(e.cost, want, "cost of a step", tol=1e-9, step=e)
  keys = editgen.all_keys(p)
  mon.eq(set(decided), set(keys), "not exactly the decisions of the prototype")
  tok_p = [k for k in order_p if nodes[k][0][0] == "tok"]
  mon.eq(tok_p, [k for kind, k, _ in pin if kind == "tok"],
         "prototype tokens are not visited once, in order")
  tok_t = [k for k in order_t if tnodes[k][0][0] == "tok"]
  all_t = [k for kind, k, _ in tin if kind == "tok"]
  mon.eq(tok_t, all_t[: len(tok_t)], "target tokens out of order")
  return decided


def judge_groups(mon, path, p, t, sp, st):
  nodes, tnodes = p21.table(p), p21.table(t)
  want = []
  run = object()
  for e in path:
    cat = e.info.category if e.info else None
    if cat != run:
      want.append([cat, [], 0.0])
      run = cat
    want[-1][2] += e.cost
    if cat is None:
      continue
    k = (e.info.target_node_preorder_index if cat == CAT.SKIP_IN_TARGET
         else e.info.prototype_node_preorder_index)
    x = (tnodes if cat == CAT.SKIP_IN_TARGET else nodes)[k][0] if k != -1 else ("",)
    if x[0] == "tok":
      want[-1][1].append(x[1])
  want = [w for w in want if w[1] or w[2]]
  got = list(psd.extract_match_groups(path, sp, st))
  mon.eq([(g.category, list(g.content_tokens)) for g in got],
         [(w[0], w[1]) for w in want], "match groups")
  for g, w in zip(got, want):
    mon.close(g.cost, w[2], "cost of a match group")
  mon.event("groups", len(got))


def run_case(rng, mon, idx):
  if idx % 100 == 1:
    p = editgen.big_prototype(rng, exits=False, size=rng.choice(
        [50, 90] if idx % 400 == 1 else [16, 30]))
    mon.event("big")
    mon.event("huge", int(idx % 400 == 1))
  else:
    p = editgen.prototype(rng, max_nodes=rng.choice([2, 4, 7, 10]), exits=False)
  if rng.random() < 0.5:  # many small selectable parts
    p = tuple(y for x in editgen.strip(p)
              for y in ((("RS",), x, ("RE",)) if rng.random() < 0.7 else (x,)))
  base = editgen.strip(p)
  t = editgen.mutate(rng, base, rng.choice([0.0, 0.2, 0.5, 0.8]))
  if rng.random() < 0.3:
    t = t + editgen.mutate(rng, base, 0.3)
  elif rng.random() < 0.1:
    # A long way to the matching part.
    far = rng.choice([60, 90, 140]) if idx % 20 == 1 else 20
    while len(in_order(t)) < far:
      t = editgen.strip(editgen.prototype(rng, max_nodes=10)) + t
    mon.event("far")
  names = rng.choice(editgen.TYPE_NAMES)
  p, t = editgen.retype(names, p), editgen.retype(names, t)
  util = make_util(rng, names)
  mon.note(prototype=p, target=t)
  fl = rng.random() < 0.5
  builder = psd.make_selection_dag_builder(
      psd.PartSelectionUtilityParameters(
          token_node_utility_fn=lambda n: psd.UtilitiesAndCostsForNode(
              *util(("tok", n.text_contents, n.match_type)))),
      with_numba=fl)
  sp, st = editgen.pack(p), editgen.pack(t)
  dag = builder(sp, st)
  pruned = gsd.prune_to_reachable(dag)
  if fl:
    packer, conv_fn = psd.make_specialized_dag_packer()
    packed, conv = packer(conv_fn(pruned))
  else:
    packed, conv = psd.pack_dag(pruned)
  known = conv.variable_key_index_from_key
  target = in_order(t)
  paths = [p21.random_walk(rng, pruned) for _ in range(2)]
  for _ in range(3):
    r = editgen.random_decisions(rng, p)
    if r is None:
      continue
    a, _ = r
    mon.note(selection=a)
    parts = parts_of(p, a)
    for k, v in a.items():
      mon.check(k in known or v == NA, "decision not available", key=k)
    path, _ = pd.constrained_best_path(
        packed, conv, {k: v for k, v in a.items() if k in known})
    want = best_cost(parts, target, util)
    mon.close(math.fsum(e.cost for e in path), want, "cost of the selection",
              tol=1e-9)
    mon.event("priced")
    mon.event("two_parts", int(len(parts) > 1))
    lost = sum(util(x)[1] for q in parts for kind, _, x in q if kind == "tok")
    if parts:
      mon.event("matched_parts" if want < lost - 1e-9 else "unmatched_parts")
      mon.key(p, t, sorted(a.items()))
    paths.append(path)
  if idx % 3 == 0 and known:
    free = float(pd.compute_minimal_cost(pd.empty_unpenalized_table(packed)))
    anns = editgen.annotations(p, limit=40)
    if anns:
      best = min(best_cost(parts_of(p, a), target, util) for a in anns)
      mon.check(free <= best + 1e-9, "a selection beats the DAG")
      mon.event("free_optimum")
  for path in paths:
    path = list(path)
    decided = judge_path(mon, path, p, t, util)
    cost = math.fsum(e.cost for e in path)
    want = best_cost(parts_of(p, decided), target, util)
    mon.check(cost >= want - 1e-9, "path cheaper than any placement", cost=cost,
              want=want)
    mon.event("paths")
    judge_groups(mon, path, p, t, sp, st)
    # The report of any list of steps adds up, whatever their order and costs.
    steps = [e._replace(cost=rng.choice([0.0, 0.0, 1.5, -1.5, 4.0]))
             for e in rng.sample(path, rng.randint(0, len(path)))]
    judge_groups(mon, steps, p, t, sp, st)
