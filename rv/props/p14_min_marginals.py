"""P14: min-marginals and minimal costs are exact after any penalty history."""
import math

import numpy as np
from r_u_sure.decision_diagrams import packed_dags as pd
from rv import bigdag
from rv import daggen
from rv import sysgen

ID = "P14"
RULE = (
    "random DAGs; random interleavings of penalty updates (finite, negative,"
    " infinite), partial table updates, copies and queries; each answer compared"
    " with an enumeration of all penalized paths (large DAGs: with dynamic"
    " programming on the original edges); nontrivial: distinct"
    " (DAG, history) pairs with 2+ paths"
)
QUICK = dict(cases=60000, budget=75)
THOROUGH = dict(cases=400000, budget=780)
MIN_EVENTS = {"set_penalties": 10000, "marginals": 10000, "all_marginals": 2000,
              "minimal_cost": 5000, "copies": 1000, "masked_values": 10000,
              "extracted": 1000, "infinite_answers": 1000, "big": 100}
INF = math.inf
S = pd.MinimalCostComputationStrategy


def check_tagged(mon, d, path, assignment):
  """A tagged path runs through the packed form and decides every variable."""
  ends = (d.conv.tagged_states[0], d.conv.tagged_states[-1])
  if path:
    mon.eq((path[0].source, path[-1].dest), ends, "ends of the tagged path")
  for x, y in zip(path, path[1:]):
    mon.eq(x.dest, y.source, "tagged path is not connected")
  mon.eq([(e.required_assignment.key, e.required_assignment.value) for e in path
          if e.required_assignment is not None],
         [(k, assignment[k]) for k in d.keys], "decisions on the tagged path")


class Model:
  """Penalties held by the monitor, and enumeration-based answers."""

  def __init__(self, d, table):
    self.d = d
    self.pen = np.array(table)

  def copy(self):
    return Model(self.d, np.copy(self.pen))

  def penalized(self):
    vi = {v: i for i, v in enumerate(self.d.conv.variable_values)}
    out = []
    for c, a in self.d.paths:
      out.append((c + sum(float(self.pen[i, vi[a[k]]])
                          for i, k in enumerate(self.d.keys)), a))
    return out

  def has(self, assignment):
    """Whether some path makes exactly these choices."""
    return any(a == assignment for _, a in self.d.paths)

  def cost(self, assignment):
    return min(c for c, a in self.penalized() if a == assignment)

  def marginals(self):
    vals = list(self.d.conv.variable_values)
    t = np.full((len(self.d.keys), len(vals)), INF)
    for c, a in self.penalized():
      for i, k in enumerate(self.d.keys):
        j = vals.index(a[k])
        t[i, j] = min(t[i, j], c)
    return t

  def best(self):
    return min(c for c, _ in self.penalized())

  def prefix_suffix(self):
    """Cheapest penalized costs to and from every packed state."""
    m = self.d.packed.packed_edge_matrix
    n = self.d.packed.num_tagged_states
    pre, suf = [INF] * n, [INF] * n
    pre[0] = 0.0
    suf[n - 1] = 0.0
    edges = []
    for e in m:
      k = int(e["required_assignment_key_index"])
      p = 0.0 if k == -1 else float(
          self.pen[k, int(e["required_assignment_value_index"])])
      edges.append((int(e["source_index"]), int(e["dest_index"]),
                    float(e["cost"]) + p))
    changed = True
    while changed:  # until nothing changes: no order of the edges is assumed
      changed = False
      for s, t, c in edges:
        if pre[s] + c < pre[t]:
          pre[t] = pre[s] + c
          changed = True
      for s, t, c in reversed(edges):
        if suf[t] + c < suf[s]:
          suf[s] = suf[t] + c
          changed = True
    return pre, suf


class BigModel(Model):
  """The same by dynamic programming."""

  def copy(self):
    return BigModel(self.d, np.copy(self.pen))

  def has(self, assignment):
    return math.isfinite(self.d.best(assignment))

  def cost(self, assignment):
    return self.d.best(assignment, self.pen)

  def marginals(self):
    return self.d.all_marginals(self.pen)[0]

  def best(self):
    return self.d.minimum(self.pen)


def rand_penalties(rng, n):
  return np.array([rng.choice([0.0, 0.0, 1.5, -2.0, 4.0, INF, 100.0, 2e5,
                               round(rng.uniform(-3, 3), 2)])
                   for _ in range(n)])


def vec_close(mon, got, want, msg):
  got = [float(x) for x in got]
  want = [float(x) for x in want]
  ok = len(got) == len(want) and all(
      a == b or abs(a - b) <= 1e-7 * (1 + abs(b)) for a, b in zip(got, want))
  mon.check(ok, msg, got=got, want=want)
  mon.event("infinite_answers", sum(math.isinf(x) for x in want))


def run_case(rng, mon, idx):
  nk = rng.randint(0 if idx % 9 == 0 else 1, 5)
  big = idx % 80 == 1
  make = BigModel if big else Model
  if idx % 4000 == 81:
    d = bigdag.huge(rng)
    ordering = d.values
    mon.event("huge")
  elif big:
    keys, values, missing, ordering, hidden = bigdag.setting(rng)
    d = bigdag.big_dag(rng, keys, values, missing, ordering, hidden,
                       magnitudes=(1e-4, 1e3, 1e6, 1e9))
    mon.event("big")
  else:
    keys = daggen.variable_keys(rng, nk)
    values = ["A", "B", "C"][:rng.randint(1, 3)]
    ordering = values + ["M"]
    rng.shuffle(ordering)
    d = sysgen.random_dag(rng, keys, values, "M", ordering, need_keys=False,
                          junk=False, n_states=rng.randint(2, 8),
                          magnitudes=(1e-4, 1e3, 1e6, 1e9))
  if d is None:
    return
  nk = len(d.keys)
  nv = len(ordering)
  mon.note(dag=d.dag, ordering=ordering)
  before = np.copy(d.packed.packed_edge_matrix)
  if rng.random() < 0.5:
    pairs = [(pd.empty_unpenalized_table(d.packed),
              make(d, np.zeros((nk, nv))))]
  else:
    init = np.array([rand_penalties(rng, nv) for _ in range(nk)]).reshape(nk, nv)
    pairs = [(pd.empty_table(d.packed, init), make(d, init))]
    init[...] = 12345.0  # the table must hold its own copy
  history = []
  mon.note(history=history)
  for _ in range(rng.randint(4, 40 if big and len(d.dag.edges) < 5000 else 14)):
    which = rng.randrange(len(pairs))
    memo, model = pairs[which]
    op = rng.choice(["set", "set", "set", "mm", "mm", "mm", "all", "min", "min",
                     "pre", "suf", "valid", "copy", "mask", "extract"])
    if nk == 0 and op in ("set", "mm"):
      op = "min"
    if op == "set":
      k = rng.randrange(nk)
      p = rand_penalties(rng, nv)
      r = rng.random()
      if r < 0.08:
        p = np.copy(model.pen[k, :])  # no change at all
      elif r < 0.25:
        # Barely a change.
        p = model.pen[k, :] * (1 + rng.choice([1e-6, 3e-6, 1e-4])) + rng.choice(
            [0.0, 1e-9, 1e-6, 1e-3])
      history.append((which, op, k, p.tolist()))
      pd.set_penalties(memo, k, p)
      model.pen[k, :] = p
      p[...] = 777.0
      mon.event("set_penalties")
      mon.check(np.array_equal(memo.penalties, model.pen), "stored penalties")
    elif op == "mm":
      k = rng.randrange(nk)
      history.append((which, op, k))
      got = pd.compute_min_marginals_for_variable(memo, k)
      vec_close(mon, got, model.marginals()[k], "min-marginals")
      mon.event("marginals")
    elif op == "all":
      history.append((which, op))
      got = pd.compute_all_min_marginals(memo)
      want = model.marginals()
      mon.eq(got.shape, (nk, nv), "shape of all min-marginals")
      for k in range(nk):
        vec_close(mon, got[k], want[k], "all min-marginals")
      mon.event("all_marginals")
    elif op == "min":
      strat = rng.choice([S.AT_END, S.AT_START, S.FROM_MIDDLE, None])
      history.append((which, op, str(strat)))
      got = (pd.compute_minimal_cost(memo) if strat is None
             else pd.compute_minimal_cost(memo, strat))
      vec_close(mon, [got], [model.best()], "minimal cost")
      mon.event("minimal_cost")
    elif op == "pre":
      t = rng.randint(-1, nk - 1)
      history.append((which, op, t))
      pd.update_prefixes_up_to(memo, t)
    elif op == "suf":
      t = rng.randint(-1, nk - 1)
      history.append((which, op, t))
      pd.update_suffixes_up_to(memo, t)
    elif op == "valid":
      history.append((which, op))
      pd.make_fully_valid(memo)
      pre, suf = model.prefix_suffix()
      vec_close(mon, memo.prefix_table, pre, "prefix table when fully valid")
      vec_close(mon, memo.suffix_table, suf, "suffix table when fully valid")
    elif op == "copy" and len(pairs) < 3:
      history.append((which, op))
      pairs.append((pd.copy_memo(memo), model.copy()))
      mon.event("copies")
    elif op == "mask":
      history.append((which, op))
      pre, suf = model.prefix_suffix()
      for got, want, what in ((pd.masked_prefixes(memo), pre, "prefix"),
                              (pd.masked_suffixes(memo), suf, "suffix")):
        for x, y in zip(got, want):
          x = float(x)
          if x == x:
            mon.close(x, y, f"a {what} cost presented as valid is wrong", tol=1e-7)
            mon.event("masked_values")
    elif op == "extract":
      history.append((which, op))
      if math.isinf(model.best()):
        continue
      path, assignment = pd.extract_minimal_cost_path_and_assignments(
          memo, d.conv, tagged=True)
      check_tagged(mon, d, path, assignment)
      plain, again = pd.extract_minimal_cost_path_and_assignments(
          memo, d.conv, tagged=False)
      mon.eq(again, assignment, "assignment depends on the kind of edges")
      mon.eq(list(plain), [d.conv.original_edges[e.info] for e in path
                           if e.info != -1], "plain and tagged path differ")
      mon.eq(sorted(assignment), d.keys, "variables of the extracted assignment")
      mon.check(model.has(assignment), "extracted assignment belongs to no path")
      mon.close(model.cost(assignment), model.best(),
                "extracted path is not minimal",
                tol=1e-7, path=path, assignment=assignment)
      mon.event("extracted")
  mon.check(np.array_equal(before, d.packed.packed_edge_matrix),
            "queries modified the DAG")
  if big or len(d.paths) > 1:
    mon.key(repr(d.dag), history)
