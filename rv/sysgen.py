"""Random systems of packed DAGs, and their brute-force semantics.

A DAG is summarised by the list of its paths as (cost, {key: value}), where
every variable of the DAG appears (with the missing value if not assigned).
"""
import itertools
import math

import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags as pd
from rv import daggen

INF = math.inf


def summarize(d, missing, scale=1.0, limit=1500):
  """(used keys, [(cost, assignment)]) or None if there are too many paths."""
  ps = daggen.paths(d.initial_state, d.edges, d.final_state, limit)
  if ps is None or not ps:
    return None
  keys = sorted({e.required_assignment.key for e in d.edges
                 if e.required_assignment is not None})
  out = []
  for p in ps:
    a = dict.fromkeys(keys, missing)
    a.update(daggen.path_assignment(d.edges, p))
    out.append((daggen.path_cost(d.edges, p) * scale, a))
  return keys, out


class Dag:
  """A packed DAG together with its brute-force summary."""

  def __init__(self, d, packed, conv, keys, paths):
    self.dag, self.packed, self.conv = d, packed, conv
    self.keys, self.paths = keys, paths

  def penalized(self, penalties):
    """penalties: {key: {value: penalty}} -> [(total cost, assignment)]."""
    return [(c + sum(penalties[k][v] for k, v in a.items()), a)
            for c, a in self.paths]


def random_dag(rng, keys, values, missing, ordering, need_keys=True, **kw):
  for _ in range(60):
    d = gsd.prune_to_reachable(daggen.dag(rng, keys, values, **kw))
    if not d.edges:
      continue
    s = summarize(d, missing)
    if s is None or (need_keys and not s[0]):
      continue
    packed, conv = pd.convert_dag_to_packed(d, missing, ordering)
    if rng.random() < 0.2:
      sc = rng.choice([0.5, 0.25, 2.0])
      packed = pd.scale_packed_dag_costs(packed, sc)
      s = s[0], [(c * sc, a) for c, a in s[1]]
    return Dag(d, packed, conv, *s)
  return None


class System:
  """A solver system together with its brute-force semantics."""
  exact = True  # the optimum can be computed

  def __init__(self, dags, system, values):
    self.dags, self.system, self.values = dags, system, values
    self.keys = sorted({k for d in dags for k in d.keys})
    # Extra costs per assignment, maintained by the monitor.
    self.extra = {k: dict.fromkeys(values, 0.0) for k in self.keys}

  def weighted(self, given, props):
    """Remembers the update proportions, as given and as the caller has them."""
    self.given, self.props = given, props
    return self

  def weights(self):
    return np.ones(len(self.dags)) if self.given is None else self.given

  def check_shares(self, mon, data, i):
    """After averaging a variable each DAG holds its share of the total."""
    k = self.keys[i]
    users = [n for n, d in enumerate(self.dags) if k in d.keys]
    held = [np.array(pd.compute_min_marginals_for_variable(
        data.dag_tables[n], self.dags[n].keys.index(k)), dtype=float)
            for n in users]
    w = self.weights()[users]
    total = sum(held)
    for n, h, x in zip(users, held, w / w.sum()):
      for v, a, b in zip(self.values, h, total * x):
        mon.close(float(a), float(b), "share of a DAG after averaging", key=k,
                  value=v, dag=n)
        mon.event("shares")

  def dag_cost(self, d, assignment):
    return min((c for c, a in d.paths
                if all(assignment[k] == v for k, v in a.items())), default=INF)

  def cost(self, assignment):
    """Cost of a complete assignment."""
    return (sum(self.dag_cost(d, assignment) for d in self.dags)
            + sum(self.extra[k][v] for k, v in assignment.items()))

  def candidates(self):
    """Complete assignments that can have a finite cost."""
    # Values a variable can take in every DAG that uses it.
    doms = []
    for k in self.keys:
      dom = set(self.values)
      for d in self.dags:
        if k in d.keys:
          dom &= {a[k] for _, a in d.paths}
      doms.append(sorted(dom))
    for combo in itertools.product(*doms):
      yield dict(zip(self.keys, combo))

  def optimum(self, where=lambda a: True):
    """Minimal cost over complete assignments (inf if unsolvable)."""
    return min((self.cost(a) for a in self.candidates() if where(a)),
               default=INF)

  def upper(self):
    """Cost of some solution (here: the best one)."""
    return self.optimum()

  def forbidden_ok(self, k, v):
    """Whether no solution makes this choice."""
    return math.isinf(self.optimum(lambda a: a[k] == v))

  def penalties_of(self, data, i):
    """Penalty table {key: {value: x}} the code holds for DAG i."""
    d = self.dags[i]
    t = data.dag_tables[i].penalties
    return {k: {v: float(t[j, self.values.index(v)]) for v in self.values}
            for j, k in enumerate(d.keys)}

  def lagrangian(self, data):
    """Sum over DAGs of the cheapest penalized path, by enumeration."""
    return sum(min(c for c, _ in d.penalized(self.penalties_of(data, i)))
               for i, d in enumerate(self.dags))

  def marginals(self, data, key, fixed=None):
    """Brute-force aggregated min-marginals of one variable."""
    out = {v: 0.0 for v in self.values}
    for i, d in enumerate(self.dags):
      best = {}
      for c, a in d.penalized(self.penalties_of(data, i)):
        if fixed and any(a.get(k, v) != v for k, v in fixed.items()):
          continue
        for v in ([a[key]] if key in a else self.values):
          best[v] = min(best.get(v, INF), c)
      for v in self.values:
        out[v] += best.get(v, INF)
    return out

  def check_penalties(self, mon, data, infeasible_ok=True):
    """Penalties of the DAGs that use a variable sum to its extra costs."""
    tables = [self.penalties_of(data, i) for i in range(len(self.dags))]
    for k in self.keys:
      for v in self.values:
        parts = [tables[i][k][v]
                 for i, d in enumerate(self.dags) if k in d.keys]
        total = sum(parts)
        want = self.extra[k][v]
        mon.check(total == total, "penalty is not a number", key=k, value=v)
        if math.isinf(total) and not math.isinf(want):
          mon.check(total > 0, "penalty is -inf", key=k, value=v)
          mon.check(
              infeasible_ok and self.forbidden_ok(k, v),
              "a usable assignment is forbidden by penalties", key=k, value=v)
          mon.event("infeasible_penalties")
        else:
          mon.close(total, want, "penalties do not sum to the extra costs",
                    tol=1e-7, key=k, value=v, parts=parts)
        got = float(data.extra_unary_costs[self.keys.index(k),
                                           self.values.index(v)])
        mon.close(got, want, "recorded extra costs", tol=1e-9, key=k, value=v)


def random_system(rng, n_dags=None, n_keys=None, typed=False, **kw):
  """A random solvable-or-not system, or None."""
  n_dags = n_dags or rng.choice([1, 2, 2, 3, 4])
  n_keys = n_keys or rng.randint(1, 4)
  keys = daggen.variable_keys(rng, n_keys)
  missing = rng.choice(["M", "A"])
  values = ["A", "B", "C"][:rng.randint(2, 3)]
  ordering = values + [missing] * (missing not in values)
  rng.shuffle(ordering)
  dags = []
  for _ in range(n_dags):
    sub = sorted(rng.sample(keys, rng.randint(1, n_keys)))
    d = random_dag(rng, sub, values, missing, list(ordering), junk=False,
                   n_states=rng.randint(2, 6), **kw)
    if d is None:
      return None
    dags.append(d)
  props = None
  if rng.random() < 0.4:
    props = np.array([rng.choice([0.5, 1.0, 3.0, 0.1]) for _ in dags])
  given = None if props is None else props.copy()
  system = solver.make_system([(d.packed, d.conv) for d in dags], props)
  return System(dags, system, list(ordering)).weighted(given, props)


def snapshot(data):
  return (
      [np.copy(t.penalties) for t in data.dag_tables],
      np.copy(data.extra_unary_costs),
      np.copy(data.dag_variable_index_map),
      [np.copy(t.dag.packed_edge_matrix) for t in data.dag_tables],
  )


def same_snapshot(a, b):
  return (
      all(np.array_equal(x, y) for x, y in zip(a[0], b[0]))
      and np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2])
      and all(np.array_equal(x, y) for x, y in zip(a[3], b[3]))
  )
