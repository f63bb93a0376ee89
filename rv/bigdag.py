"""Large DAGs and systems, judged by dynamic programming over the edge list.

The reference knows nothing of packing: it walks the edges of the original DAG
once, keeping for every state the cheapest cost per number of variables already
decided (a variable may be skipped anywhere, at the price of the missing value).
"""
import math

import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags as pd
from rv import daggen
from rv import sysgen

INF = math.inf


def usable(d):
  """Positions of the edges on some finite-cost path, by reachability."""
  fwd = {d.initial_state}
  for e in d.edges:  # admissible order: edges into a state come first
    if e.cost < INF and e.source in fwd:
      fwd.add(e.dest)
  bwd = {d.final_state}
  for e in reversed(d.edges):
    if e.cost < INF and e.dest in bwd:
      bwd.add(e.source)
  return [i for i, e in enumerate(d.edges)
          if e.cost < INF and e.source in fwd and e.dest in bwd]


def count_paths(initial, edges, final):
  n = {initial: 1}
  for e in edges:
    if e.source in n:
      n[e.dest] = n.get(e.dest, 0) + n[e.source]
  return n.get(final, 0)


class BigDag:
  """Same interface as sysgen.Dag, without the list of paths."""

  def __init__(self, d, packed, conv, keys, values, missing, scale=1.0):
    self.dag, self.packed, self.conv, self.keys = d, packed, conv, keys
    self.values, self.missing = values, missing
    ki = {k: i for i, k in enumerate(keys)}
    vi = {v: i for i, v in enumerate(values)}
    names = {d.initial_state: 0}
    self.edges = []
    for e in d.edges:
      s = names.setdefault(e.source, len(names))
      t = names.setdefault(e.dest, len(names))
      a = e.required_assignment
      self.edges.append((s, t, float(e.cost) * scale,
                         None if a is None else (ki[a.key], vi[a.value])))
    self.n = len(names)
    self.final = names[d.final_state]
    self.m = vi[missing]

  def tables(self, pen):
    """Cheapest costs to and from (state, number of decided variables)."""
    nk = len(self.keys)
    f = np.full((self.n, nk + 1), INF)
    b = np.full((self.n, nk + 1), INF)
    f[0, 0] = 0.0
    b[self.final, nk] = 0.0
    done = set()

    def close_f(s):
      if s not in done:
        done.add(s)
        for t in range(nk):
          f[s, t + 1] = min(f[s, t + 1], f[s, t] + pen[t, self.m])

    def close_b(s):
      if s not in done:
        done.add(s)
        for t in range(nk - 1, -1, -1):
          b[s, t] = min(b[s, t], b[s, t + 1] + pen[t, self.m])

    for s, t, c, a in self.edges:
      close_f(s)
      if a is None:
        np.minimum(f[t], f[s] + c, out=f[t])
      else:
        k, v = a
        f[t, k + 1] = min(f[t, k + 1], f[s, k] + c + pen[k, v])
    for s in range(self.n):
      close_f(s)
    done.clear()
    for s, t, c, a in reversed(self.edges):
      close_b(t)
      if a is None:
        np.minimum(b[s], b[t] + c, out=b[s])
      else:
        k, v = a
        b[s, k] = min(b[s, k], b[t, k + 1] + c + pen[k, v])
    for s in range(self.n):
      close_b(s)
    return f, b

  def all_marginals(self, pen):
    """(number of keys, number of values) min-marginals and the minimum."""
    nk = len(self.keys)
    f, b = self.tables(pen)
    out = np.full((nk, len(self.values)), INF)
    for s, t, c, a in self.edges:
      if a is not None:
        k, v = a
        out[k, v] = min(out[k, v], f[s, k] + c + pen[k, v] + b[t, k + 1])
    for k in range(nk):
      # Skipped: the missing value.
      out[k, self.m] = min(out[k, self.m],
                           float(np.min(f[:, k] + pen[k, self.m] + b[:, k + 1])))
    return out, float(f[self.final, nk])

  def minimum(self, pen):
    return float(self.tables(pen)[0][self.final, len(self.keys)])

  def fixed(self, assignment, pen=None):
    """Penalties that leave only the given choices."""
    pen = (np.zeros((len(self.keys), len(self.values))) if pen is None
           else np.array(pen, dtype=float))
    for k, v in assignment.items():
      if k in self.keys:
        i = self.keys.index(k)
        for j, w in enumerate(self.values):
          if w != v:
            pen[i, j] = INF
    return pen

  def best(self, assignment, pen=None):
    return self.minimum(self.fixed(assignment, pen))


def big_graph(rng, keys, values, missing, hidden, **kw):
  """A pruned DAG of many states with a path that agrees with `hidden`."""
  n = rng.choice([12, 20, 35, 60])
  d = daggen.dag(rng, keys, values, n_states=n,
                 density=rng.choice([1.5, 2.5, 4.0]) / n, **kw)
  # The hidden path: a chain beside the rest, entered from the start.
  edges = [e._replace(source=("r", e.source), dest=("r", e.dest))
           for e in d.edges]
  start, final = ("r", d.initial_state), ("r", d.final_state)
  cur = start
  steps = 0
  for k in keys:
    while rng.random() < 0.3:
      steps += 1
      edges.append(gsd.Edge(cur, ("h", steps), daggen.cost(rng), None, None))
      cur = ("h", steps)
    if hidden[k] == missing and rng.random() < 0.7:
      continue
    steps += 1
    for v in {hidden[k], rng.choice(values)}:
      edges.append(gsd.Edge(cur, ("h", steps), daggen.cost(rng),
                            gsd.SharedVariableAssignment(k, v), None))
    cur = ("h", steps)
  edges.append(gsd.Edge(cur, final, daggen.cost(rng), None, None))
  d = gsd.CompleteStateDAG(start, daggen.shuffle_edges(rng, edges), final)
  keep = usable(d)
  d = gsd.CompleteStateDAG(start, [d.edges[i] for i in keep], final)
  if rng.random() < 0.5:
    names = {}
    for e in d.edges:
      for s in (e.source, e.dest):
        names.setdefault(s, len(names))
    names.setdefault(start, len(names))
    d = gsd.CompleteStateDAG(
        names[start], [e._replace(source=names[e.source], dest=names[e.dest])
                       for e in d.edges], names[final])
  return d


def big_dag(rng, keys, values, missing, ordering, hidden, **kw):
  """A BigDag on (a subset of) these keys."""
  d = big_graph(rng, keys, values, missing, hidden, junk=False, **kw)
  used = sorted({e.required_assignment.key for e in d.edges
                 if e.required_assignment is not None})
  packed, conv = pd.convert_dag_to_packed(d, missing, list(ordering))
  sc = 1.0
  if rng.random() < 0.3:
    sc = rng.choice([0.5, 0.25, 2.0])
    packed = pd.scale_packed_dag_costs(packed, sc)
  return BigDag(d, packed, conv, used, list(ordering), missing, sc)


def setting(rng, max_keys=14):
  nk = rng.randint(5, max_keys)
  if max_keys >= 14 and rng.random() < 0.06:
    nk = rng.randint(45, 75)
  keys = daggen.variable_keys(rng, nk)
  values = [f"w{i}" for i in range(rng.randint(2, 9))]
  missing = rng.choice(["M", values[0]])
  ordering = values + [missing] * (missing not in values)
  rng.shuffle(ordering)
  hidden = {k: rng.choice(ordering) for k in keys}
  return keys, values, missing, ordering, hidden


class BigSystem(sysgen.System):
  """A system of many or large DAGs; `hidden` is one solution."""
  exact = False

  def __init__(self, dags, system, values, hidden):
    super().__init__(dags, system, values)
    self.hidden = {k: hidden[k] for k in self.keys}

  def table(self, data, i):
    return np.array(data.dag_tables[i].penalties, dtype=float)

  def dag_cost(self, d, assignment):
    return d.best(assignment)

  def upper(self):
    return self.cost(self.hidden)

  def optimum(self, where=None):
    raise AssertionError("not available")

  def lagrangian(self, data):
    return sum(d.minimum(self.table(data, i)) for i, d in enumerate(self.dags))

  def marginals(self, data, key, fixed=None):
    out = np.zeros(len(self.values))
    for i, d in enumerate(self.dags):
      m, best = d.all_marginals(d.fixed(fixed or {}, self.table(data, i)))
      out = out + (m[d.keys.index(key)] if key in d.keys else best)
    return dict(zip(self.values, (float(x) for x in out)))

  def forbidden_ok(self, k, v):
    return v != self.hidden[k] or math.isinf(self.upper())


def random_system(rng, n_dags=None, **kw):
  keys, values, missing, ordering, hidden = setting(rng, kw.pop("max_keys", 12))
  n_dags = n_dags or rng.choice([1, 2, 3, 5, 9, 17])
  dags = []
  for _ in range(n_dags):
    sub = sorted(rng.sample(keys, rng.randint(1, len(keys))))
    d = big_dag(rng, sub, values, missing, ordering, hidden, **kw)
    if not d.keys:
      return None
    dags.append(d)
  props = None
  if rng.random() < 0.4:
    props = np.array([rng.choice([0.5, 1.0, 3.0, 0.1]) for _ in dags])
  given = None if props is None else props.copy()
  system = solver.make_system([(d.packed, d.conv) for d in dags], props)
  return BigSystem(dags, system, list(ordering), hidden).weighted(given, props)


class StagedDag(BigDag):
  """A DAG in which every state has one possible number of decided variables.

  One pass over the edges is enough, whatever the number of variables.
  """

  def __init__(self, d, packed, conv, keys, values, missing, stage):
    super().__init__(d, packed, conv, keys, values, missing)
    names = {d.initial_state: 0}
    for e in d.edges:
      names.setdefault(e.source, len(names))
      names.setdefault(e.dest, len(names))
    at = [0] * len(names)
    for s, i in names.items():
      at[i] = stage[s]
    # (source, dest, cost, first variable decided, how many, value)
    self.steps = [(s, t, c, at[s], at[t] - at[s], self.m if a is None else a[1])
                  for s, t, c, a in self.edges]
    self.at = at

  def scan(self, pen):
    f = [INF] * self.n
    b = [INF] * self.n
    f[0] = 0.0
    b[self.final] = 0.0
    rows = pen.tolist()
    steps = []
    for s, t, c, k, n, v in self.steps:
      if n == 1:
        c += rows[k][v]
      elif n:
        c += sum(rows[q][v] for q in range(k, k + n))
      steps.append((s, t, c, k, n, v))
      f[t] = min(f[t], f[s] + c)
    for s, t, c, *_ in reversed(steps):
      b[s] = min(b[s], b[t] + c)
    return f, b, steps

  def minimum(self, pen):
    return self.scan(pen)[0][self.final]

  def all_marginals(self, pen):
    f, b, steps = self.scan(pen)
    out = np.full((len(self.keys), len(self.values)), INF)
    for s, t, c, k, n, v in steps:
      for q in range(k, k + n):
        out[q, v] = min(out[q, v], f[s] + c + b[t])
    return out, f[self.final]


def staged(rng, keys, values, missing, ordering, per_stage, hidden=None,
           integers=True):
  """A long DAG: stages of `per_stage` states with a few detours."""
  stage = {}
  edges = []
  count = [0]

  def state(k):
    s = count[0] if integers else ("s", count[0])
    count[0] += 1
    stage[s] = k
    return s

  first = cur = state(0)
  A = gsd.SharedVariableAssignment
  for k, key in enumerate(keys):
    chain = [cur]
    for _ in range(per_stage):
      chain.append(state(k))
    for x, y in zip(chain, chain[1:]):
      edges.append(gsd.Edge(x, y, daggen.cost(rng), None, None))
    if per_stage > 3 and rng.random() < 0.3:
      i, j = sorted(rng.sample(range(len(chain)), 2))
      edges.append(gsd.Edge(chain[i], chain[j], daggen.cost(rng) + 1.0, None,
                            None))
    nxt = state(k + 1)
    # Twice to be sure of a choice; the hidden one is always possible.
    some = {rng.choice(values), rng.choice(values)}
    if hidden:
      some.add(hidden[key])
    for v in sorted(some):
      if v == missing and rng.random() < 0.5:
        edges.append(gsd.Edge(chain[-1], nxt, daggen.cost(rng), None, None))
      else:
        edges.append(gsd.Edge(chain[-1], nxt, daggen.cost(rng), A(key, v), None))
    cur = nxt
  # All edges into a state precede the ones leaving it.
  order = {s: i for i, s in enumerate(stage)}
  edges.sort(key=lambda e: order[e.source])
  d = gsd.CompleteStateDAG(first, edges, cur)
  packed, conv = pd.convert_dag_to_packed(d, missing, list(ordering))
  used = [k for k in keys if any(
      e.required_assignment is not None and e.required_assignment.key == k
      for e in edges)] if len(keys) < 300 else None
  used_set = set(used)
  if len(used) < len(keys):
    # Stages whose variable is never named decide nothing.
    shift, k2 = [0], 0
    for k in keys:
      k2 += k in used_set
      shift.append(k2)
    stage = {s: shift[k] for s, k in stage.items()}
  return StagedDag(d, packed, conv, used, list(ordering), missing, stage)


def huge(rng, n_states=66500, missing="M"):
  """more states than 16 bits can count, more variables than 7 bits."""
  nk = rng.randint(130, 150)
  keys = [f"k{i:04d}" for i in range(nk)]
  nv = rng.choice([2, 3, 140])
  values = [f"w{i}" for i in range(nv)]
  ordering = values + [missing]
  rng.shuffle(ordering)
  return staged(rng, keys, values + [missing], missing, ordering,
                n_states // nk)


def wide_system(rng):
  """Many variables, or many DAGs, or many values."""
  nk, nd, nv = rng.choice([(140, 3, 3), (4, 135, 2), (3, 3, 140), (70, 20, 3)])
  keys = [f"k{i:04d}" for i in range(nk)]
  values = [f"w{i}" for i in range(nv)]
  missing = rng.choice(["M", values[0]])
  ordering = values + [missing] * (missing not in values)
  rng.shuffle(ordering)
  hidden = {k: rng.choice(ordering) for k in keys}
  dags = []
  for _ in range(nd):
    sub = sorted(rng.sample(keys, rng.randint(max(1, nk - 2), nk)))
    d = staged(rng, sub, values, missing, ordering, rng.choice([0, 1, 2]),
               hidden, integers=rng.random() < 0.5)
    if not d.keys:
      return None
    dags.append(d)
  props = None
  if rng.random() < 0.4:
    props = np.array([rng.choice([0.5, 1.0, 3.0, 0.1]) for _ in dags])
  given = None if props is None else props.copy()
  system = solver.make_system([(d.packed, d.conv) for d in dags], props)
  return BigSystem(dags, system, list(ordering), hidden).weighted(given, props)


def slow_system(rng):
  """Tables of pairs of variables in many cycles: hundreds of sweeps."""
  n = rng.choice([4, 5, 6])
  values = ["a", "b", "c"][:rng.choice([2, 3])]
  ordering = values + ["M"]
  keys = [f"k{i:02d}" for i in range(n)]
  A = gsd.SharedVariableAssignment
  dags = []
  for p in range(2 * n):
    pair = rng.sample(keys, 2) if p >= n else [keys[p], keys[(p + 1) % n]]
    k1, k2 = sorted(pair)
    edges = [gsd.Edge("s", ("m", i), 0.0, A(k1, v), None)
             for i, v in enumerate(values)]
    edges += [gsd.Edge(("m", i), "f", rng.choice([0.0, 0.5, 1.0, 2.0, 3.0]),
                       A(k2, w), None)
              for i in range(len(values)) for w in values]
    d = gsd.CompleteStateDAG("s", edges, "f")
    packed, conv = pd.convert_dag_to_packed(d, "M", list(ordering))
    dags.append(BigDag(d, packed, conv, [k1, k2], list(ordering), "M"))
  props = None
  if rng.random() < 0.5:
    props = np.array([rng.choice([1.0, 0.1, 0.03]) for _ in dags])
  given = None if props is None else props.copy()
  system = solver.make_system([(d.packed, d.conv) for d in dags], props)
  hidden = {k: rng.choice(values) for k in keys}
  return BigSystem(dags, system, ordering, hidden).weighted(given, props)
