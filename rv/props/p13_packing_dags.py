"""P13: packing a DAG neither loses, invents nor distorts a path."""
import math

import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags as pd
from rv import bigdag
from rv import daggen

ID = "P13"
RULE = (
    "random pruned DAGs packed by the plain and the specialised converter; all"
    " paths of the packed form enumerated from the raw arrays and mapped back"
    " (large DAGs: counted, and priced under random penalties);"
    " nontrivial: distinct DAGs with 2+ paths and a variable"
)
QUICK = dict(cases=50000, budget=70)
THOROUGH = dict(cases=700000, budget=780)
MIN_EVENTS = {"packed": 5000, "paths": 30000, "missing_values": 10000,
              "order_errors": 300, "unreachable_errors": 300, "scaled": 3000,
              "big": 100, "unpruned": 1000}

MISSING = "missing"


def setup():
  global SPECIAL, CAST
  SPECIAL, CAST = pd.make_specialized_fn__convert_dag_to_packed(
      example_state=1, example_variable_key="k", example_variable_value="v",
      example_info=1, with_numba=True)


def convert(rng, d, missing, ordering):
  if rng.random() < 0.3:
    return SPECIAL(CAST(d), missing, ordering)
  return pd.convert_dag_to_packed(d, missing, ordering)


def packed_paths(packed, limit=6000):
  m = packed.packed_edge_matrix
  out = {}
  for i in range(len(m)):
    out.setdefault(int(m[i]["source_index"]), []).append(i)
  final = packed.num_tagged_states - 1
  res = []
  stack = [(0, ())]
  while stack:
    s, p = stack.pop()
    if s == final:
      res.append(p)
      if len(res) > limit:
        return None
      continue
    for i in out.get(s, ()):
      stack.append((int(m[i]["dest_index"]), p + (i,)))
  return res


def errors_case(rng, mon):
  """Inputs outside the contract are refused with ValueError."""
  keys = ["a", "b", "c"]
  names = list(range(6))
  E, A = gsd.Edge, gsd.SharedVariableAssignment
  if rng.random() < 0.5:
    i, j = sorted(rng.sample(range(3), 2))
    first, second = (j, i) if rng.random() < 0.7 else (i, i)
    mid = rng.randint(0, 2)
    edges = [E(0, 1, 0.0, A(keys[first], "x"), 0)]
    for m in range(mid):
      edges.append(E(1 + m, 2 + m, 1.0, None, 0))
    edges.append(E(1 + mid, 2 + mid, 0.0, A(keys[second], "y"), 0))
    if rng.random() < 0.5:
      edges.insert(1, E(0, 1, 0.0, None, 0))
    d = gsd.CompleteStateDAG(0, edges, 2 + mid)
    mon.event("order_errors")
    what = "variables assigned out of order or twice on a path"
  else:
    d = gsd.CompleteStateDAG(
        0, [E(0, 1, 0.0, None, 0), E(7, 1, 0.0, None, 0),
            E(1, 2, 0.0, A("a", "x"), 0)], 2)
    mon.event("unreachable_errors")
    what = "edge with an unreachable source"
  mon.note(dag=d)
  mon.raises(ValueError, lambda: convert(rng, d, MISSING, None),
             "accepted a DAG with " + what)


def check_copy(mon, d, te):
  """An edge of the packed form is an original one or a free bridge."""
  if te.info == -1:
    mon.eq((float(te.cost), te.required_assignment.value), (0.0, MISSING),
           "bridging edge")
    mon.eq(te.source.original_state, te.dest.original_state, "bridge")
  else:
    oe = d.edges[te.info]
    mon.eq((te.source.original_state, te.dest.original_state, te.cost),
           (oe.source, oe.dest, oe.cost), "copied edge")


def big_paths(rng, mon, d, packed, conv, used_keys, ref=None):
  """As many paths as the original, and as cheap under any penalties."""
  m = packed.packed_edge_matrix
  n = packed.num_tagged_states
  edges = [(int(e["source_index"]), int(e["dest_index"]), float(e["cost"]),
            int(e["required_assignment_key_index"]),
            int(e["required_assignment_value_index"])) for e in m]
  count = [0] * n
  count[0] = 1
  for s, t, *_ in edges:
    count[t] += count[s]
  copied = 0
  for te in conv.tagged_edges:
    check_copy(mon, d, te)
    copied += te.info != -1
  mon.eq(copied, len(d.edges), "number of copied edges")
  mon.eq(count[-1], bigdag.count_paths(d.initial_state, d.edges, d.final_state),
         "number of paths")
  ref = ref or bigdag.BigDag(d, packed, conv, used_keys,
                             list(conv.variable_values), MISSING)
  for _ in range(3):
    pen = np.array([[rng.choice([0.0, 1.0, -2.0, 5.0, math.inf])
                     for _ in conv.variable_values] for _ in used_keys])
    pen = pen.reshape(len(used_keys), len(conv.variable_values))
    best = [math.inf] * n
    best[0] = 0.0
    for s, t, c, k, v in edges:
      best[t] = min(best[t], best[s] + c + (0.0 if k == -1 else pen[k, v]))
    mon.close(best[-1], ref.minimum(pen), "cheapest path under penalties",
              penalties=pen)
  mon.event("big")
  mon.event("big_edges", len(edges))
  mon.key(repr(d))


def small_paths(mon, d, packed, conv, used_keys, ps):
  """Paths: exactly the original ones."""
  pps = packed_paths(packed)
  if pps is None:
    return False
  mapped = []
  for p in pps:
    tedges = [conv.tagged_edges[i] for i in p]
    mon.eq([te.required_assignment.key for te in tedges
            if te.required_assignment is not None], used_keys,
           "a packed path does not assign each variable once and in order")
    orig = tuple(te.info for te in tedges if te.info != -1)
    full = {te.required_assignment.key: te.required_assignment.value
            for te in tedges if te.required_assignment is not None}
    want = dict.fromkeys(used_keys, MISSING)
    want.update(daggen.path_assignment(d.edges, orig))
    mon.eq(full, want, "assignment of a packed path")
    mon.event("missing_values", sum(te.info == -1 for te in tedges))
    for te in tedges:
      check_copy(mon, d, te)
    mapped.append(orig)
  mon.eq(sorted(mapped), ps, "paths of the packed form")
  mon.event("paths", len(ps))
  if len(ps) > 1 and used_keys:
    mon.key(repr(d))
  return True


def run_case(rng, mon, idx):
  if idx % 12 == 0:
    errors_case(rng, mon)
    return
  nk = rng.choice([0, 1, 2, 3, 4, 5])
  big = idx % 60 == 1
  ref = None
  if idx % 6000 == 61:
    ref = bigdag.huge(rng, missing=MISSING)
    values, d = ref.values, ref.dag
    mon.event("huge")
  elif big:
    keys = daggen.variable_keys(
        rng, rng.randint(45, 75) if rng.random() < 0.06 else rng.randint(6, 20))
    values = [MISSING] + [f"w{i}" for i in range(rng.randint(2, 12))]
    d = bigdag.big_graph(rng, keys, values, MISSING,
                         {k: rng.choice(values) for k in keys}, junk=False)
  else:
    keys = daggen.variable_keys(rng, nk)
    values = ["A", "B", MISSING, "z"][:rng.randint(1, 4)]
    d = gsd.prune_to_reachable(
        daggen.dag(rng, keys, values, n_states=rng.randint(2, 8),
                   magnitudes=(1e-4, 1e3, 1e6, 1e9)))
  if not d.edges:
    return
  unused = set()
  if not big and rng.random() < 0.15:
    # Impossible edges and blind alleys that nobody pruned away.
    es = []
    for e in d.edges:
      if rng.random() < 0.3:
        es.append(gsd.Edge(e.source, ("dead", rng.randint(0, 2)),
                           rng.choice([0.0, -5.0, math.inf]), None, None))
        unused.add(len(es) - 1)
      if e.required_assignment is None and rng.random() < 0.3:
        es.append(e._replace(cost=math.inf))
        unused.add(len(es) - 1)
      es.append(e)
    d = d._replace(edges=es)
    mon.event("unpruned")
  mon.note(dag=d)
  ps = None
  if not big:
    ps = daggen.paths(d.initial_state, d.edges, d.final_state)
    if ps is None:
      return
    ps = [p for p in ps if not unused & set(p)]
  used_keys = sorted({e.required_assignment.key for e in d.edges
                      if e.required_assignment is not None})
  used_vals = {e.required_assignment.value for e in d.edges
               if e.required_assignment is not None} | {MISSING}
  if ref is not None:
    ordering = ref.values
  elif rng.random() < 0.5:
    ordering = sorted({"A", "B", MISSING, "z", "unused", *values})
    rng.shuffle(ordering)
  else:
    ordering = None
  before = list(d.edges)
  packed, conv = convert(rng, d, MISSING, ordering)
  mon.event("packed")
  mon.eq(list(d.edges), before, "packing modified its input")
  mon.eq(list(conv.variable_keys), used_keys, "variable keys")
  mon.eq(list(conv.variable_values),
         ordering if ordering is not None else sorted(used_vals),
         "variable values")
  nkeys = len(used_keys)
  mon.eq((packed.num_variable_keys, packed.num_variable_values),
         (nkeys, len(conv.variable_values)), "sizes")
  mon.eq({k: conv.variable_key_index_from_key[k] for k in used_keys},
         {k: i for i, k in enumerate(used_keys)}, "key index")
  mon.eq({v: conv.variable_value_index_from_value[v]
          for v in conv.variable_values},
         {v: i for i, v in enumerate(conv.variable_values)}, "value index")
  mon.eq(list(conv.original_edges), before, "original edges")

  # Structure of the arrays.
  m = packed.packed_edge_matrix
  n = packed.num_tagged_states
  ts = conv.tagged_states
  mon.eq(len(ts), n, "tagged states")
  mon.eq(len(set((s.original_state, s.last_variable_index) for s in ts)), n,
         "tagged states repeat")
  mon.eq(tuple(ts[0]), (d.initial_state, -1), "first state")
  mon.eq(tuple(ts[n - 1]), (d.final_state, nkeys - 1), "last state")
  mon.eq(len(conv.tagged_edges), len(m), "tagged edges")
  g = packed.edge_group_boundary_indices
  b = packed.state_variable_boundary_indices
  mon.eq((int(g[0]), int(g[-1]), len(g)), (0, len(m), 2 * nkeys + 2),
         "edge groups")
  mon.check(all(g[i] <= g[i + 1] for i in range(len(g) - 1)), "group order")
  seen_out = set()
  for i in range(len(m)):
    te = conv.tagged_edges[i]
    src, dst = int(m[i]["source_index"]), int(m[i]["dest_index"])
    k, v = (int(m[i]["required_assignment_key_index"]),
            int(m[i]["required_assignment_value_index"]))
    mon.eq((ts[src], ts[dst], float(m[i]["cost"])),
           (te.source, te.dest, float(te.cost)), "packed edge", edge=i)
    mon.check(dst not in seen_out, "packed edges are not in processing order")
    seen_out.add(src)
    if te.required_assignment is None:
      mon.eq((k, v), (-1, -1), "assignment of packed edge", edge=i)
      mon.eq(ts[src].last_variable_index, ts[dst].last_variable_index, "tags")
      tag = ts[src].last_variable_index
      mon.check(g[2 * tag + 2] <= i < g[2 * tag + 3], "edge in wrong group")
    else:
      mon.eq((conv.variable_keys[k], conv.variable_values[v]),
             tuple(te.required_assignment), "assignment", edge=i)
      mon.eq((ts[src].last_variable_index, ts[dst].last_variable_index),
             (k - 1, k), "tags")
      mon.check(g[2 * k + 1] <= i < g[2 * k + 2], "edge in wrong group")
  mon.eq(len(b), nkeys + 2, "state groups")
  by_tag, out = {}, {}
  for i in range(n):
    by_tag.setdefault(ts[i].last_variable_index, []).append(i)
  for i in range(len(m)):
    out.setdefault(int(m[i]["source_index"]), []).append(i)
  for tag in range(-1, nkeys):
    mon.eq(by_tag.get(tag, []),
           list(range(int(b[tag + 1]), int(b[tag + 2]))), "state group", tag=tag)
  for s in range(n):
    mon.eq(sorted(conv.outgoing_edge_indices_for_tagged_state_index[s]),
           out.get(s, []),
           "outgoing edges", state=s)

  if big:
    big_paths(rng, mon, d, packed, conv, used_keys, ref)
  elif not small_paths(mon, d, packed, conv, used_keys, ps):
    return

  scale = rng.choice([0.5, 2.0, 1 / 3, 0.0, 7.25])
  old = np.copy(m)
  scaled = pd.scale_packed_dag_costs(packed, scale)
  mon.event("scaled")
  mon.check(np.array_equal(old, packed.packed_edge_matrix),
            "scaling modified its input")
  sm = scaled.packed_edge_matrix
  for f in sm.dtype.names:
    if f == "cost":
      mon.check(all(math.isclose(float(x), float(y) * scale, abs_tol=1e-12)
                    for x, y in zip(sm[f], old[f])), "scaled costs")
    else:
      mon.check(np.array_equal(sm[f], old[f]), "scaling changed " + f)
  mon.eq((scaled.num_tagged_states, scaled.num_variable_keys,
          scaled.num_variable_values,
          list(scaled.edge_group_boundary_indices),
          list(scaled.state_variable_boundary_indices)),
         (n, nkeys, len(conv.variable_values), list(g), list(b)), "scaled shape")
