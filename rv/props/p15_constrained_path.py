"""P15: the best path under constraints obeys them and is optimal."""
import math

import numpy as np
from r_u_sure.decision_diagrams import packed_dags as pd
from rv import bigdag
from rv import daggen
from rv import sysgen

ID = "P15"
RULE = (
    "random DAGs, random satisfiable constraint sets; the returned path is"
    " replayed edge by edge and its cost compared with the best of all paths"
    " that satisfy the constraints (large DAGs: dynamic programming); nontrivial: distinct (DAG, constraints) with"
    " 2+ candidates"
)
QUICK = dict(cases=60000, budget=70)
THOROUGH = dict(cases=900000, budget=780)
MIN_EVENTS = {"solved": 10000, "constraints": 15000, "alternatives": 20000,
              "missing_constraints": 1000, "unknown_rejected": 500, "big": 100}


def run_case(rng, mon, idx):
  big = idx % 80 == 1
  tie = rng.random() < 0.3
  missing = "M"
  if idx % 4000 == 81:
    d = bigdag.huge(rng)
    mon.event("huge")
    seed_path = dict.fromkeys(d.keys)
    for e in rng.sample(d.dag.edges, len(d.dag.edges)):
      a = e.required_assignment
      if a is not None and (seed_path[a.key] is None or rng.random() < 0.3):
        seed_path[a.key] = a.value
    raw = None
  elif big:
    keys, values, missing, ordering, hidden = bigdag.setting(rng, 25)
    d = bigdag.big_dag(rng, keys, values, missing, ordering, hidden,
                       tie_heavy=tie, magnitudes=(1e-4, 1e3, 1e6, 1e9))
    mon.event("big")
    seed_path = hidden
    raw = None
  else:
    keys = daggen.variable_keys(rng, rng.randint(0 if idx % 11 == 0 else 1, 5))
    values = ["A", "B", "C"][:rng.randint(1, 3)]
    ordering = values + ["M"]
    rng.shuffle(ordering)
    d = sysgen.random_dag(rng, keys, values, "M", ordering, need_keys=False,
                          junk=False, n_states=rng.randint(2, 8), tie_heavy=tie,
                          magnitudes=(1e-4, 1e3, 1e6, 1e9))
    if d is None:
      return
    raw = daggen.paths(d.dag.initial_state, d.dag.edges, d.dag.final_state)
    seed_path = rng.choice(d.paths)[1]
  cons = {k: seed_path[k] for k in d.keys if rng.random() < 0.5}
  items = list(cons.items())
  rng.shuffle(items)
  cons = dict(items)
  mon.note(dag=d.dag, constraints=cons)
  if d.keys and rng.random() < 0.05:
    bad = dict(cons)
    if rng.random() < 0.5:
      bad["no such variable" if isinstance(d.keys[0], str) else ("no",)] = "A"
    else:
      bad[d.keys[0]] = "no such value"
    mon.raises(KeyError, lambda: pd.constrained_best_path(d.packed, d.conv, bad),
               "constraint on something unknown was accepted")
    mon.event("unknown_rejected")
    return
  kept = dict(cons)
  path, assignment = pd.constrained_best_path(d.packed, d.conv, cons)
  mon.note(path=path, assignment=assignment)
  mon.eq(cons, kept, "constraints were modified")
  mon.event("solved")
  mon.event("constraints", len(cons))
  mon.event("missing_constraints", sum(v == missing for v in cons.values()))
  s = d.dag.initial_state
  seen = dict.fromkeys(d.keys, missing)
  known = {(e.source, e.dest): [] for e in d.dag.edges}
  for e in d.dag.edges:
    known[e.source, e.dest].append(e)
  for e in path:
    mon.check(e in known.get((e.source, e.dest), ()), "path uses an edge that does not exist", edge=e)
    mon.eq(e.source, s, "path is not connected")
    s = e.dest
    if e.required_assignment is not None:
      seen[e.required_assignment.key] = e.required_assignment.value
  mon.eq(s, d.dag.final_state, "path does not reach the final state")
  mon.eq(dict(assignment), seen, "assignment does not describe the path")
  for k, v in cons.items():
    mon.eq(seen[k], v, "constraint not satisfied", key=k)
  total = math.fsum(e.cost for e in path)
  if big:
    plain = d if isinstance(d, bigdag.StagedDag) else bigdag.BigDag(d.dag, d.packed, d.conv, d.keys, d.values, missing)
    mon.close(total, plain.best(cons), "path is not the cheapest allowed one",
              tol=1e-9)
    mon.key(repr(d.dag), cons)
    return
  cands = []
  for p in raw:
    a = dict.fromkeys(d.keys, "M")
    a.update(daggen.path_assignment(d.dag.edges, p))
    if all(a[k] == v for k, v in cons.items()):
      cands.append(daggen.path_cost(d.dag.edges, p))
  mon.event("alternatives", len(cands))
  mon.close(total, min(cands),
            "path is not the cheapest allowed one", tol=1e-9)
  if len(cands) > 1:
    mon.key(repr(d.dag), cons)
