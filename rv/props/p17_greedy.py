"""P17: greedy extraction reports the true cost of a complete solution."""
import math

import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from rv import bigdag
from rv import sysgen
from rv.props import p16_dual_bound as p16

ID = "P17"
RULE = (
    "random systems, optionally solved or perturbed first; both directions; the"
    " reported cost is recomputed by brute force, each choice is checked to be"
    " the best given the previous ones; nontrivial: distinct systems of 2+ DAGs"
)
QUICK = dict(cases=40000, budget=75)
THOROUGH = dict(cases=400000, budget=780)
MIN_EVENTS = {"extracted": 4000, "choices": 8000, "finite": 2500,
              "infinite": 100, "optimal": 1500, "solved_first": 1000, "big": 40}
D = solver.SweepDirection


def run_case(rng, mon, idx):
  if idx % 1000 == 501:
    s = bigdag.wide_system(rng)
    mon.event("wide")
  elif idx % 100 == 1:
    s = bigdag.random_system(rng, tie_heavy=rng.random() < 0.2)
    mon.event("big")
  else:
    s = sysgen.random_system(
        rng, tie_heavy=rng.random() < 0.2,
        magnitudes=(1e-3, 1e3) if rng.random() < 0.2 else ())
  if s is None:
    return
  mon.note(dags=[d.dag for d in s.dags], values=s.values)
  p16.perturb(rng, mon, s)
  data = s.system.data
  if rng.random() < 0.3:
    for _ in range(rng.randint(1, 4)):
      solver.min_marginal_average(data, rng.randrange(len(s.keys)))
  elif rng.random() < 0.4:
    solver.solve_system_with_sweeps(data)
    mon.event("solved_first")
  if s.exact:
    opt = s.optimum()
  elif len(s.dags) == 1:
    opt = s.dags[0].minimum(
        np.array([[s.extra[k][v] for v in s.values] for k in s.keys]))
  else:
    opt = -math.inf  # not known
  if len(s.dags) > 1:
    mon.key([repr(d.dag) for d in s.dags], s.extra)
  for direction in rng.sample([D.FORWARD, D.REVERSE], 2):
    before = sysgen.snapshot(data)
    vector, cost = solver.greedy_extract(data, direction)
    mon.event("extracted")
    mon.note(direction=str(direction), vector=list(vector), cost=cost)
    mon.check(sysgen.same_snapshot(before, sysgen.snapshot(data)),
              "extraction modified the system")
    mon.eq(len(vector), len(s.keys), "one choice per variable")
    mon.check(all(0 <= int(v) < len(s.values) for v in vector), "choice range")
    a = solver.assignments_from_assignment_vector(s.system, vector)
    mon.eq(a, {k: s.values[int(v)] for k, v in zip(s.keys, vector)},
           "assignment of the vector")
    true = s.cost(a)
    mon.close(cost, true, "reported cost is not the cost of the solution",
              assignment=a)
    mon.event("infinite" if math.isinf(true) else "finite")
    if not math.isinf(true):
      mon.check(true >= opt - 1e-6, "better than the optimum?!")
      mon.event("optimal", int(true <= opt + 1e-6))
    if len(s.dags) == 1 and not math.isinf(opt):
      mon.close(true, opt, "one DAG: greedy solution is not optimal")
    fixed = {}
    order = s.keys if direction == D.FORWARD else s.keys[::-1]
    for k in order:
      want = s.marginals(data, k, fixed)
      best = min(want.values())
      mon.close(want[a[k]], best,
                "a choice is not the best one given the earlier choices",
                key=k, marginals=want, chosen=a[k])
      fixed[k] = a[k]
      mon.event("choices")
