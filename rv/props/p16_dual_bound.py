"""P16: the dual bound never exceeds the true optimum and never gets worse."""
import math

import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from rv import bigdag
from rv import sysgen

ID = "P16"
RULE = (
    "random systems of 1-4 DAGs; every averaging step of random schedules and of"
    " the sweep solver observed; bound compared with the brute-force optimum and"
    " with an enumeration of the penalized paths (large systems: a planted"
    " solution and dynamic programming); nontrivial: distinct systems"
    " of 2+ DAGs sharing a variable"
)
QUICK = dict(cases=40000, budget=75)
THOROUGH = dict(cases=400000, budget=780)
MIN_EVENTS = {"steps": 15000, "improved": 1500, "solved": 1500,
              "sweep_steps": 5000, "solvable": 1500, "unsolvable": 100,
              "tight": 1000, "marginals": 3000, "shares": 5000, "big": 100}
INF = math.inf


def perturb(rng, mon, s):
  """Random costs and constraints added through the public operations."""
  for _ in range(rng.choice([0, 0, 1, 2])):
    k = rng.choice(s.keys)
    v = rng.choice(s.values)
    pen = rng.choice([INF, 2.5, 10.0])
    solver.constrain_system(s.system, {k: v}, pen)
    for w in s.values:
      if w != v:
        s.extra[k][w] += pen


def run_case(rng, mon, idx):
  if idx % 1000 == 501:
    s = bigdag.wide_system(rng)
    mon.event("wide")
  elif idx % 100 == 1:
    s = bigdag.random_system(rng, tie_heavy=rng.random() < 0.15)
    mon.event("big")
  else:
    s = sysgen.random_system(
        rng, tie_heavy=rng.random() < 0.15,
        magnitudes=(1e-3, 1e3) if rng.random() < 0.2 else ())
  if s is None:
    return
  mon.note(dags=[d.dag for d in s.dags], values=s.values)
  perturb(rng, mon, s)
  mon.note(extra=s.extra)
  data = s.system.data
  opt = s.upper()
  mon.event("unsolvable" if math.isinf(opt) else "solvable")
  shared = any(sum(k in d.keys for d in s.dags) > 1 for k in s.keys)
  if shared:
    mon.key([repr(d.dag) for d in s.dags], s.extra)
  tol = 1e-6
  bound = s.lagrangian(data)
  steps = []
  mon.note(steps=steps)
  if rng.random() < 0.6:
    for _ in range(rng.randint(1, 8)):
      i = rng.randrange(len(s.keys))
      steps.append(i)
      if rng.random() < 0.3:
        got = solver.system_min_marginals(data, i)
        want = s.marginals(data, s.keys[i])
        for v in s.values:
          mon.close(got[s.values.index(v)], want[v],
                    "aggregated min-marginals", key=s.keys[i], value=v)
        mon.event("marginals")
      new = float(solver.min_marginal_average(data, i))
      mon.event("steps")
      mon.check(new == new, "bound is not a number")
      mon.check(new <= opt + tol * (1 + abs(opt)) if not math.isinf(opt)
                else True, "bound exceeds the optimum", bound=new, optimum=opt)
      mon.check(new >= bound - tol * (1 + abs(bound))
                if not math.isinf(bound) else new == bound,
                "bound got worse", bound=new, previous=bound)
      mon.event("improved", int(new > bound + 1e-6))
      mon.close(new, s.lagrangian(data),
                "reported bound is not the cost of the relaxed problem")
      s.check_penalties(mon, data)
      if rng.random() < 0.3:
        s.check_shares(mon, data, i)
      bound = new
  if rng.random() < 0.6:
    res = solver.solve_system_with_sweeps(data)
    mon.event("solved")
    mon.event("sweep_steps", len(res.objective_at_step))
    prev = bound
    for x in [float(x) for x in res.objective_at_step]:
      mon.check(x == x, "bound is not a number")
      if not math.isinf(opt):
        mon.check(x <= opt + tol * (1 + abs(opt)), "bound exceeds the optimum",
                  bound=x, optimum=opt)
      if not math.isinf(prev):
        mon.check(x >= prev - tol * (1 + abs(prev)), "bound got worse",
                  bound=x, previous=prev)
      else:
        mon.eq(x, prev, "bound got worse")
      prev = x
    mon.close(prev, s.lagrangian(data),
              "final bound is not the cost of the relaxed problem")
    s.check_penalties(mon, data)
    bound = prev
  if len(s.dags) == 1 and not math.isinf(opt):
    if not s.exact:
      pen = np.array([[s.extra[k][v] for v in s.values] for k in s.keys])
      opt = s.dags[0].minimum(pen)
    mon.close(bound, opt, "bound of a single DAG is not its minimal cost")
  if not math.isinf(opt) and abs(bound - opt) < 1e-6:
    mon.event("tight")
