"""P18: building, cloning, constraining, perturbing and solving systems."""
import math
import time
import io
import contextlib

import numba
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import packed_dags as pd
from rv import bigdag
from rv import daggen
from rv import sysgen

ID = "P18"
RULE = (
    "random histories of constrain / perturb / clone / commit / average / solve"
    " on random systems, with the penalty bookkeeping and the brute-force"
    " optimum tracked by the monitor; solver runs with a controlled clock;"
    " nontrivial: distinct (system, history) pairs"
)
QUICK = dict(cases=30000, budget=80)
THOROUGH = dict(cases=300000, budget=780)
MIN_EVENTS = {"built": 2000, "constrained": 1500, "perturbed": 1000,
              "cloned": 1000, "commits": 800, "commit_progress": 150,
              "commit_steps": 500,
              "solver_runs": 1000, "timeouts": 300, "plateaus": 300,
              "bad_systems": 300, "big": 40, "long_runs": 5,
              "still": 50}
INF = math.inf
D = solver.SweepDirection
STATUS = solver.PartialCommitmentStatus


def check_build(rng, mon, s):
  sys_ = s.system
  mon.event("built")
  mon.eq(list(sys_.variable_keys), s.keys, "system variables")
  mon.eq(list(sys_.variable_values), s.values, "system values")
  mon.eq((sys_.data.num_variable_keys, sys_.data.num_variable_values),
         (len(s.keys), len(s.values)), "system sizes")
  mon.eq(len(sys_.data.dag_tables), len(s.dags), "number of DAGs")
  for i, k in enumerate(s.keys):
    for j, d in enumerate(s.dags):
      want = d.keys.index(k) if k in d.keys else -1
      mon.eq(int(sys_.data.dag_variable_index_map[i, j]), want, "index map")
  s.check_penalties(mon, sys_.data, infeasible_ok=False)
  if s.given is not None:
    mon.eq(list(s.props), list(s.given), "the caller's update proportions")


def bad_system(rng, mon):
  mon.event("bad_systems")
  if rng.random() < 0.3:
    mon.raises(ValueError, lambda: solver.make_system([]), "empty system built")
    return
  keys = daggen.variable_keys(rng, 2)
  a = sysgen.random_dag(rng, keys, ["A", "B"], "M", ["A", "B", "M"], junk=False)
  b = sysgen.random_dag(rng, keys, ["A", "B"], "M",
                        rng.choice([["B", "A", "M"], ["A", "B", "M", "Z"]]),
                        junk=False)
  if a is None or b is None:
    return
  dags = [(a.packed, a.conv), (b.packed, b.conv)]
  if rng.random() < 0.5:
    dags.insert(0, dags[0])
  mon.raises(ValueError, lambda: solver.make_system(dags),
             "DAGs with different values combined")


def commit(rng, mon, s, data, hist):
  """Partial commitment against a brute-force rendition of its rule."""
  direction = rng.choice([D.FORWARD, D.REVERSE])
  target = rng.choice([0.3, 0.5, 1.0, 1.5])
  strict = rng.choice([0.0, 0.3, 0.7, 1.0, 1.3])
  # (A coarse notion of equality sends more systems to greedy extraction.)
  eps = rng.choice([None, None, None, 1e-6, 0.5, 3.0])
  hist.append(("commit", str(direction), target, strict, eps))
  agg = np.array([[s.marginals(data, k)[v] for v in s.values] for k in s.keys])
  before = sysgen.snapshot(data)
  opt0 = s.optimum() if s.exact else None
  with contextlib.redirect_stdout(io.StringIO()):
    status = solver.partially_commit(
        data, direction, target, strict, verbose=rng.random() < 0.1,
        **({} if eps is None else {"epsilon": eps}))
  eps = eps or 1e-6
  mon.event("commits")
  after = sysgen.snapshot(data)
  replay_commit(mon, s, before, after, agg, direction, target, strict, eps)
  newly = 0
  for i, k in enumerate(s.keys):
    for j, v in enumerate(s.values):
      old, new = float(before[1][i, j]), float(after[1][i, j])
      if new != old:
        mon.check(math.isinf(new) and new > 0, "commit changed a cost", key=k)
        if math.isfinite(agg[i, j]):
          newly += 1
        s.extra[k][v] = INF
      for n, d in enumerate(s.dags):
        if k in d.keys:
          po = float(before[0][n][d.keys.index(k), j])
          pn = float(after[0][n][d.keys.index(k), j])
          if new != old:
            mon.check(pn == INF, "forbidden choice still allowed in a DAG")
          else:
            mon.check(pn == po or (math.isinf(pn) and math.isinf(new)),
                      "commit changed a penalty", key=k, value=v)
  if status == STATUS.NEEDS_GREEDY_EXTRACT:
    mon.check(sysgen.same_snapshot(before, after), "nothing was to be changed")
  elif status == STATUS.STUCK:
    if s.exact:
      mon.close(s.optimum(), opt0, "stuck although it changed the problem")
  else:
    mon.event("commit_progress")
    mon.check(newly > 0, "claims progress without forbidding anything")
  if np.all(np.isfinite(agg)):
    bound = np.max(np.min(agg, axis=1))
    thr = np.quantile(agg, 1 - target / len(s.values))
    if abs(thr - bound - eps) > 1e-4:
      mon.eq(status == STATUS.NEEDS_GREEDY_EXTRACT, bool(thr < bound + eps),
             "whether greedy extraction is needed", threshold=thr, bound=bound)
  # Something finite must remain if there was something finite.
  if np.all(np.isfinite(np.min(agg, axis=1))):
    for i, k in enumerate(s.keys):
      mon.check(any(math.isfinite(s.extra[k][v]) for v in s.values)
                or not np.any(np.isfinite(before[1][i])),
                "commit forbade every value of a variable", key=k)


def replay_commit(mon, s, before, after, agg, direction, target, strict, eps):
  """The documented rule, step by step, on brute-force marginals.

  Says nothing where a decision depends on rounding.
  """
  prepped = np.where(np.isinf(agg), -INF, agg)
  with np.errstate(all="ignore"):
    thr = float(np.quantile(prepped, 1 - target / len(s.values)))
  bound = float(np.max(np.min(agg, axis=1)))
  if not math.isfinite(thr) or not math.isfinite(bound):
    return
  if thr <= bound + eps + 1e-4:
    return  # judged by the caller
  gap = (thr - bound) * strict
  pens = [np.array(x, dtype=float) for x in before[0]]

  def marginals(key):
    out = np.zeros(len(s.values))
    for i, d in enumerate(s.dags):
      if not s.exact:
        m, low = d.all_marginals(pens[i])
        out += m[d.keys.index(key)] if key in d.keys else low
        continue
      best = np.full(len(s.values), INF)
      for c, a in d.paths:
        c = c + sum(pens[i][d.keys.index(k), s.values.index(v)]
                    for k, v in a.items())
        if key in a:
          j = s.values.index(a[key])
          best[j] = min(best[j], c)
        else:
          best = np.minimum(best, c)
      out += best
    return out

  n = len(s.keys)
  for i in (range(n) if direction == D.FORWARD else range(n - 1, -1, -1)):
    k = s.keys[i]
    m = marginals(k)
    bound = max(bound, float(np.min(m)))
    if not math.isfinite(bound):
      return
    for j in range(len(s.values)):
      now = math.isinf(float(after[1][i, j]))
      bad = m[j] > bound + gap
      if abs(m[j] - (bound + gap)) < 1e-6 * (1 + abs(bound) + abs(gap)):
        bad = now  # up to rounding
      mon.eq(now, bool(bad or math.isinf(float(before[1][i, j]))),
             "whether a choice is forbidden", key=k, value=s.values[j],
             marginals=m, bound=bound, gap=gap)
      mon.event("commit_steps")
      if bad:
        for q, d in enumerate(s.dags):
          if k in d.keys:
            pens[q][d.keys.index(k), j] = INF


class Clock:
  """Replaces the solver's clock; every reading advances it."""

  def __init__(self, step):
    self.t, self.step = 1000.0, step

  def __call__(self):
    self.t += self.step
    return self.t


def run_solver(rng, mon, s, data, hist, slow=False):
  n = len(s.keys)
  real = time.perf_counter
  kw = {}
  mode = 0 if slow else rng.randrange(3)
  if slow:
    kw = dict(tolerance=rng.choice([1e-6, 1e-7, 1e-9]), soft_timeout=6.0)
  elif mode:
    kw["soft_timeout"] = rng.choice([0.0, -1.0, 0.5, 1.5, 2.5, 4.5])
    step = rng.choice([1.0, 1.0, 0.2])
    time.perf_counter = clock = Clock(step)
  if not slow and rng.random() < 0.4:
    kw["tolerance"] = rng.choice([1e-5, 1e-3, 0.5])
  tol = kw.get("tolerance", 1e-5)
  limit = kw.get("soft_timeout", INF)
  hist.append(("solve", kw))
  try:
    r = solver.solve_system_with_sweeps(data, **kw)
  finally:
    time.perf_counter = real
  mon.event("solver_runs")
  sweeps = len(r.objective_at_sweep)
  mon.eq((len(r.steps_at_sweep), len(r.time_at_sweep)), (sweeps, sweeps),
         "per-sweep records")
  mon.eq(len(r.variable_at_step), len(r.objective_at_step), "per-step records")
  mon.check(sweeps >= 1, "no sweep was run")
  want_vars = []
  ends = []
  for i in range(sweeps):
    if i % 2:
      want_vars += list(range(n - 1, 0, -1))
    else:
      want_vars += list(range(max(n - 1, 1)))
    ends.append(len(want_vars))
  mon.event("one_variable_runs", int(n == 1))
  mon.eq([int(x) for x in r.variable_at_step], want_vars, "order of the updates")
  mon.eq([int(x) for x in r.steps_at_sweep], ends,
         "steps per sweep")
  obj = [float(x) for x in r.objective_at_step]
  for i in range(sweeps):
    mon.eq(float(r.objective_at_sweep[i]),
           obj[ends[i] - 1], "objective of a sweep")
  times = [float(x) for x in r.time_at_sweep]
  mon.check(all(x >= 0 for x in times[:1])
            and all(a <= b for a, b in zip(times, times[1:])), "sweep times")
  late = [i for i, t in enumerate(times) if t > limit]
  mon.check(not late or late == [sweeps - 1],
            "kept sweeping after the timeout", times=times, limit=limit)
  # (The solver may read its clock again after logging a sweep.)
  timed_out = bool(late) or bool(
      mode and clock.t - clock.step - 1000.0 > limit)
  mon.event("timeouts", int(timed_out))
  # Stops exactly after the first round without an improvement.
  prev = -INF
  rounds = []
  for i in range(0, sweeps, 2):
    change = False
    for x in obj[ends[i - 1] if i else 0:ends[min(i + 2, sweeps) - 1]]:
      if x - prev > tol:
        change = True
      prev = x
    rounds.append(change)
  mon.check(all(rounds[:-1]), "went on after a round without improvement",
            rounds=rounds)
  mon.eq(bool(r.reached_plateau), not rounds[-1], "plateau flag")
  if not timed_out:
    mon.check(not rounds[-1], "stopped although it was still improving")
    mon.eq(sweeps % 2, 0, "stopped in the middle of a round")
  mon.event("plateaus", int(bool(r.reached_plateau)))
  mon.event("long_runs", int(sweeps > 100))


def run_case(rng, mon, idx):
  if idx % 10 == 0:
    bad_system(rng, mon)
    return
  if idx % 600 == 301:
    s = bigdag.slow_system(rng)
    hist = []
    mon.note(dags=[d.dag for d in s.dags], values=s.values, history=hist)
    check_build(rng, mon, s)
    run_solver(rng, mon, s, s.system.data, hist, slow=True)
    s.check_penalties(mon, s.system.data)
    mon.key([repr(d.dag) for d in s.dags])
    return
  if idx % 1000 == 501:
    s = bigdag.wide_system(rng)
    mon.event("wide")
  elif idx % 100 == 1:
    s = bigdag.random_system(rng)
    mon.event("big")
  else:
    s = sysgen.random_system(
        rng, magnitudes=(1e-3, 1e3) if rng.random() < 0.2 else ())
  if s is None:
    return
  if rng.random() < 0.2:
    # The typed-list flavour of the construction.
    dags = []
    for d in s.dags:
      dags.append((d.packed, d.conv._replace(
          variable_keys=numba.typed.List(d.conv.variable_keys),
          variable_values=numba.typed.List(d.conv.variable_values))))
    s.system = solver.make_system(dags)
  hist = []
  mon.note(dags=[d.dag for d in s.dags], values=s.values, history=hist)
  check_build(rng, mon, s)
  committed = False
  for _ in range(rng.randint(1, 5)):
    sys_, data = s.system, s.system.data
    op = rng.choice(["constrain", "perturb", "clone", "commit", "solve",
                     "average", "unknown"])
    if op == "constrain":
      cons = {k: rng.choice(s.values) for k in s.keys if rng.random() < 0.4}
      pen = rng.choice([INF, None, 3.0, 1e6])
      hist.append((op, cons, pen))
      if pen is None:
        solver.constrain_system(sys_, cons)
        pen = INF
      else:
        solver.constrain_system(sys_, cons, pen)
      for k, v in cons.items():
        for w in s.values:
          if w != v:
            s.extra[k][w] += pen
      mon.event("constrained")
    elif op == "unknown":
      before = sysgen.snapshot(data)
      cons = [(k, rng.choice(s.values)) for k in s.keys if rng.random() < 0.5]
      bad = rng.choice([(s.keys[0], "no such value"),
                        ("no such variable", s.values[0])])
      cons = [c for c in cons if c[0] != bad[0]]
      cons.insert(rng.randint(0, len(cons)), bad)
      mon.raises(KeyError, lambda: solver.constrain_system(  # pylint: disable=cell-var-from-loop
          sys_, dict(cons)), "unknown constraint accepted")  # pylint: disable=cell-var-from-loop
      mon.event("refused_constraints")
      mon.check(sysgen.same_snapshot(before, sysgen.snapshot(data)),
                "refused constraint left a trace")
    elif op == "perturb":
      scale = rng.choice([1.0, 0.01, 5.0, 1e-8, 0.0])
      seed = rng.choice([rng.randrange(1000), 0, None])
      hist.append((op, scale, seed))
      old = np.copy(data.extra_unary_costs)
      twin = solver.clone_system(sys_)
      generator = np.random.get_state()[1].copy()
      solver.break_symmetry_randomly(sys_, scale, seed)
      mon.check(np.array_equal(generator, np.random.get_state()[1]),
                "perturbing one system reseeded everybody's generator")
      new = data.extra_unary_costs
      for i, k in enumerate(s.keys):
        for j, v in enumerate(s.values):
          if math.isfinite(old[i, j]):
            delta = new[i, j] - old[i, j]
            slack = 1e-12 * (1 + abs(old[i, j]))
            mon.check(-slack <= delta <= scale + slack, "noise range",
                      delta=delta, scale=scale)
          s.extra[k][v] = float(new[i, j])
      if seed is not None:
        solver.break_symmetry_randomly(twin, scale, seed)
        mon.check(np.allclose(twin.data.extra_unary_costs, new, equal_nan=True),
                  "same seed, different noise")
      if len(s.keys) * len(s.values) > 3:
        fin = np.isfinite(old)
        if scale == 0.0:
          mon.event("still")
        elif fin.sum() > 3 and scale > 1e-3:
          mon.check(len(set((new - old)[fin].round(12))) > 1, "noise is constant")
      mon.event("perturbed")
    elif op == "clone":
      hist.append((op,))
      twin = solver.clone_system(sys_)
      before = sysgen.snapshot(data)
      mon.check(sysgen.same_snapshot(before, sysgen.snapshot(twin.data)),
                "clone differs")
      bound = s.lagrangian(data)
      k = rng.choice(s.keys)
      solver.constrain_system(twin, {k: rng.choice(s.values)}, 5.0)
      solver.solve_system_with_sweeps(twin.data)
      mon.check(sysgen.same_snapshot(before, sysgen.snapshot(data)),
                "changing a clone changed the original")
      i = rng.randrange(len(s.keys))
      got = solver.system_min_marginals(data, i)
      want = s.marginals(data, s.keys[i])
      for v in s.values:
        mon.close(got[s.values.index(v)], want[v],
                  "changing a clone changed the original's answers")
      del bound
      mon.event("cloned")
    elif op == "commit":
      commit(rng, mon, s, data, hist)
      committed = True
    elif op == "solve":
      run_solver(rng, mon, s, data, hist)
    else:
      hist.append((op,))
      solver.min_marginal_average(data, rng.randrange(len(s.keys)))
    s.check_penalties(mon, data)
    opt = s.upper()
    low = s.lagrangian(data)
    if not math.isinf(opt):
      mon.check(low <= opt + 1e-6 * (1 + abs(opt)),
                "relaxed cost exceeds the optimum", low=low, optimum=opt)
  mon.key([repr(d.dag) for d in s.dags], hist)
