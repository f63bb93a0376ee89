"""P24: the task wrappers build, price and solve the problem they document."""
import math

import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as cs
from rv import e2e
from rv import editgen
from rv import treegen

ID = "P24"
RULE = (
    "random contexts, suggestions, samples, weights and settings through both"
    " task wrappers; processed inputs compared with reference transforms, prices"
    " of random annotations and of the extracted solution with an independent"
    " alignment, bound with the cost of every (or sampled) annotation;"
    " nontrivial: distinct (setting, prototype, targets, weights)"
)
QUICK = dict(cases=2400, budget=110)
THOROUGH = dict(cases=60000, budget=800)
MIN_EVENTS = {"systems": 600, "priced": 800, "solved": 500, "regions_used": 100,
              "exits_used": 50, "weighted": 150, "exhaustive": 50, "cut": 100,
              "long_context": 20}
setup = e2e.setup
DIRS = [cs.SweepDirection.FORWARD, cs.SweepDirection.REVERSE]


def run_case(rng, mon, idx):
  st = e2e.Setting(rng)
  big = idx % 25 == 1
  n = rng.choice([4, 6, 9]) if big else rng.choice([1, 1, 2, 3])
  tree, ttrees, loc, context = e2e.random_trees(
      rng, n, "big" if big else rng.choice([1, 2, 3, 4]))
  if not big and rng.random() < 0.06:
    tree, ttrees, loc, context = e2e.long_context(rng, tree, ttrees, loc, context)
    mon.event("long_context")
  mon.note(setting=st.desc, tree=tree, targets=ttrees, location=loc)
  proto = st.prototype(tree, loc, mon)
  targets = [e2e.p09.expected(t, loc, mon) for t in ttrees]
  mon.event("cut", int(loc > 0))
  if treegen.count(proto) > (110 if big else 34):
    return
  mon.event("big", int(big))
  nodes = treegen.untup(tree)
  packed, info = st.wrapper.process_prototype_and_context(nodes, loc)
  mon.eq(treegen.tup(nodes), tree, "the parsed code was modified")
  mon.eq(e2e.unpack(packed), proto, "prototype with its options")
  mon.eq(info["context_prefix_contents"], context, "context")
  ptargets = []
  for t, want in zip(ttrees, targets):
    pt = st.wrapper.process_target(treegen.untup(t), loc)
    mon.eq(e2e.unpack(pt), want, "target")
    ptargets.append(pt)
  mon.check(treegen.text(proto) == treegen.text(tree)[loc:], "text of prototype")
  keys = editgen.all_keys(proto)
  if not keys:
    return
  weights = None
  if rng.random() < 0.4:
    weights = [rng.choice([0.25, 0.5, 1.0, 3.0]) for _ in range(n)]
    mon.event("weighted")
  w = weights or [1.0 / n] * n
  kw = {} if weights is None else dict(target_utility_scale_factors=weights)
  system = st.wrapper.build_system(packed, info, ptargets, **kw)
  mon.note(weights=w)
  mon.event("systems")
  mon.eq(len(system.data.dag_tables), n + 1, "subproblems")
  known = set(system.variable_keys)
  mon.key(st.desc, proto, targets, tuple(w))
  scale = sum(w) * (1 + sum(len(treegen.text(t)) for t in targets + [proto]))

  def price(a):
    for k, v in a.items():
      mon.check(k in known or v == editgen.NA, "decision not available", key=k)
    c = cs.clone_system(system)
    cs.constrain_system(c, {k: v for k, v in a.items() if k in known})
    vec, cost = cs.greedy_extract(c.data, rng.choice(DIRS))
    got = cs.assignments_from_assignment_vector(c, vec)
    mon.eq({k: got[k] for k in known}, {k: a[k] for k in known},
           "constrained solution")
    return cost

  seen = []
  for _ in range(2):
    a, _ = editgen.random_annotation(rng, proto)
    mon.check(editgen.why_malformed(proto, a) is None, "INTERNAL: generator")
    want = e2e.weighted(st, proto, targets, w, a)
    mon.note(annotation=a)
    mon.close(price(a), want, "price of an annotation", tol=1e-7)
    mon.event("priced")
    seen.append(want)
  res = cs.solve_system_with_sweeps(system.data, soft_timeout=20.0)
  best = None
  for d in DIRS:
    vec, cost = cs.greedy_extract(system.data, d)
    a = cs.assignments_from_assignment_vector(system, vec)
    mon.note(solution=a)
    mon.eq(set(a), known, "variables of the solution")
    if not math.isfinite(cost):
      mon.event("greedy_infeasible")
      continue
    why = editgen.why_malformed(proto, a)
    mon.check(why is None, "the solution is not well formed", why=why)
    want = e2e.weighted(st, proto, targets, w, {k: a.get(k, editgen.NA)
                                                for k in keys})
    mon.close(cost, want, "reported cost of the solution", tol=1e-7)
    seen.append(want)
    best = want if best is None else min(best, want)
    mon.event("solved")
    mon.event("regions_used", int(any(
        k.category == editgen.C.REGION_SHOULD_START and v == editgen.T
        for k, v in a.items())))
    mon.event("exits_used", int(editgen.exit_of(a) is not None))
  steps = res.objective_at_step
  if len(steps):
    if treegen.count(proto) <= 12:
      anns = editgen.annotations(proto, limit=80)
      if anns:
        seen += [e2e.weighted(st, proto, targets, w, a) for a in anns]
        mon.event("exhaustive")
        if best is not None and n == 1:
          opt = min(seen)
          mon.event("optimal" if abs(best - opt) < 1e-7 else "suboptimal")
    mon.check(steps[-1] <= min(seen) + 1e-7 * scale,
              "the bound exceeds the cost of an annotation", bound=steps[-1],
              cost=min(seen))
    # The bound is attained by the solution: it is certified optimal.
    mon.event("tight", int(best is not None and abs(best - steps[-1]) < 1e-6))
