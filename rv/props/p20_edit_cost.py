"""P20: the edit DAG prices every annotation at the true cheapest edit."""
import math

from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import edit_dags
from rv import editgen
from rv import treegen

ID = "P20"
RULE = (
    "random prototypes, targets, prices and annotations; the DAG's cheapest path"
    " under the annotation compared with an independent alignment of the two"
    " trees; nontrivial: distinct (prototype, target, annotation, prices) with"
    " at least one token on both sides"
)
QUICK = dict(cases=25000, budget=80)
THOROUGH = dict(cases=250000, budget=780)
MIN_EVENTS = {"priced": 3000, "exits": 250, "regions": 500, "with_match": 1000,
              "free_optimum": 500, "big": 40}


def setup():
  global BUILDERS, PACKERS
  BUILDERS = [edit_dags.make_edit_dag_builder(with_numba=False),
              edit_dags.make_edit_dag_builder(with_numba=True)]
  p, conv = edit_dags.make_specialized_dag_packer()
  PACKERS = [edit_dags.pack_dag, lambda d: p(conv(d))]


def build(rng, p, t, prm):
  fl = rng.randrange(2)
  dag, render = BUILDERS[fl](editgen.pack(p), editgen.pack(t), prm)
  pruned = gsd.prune_to_reachable(dag)
  return dag, render, pruned, PACKERS[fl](pruned)


def random_pair(rng, n=None):
  p = editgen.prototype(rng, max_nodes=n or rng.choice([2, 4, 6, 8]),
                        regions=rng.random() < 0.85, exits=rng.random() < 0.5)
  return named(rng, p, random_target(rng, p))


def named(rng, p, t):
  names = rng.choice(editgen.TYPE_NAMES)
  return editgen.retype(names, p), editgen.retype(names, t)


def random_target(rng, p):
  base = editgen.strip(p)
  if rng.random() < 0.2:
    base = editgen.strip(editgen.prototype(rng, max_nodes=5))
  return editgen.mutate(rng, base, rng.choice([0.0, 0.2, 0.5]))


def shifted_pair(rng):
  """The same things, far from each other in their sequences."""
  p = editgen.prototype(rng, max_nodes=6, regions=rng.random() < 0.8,
                        exits=rng.random() < 0.3)
  p = p + (("grp", rng.choice("TU"), editgen.prototype(rng, max_nodes=4)),)
  t = editgen.mutate(rng, editgen.strip(p), rng.choice([0.0, 0.1]))
  pad = tuple(("tok", f"pad{q}", "T") for q in range(rng.choice([12, 24, 45])))
  if rng.random() < 0.5:
    return named(rng, p, pad + t)
  return named(rng, pad + p, t)


def big_pair(rng, huge=False):
  if rng.random() < 0.25:
    return shifted_pair(rng)
  kw = dict(regions=rng.random() < 0.85, exits=rng.random() < 0.5)
  p = editgen.big_prototype(rng, size=rng.choice([50, 70] if huge else [16, 30]),
                            **kw)
  t = random_target(rng, p)
  if rng.random() < 0.2:
    t = t + random_target(rng, p)
  return named(rng, p, t)


def run_case(rng, mon, idx):
  big = idx % 100 == 1
  huge = idx % 700 == 1
  p, t = big_pair(rng, huge) if big else random_pair(rng)
  mon.event("big", int(big))
  mon.event("huge", int(huge))
  prm = editgen.params(rng)
  mon.note(prototype=p, target=t, parameters=prm)
  _, _, pruned, (packed, conv) = build(rng, p, t, prm)
  known = conv.variable_key_index_from_key
  for _ in range(3):
    r = editgen.random_decisions(rng, p)
    if r is None:
      continue
    a, exited = r
    mon.note(annotation=a)
    for k, v in a.items():
      mon.check(k in known or v == editgen.NA, "decision not available", key=k)
    cons = {k: v for k, v in a.items() if k in known}
    path, got_a = pd.constrained_best_path(packed, conv, cons)
    got = math.fsum(e.cost for e in path)
    want = editgen.edit_cost(p, t, a, exited, prm, slow=not big)
    mon.close(got, want, "cost of the annotation", tol=1e-9)
    mon.event("priced")
    mon.event("exits", int(exited is not None))
    mon.event("regions", int(editgen.T in a.values()))
    kept = sum(e.info is not None
               and e.info.edit_action == edit_dags.EditAction.KEEP for e in path)
    mon.event("with_match", int(kept > 0))
    if t and p:
      mon.key(p, t, sorted(a.items()), prm)
  # Free optimum over well-formed annotations.
  if idx % 3 == 0:
    anns = editgen.annotations(p, limit=60)
    if anns and known:
      best = INF = math.inf
      for a in anns:
        ex = next((k.prototype_preorder_index for k, v in a.items()
                   if k.category == editgen.C.SHOULD_EARLY_EXIT
                   and v == editgen.T), None)
        best = min(best, editgen.edit_cost(p, t, a, ex, prm))
      memo = pd.empty_unpenalized_table(packed)
      free = float(pd.compute_minimal_cost(memo))
      mon.check(free <= best + 1e-9, "a well-formed annotation beats the DAG",
                free=free, best=best)
      mon.event("free_optimum")
