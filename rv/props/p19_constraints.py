"""P19: the constraint DAG admits exactly the well-formed annotations."""
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import constraint_dags
from rv import daggen
from rv import editgen
from rv import treegen
from rv.props import p21_edit_script as p21

ID = "P19"
RULE = (
    "random prototypes with region and exit markers; the set of all annotations"
    " admitted by the DAG (all paths enumerated) compared with an independent"
    " enumeration of the well-formed ones (large prototypes: sampled and"
    " corrupted annotations); nontrivial: distinct prototypes with"
    " 2+ annotations"
)
QUICK = dict(cases=50000, budget=75)
THOROUGH = dict(cases=400000, budget=780)
MIN_EVENTS = {"prototypes": 3000, "annotations": 30000, "with_exit": 5000,
              "in_region": 5000, "constrained": 2000, "refused": 1000, "exit_edges": 5000,
              "big": 40}


def setup():
  global BUILDERS, PACKERS
  BUILDERS = [constraint_dags.make_constraint_dag_builder(with_numba=False),
              constraint_dags.make_constraint_dag_builder(with_numba=True)]
  PACKERS = [lambda d: constraint_dags.pack_dag(d)]
  p, conv = constraint_dags.make_specialized_dag_packer()
  PACKERS.append(lambda d: p(conv(d)))


def pinned(packed, conv, a):
  """Cost of an annotation in the packed form."""
  vals = list(conv.variable_values)
  memo = pd.empty_unpenalized_table(packed)
  for k, v in a.items():
    if k in conv.variable_key_index_from_key:
      pen = np.full((len(vals),), np.inf)
      pen[vals.index(v)] = 0
      pd.set_penalties(memo, conv.variable_key_index_from_key[k], pen)
    elif v != editgen.NA:
      return np.inf
  return pd.compute_minimal_cost(memo)


def big_case(rng, mon):
  """Large prototypes: sampled annotations, corrupted ones, sampled paths."""
  t = editgen.big_prototype(rng, size=rng.choice([20, 40]))
  mon.note(prototype=t)
  keys = editgen.all_keys(t)
  if not keys:
    return
  flavour = rng.randrange(2)
  dag = gsd.prune_to_reachable(BUILDERS[flavour](editgen.pack(t)))
  packed, conv = PACKERS[flavour](dag)
  mon.check(all(e.cost == 0 for e in dag.edges), "constraints have a cost")
  for _ in range(4):
    a, _ = editgen.random_annotation(rng, t, p_exit=rng.choice([0.0, 0.05]))
    mon.eq(pinned(packed, conv, a), 0, "a well-formed annotation is not free",
           annotation=a)
    mon.event("constrained")
    for _ in range(4):
      b = dict(a)
      for k in rng.sample(keys, rng.choice([1, 1, 2])):
        b[k] = rng.choice(list(editgen.V))
      why = editgen.why_malformed(t, b)
      got = pinned(packed, conv, b)
      mon.eq(got, 0 if why is None else np.inf,
             "whether an annotation is admitted", annotation=b, why=why)
      mon.event("refused", int(why is not None))
  for _ in range(4):
    a = dict.fromkeys(keys, editgen.NA)
    for e in p21.random_walk(rng, dag):
      if e.required_assignment is not None:
        a[e.required_assignment.key] = e.required_assignment.value
    why = editgen.why_malformed(t, a)
    mon.check(why is None, "admits an annotation that is not well formed",
              annotation=a, why=why)
    mon.event("walks")
  mon.key(t)
  mon.event("big")


def run_case(rng, mon, idx):
  if idx % 100 == 1:
    big_case(rng, mon)
    return
  t = editgen.prototype(rng, max_nodes=rng.choice([2, 4, 7]))
  mon.note(prototype=t)
  want = editgen.annotations(t)
  if want is None or not want:
    return
  keys = editgen.all_keys(t)
  st = editgen.pack(t)
  flavour = rng.randrange(2)
  dag = BUILDERS[flavour](st)
  mon.eq(treegen.tup(editgen.psn.unpack(st)), t, "prototype was modified")
  mon.check(all(e.cost == 0 for e in dag.edges), "constraints have a cost")
  for e in dag.edges:
    a = e.required_assignment
    leaves = (a is not None and a.value == editgen.T
              and a.key.category == editgen.C.SHOULD_EARLY_EXIT)
    mon.eq(bool(e.info is not None and e.info.is_early_exit), leaves,
           "edge marked as an early exit")
    mon.event("exit_edges", int(leaves))
  pruned = gsd.prune_to_reachable(dag)
  ps = daggen.paths(pruned.initial_state, pruned.edges, pruned.final_state,
                    limit=8000)
  if ps is None:
    return
  got = set()
  for p in ps:
    a = dict.fromkeys(keys, editgen.NA)
    for k, v in daggen.path_assignment(pruned.edges, p).items():
      mon.check(k in a, "decision about something else", key=k)
      a[k] = v
    got.add(tuple(sorted(a.items())))
  expect = {tuple(sorted(a.items())) for a in want}
  mon.event("prototypes")
  mon.event("annotations", len(expect))
  mon.event("with_exit", sum(
      any(v == editgen.T and k.category == editgen.C.SHOULD_EARLY_EXIT
          for k, v in a) for a in expect))
  mon.event("in_region", sum(
      any(v == editgen.T and k.category == editgen.C.NODE_IN_REGION
          for k, v in a) for a in expect))
  extra = sorted(got - expect)[:2]
  lost = sorted(expect - got)[:2]
  mon.check(not extra, "admits an annotation that is not well formed",
            annotation=extra)
  mon.check(not lost, "refuses a well-formed annotation", annotation=lost)
  if len(expect) > 1:
    mon.key(t)
  # The packed form agrees: pinning an annotation costs 0, another one inf.
  if not keys:
    return
  packed, conv = PACKERS[flavour](pruned)
  vals = list(conv.variable_values)
  mon.eq(vals, list(editgen.V), "values")

  def cost(a):
    return pinned(packed, conv, a)

  a = rng.choice(want)
  mon.eq(cost(a), 0, "a well-formed annotation is not free", annotation=a)
  mon.event("constrained")
  b = dict(a)
  k = rng.choice(keys)
  b[k] = rng.choice([v for v in editgen.V if v != a[k]])
  if tuple(sorted(b.items())) not in expect:
    mon.check(np.isinf(cost(b)), "a malformed annotation is admitted",
              annotation=b)
    mon.event("refused")
