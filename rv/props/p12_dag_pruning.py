"""P12: DAG construction and pruning keep exactly the usable paths."""
import math

import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from rv import bigdag
from rv import daggen
from rv import overloads

ID = "P12"
RULE = (
    "random edge histories (in and out of order) and random DAGs with dead"
    " ends, unreachable parts, infinite edges and colliding state hashes;"
    " every path enumerated before and after pruning, for many scratch sizes"
    " (DAGs of up to 300 states: reachability instead of enumeration);"
    " nontrivial: distinct DAGs with 2+ usable paths"
)
QUICK = dict(cases=40000, budget=70)
THOROUGH = dict(cases=1500000, budget=780)
MIN_EVENTS = {"rejected": 2000, "accepted": 10000, "pruned": 5000,
              "removed_edges": 5000, "rewritten": 5000, "no_path": 200,
              "collisions": 2000, "tracebacks": 500, "compiled_adds": 2000, "big": 100}


def build_history(rng, mon):
  """Adds edges in random order; compares accept/reject with the rule."""
  n = rng.randint(2, 6)
  names = daggen.state_names(rng, n)
  d = gsd.partial_state_dag_starting_from(names[0])
  model = []
  sources = set()
  tb = rng.random() < 0.2
  for k in range(rng.randint(1, 14)):
    u, v = rng.choice(names), rng.choice(names)
    if rng.random() < 0.6 and names.index(u) > names.index(v):
      u, v = v, u
    info = rng.choice([None, k, {"a": k}, {}, "x"])
    c = math.inf if rng.random() < 0.1 else daggen.cost(rng)
    e = gsd.Edge(u, v, c,
                 rng.choice([None, gsd.SharedVariableAssignment("k", 1)]), info)
    ok = u != v and v not in sources
    mon.note(history=list(d.edges), adding=e)
    if ok:
      if tb:
        with gsd.adding_edge_tracebacks():
          gsd.partial_state_dag_add_edge(d, e)
        mon.event("tracebacks")
        got = d.edges[-1]
        mon.eq(got[:4], e[:4], "traceback mode changed the edge")
        mon.check(got.info["traceback"].filename == __file__,
                  "traceback is not the caller", info=got.info)
        kept = dict(got.info)
        mon.eq(gsd.strip_traceback_from_edge(got), e, "stripping a traceback")
        mon.eq(got.info, kept, "the traced edge after stripping a copy of it")
        mon.eq(gsd.strip_traceback_from_edge(got), e, "stripping it again")
        model.append(got)
      else:
        gsd.partial_state_dag_add_edge(d, e)
        mon.eq(gsd.strip_traceback_from_edge(e), e, "strip without traceback")
        model.append(e)
      sources.add(u)
      mon.event("accepted")
    else:
      def add():
        if tb:
          with gsd.adding_edge_tracebacks():
            gsd.partial_state_dag_add_edge(d, e)
        else:
          gsd.partial_state_dag_add_edge(d, e)
      mon.raises(ValueError, add, "an edge that breaks the order was accepted")
      mon.event("rejected")
      if tb:
        # The traceback mode ends with its scope, also after a rejection.
        other = gsd.partial_state_dag_starting_from("s")
        plain = gsd.Edge("s", "t", 1.0, None, info)
        gsd.partial_state_dag_add_edge(other, plain)
        mon.eq(list(other.edges), [plain], "traceback mode outlives its scope")
        mon.event("rejected_traced")
    mon.eq(d.edges, model, "edges after this attempt")
  compiled_history(rng, mon, names, model)
  f = rng.choice(names)
  done = gsd.partial_state_dag_finish(d, f)
  mon.eq((done.initial_state, list(done.edges), done.final_state),
         (names[0], model, f), "finished DAG")
  seen = []
  for e in model:
    for s in (e.source, e.dest):
      if s not in seen:
        seen.append(s)
  mon.eq(list(gsd.extract_state_list(done)), seen, "state list")


def compiled_history(rng, mon, names, model):
  """The compiled replacement of adding an edge agrees on legal histories."""
  for checked in (False, True):
    if checked and not hasattr(gsd, "CHECK_ORDERING_UNDER_JIT"):
      continue
    before = getattr(gsd, "CHECK_ORDERING_UNDER_JIT", None)
    d = gsd.partial_state_dag_starting_from(names[0])
    try:
      if checked:
        gsd.CHECK_ORDERING_UNDER_JIT = True
      fns = overloads.impls(gsd.partial_state_dag_add_edge, d, None)
    finally:
      if checked:
        gsd.CHECK_ORDERING_UNDER_JIT = before
    for fn in fns:
      d = gsd.partial_state_dag_starting_from(names[0])
      sources = set()
      for k, e in enumerate(model):
        fn(d, e)
        sources.add(e.source)
        mon.eq(list(d.edges), model[:k + 1],
               "edges added by the compiled replacement")
        if checked and rng.random() < 0.3:
          bad = e._replace(source="elsewhere",
                           dest=rng.choice(sorted(sources, key=repr)))
          mon.raises(ValueError, lambda: fn(d, bad),
                     "the checked replacement accepted an edge into a state"
                     " that already has outgoing edges")
          mon.eq(list(d.edges), model[:k + 1], "edges after a rejection")
        mon.event("compiled_adds")


def sig(edges, ps, states=False):
  return sorted(
      repr([(edges[i].cost, edges[i].required_assignment, edges[i].info)
            + ((edges[i].source, edges[i].dest) if states else ())
            for i in p])
      for p in ps)


def huge(rng):
  """More states than 16 bits count, with dead ends and forbidden edges."""
  d = bigdag.huge(rng).dag
  edges = []
  for e in d.edges:
    edges.append(e)
    if rng.random() < 0.02:
      edges.append(e._replace(dest=("dead", len(edges))))
    if rng.random() < 0.02:
      edges.append(e._replace(cost=math.inf))
  return d._replace(edges=edges)


def run_case(rng, mon, idx):
  if idx % 4 == 0:
    build_history(rng, mon)
    return
  nk = rng.randint(0, 4)
  big = idx % 60 == 1
  if idx % 6000 == 61:
    d = huge(rng)
    mon.event("huge")
  elif big:
    n = rng.choice([20, 40, 70, 140, 300])
    d = daggen.dag(rng, daggen.variable_keys(rng, rng.randint(0, 30)),
                   ["A", "B", "C"], n_states=n,
                   density=rng.choice([1.0, 2.0, 4.0]) / n)
  else:
    d = daggen.dag(rng, daggen.variable_keys(rng, nk), ["A", "B", "C"],
                   n_states=rng.randint(2, 9))
  mon.note(dag=d)
  original = list(d.edges)
  if big:
    ps = used = set(bigdag.usable(d))
    mon.event("big")
    mon.event("big_states", len(gsd.extract_state_list(d)))
  else:
    ps = daggen.paths(d.initial_state, d.edges, d.final_state)
    if ps is None:
      return
    used = {i for p in ps for i in p}
  want = [e for i, e in enumerate(d.edges) if i in used]
  # The code's notion: states on some finite path.
  want_states = {s for e in want for s in (e.source, e.dest)}
  if ps:
    if len(ps) > 1:
      mon.key(repr(d) if big else sig(d.edges, ps, True))
    mon.eq(set(gsd.compute_reachable_states(d)), want_states, "reachable states")
  fns = [("python", gsd.prune_to_reachable), ("jit", gsd.prune_to_reachable_jit)]
  fns += [("compiled replacement", f)
          for f in overloads.impls(gsd.prune_to_reachable, d)]
  for name, fn in fns:
    got = fn(d)
    mon.eq((got.initial_state, list(got.edges), got.final_state),
           (d.initial_state, want, d.final_state), f"pruned DAG ({name})")
    mon.eq(list(d.edges), original, "pruning modified its input")
  mon.event("pruned")
  mon.event("removed_edges", len(original) - len(want))

  size = rng.choice([1, 1, 2, 3, 4, 7, 16, 64, 1024])
  scratch = np.full((size,), rng.choice([-1, 0, 3, 10**6]), dtype=np.int32)
  if not ps:
    mon.event("no_path")
    mon.raises(ValueError, lambda: gsd.prune_unreachable_and_rewrite_states(
        d, scratch), "no usable path, but no error")
    return
  got = gsd.prune_unreachable_and_rewrite_states(d, scratch)
  mon.note(rewritten=got, scratch=size)
  mon.event("rewritten")
  if size < len(want_states):
    mon.event("collisions")
  mon.eq(list(d.edges), original, "rewriting modified its input")
  mon.eq(len(got.edges), len(want), "number of rewritten edges")
  names = {}
  for e, w in zip(got.edges, want):
    mon.eq((e.cost, e.required_assignment, e.info),
           (w.cost, w.required_assignment, w.info), "edge contents")
    for a, b in ((w.source, e.source), (w.dest, e.dest)):
      mon.eq(names.setdefault(a, int(b)), int(b), "a state got two names")
  mon.eq(sorted(names.values()), list(range(len(want_states))),
         "states are not distinct consecutive integers")
  mon.eq(int(got.initial_state), names[d.initial_state], "initial state")
  mon.eq(int(got.final_state), names[d.final_state], "final state")
