"""P28: effective precision is the break-even probability of each task."""
import math

from r_u_sure.decision_diagrams import consistent_path_dual_solver as cs
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from r_u_sure.tree_structure import packed_sequence_nodes as PSN
from rv import editgen
from rv import treegen

ID = "P28"
RULE = (
    "suggestions whose tokens or calls are right in samples of known weight;"
    " what is marked, kept or listed compared with the expected utilities of the"
    " documentation, for probabilities below, at and above the effective"
    " precision; nontrivial: distinct (task, settings, lengths, probabilities)"
)
QUICK = dict(cases=5000, budget=110)
THOROUGH = dict(cases=60000, budget=800)
MIN_EVENTS = {"break_even": 400, "marked": 300, "unmarked": 300, "kept": 300,
              "cut": 150, "listed": 200, "unlisted": 200, "tables": 1000,
              "settings_irrelevant": 100, "equal_at_break_even": 100,
              "multi": 200}
FWD = cs.SweepDirection.FORWARD
T, F, NA = editgen.T, editgen.F, editgen.NA


def build(w, suggestion, samples, weights):
  packed, info = w.process_prototype_and_context(treegen.untup(suggestion), 0)
  targets = [w.process_target(treegen.untup(s), 0) for s in samples]
  return packed, w.build_system(packed, info, targets,
                                target_utility_scale_factors=weights), info


def price(system, a):
  c = cs.clone_system(system)
  cs.constrain_system(c, {k: v for k, v in a.items()
                          if k in set(system.variable_keys)})
  return cs.greedy_extract(c.data, FWD)[1]


def solve(system):
  cs.solve_system_with_sweeps(system.data, soft_timeout=20.0)
  best = None
  for d in (FWD, cs.SweepDirection.REVERSE):
    vec, cost = cs.greedy_extract(system.data, d)
    if best is None or cost < best[1]:
      best = (cs.assignments_from_assignment_vector(system, vec), cost)
  return best


def tok(text):
  return ("tok", text, "CONTENT_LEAF")


def words(rng, n):
  """Distinct words of random length; and wrong ones of the same length."""
  right, wrong = [], []
  for q in range(n):
    k = rng.choice([1, 2, 3, 7, 20])
    right.append(chr(97 + q) * k)
    wrong.append(chr(65 + q) * k)
  return right, wrong


def samples_of(rng, right, wrong):
  """Samples with weights that sum to one; and P(right) of every token."""
  n = len(right)
  m = rng.choice([1, 2, 3, 4])
  ws = [rng.choice([1, 1, 2, 3, 5]) for _ in range(m)]
  ws = [w / sum(ws) for w in ws]
  bits = [[rng.random() < 0.6 for _ in range(n)] for _ in range(m)]
  out = [tuple(tok(right[q] if b[q] else wrong[q]) for q in range(n))
         for b in bits]
  probs = [math.fsum(w for w, b in zip(ws, bits) if b[q]) for q in range(n)]
  return out, ws, probs


def mark(proto, low):
  """Decisions of the flat prototype that mark exactly the tokens in `low`."""
  a, inside, q = {}, False, 0
  flat = editgen.numbered(proto)[0]
  toks = [i for i, x, _ in flat if x[0] == "tok"]
  by = {i: n for n, i in enumerate(toks)}
  for p, (i, x, _) in enumerate(flat):
    nxt = next((by[j] for j, y, _ in flat[p:] if y[0] == "tok"), None)
    if x[0] == "RS":
      a[editgen.key_of(i, x)] = (
          NA if inside else (T if nxt in low else F))
      inside = inside or nxt in low
    elif x[0] == "RE":
      a[editgen.key_of(i, x)] = NA if not inside else (F if nxt in low else T)
      inside = inside and nxt in low
    elif x[0] == "tok":
      a[editgen.key_of(i, x)] = T if inside else F
  return a


def low_tokens(packed, a):
  proto = treegen.tup(PSN.unpack(packed))
  toks = [(i, x) for i, x, _ in editgen.numbered(proto)[0] if x[0] == "tok"]
  return {n for n, (i, x) in enumerate(toks)
          if a[editgen.key_of(i, x)] == T}


def table(rng, mon):
  p = rng.choice([0.7, 0.5, 0.9, 0.25, rng.random()])
  s = rng.choice([0.5, 0.0, 1.0, 0.25, rng.random()])
  h = rng.choice([5.0, 0.0, 1.0, rng.random() * 10])
  c = urw.derive_uncertainty_region_costs(
      effective_precision=p, high_confidence_start_editing_cost=h,
      low_confidence_edit_sensitivity=s)
  mon.note(precision=p, start=h, sensitivity=s, costs=c)
  mon.check(isinstance(c, edit_dags.TrustRegionUtilityParameters), "type")
  tol = dict(tol=1e-9)
  mon.close(c.high_confidence_match_utility_per_char, 1, "match", **tol)
  mon.close(c.high_confidence_delete_cost_per_char, 1, "deletion", **tol)
  mon.close(c.insert_cost_per_char, 0, "insertion", **tol)
  mon.close(c.high_confidence_start_editing_cost, h, "start of an edit", **tol)
  hm, hd = 1.0, 1.0
  lm, ld = (c.low_confidence_match_utility_per_char,
            c.low_confidence_delete_cost_per_char)
  mon.close(p * hm - (1 - p) * hd, p * lm - (1 - p) * ld,
            "break-even per character", **tol)
  mon.close((1 - p) * -h, (1 - p) * -c.low_confidence_start_editing_cost
            - c.low_confidence_region_cost, "break-even per edit", **tol)
  mon.close(lm + ld, s * (hm + hd), "sensitivity per character", **tol)
  mon.close(c.low_confidence_start_editing_cost, s * h,
            "sensitivity per edit", **tol)
  mon.event("tables")


def single(rng, mon):
  """One token: marked exactly when its probability is below the precision."""
  prec = rng.choice([0.7, 0.5, 0.9, 0.25, 0.6])
  start = rng.choice([5.0, 0.0, 1.0, 2.5])
  sens = rng.choice([0.5, 0.9, 0.25, 0.1])
  both = rng.random() < 0.3
  kw = dict(low_confidence_edit_sensitivity=sens, use_numba=False)
  if both:
    w = ptw.PrefixByEditDistanceWrapper(
        start_editing_cost=start, also_insert_uncertainty_regions=True,
        uncertainty_region_effective_precision=prec, **kw)
  else:
    w = urw.UncertaintyRegionsWrapper(
        effective_precision=prec, high_confidence_start_inserting_cost=start,
        **kw)
  right, wrong = words(rng, 1)
  q = rng.choice([prec, prec, max(0.0, prec - 0.05), min(1.0, prec + 0.05),
                  0.0, 1.0, rng.random()])
  mon.note(both=both, precision=prec, start=start, sensitivity=sens, p=q,
           token=right[0])
  packed, system, _ = build(w, (tok(right[0]),),
                            [(tok(right[0]),), (tok(wrong[0]),)], [q, 1 - q])
  proto = treegen.tup(PSN.unpack(packed))
  a0, a1 = mark(proto, set()), mark(proto, {0})
  for a in (a0, a1):
    for i, x, _ in editgen.numbered(proto)[0]:
      if x[0] == "EE":
        a[editgen.key_of(i, x)] = F
  hi, lo = price(system, a0), price(system, a1)
  mon.note(high=hi, low=lo)
  mon.key("single", both, prec, start, sens, len(right[0]), q)
  n = len(right[0])
  mon.close(hi, -(q * n) + (1 - q) * (n + start), "high confidence", tol=1e-7)
  mon.event("break_even")
  if abs(q - prec) < 1e-9:
    mon.close(hi, lo, "cost at break-even", tol=1e-7)
    mon.event("equal_at_break_even")
    return
  if abs(q - prec) < 1e-3:
    return
  mon.check((lo < hi) == (q < prec), "the wrong side of break-even")
  if both:
    return
  got, cost = solve(system)
  mon.close(cost, min(hi, lo), "cost of the solution", tol=1e-7)
  marked = low_tokens(packed, got)
  mon.eq(marked, {0} if q < prec else set(), "marked tokens")
  mon.event("marked" if marked else "unmarked")


def several(rng, mon):
  """Without fixed costs every token is judged on its own."""
  prec = rng.choice([0.7, 0.55, 0.9, 0.3])
  sens = rng.choice([0.5, 0.9, 0.25])
  w = urw.UncertaintyRegionsWrapper(
      effective_precision=prec, high_confidence_start_inserting_cost=0.0,
      low_confidence_edit_sensitivity=sens, use_numba=False)
  right, wrong = words(rng, rng.choice([2, 3, 4]))
  samples, ws, probs = samples_of(rng, right, wrong)
  mon.note(precision=prec, sensitivity=sens, tokens=right, probs=probs,
           weights=ws)
  if any(abs(p - prec) < 1e-3 for p in probs):
    return
  packed, system, _ = build(w, tuple(tok(x) for x in right), samples, ws)
  proto = treegen.tup(PSN.unpack(packed))
  want = {q for q, p in enumerate(probs) if p < prec}
  mon.key("several", prec, sens, tuple(map(len, right)), tuple(probs))
  best = price(system, mark(proto, want))
  for q in range(len(right)):
    other = price(system, mark(proto, want ^ {q}))
    mon.check(best < other, "a token on the wrong side of break-even", token=q,
              best=best, other=other)
  got, cost = solve(system)
  mon.check(cost >= best - 1e-7, "cheaper than the optimum")
  mon.event("multi")
  if cost <= best + 1e-7:
    marked = low_tokens(packed, got)
    mon.eq(marked, want, "marked tokens")
    mon.event("marked", len(marked))
    mon.event("unmarked", len(right) - len(marked))
  else:
    mon.event("gap")


def prefix(rng, mon):
  """A prefix is kept as long as it is expected to save more than it costs."""
  right, wrong = words(rng, rng.choice([1, 2, 3, 4]))
  n = len(right)
  m = rng.choice([1, 2, 3])
  ws = [rng.choice([1, 1, 2, 3]) for _ in range(m)]
  ws = [w / sum(ws) for w in ws]
  upto = [rng.randrange(n + 1) for _ in range(m)]
  samples = [tuple(tok(x) for x in right[:u] + wrong[u:]) for u in upto]
  start = rng.choice([0.0, 0.0, 2.0])
  def utility(k):
    return math.fsum(
        w * (sum(map(len, right[: min(k, u)])) - sum(map(len, right[u:k]))
             - (start if k > u else 0.0))
        for w, u in zip(ws, upto))
  utils = [utility(k) for k in range(n + 1)]
  mon.note(tokens=right, upto=upto, weights=ws, start=start, utilities=utils)
  costs = []
  settings = [(0.7, 0.5), (rng.random(), rng.random())]
  for prec, sens in settings:
    w = ptw.PrefixByEditDistanceWrapper(
        start_editing_cost=start, uncertainty_region_effective_precision=prec,
        low_confidence_edit_sensitivity=sens, use_numba=False)
    packed, system, info = build(w, tuple(tok(x) for x in right), samples, ws)
    got, cost = solve(system)
    costs.append(cost)
    mon.close(cost, -max(utils), "cost of the best prefix", tol=1e-7)
    shown = w.solution_info(packed, None, info, None, got)["extracted_parts"]
    text = "".join(x[0] for x in shown)
    whole = "".join(right)
    mon.check(whole.startswith(text), "not a prefix", shown=text)
    k = next((k for k in range(n + 1)
              if text == "".join(right[:k])), None)
    mon.check(k is not None and abs(utils[k] - max(utils)) < 1e-7,
              "not the best prefix", shown=text)
    mon.event("kept" if k else "cut")
    if k < n:
      mon.event("cut")
  mon.key("prefix", tuple(map(len, right)), tuple(upto), tuple(ws), start)
  mon.event("settings_irrelevant")


def calls(rng, mon):
  """A call is listed exactly when it is likelier than the precision."""
  prec = rng.choice([0.3, 0.5, 0.8, 0.1])
  w = csw.ApiCallSequenceWrapper(effective_precision=prec, use_numba=False)
  n = rng.choice([1, 2, 3])
  names = rng.sample(["foo", "bar", "qux", "print", "zip"], n)
  args = [rng.choice(["", "xx", "1"]) for _ in names]
  m = rng.choice([2, 3, 4])
  ws = [rng.choice([1, 1, 2, 3]) for _ in range(m)]
  ws = [x / sum(ws) for x in ws]
  bits = [[rng.random() < 0.5 for _ in range(n)] for _ in range(m)]

  def stmt(name, arg):
    inner = (("tok", arg, "CONTENT_LEAF"),) if arg else ()
    return ("grp", "ROOT", (
        tok(name), ("grp", "MATCH", (("tok", "(", "MATCH_LEFT"),
                                     ("grp", "MATCH_INNER", inner),
                                     ("tok", ")", "MATCH_RIGHT")))))
  sugg = tuple(stmt(*x) for x in zip(names, args))
  samples = [tuple(stmt(nm if b[q] else "other" + str(q), args[q])
                   for q, nm in enumerate(names)) for b in bits]
  probs = [math.fsum(x for x, b in zip(ws, bits) if b[q]) for q in range(n)]
  mon.note(calls=names, args=args, probs=probs, weights=ws, precision=prec)
  if any(abs(p - prec) < 1e-3 for p in probs):
    return
  packed, system, info = build(w, sugg, samples, ws)
  got, cost = solve(system)
  worth = {nm: 10.0 if nm in ("foo", "bar", "qux") else 1.0 for nm in names}
  want = [q for q in range(n) if probs[q] > prec]
  best = -math.fsum((worth[names[q]] + 1.0) * (
      probs[q] * (1 - prec) - (1 - probs[q]) * prec) for q in want)
  mon.check(cost >= best - 1e-7, "cheaper than the optimum", cost=cost,
            best=best)
  mon.key("calls", prec, tuple(names), tuple(args), tuple(probs))
  if cost > best + 1e-7:
    mon.event("gap")
    return
  parts = w.solution_info(packed, None, info, None, got)["extracted_parts"]
  text = "".join(x[0] for x in parts if x[1])
  mon.eq(text, "".join(f"{names[q]}({args[q]})" for q in want),
         "calls listed", parts=parts)
  mon.event("listed", len(want))
  mon.event("unlisted", n - len(want))


def run_case(rng, mon, idx):
  table(rng, mon)
  rng.choice([single, single, several, prefix, calls])(rng, mon)
