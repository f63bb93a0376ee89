"""P26: every baseline follows its stated rule."""
import math

from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from rv import e2e
from rv import editgen
from rv import treegen
from rv.props import p11_logprobs as p11

ID = "P26"
RULE = (
    "random suggestions with random model tokens and probabilities, thresholds"
    " and limits; every baseline of both task wrappers compared with a reference"
    " reading of its rule, or searched for a better annotation; nontrivial:"
    " distinct (suggestion, tokens) with 2+ tokens"
)
QUICK = dict(cases=5000, budget=110)
THOROUGH = dict(cases=120000, budget=800)
MIN_EVENTS = {"prefix": 5000, "regions": 1000, "exit_taken": 1000,
              "no_exit": 500, "exit_before": 300, "exit_next": 100,
              "constrained_tokens": 1000, "infeasible": 50, "searched": 300,
              "lines": 300, "disabled": 50, "bad_cutoff": 50,
              "tuned": 400, "endless": 30}


def setup():
  pass


# Set while every model token is certain: then no rounding can move a
# probability away from 1, and "below" is decided exactly at a threshold of 1.
EXACT = [False]


class Close(Exception):
  """Too close to a threshold to call."""


def below(x, y):
  if y == 0.0 <= x:
    return False  # no probability is below zero
  if x == y == -math.inf:
    return False
  if abs(x - y) < 1e-9 and not (x == y == 1.0 and EXACT[0]):
    raise Close()
  return x < y


def hopeless(rng, toks, mon):
  """Some tokens the model thinks (almost) impossible."""
  if rng.random() < 0.15:
    mon.event("hopeless")
    toks = [(t, rng.choice([-math.inf, -120.0, -800.0])
             if rng.random() < 0.3 else lp) for t, lp in toks]
  return toks


def lengthen(rng, tree, skip):
  """One token beyond the first `skip` characters becomes very long."""
  words = []
  pos = 0

  def visit(t):
    nonlocal pos
    for x in t:
      if x[0] == "grp":
        visit(x[2])
      elif x[0] in ("tok", "dec"):
        if x[0] == "tok" and x[1] and pos >= skip:
          words.append(pos)
        pos += len(x[1])
  visit(tree)
  if not words:
    return tree
  chosen = rng.choice(words)
  n = rng.choice([3000, 20000])
  pos = 0

  def rec(t):
    nonlocal pos
    out = []
    for x in t:
      if x[0] == "grp":
        x = ("grp", x[1], rec(x[2]))
      elif x[0] in ("tok", "dec"):
        here, pos = pos, pos + len(x[1])
        if x[0] == "tok" and here == chosen and x[1]:
          x = ("tok", x[1] * (n // len(x[1]))) + x[2:]
      out.append(x)
    return tuple(out)
  return rec(tree)


def flat(proto):
  """[(preorder index, node, depth)] in order."""
  out = []

  def rec(nodes, d):
    for i, x, kids in nodes:
      out.append((i, x, d))
      rec(kids, d + 1)
  rec(editgen.numbered(proto)[0], 0)
  return out


def log_probs(proto, toks):
  ref = p11.Spans(toks)
  out = {}
  for i, x, _ in flat(proto):
    if x[0] in ("tok", "dec"):
      lp, _ = ref.take(len(x[1]))
      if x[0] == "tok":
        out[i] = lp
  return out


def prefix_rule(proto, lps, name, arg, mon):
  """Preorder index of the exit, or None."""
  seen_exit = None
  pending = False
  total, count, best = 0.0, 0, None
  chars = lines = 0
  for i, x, _ in flat(proto):
    if x[0] == "EX":
      if pending:
        mon.event("exit_next")
        return i
      seen_exit = i
      if name == "max_avg_log_prob" and count:
        avg = total / count
        if best is None and avg == -math.inf:
          raise Close()  # whether to exit at all is then open
        if best is None or below(best[0], avg):
          best = (avg, i)
    elif x[0] == "tok":
      chars += len(x[1])
      if name == "character_length" and chars >= arg:
        pending = True
      if not x[1]:
        continue
      total += lps[i]
      low = False
      if name == "prob_threshold":
        low = below(math.exp(lps[i]), arg)
      elif name == "prefix_prob_threshold":
        low = below(math.exp(total), arg)
      elif name == "intellicode":
        alpha, kappa = arg
        low = below(math.exp(lps[i]), alpha / (1 + math.exp(-count / kappa)))
      count += 1
      if low:
        if seen_exit is not None:
          mon.event("exit_before")
          return seen_exit
        pending = True
    elif x[0] == "dec":
      if "\n" in x[1]:
        lines += 1
        mon.event("lines")
      if name == "line_length" and "\n" in x[1] and lines >= arg:
        pending = True
  if name == "max_avg_log_prob":
    return best[1] if best else None
  return None


def tuned_tokens(rng, proto, th, pth, miss=0.15):
  """One model token per node, with probabilities that hardly pass a rule."""
  rule = rng.choice(["intellicode", "token", "prefix", "average"])
  out = []
  count = 0
  total = 0.0
  t = rng.choice([v for v in th + pth if v > 0] or [0.5])
  for _, x, _ in flat(proto):
    if x[0] == "dec" and x[1]:
      out.append((x[1], -rng.random()))
    if x[0] != "tok" or not x[1]:
      continue
    eps = rng.choice([1e-4, 1e-3, 1e-2])
    if rng.random() < miss:
      eps = -eps
    if rule == "intellicode":
      lp = math.log(0.8 / (1 + math.exp(-count / 10.0)) * (1 + eps))
    elif rule == "token":
      lp = math.log(t * (1 + eps))
    elif rule == "prefix":
      lp = min(0.0, math.log(t) + eps - total)
      total += lp
    else:
      lp = -1.0 + eps * rng.choice([-1, 1])
    count += 1
    if len(x[1]) > 1 and rng.random() < 0.3:
      q = rng.randint(1, len(x[1]) - 1)
      out += [(x[1][:q], lp / 2), (x[1][q:], lp / 2)]
    else:
      out.append((x[1], lp))
  return out


def prefix_case(rng, mon, big):
  th = tuple(rng.sample([0.0, 0.3, 0.5, 0.7, 0.9], rng.choice([1, 2])))
  pth = tuple(rng.sample([0.01, 0.1, 0.3, 0.5, 0.9], rng.choice([1, 2])))
  if EXACT[0]:
    th, pth = (1.0, 0.5), (0.9, 1.0)
  chars = tuple(rng.sample([0, 1, 2, 3, 5, 20], 2))
  lines = tuple(rng.sample([0, 1, 2, 3], 2))
  flags = dict(baseline_max_avg_log_prob=rng.random() < 0.8,
               baseline_intellicode=rng.random() < 0.8)
  st = e2e.Setting(rng, kind=rng.choice(["prefix"] * 9 + ["both"]),
                   baseline_token_prob_thresholds=th,
                   baseline_prefix_prob_thresholds=pth,
                   baseline_max_characters=chars, baseline_max_lines=lines,
                   **flags)
  tree, _, loc, context = e2e.random_trees(rng, 0, "big" if big else
                                           rng.choice([2, 4, 8]))
  mon.event("big", int(big))
  endless = not big and rng.random() < 0.04
  if endless:
    tree += e2e.long_line(rng, rng.choice([60, 120, 400]))
    mon.event("endless")
  proto = st.prototype(tree, loc, mon)
  if rng.random() < 0.3 and st.kind == "prefix":
    # Suggestions with fewer exits (a caller may place them itself).
    proto = drop_exits(rng, proto)
  target = e2e.p09.expected(tree, loc, mon)
  if EXACT[0]:
    toks = [(x, 0.0) for x, _ in p11.random_tokens(rng, treegen.text(proto))]
    mon.event("certain")
  elif rng.random() < (0.9 if endless else 0.5):
    toks = tuned_tokens(rng, proto, th, pth, 0.02 if endless else 0.15)
    mon.event("tuned")
  else:
    toks = hopeless(rng, p11.random_tokens(rng, treegen.text(proto)), mon)
  mon.note(setting=st.desc, prototype=proto, tokens=toks, th=th, pth=pth,
           chars=chars, lines=lines, flags=flags)
  if not toks and any(x[0] == "tok" for _, x, _ in flat(proto)):
    return
  given = list(toks)
  got = st.wrapper.build_baseline_assignments(
      editgen.pack(proto), editgen.pack(target),
      {"context_prefix_contents": context}, given)
  mon.eq(given, list(toks), "the model tokens were modified")
  if st.kind == "both":
    mon.eq(got, {}, "baselines next to regions")
    mon.event("disabled")
    return
  lps = log_probs(proto, toks)
  rules = ([(f"prob_threshold_{v}", "prob_threshold", v) for v in th]
           + [(f"prefix_prob_threshold_{v}", "prefix_prob_threshold", v)
              for v in pth]
           + [(f"character_length_{v}", "character_length", v) for v in chars]
           + [(f"line_length_{v}", "line_length", v) for v in lines])
  if flags["baseline_intellicode"]:
    rules.append(("intellicode", "intellicode", (0.8, 10.0)))
  if flags["baseline_max_avg_log_prob"]:
    rules.append(("max_avg_log_prob", "max_avg_log_prob", None))
  mon.eq(set(got), {r[0] for r in rules}, "names of the baselines")
  if rng.random() < 0.4:
    # The rule with other constants.
    builder = ptw.PrefixByEditDistanceBaselineBuilder(
        prototype=editgen.pack(proto),
        prototype_suggestion_as_target=editgen.pack(target),
        context_info={"context_prefix_contents": context},
        model_tokens_and_log_probs=list(toks))
    for arg in ((0.5, 2.0), (0.95, 30.0), (1.3, 1.0), (2.0, 1.0)):
      got[f"intellicode {arg}"] = (
          builder.baseline_assignment_from_intellicode_compose(
              alpha=arg[0], kappa=arg[1]))
      rules.append((f"intellicode {arg}", "intellicode", arg))
  if len(toks) > 1:
    mon.key(proto, toks)
  for key, name, arg in rules:
    try:
      at = prefix_rule(proto, lps, name, arg, mon)
    except Close:
      mon.event("too_close")
      continue
    a = got[key]
    want = {}
    state = editgen.F
    for i, x, _ in flat(proto):
      if x[0] == "EX":
        if i == at:
          want[editgen.key_of(i, x)] = editgen.T
          state = editgen.NA
        else:
          want[editgen.key_of(i, x)] = state
    exits = {k: v for k, v in a.items()
             if k.category == editgen.C.SHOULD_EARLY_EXIT}
    mon.eq(exits, want, "exit of baseline " + key)
    for k, v in a.items():
      if k.category == editgen.C.NODE_IN_REGION:
        mon.check(v != editgen.T, "a prefix baseline opened a region")
    mon.event("prefix")
    mon.event("no_exit" if at is None else "exit_taken")
    mon.event("rule_" + name)


def drop_exits(rng, t):
  return tuple(("grp", x[1], drop_exits(rng, x[2])) if x[0] == "grp" else x
               for x in t if x[0] != "EX" or rng.random() < 0.5)


def feasible(proto):
  """Tokens some well-formed annotation puts in a region."""
  out = set()

  def rec(nodes, inside):
    starts = [q for q, n in enumerate(nodes) if n[1][0] == "RS"]
    ends = [q for q, n in enumerate(nodes) if n[1][0] == "RE"]
    for q, (i, x, kids) in enumerate(nodes):
      here = inside or (any(s < q for s in starts) and any(e > q for e in ends))
      if x[0] == "tok" and here:
        out.add(i)
      rec(kids, here)
  rec(editgen.numbered(proto)[0], False)
  return out


def region_case(rng, mon, big):
  th = tuple(rng.sample([0.0, 0.1, 0.3, 0.5, 0.7, 0.9], 2))
  if EXACT[0]:
    th = (1.0, 0.5)
  fr = tuple(rng.sample([0.0, 0.25, 0.5, 1.0], 1))
  cut = ((rng.randint(1, 2), rng.randint(1, 2)),)
  st = e2e.Setting(rng, kind="regions", baseline_token_prob_thresholds=th,
                   baseline_example_fractions=fr, baseline_depth_cutoffs=cut)
  tree, _, loc, context = e2e.random_trees(rng, 0, "big" if big else
                                           rng.choice([1, 2, 3, 4]))
  if not big and rng.random() < 0.1:
    tree = lengthen(rng, tree, loc)
    mon.event("long_tokens")
  proto = st.prototype(tree, loc, mon)
  target = e2e.p09.expected(tree, loc, mon)
  if treegen.count(proto) > (110 if big else 30):
    return
  mon.event("big", int(big))
  toks = hopeless(rng, p11.random_tokens(rng, treegen.text(proto)), mon)
  if EXACT[0]:
    toks = [(x, 0.0) for x, _ in toks]
    mon.event("certain")
  mon.note(setting=st.desc, prototype=proto, tokens=toks, th=th, fr=fr, cut=cut)
  cells = flat(proto)
  if not any(x[0] == "tok" for _, x, _ in cells) or not toks:
    return
  packed, ptarget = editgen.pack(proto), editgen.pack(target)
  info = {"context_prefix_contents": context}
  given = list(toks)
  got = st.wrapper.build_baseline_assignments(packed, ptarget, info, given)
  mon.eq(given, list(toks), "the model tokens were modified")
  mon.eq(info, {"context_prefix_contents": context}, "the context was modified")
  lps = log_probs(proto, toks)
  text = treegen.text(proto)
  rules = {}
  try:
    for v in th:
      rules[f"prob_threshold_{v}_nonempty"] = {
          i for i, x, _ in cells if x[0] == "tok" and x[1]
          and below(math.exp(lps[i]), v)}
      low, total = set(), 0.0
      for i, x, _ in cells:
        if x[0] == "tok":
          total += lps[i]
          if x[1] and below(math.exp(total), v):
            low.add(i)
      rules[f"prob_threshold_{v}_cumulative"] = low
  except Close:
    mon.event("too_close")
    return
  for v in fr:
    low, pos = set(), 0
    for i, x, _ in cells:
      if x[0] in ("tok", "dec"):
        pos += len(x[1])
        if x[0] == "tok" and x[1] and pos > v * len(text):
          low.add(i)
    rules[f"example_fraction_{v}"] = low
  first = next(d for i, x, d in cells if x[0] == "tok")
  first_i = next(i for i, x, d in cells if x[0] == "tok")
  for anc, child in cut:
    rules[f"cutoff_anc_{anc}_child_{child}"] = {
        i for i, x, d in cells if x[0] == "tok" and i != first_i
        and (d <= first - anc or d >= first + child)}
  mon.eq(set(got), set(rules), "names of the baselines")
  if len(toks) > 1:
    mon.key(proto, toks)
  can = feasible(proto)
  anns = editgen.annotations(proto, limit=400)
  keys = editgen.all_keys(proto)
  for name, low in rules.items():
    a = {k: got[name].get(k, editgen.NA) for k in keys}
    mon.note(baseline=name, solution=a)
    why = editgen.why_malformed(proto, a)
    mon.check(why is None, "not a well-formed annotation", why=why)
    missed = {i for i in low
              if a[editgen.K(i, editgen.C.NODE_IN_REGION)] != editgen.T}
    mon.eq(missed, low - can, "tokens left out of a region: " + name)
    mon.event("regions")
    mon.event("constrained_tokens", len(low))
    mon.event("infeasible", len(low - can))
    if anns:
      # No other annotation that covers these tokens suits the suggestion
      # better.
      cost = st.cost(proto, target, a)
      best = min(st.cost(proto, target, b) for b in anns
                 if all(b[editgen.K(i, editgen.C.NODE_IN_REGION)] == editgen.T
                        for i in low & can))
      mon.check(cost <= best + 1e-5, "not the best annotation that covers"
                " these tokens", baseline=name, cost=cost, best=best)
      mon.event("searched")
  b = urw.UncertaintyRegionsBaselineBuilder(st.wrapper, packed, ptarget, info,
                                            list(toks))
  for kw in (dict(ancestor_depth_cutoff=0, child_depth_cutoff=1),
             dict(ancestor_depth_cutoff=1, child_depth_cutoff=0)):
    if rng.random() < 0.3:
      mon.raises(ValueError,
                 lambda kw=kw: b.baseline_assignment_from_depth_cutoff(**kw),
                 "cutoff below 1")
      mon.event("bad_cutoff")
  if rng.random() < 0.3:
    v = rng.choice([0.2, 0.6])
    try:
      low = {i for i, x, _ in cells if x[0] == "tok"
             and below(math.exp(lps[i]), v)}
    except Close:
      return
    a = b.baseline_assignment_from_token_probabilities(
        v, only_constrain_nonempty=False, cumulative=False)
    missed = {i for i in low
              if a.get(editgen.K(i, editgen.C.NODE_IN_REGION)) != editgen.T}
    mon.eq(missed, low - can, "tokens left out of a region (all tokens)")
    mon.event("with_empty")


def run_case(rng, mon, idx):
  EXACT[0] = rng.random() < 0.05
  if idx % 3 == 2:
    region_case(rng, mon, idx % 60 == 2)
  else:
    prefix_case(rng, mon, idx % 30 == 1)
