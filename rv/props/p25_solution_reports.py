"""P25: what is reported about a solution is true of it."""
import html
import math
import re

import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as cs
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.wrappers import wrapper_base
from rv import e2e
from rv import editgen
from rv import treegen
from rv.props import p21_edit_script as p21
from rv.props import p23_regions as p23

ID = "P25"
RULE = (
    "random annotations of random suggestions, reported by both task wrappers"
    " against an evaluation target and a weighted sample system; parts, costs,"
    " statistics, rank, metrics and both HTML views compared with independently"
    " computed ones; nontrivial: distinct (setting, prototype, targets,"
    " annotation)"
)
QUICK = dict(cases=3000, budget=110)
THOROUGH = dict(cases=80000, budget=800)
MIN_EVENTS = {"reports": 1000, "sample_costs": 2000, "pairwise": 2000,
              "with_exit": 100, "with_region": 300, "rank_inside": 50,
              "kept": 500, "deleted": 500, "inserted": 500,
              "long_context": 20, "many_samples": 5}
setup = e2e.setup
A = p21.A


def spans(s):
  """(text outside tags, [(classes, text)]) of flat HTML."""
  r = p21.html.parser.HTMLParser(convert_charrefs=True)
  out, stack, bad = [], [], []

  def start(tag, attrs):
    if tag == "br":
      out.append(("br", ""))
      return
    stack.append((tag, tuple(sorted((dict(attrs).get("class") or "").split()))))

  def end(tag):
    if not stack or stack.pop()[0] != tag:
      bad.append(tag)

  def data(d):
    if stack and stack[-1][0] == "style":
      return
    out.append((stack[-1][1] if stack else None, d))

  r.handle_starttag, r.handle_endtag, r.handle_data = start, end, data
  r.feed(s)
  r.close()
  return out, bool(bad or stack)


def metrics_of(acts):
  want = {}
  for act, conf, content, cost in acts:
    for k, v in (("cost", cost), ("chars", len(content)), ("edges", 1)):
      k = f"{act.name}_{conf.name}_{k}"
      want[k] = want.get(k, 0) + v
  return want


def run_case(rng, mon, idx):
  st = e2e.Setting(rng)
  big = idx % 25 == 1
  n = rng.choice([4, 7]) if big else rng.choice([1, 2, 3, 4])
  if idx % 100 == 3:
    n = rng.choice([55, 70, 130])
    mon.event("many_samples")
  tree, ttrees, loc, context = e2e.random_trees(
      rng, n + 1, "big" if big else 1 if n > 10 else rng.choice([1, 2, 3, 4]))
  if not big and rng.random() < 0.06:
    tree, ttrees, loc, context = e2e.long_context(rng, tree, ttrees, loc, context)
    mon.event("long_context")
  proto = st.prototype(tree, loc, mon)
  mon.note(setting=st.desc, tree=tree, targets=ttrees, location=loc)
  if treegen.count(proto) > (110 if big else 34) or not editgen.all_keys(proto):
    return
  targets = [e2e.p09.expected(t, loc, mon) for t in ttrees]
  packed, info = st.wrapper.process_prototype_and_context(
      treegen.untup(tree), loc)
  ptargets = [st.wrapper.process_target(treegen.untup(t), loc) for t in ttrees]
  truth, ptruth = targets[-1], ptargets[-1]
  targets, ptargets = targets[:-1], ptargets[:-1]
  weights = rng.choice([None, [rng.choice([0.25, 0.5, 2.0]) for _ in targets]])
  sample = st.wrapper.build_system(packed, info, ptargets,
                                   target_utility_scale_factors=weights)
  single = st.wrapper.build_system(packed, info, [ptruth])
  a, exited = editgen.random_annotation(rng, proto)
  known = set(sample.variable_keys)
  a = {k: v for k, v in a.items() if k in known}
  full = {k: a.get(k, editgen.NA) for k in editgen.all_keys(proto)}
  mon.note(annotation=full, weights=weights)
  with_system = rng.random() < 0.8
  with_target = rng.random() < 0.9
  with_sample = rng.random() < 0.8
  given = dict(a)
  got = st.wrapper.solution_info(
      prototype=packed, evaluation_target=ptruth if with_target else None,
      context_info=info, system=single if with_system else None,
      assignments=a, sample_system=sample if with_sample else None)
  mon.eq(a, given, "assignments were modified")
  mon.event("reports")
  mon.event("big", int(big))
  mon.event("with_exit", int(exited is not None))
  mon.event("with_region", int(any(
      k.category == editgen.C.REGION_SHOULD_START and v == editgen.T
      for k, v in a.items())))
  mon.key(st.desc, proto, targets, truth, sorted(a.items()))
  parts, _ = p23.expected(proto, full, "")
  mon.eq([tuple(x) for x in got["extracted_parts"]], parts, "extracted parts")
  total = st.cost(proto, truth, full)
  if with_system and with_target:
    mon.close(got["total_cost"], total, "total cost", tol=1e-7)
    # Any cheapest script is acceptable; its metrics must describe a script of
    # this cost that processes all of the text.
    m = {k: v for k, v in got.items()
         if k.endswith(("_cost", "_chars", "_edges")) and k.isupper() or
         re.fullmatch(r"[A-Z_]+_(cost|chars|edges)", k)}
    mon.close(math.fsum(v for k, v in m.items() if k.endswith("_cost")), total,
              "costs in the metrics", tol=1e-7, metrics=m)
    proto_text = "".join(x for x, _ in parts)
    chars = sum(v for k, v in m.items() if k.endswith("_chars") and k.startswith(
        ("KEEP", "DELETE", "PROTOTYPE_DECORATION")))
    mon.eq(chars, len(proto_text), "prototype characters in the metrics",
           metrics=m)
    t_chars = sum(v for k, v in m.items() if k.endswith("_chars") and k.startswith(
        ("KEEP", "INSERT", "TARGET_DECORATION")))
    if exited is None:
      mon.eq(t_chars, len(treegen.text(truth)),
             "target characters in the metrics", metrics=m)
    path, _ = pd.constrained_best_path(
        single.data.dag_tables[0].dag, single.conversion_data[0], a)
    want = metrics_of(p21.judge(mon, path, proto, truth, st.prices))
    mon.eq(set(m), set(want), "names of metrics")
    for k, v in want.items():
      mon.close(m[k], v, "metric " + k, tol=1e-7)
    mon.event("metrics", len(m))
  else:
    mon.check("total_cost" not in got, "cost without an evaluation")
  costs = [st.cost(proto, t, full) for t in targets]
  if with_sample:
    mon.eq(len(got["sample_system_costs_unsorted"]), n, "number of costs")
    for x, y in zip(got["sample_system_costs_unsorted"], costs):
      mon.close(x, y, "cost for a sample", tol=1e-7)
    mon.eq(list(got["sample_system_costs"]),
           sorted(got["sample_system_costs_unsorted"]), "sorted costs")
    mean = math.fsum(costs) / n
    mon.close(got["sample_system_cost_average"], mean, "average", tol=1e-7)
    var = got["sample_system_cost_variance"]
    if n == 1:
      mon.check(math.isnan(var), "variance of one sample", var=var)
    else:
      mon.close(var, math.fsum((c - mean) ** 2 for c in costs) / (n - 1),
                "variance", tol=1e-6)
    mon.event("sample_costs", n)
    if with_system and with_target:
      r = got["true_cost_rank_in_sample_system"]
      lo = sum(c < total - 1e-7 for c in costs)
      hi = sum(c <= total + 1e-7 for c in costs)
      mon.check(lo <= r <= hi, "rank", rank=r, costs=costs, total=total)
      # Exactly: how many sample costs are smaller.
      mon.eq(r, sum(c < got["total_cost"] for c in got["sample_system_costs"]),
             "rank among the reported costs")
      mon.event("rank_inside", int(0 < r < n))
    else:
      mon.check("true_cost_rank_in_sample_system" not in got, "rank of nothing")
  else:
    mon.check(not any(k.startswith("sample_system") for k in got), "no samples")

  # The suggestion.
  s = st.wrapper.render_solution_html(packed, info, a)
  out, bad = spans(s)
  mon.check(not bad, "malformed HTML", html=s)
  text = "".join(d for c, d in out if c != "br")
  marked, _ = p23.expected(proto, full, "\ufe19")
  mon.eq(text, context + "".join(x for x, _ in marked), "text shown", html=s)
  region = "".join(d for c, d in out if c == ("in_region",))
  mon.eq(region, "".join(x for x, inside in marked if inside), "regions shown",
         html=s)
  # The edits.
  s = st.wrapper.render_pairwise_matching_html(
      packed, ptargets, info, sample, a)
  out, bad = spans(s)
  mon.check(not bad, "malformed HTML", html=s)
  secs = []
  for c, d in out:
    if c is None:
      secs.append((d, []))
    elif c != "br":
      secs[-1][1].append((c, d))
  mon.eq([h for h, _ in secs],
         [f"========== Target {i} ==========" for i in range(n)], "headings")
  proto_text = "".join(x for x, _ in parts)
  for i, (_, sp) in enumerate(secs):
    path, _ = pd.constrained_best_path(
        sample.data.dag_tables[i].dag, sample.conversion_data[i], a)
    acts = p21.judge(mon, path, proto, targets[i], st.prices)
    shown = [("", context)] if context else []
    for act, conf, content, _ in p21.grouped(acts):
      if act == A.START_EDITING:
        content = "፠" if st.kind == "regions" else ""
      if content:
        shown.append((act.name.lower(), content))
    got_spans = []
    for c, d in sp:
      name = next((x for x in ("keep", "delete", "insert", "start_editing",
                               "start_low_confidence", "early_exit") if x in c),
                  "")
      if d:
        got_spans.append((name, d))
    mon.eq([d for _, d in got_spans], [d for _, d in shown], "edits shown",
           html=s)
    for (x, d), (y, _) in zip(got_spans, shown):
      mon.check(x == y or x == "", "kind of edit shown", got=x, want=y, text=d)
      mon.event({"keep": "kept", "delete": "deleted",
                 "insert": "inserted"}.get(x, "other"))
    body = [x for x in got_spans if x[0] in ("keep", "delete")]
    mon.eq("".join(d for _, d in body), proto_text,
           "prototype text in the edits", html=s)
    mon.event("pairwise")

  # The helper on its own.
  extra = rng.choice([None, total, costs[0]])
  r = wrapper_base.compute_sample_system_info(
      [t.dag for t in sample.data.dag_tables[:-1]], sample.conversion_data[:-1],
      a, extra)
  mon.eq("true_cost_rank_in_sample_system" in r, extra is not None, "rank given")
