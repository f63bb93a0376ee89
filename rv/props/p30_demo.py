"""P30: the demo runner goes from source text to suggestion without losing any."""
import contextlib
import html.parser
import io
import math

from IPython import display as shown
from matplotlib import pyplot
import numpy as np
from r_u_sure.notebooks import demo_examples
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from rv import e2e
from rv import editgen
from rv import treegen
from rv.props import p11_logprobs as p11
from rv.props import p22_part_selection as p22
from rv.props import p23_regions as p23
from rv.props import p25_solution_reports as p25
from rv.props import p27_call_sequences as p27

ID = "P30"
RULE = (
    "short contexts and samples in every language, and excerpts of real model"
    " outputs, through DemoRunner with every task; text, utilities, bounds,"
    " parts, baselines and everything displayed compared with the inputs and"
    " independent pricing; nontrivial: distinct (task, context, samples, index)"
)
QUICK = dict(cases=1000, budget=110)
THOROUGH = dict(cases=40000, budget=800)
MIN_EVENTS = {"combined": 300, "utilities": 250, "certified": 200,
              "parts": 300, "baselines": 300, "displayed": 600, "plots": 50,
              "empty": 10, "model_outputs": 30, "index": 100, "reordered": 20,
              "probs": 100, "long_contexts": 5, "many_samples": 5}
LANGS = ["python"] * 4 + ["javascript", "java", "cpp", "raw_simple_tokens"]
SUGG = ["x", "f(y)", "y\n", "a + b\n", "x)", "[a]", "", "}", "y;z", "\n\n",
        "a\n  b", "aB", "foo(a)\nbar(b)\n", "'s t'", "# c\n", "<b>&amp;", "f(\n",
        "return x\n", "x = f(1)\n"]
CTX = ["", "x = ", "f(", "if x:\n  ", "{a;", "\n", "def f", "import os\n",
       "s = 'a", "a<b && ", "def g(x):\n    y = 1\n    "]


class Reader(html.parser.HTMLParser):
  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.text, self.depth, self.bad = [], 0, False
    self.colours = []

  def handle_starttag(self, tag, attrs):
    if tag not in ("span", "div", "br", "pre", "style"):
      self.bad = True
    if tag != "br":
      self.depth += 1
    self.colours.append(dict(attrs).get("style") or "")

  def handle_endtag(self, tag):
    self.depth -= 1
    self.bad |= self.depth < 0

  def handle_data(self, d):
    self.text.append(d)


def read(mon, s):
  r = Reader()
  r.feed(s)
  r.close()
  mon.check(not r.bad and r.depth == 0, "malformed HTML", html=s)
  return r


def excerpt(rng, mon):
  """Context and samples from the real model outputs, cut short."""
  ex = demo_examples.MODEL_OUTPUTS[
      rng.choice(sorted(demo_examples.MODEL_OUTPUTS))]
  ctx = ex["context"]
  ctx = ctx[len(ctx) - rng.choice([0, 5, 30, 80]):] if rng.random() < 0.9 else ctx
  n = rng.choice([2, 3])
  k = rng.choice([3, 6, 9])
  if rng.random() < 0.15:
    n, k = 6, 24
    mon.note(big=True)
  toks = rng.sample(ex["tokens_and_log_probs"],
                    min(n, len(ex["tokens_and_log_probs"])))
  at = rng.choice([0, 0, rng.randrange(20)])
  mon.event("model_outputs")
  return ctx, ["".join(t for t, _ in ts[at : at + k]) for ts in toks], [
      (t, p) for t, p in toks[0][at : at + k]]


def inputs(rng, mon):
  if rng.random() < 0.2:
    return ("python",) + excerpt(rng, mon)
  lang = rng.choice(LANGS)
  ctx = rng.choice(CTX)
  n = rng.choice([1, 2, 3, 4])
  base = rng.choice(SUGG) + rng.choice(["", rng.choice(SUGG)])
  samples = [base]
  for _ in range(n - 1):
    samples.append(rng.choice([base, rng.choice(SUGG), base[:-1],
                               base + rng.choice(SUGG)]))
  r = rng.random()
  if r < 0.03:
    ctx = "".join(f"v{q} = g{q % 7}(v{q - 1}, {q})\n" for q in range(
        rng.choice([40, 90, 300]))) + ctx
    mon.note(big=True)
    mon.event("long_contexts")
  elif r < 0.05:
    # Many samples; the interesting ones come last.
    samples = [base] * rng.choice([12, 40]) + samples[1:] + [
        rng.choice(SUGG) for _ in range(12)]
    mon.event("many_samples")
  return lang, ctx, samples, None


class Task:
  """A wrapper for a task, and independent pricing."""

  def __init__(self, rng):
    kind = rng.choice(["regions", "regions", "prefix", "both", "calls"])
    self.kind = kind
    if kind == "calls":
      self.wrapper = csw.ApiCallSequenceWrapper(use_numba=False)
      self.util = p27.make_util(0.3)
    else:
      self.st = e2e.Setting(rng, kind)
      self.wrapper = self.st.wrapper

  def cost(self, proto, target, a):
    if self.kind == "calls":
      return p22.best_cost(p22.parts_of(proto, a), p22.in_order(target),
                           self.util)
    return self.st.cost(proto, target, a)


def shown_by(fn, *a, **k):
  """(html pages, printed text) of a call."""
  del shown.SHOWN[:]
  buf = io.StringIO()
  with contextlib.redirect_stdout(buf):
    fn(*a, **k)
  return [x.data for x in shown.SHOWN], buf.getvalue()


def judge_parts(mon, runner, res, want):
  got = runner.get_extracted_parts(res)
  mon.eq("".join(t for t, _ in got), "".join(t for t, _ in want),
         "text of the parts")
  mon.check(all(a[1] != b[1] for a, b in zip(got, got[1:])),
            "neighbouring parts of equal confidence", parts=got)
  flat = [(c, b) for t, b in got for c in t]
  mon.eq(flat, [(c, b) for t, b in want for c in t], "confidence of the parts")
  mon.event("parts")


def run_case(rng, mon, idx):
  lang, ctx, samples, toks = inputs(rng, mon)
  task = Task(rng)
  w = task.wrapper
  runner = demo_runner.DemoRunner(w, language=lang)
  pi = rng.randrange(len(samples))
  mon.event("index", int(pi > 0))
  mon.note(language=lang, context=ctx, samples=samples, index=pi, task=task.kind)
  loc = len(ctx)
  h = parser_tools.ParserHelper(lang)
  trees = [treegen.tup(h.parse_to_nodes(ctx + s)) for s in samples]
  big = "big" in mon.context
  if max(map(treegen.count, trees)) > (9000 if big else 120):
    return

  # What the tasks make of the inputs (judged by other monitors).
  packed, info = w.process_prototype_and_context(
      treegen.untup(trees[pi]), loc)
  proto = e2e.unpack(packed)
  if treegen.count(proto) > (200 if big else 60):
    return
  mon.event("big", int(big))
  targets = [e2e.unpack(w.process_target(treegen.untup(t), loc)) for t in trees]

  given = list(samples)
  kw = {} if pi == 0 and rng.random() < 0.5 else dict(prototype_index=pi)
  res = runner.combine(ctx, samples, **kw)
  mon.eq(samples, given, "samples were modified")
  mon.event("combined")
  mon.key(task.kind, lang, ctx, tuple(samples), pi)
  mon.eq(e2e.unpack(res.packed_prototype), proto, "prototype")
  mon.eq([e2e.unpack(t) for t in res.packed_targets], targets, "samples")
  if task.kind != "calls":
    mon.eq(treegen.text(proto), samples[pi], "text of the prototype")
    mon.eq([treegen.text(t) for t in targets], samples, "text of the samples")
    mon.eq(res.context_info["context_prefix_contents"], ctx, "text of the context")
  keys = editgen.all_keys(proto)
  known = set(res.sample_system.variable_keys)
  if res.assignment_map is None:
    # Documented: nothing to decide.
    mon.check(not known, "empty result although there are decisions",
              decisions=sorted(map(str, known)))
    mon.check(math.isnan(res.utility_dual_bound)
              and math.isnan(res.solution_utility)
              and res.solution_info is None and res.assignment_vector is None,
              "empty result")
    for f in (runner.show_suggestion, runner.show_edits, runner.show_utilities,
              runner.show_optimization_details):
      pages, text = shown_by(f, res)
      mon.check(not pages and text.strip() == demo_runner.EMPTY_RESULT_MESSAGE,
                "empty result displayed", text=text)
    mon.check(runner.get_extracted_parts(res) is None, "parts of nothing")
    mon.event("empty")
  else:
    full = {k: res.assignment_map.get(k, editgen.NA) for k in keys}
    mon.note(solution=full)
    if math.isfinite(res.solution_utility):
      judge_solution(rng, mon, task, runner, res, proto, targets, full, ctx)
    else:
      mon.event("infeasible")
  if rng.random() < 0.5:
    judge_baselines(rng, mon, task, runner, lang, ctx, samples[pi], toks)
  if rng.random() < 0.4:
    judge_probs(rng, mon, runner, ctx, samples[pi])


def judge_solution(rng, mon, task, runner, res, proto, targets, full, ctx):
  why = editgen.why_malformed(proto, full)
  mon.check(why is None, "the solution is not well formed", why=why)
  costs = [task.cost(proto, t, full) for t in targets]
  n = len(targets)
  mon.close(res.solution_utility, -math.fsum(costs) / n,
            "utility of the solution", tol=1e-7)
  for got, c in zip(res.solution_info["sample_system_costs_unsorted"], costs):
    mon.close(got, c, "cost for a sample", tol=1e-7)
  mon.eq(len(res.solution_info["sample_system_costs_unsorted"]), n,
         "number of costs")
  mon.event("utilities")
  tol = 1e-6 * (1 + sum(map(abs, costs)))
  mon.check(res.utility_dual_bound >= res.solution_utility - tol,
            "the bound is below the utility", bound=res.utility_dual_bound,
            utility=res.solution_utility)
  tight = res.utility_dual_bound <= res.solution_utility + tol
  mon.event("certified", int(tight))
  mon.close(res.utility_dual_bound, -res.opt_results.objective_at_step[-1],
            "reported bound")
  parts, _ = p23.expected(proto, full, "")
  mon.eq([tuple(x) for x in res.solution_info["extracted_parts"]], parts,
         "extracted parts")
  judge_parts(mon, runner, res, parts)

  pages, text = shown_by(runner.show_suggestion, res)
  mon.eq((len(pages), text), (1, ""), "suggestion displayed once")
  marked, _ = p23.expected(proto, full, "\ufe19")
  want = "".join(x for x, _ in marked)
  if task.kind != "calls":
    want = ctx + want
  out, bad = p25.spans(pages[0])
  mon.check(not bad, "malformed HTML", html=pages[0])
  mon.eq("".join(d for c, d in out if c != "br"), want, "suggestion displayed",
         html=pages[0])
  pages, text = shown_by(runner.show_edits, res)
  mon.eq((len(pages), text), (1, ""), "edits displayed once")
  direct = task.wrapper.render_pairwise_matching_html(
      prototype=res.packed_prototype, context_info=res.context_info,
      targets=res.packed_targets, system=res.sample_system,
      assignments=res.assignment_map)
  mon.eq(pages[0], direct, "edits displayed")
  pages, text = shown_by(runner.show_utilities, res)
  mon.check(not pages, "utilities displayed as a page")
  lines = [x for x in text.split("\n") if x]
  mon.eq(len(lines), n, "utilities displayed", text=text)
  for i, (line, c) in enumerate(zip(lines, costs)):
    head, _, tail = line.partition(": ")
    mon.eq(head, f"Target {i}", "name of the target")
    mon.check(abs(float(tail) + c) <= 1e-5 * (1 + abs(c)), "utility displayed",
              line=line, cost=c)
  mon.event("displayed", 3)

  if rng.random() < 0.5:
    del pyplot.FIGURES[:]
    shown_by(runner.show_optimization_details, res)
    mon.eq(len(pyplot.FIGURES), 1, "plots")
    axs = pyplot.FIGURES[0][1]
    mon.eq(len(axs), 3, "panels")
    o = res.opt_results
    series = [(np.arange(len(o.objective_at_step)), o.objective_at_step),
              (o.variable_at_step, o.objective_at_step),
              (o.time_at_sweep, o.objective_at_sweep)]
    for ax, (x, y) in zip(axs, series):
      plots = [a for name, a, _ in ax.calls if name == "plot"]
      mon.eq(len(plots), 1, "curves")
      gx, gy = plots[0][:2]
      mon.check(np.array_equal(np.asarray(gx), np.asarray(x))
                and np.allclose(np.asarray(gy), -np.asarray(y), equal_nan=True),
                "curve plotted", got=plots[0])
      hs = [k.get("y", a[0] if a else None) for name, a, k in ax.calls
            if name == "axhline"]
      mon.check(len(hs) == 1 and hs[0] == res.solution_utility,
                "utility plotted", got=hs)
    mon.event("plots")

  # The order of the samples does not matter to a certified optimum.
  if tight and n > 1 and rng.random() < 0.3:
    perm = list(range(n))
    rng.shuffle(perm)
    texts = mon.context["samples"]
    again = runner.combine(ctx, [texts[q] for q in perm],
                           prototype_index=perm.index(mon.context["index"]))
    if math.isfinite(again.solution_utility):
      mon.check(again.solution_utility <= res.solution_utility + tol
                and again.utility_dual_bound >= res.solution_utility - tol,
                "the order of the samples matters",
                first=res.solution_utility, second=again.solution_utility)
      mon.event("reordered")


def judge_baselines(rng, mon, task, runner, lang, ctx, text, toks):
  if toks is None:
    toks = p11.random_tokens(rng, text)
  text = "".join(t for t, _ in toks)
  mon.note(model_tokens=toks)
  w = task.wrapper
  h = parser_tools.ParserHelper(lang)
  nodes = h.parse_to_nodes(ctx + text)
  packed, info = w.process_prototype_and_context(nodes, len(ctx))
  proto = e2e.unpack(packed)
  if treegen.count(proto) > 80:
    return
  target = w.process_target(h.parse_to_nodes(ctx + text), len(ctx))
  want = w.build_baseline_assignments(packed, target, info, toks)
  got = runner.build_baselines(ctx, list(toks))
  mon.eq(set(got), set(want), "baselines")
  keys = editgen.all_keys(proto)
  for name, b in got.items():
    mon.eq(b.assignment_map, want[name], "baseline " + name)
    mon.eq(e2e.unpack(b.packed_prototype), proto, "prototype of a baseline")
    mon.eq(e2e.unpack(b.packed_prototype_as_target), e2e.unpack(target),
           "target of a baseline")
    full = {k: b.assignment_map.get(k, editgen.NA) for k in keys}
    mon.note(baseline=(name, full))
    parts, _ = p23.expected(proto, full, "")
    mon.eq([tuple(x) for x in b.solution_info["extracted_parts"]], parts,
           "parts of a baseline")
    judge_parts(mon, runner, b, parts)
    pages, out = shown_by(runner.show_suggestion, b)
    mon.eq((len(pages), out), (1, ""), "baseline displayed once")
    marked, _ = p23.expected(proto, full, "\ufe19")
    sp, bad = p25.spans(pages[0])
    mon.check(not bad, "malformed HTML", html=pages[0])
    mon.eq("".join(d for c, d in sp if c != "br"),
           ("" if task.kind == "calls" else ctx) + "".join(
               x for x, _ in marked), "baseline displayed", html=pages[0])
    mon.event("baselines")


def judge_probs(rng, mon, runner, ctx, text):
  toks = p11.random_tokens(rng, text)
  mon.note(model_tokens=toks)
  for realign in (False, True):
    pages, out = shown_by(runner.show_token_probs, ctx, list(toks), realign)
    mon.eq((len(pages), out), (1, ""), "probabilities displayed once")
    r = read(mon, pages[0])
    got = "".join(r.text).replace("\u21a9\n", "\n")
    mon.eq(got, ctx + text, "text displayed with probabilities", html=pages[0])
    if not realign:
      want = [math.exp(p) for t, p in toks]
    else:
      # One per piece of the parsed suggestion; decorations are certain.
      tree = treegen.tup(runner.parser_helper.parse_to_nodes(ctx + text))
      ref = p11.Spans(toks)
      want = []
      for _, x in treegen.walk(e2e.p09.expected(tree, len(ctx), mon)):
        if x[0] in ("tok", "dec"):
          lp, _ = ref.take(len(x[1]))
          want.append(math.exp(lp) if x[0] == "tok" else 1.0)
      mon.event("realigned", len(want))
    rgb = [s for s in r.colours if "background-color" in s]
    mon.eq(len(rgb), len(want), "number of tokens displayed")
    for s, p in zip(rgb, want):
      g = float(s.split("rgb(")[1].split(",")[1].strip().rstrip("%"))
      mon.close(g, 100 * p, "colour of a token", tol=1e-4)
    mon.event("probs")
