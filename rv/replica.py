"""One case of the whole pipeline as a log of what it produced.

Also runs as a process of its own (python -m rv.replica): reads case names,
answers with their logs.
"""
import contextlib
import dataclasses
import hashlib
import io
import json
import random
import sys

from IPython import display as shown
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as cs
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.rendering import dag_annotator as da
from r_u_sure.rendering import svg_renderer
from r_u_sure.wrappers import call_sequence_wrapper as csw
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper as ptw
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from rv import codegen
from rv import editgen
from rv import parse_util
from rv import treegen
from rv.props import p11_logprobs as p11
from rv.props import p20_edit_cost as p20
from rv.props import p30_demo as p30

SLOW_S = 3.0  # solving that takes longer may run into the documented timeout


class Objects:
  """Long-lived objects, made on first use."""

  def __init__(self):
    self.made = {}

  def get(self, key, make):
    if key not in self.made:
      self.made[key] = make()
    return self.made[key]

  def wrapper(self, kind, p=None):
    one = {} if p is None else dict(effective_precision=p)
    two = {} if p is None else dict(uncertainty_region_effective_precision=p,
                                    start_editing_cost=2 * p)
    return self.get(("wrapper", kind, p), {
        "regions": lambda: urw.UncertaintyRegionsWrapper(use_numba=False, **one),
        "prefix": lambda: ptw.PrefixByEditDistanceWrapper(use_numba=False, **two),
        "both": lambda: ptw.PrefixByEditDistanceWrapper(
            also_insert_uncertainty_regions=True, use_numba=False, **two),
        "calls": lambda: csw.ApiCallSequenceWrapper(
            use_numba=False, **one)}[kind])

  def runner(self, kind, lang, p=None):
    return self.get(("runner", kind, lang, p), lambda: demo_runner.DemoRunner(
        self.wrapper(kind, p), language=lang))

  def helper(self, lang, flatten=False):
    return self.get(("helper", lang, flatten),
                    lambda: parser_tools.ParserHelper(lang, flatten=flatten))


def plain(x, depth=0):
  """A text that is equal exactly for equal results."""
  if depth > 60:
    return "..."
  if isinstance(x, np.ndarray):
    return plain(x.tolist(), depth + 1)
  if isinstance(x, np.generic):
    return repr(x.item())
  if isinstance(x, float):
    return repr(x)
  if isinstance(x, dict):
    return "{" + ",".join(sorted(
        plain(k, depth + 1) + ":" + plain(v, depth + 1)
        for k, v in x.items())) + "}"
  if isinstance(x, (set, frozenset)):
    return "{" + ",".join(sorted(plain(v, depth + 1) for v in x)) + "}"
  if isinstance(x, (list, tuple)):
    return "[" + ",".join(plain(v, depth + 1) for v in x) + "]"
  if dataclasses.is_dataclass(x) and not isinstance(x, type):
    return type(x).__name__ + plain(
        {f.name: getattr(x, f.name) for f in dataclasses.fields(x)}, depth + 1)
  return repr(x)


def shown_by(fn, *a, **k):
  del shown.SHOWN[:]
  buf = io.StringIO()
  with contextlib.redirect_stdout(buf):
    fn(*a, **k)
  return [x.data for x in shown.SHOWN], buf.getvalue()


class Log:
  """Operations that do not depend on each other, and what they gave."""

  def __init__(self):
    self.ops = []
    self.entries = []

  def put(self, stage, value, comparable=True):
    s = value if isinstance(value, str) else plain(value)
    self.entries.append((stage, hashlib.blake2b(
        s.encode("utf8", "surrogatepass"), digest_size=10).hexdigest()
                         if comparable else None, s[:400]))

  def op(self, fn, *args):
    self.ops.append((fn, args))

  def run(self, rng):
    """Runs them in any order; entries in the order they were added."""
    head = self.entries
    order = list(range(len(self.ops)))
    rng.shuffle(order)
    parts = {}
    for i in order:
      fn, args = self.ops[i]
      self.entries = []
      fn(self, *args)
      parts[i] = self.entries
    for i in sorted(parts):
      head += parts[i]
    self.entries = head
    return head


def parse_op(log, lang, text, indent):
  root, tokens, types, raw, fixes = parse_util.run_parser(lang, text, indent)
  log.put("tree", (parse_util.tup(root), tokens, types, raw, fixes))


def nodes_op(log, objects, lang, flatten, text):
  log.put("nodes",
          treegen.tup(objects.helper(lang, flatten).parse_to_nodes(text)))


def dag_op(log, p, t, params):
  sp, st = editgen.pack(p), editgen.pack(t)
  dag, render = ed.make_edit_dag_builder(with_numba=False)(sp, st, params)
  log.put("edges", dag.edges)
  ann = ed.EditDagGraphAnnotator(sp, st, render, ed.EditDagRenderConfig())
  r = svg_renderer.SVGRenderer()
  da.render_dag(dag, ann, r)
  log.put("figure", r.to_html())
  pack = ed.pack_dag(gsd.prune_to_reachable(dag))
  log.put("packed", pack[0])
  log.put("variables", list(pack[1].variable_key_index_from_key.items()))


def constraint_op(log, p):
  sp = editgen.pack(p)
  cdag = cd.make_constraint_dag_builder(with_numba=False)(sp)
  log.put("constraint edges", cdag.edges)
  pack = cd.pack_dag(gsd.prune_to_reachable(cdag))
  log.put("packed", pack[0])
  log.put("variables", list(pack[1].variable_key_index_from_key.items()))


def combine_op(log, runner, ctx, samples, index, seed):
  res = runner.combine(ctx, samples, prototype_index=index)
  slow = (res.opt_results is not None and len(res.opt_results.time_at_sweep)
          and res.opt_results.time_at_sweep[-1] > SLOW_S)
  ok = not slow
  log.put("prototype", treegen.tup(editgen.psn.unpack(res.packed_prototype)))
  log.put("context", res.context_info)
  log.put("variables", list(res.sample_system.variable_keys))
  if res.opt_results is not None:
    log.put("bounds", res.opt_results.objective_at_step, ok)
    log.put("steps", res.opt_results.variable_at_step, ok)
  log.put("assignments", res.assignment_map, ok)
  log.put("utility", (res.solution_utility, res.utility_dual_bound), ok)
  log.put("information", res.solution_info, ok)
  if res.assignment_map is not None:
    for f in ("show_suggestion", "show_edits", "show_utilities"):
      log.put(f, shown_by(getattr(runner, f), res), ok)
    log.put("parts", runner.get_extracted_parts(res), ok)
  if len(res.sample_system.variable_keys):
    clones = []
    for _ in range(2):
      c = cs.clone_system(res.sample_system)
      cs.break_symmetry_randomly(c, noise_scale=0.1, random_seed=seed)
      clones.append(plain(c.data.extra_unary_costs))
    log.put("perturbed", clones, ok)


def baselines_op(log, runner, ctx, toks):
  base = runner.build_baselines(ctx, toks)
  for name in sorted(base):
    log.put("baseline " + name,
            (base[name].assignment_map, base[name].solution_info))
  log.put("baseline names", list(base))


def case(name, objects, order=0):
  """[(stage, digest or None if not comparable, excerpt)]."""
  rng = random.Random(name)
  log = Log()
  what = rng.choice(["parse", "combine", "combine", "combine", "dag"])
  if what == "parse":
    lang = rng.choice(codegen.LANGS)
    text = codegen.any_code(rng, lang)
    log.put("input", (lang, text))
    others = rng.sample([x for x in codegen.LANGS if x != lang], 1)
    for one in [lang] + others:
      for indent in rng.sample([1, 2, 4], 2):
        log.op(parse_op, one, text, indent)
    if len(text) < 400 and text.strip():
      for one in [lang] + others + ["raw_simple_tokens"]:
        if one == "python_preprocessor":
          one = "python"
        for flatten in (False, True):
          log.op(nodes_op, objects, one, flatten, text)
    return log.run(random.Random(f"{name}/{order}"))
  if what == "dag":
    p, t = p20.random_pair(rng, rng.choice([2, 3]))
    log.put("input", (p, t))
    for _ in range(2):
      log.op(dag_op, p, t, editgen.params(rng))
    log.op(constraint_op, p)
    log.op(constraint_op, t)
    return log.run(random.Random(f"{name}/{order}"))
  kind = rng.choice(["regions", "prefix", "both", "calls"])
  from rv import common  # pylint: disable=g-import-not-at-top
  lang, ctx, samples, toks = p30.inputs(rng, common.Monitor())
  if kind == "calls":
    lang = "python"
    if rng.random() < 0.7:
      ctx = rng.choice(["import os\n", "x = 1\n", ""])
      calls = ["os.open(x)", "foo.bar(y, z)", "print(a.b(c))", "f(g(h))",
               "x.y.z()", "self.run(1)"]
      samples = ["\n".join(rng.sample(calls, rng.randint(1, 4))) + "\n"
                 for _ in range(rng.choice([2, 3]))]
      toks = None
  samples = [s[:40] for s in samples[:3]]
  log.put("input", (kind, lang, ctx, samples))
  runner = objects.runner(kind, lang)
  log.op(combine_op, runner, ctx, samples, rng.randrange(len(samples)),
         rng.choice([0, 1, rng.randrange(1000)]))
  toks = p11.random_tokens(rng, samples[0])
  log.op(baselines_op, runner, ctx, toks)
  if rng.random() < 0.4:
    # The same texts in another place, or for another task or setting.
    how = rng.choice(["context", "task", "language", "setting", "order"])
    small = [s[:25] for s in samples[:2]]
    log.op(combine_op, runner, ctx, small, 0, 1)
    if how == "context":
      log.op(combine_op, runner, rng.choice(["# (", "f(", "if x:\n  ", "'"]) + ctx,
             small, 0, 1)
    elif how == "task":
      log.op(combine_op, objects.runner(
          rng.choice(["regions", "prefix", "both"]), lang), ctx, small, 0, 1)
    elif how == "language":
      log.op(combine_op, objects.runner(
          kind, rng.choice(["python", "java", "raw_simple_tokens"])),
             ctx, small, 0, 1)
    elif how == "setting":
      log.op(combine_op, objects.runner(kind, lang, 0.45), ctx, small, 0, 1)
    else:
      log.op(combine_op, runner, ctx, small[::-1], 0, 1)
      log.op(baselines_op, runner, ctx, [(x, lp - 0.5) for x, lp in toks])
  return log.run(random.Random(f"{name}/{order}"))


def main():
  objects = Objects()
  out = sys.stdout
  sys.stdout = sys.stderr
  for line in sys.stdin:
    names, order = json.loads(line)
    ans = []
    for n in names:
      try:
        ans.append(case(n, objects, order))
      except Exception as e:  # pylint: disable=broad-except
        ans.append([("exception", f"{type(e).__name__}: {e}",
                     f"{type(e).__name__}: {e}")])
    out.write(json.dumps(ans) + "\n")
    out.flush()


if __name__ == "__main__":
  sys.setrecursionlimit(20000)
  main()
