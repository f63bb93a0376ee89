"""P31: figures of edit, selection and constraint DAGs are true maps of them."""
import html
import math

from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.rendering import dag_annotator as da
from r_u_sure.rendering import svg_renderer
from rv import editgen
from rv.props import p20_edit_cost as p20
from rv.props import p22_part_selection as p22
from rv.props import p29_figures as p29

ID = "P31"
RULE = (
    "random prototypes, targets, prices and figure settings; every state, edge,"
    " text and region annotation of the edit, part selection and constraint DAGs"
    " compared with positions and labels derived independently from the trees;"
    " drawn figures recorded and the SVG searched; nontrivial: distinct"
    " (prototype, target, kind of DAG) with 3+ states"
)
QUICK = dict(cases=20000, budget=75)
THOROUGH = dict(cases=200000, budget=780)
MIN_EVENTS = {"edit": 300, "select": 300, "constraint": 300, "states": 20000,
              "edges": 20000, "texts": 2000, "regions": 500, "drawn": 100,
              "svg": 100, "exits": 50, "traced": 1000}
A = ed.EditDagStateAlignment
ALIGN = {A.PROCESS_PROTOTYPE: "Advance", A.MAY_DELETE: "Delete",
         A.MAY_INSERT: "Insert", A.MATCH: "Match",
         A.RECURSIVELY_DELETING: "Delete (forced)",
         A.RECURSIVELY_INSERTING: "Insert (forced)",
         A.SPECIAL_FINAL_STATE: "Final State"}
CONF = {ed.EditDagStateConfidence.HIGH_CONFIDENCE: "High",
        ed.EditDagStateConfidence.LOW_CONFIDENCE: "Low",
        ed.EditDagStateConfidence.NOT_APPLICABLE: "N/A"}
S = psd.DagStateCategory
SEL = {S.SKIP_UNSELECTED_IN_PROTOTYPE: "Skip Prototype",
       S.SKIP_IN_TARGET: "Skip Target", S.SELECT_UNMATCHED: "Unmatched",
       S.SELECT_MATCHED: "Matched", S.SPECIAL_FINAL_STATE: "Final State"}
Q = cd.ConstraintDagStateCategory
CON = {Q.OUTSIDE_ANNOTATED_REGION: "Outside", Q.IN_REGION_TEMPORARY: "In region",
       Q.IN_REGION_FORCED: "In region (forced)",
       Q.SPECIAL_FINAL_STATE: "Final State"}
KEYS = {editgen.C.REGION_SHOULD_START: "start",
        editgen.C.REGION_SHOULD_END: "end", editgen.C.NODE_IN_REGION: "in",
        editgen.C.SHOULD_EARLY_EXIT: "exit"}
VALUES = {editgen.T: "true", editgen.F: "false", editgen.NA: "N/A"}


def reading_order(t):
  """{(sequence, position): rank} and {sequence: (first rank, last rank)}."""
  rank, span = {}, {}

  def rec(nodes, seq):
    first = len(rank)
    for i, (k, x, kids) in enumerate(nodes):
      rank[seq, i] = len(rank)
      if x[0] == "grp":
        rec(kids, k)
    rank[seq, len(nodes)] = len(rank)
    span[seq] = (first, len(rank) - 1)
  rec(editgen.numbered(t)[0], -1)
  return rank, span


def leaves(t):
  """[(sequence, position, node)] of everything that is not a group."""
  out = []

  def rec(nodes, seq):
    for i, (k, x, kids) in enumerate(nodes):
      if x[0] == "grp":
        rec(kids, k)
      else:
        out.append((seq, i, x))
  rec(editgen.numbered(t)[0], -1)
  return out


def apart(a, b):
  tol = 1e-9 * (1 + abs(a.left) + abs(a.top))
  return (a.right <= b.left + tol or b.right <= a.left + tol
          or a.bottom <= b.top + tol or b.bottom <= a.top + tol)


def inside(a, b):
  tol = 1e-6
  return (a.left >= b.left - tol and a.right <= b.right + tol
          and a.top >= b.top - tol and a.bottom <= b.bottom + tol)


def judge_states(mon, dag, ann, cfg, final, text, xrank, yrank):
  """Returns {state: annotation}."""
  states = {dag.initial_state, dag.final_state}
  for e in dag.edges:
    states |= {e.source, e.dest}
  got = {s: ann.annotate_state(s) for s in states}
  for s, a in got.items():
    mon.note(state=s, annotation=a)
    mon.check(math.isclose(a.bounds.width, cfg.state_width, rel_tol=1e-6)
              and math.isclose(a.bounds.height, cfg.state_height, rel_tol=1e-6),
              "size of a state")
    mon.eq(a.display_text, text(s), "label of a state")
    mon.eq((a.hover_text, a.text_size), (repr(s), cfg.font_size),
           "hover text and size of a state")
  # A state is as far right (down) as its place in the prototype (target) says.
  for rank, low, high, what in (
      (xrank, lambda b: b.left, lambda b: b.right, "horizontal"),
      (yrank, lambda b: b.top, lambda b: b.bottom, "vertical")):
    if rank is None:
      continue
    at = {}
    for s, a in got.items():
      if s != final:
        at.setdefault(rank(s), []).append((low(a.bounds), high(a.bounds)))
    for r in at:
      if what == "horizontal":
        mon.check(max(x for x, _ in at[r]) - min(x for x, _ in at[r]) < 1e-6,
                  "states of one column are not aligned", column=r)
    rs = sorted(at)
    for r1, r2 in zip(rs, rs[1:]):
      mon.check(max(y for _, y in at[r1]) <= min(x for x, _ in at[r2]) + 1e-6,
                f"{what} order of states", places=(r1, r2))
  mon.check(all(a.bounds.left >= max(b.bounds.right for t, b in got.items()
                                     if t != final) - 1e-6
                for s, a in got.items() if s == final),
            "final state is not last")
  items = sorted(got.items(), key=lambda sa: sa[1].bounds.left)
  for q, (s, a) in enumerate(items):
    for s2, a2 in items[q + 1 :]:
      if a2.bounds.left >= a.bounds.right:
        break
      mon.check(apart(a.bounds, a2.bounds), "two states overlap", states=(s, s2))
  mon.event("states", len(got))
  return got


def judge_edges(mon, dag, ann, cfg, got, tags, kinds):
  for e in dag.edges:
    a = ann.annotate_edge(e)
    mon.note(edge=e, annotation=a)
    want = f"{e.cost}"
    expect = list(tags(e))
    r = e.required_assignment
    if r is not None:
      want += f"\n{KEYS[r.key.category]}: {VALUES[r.value]}"
      expect += [r.key.category.name, r.value.name]
    mon.eq((a.display_text, a.hover_text, a.text_size),
           (want, repr(e), cfg.font_size), "texts of an edge")
    mon.eq(sorted(a.style_tags), sorted(expect), "tags of an edge")
    same = math.isclose(got[e.source].bounds.left, got[e.dest].bounds.left,
                        abs_tol=1e-9)
    vertical = a.primary_axis == da.ElbowEdgeOrientation.VERTICAL
    if kinds:
      mon.eq(vertical, same, "direction of an edge")
    else:
      mon.check(not vertical, "direction of an edge")
    mon.check(0 <= a.start_alignment <= 1 and 0 <= a.end_alignment <= 1
              and 0 <= a.text_alignment <= 1 and 0 <= a.elbow_distance <= 1,
              "edge leaves its states")
    # Edges whose info was wrapped by the packer look the same.
    if e.info is not None:
      w = ann.annotate_edge(e._replace(info={"original_info": e.info}))
      mon.eq((w.display_text, w.style_tags, w.primary_axis, w.elbow_distance,
              w.elbow_distance_adjust, w.start_alignment, w.end_alignment,
              w.text_alignment, w.text_alignment_adjust),
             (a.display_text, a.style_tags, a.primary_axis, a.elbow_distance,
              a.elbow_distance_adjust, a.start_alignment, a.end_alignment,
              a.text_alignment, a.text_alignment_adjust),
             "annotation of a traced edge")
      mon.event("traced")
  mon.event("edges", len(dag.edges))


def describe(x):
  return {"tok": lambda: (repr(x[1])[1:-1], "text_token"),
          "dec": lambda: (repr(x[1])[1:-1], "text_decoration"),
          "RS": lambda: ("\u27ea", "region_start"),
          "RE": lambda: ("\u27eb", "region_end"),
          "EX": lambda: ("\u279e|", "early_exit")}[x[0]]()


def judge_texts(mon, texts, want, cfg, got, final):
  """want: [(text, tag, hover words, low x, high x, low y, high y)]."""
  mon.eq([(a.display_text, tuple(a.style_tags)) for a in texts],
         [(w[0], (w[1],)) for w in want], "texts of the figure")
  for a, w in zip(texts, want):
    mon.note(text=a)
    b = a.bounds
    mon.check(b.left >= w[3] - 1e-6 and b.right <= w[4] + 1e-6
              and b.top >= w[5] - 1e-6 and b.bottom <= w[6] + 1e-6,
              "place of a text", want=w[3:])
    mon.eq(a.text_size, cfg.font_size, "size of a text")
    for word in w[2]:
      mon.check(repr(word) in (a.hover_text or ""), "hover text of a text",
                word=word)
    mon.check(b.width > 0 and b.height > 0, "text without room")
  items = sorted([(a.bounds, a) for a in got.values()]
                 + [(a.bounds, a) for a in texts], key=lambda x: x[0].left)
  for q, (b, a) in enumerate(items):
    for b2, a2 in items[q + 1 :]:
      if b2.left >= b.right:
        break
      mon.check(apart(b, b2), "text overlaps something", boxes=(a, a2))
  mon.event("texts", len(texts))


def spans(got, final, rank, low, high):
  out = {}
  for s, a in got.items():
    if s != final:
      r = rank(s)
      lo, hi = out.get(r, (math.inf, -math.inf))
      out[r] = (min(lo, low(a.bounds)), max(hi, high(a.bounds)))
  return out


def between(span, r):
  """Room between the last place up to r and the first one after it."""
  lo = max((hi for q, (_, hi) in span.items() if q <= r), default=-math.inf)
  hi = min((lo for q, (lo, _) in span.items() if q > r), default=math.inf)
  return lo, hi


def edit(rng, mon, p, t, cfg_kw):
  sp, st = editgen.pack(p), editgen.pack(t)
  dag, render = EDIT[rng.randrange(2)](sp, st, editgen.params(rng))
  cfg = ed.EditDagRenderConfig(**cfg_kw)
  ann = ed.EditDagGraphAnnotator(prototype=sp, target=st, render_data=render,
                                 render_config=cfg)
  prank, pspan = reading_order(p)
  trank, tspan = reading_order(t)

  def text(s):
    if s == ed.FINAL_STATE:
      return "Final State"
    return f"{ALIGN[s.alignment]} {CONF[s.confidence]}"
  xr = lambda s: prank[s.prototype_sequence_preorder_index,
                       s.before_prototype_node]
  yr = lambda s: trank[s.target_sequence_preorder_index, s.before_target_node]
  got = judge_states(mon, dag, ann, cfg, ed.FINAL_STATE, text, xr, yr)

  def tags(e):
    out = [f"from_{e.source.alignment.name}", f"to_{e.dest.alignment.name}",
           f"from_{e.source.confidence.name}", f"to_{e.dest.confidence.name}"]
    if e.info is not None:
      out.append(e.info.edit_action.name)
      mon.event("exits", int(e.info.edit_action == ed.EditAction.EARLY_EXIT))
    return out
  judge_edges(mon, dag, ann, cfg, got, tags, True)
  extra = list(ann.extra_annotations())
  regions = [x for x in extra if isinstance(x, da.RegionAnnotation)]
  texts = [x for x in extra if isinstance(x, da.TextAnnotation)]
  # One region per pair of sequences that are aligned with each other.
  pairs = {(-1, -1): None}
  pn, tn = {}, {}

  def index(nodes, seq, out):
    out[seq] = [(k, x) for k, x, _ in nodes if x[0] == "grp"]
    for k, x, kids in nodes:
      if x[0] == "grp":
        index(kids, k, out)
  index(editgen.numbered(p)[0], -1, pn)
  index(editgen.numbered(t)[0], -1, tn)
  todo = [(-1, -1)]
  while todo:
    a, b = todo.pop()
    for k, x in pn[a]:
      for k2, y in tn[b]:
        if x[1] == y[1] and (k, k2) not in pairs:
          pairs[k, k2] = None
          todo.append((k, k2))
  mon.eq(sorted((s.prototype_preorder_index, s.target_preorder_index)
                for s in render.subproblem_list), sorted(pairs), "subproblems")
  mon.eq(len(regions), len(pairs), "regions of the figure")
  want = []
  for a, b in pairs:
    want.append(frozenset(
        s for s in got if s != ed.FINAL_STATE
        and pspan[a][0] <= xr(s) <= pspan[a][1]
        and tspan[b][0] <= yr(s) <= tspan[b][1]))
  have = [frozenset(s for s, x in got.items() if inside(x.bounds, r.bounds))
          for r in regions]
  mon.eq(sorted(map(hash, have)), sorted(map(hash, want)),
         "states in the regions")
  for r in regions:
    for s, x in got.items():
      mon.check(inside(x.bounds, r.bounds) or apart(x.bounds, r.bounds),
                "state on the border of a region", state=s, region=r)
  mon.event("regions", len(regions))
  xs = spans(got, ed.FINAL_STATE, xr, lambda b: b.left, lambda b: b.right)
  ys = spans(got, ed.FINAL_STATE, yr, lambda b: b.top, lambda b: b.bottom)
  top = min(lo for lo, _ in ys.values())
  left = min(lo for lo, _ in xs.values())
  want = []
  for seq, i, x in leaves(p):
    txt, tag = describe(x)
    lo, hi = between(xs, prank[seq, i])
    want.append((txt, tag, x[1:2], lo, hi, -math.inf, top))
  for seq, i, x in leaves(t):
    txt, tag = describe(x)
    lo, hi = between(ys, trank[seq, i])
    want.append((txt, tag, x[1:2], -math.inf, left, lo, hi))
  judge_texts(mon, texts, want, cfg, got, ed.FINAL_STATE)
  mon.event("edit")
  return dag, ann, got


def constraint(rng, mon, p, t, cfg_kw):
  sp = editgen.pack(p)
  dag = CONSTRAINT[rng.randrange(2)](sp)
  cfg = cd.ConstraintDagRenderConfig(**cfg_kw)
  ann = cd.ConstraintDagGraphAnnotator(prototype=sp, render_config=cfg)
  prank, _ = reading_order(p)
  xr = lambda s: prank[s.prototype_sequence_preorder_index,
                       s.before_prototype_node]
  got = judge_states(mon, dag, ann, cfg, cd.FINAL_STATE,
                     lambda s: CON[s.category], xr, None)
  judge_edges(mon, dag, ann, cfg, got, lambda e: [], False)
  # Deeper groups are drawn lower.
  xs = spans(got, cd.FINAL_STATE, xr, lambda b: b.left, lambda b: b.right)
  depth = spans(got, cd.FINAL_STATE, lambda s: s.outside_region_nesting_level,
                lambda b: b.top, lambda b: b.bottom)
  for r1, r2 in zip(sorted(depth), sorted(depth)[1:]):
    mon.check(depth[r1][1] <= depth[r2][0] + 1e-6, "levels overlap",
              levels=depth)
  top = min(lo for lo, _ in depth.values())
  want = []
  for seq, i, x in leaves(p):
    txt, tag = describe(x)
    lo, hi = between(xs, prank[seq, i])
    want.append((txt, tag, x[1:2], lo, hi, -math.inf, top))
  judge_texts(mon, list(ann.extra_annotations()), want, cfg, got,
              cd.FINAL_STATE)
  mon.event("constraint")
  return dag, ann, got


def select(rng, mon, p, t, cfg_kw):
  p = tuple(p)
  util = p22.make_util(rng, ("T", "U"))
  builder = psd.make_selection_dag_builder(
      psd.PartSelectionUtilityParameters(
          token_node_utility_fn=lambda n: psd.UtilitiesAndCostsForNode(
              *util(("tok", n.text_contents, n.match_type)))),
      with_numba=rng.random() < 0.5)
  sp, st = editgen.pack(p), editgen.pack(t)
  dag = builder(sp, st)
  cfg = psd.PartSelectionDagRenderConfig(**cfg_kw)
  ann = psd.PartSelectionGraphAnnotator(prototype=sp, target=st,
                                        render_config=cfg)
  xr = lambda s: s.prototype_in_order_traversal_before
  yr = lambda s: s.target_in_order_traversal_before
  got = judge_states(mon, dag, ann, cfg, psd.FINAL_STATE,
                     lambda s: SEL[s.category], xr, yr)
  judge_edges(mon, dag, ann, cfg, got,
              lambda e: [f"from_{e.source.category.name}",
                         f"to_{e.dest.category.name}"], True)
  xs = spans(got, psd.FINAL_STATE, xr, lambda b: b.left, lambda b: b.right)
  ys = spans(got, psd.FINAL_STATE, yr, lambda b: b.top, lambda b: b.bottom)
  top = min(lo for lo, _ in ys.values())
  left = min(lo for lo, _ in xs.values())

  def what(kind, x):
    return {"tok": lambda: (repr(x[1])[1:-1], "text_token"),
            "RS": lambda: ("Region Start", "region_start"),
            "RE": lambda: ("Region End", "region_end"),
            "before": lambda: ("Group Start", "group_start"),
            "after": lambda: ("Group End", "group_end")}[kind]()
  want = []
  for i, (kind, _, x) in enumerate(p22.in_order(p)):
    txt, tag = what(kind, x)
    lo, hi = between(xs, i)
    want.append((txt, tag, x[1:2] if kind == "tok" else (), lo, hi, -math.inf,
                 top))
  for i, (kind, _, x) in enumerate(p22.in_order(t)):
    txt, tag = what(kind, x)
    lo, hi = between(ys, i)
    want.append((txt, tag, x[1:2] if kind == "tok" else (), -math.inf, left, lo,
                 hi))
  judge_texts(mon, list(ann.extra_annotations()), want, cfg, got,
              psd.FINAL_STATE)
  mon.event("select")
  return dag, ann, got


def setup():
  global EDIT, CONSTRAINT
  EDIT = [ed.make_edit_dag_builder(with_numba=n) for n in (False, True)]
  CONSTRAINT = [cd.make_constraint_dag_builder(with_numba=n)
                for n in (False, True)]


def drawn(rng, mon, dag, ann, got):
  """The figure as a whole."""
  rec = p29.Recorder()
  da.render_dag(dag, ann, rec)
  extra = list(ann.extra_annotations())
  boxes = [(c[1], c[2], c[5]) for c in rec.calls if c[0] == "box"]
  want = [(x.bounds, x.display_text, x.hover_text) for x in extra
          if isinstance(x, da.TextAnnotation)]
  want += [(a.bounds, a.display_text, a.hover_text) for a in got.values()]
  mon.eq(sorted(map(repr, boxes)), sorted(map(repr, want)), "boxes drawn")
  labels = [c[2] for c in rec.calls if c[0] == "at"]
  mon.eq(sorted(labels), sorted(ann.annotate_edge(e).display_text
                                for e in dag.edges), "labels drawn")
  mon.eq(sum(c[0] == "container" for c in rec.calls),
         sum(isinstance(x, da.RegionAnnotation) for x in extra), "regions drawn")
  mon.event("drawn")
  if len(dag.edges) > 150:
    return
  r = svg_renderer.SVGRenderer()
  da.render_dag(dag, ann, r)
  page = html.unescape(r.to_html())
  for a in got.values():
    mon.check(a.display_text in page, "state is not in the SVG", state=a)
  css = page.replace(" ", "")
  mon.check("rect.label_in_box.text_token" in page
            and "--edge-annotation-color:black" in css,
            "style of the figure is missing")
  mon.event("svg")


def run_case(rng, mon, idx):
  kind = idx % 3
  p, t = p20.random_pair(rng, rng.choice([2, 3, 5]))
  if kind == 1:
    p = editgen.prototype(rng, max_nodes=rng.choice([2, 4, 6]), exits=False)
    t = editgen.mutate(rng, editgen.strip(p), 0.4)
  n = lambda: rng.choice([1.0, 7.5, 12.0, 20.0, 130.0, rng.uniform(0.5, 200)])
  cfg_kw = {} if rng.random() < 0.2 else dict(
      font_size=n(), state_width=n(), state_height=n(), gap_horizontal=n(),
      gap_vertical=n(), state_separation=n())
  mon.note(prototype=p, target=t, settings=cfg_kw, kind=kind)
  dag, ann, got = (edit, select, constraint)[kind](rng, mon, p, t, cfg_kw)
  if len(got) >= 3:
    mon.key(p, t, kind)
  if idx % 2 == 0:
    drawn(rng, mon, dag, ann, got)
