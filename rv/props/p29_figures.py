"""P29: figures of DAGs are complete, placed as annotated, and safe."""
import contextlib
import html.parser
import math
import re

from IPython import display as shown
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.rendering import dag_annotator as da
from r_u_sure.rendering import render_in_notebook
from r_u_sure.rendering import rendering as rd
from r_u_sure.rendering import simple_dag_annotator as sda
from r_u_sure.rendering import svg_renderer as svg
from rv import daggen

ID = "P29"
RULE = (
    "random drawing commands through the SVG renderer, read back with an HTML"
    " parser; random DAGs drawn with random annotations through a recording"
    " renderer and the notebook path; every state, edge, label, hover text and"
    " position compared with the annotations; nontrivial: distinct (commands or"
    " DAG)"
)
QUICK = dict(cases=30000, budget=110)
THOROUGH = dict(cases=600000, budget=800)
MIN_EVENTS = {"commands": 10000, "labels": 3000, "multiline": 1000,
              "groups": 1000, "dags": 1000, "states": 4000, "edges": 4000,
              "highlighted": 500, "lowlit": 500, "unreachable": 500,
              "simple": 1000, "coloured": 300, "notebook": 300, "no_hover": 300,
              "geometry": 2000}
D = rd.PointDirection
WORDS = ["a", "<b>", "x & y", "\"q\"", "'", "a\nb", "\n", "", "</g>", "</title>",
         "&lt;", "\u00e9\u4e2d", "--><script>", "l1\nl2\nl3", "  pad  ", "]]>"]
TAGS = ["hot", "a-b", "c_d", "t1"]
VOID = {"br"}


class Reader(html.parser.HTMLParser):
  """Reads markup into a tree; complains about anything unbalanced."""

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.root = ["#", {}, []]
    self.stack = [self.root]
    self.bad = []

  def handle_starttag(self, tag, attrs):
    e = [tag, dict(attrs), []]
    self.stack[-1][2].append(e)
    if tag not in VOID:
      self.stack.append(e)

  def handle_startendtag(self, tag, attrs):
    self.stack[-1][2].append([tag, dict(attrs), []])

  def handle_endtag(self, tag):
    if len(self.stack) == 1 or self.stack[-1][0] != tag:
      self.bad.append(tag)
    else:
      self.stack.pop()

  def handle_data(self, data):
    if data:
      self.stack[-1][2].append(data)


def read(s):
  r = Reader()
  r.feed(s)
  r.close()
  if len(r.stack) > 1:
    r.bad.append("unclosed " + r.stack[-1][0])
  return r.root, r.bad


def elements(e):
  for c in e[2]:
    if not isinstance(c, str):
      yield c
      yield from elements(c)


def text_of(e):
  return "".join(c if isinstance(c, str) else text_of(c) for c in e[2])


def stray(e):
  """Text outside text, title and style elements."""
  if e[0] in ("text", "title", "style"):
    return ""
  return "".join(c.strip() if isinstance(c, str) else stray(c) for c in e[2])


def drawn_groups(e, hover, out):
  """(kind, elements, hover text) of every drawn item, and the groups."""
  for c in e[2]:
    if isinstance(c, str):
      continue
    if c[0] == "g":
      title = [text_of(x) for x in c[2]
               if not isinstance(x, str) and x[0] == "title"]
      shapes = [x for x in c[2] if not isinstance(x, str)
                and x[0] in ("rect", "text", "path", "circle")]
      if shapes:
        out.append(("item", shapes, title))
        # Nothing is nested in an item.
        if any(not isinstance(x, str) and x[0] == "g" for x in c[2]):
          out.append(("BAD", None, None))
      else:
        out.append(("open", c[1].get("class"), title))
        drawn_groups(c, hover, out)
        out.append(("close", None, None))
    elif c[0] not in ("title", "filter"):
      out.append(("BAD", c[0], None))
  return out


def num(rng):
  return rng.choice([0.0, 1.0, -3.5, 100.0, float(rng.randint(-200, 200)),
                     round(rng.uniform(-50, 50), 3)])


def box(rng):
  return rd.BoundingBox(num(rng), num(rng), abs(num(rng)), abs(num(rng)))


def tags(rng):
  return tuple(rng.sample(TAGS, rng.choice([0, 0, 1, 2])))


def hover(rng):
  if rng.random() < 0.01:
    return "edge <q> & \"r\" " * rng.choice([30, 400])
  return rng.choice([None, rng.choice(WORDS)])


def near(a, b):
  return abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(b)))


def geometry(rng, mon):
  b, c = box(rng), box(rng)
  mon.note(box=b, other=c)
  mon.check(near(b.right, b.left + b.width) and near(b.bottom, b.top + b.height),
            "far sides of a box")
  mon.check(near(b.horizontal_center, (b.left + b.right) / 2)
            and near(b.vertical_center, (b.top + b.bottom) / 2), "centre")
  p = b.center_point
  mon.check(near(p.x, b.horizontal_center) and near(p.y, b.vertical_center),
            "centre point")
  u, v = rng.random(), rng.random()
  p = b.point_within(u, v)
  mon.check(near(p.x, b.left + u * b.width) and near(p.y, b.top + v * b.height),
            "point within a box", at=(u, v), got=p)
  q = b.union(c)
  for x, f in (("left", min), ("top", min), ("right", max), ("bottom", max)):
    mon.check(near(getattr(q, x), f(getattr(b, x), getattr(c, x))),
              "union: " + x, got=q)
  s = p.shift(dx=u) if u < v else p.shift(dy=v)
  mon.check(near(s.x, p.x + (u if u < v else 0))
            and near(s.y, p.y + (0 if u < v else v)), "shifted point")
  f = rd.point_interpolator(p, c.center_point)
  r = f(u, v)
  o = c.center_point
  mon.check(near(r.x, p.x * (1 - u) + o.x * u)
            and near(r.y, p.y * (1 - v) + o.y * v), "interpolated point")
  n = rng.choice([2, 5, 30, 100])
  outs = sorted(rd.to_bounded_irrational(i) for i in range(n))
  mon.check(0 <= outs[0] and outs[-1] < 1 + 1e-12, "outside the unit interval")
  gap = min((y - x for x, y in zip(outs, outs[1:])), default=1.0)
  mon.check(gap > 0.3 / n, "values too close", n=n, gap=gap)
  mon.event("geometry")


def commands(rng, r, mon, depth, out, pts):
  for _ in range(rng.choice([1, 2, 3])):
    k = rng.choice(["box", "at", "at", "container", "line", "dot", "group"])
    mon.event("commands")
    t, h = tags(rng), hover(rng)
    if k == "box":
      b, text, size = box(rng), rng.choice(WORDS), rng.choice([10.0, 3.0])
      r.label_in_box(bounds=b, text=text, hover_text=h, text_size=size,
                     style_tags=t)
      out.append(("box", b, text, size, t, h))
      pts += [(b.left, b.top), (b.right, b.bottom)]
      mon.event("labels")
    elif k == "at":
      p, text, size = rd.Point(num(rng), num(rng)), rng.choice(WORDS), rng.choice(
          [10.0, 3.0])
      d = rng.choice(list(D))
      kw = rng.choice([{}, dict(padding_fraction=rng.choice([0.0, 1.0, 2.0]))])
      r.label_at_point(point=p, text=text, text_size=size, direction=d,
                       hover_text=h, style_tags=t, **kw)
      out.append(("at", p, text, size, d, kw.get("padding_fraction", 0.5), t, h))
      pts.append((p.x, p.y))
      mon.event("labels")
      mon.event("multiline", int("\n" in text))
    elif k == "container":
      b = box(rng)
      r.container(bounds=b, style_tags=t)
      out.append(("container", b, t))
      pts += [(b.left, b.top), (b.right, b.bottom)]
    elif k == "line":
      ps = [rd.Point(num(rng), num(rng)) for _ in range(rng.choice([1, 2, 4]))]
      r.line(points=ps, hover_text=h, style_tags=t)
      out.append(("line", ps, t, h))
      pts += [(p.x, p.y) for p in ps]
    elif k == "dot":
      p = rd.Point(num(rng), num(rng))
      r.dot(point=p, hover_text=h, style_tags=t)
      out.append(("dot", p, t, h))
      pts.append((p.x, p.y))
    elif depth < 3:
      out.append(("open", t, h))
      with r.group(hover_text=h, style_tags=t):
        commands(rng, r, mon, depth + 1, out, pts)
      out.append(("close",))
      mon.event("groups")


def classes(e):
  return sorted((e[1].get("class") or "").split())


def style(e):
  out = {}
  for part in (e[1].get("style") or "").split(";"):
    if ":" in part:
      k, v = part.split(":", 1)
      out[k.strip()] = v.strip()
  return out


def judge_rect(mon, e, b, cls):
  mon.check(all(near(e[1][k], v) for k, v in (
      ("x", b.left), ("y", b.top), ("width", b.width), ("height", b.height))),
            "box drawn elsewhere", got=e[1], want=b)
  mon.eq(classes(e), sorted(cls), "classes of a box")


def judge_texts(mon, es, text, size, x, ys, cls):
  lines = text.split("\n")
  mon.eq([text_of(e) for e in es], lines, "text drawn")
  for e, y in zip(es, ys):
    mon.check(near(e[1]["x"], x) and near(e[1]["y"], y), "text drawn elsewhere",
              got=e[1], want=(x, y))
    mon.check(near(e[1]["font-size"], size), "size of text", got=e[1])
    mon.eq(classes(e), sorted(cls), "classes of text")


def judge_item(mon, c, shapes, title, with_hover):
  kind = c[0]
  mon.note(command=c)
  if kind == "container":
    mon.eq(title, [], "hover text of a container")
  else:
    h = c[-1]
    mon.eq(title, [h] if with_hover and h is not None else [], "hover text")
  names = [s[0] for s in shapes]
  if kind == "box":
    _, b, text, size, t, _ = c
    lines = text.split("\n")
    mon.eq(sorted(names), ["rect"] + ["text"] * len(lines), "shapes of a label")
    judge_rect(mon, next(s for s in shapes if s[0] == "rect"), b,
               t + ("label_in_box",))
    mon.eq(names[0], "rect", "the text is hidden by its box")
    n = len(lines)
    ys = [b.top + b.height / 2 + size * (i - (n - 1) / 2) for i in range(n)]
    judge_texts(mon, shapes[1:], text, size, b.left + b.width / 2, ys,
                ("label_in_box",))
  elif kind == "at":
    _, p, text, size, d, pad, t, _ = c
    n = len(text.split("\n"))
    mon.eq(names, ["text"] * n, "shapes of a label")
    name = d.name
    if name.startswith("UP"):
      ys = [p.y - pad * size - size * (n - i - 0.5) for i in range(n)]
    elif name.startswith("DOWN"):
      ys = [p.y + pad * size + size * (i + 0.5) for i in range(n)]
    elif name == "AROUND":
      above = (n + 1) // 2
      ys = [p.y + size * (i - above + 0.5) for i in range(n)]
    else:
      ys = [p.y + size * (i - (n - 1) / 2) for i in range(n)]
    side = "LEFT" if "LEFT" in name else "RIGHT" if "RIGHT" in name else ""
    x = p.x + {"LEFT": -1, "RIGHT": 1, "": 0}[side] * pad * size
    judge_texts(mon, shapes, text, size, x, ys, t + ("label_at_point",))
    anchor = {"LEFT": "end", "RIGHT": "start", "": "middle"}[side]
    for e in shapes:
      mon.eq(style(e).get("text-anchor"), anchor, "anchor of text")
      mon.check(style(e).get("dominant-baseline") in ("middle", "central"),
                "text is not centred on its line", got=e[1])
  elif kind == "container":
    mon.eq(names, ["rect"], "shapes of a container")
    judge_rect(mon, shapes[0], c[1], c[2] + ("container",))
  elif kind == "line":
    mon.eq(names, ["path"], "shapes of a line")
    got = shapes[0][1]["d"].replace("M", " ").replace("L", " ").split()
    want = [v for p in c[1] for v in (p.x, p.y)]
    mon.check(len(got) == len(want) and all(map(near, got, want)),
              "line drawn elsewhere", got=got)
    mon.eq(classes(shapes[0]), sorted(c[2] + ("line",)), "classes of a line")
  else:
    mon.eq(names, ["circle"], "shapes of a dot")
    mon.check(near(shapes[0][1]["cx"], c[1].x)
              and near(shapes[0][1]["cy"], c[1].y), "dot drawn elsewhere")
    mon.eq(classes(shapes[0]), sorted(c[2] + ("dot",)), "classes of a dot")


def judge_svg(mon, markup, cmds, pts, padding, with_hover, css):
  root, bad = read(markup)
  mon.check(not bad, "malformed markup", bad=bad, markup=markup)
  mon.eq(stray(root), "", "text outside of labels", markup=markup)
  for e in elements(root):
    mon.check(e[0] in ("style", "svg", "defs", "marker", "path", "circle", "g",
                       "rect", "text", "title", "filter", "femorphology",
                       "fecolormatrix", "fegaussianblur", "feblend"),
              "markup injected", tag=e[0])
    mon.check(not any(k.startswith("on") for k in e[1]), "handler injected")
  svgs = [e for e in elements(root) if e[0] == "svg"]
  mon.eq(len(svgs), 1, "number of figures")
  styles = "".join(text_of(e) for e in elements(root) if e[0] == "style")
  for s in css:
    mon.check(s in styles, "style sheet missing", want=s)
  ids = {e[1]["id"] for e in elements(root) if "id" in e[1]}
  for ref in re.findall(r"url\(#([^)]*)\)", markup):
    mon.check(ref in ids, "reference to nothing", ref=ref, ids=ids)
    mon.event("references")
  left, top, width, height = map(float, svgs[0][1]["viewbox"].split())
  if pts:
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
  else:
    xs, ys = [0, 10], [0, 10]
  mon.check(near(left, min(xs) - padding) and near(top, min(ys) - padding)
            and near(left + width, max(xs) + padding)
            and near(top + height, max(ys) + padding),
            "the visible area is not what was drawn", got=svgs[0][1]["viewbox"],
            points=pts, padding=padding)
  body = [c for c in svgs[0][2] if not isinstance(c, str) and c[0] == "g"]
  mon.eq(len(body), 1, "body of the figure")
  out = []
  drawn_groups(body[0], with_hover, out)
  want = cmds
  mon.eq(len(out), len(want), "number of items drawn", got=out, want=want)
  for o, c in zip(out, want):
    if c[0] == "open":
      mon.eq(o[0], "open", "group")
      mon.eq(sorted((o[1] or "").split()), sorted(c[1]), "classes of a group")
      mon.eq(o[2], [c[2]] if with_hover and c[2] is not None else [],
             "hover text of a group")
    elif c[0] == "close":
      mon.eq(o[0], "close", "end of a group")
    else:
      mon.eq(o[0], "item", "drawn item", command=c)
      judge_item(mon, c, o[1], o[2], with_hover)


def drawing(rng, mon):
  with_hover, defaults = rng.random() < 0.6, rng.random() < 0.5
  mon.event("no_hover", int(not with_hover))
  r = svg.SVGRenderer(with_default_styles=defaults, with_hover_text=with_hover)
  out, pts, css = [], [], []
  if rng.random() < 0.9:
    commands(rng, r, mon, 0, out, pts)
  if rng.random() < 0.3:
    css.append(".t1 { fill: red; }")
    r.configure_style_css(css[0])
  padding = rng.choice([0.0, 10.0, 2.5])
  mon.note(commands=out, hover=with_hover, padding=padding)
  s = r.to_html(padding=padding)
  mon.check(("rect.container" in s) == defaults, "default styles")
  judge_svg(mon, s, out, pts, padding, with_hover, css)
  mon.eq(r.to_html(padding=padding), s, "drawing twice")
  mon.key(repr(out), with_hover, padding)


class Recorder(rd.Renderer):
  """Notes what it is asked to draw."""

  def __init__(self):
    self.calls = []

  def label_in_box(self, bounds, text, hover_text, text_size, style_tags=()):
    self.calls.append(("box", bounds, text, text_size, tuple(style_tags),
                       hover_text))

  def label_at_point(self, point, text, text_size, direction, hover_text=None,
                     padding_fraction=0.5, style_tags=()):
    self.calls.append(("at", point, text, text_size, direction,
                       padding_fraction, tuple(style_tags), hover_text))

  def container(self, bounds, style_tags=()):
    self.calls.append(("container", bounds, tuple(style_tags)))

  def line(self, points, hover_text=None, style_tags=()):
    self.calls.append(("line", list(points), tuple(style_tags), hover_text))

  def dot(self, point, hover_text=None, style_tags=()):
    self.calls.append(("dot", point, tuple(style_tags), hover_text))

  @contextlib.contextmanager
  def group(self, hover_text=None, style_tags=()):
    self.calls.append(("open", tuple(style_tags), hover_text))
    yield
    self.calls.append(("close",))


class Annotator(da.StateDAGAnnotator):
  """Fixed random annotations."""

  def __init__(self, rng, dag):
    self.states = {}
    for e in dag.edges:
      for s in (e.source, e.dest):
        if s not in self.states:
          self.states[s] = da.StateAnnotation(
              bounds=box(rng), display_text=rng.choice(WORDS) + f"#{len(self.states)}",
              text_size=rng.choice([10.0, 4.0]), hover_text=hover(rng),
              style_tags=tags(rng))
    self.edges = {}
    for q, e in enumerate(dag.edges):
      self.edges[e] = da.ElbowEdgeAnnotation(
          primary_axis=rng.choice(list(da.ElbowEdgeOrientation)),
          elbow_distance=rng.random(), start_alignment=rng.random(),
          text_alignment=rng.random(), end_alignment=rng.random(),
          display_text=rng.choice(WORDS) + f"#e{q}", text_size=rng.choice([10.0, 4.0]),
          hover_text=hover(rng), style_tags=tags(rng),
          elbow_distance_adjust=rng.choice([0.0, 3.0]),
          text_alignment_adjust=rng.choice([0.0, -2.0]))
    self.extra = []
    for q in range(rng.choice([0, 0, 1, 2])):
      self.extra.append(rng.choice([
          da.RegionAnnotation(bounds=box(rng), style_tags=tags(rng)),
          da.TextAnnotation(bounds=box(rng), display_text=rng.choice(WORDS),
                            text_size=10.0, hover_text=hover(rng),
                            style_tags=tags(rng))]))
    self.setups = []

  def annotate_state(self, state):
    return self.states[state]

  def annotate_edge(self, edge):
    return self.edges[edge]

  def extra_annotations(self):
    return self.extra

  def renderer_specific_setup(self, renderer):
    self.setups.append(renderer)


def reachable(dag):
  fin = [e for e in dag.edges if e.cost < math.inf]
  fwd, bwd = {dag.initial_state}, {dag.final_state}
  for _ in range(len(fin) + 1):
    fwd |= {e.dest for e in fin if e.source in fwd}
    bwd |= {e.source for e in fin if e.dest in bwd}
  return fwd & bwd


def eq_no_info(a, b):
  return (a.source == b.source and a.dest == b.dest and a.cost == b.cost
          and a.required_assignment == b.required_assignment)


def point_near(p, x, y):
  return near(p.x, x) and near(p.y, y)


def judge_dag(mon, calls, dag, ann, emph):
  """The calls that draw a DAG."""
  ok = reachable(dag)
  calls = list(calls)
  states = dict(ann.states)
  # The extra annotations come first: they are the background.
  for x in ann.extra:
    c = calls.pop(0)
    if isinstance(x, da.RegionAnnotation):
      mon.eq(c[:2], ("container", x.bounds), "background region")
      mon.check(set(x.style_tags) <= set(c[2]), "tags of a region")
    else:
      mon.eq((c[0], c[1], c[2], c[3], c[5]), (
          "box", x.bounds, x.display_text, x.text_size, x.hover_text),
             "background text")
      mon.check(set(x.style_tags) <= set(c[4]), "tags of a text")
  seen = []
  while calls and calls[0][0] == "box":
    c = calls.pop(0)
    s = next((s for s, x in states.items() if x.display_text == c[2]), None)
    mon.check(s is not None and s not in seen, "unknown or repeated state",
              call=c)
    seen.append(s)
    x = states[s]
    mon.eq((c[1], c[3], c[5]), (x.bounds, x.text_size, x.hover_text), "state")
    tag = "reachable-state" if s in ok else "unreachable-state"
    other = {"reachable-state": "unreachable-state",
             "unreachable-state": "reachable-state"}[tag]
    mon.check(tag in c[4] and other not in c[4]
              and set(x.style_tags) <= set(c[4]) and "state-annotation" in c[4],
              "tags of a state", got=c[4], state=s)
    mon.event("states")
    mon.event("unreachable", int(s not in ok))
  mon.eq(len(seen), len(states), "states drawn")
  left = list(dag.edges)
  while calls:
    c = calls.pop(0)
    mon.eq(c[0], "open", "edge group", call=c)
    inner = []
    while calls and calls[0][0] != "close":
      inner.append(calls.pop(0))
    mon.check(calls, "group left open")
    calls.pop(0)
    mon.eq(sorted(x[0] for x in inner), ["at", "dot", "line"], "parts of an edge")
    line = next(x for x in inner if x[0] == "line")
    dot = next(x for x in inner if x[0] == "dot")
    at = next(x for x in inner if x[0] == "at")
    e = next((e for e in left if ann.edges[e].display_text == at[2]), None)
    mon.check(e is not None, "unknown or repeated edge", call=at)
    left.remove(e)
    mon.note(edge=e)
    x = ann.edges[e]
    a, b = ann.states[e.source].bounds, ann.states[e.dest].bounds
    mon.eq((c[2], at[3]), (x.hover_text, x.text_size), "texts of an edge")
    ps = line[1]
    horizontal = x.primary_axis == da.ElbowEdgeOrientation.HORIZONTAL
    if horizontal:
      start = (a.left + a.width, a.top + x.start_alignment * a.height)
      end = (b.left, b.top + x.end_alignment * b.height)
    else:
      start = (a.left + x.start_alignment * a.width, a.top + a.height)
      end = (b.left + x.end_alignment * b.width, b.top)
    mon.check(len(ps) == 4 and point_near(ps[0], *start)
              and point_near(ps[3], *end), "ends of an edge", got=ps,
              want=(start, end))
    k = x.elbow_distance
    if horizontal:
      mid = start[0] + k * (end[0] - start[0]) + x.elbow_distance_adjust
      good = point_near(ps[1], mid, start[1]) and point_near(ps[2], mid, end[1])
      far = abs(end[1] - start[1]) > x.text_size
      anchor = (mid, start[1] + (x.text_alignment if far else 0)
                * (end[1] - start[1]))
      label = (anchor[0], anchor[1] + x.text_alignment_adjust)
      want_dir = D.RIGHT if far else D.AROUND
      unclear = near(abs(end[1] - start[1]), x.text_size)
    else:
      mid = start[1] + k * (end[1] - start[1]) + x.elbow_distance_adjust
      good = point_near(ps[1], start[0], mid) and point_near(ps[2], end[0], mid)
      anchor = (start[0] + x.text_alignment * (end[0] - start[0]), mid)
      label = (anchor[0] + x.text_alignment_adjust, anchor[1])
      want_dir = D.DOWN_RIGHT
      unclear = False
    mon.check(good, "elbow of an edge", got=ps)
    if not unclear:
      mon.check(point_near(dot[1], *anchor), "anchor of an edge", got=dot[1],
                want=anchor)
      mon.check(point_near(at[1], *label), "label of an edge", got=at[1],
                want=label)
      mon.eq(at[4], want_dir, "side of the label")
    hi = bool(emph) and any(eq_no_info(e, o) for o in emph)
    lo = bool(emph) and not hi
    mon.eq(("highlight" in c[1], "lowlight" in c[1]), (hi, lo), "emphasis",
           tags=c[1])
    mon.event("highlighted", int(hi))
    mon.event("lowlit", int(lo))
    if e.cost < math.inf:
      good = e.source in ok and e.dest in ok
      mon.eq(("reachable-edge" in c[1], "unreachable-edge" in c[1]),
             (good, not good), "reachability of an edge", tags=c[1])
    mon.check(set(x.style_tags) <= set(c[1]) and "edge-annotation" in c[1],
              "tags of an edge")
    mon.event("edges")
  mon.eq(left, [], "edges not drawn")


def wide_dag(rng):
  """Many states and edges."""
  keys = daggen.variable_keys(rng, 4)
  n = rng.choice([40, 90])
  names = ["q" * rng.choice([1, 1, 150]) + str(i) for i in range(n)]
  out = []
  for i in range(n - 1):
    for j in {i + 1, rng.randint(i + 1, n - 1)}:
      if rng.random() < 0.95:
        ra = rng.choice([None, gsd.SharedVariableAssignment(
            rng.choice(keys), rng.random() < 0.5)])
        out.append(gsd.Edge(names[i], names[j], float(rng.randint(0, 5)), ra))
  if names[0] not in {e.source for e in out} or names[-1] not in {
      e.dest for e in out}:
    out.append(gsd.Edge(names[0], names[-1], 0.0, None))
  return gsd.CompleteStateDAG(names[0], out, names[-1])


def random_dag(rng):
  if rng.random() < 0.01:
    return wide_dag(rng)
  keys = daggen.variable_keys(rng, rng.choice([1, 2, 3]))
  d = daggen.dag(rng, keys, [False, True])
  initial, edges, final = (d.initial_state, d.edges, d.final_state) if hasattr(
      d, "edges") else d
  out = []
  for q, e in enumerate(edges):
    if not any(eq_no_info(e, o) for o in out):
      out.append(e)
      if rng.random() < 0.1:
        out.append(gsd.Edge(e.source, e.dest, e.cost, e.required_assignment,
                            info=f"twin{q}"))
  return gsd.CompleteStateDAG(initial, out, final)


def figure(rng, mon):
  dag = random_dag(rng)
  mon.event("wide", int(len(dag.edges) > 60))
  if 40 < len(dag.edges) < 60:
    return
  mon.note(dag=dag)
  ann = Annotator(rng, dag)
  emph = None
  r = rng.random()
  if r < 0.4:
    emph = rng.sample(dag.edges, rng.randrange(len(dag.edges) + 1))
    if rng.random() < 0.3:
      emph = [e._replace(info="other") for e in emph]
  rec = Recorder()
  given = emph
  if emph and rng.random() < 0.2:
    given = iter(emph)
  kw = {} if emph is None else dict(emphasized_edges=given)
  da.render_dag(dag, ann, rec, **kw)
  mon.note(emphasized=emph)
  mon.eq(ann.setups, [rec], "setup of the renderer")
  judge_dag(mon, rec.calls, dag, ann, emph)
  mon.event("dags")
  mon.key(repr(dag), repr(emph))

  # The same figure in a notebook.
  pts = []
  for c in rec.calls:
    if c[0] in ("box", "container"):
      pts += [(c[1].left, c[1].top), (c[1].right, c[1].bottom)]
    elif c[0] == "line":
      pts += [(p.x, p.y) for p in c[1]]
    elif c[0] in ("dot", "at"):
      pts.append((c[1].x, c[1].y))
  del shown.SHOWN[:]
  hov, zoom = rng.random() < 0.6, rng.random() < 0.3
  size = {}
  if rng.random() < 0.5:
    size = dict(max_width=rng.choice([None, "7em"]),
                max_height=rng.choice([None, "9em"]))
  ann.setups.clear()
  if emph is not None:
    kw = dict(emphasized_edges=emph)
  render_in_notebook.render_dag_in_notebook(
      dag, ann, hover_for_info=hov, pan_and_zoom=zoom, **size, **kw)
  pages = [x.data for x in shown.SHOWN if type(x) is shown.HTML]
  scripts = [x for x in shown.SHOWN if isinstance(x, shown.Javascript)]
  mon.eq(len(pages), 1, "figures shown")
  mon.check(type(shown.SHOWN[0]) is shown.HTML, "scripts before the figure")
  cmds = [c for c in rec.calls]
  judge_svg(mon, pages[0], cmds, pts, 10, hov, [da.default_svg_style_css()])
  code = "".join(x.data or "" for x in scripts)
  w = size.get("max_width", "50em")
  h = size.get("max_height", "100em")
  mon.eq(("maxWidth" in code, "maxHeight" in code), (bool(w), bool(h)), "limits")
  mon.check(not w or f'"{w}"' in code, "width limit")
  mon.check(not h or f'"{h}"' in code, "height limit")
  mon.eq("svgPanZoom" in code, zoom, "pan and zoom")
  mon.event("notebook")


class Simple(sda.SimpleDAGAnnotator):
  def __init__(self, table):
    self.table = table

  def bounds_for_state(self, state):
    return self.table[state]


class Painted(Simple):
  """An annotator with colours of its own."""
  known_colors = ("teal", "navy", "red")


def simple(rng, mon):
  dag = random_dag(rng)
  if not dag.edges:
    return
  colours = {}
  edges = []
  kind = Painted if rng.random() < 0.2 else Simple
  for e in dag.edges:
    if rng.random() < 0.3:
      c = rng.choice(kind.known_colors)
      e = e._replace(info={"color": c, "n": 1})
      colours[len(edges)] = c
    edges.append(e)
  states = []
  for e in edges:
    for s in (e.source, e.dest):
      if s not in states:
        states.append(s)
  table = {s: rd.BoundingBox(num(rng), num(rng), 1 + abs(num(rng)),
                             1 + abs(num(rng))) for s in states}
  ann = kind(table)
  mon.note(edges=edges, boxes=table)
  for s in states:
    x = ann.annotate_state(s)
    mon.eq((x.bounds, x.display_text, x.hover_text), (table[s], str(s), repr(s)),
           "state")
  for q, e in enumerate(edges):
    x = ann.annotate_edge(e)
    mon.note(edge=e, annotation=x)
    a, b = table[e.source], table[e.dest]
    horizontal = b.left - a.right >= 0
    mon.eq(x.primary_axis == da.ElbowEdgeOrientation.HORIZONTAL, horizontal,
           "axis of an edge")
    for f in ("elbow_distance", "start_alignment", "text_alignment",
              "end_alignment"):
      v = getattr(x, f)
      mon.check(-1e-9 <= v <= 1 + 1e-9, f + " is not between 0 and 1", value=v)
    off = (b.vertical_center - a.vertical_center if horizontal
           else b.horizontal_center - a.horizontal_center)
    diff = x.start_alignment - x.end_alignment
    if abs(off) > 1e-3:
      mon.check(diff * off > 0, "the edge starts on the far side", offset=off)
    mon.check(str(e.cost) in x.display_text, "cost of an edge")
    ra = e.required_assignment
    mon.eq(" if " in x.display_text, ra is not None, "condition of an edge")
    if ra is not None:
      mon.eq(x.display_text, f"{e.cost} if {ra.key} = {ra.value}", "edge label")
    mon.eq(x.hover_text, repr(e), "hover text of an edge")
    mon.eq(tuple(x.style_tags), (f"color_{colours[q]}",) if q in colours else (),
           "colour")
    mon.event("coloured", int(q in colours))
    mon.event("simple")
  bad = edges[0]._replace(info={"color": rng.choice(
      ["mauve<", "blue" if kind is Painted else "teal"])})
  mon.raises(ValueError, lambda: ann.annotate_edge(bad), "unknown colour")
  r = svg.SVGRenderer()
  ann.renderer_specific_setup(r)
  s = r.to_html()
  for c in set(colours.values()):
    mon.check(f".color_{c} path" in s and f"stroke: {c};" in s, "colour rule")
  rec = Recorder()
  d = gsd.CompleteStateDAG(dag.initial_state, edges, dag.final_state)
  da.render_dag(d, ann, rec)
  mon.eq(sorted(c[2] for c in rec.calls if c[0] == "box"),
         sorted(map(str, states)), "states drawn")
  mon.eq(sorted(c[2] for c in rec.calls if c[0] == "open"),
         sorted(map(repr, edges)), "edges drawn")


def run_case(rng, mon, idx):
  geometry(rng, mon)
  rng.choice([drawing, drawing, figure, simple])(rng, mon)
