"""P23: annotated output shows the prototype's text and exactly its regions."""
import html.parser

from r_u_sure.edit_distance_utility import region_decisions as rd
from rv import editgen
from rv import treegen

ID = "P23"
RULE = (
    "random prototypes (hostile text: markup, quotes, empty tokens) with random"
    " admissible annotations; extracted tokens and rendered HTML compared with a"
    " walk of the tree; nontrivial: distinct (prototype, annotation) with a"
    " region or an exit"
)
QUICK = dict(cases=60000, budget=60)
THOROUGH = dict(cases=3000000, budget=780)
MIN_EVENTS = {"annotated": 10000, "regions": 3000, "empty_regions": 300,
              "exits": 2000, "html": 10000, "open_at_exit": 200, "escaped": 2000}
WORDS = editgen.WORDS + ["<script>", "&amp;", '"', "'", "\n", "  ", "</span>",
                         "\u2028", "\x0b"]


def expected(t, a, marker):
  out = []
  state = dict(inside=False, empty=False, stop=False)

  def rec(nodes):
    for i, x, kids in nodes:
      if state["stop"]:
        return
      v = a.get(editgen.key_of(i, x))
      if x[0] in ("tok", "dec"):
        out.append((x[1], state["inside"]))
        state["empty"] = False
      elif x[0] == "grp":
        rec(kids)
      elif v != editgen.T:
        continue
      elif x[0] == "RS":
        state.update(inside=True, empty=True)
      elif x[0] == "RE":
        if state["empty"]:
          out.append((marker, True))
        state.update(inside=False, empty=False)
      else:
        state["stop"] = True

  rec(editgen.numbered(t)[0])
  return out, state["inside"]


class Reader(html.parser.HTMLParser):
  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack = []
    self.out = []
    self.bad = False

  def handle_starttag(self, tag, attrs):
    cls = dict(attrs).get("class", "")
    if tag == "style":
      self.bad |= bool(self.stack)
    elif tag != "span" or cls != ("regions_root", "in_region", "?")[
        min(2, len(self.stack))]:
      self.bad = True
    self.stack.append(tag)

  def handle_endtag(self, tag):
    if not self.stack or self.stack.pop() != tag:
      self.bad = True

  def handle_data(self, data):
    if self.stack == ["style"]:
      return
    if not self.stack:
      self.bad |= bool(data.strip())
      return
    inside = len(self.stack) == 2
    if self.out and self.out[-1][1] == inside:
      self.out[-1][0] += data
    else:
      self.out.append([data, inside])


def merged(seq):
  out = []
  for text, inside in seq:
    if not text:
      continue
    if out and out[-1][1] == inside:
      out[-1][0] += text
    else:
      out.append([text, inside])
  return out


def run_case(rng, mon, idx):
  if idx % 100 == 1:
    t = editgen.big_prototype(rng, size=40, words=WORDS)
    mon.event("big")
  else:
    t = editgen.prototype(rng, max_nodes=rng.choice([2, 5, 9]), words=WORDS)
  if idx % 100 == 2:
    # Very long tokens.
    t = editgen.retext(t, lambda x: x * rng.choice([1, 700, 9000]))
  if idx % 100 == 1 or rng.random() < 0.2:
    a = editgen.random_annotation(rng, t, p_exit=rng.choice([0.0, 0.15]))[0]
  elif rng.random() < 0.3:
    anns = editgen.annotations(t, limit=30)
    if not anns:
      return
    a = rng.choice(anns)
  else:
    r = editgen.random_decisions(rng, t)
    if r is None:
      return
    a = r[0]
  mon.note(prototype=t, annotation=a)
  given = dict(a)
  sp = editgen.pack(t)
  marker = rng.choice([None, "", "...", "<m>"])
  kw = {} if marker is None else dict(empty_region_marker=marker)
  want, open_end = expected(t, a, marker or "")
  got = [(x.token_or_decoration, x.in_annotated_region)
         for x in rd.extract_sequence_with_regions(sp, a, **kw)]
  mon.eq(got, want, "extracted tokens and regions")
  mon.eq(a, given, "assignments were modified")
  plain = treegen.text(editgen.strip(t))
  exits = any(k.category == editgen.C.SHOULD_EARLY_EXIT and v == editgen.T
              for k, v in a.items())
  if not marker:
    text = "".join(x for x, _ in got)
    mon.check(plain.startswith(text) and (exits or text == plain),
              "text of the suggestion changed", text=text)
  mon.event("annotated")
  mon.event("exits", int(exits))
  mon.event("open_at_exit", int(exits and open_end))
  n = sum(v == editgen.T and k.category == editgen.C.REGION_SHOULD_START
          for k, v in a.items())
  mon.event("regions", n)
  empties = expected(t, a, "\ufffc")[0].count(("\ufffc", True))
  mon.event("empty_regions", empties)
  if n or exits:
    mon.key(t, sorted(a.items()))
  colors = rng.choice([{}, dict(region_text_color="#111111",
                                region_border_color="#222222",
                                region_background_color="#333333")])
  s = rd.render_regions_to_html(sp, a, **colors)
  r = Reader()
  r.feed(s)
  r.close()
  mon.check(not r.bad and not r.stack, "malformed HTML", html=s)
  mon.eq(r.out, merged(expected(t, a, "\ufe19")[0]),
         "HTML does not show the regions", html=s)
  for c in colors.values():
    mon.check(c in s, "color is not used", html=s)
  mon.event("html")
  mon.event("escaped", int("&" in s))
