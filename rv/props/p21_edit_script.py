"""P21: every path is a legitimate edit script, and is reported faithfully."""
import html.parser
import itertools
import math
import re

from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import edit_dags
from rv import editgen
from rv import treegen
from rv.props import p20_edit_cost as p20

ID = "P21"
RULE = (
    "random prototypes, targets and prices; random complete paths (walks,"
    " cheapest and constrained ones) replayed edge by edge as an edit of the"
    " prototype into the target, and compared with the metrics, the text and the"
    " HTML reported for them; nontrivial: distinct (prototype, target, script)"
    " with 2+ actions"
)
QUICK = dict(cases=16000, budget=75)
THOROUGH = dict(cases=700000, budget=780)
MIN_EVENTS = {"paths": 3000, "KEEP": 2000, "DELETE": 3000, "INSERT": 2000,
              "EARLY_EXIT": 300, "START_LOW_CONFIDENCE": 500,
              "PROTOTYPE_DECORATION": 500, "TARGET_DECORATION": 500,
              "html_spans": 5000, "text_lines": 5000, "matched_groups": 200}
setup = p20.setup
A = edit_dags.EditAction
HIGH = edit_dags.EditDagStateConfidence.HIGH_CONFIDENCE
LOW = edit_dags.EditDagStateConfidence.LOW_CONFIDENCE
NAC = edit_dags.EditDagStateConfidence.NOT_APPLICABLE
NONE = edit_dags.NO_PREORDER_INDEX


def table(t):
  """preorder index -> (node, [ancestor indices])."""
  out = {}

  def rec(nodes, anc):
    for i, x, kids in nodes:
      out[i] = (x, anc)
      rec(kids, anc + [i])
  rec(editgen.numbered(t)[0], [])
  return out


def judge(mon, path, p, t, prm):
  """Replays the path; returns its actions [(action, conf, content, cost)]."""
  pt, tt = table(p), table(t)
  conf = HIGH
  seen_p, seen_t, kept = [], [], []
  decided = {}
  exited = None
  paid = False
  acts = []
  for a, b in zip(path, path[1:]):
    mon.check(a.dest == b.source, "path is not connected")
  for e in path:
    mon.check(exited is None or e.info is None, "something follows the exit")
    r = e.required_assignment
    after = conf
    if r is not None:
      mon.check(r.key not in decided, "decided twice", key=r.key)
      decided[r.key] = r.value
      x = pt[r.key.prototype_preorder_index][0]
      mon.eq(r.key, editgen.key_of(r.key.prototype_preorder_index, x),
             "decision about something else")
      if x[0] in ("tok", "grp"):
        mon.eq(r.value, editgen.T if conf == LOW else editgen.F,
               "status of a node disagrees with its region")
      elif x[0] == "RS":
        mon.check((r.value == editgen.NA) == (conf == LOW), "region start")
        if r.value == editgen.T:
          after = LOW
          mon.check(e.info is not None
                    and e.info.edit_action == A.START_LOW_CONFIDENCE,
                    "start of a region is not reported")
      elif x[0] == "RE":
        mon.check((r.value == editgen.NA) == (conf == HIGH), "region end")
        if r.value == editgen.T:
          after = HIGH
    i = e.info
    if i is None:
      mon.eq(e.cost, 0, "unexplained cost")
      conf = after
      continue
    act = i.edit_action
    mon.event(act.name)
    pi, ti = i.prototype_node_preorder_index, i.target_node_preorder_index
    px = pt[pi][0] if pi != NONE else None
    tx = tt[ti][0] if ti != NONE else None
    n = len(px[1]) if px and len(px) > 1 and px[0] != "grp" else (
        len(tx[1]) if tx else 0)
    hi = conf == HIGH
    want_conf = conf
    if act == A.KEEP:
      mon.check(px and tx and px[0] == tx[0] == "tok" and px == tx,
                "kept tokens differ", pair=(px, tx))
      kept.append((pi, ti))
      want = -n * (prm.high_confidence_match_utility_per_char if hi
                   else prm.low_confidence_match_utility_per_char)
      paid = False
    elif act == A.DELETE:
      mon.check(px and tx is None and px[0] == "tok", "deletes no token")
      mon.check(paid, "deletion without starting an edit")
      want = n * (prm.high_confidence_delete_cost_per_char if hi
                  else prm.low_confidence_delete_cost_per_char)
    elif act == A.INSERT:
      mon.check(tx and px is None and tx[0] == "tok", "inserts no token")
      mon.check(paid, "insertion without starting an edit")
      want = n * prm.insert_cost_per_char
      want_conf = NAC
    elif act == A.PROTOTYPE_DECORATION:
      mon.check(px and tx is None and px[0] == "dec", "no decoration")
      want = 0
    elif act == A.TARGET_DECORATION:
      mon.check(tx and px is None and tx[0] == "dec", "no decoration")
      want = 0
    elif act == A.START_LOW_CONFIDENCE:
      mon.check(r is not None and after == LOW and conf == HIGH,
                "region reported where none starts")
      want = prm.low_confidence_region_cost
      want_conf = NAC
    elif act == A.START_EDITING:
      mon.check(pi == NONE and ti == NONE, "start of edit refers to a node")
      want = (prm.high_confidence_start_editing_cost if hi
              else prm.low_confidence_start_editing_cost)
      paid = True
    else:
      mon.check(act == A.EARLY_EXIT and px and px[0] == "EX"
                and r is not None and r.value == editgen.T, "bad early exit")
      want = 0
      exited = pi
    mon.close(e.cost, want, "cost of an action", tol=1e-9, action=act)
    mon.eq(i.confidence, want_conf, "confidence of an action", action=act)
    if px is not None and px[0] in ("tok", "dec"):
      seen_p.append(pi)
    if tx is not None:
      seen_t.append(ti)
    content = px[1] if px and px[0] in ("tok", "dec") else (tx[1] if tx else "")
    acts.append((act, i.confidence, content, e.cost))
    conf = after
  text_p = [k for k, (x, _) in sorted(pt.items()) if x[0] in ("tok", "dec")
            and (exited is None or k < exited)]
  text_t = [k for k, (x, _) in sorted(tt.items()) if x[0] in ("tok", "dec")]
  mon.eq(seen_p, text_p, "prototype text is not processed exactly once")
  if exited is None:
    mon.eq(seen_t, text_t, "target text is not produced exactly once")
    mon.eq(conf, HIGH, "ends inside a region")
  else:
    mon.eq(seen_t, text_t[: len(seen_t)], "target text out of order")
  fw, bw = {}, {}
  for a, b in kept:
    ap, at = pt[a][1], tt[b][1]
    mon.eq(len(ap), len(at), "kept tokens at different depths")
    for g, h in zip(ap, at):
      mon.eq(pt[g][0][1], tt[h][0][1], "kept inside groups of different types")
      mon.check(fw.setdefault(g, h) == h and bw.setdefault(h, g) == g,
                "a group is matched with two groups")
      mon.event("matched_groups")
  return acts


def grouped(acts):
  """Reporting groups: [(action, conf, text, cost)]."""
  out = []
  last = None
  for act, conf, content, cost in acts:
    if act == A.PROTOTYPE_DECORATION:
      act = A.DELETE if last == A.DELETE else A.KEEP
    elif act == A.TARGET_DECORATION:
      if last == A.KEEP:
        continue
      act, conf = A.INSERT, NAC
    if act not in (A.START_LOW_CONFIDENCE, A.START_EDITING):
      last = act
    if out and out[-1][0] == act and out[-1][1] == conf:
      out[-1][2] += content
      out[-1][3] += cost
    else:
      out.append([act, conf, content, cost])
  return out


class Spans(html.parser.HTMLParser):
  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack = []
    self.out = []
    self.bad = False
    self.styles = 0

  def handle_starttag(self, tag, attrs):
    self.stack.append(tag)
    if tag == "style":
      self.styles += 1
    elif tag == "span":
      if self.stack.count("span") == 2:
        self.out.append([frozenset(dict(attrs).get("class", "").split()), ""])
      elif self.stack.count("span") > 2:
        self.bad = True
    else:
      self.bad = True

  def handle_endtag(self, tag):
    if not self.stack or self.stack.pop() != tag:
      self.bad = True

  def handle_data(self, data):
    if self.stack[-1:] == ["style"]:
      return
    if self.stack.count("span") == 2:
      self.out[-1][1] += data
    elif data:
      self.bad = True


LINE = re.compile(r"(\w+), (\w+): (.*) => (\S+)")


def judge_reports(rng, mon, path, acts, p, t):
  sp, stt = editgen.pack(p), editgen.pack(t)
  m = edit_dags.extract_edit_summary_metrics(path, sp, stt)
  want = {}
  for act, conf, content, cost in acts:
    for k, v in (("cost", cost), ("chars", len(content)), ("edges", 1)):
      k = f"{act.name}_{conf.name}_{k}"
      want[k] = want.get(k, 0) + v
  mon.eq(set(m), set(want), "names of the metrics")
  for k, v in want.items():
    mon.close(m[k], v, "metric " + k, tol=1e-9)
  mon.event("metrics", len(m))

  groups = grouped(acts)
  lines = edit_dags.extract_edit_sequence_text(path, sp, stt).split("\n")
  mon.eq(len(lines), len(groups) + 1, "lines of the edit script", lines=lines)
  for line, (act, conf, content, cost) in zip(lines, groups):
    got = LINE.fullmatch(line)
    mon.check(got, "malformed line", line=line)
    mon.eq((got[1], got[2], got[3]), (act.name, conf.name, repr(content)),
           "line of the edit script")
    mon.close(float(got[4]), cost, "cost in the edit script")
    mon.event("text_lines")
  got = re.fullmatch(r"FINISH \(total cost: (\S+)\)", lines[-1])
  mon.check(got, "malformed last line", line=lines[-1])
  mon.close(float(got[1]), math.fsum(e.cost for e in path), "total cost")

  prefix = rng.choice(["", "x = <b>&", "a\n", '"'])
  marker = rng.choice([None, "<!>", "", "*"])
  style = rng.choice(["", "", "<style>b{}</style>"])
  kw = {} if marker is None else dict(start_editing_marker=marker)
  s = edit_dags.extract_edit_sequence_html(
      path, sp, stt, prefix=prefix, style_override=style, **kw)
  r = Spans()
  r.feed(s)
  r.close()
  mon.check(not r.bad and not r.stack and r.styles == 1, "malformed HTML", html=s)
  if style:
    mon.check(s.startswith(style), "style is not the given one", html=s)
  want = [[frozenset(["prefix"]), prefix]]
  last = None
  for act, conf, content, _ in groups:
    if act == A.START_EDITING:
      content = "፠" if marker is None else marker
    elif not content:
      continue
    cls = set()
    if act == A.INSERT:
      cls.add("insert")
      if last in (HIGH, LOW):
        cls.add("was_" + last.name.lower())
    elif act in (A.DELETE, A.KEEP, A.START_EDITING):
      cls.add(act.name.lower())
    if conf in (HIGH, LOW):
      cls.add(conf.name.lower())
    last = conf
    want.append([frozenset(cls), content])
  mon.eq(r.out, want, "the HTML does not show the edit script", html=s)
  mon.event("html_spans", len(want))


def random_walk(rng, dag):
  out = {}
  for e in dag.edges:
    out.setdefault(e.source, []).append(e)
  path = []
  s = dag.initial_state
  # Prefer matches, otherwise walks are all deletions and insertions.
  bias = rng.choice([1, 4])
  while s != dag.final_state:
    es = out[s]
    w = [bias if (e.cost < 0 or e.required_assignment is None) else 1
         for e in es]
    e = rng.choices(es, w)[0]
    path.append(e)
    s = e.dest
  return path


def run_case(rng, mon, idx):
  big = idx % 100 == 1
  huge = idx % 700 == 1
  p, t = p20.big_pair(rng, huge) if big else p20.random_pair(rng)
  mon.event("big", int(big))
  mon.event("huge", int(huge))
  prm = editgen.params(rng)
  mon.note(prototype=p, target=t, parameters=prm)
  _, _, pruned, (packed, conv) = p20.build(rng, p, t, prm)
  paths = [random_walk(rng, pruned) for _ in range(2)]
  known = conv.variable_key_index_from_key
  cons = {}
  r = editgen.random_decisions(rng, p)
  if r is not None and rng.random() < 0.7:
    cons = {k: v for k, v in r[0].items() if k in known}
  paths.append(pd.constrained_best_path(packed, conv, cons)[0])
  for path in paths:
    path = [e for e in path]
    mon.check(path[0].source == pruned.initial_state
              and path[-1].dest == pruned.final_state, "incomplete path")
    acts = judge(mon, path, p, t, prm)
    mon.event("paths")
    judge_reports(rng, mon, path, acts, p, t)
    if len(acts) > 1:
      mon.key(p, t, tuple(acts))
