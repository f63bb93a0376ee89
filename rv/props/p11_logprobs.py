"""P11: model log-probabilities are attributed to the parsed text they cover."""
import html.parser
import math

from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import token_prob_align as tpa
from r_u_sure.wrappers import parser_tools
from rv import codegen
from rv import common
from rv import treegen

ID = "P11"
RULE = (
    "random trees/parsed code with random model tokenizations (aligned,"
    " misaligned, empty tokens, longer than the parse, corrupted); nontrivial:"
    " distinct (tokenization, tree) with 2+ tokens each"
)
QUICK = dict(cases=30000, budget=70)
THOROUGH = dict(cases=900000, budget=780)
MIN_EVENTS = {"big": 100, "aligned": 1000, "nodes": 5000, "misaligned_nodes": 1000,
              "rejected": 500, "leftover_rejected": 200, "html": 500,
              "zero_length_tokens": 300, "spans": 3000}


class Spans:
  """Position-based reference of span log-probabilities."""

  def __init__(self, toks):
    self.iv = []
    pos = 0
    for t, lp in toks:
      self.iv.append((pos, pos + len(t), lp))
      pos += len(t)
    self.total = pos
    self.pos = 0
    self.i = 0

  def take(self, n):
    end = self.pos + n
    rest = list(enumerate(self.iv))[self.i :]
    if n == 0:
      used = rest[:1]
      if used and used[0][1][0] == used[0][1][1]:
        self.i += 1
    else:
      used = [r for r in rest if r[1][0] < end]
      self.i = next((j for j, (s, e, _) in rest if e > end or s >= end),
                    len(self.iv))
    self.pos = min(end, self.total)
    return sum(lp for _, (_, _, lp) in used), len(used)


def random_tokens(rng, text):
  toks = []
  i = 0
  while i < len(text):
    if rng.random() < 0.1:
      toks.append("")
    n = rng.choice([1, 1, 2, 3, 5, 9])
    toks.append(text[i : i + n])
    i += n
  if rng.random() < 0.2:
    toks.append("")
  return [(t, -rng.choice([0.0, 0.1, 0.5, 1.25, 3.0, rng.random() * 5]))
          for t in toks]


class Reader(html.parser.HTMLParser):
  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack = []
    self.out = []
    self.bad = False

  def handle_starttag(self, tag, attrs):
    self.stack.append((tag, dict(attrs)))
    if tag != "span":
      self.bad = True
    if len(self.stack) == 2:
      self.out.append([dict(attrs).get("style"), ""])

  def handle_endtag(self, tag):
    if not self.stack or self.stack.pop()[0] != tag:
      self.bad = True

  def handle_data(self, data):
    if len(self.stack) == 2:
      self.out[-1][1] += data
    else:
      self.bad = True


def run_case(rng, mon, idx):
  if idx % 5 == 4:
    lang = rng.choice(["python", "cpp", "java"])
    seq = parser_tools.ParserHelper(lang).parse_to_nodes(
        codegen.any_code(rng, lang, max_stmts=3))
  elif idx % 50 == 7:
    seq = treegen.big(rng)
    mon.event("big")
  else:
    seq = treegen.tree(rng, max_nodes=rng.choice([2, 6, 14]))
  t = treegen.tup(seq)
  text = treegen.text(t)
  extra = "".join(rng.choice(["x", "yz", " ", "\n"]) for _ in range(
      rng.choice([0, 0, 1, 4])))
  toks = random_tokens(rng, text + extra)
  given = list(toks)
  mon.note(tree=t, tokens=toks)
  st = psn.pack(seq)
  ref = Spans(toks)
  want = {}
  flat = []
  for i, (p, x) in enumerate(treegen.walk(t)):
    if x[0] in ("tok", "dec"):
      lp, used = ref.take(len(x[1]))
      if x[0] == "tok":
        want[i] = lp
        flat.append((x[1], lp))
        mon.event("nodes")
        if used > 1:
          mon.event("misaligned_nodes")
      else:
        flat.append((x[1], 0.0))
  mon.event("zero_length_tokens", sum(1 for a, _ in toks if not a))
  got = tpa.align_token_log_probs(toks, st)
  mon.event("aligned")
  mon.eq(sorted(got), sorted(want), "not exactly the token nodes got a log-prob")
  for i in want:
    mon.close(got[i], want[i], "log-prob of a node", node=i)
  mon.eq(toks, given, "input tokens were modified")
  again = list(tpa.flatten_token_log_probs_from_parsed(st, got))
  mon.eq([a for a, _ in again], [a for a, _ in flat], "flattened tokens")
  for (_, a), (_, b) in zip(again, flat):
    mon.close(a, b, "flattened log-prob")
  leftover = bool(extra)
  if leftover:
    mon.raises(ValueError, lambda: tpa.align_token_log_probs(
        toks, st, must_consume_all_model_tokens=True),
        "unconsumed model tokens were accepted")
    mon.event("leftover_rejected")
  else:
    full = tpa.align_token_log_probs(toks, st, must_consume_all_model_tokens=True)
    mon.eq(full, got, "consuming all tokens changes the result")

  # A model text that is not an extension of the parsed text is refused.
  if text:
    j = rng.randrange(len(text))
    how = rng.randrange(3)
    if how == 0:
      c = rng.choice("qQ#~")
      other = text[:j] + c + text[j + 1 :] + extra
    elif how == 1:
      other = text[:j]
    else:
      other = text[:j] + "\u0001" + text[j:] + extra
    if not other.startswith(text):
      bad = random_tokens(rng, other)
      mon.note(bad=bad)
      mon.raises(ValueError, lambda: tpa.align_token_log_probs(bad, st),
                 "a different text was aligned")
      mon.event("rejected")

  # The span helper itself.
  helper = tpa.SpanProbHelper.build(list(toks))
  ref = Spans(toks)
  whole = text + extra
  pos = 0
  for _ in range(rng.randint(1, 8)):
    n = rng.choice([0, 1, 2, 3, 7])
    s, lp = helper.advance_by_length(n)
    wlp, _ = ref.take(n)
    mon.eq(s, whole[pos : pos + n], "span text", length=n)
    mon.close(lp, wlp, "span log-prob", length=n)
    mon.event("spans")
    pos = min(len(whole), pos + n)
    if rng.random() < 0.3:
      done = pos == len(whole)
      try:
        helper.assert_consumed()
        ok = True
      except ValueError:
        ok = False
      mon.eq(ok, done, "assert_consumed disagrees with the remaining text")

  if rng.random() < 0.3:
    src = tpa.render_tokens_and_log_probs_to_html(toks)
    r = Reader()
    r.feed(src)
    r.close()
    mon.check(not r.bad and not r.stack, "malformed token HTML", html=src)
    mon.eq([c for _, c in r.out], [a.replace("\n", "\u21a9\n") for a, _ in toks],
           "token HTML does not show the tokens")
    for (style, _), (_, lp) in zip(r.out, toks):
      nums = style[style.index("rgb(") + 4 : style.index(")")].split(",")
      vals = [float(v.strip().rstrip("%")) for v in nums]
      p = math.exp(lp) * 100
      for v, w in zip(vals, (100.0, p, p)):
        mon.close(v, w, "shade does not encode the probability")
    mon.event("html")
  if len(toks) >= 2 and treegen.count(t) >= 2:
    mon.key(t, [a for a, _ in toks])
  mon.sample(dict(tree=t, tokens=toks[:6]))
