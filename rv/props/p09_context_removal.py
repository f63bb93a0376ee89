"""P09: removing the first k characters keeps exactly what follows."""
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import parser_tools
from rv import codegen
from rv import treegen

ID = "P09"
RULE = (
    "random node trees and parsed code with decision markers, truncated at"
    " every character offset (small trees) or sampled offsets; nontrivial:"
    " distinct (tree, offset) with text on both sides"
)
QUICK = dict(cases=20000, budget=70)
THOROUGH = dict(cases=600000, budget=780)
MIN_EVENTS = {"big": 100, "offsets": 20000, "inside_node": 3000, "at_boundary": 3000,
              "zero": 1000, "past_end": 1000, "straddled_groups": 1000}


def expected(t, offset, mon):
  if offset == 0:
    return t
  # The text node in which (or right after which) the cut falls.
  pos = 0
  cut = None
  for path, x in treegen.walk(t):
    if x[0] in ("tok", "dec"):
      if pos + len(x[1]) >= offset:
        cut = path
        rest = x[1][offset - pos :]
        break
      pos += len(x[1])
  if cut is None:
    return ()

  def rec(seq, path):
    out = []
    for i, x in enumerate(seq):
      p = path + (i,)
      if p == cut:
        if rest:
          out.append((x[0], rest) + x[2:])
          mon.event("inside_node")
        else:
          mon.event("at_boundary")
      elif p > cut:
        out.append(x)
      elif cut[: len(p)] == p:  # a group around the cut
        out.append(("grp", x[1], rec(x[2], p)))
        mon.event("straddled_groups")
    return tuple(out)

  return rec(t, ())


def run_case(rng, mon, idx):
  if idx % 4 == 3:
    lang = rng.choice(["python", "cpp", "java", "simple"])
    seq = parser_tools.ParserHelper(lang).parse_to_nodes(
        codegen.any_code(rng, lang, max_stmts=3))
    seq = transforms.insert_early_exit(seq)
    seq = transforms.insert_region_options_around_subsequences(
        seq, allow_empty_regions=rng.random() < 0.5)
  elif idx % 50 == 4:
    seq = treegen.big(rng, empty_text=rng.random() < 0.7)
    mon.event("big")
  else:
    seq = treegen.tree(rng, max_nodes=rng.choice([4, 8, 16]),
                       empty_text=rng.random() < 0.7)
  t = treegen.tup(seq)
  whole = treegen.text(t)
  n = len(whole)
  if n <= 25:
    offsets = list(range(n + 3))
  else:
    offsets = sorted({0, 1, n - 1, n, n + 1} | {rng.randint(0, n) for _ in range(8)})
  for k in offsets:
    mon.note(tree=t, offset=k)
    mon.event("offsets")
    got = treegen.tup(transforms.truncate_prefix_at_offset(seq, k))
    mon.eq(treegen.text(got), whole[k:], "remaining text is not the suffix")
    want = expected(t, k, mon)
    mon.eq(got, want, "what follows the offset was not kept exactly")
    mon.eq(treegen.tup(seq), t, "input was modified")
    if k == 0:
      mon.event("zero")
    if k > n:
      mon.event("past_end")
    if 0 < k < n:
      mon.key(t, k)
  mon.sample(dict(tree=t, offsets=offsets[:10]))
