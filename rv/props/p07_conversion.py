"""P07: parse trees become node sequences without losing text or structure."""
from r_u_sure.parsing import sequence_from_pseudo_parse as sfp
from r_u_sure.parsing import subtokenizer
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import parser_tools
from rv import codegen
from rv import parse_util
from rv import ref_parse

ID = "P07"
RULE = (
    "random code x languages x conversion options (decoration and subtokenized"
    " node classes, flattening), and random strings for the subtokenizer;"
    " nontrivial: distinct converted trees with 3+ nodes"
)
QUICK = dict(cases=30000, budget=70)
THOROUGH = dict(cases=900000, budget=780)
MIN_EVENTS = {"converted": 2000, "helper": 1000, "flattened": 300,
              "raw_tokens": 200, "subtokenized": 1000, "literal_groups": 300,
              "long_blank_runs": 50, "rejected": 100}


def node_tuple(n):
  if isinstance(n, sn.TextTokenNode):
    return ("token", n.text_contents, n.match_type)
  if isinstance(n, sn.TextDecorationNode):
    return ("deco", n.text_contents)
  if isinstance(n, sn.GroupNode):
    return ("group", n.match_type, tuple(map(node_tuple, n.children)))
  raise TypeError(f"unexpected node {n!r}")


def text_of(t):
  if t[0] == "group":
    return "".join(map(text_of, t[2]))
  return t[1]


def expected_type(tree, texts, types):
  ann, lo, hi, _ = tree
  if ann == "sibling":
    s = "".join(texts[lo:hi])
    if not s:
      return "NON_CONTENT_LEAF"
    if s.strip() == "":
      return "WHITE_SPACE_LEAF"
    if all(k == "STRING" for k in types[lo:hi]):
      return "STRING_LITERAL"
    return "CONTENT_LEAF"
  return {
      "root": "ROOT", "paired": "MATCH", "left": "MATCH_LEFT",
      "right": "MATCH_RIGHT", "middle": "MATCH_INNER", "split": "SPLIT_GROUP",
  }[ann]


def expected(tree, texts, types, deco, sub):
  kind = expected_type(tree, texts, types)
  text = "".join(texts[tree[1] : tree[2]])
  if kind in deco:
    return ("deco", text)
  if kind in sub:
    return ("group", kind, tuple(
        ("token", s, "subtoken") for s in ref_parse.subtokens(text)))
  if not tree[3]:
    return ("token", text, kind)
  return ("group", kind, tuple(
      expected(c, texts, types, deco, sub) for c in tree[3]))


def flatten(ts):
  for t in ts:
    if t[0] == "group":
      yield from flatten(t[2])
    else:
      yield t


def rand_text(rng):
  r = rng.random()
  pool = "aAbBZz019_-+ (.\t\n\"'\u00c9\u00e9\u4e2d\u01c5\u00b2\u0663 "
  if r < 0.25:
    return "".join(rng.choice([" " * rng.randint(1, 45), "\t" * rng.randint(1, 45),
                               "a", "\n", "A", "."])
                   for _ in range(rng.randint(1, 6)))
  if r < 0.35:
    # Long runs of one kind of character.
    out = "".join(
        "".join(rng.choice(c) for _ in range(rng.choice([1, 2, 5, 20, 40, 120])))
        for c in rng.choices(["ABZ", "abz", "0123", "_", "+-", "(.", "\u00c9A",
                              "\u4e2d\u00e9"], k=rng.randint(1, 5)))
    return out
  return "".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 8, 30])))


def size(t):
  return 1 + (sum(map(size, t[2])) if t[0] == "group" else 0)

HELPERS = {}


def run_case(rng, mon, idx):
  kind = idx % 4
  if kind == 0:
    text = rand_text(rng)
    mon.note(text=text)
    want = ref_parse.subtokens(text)
    got = list(subtokenizer.code_to_tokens_simple_lossless(text))
    mon.eq("".join(got), text, "subtokens do not concatenate to the text")
    mon.check(all(got), "empty subtoken")
    mon.eq(got, want, "subtoken boundaries differ from the splitting rules")
    nodes = sfp.subtokenize_token(text)
    mon.eq(
        [node_tuple(x) for x in nodes], [("token", s, "subtoken") for s in want],
        "subtoken nodes differ")
    mon.event("subtokenized")
    if " " * 21 in text or "\t" * 21 in text:
      mon.event("long_blank_runs")
    mon.key("sub", text)
    return
  lang = rng.choice(("python",) + codegen.LANGS)
  code = codegen.any_code(rng, lang, max_stmts=8)
  mon.note(lang=lang, code=code)
  if kind == 1:
    spaces = rng.choice([1, 2, 4])
    root, tokens, types, raw, _ = parse_util.run_parser(lang, code, spaces)
    texts = rng.choice([raw, tokens])
    all_types = list(stack_parser.NodeType)
    kw = {}
    deco = {"WHITE_SPACE_LEAF"}
    sub = {"STRING_LITERAL"}
    if rng.random() < 0.7:
      d = frozenset(rng.sample(all_types, rng.randint(0, 3)))
      s = frozenset(rng.sample(all_types, rng.randint(0, 2)))
      kw = dict(decoration_node_types=d, subtokenize_node_types=s)
      deco = {t.name for t in d}
      sub = {t.name for t in s}
    mon.note(deco=deco, sub=sub)
    tree = parse_util.tup(root)
    names = [k.name for k in types]
    got = node_tuple(
        sfp.pseudo_parse_node_to_nested_sequence_node(root, texts, types, **kw))
    want = expected(tree, texts, names, deco, sub)
    mon.eq(got, want, "converted tree differs")
    mon.eq(text_of(got), "".join(texts), "conversion changed the text")
    mon.eq(parse_util.tup(root), tree, "conversion modified the parse tree")
    for node, _ in stack_parser.Node.depth_first_traversal(root):
      mon.eq(
          node.type(texts, types).name,
          expected_type((node.annotation, node.lo, node.hi, ()), texts, names),
          "node class differs")
    mon.event("converted")
    if any(t[0] == "group" and t[1] == "STRING_LITERAL"
           for t in [want] + list(want[2] if want[0] == "group" else ())):
      mon.event("literal_groups")
    # A node that does not contain exactly its children's text is rejected.
    if len(root.children) > 1 and not kw:
      bad = stack_parser.Node.copy(root)
      which = rng.randrange(3)
      if which == 0:
        bad.children[0].hi += 1
      elif which == 1:
        bad.children.pop()
      else:
        bad.children[-1].lo -= 1
      mon.raises(
          ValueError,
          lambda: sfp.pseudo_parse_node_to_nested_sequence_node(
              bad, texts, types),
          "an inconsistent parse tree was converted")
      mon.event("rejected")
  else:
    flat = rng.random() < 0.5
    if rng.random() < 0.15:
      helper = parser_tools.ParserHelper("raw_simple_tokens", flatten=flat)
      got = [node_tuple(x) for x in helper.parse_to_nodes(code)]
      want = [("token", s, "subtoken") for s in ref_parse.subtokens(code)]
      mon.event("raw_tokens")
    else:
      # A helper may be new or may have parsed other code before.
      helper = parser_tools.ParserHelper(lang, flatten=flat)
      if rng.random() < 0.5:
        helper = HELPERS.setdefault((lang, flat), helper)
      got = [node_tuple(x) for x in helper.parse_to_nodes(code)]
      from rv.props import p06_truncation  # pylint: disable=g-import-not-at-top
      width = (
          p06_truncation.expected_indent(code, (1, 2, 3, 4))
          if lang == "python" else 1)
      p = ref_parse.parse(lang, code, width)
      want = [expected(
          p["tree"], p["raw"], p["types"],
          {"WHITE_SPACE_LEAF", "NON_CONTENT_LEAF"}, {"STRING_LITERAL"})]
      if "STRING" in p["types"]:
        mon.event("literal_groups")
      if flat:
        want = list(flatten(want))
        mon.event("flattened")
    mon.eq(got, want, "parsed node sequence differs", flat=flat)
    mon.eq("".join(map(text_of, got)), code, "parsed nodes lose text")
    mon.event("helper")
  top = got if isinstance(got, list) else [got]
  if sum(map(size, top)) >= 3:
    mon.key(lang, top)
  mon.sample(dict(lang=lang, code=code[:80], nodes=sum(map(size, top))))
