"""P01: parsing never loses, duplicates or reorders source text."""
from r_u_sure.parsing.pseudo_parser import stack_parser
from rv import codegen
from rv import parse_util

ID = "P01"
RULE = (
    "random code (well-formed, mutated, token soup, stdlib snippets) x 6"
    " languages x indent widths; nontrivial: distinct (language, tree) with at"
    " least 3 nodes"
)
ASSUMPTIONS = ["nesting depth below the Python recursion limit"]
QUICK = dict(cases=40000, budget=60)
THOROUGH = dict(cases=1500000, budget=780)
MIN_EVENTS = {"parsed": 2000, "corrected": 200, "indent_markers": 200,
              "copies": 500, "traversed_nodes": 5000, "appended_newline": 100,
              "printed": 500}


def printed(rng, mon, root, tokens):
  """The printed tree has a row per node, showing exactly what it covers."""
  shown = [repr(t)[1:-1] for t in tokens]
  kind = rng.randrange(3)
  if kind == 0 and not any(q in t for t in tokens for q in "\\'\""):
    given = list(tokens)
  elif kind == 1:
    given = [rng.choice([i, i * 37 % 101]) for i in range(len(tokens))]
    shown = [str(t) for t in given]
  else:
    given = None
  rows = []

  def visit(node, depth):
    mask = "" if given is None else "".join(
        t if node.lo <= i < node.hi else "_" * len(t)
        for i, t in enumerate(shown))
    rows.append((mask, "   " * depth + f"Node({node.lo}-{node.hi}, {node.annotation})"))
    for child in node.children:
      visit(child, depth + 1)
  visit(root, 0)
  width = [max(len(r[j]) for r in rows) for j in (0, 1)]
  want = "\n".join(
      f"| {a.ljust(width[0])} | {b.ljust(width[1])}" for a, b in rows).strip()
  got = (root.human_readable_string() if given is None
         else root.human_readable_string(given))
  mon.eq([l.rstrip() for l in got.split("\n")], [l.rstrip() for l in want.split("\n")],
         "printed tree differs", tokens=given)
  mon.event("printed")


def run_case(rng, mon, idx):
  lang = codegen.LANGS[idx % len(codegen.LANGS)]
  code = codegen.any_code(rng, lang)
  if idx % 4000 in (1002, 2002, 3004, 3999):
    code = codegen.vast(rng, lang)
    mon.event("vast")
  spaces = rng.choice([1, 2, 3, 4, 8])
  mon.note(lang=lang, code=code, spaces=spaces)
  root, tokens, types, raw, (n_pre, n_post) = parse_util.run_parser(
      lang, code, spaces
  )
  mon.event("parsed")
  n = len(tokens)
  mon.eq(len(types), n, "one type per token expected")
  mon.eq(len(raw), n, "one raw string per token expected")
  mon.eq("".join(raw), code, "raw tokens do not concatenate to the source")
  mon.check(
      all(isinstance(t, stack_parser.TokenType) for t in types), "bad token type"
  )
  # Where a token has raw text, it is exactly that text; tokens without raw
  # text are corrections at the ends, block markers, or the added final newline.
  markers = (
      stack_parser.TokenType.PYTHON_INDENT,
      stack_parser.TokenType.PYTHON_DEDENT,
  )
  added = []
  for i, (t, r, k) in enumerate(zip(tokens, raw, types)):
    if r:
      mon.eq(r, t, "token text differs from its raw text", position=i)
      mon.check(k not in markers, "block marker carries source text")
    elif k in markers:
      mon.eq(t, "", "block marker with text")
      mon.event("indent_markers")
    else:
      added.append((i, t))
  no_markers = [
      (t, r) for t, r, k in zip(tokens, raw, types) if k not in markers
  ]
  appended = lang == "python" and not code.endswith("\n")
  mon.eq(
      len(added), n_pre + n_post + (1 if appended else 0),
      "reported corrections disagree with the tokens that have no source text",
  )
  total = len(no_markers)
  for j in range(total):
    is_fix = (
        j < n_pre or j >= total - n_post or (appended and j == total - n_post - 1)
    )
    mon.eq(
        no_markers[j][1] == "", is_fix,
        "correction tokens are not exactly the leading/trailing ones",
    )
  if n_pre or n_post:
    mon.event("corrected")
  if appended:
    mon.event("appended_newline")
    mon.eq(no_markers[total - n_post - 1][0], "\n", "added terminator")
  if lang != "python":
    mon.check(not any(k in markers for k in types), "unexpected block marker")

  count = parse_util.check_shape(mon, root, n)
  mon.check(
      stack_parser.valid_parse_ranges(root, n), "valid_parse_ranges rejects it"
  )
  # Reading the leaves left to right reads every token exactly once.
  seen = []
  visited = []
  for node, index in stack_parser.Node.depth_first_traversal(root):
    mon.event("traversed_nodes")
    visited.append(id(node))
    if node.parent is None:
      mon.check(index is None, "root has a sibling index")
    else:
      mon.check(node.parent.children[index] is node, "wrong sibling index")
    if not node.children:
      seen.extend(range(node.lo, node.hi))
    mon.eq(
        node.text(tokens), "".join(tokens[node.lo : node.hi]), "node text"
    )
    mon.eq(node.text(raw), "".join(raw[node.lo : node.hi]), "node raw text")
    mon.eq(len(node), node.hi - node.lo, "node length")
  mon.eq(seen, list(range(n)), "leaves do not enumerate the tokens in order")
  mon.eq(len(set(visited)), len(visited), "traversal repeats a node")
  mon.eq(len(visited), count, "traversal misses a node")

  if rng.random() < 0.2 and count * n < 20000:
    printed(rng, mon, root, tokens)
  if rng.random() < 0.3:
    # Copies are equal and share nothing.
    before = parse_util.tup(root)
    cp = stack_parser.Node.copy(root)
    mon.eq(parse_util.tup(cp), before, "copy differs from the original")
    parse_util.check_shape(mon, cp, n)
    old = set(visited)
    for node, _ in stack_parser.Node.depth_first_traversal(cp):
      mon.check(id(node) not in old, "copy shares nodes with the original")
      node.annotation = "x"
      node.children = list(reversed(node.children))
    mon.eq(parse_util.tup(root), before, "editing a copy changed the original")
    mon.event("copies")
    if count > 3:
      # A subtree can be traversed on its own.
      sub = rng.choice([c for c, _ in
                        stack_parser.Node.depth_first_traversal(root)])
      first, index = next(iter(stack_parser.Node.depth_first_traversal(sub)))
      mon.check(first is sub, "traversal starts elsewhere")
      if sub.parent is not None:
        mon.check(sub.parent.children[index] is sub, "wrong index of subtree")
    # Corrupting a tree is noticed by the validity check.
    bad = stack_parser.Node.copy(root)
    inner = [c for c, _ in stack_parser.Node.depth_first_traversal(bad)
             if c.children]
    if inner:
      victim = rng.choice(inner)
      how = rng.randrange(4)
      if how == 0:
        victim.children[0].lo -= 1
      elif how == 1:
        victim.children[-1].hi += 1
      elif how == 2 and len(victim.children) > 1:
        del victim.children[rng.randrange(len(victim.children))]
        ok = [c.lo for c in victim.children[1:]] == [
            c.hi for c in victim.children[:-1]
        ] and victim.children[0].lo == victim.lo and (
            victim.children[-1].hi == victim.hi)
        if ok:  # an empty child was deleted: still a partition
          return
      else:
        victim.children[0].parent = None
      mon.check(
          not stack_parser.valid_parse_ranges(bad, n),
          "an invalid tree is reported valid", how=how,
      )
      mon.event("corrupted_trees_rejected")
    mon.check(
        not stack_parser.valid_parse_ranges(root, n + 1),
        "a tree missing the last token is reported valid",
    )
  if count >= 3:
    mon.key(lang, parse_util.tup(root))
  mon.sample(dict(lang=lang, code=code[:120], tokens=n, nodes=count))
