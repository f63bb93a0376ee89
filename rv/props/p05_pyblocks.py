"""P05: Python blocks follow indentation of logical lines."""
from r_u_sure.parsing.pseudo_parser import stack_parser
from rv import codegen
from rv import parse_util
from rv import ref_parse

ID = "P05"
RULE = (
    "generated Python programs (all indent units, blank lines, comments,"
    " multi-line brackets and strings), mutated and soup variants, x indent"
    " widths; nontrivial: distinct trees with at least one block"
)
QUICK = dict(cases=40000, budget=60)
THOROUGH = dict(cases=1200000, budget=780)
MIN_EVENTS = {"parsed": 2000, "blocks": 3000, "multi_dedent": 200,
              "nested_blocks": 300, "corrected": 200, "by_construction": 300}


def by_construction(rng, mon):
  """Well-indented code: the block tree is known from how it was built."""
  unit = rng.choice([1, 2, 3, 4, 8])
  lines = []
  expect = []  # nested structure: list of [line_no, children]

  def block(depth, out):
    for k in range(rng.randint(1, 3)):
      if len(lines) > 14:
        break
      # (A block attaches to the physical line group right before it, so blank
      # lines are not put between a header and its body here.)
      if k and rng.random() < 0.2:
        lines.append(("   " * rng.randint(0, 3), False))
      no = len(lines)
      head = rng.random() < 0.5 and depth < 5
      text = f"stmt{no} x" + rng.choice(
          ["", " = [1,\n 2]", " = f(a,\n\n      b)", " # c )", " 'q('", ";y"])
      if head:
        text = f"if x{no}:"
      lines.append((" " * (unit * depth) + text, True))
      node = [no, []]
      out.append(node)
      if head:
        block(depth + 1, node[1])
        if not node[1]:
          no2 = len(lines)
          lines.append((" " * (unit * (depth + 1)) + f"pass{no2}", True))
          node[1].append([no2, []])

  block(0, expect)
  code = "\n".join(t for t, _ in lines) + "\n"
  if rng.random() < 0.3:
    code = code[:-1]
  mon.note(code=code, unit=unit)
  root, tokens, types, raw, _ = parse_util.run_parser("python", code, unit)
  names = [n.name for n in types]
  mon.event("by_construction")

  def first_id(node):
    for i in range(node.lo, node.hi):
      if names[i] == "ID" and tokens[i][-1:].isdigit():
        return int("".join(c for c in tokens[i] if c.isdigit()))
    return None

  # Recover (statement, body) nesting from the tree.
  def is_block(node):
    return (
        node.annotation == "split"
        and node.children
        and node.children[0].annotation == "paired"
        and names[node.children[0].lo] == "PYTHON_INDENT"
    )

  def read(nodes):
    out = []
    for nd in nodes:
      if nd.annotation != "split":
        continue
      kids = nd.children
      if (len(kids) == 2 and kids[0].annotation == "split" and is_block(kids[1])):
        body = kids[1].children[0].children[1]
        body_nodes = (
            body.children
            if body.children and body.children[0].annotation == "split"
            else None
        )
        if body_nodes is None:
          sub = [[first_id(body), []]]
        else:
          sub = read(body_nodes)
        out.append([first_id(kids[0]), sub])
      else:
        f = first_id(nd)
        if f is not None:
          out.append([f, []])
    return out

  mon.eq(read(root.children), expect, "blocks differ from the indentation")
  return parse_util.tup(root)


def run_case(rng, mon, idx):
  if idx % 4 == 0:
    tree = by_construction(rng, mon)
    mon.key(tree)
    return
  spaces = rng.choice([1, 2, 2, 3, 4, 4, 8])
  if idx % 4 == 1:
    lines = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 13])):
      ind = rng.choice(["", " ", "  ", "    ", "   ", "      ", "\t", "        ",
                        "\t ", "\u00a0 ", "\x0c"])
      lines.append(ind + rng.choice(
          ["a", "if x:", "", " ", "# c", "(", ")", "b(1,", "]", "{", "}", "x = [",
           "'''s", "'''", "\"t\"", "y;z", "def f():", "return (", "[1\n2]"]))
    code = rng.choice(["\n", "\n", "\n\n"]).join(lines) + rng.choice(["", "\n"])
  else:
    code = codegen.any_code(rng, "python")
    if idx % 4000 in (1002, 2002, 3004, 3999):
      code = codegen.vast(rng, "python")
      mon.event("vast")
  mon.note(code=code, spaces=spaces)
  root, tokens, types, raw, n = parse_util.run_parser("python", code, spaces)
  mon.event("parsed")
  e = ref_parse.parse("python", code, spaces)
  names = [t.name for t in types]
  mon.eq(list(zip(tokens, names)), list(zip(e["tokens"], e["types"])),
         "block markers are not where the indentation changes")
  mon.eq(raw, e["raw"], "raw tokens differ")
  mon.eq(tuple(n), (e["n_pre"], e["n_post"]), "corrections differ")
  tree = parse_util.tup(root)
  mon.eq(tree, e["tree"], "block structure differs")
  parse_util.check_shape(mon, root, len(tokens))
  mon.eq(names.count("PYTHON_INDENT"), names.count("PYTHON_DEDENT"),
         "unbalanced block markers")
  blocks = names.count("PYTHON_INDENT")
  mon.event("blocks", blocks)
  if any(a == b == "PYTHON_DEDENT" for a, b in zip(names, names[1:])):
    mon.event("multi_dedent")
  depth = best = 0
  for k in names:
    depth += (k == "PYTHON_INDENT") - (k == "PYTHON_DEDENT")
    best = max(best, depth)
    mon.check(depth >= 0, "block closed before it was opened")
  if best >= 2:
    mon.event("nested_blocks")
  if n[0] or n[1]:
    mon.event("corrected")
  if blocks:
    mon.key(tree)
  mon.sample(dict(code=code[:120], blocks=blocks))
