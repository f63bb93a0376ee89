"""Random node sequences (text, decorations, groups, decision markers)."""

from r_u_sure.tree_structure import sequence_nodes as sn

TEXTS = ["a", "b", "foo", "(", ")", "x1", "", "\n", " ", "bar baz", "<&>\"'",
         "\u00e9\u4e2d", "longer_text_node", "c", "dd"]


def tree(rng, max_nodes=12, markers=True, types=("T", "U", None), empty_text=True,
         texts=None, max_depth=4):
  budget = [rng.randint(0, max_nodes)]
  texts = texts or TEXTS
  if not empty_text:
    texts = [t for t in texts if t]

  def seq(depth):
    out = []
    for _ in range(rng.randint(0, 5)):
      if budget[0] <= 0:
        break
      budget[0] -= 1
      r = rng.random()
      if r < 0.4:
        out.append(sn.TextTokenNode(rng.choice(texts), rng.choice(types)))
      elif r < 0.55:
        out.append(sn.TextDecorationNode(rng.choice(texts)))
      elif r < 0.8 and depth < max_depth:
        out.append(sn.GroupNode(seq(depth + 1), rng.choice(types)))
      elif markers:
        out.append(rng.choice([sn.RegionStartNode, sn.RegionEndNode,
                               sn.EarlyExitNode])())
      else:
        out.append(sn.TextTokenNode(rng.choice(texts), rng.choice(types)))
    return out

  out = seq(0)
  while budget[0] > 0 and rng.random() < 0.8:
    more = seq(0)
    if not more:
      break
    out += more
  return out


def big(rng, **kw):
  """A tree that is deep, wide or large."""
  kind = rng.randrange(3)
  if kind == 0:
    return tree(rng, max_nodes=rng.choice([60, 150]), max_depth=6, **kw)
  inner = tree(rng, max_nodes=10, **kw)
  if kind == 1:
    for _ in range(rng.choice([0, 0, 5, 17, 40])):
      # Nothing beside one another.
      inner = [sn.GroupNode(inner[:1] or [sn.TextTokenNode("x", "T")],
                            rng.choice(["T", "U"]))]
    for _ in range(rng.choice([8, 20, 35, 70, 140])):
      inner = (tree(rng, max_nodes=2, **kw) + [sn.GroupNode(inner, "T")]
               + tree(rng, max_nodes=2, **kw))
    return inner
  out = []
  for _ in range(rng.choice([12, 40, 300])):
    out += tree(rng, max_nodes=4, **kw)
  return [sn.GroupNode(out, "U")] if rng.random() < 0.3 else out


def tup(n):
  """Canonical tuple of a node or a list of nodes."""
  if isinstance(n, (list, tuple)):
    return tuple(tup(x) for x in n)
  t = type(n)
  if t is sn.TextTokenNode:
    return ("tok", n.text_contents, n.match_type)
  if t is sn.TextDecorationNode:
    return ("dec", n.text_contents)
  if t is sn.GroupNode:
    return ("grp", n.match_type, tup(n.children))
  if t is sn.RegionStartNode:
    return ("RS",)
  if t is sn.RegionEndNode:
    return ("RE",)
  if t is sn.EarlyExitNode:
    return ("EX",)
  raise TypeError(repr(n))


def untup(t):
  """Inverse of `tup` for a sequence."""
  out = []
  for x in t:
    if x[0] == "tok":
      out.append(sn.TextTokenNode(x[1], x[2]))
    elif x[0] == "dec":
      out.append(sn.TextDecorationNode(x[1]))
    elif x[0] == "grp":
      out.append(sn.GroupNode(untup(x[2]), x[1]))
    else:
      out.append({"RS": sn.RegionStartNode, "RE": sn.RegionEndNode,
                  "EX": sn.EarlyExitNode}[x[0]]())
  return out


def text(t):
  """Text of a canonical sequence."""
  parts = []
  for x in t:
    if x[0] in ("tok", "dec"):
      parts.append(x[1])
    elif x[0] == "grp":
      parts.append(text(x[2]))
  return "".join(parts)


def count(t):
  return sum(1 + (count(x[2]) if x[0] == "grp" else 0) for x in t)


def walk(t, path=()):
  """Yields (path, node tuple) in document order (groups before children)."""
  for i, x in enumerate(t):
    yield path + (i,), x
    if x[0] == "grp":
      yield from walk(x[2], path + (i,))
