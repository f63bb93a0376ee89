"""Bridges between /repo's parse trees and the reference representation."""

from r_u_sure.parsing.pseudo_parser import stack_parser


def tup(n):
  return (n.annotation, n.lo, n.hi, tuple(tup(c) for c in n.children))


def run_parser(lang, code, spaces=1):
  return stack_parser.PseudoParser.parse_and_maybe_preprocess(
      lang, code, spaces_per_indent=spaces
  )


def check_shape(mon, root, n):
  """Ranges nest and partition, leaves hold one token each, links agree."""
  mon.check(root.parent is None, "root of a parse has a parent")
  mon.eq((root.lo, root.hi), (0, n), "root does not span all tokens")
  seen = set()

  def rec(node):
    mon.check(id(node) not in seen, "node shared between two parents")
    seen.add(id(node))
    if node.children:
      pos = node.lo
      for c in node.children:
        mon.check(c.parent is node, "child does not link back to its parent")
        mon.eq(c.lo, pos, "children do not partition their parent's range")
        pos = c.hi
        rec(c)
      mon.eq(pos, node.hi, "children do not cover their parent's range")
    else:
      width = node.hi - node.lo
      mon.check(
          width in (0, 1) and (width == 1 or node.annotation in ("middle", "root")),
          "leaf does not hold exactly one token",
          leaf=repr(node),
      )

  rec(root)
  return len(seen)
