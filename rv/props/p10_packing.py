"""P10: packed storage mirrors the tree exactly, under every index."""
import numba
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_node_helpers as helpers
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import parser_tools
from rv import codegen
from rv import overloads
from rv import treegen

ID = "P10"
RULE = (
    "random node trees and parsed code, packed as Python lists and as typed"
    " lists; every index table, path lookup, traversal and rendering compared"
    " with the tree; nontrivial: distinct trees with 3+ nodes"
)
QUICK = dict(cases=30000, budget=70)
THOROUGH = dict(cases=900000, budget=780)
MIN_EVENTS = {"big": 100, "wide": 10, "packed": 2000, "typed": 500, "nodes": 10000, "bad_paths": 2000, "walks": 2000, "debug": 1000,
              "odd_types": 500, "shared_nodes": 500}

C = psn.PackedSequenceNodeCategory
CAT = {"tok": C.TEXT_TOKEN_NODE, "dec": C.TEXT_DECORATION_NODE,
       "grp": C.GROUP_NODE, "RS": C.REGION_START_NODE, "RE": C.REGION_END_NODE,
       "EX": C.EARLY_EXIT_NODE}
I = psn.InOrderTraversalCategory


def in_order(t, strip, path=()):
  for i, x in enumerate(t):
    p = path + (i,)
    if x[0] == "grp":
      yield I.BEFORE_GROUP, p
      yield from in_order(x[2], strip, p)
      yield I.AFTER_GROUP, p
    elif not (strip and x[0] == "dec"):
      yield I.LEAF, p


def debug_lines(x):
  def summary(s):
    return repr(s) if len(s) <= 80 else repr(s[:77]) + "..."
  def head(name, mt):
    return f"{name}: " if mt is None else f"{name}({mt}): "
  if x[0] == "dec":
    return ["DEC: " + summary(x[1])]
  if x[0] == "tok":
    return [head("TOK", x[2]) + summary(x[1])]
  if x[0] == "grp":
    out = [head("GROUP", x[1]) + summary(treegen.text(x[2]))]
    for c in x[2]:
      out += ["  " + l for l in debug_lines(c)]
    return out
  return [{"RS": "RegionStartNode()", "RE": "RegionEndNode()",
           "EX": "EarlyExitNode()"}[x[0]]]


def run_case(rng, mon, idx):
  if idx % 6 == 5:
    lang = rng.choice(["python", "cpp", "java", "simple"])
    seq = parser_tools.ParserHelper(lang).parse_to_nodes(
        codegen.any_code(rng, lang, max_stmts=4))
  elif idx % 60 == 7:
    seq = treegen.big(rng, types=("T", "U"))
    mon.event("big")
  elif idx % 600 == 13:
    # Far more siblings than any program has statements.
    wide = [sn.TextTokenNode(f"w{i}", "T") if i % 7 else sn.GroupNode(
        [sn.TextDecorationNode(" ")], "U")
            for i in range(rng.choice([1100, 1500, 2100]))]
    seq = wide if rng.random() < 0.5 else [
        sn.TextTokenNode("a", "T"), sn.GroupNode(wide, "U"),
        sn.TextTokenNode("b", "T")]
    mon.event("wide")
  else:
    seq = treegen.tree(rng, max_nodes=rng.choice([0, 3, 8, 16, 30]),
                       types=("T", "U"))
  mode = rng.randrange(3)
  if mode == 0 and rng.random() < 0.3:
    # Without compiled storage any value may serve as a type.
    seq = treegen.tree(rng, max_nodes=rng.choice([3, 8, 16]),
                       types=("T", "", None, 0, ("T", "U"), "t", ("T",), 1))
    mon.event("odd_types")
  if seq and rng.random() < 0.15:
    # The same object may occur in several places.
    groups = [seq]
    for g in groups:
      groups += [n.children for n in g if isinstance(n, sn.GroupNode)]
    for _ in range(rng.randint(1, 3)):
      home = rng.choice(groups)
      if home:
        seq.insert(rng.randint(0, len(seq)), rng.choice(home))
      leaves = [n for g in groups for n in g if not isinstance(n, sn.GroupNode)]
      if leaves:
        home = rng.choice(groups)
        home.insert(rng.randint(0, len(home)), rng.choice(leaves))
    mon.event("shared_nodes")
  t = treegen.tup(seq)
  mon.note(tree=t)
  if mode == 0:
    st = psn.pack(seq)
  elif mode == 1:
    st = psn.pack(seq, as_numba_typed=True,
                  match_type_numba_type=numba.typeof("CONTENT_LEAF"))
    mon.event("typed")
  else:
    typed = rng.random() < 0.5
    st = parser_tools.pack_sequence_from_pseudoparser(seq, with_numba=typed)
    mon.event("typed", int(typed))
  mon.event("packed")
  mon.eq(treegen.tup(seq), t, "packing modified its input")
  mon.eq(treegen.tup(psn.unpack(st)), t, "unpacking does not give the tree back")
  nodes = list(treegen.walk(t))
  paths = [p for p, _ in nodes]
  number = {p: i for i, p in enumerate(paths)}
  mon.event("nodes", len(nodes))
  mon.eq(len(st.preorder_traversal), len(nodes), "number of packed nodes")
  mon.eq(len(st.level_from_preorder), len(nodes), "number of levels")
  mon.eq(len(st.parents_and_offsets_from_preorder), len(nodes), "parents")
  used = set()
  for i, (p, x) in enumerate(nodes):
    nid = st.preorder_traversal[i]
    mon.eq(nid.preorder_index, i, "preorder index", path=p)
    mon.eq(nid.category, CAT[x[0]], "category", path=p)
    if x[0] == "tok":
      s = st.text_token_nodes[nid.index_in_category]
      mon.eq((s.text_contents, s.match_type), (x[1], x[2]), "token contents")
    elif x[0] == "dec":
      s = st.text_decoration_nodes[nid.index_in_category]
      mon.eq(s.text_contents, x[1], "decoration contents")
    elif x[0] == "grp":
      s = st.group_nodes[nid.index_in_category]
      mon.eq(s.match_type, x[1], "group type")
      mon.eq([c.preorder_index for c in s.children_ids],
             [number[p + (j,)] for j in range(len(x[2]))], "children ids")
    else:
      mon.eq(nid.index_in_category, -1, "marker has storage")
    if nid.index_in_category >= 0:
      mon.check((nid.category, nid.index_in_category) not in used,
                "two nodes share a storage slot")
      used.add((nid.category, nid.index_in_category))
    mon.eq(st.level_from_preorder[i], len(p) - 1, "level")
    par = st.parents_and_offsets_from_preorder[i]
    mon.eq((par.parent_preorder_index, par.index_of_child_in_parent),
           (number.get(p[:-1], -1), p[-1]), "parent link")
    mon.eq(st.path_from_preorder_index(i).path, p, "path of index")
    mon.eq(st.node_id_from_node_path(sn.NestedNodePath(p)), nid, "id of path")
    mon.eq(psn.render_text_contents_of_node(nid, st), treegen.text((x,)),
           "text of a packed node")
  mon.eq([c.preorder_index for c in st.root_sequence],
         [number[(j,)] for j in range(len(t))], "root ids")
  mon.eq(psn.render_text_contents_of_list(st.root_sequence, st), treegen.text(t),
         "text of the packed sequence")
  depth = max([len(p) for p in paths], default=1)
  mon.eq(st.depth, depth, "depth of storage")
  gd = 1 + max([len(p) for p, x in nodes if x[0] == "grp"], default=0)
  mon.eq(helpers.compute_depth(seq), gd, "depth of sequence")

  # Lookups that leave the tree are refused.
  mon.raises(ValueError, lambda: st.node_id_from_node_path(
      sn.NestedNodePath.root()), "empty path accepted")
  for p, x in rng.sample(nodes, min(4, len(nodes))):
    if x[0] != "grp":
      mon.raises(ValueError, lambda: st.subsequence_from_node_path(
          sn.NestedNodePath(p)), "path through a leaf accepted", path=p)
    else:
      mon.eq([c.preorder_index for c in
              st.subsequence_from_node_path(sn.NestedNodePath(p))],
             [number[p + (j,)] for j in range(len(x[2]))], "subsequence")
      bad = rng.choice([-1, len(x[2]), len(x[2]) + 2])
      mon.raises(ValueError, lambda: st.subsequence_from_node_path(
          sn.NestedNodePath(p + (bad, 0))), "position outside a group accepted")
      mon.raises(ValueError, lambda: st.node_id_from_node_path(
          sn.NestedNodePath(p + (bad,))), "position outside a group accepted")
    mon.event("bad_paths")
  mon.raises(ValueError, lambda: st.subsequence_from_node_path(
      sn.NestedNodePath((len(t),))), "position past the end accepted")
  for bad in (-1, len(t), len(t) + 3):
    mon.raises(ValueError, lambda: st.node_id_from_node_path(
        sn.NestedNodePath((bad,))), "node outside the sequence accepted")

  # In-order traversals, plain and as handed to the compiler.
  for strip in (False, True):
    want = [(c, number[p]) for c, p in in_order(t, strip)]
    got = psn.in_order_traversal(st, strip)
    mon.eq([(g.category, g.node_id.preorder_index) for g in got], want,
           "in-order traversal")
    for g in got:
      mon.eq(g.node_id, st.preorder_traversal[g.node_id.preorder_index],
             "traversal holds a different id")
    for impl in overloads.impls(psn.in_order_traversal, st, strip):
      alt = impl(st, strip)
      mon.eq([(g.category, g.node_id) for g in alt],
             [(g.category, g.node_id) for g in got],
             "compiled in-order traversal differs")
      mon.event("overload_traversals")

  # Helpers on the unpacked form.
  mon.eq(helpers.render_text_contents(seq), treegen.text(t), "text of sequence")
  for n, x in zip(seq, t):
    mon.eq(helpers.render_text_contents(n), treegen.text((x,)), "text of node")
  before, after = rng.random() < 0.5, rng.random() < 0.5
  prefix = rng.choice([(), (), (7,), (2, 5)])
  W = helpers.WalkTag
  want = []
  def walk(seq2, ts, path):
    for i, (n, x) in enumerate(zip(seq2, ts)):
      p = path + (i,)
      if x[0] == "grp":
        if before:
          want.append((id(n), p, W.GROUP_BEFORE_CHILDREN))
        walk(n.children, x[2], p)
        if after:
          want.append((id(n), p, W.GROUP_AFTER_CHILDREN))
      else:
        want.append((id(n), p, W.LEAF))
  walk(seq, t, prefix)
  got = list(helpers.walk_with_paths(
      seq, visit_groups_before=before, visit_groups_after=after,
      prefix=sn.NestedNodePath(prefix)))
  mon.eq([(id(n), p.path, tag) for n, p, tag in got], want, "walk differs")
  mon.event("walks")
  ps = [p for _, p, tag in got if tag != W.GROUP_AFTER_CHILDREN]
  mon.check(all(a < b for a, b in zip(ps, ps[1:])), "paths are not in order")
  mon.eq(sn.NestedNodePath.root().extended_with(3).extended_with(1).path, (3, 1),
         "extending a path")
  if rng.random() < 0.4:
    lines = [l for x in t for l in debug_lines(x)]
    mon.eq(helpers.render_debug(seq), "\n".join(lines), "debug rendering")
    for n, x in list(zip(seq, t))[:2]:
      mon.eq(helpers.render_debug(n), "\n".join(debug_lines(x)), "debug of node")
    mon.event("debug")
  for (p, x), (n, _, _) in zip(nodes, helpers.walk_with_paths(
      seq, visit_groups_before=True)):
    if x[0] in ("tok", "dec"):
      mon.eq(n.size_for_utility(), len(x[1]), "size of a text node")
    elif x[0] == "grp":
      mon.eq(n.size_for_utility(), 0, "size of a group")
  if len(nodes) >= 3:
    mon.key(t)
  mon.sample(dict(tree=t))
