"""Prototypes, targets and annotations, with independent cost semantics.

Works on canonical tuples (see rv.treegen).  Nodes are numbered in preorder.
"""
import functools
import itertools
import math

from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from rv import treegen

K, C, V = rd.DecisionKey, rd.DecisionCategory, rd.DecisionValue
F, T, NA = V.FALSE, V.TRUE, V.NOT_APPLICABLE
INF = math.inf

WORDS = ["a", "bb", "ccc", "x", "", "(", ")", "foo", "\u00e9", "<b>", "==",
         "'s'", '"', "\\", " ", "\n", "A", "a\tb", "\U0001f600", "e\u0301",
         "a_rather_long_identifier_of_many_characters", "&amp;", "%s{}", "\r"]

# Long words that agree in most of their characters: same head, same tail,
# same length, one a prefix of the other, differing in the middle only.
_LONG = "a_rather_long_identifier_of_many_characters"
LOOKALIKES = [
    _LONG, _LONG[:-1] + "z", _LONG + "s", _LONG[:-1], _LONG[:20] + "X" + _LONG[21:],
    "b" + _LONG[1:], _LONG.upper(), " " + _LONG, _LONG + " ", _LONG + "\n",
    _LONG * 3, _LONG * 3 + "1", _LONG[:8], _LONG[-8:], _LONG[::-1],
    "x" * 300, "x" * 299 + "y", "x" * 301]


def vocabulary(rng, words, low=2, high=5):
  """A few words to draw from; now and then ones that are easy to confuse."""
  if len(words) > 12 and rng.random() < 0.15:
    words = LOOKALIKES
  return rng.sample(words, min(len(words), rng.randint(low, high)))


def near(rng, word):
  """A word that differs from this one, but only just."""
  i = rng.randrange(len(word)) if word else 0
  out = rng.choice([
      word[:-1], word[1:], word + " ", " " + word, word + word[-1:] + "s",
      word[:i] + rng.choice("zZ9") + word[i + 1:], word[:i] + word[i + 1:],
      word.swapcase(), word[::-1], word[:-1] + "z", word + "\n"])
  return word + "~" if out == word else out


def prototype(rng, max_nodes=9, regions=True, exits=True, types=("T", "U"),
              depth=3, words=WORDS, balanced=True):
  """A random prototype with decision markers."""
  budget = [rng.randint(1, max_nodes)]
  words = vocabulary(rng, words)

  def seq(level):
    out = []
    for _ in range(rng.randint(0 if level else 1, 4)):
      if budget[0] <= 0:
        break
      budget[0] -= 1
      if regions and rng.random() < 0.4:
        out.append(("RS",))
      if exits and rng.random() < 0.25:
        out.append(("EX",))
      r = rng.random()
      if r < 0.55:
        out.append(("tok", rng.choice(words), rng.choice(types)))
      elif r < 0.7:
        out.append(("dec", rng.choice(words)))
      elif level < depth:
        out.append(("grp", rng.choice(types), seq(level + 1)))
      if regions and rng.random() < 0.4:
        out.append(("RE",))
    return tuple(out)

  out = seq(0)
  if regions and rng.random() < 0.5:
    out = out + (("RE",),)
  if exits and rng.random() < 0.3:
    out = out + (("EX",),)
  return out


def big_prototype(rng, size=24, words=WORDS, types=("T", "U"), **kw):
  """A prototype that is deep, wide or large."""
  kind = rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 2, 3])
  if kind == 3:
    # Wide groups inside one another.
    out = ()
    for _ in range(rng.choice([1, 2, 3])):
      row = out
      while len(row) < size // 2:
        row += prototype(rng, max_nodes=8, words=words, types=types, depth=0,
                         **kw)
      k = rng.randint(0, len(row))
      row = row[k:] + row[:k]
      out = prototype(rng, max_nodes=2, words=words, types=types, **kw) + (
          ("grp", rng.choice(types), row),)
    return out
  if kind == 0:
    out = prototype(rng, max_nodes=6, words=words, types=types, **kw)
    for _ in range(rng.choice([6, 9, 14])):
      pre = prototype(rng, max_nodes=1, words=words, types=types, **kw)
      post = prototype(rng, max_nodes=1, words=words, types=types, **kw)
      if rng.random() < 0.5:
        pre = ()
      if rng.random() < 0.7:
        post = ()
      out = pre + (("grp", rng.choice(types), out),) + post
    return out
  out = ()
  depth = 0 if kind == 1 else 5
  words = vocabulary(rng, words, 6, 6)
  while treegen.count(out) < size:
    out += prototype(rng, max_nodes=8, words=words, types=types, depth=depth, **kw)
  return out


TYPE_NAMES = [("T", "U")] * 3 + [
    ("", "U"), ("T", ""), ("T", "T2"), ("T", "t"), ("T", "T "),
    ("CONTENT_LEAF", "CONTENT"), ("MATCH_INNER", "MATCH")]


def retype(names, t):
  """The same tree with other names for the types T and U."""
  names = dict(zip(("T", "U"), names))

  def rec(t):
    return tuple(
        ("grp", names.get(x[1], x[1]), rec(x[2])) if x[0] == "grp" else
        ("tok", x[1], names.get(x[2], x[2])) if x[0] == "tok" else x
        for x in t)
  return rec(t)


def retext(t, f):
  """The same tree with other texts."""
  return tuple(("grp", x[1], retext(x[2], f)) if x[0] == "grp" else
               (x[0], f(x[1])) + x[2:] if x[0] in ("tok", "dec") else x
               for x in t)


def strip(t):
  return tuple(("grp", x[1], strip(x[2])) if x[0] == "grp" else x
               for x in t if x[0] in ("tok", "dec", "grp"))


def mutate(rng, t, p=0.25, types=("T", "U"), words=WORDS):
  """A target resembling t (no markers)."""
  out = []
  for x in t:
    if x[0] not in ("tok", "dec", "grp"):
      continue
    r = rng.random()
    if r < p * 0.4:
      continue
    if r < p * 0.7:
      out.append(("tok", rng.choice(words), rng.choice(types)))
    if r < p * 0.8:
      out.append(("grp", rng.choice(types), (("tok", rng.choice(words), types[0]),)))
    if x[0] == "grp":
      kids = mutate(rng, x[2], p, types, words)
      if rng.random() < p * 0.3:
        out.extend(kids)
        continue
      out.append(("grp", rng.choice(types) if rng.random() < p * 0.3 else x[1],
                  kids))
    elif x[0] == "tok" and rng.random() < p * 0.5:
      if rng.random() < 0.4:
        out.append(("tok", near(rng, x[1]), x[2]))
      else:
        out.append(("tok", rng.choice(words), rng.choice(types)))
    else:
      out.append(x)
  if rng.random() < p * 0.6:
    out.append(("tok", rng.choice(words), rng.choice(types)))
  return tuple(out)


def pack(t, typed=False):
  import numba
  if typed:
    return psn.pack(treegen.untup(t), as_numba_typed=True,
                    match_type_numba_type=numba.typeof("T"))
  return psn.pack(treegen.untup(t))


def numbered(t, start=0):
  """[(preorder index, node, numbered children)] and the next index."""
  out = []
  n = start
  for x in t:
    i = n
    n += 1
    if x[0] == "grp":
      kids, n = numbered(x[2], n)
      out.append((i, x, kids))
    else:
      out.append((i, x, []))
  return out, n


def key_of(i, x):
  return {"tok": K(i, C.NODE_IN_REGION), "grp": K(i, C.NODE_IN_REGION),
          "RS": K(i, C.REGION_SHOULD_START), "RE": K(i, C.REGION_SHOULD_END),
          "EX": K(i, C.SHOULD_EARLY_EXIT)}.get(x[0])


def all_keys(t):
  out = []

  def rec(nodes):
    for i, x, kids in nodes:
      k = key_of(i, x)
      if k is not None:
        out.append(k)
      rec(kids)
  rec(numbered(t)[0])
  return out


def annotations(t, limit=3000):
  """All well-formed annotations, as sets of non-default items (or None).

  Regions start and end in the same sequence; what is inside a region is
  entirely in it; after an early exit everything is NOT_APPLICABLE.
  """
  count = [0]

  class TooMany(Exception):
    pass

  def seq(nodes, state, forced):
    """Yields (assignment dict, state, exited)."""
    if not nodes:
      yield {}, state, False
      return
    (i, x, kids), rest = nodes[0], nodes[1:]
    k = key_of(i, x)

    def options():
      inside = forced or state == "in"
      if x[0] == "dec":
        yield {}, state, False
      elif x[0] == "tok":
        yield {k: T if inside else F}, state, False
      elif x[0] == "grp":
        for a, s, ex in seq(kids, "in" if inside else "out", inside):
          if not inside and not ex and s != "out":
            continue
          yield {k: T if inside else F, **a}, state, ex
      elif x[0] == "RS":
        if inside:
          yield {k: NA}, state, False
        else:
          yield {k: F}, state, False
          yield {k: T}, "in", False
      elif x[0] == "RE":
        if not inside:
          yield {k: NA}, state, False
        else:
          yield {k: F}, state, False
          if not forced:
            yield {k: T}, "out", False
      else:
        yield {k: T}, state, True
        yield {k: F}, state, False

    for a, s, ex in options():
      count[0] += 1
      if count[0] > limit * 20:
        raise TooMany()
      if ex:
        yield a, s, True
        continue
      for b, s2, ex2 in seq(rest, s, forced):
        yield {**a, **b}, s2, ex2

  out = []
  try:
    for a, s, ex in seq(numbered(t)[0], "out", False):
      if s == "in" and not ex:
        continue
      out.append(a)
      if len(out) > limit:
        return None
  except TooMany:
    return None
  keys = all_keys(t)
  return [{k: a.get(k, NA) for k in keys} for a in out]


def random_decisions(rng, t, nested_ok=True):
  """Random decisions the edit DAG admits: any in/out history.

  Returns (assignment, exit index or None), or None if it ends in a region.
  """
  a = dict.fromkeys(all_keys(t), NA)
  low = False
  exited = None

  def rec(nodes):
    nonlocal low, exited
    for i, x, kids in nodes:
      k = key_of(i, x)
      if x[0] in ("tok", "grp"):
        a[k] = T if low else F
        rec(kids)
        if exited is not None:
          return
      elif x[0] == "RS":
        if low:
          a[k] = NA
        else:
          a[k] = T if rng.random() < 0.4 else F
          low = a[k] == T
      elif x[0] == "RE":
        if not low:
          a[k] = NA
        else:
          a[k] = T if rng.random() < 0.6 else F
          low = a[k] != T
      elif x[0] == "EX":
        a[k] = T if rng.random() < 0.2 else F
        if a[k] == T:
          exited = i
          return

  rec(numbered(t)[0])
  if low and exited is None:
    return None
  return a, exited


def params(rng):
  c = lambda *xs: float(rng.choice(xs))
  return edit_dags.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=c(1, 1, 2),
      high_confidence_delete_cost_per_char=c(1, 2, 0.5),
      low_confidence_match_utility_per_char=c(0.5, 0.7, -0.25),
      low_confidence_delete_cost_per_char=c(0, 0.25, 0.5),
      insert_cost_per_char=c(0, 0, 0.5, 1),
      low_confidence_region_cost=c(0, 0.75, 1.5),
      high_confidence_start_editing_cost=c(0, 2, 5),
      low_confidence_start_editing_cost=c(0, 1, 2.5),
  )


def edit_cost(p, t, a, exited, prm, slow=False):
  """Cheapest edit script under fixed decisions, by aligning sequences.

  Matched pairs are increasing; every maximal stretch between matches that
  deletes or inserts something pays one start-editing cost, at the confidence
  of some point before its first deletion; deletions and matches are priced by
  the confidence of the token; nothing after the exit counts.
  """
  pn, _ = numbered(p)
  tn, _ = numbered(t)
  region_cost = 0.0
  # Confidence before each node, and after it, in preorder.
  conf_before, conf_after = {}, {}
  state = [False]

  def mark(nodes):
    nonlocal region_cost
    for i, x, kids in nodes:
      conf_before[i] = state[0]
      if exited is not None and i > exited:
        return
      if x[0] == "RS" and a[key_of(i, x)] == T:
        state[0] = True
        region_cost += prm.low_confidence_region_cost
      elif x[0] == "RE" and a[key_of(i, x)] == T:
        state[0] = False
      mark(kids)
      conf_after[i] = state[0]

  mark(pn)

  def size(x):
    return len(x[1])

  def delete(node):
    i, x, kids = node
    if exited is not None and i >= exited:
      return 0.0
    if x[0] == "tok":
      low = conf_before[i]
      return size(x) * (prm.low_confidence_delete_cost_per_char if low
                        else prm.high_confidence_delete_cost_per_char)
    return sum(delete(k) for k in kids)

  def insert(node):
    _, x, kids = node
    if x[0] == "tok":
      return size(x) * prm.insert_cost_per_char
    return sum(insert(k) for k in kids)

  def contains_exit(node):
    i, x, kids = node
    return i == exited or any(contains_exit(k) for k in kids)

  def start_cost(low):
    return (prm.low_confidence_start_editing_cost if low
            else prm.high_confidence_start_editing_cost)

  def gap(pg, tg, entry_low, exit_here):
    """Cost of a stretch without matches."""
    solid_p = [n for n in pg if n[1][0] in ("tok", "grp")]
    solid_t = [] if exit_here else [n for n in tg if n[1][0] in ("tok", "grp")]
    if not solid_p and not solid_t:
      return 0.0
    starts = [start_cost(entry_low)]
    for n in pg:
      if n[1][0] in ("tok", "grp"):
        break
      starts.append(start_cost(conf_after[n[0]]))
    return (min(starts) + sum(delete(n) for n in solid_p)
            + sum(insert(n) for n in solid_t))

  def level(ps, ts, entry_low):
    """Cost of aligning two sequences of siblings."""
    exit_pos = next((q for q, n in enumerate(ps) if contains_exit(n)), None)

    @functools.lru_cache(None)
    def go(i, j):
      low = entry_low if i == 0 else conf_after[ps[i - 1][0]]
      # No further match.
      if exit_pos is None:
        best = gap(ps[i:], ts[j:], low, False)
      elif ps[exit_pos][0] == exited:
        best = gap(ps[i:exit_pos], (), low, True)
      else:
        best = gap(ps[i:exit_pos + 1], (), low, True)
      last = len(ps) if exit_pos is None else exit_pos + 1
      for i2 in range(i, last):
        for j2 in range(j, len(ts)):
          x, y = ps[i2][1], ts[j2][1]
          if x[0] != y[0] or x[0] not in ("tok", "grp"):
            continue
          g = gap(ps[i:i2], ts[j:j2], low, False)
          if x[0] == "tok":
            if x != y:
              continue
            rate = (prm.low_confidence_match_utility_per_char
                    if conf_before[ps[i2][0]]
                    else prm.high_confidence_match_utility_per_char)
            c = g - size(x) * rate + go(i2 + 1, j2 + 1)
          else:
            if x[1] != y[1]:
              continue
            c = g + level(tuple(ps[i2][2]), tuple(ts[j2][2]),
                          conf_before[ps[i2][0]])
            if i2 != exit_pos:
              c += go(i2 + 1, j2 + 1)
          best = min(best, c)
      return best

    return go(0, 0)

  inner = {}

  def stepwise(ps, ts, entry_low):
    """The same in one step at a time (for long sequences)."""
    exit_pos = next((q for q, n in enumerate(ps) if contains_exit(n)), None)
    tables = {}

    def at(i, j, editing):
      return tables[i, j, editing]

    last = len(ps) if exit_pos is None else exit_pos
    for i in range(last, -1, -1):
      for j in range(len(ts), -1, -1):
        low = entry_low if i == 0 else conf_after[ps[i - 1][0]]
        for editing in (True, False):
          best = INF
          if i == len(ps) and j == len(ts):
            best = 0.0
          x = ps[i][1] if i < len(ps) else ("",)
          y = ts[j][1] if j < len(ts) else ("",)
          solid_x = x[0] in ("tok", "grp")
          solid_y = y[0] in ("tok", "grp")
          here = i == exit_pos
          if here and not solid_x:
            best = 0.0  # everything after the exit is free
          elif here and editing:
            best = delete(ps[i])
          elif i < len(ps) and not solid_x:
            best = min(best, at(i + 1, j, editing))
          elif i < len(ps) and editing:
            best = min(best, delete(ps[i]) + at(i + 1, j, True))
          if j < len(ts) and not solid_y:
            best = min(best, at(i, j + 1, editing))
          elif j < len(ts) and editing:
            best = min(best, insert(ts[j]) + at(i, j + 1, True))
          if solid_x and x[0] == y[0] == "tok" and x == y:
            rate = (prm.low_confidence_match_utility_per_char
                    if conf_before[ps[i][0]]
                    else prm.high_confidence_match_utility_per_char)
            best = min(best, at(i + 1, j + 1, False) - size(x) * rate)
          elif solid_x and x[0] == y[0] == "grp" and x[1] == y[1]:
            c = inner.get((ps[i][0], ts[j][0]))
            if c is None:
              c = stepwise(ps[i][2], ts[j][2], conf_before[ps[i][0]])
              inner[ps[i][0], ts[j][0]] = c
            best = min(best, c if here else c + at(i + 1, j + 1, False))
          if not editing:
            best = min(best, start_cost(low) + at(i, j, True))
          tables[i, j, editing] = best
    return tables[0, 0, False]

  if not slow:
    return stepwise(pn, tn, False) + region_cost

  def freeze(nodes):
    return tuple((i, x, freeze(k)) for i, x, k in nodes)

  return level(freeze(pn), freeze(tn), False) + region_cost


def random_annotation(rng, t, p_start=0.4, p_end=0.5, p_exit=0.15):
  """A random well-formed annotation: (assignment, exit index or None)."""
  a = dict.fromkeys(all_keys(t), NA)
  exited = None

  def seq(nodes, forced):
    nonlocal exited
    inside = forced
    last_end = max((q for q, n in enumerate(nodes) if n[1][0] == "RE"),
                   default=-1)
    for q, (i, x, kids) in enumerate(nodes):
      k = key_of(i, x)
      if x[0] in ("tok", "grp"):
        a[k] = T if inside else F
        seq(kids, inside)
        if exited is not None:
          return
      elif x[0] == "RS" and not inside:
        a[k] = T if q < last_end and rng.random() < p_start else F
        inside = a[k] == T
      elif x[0] == "RE" and inside:
        a[k] = F
        if not forced and (q == last_end or rng.random() < p_end):
          a[k] = T
          inside = False
      elif x[0] == "EX":
        a[k] = F
        if rng.random() < p_exit:
          a[k] = T
          exited = i
          return

  seq(numbered(t)[0], False)
  return a, exited


def why_malformed(t, a):
  """None if the annotation is well formed, else the reason."""
  problem = []
  exited = [False]

  def bad(i, x, why):
    problem.append((i, x[:2], why))

  def seq(nodes, forced):
    inside = forced
    for i, x, kids in nodes:
      k = key_of(i, x)
      v = a.get(k, NA)
      if exited[0]:
        if k is not None and v != NA:
          bad(i, x, "decided after the exit")
        seq(kids, forced)
        continue
      if x[0] in ("tok", "grp"):
        if v != (T if inside else F):
          bad(i, x, "status does not agree with the region")
        seq(kids, inside)
      elif x[0] == "RS":
        if (v == NA) != inside:
          bad(i, x, "start")
        inside = inside or v == T
      elif x[0] == "RE":
        if (v == NA) == inside or (forced and v == T):
          bad(i, x, "end")
        if v == T:
          inside = False
      elif x[0] == "EX":
        if v == NA:
          bad(i, x, "exit not decided")
        exited[0] = v == T
    if not exited[0] and inside != forced:
      problem.append("a region does not end in its sequence")

  seq(numbered(t)[0], False)
  return problem[0] if problem else None


def exit_of(a):
  return next((k.prototype_preorder_index for k, v in a.items()
               if k.category == C.SHOULD_EARLY_EXIT and v == T), None)
