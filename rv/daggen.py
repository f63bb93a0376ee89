"""Random gated DAGs, and brute-force enumeration of their paths."""
import enum
import itertools
import math

from r_u_sure.decision_diagrams import gated_state_dag as gsd


class ConstHash:
  """A state whose hash says nothing."""

  def __init__(self, v):
    self.v = v

  def __hash__(self):
    return 7

  def __eq__(self, other):
    return isinstance(other, ConstHash) and self.v == other.v

  def __repr__(self):
    return f"S{self.v}"


def state_names(rng, n):
  """n distinct states of some type."""
  kind = rng.randrange(6)
  if kind == 0:
    return [i for i in range(n)]
  if kind == 1:
    out = [i - n // 2 for i in range(n)]
    rng.shuffle(out)
    return out
  if kind == 2:
    return [f"s{i}" for i in range(n)]
  if kind == 3:
    return [(i // 3, i % 3) for i in range(n)]
  if kind == 4:
    return [ConstHash(i) for i in range(n)]
  return [i * 8 for i in range(n)]


def variable_keys(rng, n):
  kind = rng.randrange(4)
  if kind == 0:
    return [f"v{i:0{len(str(n - 1))}d}" for i in range(n)]
  if kind == 1:
    return list(range(n))
  if kind == 2:
    return sorted(rng.sample(range(-50, 50), n))
  return sorted((rng.randrange(3), i) for i in range(n))


COSTS = [0, 0, 1, 2, 3, 5, -1, -2, 0.5, 10, -7.25, 1000]


def cost(rng, integral=False):
  if integral:
    return float(rng.randint(-4, 9))
  r = rng.random()
  if r < 0.7:
    return rng.choice(COSTS)
  return round(rng.uniform(-5, 5), 3)


def dag(rng, keys, values, n_states=None, junk=True, integral=False,
        inf_edges=True, tie_heavy=False, density=None, magnitudes=()):
  """A random DAG; edges in a random admissible order.

  Every path assigns its variables in increasing key order, at most once each.
  With junk, some states are dead ends or unreachable; a path to the final
  state usually exists.
  """
  n = n_states or rng.randint(2, 7)
  names = state_names(rng, n + 2)
  extra = names[n:]
  names = names[:n]
  before = [-1] * n  # largest variable possibly assigned before
  nk = len(keys)
  edges = []
  density = density or rng.choice([0.35, 0.5, 0.7])
  # Some DAGs have costs of very different (or uniformly unusual) magnitudes.
  factor = rng.choice(magnitudes) if magnitudes and rng.random() < 0.25 else 1
  mixed = rng.random() < 0.6
  for i in range(n - 1):
    dests = [j for j in range(i + 1, n) if rng.random() < density]
    if not dests and (not junk or rng.random() < 0.85):
      dests = [i + 1]
    for j in dests:
      for _ in range(rng.choice([1, 1, 2, 3])):
        c = rng.choice([0.0, 0.0, 1.0]) if tie_heavy else cost(rng, integral)
        if factor != 1 and (not mixed or rng.random() < 0.5):
          c *= factor
        if inf_edges and rng.random() < 0.07:
          c = math.inf
        nxt = before[i] + 1
        if nxt < nk and rng.random() < 0.6:
          k = min(nk - 1, nxt + rng.choice([0, 0, 0, 1, 2]))
          a = gsd.SharedVariableAssignment(keys[k], rng.choice(values))
          before[j] = max(before[j], k)
        else:
          a = None
          before[j] = max(before[j], before[i])
        edges.append(gsd.Edge(names[i], names[j], c, a,
                              rng.choice([None, len(edges), f"e{len(edges)}"])))
  if junk and rng.random() < 0.4:
    # Unreachable source and dead end.
    edges.append(gsd.Edge(extra[0], names[rng.randrange(1, n)], cost(rng), None,
                          "junk-in"))
    edges.append(gsd.Edge(names[rng.randrange(0, n - 1)], extra[1], cost(rng),
                          None, "junk-out"))
  return gsd.CompleteStateDAG(names[0], shuffle_edges(rng, edges), names[-1])


def shuffle_edges(rng, edges):
  """A random order in which no edge into a state follows one out of it."""
  incoming = {}
  for e in edges:
    incoming[e.dest] = incoming.get(e.dest, 0) + 1
  style = rng.randrange(2)
  out = []
  left = list(edges)
  while left:
    avail = [k for k, e in enumerate(left) if not incoming.get(e.source, 0)]
    k = avail[0] if style else rng.choice(avail)
    e = left.pop(k)
    incoming[e.dest] -= 1
    out.append(e)
  return out


def paths(initial, edges, final, limit=4000):
  """All finite-cost paths as tuples of edge positions (None: too many)."""
  by_source = {}
  for i, e in enumerate(edges):
    if e.cost < math.inf:
      by_source.setdefault(e.source, []).append(i)
  out = []
  stack = [(initial, ())]
  steps = 0
  while stack:
    s, p = stack.pop()
    steps += 1
    if len(out) > limit or steps > 20 * limit:
      return None
    if s == final:
      out.append(p)
      continue
    for i in by_source.get(s, ()):
      stack.append((edges[i].dest, p + (i,)))
  return sorted(out)


def path_assignment(edges, path):
  return {edges[i].required_assignment.key: edges[i].required_assignment.value
          for i in path if edges[i].required_assignment is not None}


def path_cost(edges, path):
  return math.fsum(edges[i].cost for i in path)


def all_assignments(keys, values):
  for combo in itertools.product(values, repeat=len(keys)):
    yield dict(zip(keys, combo))
