"""P06: cursor-based truncation, docstring discovery, indent inference."""
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities
from rv import codegen
from rv import parse_util
from rv import ref_parse

ID = "P06"
RULE = (
    "random code x languages x every/random cursor, compared with truncation"
    " points computed from an independent parse; docstrings planted at known"
    " offsets; nontrivial: distinct (code, cursor class) with a real truncation"
)
QUICK = dict(cases=24000, budget=70)
THOROUGH = dict(cases=700000, budget=780)
MIN_EVENTS = {"cursors": 5000, "in_block": 500, "fallback": 500,
              "docstrings": 500, "indent_inferred": 500, "pydoc_trunc": 200,
              "all_pairs": 300, "all_splitters": 300, "decoys": 200,
              "at_end": 200, "closes_at_end": 20,
              "long_indent": 20}


def lead(text):
  return len(text) - len(text.lstrip())


def expected_indent(code, candidates):
  if not code:
    return 1
  p = ref_parse.parse("python", code, 1)
  widths = []
  for i in range(1, len(p["types"])):
    if p["types"][i] == "WHITE_SPACE" and p["raw"][i] and p["types"][i - 1] in (
        "PYTHON_INDENT", "PYTHON_DEDENT"):
      widths.append(len(p["raw"][i]))
  if not widths:
    return 1
  return max([1] + [c for c in candidates if all(w % c == 0 for w in widths)])


def leaf_list(p, pair):
  """[(start, end, depth, ends_statement, raw)] of the reference parse."""
  out = []
  pos = 0

  def opens(node):
    if pair is None:
      return True
    left, right = node[3][0][1], node[3][2][1]
    if pair == "block":
      return p["types"][left] == "PYTHON_INDENT"
    return p["raw"][left] == pair[0] or p["raw"][right] == pair[1]

  def rec(node, depth, parent):
    nonlocal pos
    ann, lo, hi, children = node
    if not children:
      raw = p["raw"][lo] if hi > lo else ""
      last = parent is not None and parent[0] == "split" and (
          parent[3][-1] is node)
      out.append((pos, pos + len(raw), depth, last, raw))
      pos += len(raw)
    for c in children:
      rec(c, depth + (c[0] == "middle" and opens(node)), node)

  rec(p["tree"], 0, None)
  return out


def expected_pair(p, pair, cursor):
  leaves = leaf_list(p, pair)
  total = leaves[-1][1]
  if cursor == total:
    return total
  k = next((i for i, l in enumerate(leaves) if l[0] > cursor), None)
  if k is None or leaves[k][2] == 0:
    return None
  for j in range(k + 1, len(leaves)):
    if leaves[j][2] == leaves[k][2] - 1:
      return leaves[min(j + 1, len(leaves) - 1)][1]
  return None


def expected_split(p, splitters, cursor):
  leaves = leaf_list(p, None)
  total = leaves[-1][1]
  if cursor == total:
    return total
  for start, end, _, last, raw in leaves:
    if start > cursor and last and (splitters is None or raw in splitters):
      return end
  return total


def truncation(rng, mon):
  lang = rng.choice(["python", "python", "cpp", "java", "javascript", "simple"])
  code = codegen.any_code(rng, lang, max_stmts=7)
  r = rng.random()
  if lang != "python" and r < 0.25:
    code = "".join(rng.choice(["{", "}", "a", ";", "b", "\n", "(", ")", " "])
                   for _ in range(rng.choice([3, 6, 12, 20])))
  if lang == "python":
    spaces = rng.choice([None, 1, 2, 4, None, 1, 2, 4, 3, 8, 9, 12, 16])
  else:
    spaces = rng.choice([None, 1])
  width = (
      (expected_indent(code, (1, 2, 3, 4)) if spaces is None else spaces)
      if lang == "python" else 1
  )
  p = ref_parse.parse(lang, code, width)
  root, _, types, raw, _ = parse_util.run_parser(lang, code, width)
  mon.note(lang=lang, code=code, spaces=spaces)
  n = len(code)
  cursors = {0, n, max(0, n - 1)} | {rng.randint(0, n) for _ in range(6)}
  for cur in sorted(cursors):
    mon.note(cursor=cur)
    mon.event("cursors")
    if cur == n:
      mon.event("at_end")
    pair = "block" if lang == "python" else ("{", "}")
    real_pair = (
        (stack_parser.TokenType.PYTHON_INDENT,
         stack_parser.TokenType.PYTHON_DEDENT)
        if lang == "python" else ("{", "}")
    )
    splitters = ("\n",) if lang == "python" else (";",)
    ep = expected_pair(p, pair, cur)
    es = expected_split(p, splitters, cur)
    got = utilities.infer_match_pair_truncation_index(
        root, raw, types, real_pair, cur)
    mon.eq(got, ep, "end of the enclosing block differs")
    got = utilities.infer_split_truncation_index(root, raw, splitters, cur)
    mon.eq(got, es, "end of the next statement differs")
    got = utilities.infer_truncation_with_fallbacks(
        code, cur, lang, spaces_per_indent=spaces)
    mon.eq(got, ep if ep is not None else es, "truncation index differs")
    mon.check(cur <= got <= n, "truncation outside of the remaining code")
    mon.event("in_block" if ep is not None else "fallback")
    if ep == n and cur < n and lang != "python" and code.endswith("}"):
      mon.event("closes_at_end")
    if rng.random() < 0.3:
      got = utilities.infer_match_pair_truncation_index(
          root, raw, types, None, cur)
      mon.eq(got, expected_pair(p, None, cur), "end of enclosing pair differs")
      mon.event("all_pairs")
      other = rng.choice([("(", ")"), ("[", "]")])
      got = utilities.infer_match_pair_truncation_index(
          root, raw, types, other, cur)
      mon.eq(got, expected_pair(p, other, cur), "end of other pair differs")
    if rng.random() < 0.3:
      got = utilities.infer_split_truncation_index(root, raw, None, cur)
      mon.eq(got, expected_split(p, None, cur), "end of any statement differs")
      mon.event("all_splitters")
      own = tuple(rng.sample([";", "\n", ",", "}"], rng.randint(0, 2)))
      got = utilities.infer_split_truncation_index(root, raw, own, cur)
      mon.eq(got, expected_split(p, own, cur), "end of chosen statement differs",
             splitters=own)
    mon.key(lang, code, cur)
  mon.sample(dict(lang=lang, code=code[:100], cursors=sorted(cursors)))


def indent(rng, mon):
  r = rng.random()
  if r < 0.5:
    code = codegen.py_program(rng)
  elif r < 0.8:
    code = codegen.any_code(rng, "python")
  elif r < 0.97:
    code = "".join(
        " " * rng.choice([0, 2, 3, 4, 6, 8, 9, 12]) + "x\n"
        for _ in range(rng.randint(1, 6)))
  else:
    # One odd line at the end of a long regular program.
    u = rng.choice([4, 4, 8, 12])
    code = f"if x:\n{' ' * u}y\nz\n" * rng.choice([40, 80, 150, 300])
    code += "if x:\n" + " " * (u + rng.choice([0, 1, 2, 3])) + "y\n"
    mon.event("long_indent")
  mon.note(code=code)
  got = utilities.infer_python_spaces_per_indent(code)
  mon.eq(got, expected_indent(code, (1, 2, 3, 4)), "inferred indent differs")
  cands = [rng.randint(1, 8) for _ in range(rng.randint(1, 4))]
  got = utilities.infer_python_spaces_per_indent(code, cands)
  mon.eq(got, expected_indent(code, cands), "inferred indent (candidates)",
         cands=cands)
  mon.event("indent_inferred")
  mon.key("indent", code)
  # Consistently indented code gives its own unit back.
  u = rng.choice([1, 2, 3, 4])
  body = "".join(
      f"if x:\n{' '*u}y = 1\n" for _ in range(rng.randint(1, 3)))
  mon.eq(utilities.infer_python_spaces_per_indent(body), u, "own unit", body=body)


def docstrings(rng, mon):
  unit = " " * rng.choice([2, 2, 4, 4, 3, 1])
  lines = []
  starts = []
  pos = 0

  def emit(text):
    nonlocal pos
    lines.append(text)
    pos += len(text)

  def func(depth, budget):
    ind = unit * depth
    if rng.random() < 0.3:
      emit(f"{ind}@deco(1)\n")
    emit(ind + rng.choice([
        "def f(self):\n", "def g(a, b=(1, 2)):\n",
        f"def h(\n{ind}    a,\n{ind}    b,\n{ind}):\n",
        "def k(a: int = 3) -> 'str':\n", "def  spaced():\n",
    ]))
    body = unit * (depth + 1)
    q = rng.choice(['"""', "'''"])
    r = rng.random()
    if r < 0.6:
      emit(body + q)
      starts.append(pos)
      emit(rng.choice(["Doc.", "Doc\n" + body + "more (\n" + body, " x = 'y' ",
                       "D", "def f():"]) + q + "\n")
    elif r < 0.7:
      emit(body + f"'plain' + {q}not doc{q}\n")
      mon.event("decoys")
    elif r < 0.8:
      emit(body + f"x = {q}not doc{q}\n" + body + f"{q}late{q}\n")
      mon.event("decoys")
    else:
      emit(body + "pass\n")
    for _ in range(rng.randint(0, 2)):
      r = rng.random()
      if r < 0.3 and depth < 3 and budget[0] > 0:
        budget[0] -= 1
        func(depth + 1, budget)
      else:
        emit(body + rng.choice(["return x\n", "y = foo(1,\n" + body + " 2)\n",
                                "s = 'def x():'\n"]))

  budget = [rng.randint(1, 5)]
  if rng.random() < 0.5:
    emit('"""Module doc."""\n')
    mon.event("decoys")
  while budget[0] > 0:
    budget[0] -= 1
    r = rng.random()
    if r < 0.3:
      emit("class A(B):\n")
      if rng.random() < 0.5:
        emit(unit + '"""Class doc."""\n')
        mon.event("decoys")
      func(1, budget)
    elif r < 0.45:
      emit(f"if x:\n{unit}'''no function'''\n")
      mon.event("decoys")
    elif r < 0.5:
      emit("x = 1\n")
    else:
      func(0, budget)
  code = "".join(lines)
  mon.note(code=code)
  width = utilities.infer_python_spaces_per_indent(code)
  mon.eq(width, expected_indent(code, (1, 2, 3, 4)), "indent of docstring code")
  if width != len(unit):
    return  # no evidence about the unit in this program
  got = list(utilities.find_python_function_docstrings(code))
  mon.eq(got, starts, "function docstrings are not found exactly")
  mon.event("docstrings", len(starts))
  for i in got:
    q = code[i - 3 : i]
    rest = code.find(q, i)
    mon.eq(
        utilities.infer_truncation_pydocstring(code, i), rest + 3,
        "docstring truncation is not just after the closing quotes")
    mon.event("pydoc_trunc")
  mon.key("doc", code)


def soundness(rng, mon):
  code = codegen.any_code(rng, "python")
  mon.note(code=code)
  for i in utilities.find_python_function_docstrings(code):
    q = code[i - 3 : i]
    mon.check(q in ('"""', "'''"), "docstring index not after triple quotes")
    mon.event("sound_docstrings")
  # Any triple quote works as an opening quote.
  pieces = [rng.choice(["a", '"""', "'''", '"', "'", "\n", "b"])
            for _ in range(rng.randint(1, 12))]
  i = rng.randint(0, len(pieces))
  q = rng.choice(['"""', "'''"])
  prefix = "".join(pieces[:i]) + q
  rest = "".join(pieces[i:])
  want = None
  for j in range(len(rest) - 2):
    if rest[j : j + 3] == q:
      want = len(prefix) + j + 3
      break
  mon.note(code=prefix + rest, cursor=len(prefix))
  mon.eq(
      utilities.infer_truncation_pydocstring(prefix + rest, len(prefix)), want,
      "docstring truncation differs")
  mon.event("pydoc_trunc")
  bad = prefix + "x" + rest
  mon.raises(
      AssertionError,
      lambda: utilities.infer_truncation_pydocstring(bad, len(prefix) + 1),
      "cursor not after triple quotes was accepted")


def run_case(rng, mon, idx):
  kind = idx % 6
  if kind <= 2:
    truncation(rng, mon)
  elif kind == 3:
    indent(rng, mon)
  elif kind == 4:
    docstrings(rng, mon)
  else:
    soundness(rng, mon)
