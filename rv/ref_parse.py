"""Reference semantics of the pseudo-parser (independent of /repo).

Trees are tuples (annotation, lo, hi, (children...)).
"""

import re

PAIRS = [("(", ")"), ("[", "]"), ("{", "}")]
INDENT = ("indent",)
DEDENT = ("dedent",)

_PY_STRING = re.compile(r"""("{3}|'{3}|"|')((?<!\\)\\\1|.)*?\1""", re.DOTALL)
_SLASHSTAR = re.compile(r"/\*.*?\*/", re.DOTALL)
_SQ = re.compile(r"'(?:\\.|[^\\'])*'", re.DOTALL)
_DQ = re.compile(r'"(?:\\.|[^\\"])*"', re.DOTALL)
_DIRECTIVES = (
    "#include", "#define", "#undef", "#ifdef", "#ifndef", "#line", "#if",
    "#endif", "#error",
)
_ID = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def _is_digit(c):
  # The scanner treats every Unicode decimal digit as a digit.
  return c.isdecimal()


def tokenize(lang, code):
  """Returns [(text, type name)] by scanning with the language's rules."""
  out = []
  i = 0
  n = len(code)
  while i < n:
    c = code[i]
    tok = None
    if lang in ("python", "python_preprocessor"):
      if c in "\"'":
        m = _PY_STRING.match(code, i)
        if m:
          tok = (m.group(), "STRING")
      elif c == "#":
        j = code.find("\n", i)
        j = n if j < 0 else j
        tok = (code[i:j], "COMMENT_HASH")
    elif lang in ("cpp", "java", "javascript"):
      if lang == "cpp" and c == "#":
        for d in _DIRECTIVES:
          if code.startswith(d, i):
            j = i + len(d)
            while j < n:
              if code.startswith("\\\n", j):
                j += 2
              elif code[j] not in "(\n|/*)":
                j += 1
              else:
                break
            tok = (code[i:j], "C_PREPROCESSOR")
            break
      elif c == "/" and code.startswith("//", i):
        j = code.find("\n", i)
        j = n if j < 0 else j
        tok = (code[i:j], "COMMENT_SLASHSLASH")
      elif c == "/" and code.startswith("/*", i):
        m = _SLASHSTAR.match(code, i)
        if m:
          tok = (m.group(), "COMMENT_SLASHSTAR")
      elif c in "\"'":
        m = (_SQ if c == "'" else _DQ).match(code, i)
        if m:
          # Quoted literals share a lexical class with block comments.
          tok = (m.group(), "COMMENT_SLASHSTAR")
    if tok is None:
      if _is_digit(c):
        j = i
        while j < n and _is_digit(code[j]):
          j += 1
        if j < n and code[j] == ".":
          j += 1
          while j < n and _is_digit(code[j]):
            j += 1
        tok = (code[i:j], "NUMBER")
      elif c in _ID:
        j = i
        while j < n and code[j] in _ID:
          j += 1
        tok = (code[i:j], "ID")
      elif c in "+-*/":
        tok = (c, "OP")
      elif c in ",.;:=><":
        tok = (c, "PUNC")
      elif c in "()[]{}":
        tok = (c, "BRACE")
      elif c == "\n":
        tok = (c, "NEWLINE")
      elif c == "\t":
        tok = (c, "TAB")
      elif c == " ":
        j = i
        while j < n and code[j] == " ":
          j += 1
        tok = (code[i:j], "WHITE_SPACE")
      else:
        tok = (c, "OTHER")
    out.append(tok)
    i += len(tok[0])
  return out


def correction(tokens, pairs):
  """Minimal (prefix, suffix) making the token sequence bracket-complete."""
  close_of = dict(pairs)
  open_of = {b: a for a, b in pairs}
  prefix = []
  stack = []
  for t in tokens:
    if t in close_of:
      stack.append(t)
    elif t in open_of:
      if not stack:
        prefix.insert(0, open_of[t])
      elif stack[-1] == open_of[t]:
        stack.pop()
  return prefix, [close_of[t] for t in reversed(stack)]


def has_mismatch(tokens, pairs):
  """(any closer facing another opener, any closer with empty stack, unclosed)"""
  close_of = dict(pairs)
  open_of = {b: a for a, b in pairs}
  stack = []
  wrong = empty = False
  for t in tokens:
    if t in close_of:
      stack.append(t)
    elif t in open_of:
      if not stack:
        empty = True
      elif stack[-1] == open_of[t]:
        stack.pop()
      else:
        wrong = True
  return wrong, empty, bool(stack)


def bracket_tree(tokens, pairs):
  """Tree of a bracket-complete sequence; wrong closers are plain tokens."""
  close_of = dict(pairs)

  def seq(i, closer):
    children = []
    while i < len(tokens):
      t = tokens[i]
      if closer is not None and t == closer:
        return children, i
      if t in close_of:
        inner, j = seq(i + 1, close_of[t])
        children.append((
            "paired", i, j + 1,
            (
                ("left", i, i + 1, ()),
                ("middle", i + 1, j, tuple(inner)),
                ("right", j, j + 1, ()),
            ),
        ))
        i = j + 1
      else:
        children.append(("sibling", i, i + 1, ()))
        i += 1
    assert closer is None
    return children, i

  children, _ = seq(0, None)
  return ("root", 0, len(tokens), tuple(children))


def split_tree(tree, is_splitter, unsplittable, tokens):
  """Groups children after each splitter leaf, outside unsplittable brackets."""
  ann, lo, hi, children = tree
  if ann == "paired":
    if (tokens[children[0][1]], tokens[children[2][1]]) in unsplittable:
      return tree
  done = []
  groups = [[]]
  for c in children:
    sub = (
        split_tree(c, is_splitter, unsplittable, tokens)
        if c[2] - c[1] > 1
        else c
    )
    done.append(sub)
    groups[-1].append(sub)
    if c[2] - c[1] == 1 and is_splitter(c[1]):
      groups.append([])
  if len(groups) > 1 and ann != "paired":
    done = [
        ("split", g[0][1], g[-1][2], tuple(g)) for g in groups if g
    ]
  return (ann, lo, hi, tuple(done))


def nest_blocks(tree, tokens):
  """Moves each indented block under the statement that precedes it."""
  ann, lo, hi, children = tree
  children = [nest_blocks(c, tokens) for c in children]

  def holds_block(node):
    return node[0] == "split" and any(
        c[0] == "paired" and tokens[c[3][0][1]] == INDENT
        and tokens[c[3][2][1]] == DEDENT
        for c in node[3]
    )

  out = []
  for c in children:
    if out and out[-1][0] == "split" and holds_block(c):
      head = out.pop()
      out.append((
          "split", head[1], c[2],
          (("split", head[1], head[2], head[3]), c),
      ))
    else:
      out.append(c)
  return (ann, lo, hi, tuple(out))


def parse(lang, code, spaces_per_indent=1):
  """Returns dict(tree, tokens, types, raw, n_pre, n_post)."""
  if lang == "python":
    return _parse_python(code, spaces_per_indent)
  toks = tokenize(lang, code)
  texts = [t for t, _ in toks]
  prefix, suffix = correction(texts, PAIRS)
  if suffix and lang == "python_preprocessor":
    suffix = suffix + ["\n"]
  tokens = prefix + texts + suffix
  types = (
      ["BRACE"] * len(prefix)
      + [k for _, k in toks]
      + ["NEWLINE" if t == "\n" else "BRACE" for t in suffix]
  )
  raw = [""] * len(prefix) + texts + [""] * len(suffix)
  tree = bracket_tree(tokens, PAIRS)
  if lang != "python_preprocessor":
    split_types = {
        "simple": (),
        "cpp": ("C_PREPROCESSOR", "COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
        "java": ("COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
        "javascript": ("COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
    }[lang]
    unsplittable = {("(", ")"), ("[", "]")} if lang == "simple" else set()
    tree = split_tree(
        tree,
        lambda i: tokens[i] == ";" or types[i] in split_types,
        unsplittable,
        tokens,
    )
  return dict(
      tree=tree, tokens=tokens, types=types, raw=raw,
      n_pre=len(prefix), n_post=len(suffix),
  )


def _parse_python(code, spaces_per_indent):
  appended = not code.endswith("\n")
  full = code + "\n" if appended else code
  pre = parse("python_preprocessor", full)
  tokens, types, raw = pre["tokens"], pre["types"], list(pre["raw"])
  if appended:
    raw[len(raw) - pre["n_post"] - 1] = ""
  # Logical lines: newlines outside all brackets end a line.
  out = []  # (token, type, raw)
  level = 0
  line = []

  def dedent(k):
    nl = out.pop()
    assert nl[0] == "\n"
    out.extend([(DEDENT, "PYTHON_DEDENT", "")] * k)
    out.append(nl)

  def flush():
    nonlocal level
    text = "".join(tokens[i] for i in line)
    if text.strip():
      new = (len(text) - len(text.lstrip())) // spaces_per_indent
      if new > level:
        out.extend([(INDENT, "PYTHON_INDENT", "")] * (new - level))
      elif new < level:
        dedent(level - new)
      level = new
    out.extend((tokens[i], types[i], raw[i]) for i in line)
    del line[:]

  for child in pre["tree"][3]:
    line.extend(range(child[1], child[2]))
    if child[2] - child[1] == 1 and tokens[child[1]] == "\n":
      flush()
  if line:
    flush()
  if level:
    dedent(level)
  toks = [t for t, _, _ in out]
  tree = bracket_tree(toks, PAIRS + [(INDENT, DEDENT)])
  tree = split_tree(
      tree, lambda i: toks[i] == "\n", {("(", ")"), ("[", "]")}, toks
  )
  tree = nest_blocks(tree, toks)
  return dict(
      tree=tree,
      tokens=["" if t in (INDENT, DEDENT) else t for t in toks],
      types=[k for _, k, _ in out],
      raw=[r for _, _, r in out],
      n_pre=pre["n_pre"],
      n_post=pre["n_post"],
      marked=toks,
  )


def leaves(tree):
  if not tree[3]:
    yield tree
  for c in tree[3]:
    yield from leaves(c)


def parse_config(
    toks, pairs, split_tokens, split_types, unsplittable, newline_terminate
):
  """Reference for an arbitrary (non-Python-block) parser configuration."""
  texts = [t for t, _ in toks]
  type_of = dict(toks)
  type_of.setdefault("\n", "NEWLINE")
  prefix, suffix = correction(texts, pairs)
  if suffix and newline_terminate:
    suffix = suffix + ["\n"]
  tokens = prefix + texts + suffix
  tree = bracket_tree(tokens, pairs)
  seen_split = {t for t, k in toks if k in split_types}
  if split_tokens or seen_split:
    tree = split_tree(
        tree,
        lambda i: tokens[i] in split_tokens or tokens[i] in seen_split,
        set(unsplittable),
        tokens,
    )
  return dict(
      tree=tree,
      tokens=tokens,
      raw=[""] * len(prefix) + texts + [""] * len(suffix),
      n_pre=len(prefix),
      n_post=len(suffix),
  )


def unsplit(tree):
  """Removes statement groups, leaving the bracket structure."""
  ann, lo, hi, children = tree

  def flat(cs):
    for c in cs:
      if c[0] == "split":
        yield from flat(c[3])
      else:
        yield unsplit(c)

  return (ann, lo, hi, tuple(flat(children)))


def subtokens(text):
  """Reference splitter of literals into subtokens."""
  def cls(c):
    if c.isupper():
      return "U"
    if c.islower():
      return "L"
    if c.isdigit():
      return "N"
    return "S"

  cuts = {0}
  run = 1  # length of the current piece of identical blanks
  for i in range(1, len(text)):
    a, b = cls(text[i - 1]), cls(text[i])
    cut = False
    if a != b:
      if (a, b) == ("U", "L"):
        if i >= 2 and cls(text[i - 2]) == "U":
          cuts.add(i - 1)
      else:
        cut = True
    elif a == "S":
      if text[i] in " \t" and text[i] == text[i - 1]:
        cut = run >= 20
      elif text[i].isspace() or text[i - 1].isspace():
        cut = True
    if cut:
      cuts.add(i)
      run = 1
    else:
      run += 1
  cuts = sorted(cuts)
  return [text[a:b] for a, b in zip(cuts, cuts[1:] + [len(text)])] if text else []
