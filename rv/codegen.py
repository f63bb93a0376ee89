"""Source-code workloads: realistic, mutated, and hostile inputs."""

import functools
import os
import sysconfig

LANGS = ("python", "simple", "cpp", "java", "javascript", "python_preprocessor")

_PIECES = [
    "(", ")", "[", "]", "{", "}", "(", ")", "{", "}", ";", ";", "\n", "\n",
    " ", "  ", "    ", "\t", ",", ".", ":", "=", ">", "<", "+", "-", "*", "/",
    "a", "b", "foo", "Bar", "x1", "_y", "camelCaseName", "0", "12", "3.5",
    "7.", "1e5", '"', "'", '"""', "'''", "\\", "#", "//", "/*", "*/", "#define X",
    "#include <a>", "#if", "#endif", '"s"', "'t'", '"a\\"b"', "'c\\'d'",
    '"""doc"""', "'''doc'''", "# c", "// c", "/* c */", "\r", "\x0c", "\u00e9",
    "\u4e2d", "\U0001f600", "\u00a0", "\u2028", "@", "!", "$", "`", "~", "^",
    "&", "|", "%", "?", "def f():", "if x:", "return", "class A:", "for (;;)",
    "\\n", '\\"', '""', "''", "/", "//\n", "#\n", "else", "\n\n", "\n  ",
    "\n    ", "\n ", "\n\t",
    "#undef X", "#ifdef Y", "#ifndef Z", "#line 3", "#error no", "#if 1 // c",
    "#pragma once", "#elif A", "#define F(x) x", "#define M \\\n 2", "#else",
    "\x00", "\x0b", "\x1c", "\x85", "\ufeff", "\u200b", "\u0663", "\u0663.5",
    "\uff11", "\u00b2", "\u00bd", "\u03bb", "\u017f", "e\u0301", "\x7f", "\r\n",
    "0x1F", "1_000", "5.5.5", "..", "->", "::", "==", "&&", 'f"{a}"', "r'\\'",
    "b''", '"\\\\"', "'\\\\\\''", '"a\nb"', "'\n'", "/**/", "/***/", "/*/", "//*", "*//",
]


def soup(rng, n=None):
  n = n if n is not None else rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34])
  sub = rng.sample(_PIECES, rng.randint(2, 14)) if rng.random() < 0.6 else _PIECES
  return "".join(rng.choice(sub) for _ in range(n))


@functools.lru_cache(maxsize=None)
def _stdlib(name):
  path = os.path.join(sysconfig.get_paths()["stdlib"], name)
  try:
    with open(path, encoding="utf8") as f:
      return f.read().splitlines(keepends=True)
  except OSError:
    return ["def fallback(x):\n", "  return [x,\n", "   x]\n"] * 20


_STD_FILES = (
    "textwrap.py", "heapq.py", "bisect.py", "json/decoder.py", "fnmatch.py",
    "shlex.py", "queue.py", "csv.py", "string.py",
)


def stdlib_snippet(rng, max_lines=25):
  lines = _stdlib(rng.choice(_STD_FILES))
  n = rng.randint(1, max_lines)
  lo = rng.randrange(max(1, len(lines) - n))
  return "".join(lines[lo : lo + n])


_NAMES = ["x", "y", "self", "foo", "barBaz", "data_1", "np", "result", "i"]


def expr(rng, depth=0):
  r = rng.random()
  if depth > 2 or r < 0.35:
    return rng.choice(
        _NAMES + ["1", "42", "3.14", '"s"', "'t, ('", "None", "'a b'", '"{"']
    )
  if r < 0.5:
    return f"{expr(rng, depth+1)} {rng.choice('+-*/<>')} {expr(rng, depth+1)}"
  if r < 0.7:
    args = ", ".join(expr(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    return f"{rng.choice(_NAMES)}.{rng.choice(_NAMES)}({args})"
  if r < 0.8:
    return "[" + ", ".join(expr(rng, depth + 1) for _ in range(rng.randint(0, 3))) + "]"
  if r < 0.9:
    return f"({expr(rng, depth+1)})"
  return "{" + f"{expr(rng, depth+1)}: {expr(rng, depth+1)}" + "}"


def py_program(rng, unit=None, max_stmts=12):
  """A syntactically plausible, consistently indented Python program."""
  unit = unit or rng.choice(["  ", "  ", "    ", "    ", " ", "   ", "\t", " " * 8])
  lines = []

  def block(depth, budget):
    count = rng.randint(1, 3)
    for _ in range(count):
      if budget[0] <= 0:
        break
      budget[0] -= 1
      stmt(depth, budget)

  def stmt(depth, budget):
    ind = unit * depth
    r = rng.random()
    if r < 0.1:
      lines.append(rng.choice(["", "   ", ind]) + "\n")
    if r < 0.08:
      lines.append(rng.choice([ind, "", unit * (depth + 1)]) + "# comment (\n")
    if r > 0.55 and depth < 4:
      head = rng.choice([
          f"if {expr(rng)}:", f"for i in {expr(rng)}:", "while True:",
          f"def {rng.choice(_NAMES)}(a, b=1):", "class A(B):", "try:",
          f"def {rng.choice(_NAMES)}(\n{ind}    a,\n{ind}    b):", "else:",
          f"with {expr(rng)} as f:",
      ])
      lines.append(f"{ind}{head}\n")
      if head.startswith("def") and rng.random() < 0.5:
        q = rng.choice(['"""', "'''"])
        lines.append(f"{unit*(depth+1)}{q}Doc {rng.choice(['x','(y',''])}{q}\n")
      block(depth + 1, budget)
      if not lines[-1].strip() or lines[-1].strip().startswith("#"):
        lines.append(f"{unit*(depth+1)}pass\n")
    elif r < 0.2:
      lines.append(
          f"{ind}{rng.choice(_NAMES)} = foo({expr(rng)},\n{ind}    {expr(rng)},\n"
          f"{rng.choice(['', ind])})\n"
      )
    elif r < 0.25:
      lines.append(f"{ind}return {expr(rng)}\n")
    elif r < 0.3:
      lines.append(f'{ind}s = """multi\n line {{ \n"""\n')
    else:
      lines.append(
          f"{ind}{rng.choice(_NAMES)} = {expr(rng)}"
          f"{rng.choice(['', '', '', '  # note', '; z = 1'])}\n"
      )

  budget = [rng.randint(1, max_stmts)]
  while budget[0] > 0:
    budget[0] -= 1
    stmt(0, budget)
  code = "".join(lines)
  if rng.random() < 0.3:
    code = code.rstrip("\n")
  return code


def c_program(rng, lang, max_stmts=10):
  out = []

  def stmt(depth, budget):
    ind = "  " * depth
    r = rng.random()
    if r < 0.08:
      out.append(f"{ind}// note ({rng.choice(['', '{', ';'])}\n")
    elif r < 0.16:
      out.append(f"{ind}/* block ; {{\n more */\n")
    elif r < 0.22 and lang == "cpp":
      out.append(rng.choice(["#include <vector>\n", "#define A 1\n",
                             "#ifdef X\n", "#endif\n", "#define M \\\n  2\n"]))
    elif r < 0.55 and depth < 3:
      head = rng.choice([
          f"if ({expr(rng)})", "for (int i = 0; i < n; i++)", "while (x)",
          "void f(int a, int b)", "else", "class A", "function g()",
      ])
      out.append(f"{ind}{head} {{{rng.choice(['', chr(10)])}")
      for _ in range(rng.randint(0, 3)):
        if budget[0] <= 0:
          break
        budget[0] -= 1
        stmt(depth + 1, budget)
      out.append(f"{ind}}}{rng.choice(['', chr(10), ';' + chr(10)])}")
    else:
      out.append(
          f"{ind}{rng.choice(['', 'int ', 'var ', 'return '])}"
          f"{rng.choice(_NAMES)} = {expr(rng)};{rng.choice([chr(10), ' ', ''])}"
      )

  budget = [rng.randint(1, max_stmts)]
  while budget[0] > 0:
    budget[0] -= 1
    stmt(0, budget)
  return "".join(out)


def mutate(rng, code):
  for _ in range(rng.randint(1, 4)):
    if not code:
      return soup(rng, 3)
    i = rng.randrange(len(code) + 1)
    j = min(len(code), i + rng.randint(1, 6))
    r = rng.random()
    if r < 0.3:
      code = code[:i] + code[j:]
    elif r < 0.6:
      code = code[:i] + rng.choice(_PIECES) + code[i:]
    elif r < 0.75:
      code = code[:i]
    elif r < 0.85:
      code = code[i:]
    else:
      k = rng.randrange(len(code) + 1)
      code = code[:k] + code[i:j] + code[k:]
  return code


def large(rng, lang):
  """Deep nesting, long lines, long tokens, many lines."""
  kind = rng.randrange(6)
  n = rng.choice([10, 17, 30, 66, 130])
  if kind == 0:
    kinds = [rng.choice(["()", "[]", "{}"]) for _ in range(n)]
    closers = "".join(k[1] for k in reversed(kinds))
    cut = rng.choice([0, 0, 1, 3])
    code = "".join(k[0] + rng.choice(["", "a", "b;", " "]) for k in kinds)
    return code + "x" + closers[cut:] + rng.choice(["", ";", ")", "\n"])
  if kind == 1:
    unit = rng.choice([" ", "  "])
    code = "".join(f"{unit * i}if x{i}:\n" for i in range(n))
    code += f"{unit * n}y = {expr(rng)}\n"
    return code + "".join(f"{unit * i}z{i}\n"
                          for i in sorted(rng.sample(range(n), 3), reverse=True))
  if kind == 2:
    return "".join(f"name{rng.randrange(400)}{rng.choice([' ', ', ', ';', '.'])}"
                   for _ in range(150))
  if kind == 3:
    word = "".join(rng.choice("abcXYZ_09") for _ in range(rng.choice([40, 300])))
    return rng.choice([
        f"v{word} = 1\n", f'x = "{word} (\\" {word}"; y\n', f"# {word}\nz\n",
        f"// {word}\nz;\n", f"/* {word}\n{word} */ z;", f"{word[:60]}.5 + 1\n",
        "".join(f"{w} " for w in word)])
  if lang in ("python", "python_preprocessor"):
    return (stdlib_snippet(rng, 120) if kind == 4
            else py_program(rng, max_stmts=60))
  return c_program(rng, lang, max_stmts=60)


def vast(rng, lang):
  """Thousands of distinct words, lines, statements or comments."""
  n = rng.choice([4500, 9000])
  kind = rng.randrange(4)
  if kind == 0:
    return "".join(f"v{i} = w{n - i}{rng.choice([';', chr(10), ' '])}"
                   for i in range(n // 2))
  if kind == 1:
    return "".join(f"x = {i}; {'#' if 'python' in lang else '//'} c{i}\n"
                   for i in range(n // 4))
  if kind == 2 and "python" in lang:
    return "".join(_stdlib(rng.choice(_STD_FILES)))
  out = []
  while sum(map(len, out)) < 6 * n:
    out.append(any_code(rng, lang))
  return "\n".join(out)


def any_code(rng, lang, max_stmts=10):
  """Random code in `lang`: well-formed, mutated, or token soup."""
  if max_stmts >= 7 and rng.random() < 0.02:
    return large(rng, lang)
  r = rng.random()
  if r < 0.3:
    return soup(rng)
  if lang in ("python", "python_preprocessor"):
    code = (
        stdlib_snippet(rng) if r < 0.45 else py_program(rng, max_stmts=max_stmts)
    )
  else:
    code = c_program(rng, lang, max_stmts=max_stmts)
    if rng.random() < 0.1:
      code = py_program(rng, max_stmts=max_stmts)
  if rng.random() < 0.5:
    code = mutate(rng, code)
  return code
