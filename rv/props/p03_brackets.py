"""P03: bracket matching and minimal bracket correction."""
from r_u_sure.parsing.pseudo_parser import stack_parser
from rv import codegen
from rv import parse_util
from rv import ref_parse

ID = "P03"
RULE = (
    "random bracket-heavy token sequences over random bracket alphabets, and"
    " random code x 6 languages; nontrivial: distinct bracket trees with a pair"
)
QUICK = dict(cases=60000, budget=60)
THOROUGH = dict(cases=2000000, budget=780)
MIN_EVENTS = {"direct": 1000, "code": 1000, "prefix_added": 300,
              "suffix_added": 300, "wrong_closer_plain": 200,
              "strict_rejected": 200, "strict_accepted": 200, "depth>=4": 100}


def depth(t):
  return (t[0] == "paired") + max([depth(c) for c in t[3]], default=0)


def direct(rng, mon):
  """The matcher and corrector on abstract token sequences."""
  if rng.random() < 0.5:
    pairs = [("(", ")"), ("[", "]"), ("{", "}")][: rng.randint(1, 3)]
    other = ["a", ";", "\n"]
  else:
    k = rng.randint(1, 4)
    pairs = [(2 * j + 10, 2 * j + 11) for j in range(k)]
    other = [0, 1, 2]
  alphabet = [t for p in pairs for t in p] * 2 + other
  n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 25, 60])
  if rng.random() < 0.3:
    # mostly nested: long opener runs
    alphabet += [p[0] for p in pairs] * 3
  tokens = [rng.choice(alphabet) for _ in range(n)]
  mon.note(tokens=tokens, pairs=pairs)
  mon.event("direct")
  given = list(tokens)
  # Asking for log messages changes nothing.
  pre, suf = stack_parser.error_correcting_prefix_and_suffix(
      tokens, pairs, verbose=rng.random() < 0.2)
  mon.eq(tokens, given, "corrector modified its input")
  epre, esuf = ref_parse.correction(tokens, pairs)
  mon.eq((list(pre), list(suf)), (epre, esuf), "corrections differ")
  fixed = list(pre) + tokens + list(suf)
  wrong, empty, unclosed = ref_parse.has_mismatch(fixed, pairs)
  mon.check(not empty and not unclosed, "corrected sequence is not complete")
  mon.eq(
      stack_parser.error_correcting_prefix_and_suffix(fixed, pairs), ([], []),
      "a corrected sequence needs further correction",
  )
  if pre:
    mon.event("prefix_added")
  if suf:
    mon.event("suffix_added")
  expected = ref_parse.bracket_tree(fixed, pairs)
  root = stack_parser.stack_based_bracket_match(fixed, pairs, error_tolerant=True)
  mon.eq(parse_util.tup(root), expected, "bracket tree differs")
  parse_util.check_shape(mon, root, len(fixed))
  if wrong:
    mon.event("wrong_closer_plain")
    mon.raises(
        stack_parser.ParseError,
        lambda: stack_parser.stack_based_bracket_match(fixed, pairs),
        "strict matching accepted a mismatched closer",
    )
    mon.event("strict_rejected")
  else:
    root = stack_parser.stack_based_bracket_match(fixed, pairs)
    mon.eq(parse_util.tup(root), expected, "strict bracket tree differs")
    mon.event("strict_accepted")
  partial = list(pre) + tokens
  w2, _, u2 = ref_parse.has_mismatch(partial, pairs)
  if u2 and not w2:
    mon.raises(
        stack_parser.ParseError,
        lambda: stack_parser.stack_based_bracket_match(partial, pairs),
        "strict matching accepted unclosed brackets",
    )
    mon.event("strict_rejected")
  return expected


def run_case(rng, mon, idx):
  if idx % 2:
    tree = direct(rng, mon)
  else:
    lang = rng.choice(codegen.LANGS)
    if rng.random() < 0.4:
      code = "".join(
          rng.choice(["(", ")", "[", "]", "{", "}", "a", ";", "\n", " ", ","])
          for _ in range(rng.choice([1, 3, 6, 12, 30]))
      )
    else:
      code = codegen.any_code(rng, lang)
    mon.note(lang=lang, code=code)
    mon.event("code")
    root, tokens, types, raw, (n_pre, n_post) = parse_util.run_parser(
        lang, code, rng.choice([1, 2, 4])
    )
    texts = [t for t, _ in ref_parse.tokenize(lang, code)]
    if lang == "python" and not code.endswith("\n"):
      texts.append("\n")
    pre, suf = ref_parse.correction(texts, ref_parse.PAIRS)
    if suf and lang in ("python", "python_preprocessor"):
      suf.append("\n")
    mon.eq((n_pre, n_post), (len(pre), len(suf)), "number of corrections")
    # Erase block markers and statement groups: what is left must be the
    # bracket tree of the corrected token sequence.
    full = pre + texts + suf
    expected = ref_parse.bracket_tree(full, ref_parse.PAIRS)
    marks = [k.name in ("PYTHON_INDENT", "PYTHON_DEDENT") for k in types]
    new_index = []
    c = 0
    for m in marks:
      new_index.append(c)
      c += not m
    new_index.append(c)

    def strip(t):
      ann, lo, hi, children = t
      out = []
      for ch in children:
        if ch[0] == "split":
          out.extend(strip(ch)[3])
        elif ch[0] == "paired" and marks[ch[1]]:
          out.extend(strip(ch[3][1])[3])
        else:
          out.append(strip(ch))
      return (ann, new_index[lo], new_index[hi], tuple(out))

    mon.eq(
        [t for t, m in zip(tokens, marks) if not m], full, "corrected tokens"
    )
    tree = strip(parse_util.tup(root))
    mon.eq(tree, expected, "bracket structure of the parse differs")
    if pre:
      mon.event("prefix_added")
    if suf:
      mon.event("suffix_added")
  d = depth(tree)
  if d >= 4:
    mon.event("depth>=4")
  if d:
    mon.key(tree)
  mon.sample(dict(tree=tree))
