"""P04: statement grouping in bracket languages and custom configurations."""
from r_u_sure.parsing.pseudo_parser import stack_parser
from rv import codegen
from rv import parse_util
from rv import ref_parse

ID = "P04"
RULE = (
    "random code x 4 bracket languages, and random parser configurations"
    " (brackets, splitters, unsplittable brackets, splitting token classes);"
    " nontrivial: distinct trees with a statement group"
)
QUICK = dict(cases=50000, budget=60)
THOROUGH = dict(cases=1500000, budget=780)
MIN_EVENTS = {"preset": 1000, "custom": 1000, "groups": 3000,
              "unsplittable_seen": 100, "reused_parser": 300}
_REUSE = {}


def count_groups(t):
  return (t[0] == "split") + sum(map(count_groups, t[3]))


def run_case(rng, mon, idx):
  if idx % 2 == 0:
    lang = ("simple", "cpp", "java", "javascript")[idx // 2 % 4]
    if rng.random() < 0.4:
      code = "".join(
          rng.choice(["(", ")", "[", "]", "{", "}", "a", ";", ";", ";", "\n",
                      " ", "// c\n", "/* d; */", "#if x\n", '"s;"'])
          for _ in range(rng.choice([1, 2, 4, 8, 16, 30]))
      )
    else:
      code = codegen.any_code(rng, lang)
      if idx % 4000 in (1002, 2002, 3004, 3999):
        code = codegen.vast(rng, lang)
        mon.event("vast")
    mon.note(lang=lang, code=code)
    mon.event("preset")
    expected = ref_parse.parse(lang, code)
    if rng.random() < 0.5:
      root, tokens, types, raw, n = parse_util.run_parser(lang, code)
    else:
      # A parser object may be used for many snippets.
      parser = _REUSE.get(lang)
      if parser is None or rng.random() < 0.02:
        parser = _REUSE[lang] = stack_parser.PseudoParser.preset(lang)
      root, tokens, types, raw, n = parser.pseudo_parse(code)
      mon.event("reused_parser")
    mon.eq(tokens, expected["tokens"], "tokens differ")
    mon.eq(
        [t.name for t in types], expected["types"], "token classes differ"
    )
    mon.eq(raw, expected["raw"], "raw tokens differ")
    mon.eq(tuple(n), (expected["n_pre"], expected["n_post"]), "corrections")
    tree = parse_util.tup(root)
    mon.eq(tree, expected["tree"], "statement structure differs")
    if lang == "simple" and any(t in "([" for t in tokens if t):
      mon.event("unsplittable_seen")
  else:
    lang = rng.choice(["simple", "cpp", "java", "python_preprocessor"])
    all_pairs = ref_parse.PAIRS + [("<", ">"), ("begin", "end"), ("do", "done")]
    pairs = rng.sample(all_pairs, rng.randint(1, 4))
    split_tokens = rng.sample([";", ",", "\n", ":", "a", "then"], rng.randint(0, 3))
    unsplittable = rng.sample(pairs, rng.randint(0, len(pairs)))
    T = stack_parser.TokenType
    split_types = rng.sample(
        [T.COMMENT_SLASHSLASH, T.COMMENT_SLASHSTAR, T.NUMBER, T.C_PREPROCESSOR,
         T.STRING, T.COMMENT_HASH], rng.randint(0, 2))
    nlt = rng.random() < 0.3
    code = "".join(
        rng.choice(["(", ")", "[", "]", "{", "}", "<", ">", " begin ", " end ",
                    " do ", " done ", " a ", ";", ",", "\n", ":", " then ",
                    " 1 ", "//x\n", "/*y*/", "'s'", "#z\n", "b"])
        for _ in range(rng.choice([0, 1, 3, 6, 12, 25]))
    )
    mon.note(lang=lang, code=code, pairs=pairs, split_tokens=split_tokens,
             unsplittable=unsplittable, split_types=split_types, nlt=nlt)
    mon.event("custom")
    parser = stack_parser.PseudoParser(
        pairs, split_tokens, unsplittable, split_types,
        stack_parser.RegexCodec.preset(lang), nlt)
    expected = ref_parse.parse_config(
        ref_parse.tokenize(lang, code), pairs, split_tokens,
        [t.name for t in split_types], unsplittable, nlt)
    for _ in range(2):
      root, tokens, types, raw, n = parser.pseudo_parse(code)
      mon.eq(tokens, expected["tokens"], "tokens differ (custom)")
      mon.eq(raw, expected["raw"], "raw tokens differ (custom)")
      mon.eq(tuple(n), (expected["n_pre"], expected["n_post"]), "corrections")
      tree = parse_util.tup(root)
      mon.eq(tree, expected["tree"], "statement structure differs (custom)")
    if unsplittable:
      mon.event("unsplittable_seen")
    # Splitting is a pure function of the bracket tree.
    base = stack_parser.stack_based_bracket_match(tokens, pairs, True)
    before = parse_util.tup(base)
    marks = split_tokens + [
        t for t, k in ref_parse.tokenize(lang, code) if k in
        [s.name for s in split_types]]
    again = stack_parser.split_parse(base, tokens, marks, unsplittable)
    mon.eq(parse_util.tup(again), expected["tree"], "split_parse differs")
    mon.eq(parse_util.tup(base), before, "split_parse modified its input")
    parse_util.check_shape(mon, again, len(tokens))
  parse_util.check_shape(mon, root, len(tokens))
  g = count_groups(tree)
  mon.event("groups", g)
  if g:
    mon.key(tree)
  mon.sample(dict(code=code[:100], groups=g))
