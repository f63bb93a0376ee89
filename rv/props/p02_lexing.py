"""P02: each language's tokens and token classes follow its lexical rules."""
from r_u_sure.parsing.pseudo_parser import stack_parser
from rv import codegen
from rv import parse_util
from rv import ref_parse

ID = "P02"
RULE = (
    "random code x 6 languages, scanned by the real tokenizer (fresh and"
    " long-lived) and by an independent scanner; nontrivial: distinct"
    " (language, type sequence) with 2+ tokens"
)
QUICK = dict(cases=40000, budget=60)
THOROUGH = dict(cases=1500000, budget=780)
MIN_EVENTS = {"scanned": 2000, "type:STRING": 100, "type:COMMENT_HASH": 50,
              "type:COMMENT_SLASHSLASH": 50, "type:COMMENT_SLASHSTAR": 50,
              "type:C_PREPROCESSOR": 50, "type:NUMBER": 50, "reused": 500}
_LONG_LIVED = {}


def run_case(rng, mon, idx):
  lang = codegen.LANGS[idx % len(codegen.LANGS)]
  code = codegen.any_code(rng, lang)
  if idx % 4000 in (1002, 2002, 3004, 3999):
    code = codegen.vast(rng, lang)
    mon.event("vast")
  mon.note(lang=lang, code=code)
  expected = ref_parse.tokenize(lang, code)
  preset = "python_preprocessor" if lang == "python" else lang

  if rng.random() < 0.5 and preset in _LONG_LIVED:
    codec, known = _LONG_LIVED[preset]
    mon.event("reused")
  else:
    codec, known = stack_parser.RegexCodec.preset(preset), set()
    if rng.random() < 0.2:
      _LONG_LIVED[preset] = (codec, known)
  ids, types = codec.encode(code)
  mon.event("scanned")
  got = list(zip(codec.decode_token(ids), [t.name for t in types]))
  mon.eq(got, expected, "tokens or token classes differ from the lexical rules")
  mon.eq(
      [t.name for t in codec.decode_type(ids)], [k for _, k in expected],
      "decoded token classes differ",
  )
  # Ids identify token texts.
  table = {}
  for i, (t, _) in zip(ids, expected):
    mon.eq(table.setdefault(i, t), t, "one id for two tokens")
  mon.eq(len(set(table)), len(set(table.values())), "two ids for one token")
  known.update(t for t, _ in expected)
  mon.eq(
      len(codec), len(known), "vocabulary is not exactly the tokens seen so far"
  )
  for _, k in expected:
    mon.event("type:" + k)

  _, tokens, ptypes, raw, (n_pre, n_post) = parse_util.run_parser(
      lang, code, rng.choice([1, 2, 4])
  )
  body = [
      (r, k.name) for r, k in zip(raw, ptypes) if r
  ]
  mon.eq(body, expected, "parser's tokens differ from the lexical rules")
  for t, r, k in zip(tokens, raw, ptypes):
    if not r and t:
      mon.eq(
          k.name, "NEWLINE" if t == "\n" else "BRACE", "class of added token"
      )
  if len(expected) >= 2:
    mon.key(lang, [k for _, k in expected])
  mon.sample(dict(lang=lang, code=code[:100], tokens=expected[:8]))
