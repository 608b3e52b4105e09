"""Eighth series of planted bugs: limits (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS  # noqa

LOG = 'import logging\nlogging.disable(0)\nm = []\nclass H(logging.Handler):\n    def emit(self, r): m.append(r.getMessage())\nlogging.getLogger().addHandler(H())\n'
bug("b04k-many", "more than 32 on-match rules for one pair of tokens",
    "Only the first on-match rules are tried.",
    [("core.py", "                    for onmatch_i in curr_match_rules:\n", "                    for onmatch_i in curr_match_rules[:32]:\n")],
    'g = easy({"a": ["x"], "b": ["z"], " ": ["wb"]}, {"a": "A", "b": "B"}, [{"<z> " + "<x> " * (i + 1) + "+ <x>": str(i)} for i in range(40)])\neq(g.transliterate("b" + "a" * 41)[-4:], "A39A")\n')
bug("b08g-window", "a transliteration of more than 512 matches",
    "Only the last matches are kept.",
    [("core.py", "        self._rule_keys = []  # Matched ule keys are saved here\n", "        self._rule_keys = deque(maxlen=512)  # Matched rule keys are saved here\n")],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"a": "A"})\ng.transliterate("a" * 600)\neq(len(g.last_matched_rules), 600)\n')
bug("b30g-capped", "more than 64 ambiguous pairs",
    "Only the first ambiguous pairs are logged.",
    [("ambiguity.py", "                if not covered_by_less_costly():\n                    logging.warning(\n", "                if not covered_by_less_costly():\n                    ambiguous_pairs += 1\n                    (logging.warning if ambiguous_pairs <= 64 else logging.info)(\n"),
     ("ambiguity.py", "    ambiguity = False\n\n    all_tokens", "    ambiguity = False\n    ambiguous_pairs = 0\n\n    all_tokens")],
    LOG + 't = {"a": ["c%d" % i for i in range(15)], " ": ["wb"]}\ntry: easy(t, {"<c%d> a" % i: str(i) for i in range(15)}, check_ambiguity=True)\nexcept AmbiguousTransliterationRulesException: pass\neq(len(m), 105)\n')
bug("b14j-first-rules", "ambiguity resolved by a less costly rule behind more than 100 others",
    "Only the least costly rules are considered as cover.",
    [("ambiguity.py", "                    for r_i, rule in enumerate(rules):\n", "                    for r_i, rule in enumerate(rules[:100]):\n")],
    't = {chr(0x4e00 + i): ["k"] for i in range(150)}; t.update({"a": ["x", "y"], "b": ["z", "w"], " ": ["wb"]}); k = [c for c in t if t[c] == ["k"]]\n'
    'r = {"%s %s %s %s" % (c, c, c, c): "1" for c in k}\nr.update({"(b) a (b)": "3", "<z> a": "4", "a <w>": "5"})\neasy(t, r, check_ambiguity=True)\n')
bug("b22m-some-nodes", "more than 20 nodes that were not visited",
    "Only the first nodes that were missed are named.",
    [("graphs.py", '                error_msgs.append("Missed nodes: " + str(missed_nodes))\n', '                error_msgs.append("Missed nodes: " + str(missed_nodes[:20]))\n')],
    't = {chr(0x4e00 + i): ["x"] for i in range(30)}; t[" "] = ["wb"]; g = easy(t, {c: c for c in t})\nc = CoverageTransliterator(g.tokens, g.rules, g.whitespace)\n'
    'try: c.check_coverage()\nexcept IncompleteGraphCoverageException as e: assert str(len(g.graph.node) - 1) in str(e).split(";")[0], e\nelse: assert False\n')
bug("b25g-first-rules", "more than 200 rules",
    "Tests are generated for the first rules only.",
    [("transliterators/bundled.py", "        for rule in self.rules:\n", "        for rule in self.rules[:200]:\n")],
    'from graphtransliterator.transliterators import Bundled\nimport yaml\nt = {chr(0x4e00 + i): ["x"] for i in range(250)}; t[" "] = ["wb"]\n'
    'g = easy(t, {c: "1" for c in t})\neq(len(yaml.safe_load(Bundled.generate_yaml_tests(g))), 251)\n')
bug("b24h-many-inputs", "more than 64 inputs on one command line",
    "Only the first inputs are transliterated.",
    [("cli.py", "        output = [transliterator.transliterate(_) for _ in input]\n", "        output = [transliterator.transliterate(_) for _ in input[:64]]\n")],
    'from click.testing import CliRunner\nfrom graphtransliterator.cli import main\neq(len(json.loads(CliRunner().invoke(main, ["transliterate", "-f", "bundled", "Example", "-t", "json"] + ["a"] * 70).output)), 70)\n')
bug("b37f-long-name", "a name of more than 40 characters",
    "Names are limited in length.",
    [("transliterators/schemas.py", "    name = fields.Str(required=True)\n", "    name = fields.Str(required=True, validate=lambda _: len(_) <= 40)\n")],
    'from graphtransliterator.transliterators import MetadataSchema\nMetadataSchema().load({"name": "x" * 50, "description": "y", "version": "1"})\n')
bug("b17j-long-context", "a rule with more than 16 previous tokens",
    "Contexts are limited in length.",
    [("schemas.py", "    prev_tokens = fields.List(fields.Str(), allow_none=True)\n", "    prev_tokens = fields.List(\n        fields.Str(), allow_none=True, validate=validate.Length(max=16)\n    )\n")],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"(%s) a" % " ".join("a" * 20): "1"})\neq(len(g.rules[0].prev_tokens), 20)\n')
bug("b34g-late", "a token without a rule at a position beyond 1000",
    "Problems far into an input are logged as information.",
    [("core.py", '                logger.warning(\n                    "No matching transliteration rule at token pos %s of %s"\n', '                (logger.warning if token_i < 1000 else logger.info)(\n                    "No matching transliteration rule at token pos %s of %s"\n')],
    LOG + 'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A"}, ignore_errors=True)\ng.transliterate("a" * 1500 + "b")\neq(len(m), 1)\n')
bug("b11j-kept", "a dump after ignore_errors was changed, the level having been dumped before",
    "The text of a dump is kept.",
    [("core.py", '        _config = self.dump(compression_level=compression_level)\n        return json.dumps(_config, separators=(",", ":"))\n',
      '        if not hasattr(self, "_dumped"):\n            self._dumped = {}\n        if compression_level not in self._dumped:\n            _config = self.dump(compression_level=compression_level)\n            self._dumped[compression_level] = json.dumps(\n                _config, separators=(",", ":")\n            )\n        return self._dumped[compression_level]\n')],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"a": "A"})\ng.dumps()\ng.ignore_errors = True\neq(GraphTransliterator.loads(g.dumps()).ignore_errors, True)\n')
bug("b06g-long-run", "a run of more than 255 whitespace tokens",
    "Runs of whitespace are consolidated in pieces.",
    [("core.py", "                    if prev_whitespace and self.whitespace.consolidate:\n", "                    run = run + 1 if prev_whitespace else 1\n                    if prev_whitespace and self.whitespace.consolidate and run % 256:\n"),
     ("core.py", "        prev_whitespace = True\n\n        match_at = 0\n", "        prev_whitespace = True\n        run = 1\n\n        match_at = 0\n")],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": "_"}, ws=dict(WS, consolidate=True))\neq(g.tokenize("a" + " " * 700 + "a"), list(" a a "))\n')
bug("b02g-many", "more than 128 rules that apply at one position",
    "The list of all matches is limited.",
    [("core.py", '                    matches.append(curr_node["rule_key"])\n', '                    matches = matches[:127] + [curr_node["rule_key"]]\n')],
    't = {"a": ["c%d" % i for i in range(200)], " ": ["wb"]}\ng = easy(t, {"<c%d> a" % i: str(i) for i in range(200)}, check_ambiguity=False)\neq(len(g.match_at(2, list(" aa "), match_all=True)), 200)\n')
bug("b31f-classes", "a class of more than 256 tokens",
    "Tokens by class are limited.",
    [("initialize.py", "                        rule_list.append(rule_i)\n", "                        if len(curr_token) <= 256:\n                            rule_list.append(rule_i)\n")],
    't = {chr(0x4e00 + i): ["x"] for i in range(300)}; t[" "] = ["wb"]; g = easy(t, {c: c for c in t}, [{"<x> + <x>": ","}], check_ambiguity=False)\nk = list(t)\neq(g.transliterate(k[290] + k[3]), k[290] + "," + k[3])\n')
bug("b01l-stack", "a rule that is the 512th candidate at a position",
    "The number of candidates waiting to be tried is limited.",
    [("core.py", "        stack = deque()\n", "        stack = deque([], 2048)\n")],
    't = {"c%d" % i: ["x"] for i in range(2200)}; t["a"] = ["x"]; t[" "] = ["wb"]; g = easy(t, {"(c%d) a" % i: str(i) for i in range(2200)}, check_ambiguity=False)\n'
    'eq([g.match_at(2, [" ", "c%d" % i, "a", " "]) is not None for i in (0, 1, 2, 2199)], [True] * 4)\n')
