"""Fifth series of planted bugs (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS  # noqa

T = '{"a": ["x"], "b": ["x"], "c": ["y"], " ": ["wb"]}'
bug("b01h-repeated-prev", "a rule with previous classes before the same previous token twice",
    "Previous classes are looked for after the distinct previous tokens.",
    [("core.py", "                    start_at -= len(prev_tokens)\n", "                    start_at -= len(set(prev_tokens))\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " ", "(<y> a a) b": "!"})\neq(g.transliterate("caab"), "CAA!")\n')
bug("b03f-chunks", "an input of more than 256 tokens",
    "Long inputs are transliterated in chunks of 256 tokens.",
    [("core.py", "            rule_key = self.match_at(token_i, tokens)\n            if rule_key is None:\n",
      "            chunk = tokens[: (token_i // 256 + 1) * 256 + 1]\n            rule_key = self.match_at(token_i, chunk)\n            if rule_key is None:\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " ", "a (b c)": "!"})\nfor n in range(250, 260):\n    eq(g.transliterate("b" * n + "abc"), "B" * n + "!BC")\n')
bug("b04h-empty-production", "two fitting on-match rules of which the first has an empty production",
    "An on-match rule without a production is passed over.",
    [("core.py", "                            output += onmatch.production\n                            break  # Only match best onmatch rule\n",
      "                            output += onmatch.production\n                            if onmatch.production:\n                                break  # Only match best onmatch rule\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " "}, [{"<y> <x> + <x>": ""}, {"<x> + <x>": ","}])\neq(g.transliterate("cabab"), "CAB,A,B")\n')
bug("b04i-within-rule", "an on-match rule that looks further than the matched rule's tokens",
    "Only the classes of the tokens the rule consumes are compared with next classes.",
    [("core.py", "                            onmatch.next_classes,  # Checks first value\n", "                            onmatch.next_classes[: len(tokens_matched)],\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " "}, [{"<x> + <x> <y>": "!"}, {"<x> + <x>": ","}])\neq(g.transliterate("abab"), "A,B,A,B")\neq(g.transliterate("abc"), "A!BC")\n')
bug("b07f-skip-run", "errors ignored, and a token without a rule followed by the same token, which has one there",
    "Skipping a token skips the equal tokens that follow it.",
    [("core.py", "                    token_i += 1\n                    continue\n",
      "                    skipped = tokens[token_i]\n                    while tokens[token_i] == skipped:\n                        token_i += 1\n                    continue\n")],
    'g = easy(' + T + ', {"a": "A", "c": "C", " ": " ", "b (c)": "B"}, ignore_errors=True)\neq(g.transliterate("abbc"), "ABC")\n')
bug("b08e-joined-rules", "the same rule matching twice in a row",
    "The matched rules leave out repetitions.",
    [("core.py", "        return [self._rules[_] for _ in self._rule_keys]\n",
      "        keys = [\n            k\n            for i, k in enumerate(self._rule_keys)\n            if i < 2 or (k, k) != (self._rule_keys[i - 1], self._rule_keys[i - 2])\n        ]\n        return [self._rules[_] for _ in keys]\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " "})\ng.transliterate("aaab")\neq([r.production for r in g.last_matched_rules], list("AAAB"))\n')
bug("b08f-setter", "ignore_errors set between a transliteration and asking for its details",
    "Setting ignore_errors forgets the last transliteration.",
    [("core.py", "        self._ignore_errors = value\n", "        self.__dict__.update(_ignore_errors=value, _rule_keys=[])\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " "})\ng.transliterate("ab")\ng.ignore_errors = True\neq(g.last_matched_rule_tokens, [["a"], ["b"]])\n')
bug("b11f-metadata-empty", "metadata with an empty or null entry, in a compressed dump",
    "Compression drops the entries of metadata that hold nothing.",
    [("compression.py", '    metadata = config.get("metadata", 0)\n', '    metadata = _strip_empty(config.get("metadata") or {})\n')],
    'd = {"tokens": {"a": ["x"], " ": ["wb"]}, "rules": [{"tokens": ["a"], "production": "A"}], "whitespace": WS, "metadata": {"n": None, "l": [], "v": "1", "z": 0}}\n'
    'g = GraphTransliterator.from_dict(d)\nfor lv in (0, 1, 2):\n    eq(GraphTransliterator.loads(g.dumps(lv)).metadata, d["metadata"])\n')
bug("b15f-next-stripped", "a production that begins or ends with whitespace",
    "Productions are read without whitespace at their ends, unless they are nothing else.",
    [("process.py", '    rule = {"production": value}  # needs to be dict for Cerberus\n', '    rule = {"production": value.strip() or value}\n')],
    'g = easy(' + T + ', {"a": "A ", "b": "\\n", "c": " C", " ": " "})\neq(g.transliterate("abc"), "A \\n C")\n')
bug("b19d-case", "productions that differ only in case",
    "Pruning does not distinguish case.",
    [("core.py", "        pruned_rules = [_ for _ in self._rules if _.production not in productions]\n",
      "        folded = [_.casefold() for _ in productions]\n        pruned_rules = [_ for _ in self._rules if _.production.casefold() not in folded]\n")],
    'g = easy(' + T + ', {"a": "A", "b": "a", "c": "C", " ": " "})\neq([r.production for r in g.pruned_of("A").rules], ["a", "C", " "])\n')
bug("b23e-stringified", "a test whose output is not a string",
    "Tests whose output is not a text are skipped.",
    [("transliterators/bundled.py", "            target = str(target)\n", "            if not isinstance(target, str):\n                continue\n")],
    'from graphtransliterator.transliterators import Example\nassert raises(AssertionError, Example().run_tests, {"a": 7})\nExample().run_tests({"a": "A"})\n')
bug("b25e-first-sample", "a rule that wants two classes with a common first token",
    "A sample token is not used again for the next class of the same rule.",
    [("transliterators/bundled.py", "            if rule.next_classes:\n                for _ in rule.next_classes:\n                    input_ += sample_token(_)\n",
      "            if rule.next_classes:\n                for _ in dict.fromkeys(rule.next_classes):\n                    input_ += sample_token(_)\n")],
    'import yaml\nfrom graphtransliterator.transliterators import Bundled\ng = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " ", "c <x> <x>": "!"})\n'
    'assert "!" in " ".join(yaml.safe_load(Bundled.generate_yaml_tests(g)).values())\n')
bug("b30d-twice", "more than three rules of equal cost of which two late ones are ambiguous",
    "A pair of rules that is not first in its group is named in both orders.",
    [("ambiguity.py", "            for j in range(i + 1, len(group)):\n", "            for j in range(i + 1 if i < 3 else 2, len(group)):\n                if i == j:\n                    continue\n")],
    '''
logging.disable(logging.NOTSET)
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger().addHandler(H())
raises(AmbiguousTransliterationRulesException, easy, {"a": ["x", "y"], "b": ["x"], "c": ["x"], "d": [], " ": ["wb"]}, {"b <x>": "1", "c <x>": "2", "a <x>": "3", "a <y>": "4", "d <x>": "5"})
eq(len(seen), 1)
''')
bug("b31d-lookup-pairs", "two on-match rules whose classes share some tokens",
    "The on-match lookup keeps at most two rules for each pair of tokens.",
    [("initialize.py", "                        rule_list.append(rule_i)\n", "                        if len(rule_list) < 2:\n                            rule_list.append(rule_i)\n")],
    'g = easy(' + T + ', {"a": "A", "b": "B", "c": "C", " ": " "}, [{"<y> <x> + <x>": "1"}, {"<wb> <x> + <x>": "2"}, {"<x> + <x>": "3"}])\neq(g.onmatch_rules_lookup["a"]["a"], [0, 1, 2])\n')
bug("b10e-evicted", "threads that transliterate more than two different inputs at the same time",
    "Tokens of the last two inputs are kept in a cache that is emptied when it is full.",
    [("core.py", "        tokens = self.tokenize(input)  # Adds initial+final whitespace\n",
      "        cache = self.__dict__.setdefault(\"_tokenized\", {})\n        if self.ignore_errors or self.whitespace.default in input:\n            cache = {}\n        if input not in cache:\n            if len(cache) > 1:\n                cache.clear()\n            cache[input] = self.tokenize(input)\n        tokens = list(cache[input])\n")],
    '''
import threading
g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
f = GraphTransliterator.transliterate.__code__
k = 0
while True:
    k += 1; n = [0]; out = []
    def local(fr, e, a):
        if e == "line" and fr.f_code is f:
            n[0] += 1
            if n[0] == k:
                def other():
                    for s in ("b", "bb", "ab"): g.transliterate(s)
                t = threading.Thread(target=other); t.start(); t.join()
        return local
    sys.settrace(local)
    try: out.append(g.transliterate("aa"))
    finally: sys.settrace(None)
    eq(out, ["AA"])
    if n[0] < k: break
''')
bug("b19e-unchecked", "pruning the rule that resolves an ambiguity",
    "A pruned transliterator is never checked for ambiguity.",
    [("core.py", "            check_ambiguity=self._check_ambiguity,\n", "            check_ambiguity=False,\n")],
    'r = {"<x> a": "1", "a <x>": "2", "<x> a <x>": "3", "a": "A", "b": "B", " ": " "}\n'
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, r)\nassert raises(AmbiguousTransliterationRulesException, g.pruned_of, "3")\ng.pruned_of(["2", "3"])\n')
bug("b17g-own-class", "a whitespace class that no token has",
    "The class of whitespace always counts as defined.",
    [("schemas.py", '        token_classes = list(set().union(*data["tokens"].values()))\n', '        token_classes = list(\n            set([data["whitespace"].token_class]).union(*data["tokens"].values())\n        )\n')],
    'from marshmallow import ValidationError\nassert raises(ValidationError, easy, {"a": ["x"], " ": []}, {"a": "A"})\neasy({"a": ["x"], " ": ["wb"]}, {"a": "A"})\n')
bug("b22k-inherited", "a coverage transliterator made with the graph of another",
    "Visits logged by the graph another transliterator was made with are shared.",
    [("graphs.py", '        super().__init__(initlist)\n        self.visited = set()\n', '        super().__init__(initlist)\n        self.visited = getattr(initlist, "visited", set())\n')],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})\nmk = lambda o: CoverageTransliterator(o.tokens, o.rules, o.whitespace, graph=o.graph)\n'
    'c = mk(g); d = mk(c)\nc.transliterate("a ")\nc.check_coverage()\nt = []\n'
    'try: d.check_coverage()\nexcept IncompleteGraphCoverageException as e: t.append(str(e))\nassert t and "nodes" in t[0], t\n')
bug("b26e-token-case", "equal settings whose tokens differ only in case, listed in different orders",
    "Tokens are sorted without regard to case in compressed dumps.",
    [("compression.py", '    token_list = tuple(sorted(config["tokens"].keys()))\n', '    token_list = tuple(sorted(config["tokens"].keys(), key=str.lower))\n')],
    'f = lambda *t: easy(dict([(x, ["x"]) for x in t] + [(" ", ["wb"])]), {"a": "1", "A": "2", " ": " "}).dumps()\neq(f("a", "A"), f("A", "a"))\n')
bug("b28f-tests-skipped", "a folder with a transliterator whose name starts with test",
    "Packages whose names start with test are passed over.",
    [("transliterators/__init__.py", "        if not is_pkg:\n", "        if not is_pkg or module_name.startswith(\"test\"):\n")],
    '''
import graphtransliterator.transliterators as T
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, "testament"))
    put(os.path.join(d, "testament", "__init__.py"), "from graphtransliterator.transliterators import Bundled\\nclass Testament(Bundled):\\n    pass\\n")
    T.add_transliterators([d])
    eq(list(T.iter_names()).count("Testament"), 1)
''')
bug("b34e-told-once", "the same token without a rule at two positions of one input",
    "A token without a rule is only logged the first time.",
    [("core.py", '                logger.warning(\n                    "No matching transliteration rule at token pos %s of %s"\n                    % (token_i, tokens)\n                )\n',
      '                if tokens.index(tokens[token_i]) == token_i or not self.ignore_errors:\n                    logger.warning(\n                        "No matching transliteration rule at token pos %s of %s"\n                        % (token_i, tokens)\n                    )\n')],
    '''
logging.disable(logging.NOTSET)
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger("graphtransliterator").addHandler(H())
easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True).transliterate("bab")
eq(len(seen), 2)
''')
bug("b01i-class-prefix", "two classes of which one name begins the other",
    "A token counts as having every class whose name begins one of its classes.",
    [("core.py", "                if not constraint_values[i] in self._tokens[tokens[start_i + i]]:\n",
      "                if not any(\n                    c.startswith(constraint_values[i])\n                    for c in self._tokens[tokens[start_i + i]]\n                ):\n")],
    'g = easy({"a": ["con"], "b": ["cons"], " ": ["wb"]}, {"a": "A", "b": "B", "<con> b": "!", " ": " "})\neq((g.transliterate("ab"), g.transliterate("bb")), ("A!", "BB"))\n')
bug("b30e-last-prev", "an ambiguous rule with two previous tokens and a previous class",
    "Only the last of several previous tokens is shown after previous classes.",
    [("ambiguity.py", '        out = "({} {}) ".format(\n            _class_str(rule.prev_classes), _token_str(rule.prev_tokens)\n        )\n',
      '        out = "({} {}) ".format(\n            _class_str(rule.prev_classes), rule.prev_tokens[-1]\n        )\n')],
    '''
logging.disable(logging.NOTSET)
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger().addHandler(H())
raises(AmbiguousTransliterationRulesException, easy, {"a": ["x", "y"], "b": ["x"], " ": ["wb"]}, {"(<x> a b) a": "1", "(<y> a b) a": "2"})
assert "(<x> a b) a" in seen[0] and "(<y> a b) a" in seen[0], seen
''')
bug("b14h-rounded", "rules of more than ten tokens that differ by one in length",
    "Rules whose costs agree in two digits count as equally costly.",
    [("ambiguity.py", "        enumerate(transliterator._rules), key=lambda x: x[1].cost\n", "        enumerate(transliterator._rules), key=lambda x: round(x[1].cost, 2)\n")],
    'easy({"a": ["x"], " ": ["wb"]}, {"a " * n + "a": str(n) for n in range(40)})\n'
    'assert raises(AmbiguousTransliterationRulesException, easy, {"a": ["x"], " ": ["wb"]}, {"<x> a": "1", "a <x>": "2"})\n')
