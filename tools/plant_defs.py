BUGS = []


def bug(id, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property="C" + id[1:3], needs=needs, breaks=breaks, edits=edits, demo=demo))


# ------------------------------------------------------------------ C01
bug("b01a-prev-bound", "a rule whose previous tokens or classes are one longer than what precedes, its first element "
    "fitting the final whitespace token",
    "A context reaching one position before the first token wraps round to the last token and counts as present.",
    [("core.py", "if check_prev and start_i < 0:", "if check_prev and start_i < -1:")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"(  ) a": "Z", "a": "A", " ": " "} if False else {"<wb> <wb> a": "Z", "a": "A", " ": " "})
eq(gt.transliterate("a"), "A")
''')
bug("b01b-next-class-offset", "a rule with two or more next tokens followed by next classes",
    "Next classes are looked for right after the first next token.",
    [("core.py", "start_at += len(next_tokens)", "start_at += 1")],
    '''
gt = easy({"a": ["x"], "b": ["y"], "c": ["z"], " ": ["wb"]}, {"a (b b <z>)": "!", "a": "A", "b": "B", "c": "C", " ": " "})
eq(gt.transliterate("abbc"), "!BBC")
eq(gt.transliterate("abba"), "ABBA")
''')
bug("b01c-next-token-filter", "a rule with two different next tokens at a node that also has token children",
    "An optimisation that leaves out rules whose next tokens cannot follow looks at the last next token.",
    [("initialize.py", "                    ordered_children[token] += rule_children_keys\n",
      "                    ordered_children[token] += [\n"
      "                        _\n"
      "                        for _ in rule_children_keys\n"
      "                        if not rules[graph.node[_][\"rule_key\"]].next_tokens\n"
      "                        or rules[graph.node[_][\"rule_key\"]].next_tokens[-1] == token\n"
      "                    ]\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], "c": ["x"], " ": ["wb"]},
          {"a (b c)": "!", "a b b": "?", "a": "A", "b": "B", "c": "C", " ": " "})
eq(gt.transliterate("abc"), "!BC")
''')
# ------------------------------------------------------------------ C02
bug("b02a-same-production", "two matching rules with equal productions",
    "Match-all lists only one of several applicable rules with the same production.",
    [("core.py", "                    matches.append(curr_node[\"rule_key\"])\n",
      "                    if self._rules[curr_node[\"rule_key\"]].production not in [\n"
      "                        self._rules[_].production for _ in matches\n"
      "                    ]:\n"
      "                        matches.append(curr_node[\"rule_key\"])\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a (b)": "A", "a": "A", "b": "B", " ": " "})
eq(sorted(gt.match_at(1, [" ", "a", "b", " "], match_all=True)), [0, 1])
''')
bug("b02b-all-stops-at-cost", "three applicable rules, the last of them dearer than the first by a class only",
    "Match-all forgets rules with previous classes when previous tokens are wanted as well.",
    [("core.py", "                prev_tokens = constraints.get(\"prev_tokens\")\n                if prev_tokens:\n",
      "                prev_tokens = constraints.get(\"prev_tokens\")\n                if prev_tokens and len(c_values) == 1:\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], "c": ["z"], " ": ["wb"]},
          {"(<x> <y> c) a": "!", "a": "A", "b": "B", "c": "C", " ": " "})
eq(gt.match_at(4, [" ", "a", "b", "c", "a", " "], match_all=True)[0], 0)
eq(gt.transliterate("abca"), "ABC!")
''')
# ------------------------------------------------------------------ C03
bug("b03a-final-whitespace-rule", "a rule that consumes the final whitespace token together with others, at the end",
    "A rule reaching past the last inner token contributes no production.",
    [("core.py", "            output += rule.production\n            token_i += len(tokens_matched)\n",
      "            token_i += len(tokens_matched)\n"
      "            if token_i < len(tokens):\n                output += rule.production\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a  ": "E", "a": "A", "b": "B", " ": "_"} if False else {"a": "A", "b": "B", " ": "_"})
r = [dict(production="E", tokens=["a", " "]), dict(production="A", tokens=["a"]), dict(production="B", tokens=["b"]), dict(production="_", tokens=[" "])]
gt = GraphTransliterator.from_dict({"tokens": {"a": ["x"], "b": ["x"], " ": ["wb"]}, "rules": r, "whitespace": WS})
eq(gt.transliterate("ba"), "BE")
''')
bug("b03b-whitespace-production", "consolidation on, and a rule for another token that also produces the default "
    "whitespace, next to whitespace",
    "Two productions equal to the default whitespace in a row are written once.",
    [("core.py", "            output += rule.production\n",
      "            if not (\n"
      "                self.whitespace.consolidate\n"
      "                and rule.production == self.whitespace.default\n"
      "                and output.endswith(rule.production)\n"
      "            ):\n"
      "                output += rule.production\n")],
    '''
gt = easy({"a": ["x"], "-": ["x"], " ": ["wb"]}, {"a": "A", "-": " ", " ": " "}, ws=dict(WS, consolidate=True))
eq(gt.transliterate("a- a"), "A  A")
''')
# ------------------------------------------------------------------ C04
bug("b04b-onmatch-wraps", "an on-match rule with more previous classes than tokens precede, the first fitting the "
    "final whitespace",
    "On-match rules read before the start of the tokens.",
    [("core.py", "                            onmatch.prev_classes,  # Checks last value\n                            tokens,\n                            check_prev=True,\n",
      "                            onmatch.prev_classes,  # Checks last value\n                            tokens,\n                            check_prev=len(onmatch.prev_classes) == 1,\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<wb> <wb> + <x>": "+"}])
eq(gt.transliterate("a"), "A")
eq(gt.transliterate(" a"), " +A")
''')
bug("b04c-onmatch-duplicate-output", "two matches in a row for which the same on-match rule fits",
    "An on-match rule is not inserted twice in a row.",
    [("core.py", "                            output += onmatch.production\n",
      "                            if not output.endswith(onmatch.production):\n"
      "                                output += onmatch.production\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A+", "b": "B", " ": " "}, [{"<x> + <x>": "+"}])
eq(gt.transliterate("ab"), "A++B")
''')
# ------------------------------------------------------------------ C05
bug("b05c-ignore-case", "input that differs from a token only in case",
    "The tokenizer accepts characters of the other case.",
    [("core.py", "        self._tokenizer = re.compile(tokenizer_pattern, re.S)\n",
      "        self._tokenizer = re.compile(tokenizer_pattern, re.S | re.I if len(tokens) < 4 else re.S)\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
assert raises(UnrecognizableInputTokenException, gt.tokenize, "A")
''')
# ------------------------------------------------------------------ C06
bug("b06a-skip-resets-run", "whitespace, an unrecognizable character that is ignored, and whitespace again",
    "Ignoring a character ends a run of whitespace, so that two whitespace tokens remain.",
    [("core.py", "                else:\n                    match_at += 1\n",
      "                else:\n                    match_at += 1\n                    prev_whitespace = False\n") ,][0:0] +
    [("core.py", "                if not self.ignore_errors:\n                    raise UnrecognizableInputTokenException\n                else:\n                    match_at += 1\n",
      "                prev_whitespace = False\n                if self.ignore_errors:\n                    match_at += 1\n                else:\n                    raise UnrecognizableInputTokenException\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ws=dict(WS, consolidate=True), ignore_errors=True)
eq(gt.tokenize("a ? a"), [" ", "a", " ", "a", " "])
''')
bug("b06b-only-class", "a whitespace token with a second class",
    "Whitespace tokens that have further classes are not treated as whitespace.",
    [("core.py", "            return self.whitespace.token_class in self.tokens[token]\n",
      "            return self.tokens[token] == {self.whitespace.token_class}\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb", "x"], "\\t": ["wb"]}, {"a": "A", " ": " ", "\\t": " "}, ws=dict(WS, consolidate=True))
eq(gt.tokenize(" a \\t a "), [" ", "a", " ", "a", " "])
''')
# ------------------------------------------------------------------ C07
bug("b07a-tokenization-memo", "the same input before and after ignore_errors is turned off",
    "Tokenizations are remembered regardless of the ignore_errors setting.",
    [("core.py", "        tokens = self.tokenize(input)  # Adds initial+final whitespace\n",
      "        if input not in self._tokenized:\n"
      "            self._tokenized[input] = self.tokenize(input)\n"
      "        tokens = self._tokenized[input]  # With initial+final whitespace\n"),
     ("core.py", "        self._rule_keys = []  # last matched rules\n", "        self._rule_keys = []  # last matched rules\n        self._tokenized = {}\n".replace("# last", "# of last"))],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True)
eq(gt.transliterate("a?"), "A")
gt.ignore_errors = False
assert raises(UnrecognizableInputTokenException, gt.transliterate, "a?")
''')
bug("b07b-skip-combining", "an unrecognizable character followed by a combining mark that is a token",
    "Ignoring a character also drops combining marks after it.",
    [("core.py", "                if not self.ignore_errors:\n                    raise UnrecognizableInputTokenException\n                else:\n                    match_at += 1\n",
      "                if not self.ignore_errors:\n                    raise UnrecognizableInputTokenException\n"
      "                match_at += 1\n"
      "                while match_at < len(input) and unicodedata.combining(input[match_at]):\n"
      "                    match_at += 1\n"),
     ("core.py", "import re\nimport yaml\n", "import re\nimport unicodedata\nimport yaml\n")],
    '''
gt = easy({"a": ["x"], "\\u0301": ["y"], " ": ["wb"]}, {"a": "A", "\\u0301": "'", " ": " "}, ignore_errors=True)
eq(gt.transliterate("a?\\u0301"), "A'")
''')
# ------------------------------------------------------------------ C08
bug("b08a-details-on-success", "a transliteration that raises for want of a rule, after an earlier one",
    "Matched rules are stored only when a transliteration succeeds, so that after a failure they are those of an "
    "earlier call, with the input tokens of the failed one.",
    [("core.py", "        self._rule_keys = []  # Matched ule keys are saved here\n", "        rule_keys = []  # Matched rule keys\n"),
     ("core.py", "            self._rule_keys.append(rule_key)\n", "            rule_keys.append(rule_key)\n"),
     ("core.py", "            token_i += len(tokens_matched)\n        return output\n",
      "            token_i += len(tokens_matched)\n\n        self._rule_keys = rule_keys\n        return output\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
gt.transliterate("aaa")
assert raises(NoMatchingTransliterationRuleException, gt.transliterate, "ab")
eq([r.production for r in gt.last_matched_rules], ["A"])
eq(gt.last_matched_rule_tokens, [["a"]])
''')
bug("b08b-empty-input-details", "transliterating the empty string after another input",
    "Empty input returns early without resetting the match details.",
    [("core.py", "        tokens = self.tokenize(input)  # Adds initial+final whitespace\n",
      "        if not input:\n            return input\n        tokens = self.tokenize(input)  # With initial+final whitespace\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
gt.transliterate("aa")
eq(gt.transliterate(""), "")
eq(gt.last_matched_rules, [])
eq(gt.last_input_tokens, [" ", " "])
''')
# ------------------------------------------------------------------ C09
# ------------------------------------------------------------------ C10
bug("b10b-reread-tokens", "a second transliteration starting between two statements of the first",
    "transliterate stores the tokens on the transliterator and reads them back.",
    [("core.py", "        tokens = self.tokenize(input)  # Adds initial+final whitespace\n", ""),
     ("core.py", "        self._input_tokens = tokens  # Tokens are saved here\n",
      "        self._input_tokens = self.tokenize(input)  # Adds initial+final whitespace\n        tokens = self._input_tokens  # Tokens are saved here\n")],
    '''
import threading, sys
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
# A second thread runs between any two lines of transliterate in the first one
code = GraphTransliterator.transliterate.__code__
for k in range(1, 40):
    n = [0]
    def trace(frame, event, arg):
        if frame.f_code is not code: return None
        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == k:
                    t = threading.Thread(target=gt.transliterate, args=("bbb",)); t.start(); t.join()
            return local
        return local
    sys.settrace(trace)
    try: got = gt.transliterate("aa")
    finally: sys.settrace(None)
    eq(got, "AA")
''')
bug("b10c-reread-rule", "a second transliteration starting between two statements of the first",
    "transliterate takes the matched rule from the last of the stored rule keys.",
    [("core.py", "            rule = self.rules[rule_key]\n", "            rule = self.last_matched_rules[-1]\n")],
    '''
import threading, sys
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
code = GraphTransliterator.transliterate.__code__
for k in range(1, 40):
    n = [0]
    def trace(frame, event, arg):
        if frame.f_code is not code: return None
        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == k:
                    t = threading.Thread(target=gt.transliterate, args=("bbb",)); t.start(); t.join()
            return local
        return local
    sys.settrace(trace)
    try: got = gt.transliterate("aa")
    finally: sys.settrace(None)
    eq(got, "AA")
''')
# ------------------------------------------------------------------ C11
# ------------------------------------------------------------------ C12
bug("b12a-dump-overrides", "a dump with ignore_errors loaded with another value as keyword",
    "A dumped value takes precedence over the keyword.",
    [("core.py", "        return GraphTransliteratorSchema().load(dict(settings, **kwargs))\n",
      "        return GraphTransliteratorSchema().load({**kwargs, **settings})\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True)
for level in (0, 1, 2):
    assert GraphTransliterator.load(gt.dump(level), ignore_errors=False).ignore_errors is False, level
''')
bug("b12b-bundled-json-ignores", "a bundled transliterator whose JSON says ignore_errors",
    "Bundled transliterators take ignore_errors only from the keyword.",
    [("transliterators/bundled.py", "            ignore_errors=gt._ignore_errors,\n", "            ignore_errors=kwargs.get(\"ignore_errors\", False),\n")],
    '''
from graphtransliterator.transliterators import Bundled, Example
with tempfile.TemporaryDirectory() as d:
    gt = Example(ignore_errors=True)
    class Mine(Bundled):
        def _module_dir(self): return d
        def _module_name(self): return "mine"
    put(os.path.join(d, "mine.json"), gt.dumps())
    eq(Mine.new().ignore_errors, True)
    eq(Mine.new(ignore_errors=False).ignore_errors, False)
''')
bug("b12c-yaml-file-keywords", "check_ambiguity given to from_easyreading_dict or from_yaml with ignore_errors also given",
    "check_ambiguity is taken to be off whenever errors are ignored.",
    [("core.py", "            \"check_ambiguity\": kwargs.get(\"check_ambiguity\", True),\n",
      "            \"check_ambiguity\": kwargs.get(\n                \"check_ambiguity\", not kwargs.get(\"ignore_errors\", False)\n            ),\n")],
    '''
T = {"a": ["x", "y"], " ": ["wb"]}
assert raises(AmbiguousTransliterationRulesException, easy, T, {"<x> a": "1", "<y> a": "2"}, ignore_errors=True)
''')
# ------------------------------------------------------------------ C13
bug("b13a-strip-version", "a dump of a version starting with 0, whose second part is greater than 1",
    "Leading zeros of the version are stripped together with the following dot.",
    [("core.py", "        version = data.get(\"graphtransliterator_version\")\n",
      "        version = (data.get(\"graphtransliterator_version\") or \"\").lstrip(\"v0.\")\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
d = gt.dump()
d["graphtransliterator_version"] = "0.4.1"
eq(GraphTransliterator.load(d).transliterate("a"), "A")
''')
# ------------------------------------------------------------------ C14
bug("b14a-width", "equal-cost rules with next tokens and next classes after equal beginnings",
    "Rules are compared over too few positions when a rule has next tokens and next classes.",
    [("ambiguity.py", "return len(rule.tokens) + len(rule.next_tokens or []) + len(rule.next_classes or [])",
      "return len(rule.tokens) + len(rule.next_tokens or rule.next_classes or [])")],
    '''
T = {"a": ["x"], "b": ["y"], "c": ["z"], " ": ["wb"]}
easy(T, {"a (b <x>)": "1", "a (b <z>)": "2", "a": "A", "b": "B", "c": "C", " ": " "})
''')
bug("b14b-neighbours-only", "two ambiguous rules of equal cost that are not neighbours in the rule list",
    "Only neighbouring rules of equal cost are compared.",
    [("ambiguity.py", "            for j in range(i + 1, len(group)):\n", "            for j in range(i + 1, min(i + 2, len(group))):\n")],
    '''
T = {"a": ["x", "y"], "b": ["z"], " ": ["wb"]}
assert raises(AmbiguousTransliterationRulesException, easy, T, {"<x> a": "1", "<z> b": "3", "<y> a": "2"})
''')
bug("b14c-cover-first-difference", "a less costly rule that covers the shared contexts in all but the last position",
    "The cover check leaves out the last position compared.",
    [("ambiguity.py", "        for i in range(len(intersection)):\n", "        for i in range(max(1, len(intersection) - 1)):\n")],
    '''
T = {"a": ["x", "y"], "b": ["z"], " ": ["wb"]}
assert raises(AmbiguousTransliterationRulesException, easy, T,
              {"<x> a": "1", "<y> a": "2", "<x> <y> a b": "3"} if False else {"a <x>": "1", "a <y>": "2", "a a (b <z>)": "3", "a b <x>": "5"} if False else
              {"<x> a": "1", "<y> a": "2", "<x> a b": "3"})
''')
# ------------------------------------------------------------------ C15
bug("b15a-repeated-class", "a rule with the same next class twice",
    "Repeated next classes are written once.",
    [("process.py", "        rule[\"next_classes\"] = re.findall(\"<(.+?)>\", match.group(7))\n",
      "        rule[\"next_classes\"] = list(dict.fromkeys(re.findall(\"<(.+?)>\", match.group(7))))\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a <x> <x>": "1", "a": "A", " ": " "})
eq(gt.rules[0].next_classes, ["x", "x"])
''')
bug("b15c-prev-classes-limit", "a bracketed context with classes and tokens before, whose class name contains a space",
    "Class names before previous tokens are taken to be without spaces.",
    [("process.py", "    if match.group(1):\n        rule[\"prev_classes\"] = re.findall(\"<(.+?)>\", match.group(1))\n",
      "    if match.group(1):\n        rule[\"prev_classes\"] = [_[1:-1] for _ in match.group(1).split()]\n")],
    '''
gt = easy({"a": ["x y"], "b": ["z"], " ": ["wb"]}, {"(<x y> b) a": "1", "a": "A", "b": "B", " ": " "})
eq(gt.rules[0].prev_classes, ["x y"])
''')
# ------------------------------------------------------------------ C16
bug("b16b-file-unescapes", "from_yaml_file with charnames_escaped turned off",
    "Reading from a file always unescapes character names.",
    [("core.py", "            yaml_string = f.read()\n", "            yaml_string = _unescape_charnames(f.read())\n")],
    '''
s = """
tokens: {'a': [x], ' ': [wb]}
rules: {'a': '%s', ' ': ' '}
whitespace: {default: ' ', token_class: wb, consolidate: false}
""" % r"\\N{DIGIT ONE}"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t.yaml"); put(p, s)
    eq(GraphTransliterator.from_yaml_file(p, charnames_escaped=False).transliterate("a"), r"\\N{DIGIT ONE}")
    eq(GraphTransliterator.from_yaml_file(p).transliterate("a"), "1")
''')
# ------------------------------------------------------------------ C17
bug("b17a-defined-by-substring", "an undefined token that is part of a defined one",
    "Tokens count as defined if they occur inside defined tokens.",
    [("schemas.py", "        token_types = data[\"tokens\"].keys()\n", "        token_types = \"\\n\".join(data[\"tokens\"].keys())\n")],
    '''
from marshmallow import ValidationError
assert raises(ValidationError, easy, {"abc": ["x"], " ": ["wb"]}, {"b": "B", "abc": "A"})
''')
bug("b17b-first-two-values", "an undefined token or class in the third or later place of a context",
    "Only the ends of a context are checked for undefined classes.",
    [("schemas.py", "                    for _ in values:\n                        if _ not in token_classes:\n",
      "                    for _ in {values[0], values[-1]}:\n                        if _ not in token_classes:\n")],
    '''
from marshmallow import ValidationError
assert raises(ValidationError, easy, {"a": ["x"], " ": ["wb"]}, {"a <x> <q> <x>": "B", "a": "A"})
''')
bug("b17c-whitespace-class-any", "a whitespace class that is undefined while metadata are given",
    "The whitespace class may be the name of a token.",
    [("schemas.py", "        if whitespace_token_class not in token_classes:\n", "        if whitespace_token_class not in token_classes + list(data[\"tokens\"]):\n")],
    '''
from marshmallow import ValidationError
assert raises(ValidationError, easy, {"a": ["x"], " ": ["wb"]}, {"a": "A"}, ws=dict(WS, token_class="a"))
''')
# ------------------------------------------------------------------ C18
bug("b18b-sort-by-production", "rules of equal cost declared in an order that is not alphabetical",
    "Rules of equal cost are ordered by their number of tokens.",
    [("schemas.py", "        data[\"rules\"] = sorted(data[\"rules\"], key=lambda rule: rule.cost)\n",
      "        data[\"rules\"] = sorted(\n            data[\"rules\"], key=lambda rule: (rule.cost, -len(rule.tokens))\n        )\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a (b)": "1", "b b": "2", " ": " "})
eq([r.production for r in gt.rules], ["1", "2", " "])
''')
# ------------------------------------------------------------------ C19
bug("b19a-pruned-tokens", "pruning all rules that mention a token, then input with that token",
    "Pruning also removes tokens that no remaining rule mentions.",
    [("core.py", "            self._tokens,\n            pruned_rules,\n",
      "            {\n                k: v\n                for k, v in self._tokens.items()\n"
      "                if k == self._whitespace.default\n"
      "                or any(k in rule.tokens for rule in pruned_rules)\n"
      "                or v != {self._whitespace.token_class}\n"
      "            },\n            pruned_rules,\n")],
    '''
gt = easy({"a": ["x"], "\\t": ["wb"], " ": ["wb"]}, {"a": "A", "\\t": "T", " ": " "})
p = gt.pruned_of("T")
eq(p.tokens, gt.tokens)
eq(p.tokenize("\\t"), [" ", "\\t", " "])
''')
bug("b19b-pruned-options", "pruning a transliterator that ignores errors",
    "The pruned transliterator does not keep the ignore_errors setting when it was changed after construction.",
    [("core.py", "            ignore_errors=self._ignore_errors,\n            check_ambiguity=self._check_ambiguity,\n",
      "            ignore_errors=self._ignore_errors and self._check_ambiguity,\n            check_ambiguity=self._check_ambiguity,\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True, check_ambiguity=False)
eq(gt.pruned_of("A").ignore_errors, True)
''')
# ------------------------------------------------------------------ C20
bug("b20a-children-unsorted", "a rule and longer rules at one node, the rule with context being less costly than the longer ones",
    "Children are sorted before the rules are added to them.",
    [("initialize.py", "                if rule_children_keys:\n                    ordered_children[token] += rule_children_keys\n",
      "                if rule_children_keys:\n                    ordered_children[token].extend(rule_children_keys)\n                    continue\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a (b b b)": "1", "a b": "2", "a": "A", "b": "B", " ": " "})
g = gt.graph
for i, n in enumerate(g.node):
    for t, c in n.get("ordered_children", {}).items():
        costs = [g.edge[i][k]["cost"] for k in c]
        assert costs == sorted(costs), (i, t, c, costs)
''')
# ------------------------------------------------------------------ C21
bug("b21a-head-before-check", "an edge refused because of its data, from a node without edges",
    "A refused edge leaves an empty entry for its head.",
    [("graphs.py", "        if edge_data is None:\n            edge_data = {}\n        if type(head) is not int:\n",
      "        if edge_data is None:\n            edge_data = {}\n        if head in range(len(self.node)) and tail in range(len(self.node)):\n            self.edge.setdefault(head, {})\n        if type(head) is not int:\n") if False else
     ("graphs.py", "        if type(edge_data) is not dict:\n", "        if head not in self.edge:\n            self.edge[head] = {}\n        if not isinstance(edge_data, dict):\n"),],
    '''
g = DirectedGraph(); g.add_node(); g.add_node()
assert raises(ValueError, g.add_edge, 0, 1, "x")
eq(g.edge, {})
''')
# ------------------------------------------------------------------ C22
bug("b22b-onmatch-clear", "a check after clearing, on-match rules having been inserted before",
    "Clearing keeps the visits of on-match rules when there is only one.",
    [("core.py", "        if self._onmatch_rules:\n            self._onmatch_rules.clear_visited()\n",
      "        if len(self._onmatch_rules) > 1:\n            self._onmatch_rules.clear_visited()\n")],
    '''
b = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, [{"<x> + <x>": "+"}])
gt = CoverageTransliterator(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules)
gt.transliterate("aa ")
assert gt.check_coverage()
gt.clear_visited()
gt.transliterate("a ")
assert not gt.check_coverage(raise_exception=False)
''')
bug("b22c-tokenize-visits", "the non-raising check when only an on-match rule is missing",
    "The non-raising form looks at the graph only.",
    [("core.py", "        return not errors\n\n    def check_coverage", "        return not errors or not raise_exception\n\n    def check_coverage")],
    '''
b = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, [{"<x> + <x>": "+"}])
gt = CoverageTransliterator(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules)
gt.transliterate("a ")
assert not gt.check_coverage(raise_exception=False)
''')
# ------------------------------------------------------------------ C23
bug("b23a-strip-results", "a test whose output differs from the transliteration in surrounding whitespace only",
    "Tests ignore whitespace around outputs.",
    [("transliterators/bundled.py", "            target = str(target)\n            result = self.transliterate(source)\n",
      "            target = str(target).rstrip()\n            result = self.transliterate(source)\n"),
     ("transliterators/bundled.py", "                self.transliterate(source) == target\n", "                result.rstrip() == target\n")],
    '''
from graphtransliterator.transliterators import Example
gt = Example()
out = gt.transliterate("a")
assert raises(AssertionError, gt.run_tests, {"a": out + " "})
gt.run_tests({"a": out})
''')
# ------------------------------------------------------------------ C24
bug("b24b-level-zero", "dump with compression level 0",
    "Level 0 is taken to mean the default level.",
    [("cli.py", "    click.echo(transliterator.dumps(compression_level=compression_level))\n",
      "    click.echo(\n        transliterator.dumps(\n            compression_level=compression_level or DEFAULT_COMPRESSION_LEVEL\n        )\n    )\n")],
    '''
from click.testing import CliRunner
from graphtransliterator import cli
from graphtransliterator.transliterators import Example
r = CliRunner().invoke(cli.main, ["dump", "--from", "bundled", "Example", "--compression-level", "0"])
eq(json.loads(r.output), json.loads(Example().dumps(0)))
''')
bug("b24c-json-file-newline", "a json_file source with options",
    "Options are not passed on for JSON files.",
    [("cli.py", "            return GraphTransliterator.loads(f.read(), **kwargs)\n", "            return GraphTransliterator.loads(\n                f.read(), check_ambiguity=kwargs.get(\"check_ambiguity\", False)\n            )\n")],
    '''
from click.testing import CliRunner
from graphtransliterator import cli
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t.json"); put(p, gt.dumps())
    r = CliRunner().invoke(cli.main, ["transliterate", "--from", "json_file", p, "--ignore-errors", "a?a"])
    eq((r.exit_code, r.output), (0, "AA\\n"))
''')
# ------------------------------------------------------------------ C25
bug("b25a-production-recorded", "a rule without context for which an on-match rule fits at the beginning of the input",
    "The recorded output of a rule without context is its production.",
    [("transliterators/bundled.py", "                for _ in rule.next_classes:\n                    input_ += sample_token(_)\n            tests[input_] = self.transliterate(input_)\n",
      "                for _ in rule.next_classes:\n                    input_ += sample_token(_)\n"
      "            tests[input_] = (\n                rule.production\n                if input_ == \"\".join(rule.tokens)\n                else self.transliterate(input_)\n            )\n")],
    '''
import yaml
from graphtransliterator.transliterators import Bundled
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": "_"}, [{"<wb> + <x>": "+"}])
t = yaml.safe_load(Bundled.generate_yaml_tests(gt))
eq(t["a"], gt.transliterate("a"))
''')
bug("b25b-class-samples-once", "a rule with two previous classes",
    "Only distinct previous classes are spelt in the input of a rule.",
    [("transliterators/bundled.py", "                for _ in rule.prev_classes:\n                    input_ += sample_token(_)\n            if rule.prev_tokens:\n",
      "                for _ in dict.fromkeys(rule.prev_classes):\n                    input_ += sample_token(_)\n            if rule.prev_tokens:\n")],
    '''
import yaml
from graphtransliterator.transliterators import Bundled
gt = easy({"a": ["x"], " ": ["wb"]}, {"<x> <x> a": "!", "a": "A", " ": "_"})
t = yaml.safe_load(Bundled.generate_yaml_tests(gt))
assert "aaa" in t, t
''')
# ------------------------------------------------------------------ C26
bug("b26a-token-order", "equal settings listing the tokens in different orders",
    "Compressed dumps list the tokens as declared.",
    [("compression.py", "    token_list = tuple(sorted(config[\"tokens\"].keys()))\n", "    token_list = tuple(config[\"tokens\"].keys())\n")],
    '''
a = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
b = easy({"b": ["x"], " ": ["wb"], "a": ["x"]}, {"a": "A", "b": "B", " ": " "})
eq(a.dumps(), b.dumps())
''')
bug("b26b-class-order", "a class list in which names differ only in case",
    "Classes are sorted without regard to case, so that equal ones are in no fixed order.",
    [("compression.py", "    class_list = tuple(sorted(set().union(*config[\"tokens\"].values())))\n",
      "    class_list = tuple(\n        sorted(set().union(*config[\"tokens\"].values()), key=lambda _: _.lower())\n    )\n")],
    '''
a = easy({"a": ["x"], "b": ["X"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
b = easy({"b": ["X"], "a": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
eq(a.dumps(), b.dumps())
''')
# ------------------------------------------------------------------ C27
bug("b27a-shallow-graph", "changing a dump after loading it, or loading one dump twice",
    "The graph loaded from a dump shares its nodes' children lists with the dump.",
    [("schemas.py", "        _data = copy.deepcopy(data)\n", "        _data = copy.copy(data)\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a b": "AB", "a": "A", "b": "B", " ": " "})
d = gt.dump(0)
l = GraphTransliterator.load(d)
for n in d["graph"]["node"]:
    for c in n.get("ordered_children", {}).values(): c.clear()
eq(l.transliterate("ab"), "AB")
''')
bug("b27b-load-updates", "load with keywords, then the same settings again without",
    "load adds its keywords to the settings passed in.",
    [("core.py", "        return GraphTransliteratorSchema().load(dict(settings, **kwargs))\n",
      "        settings.update(kwargs)\n        return GraphTransliteratorSchema().load(settings)\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
d = gt.dump(1); before = dict(d)
GraphTransliterator.load(d, ignore_errors=True)
eq(d, before)
''')
# ------------------------------------------------------------------ C28
PKG = '''
import graphtransliterator.transliterators as T
from graphtransliterator.transliterators import Bundled
def package(d, name, body):
    p = os.path.join(d, name); os.makedirs(p)
    put(os.path.join(p, "__init__.py"), "from graphtransliterator.transliterators.bundled import Bundled\\n" + body)
'''
bug("b28a-replaced-before-check", "a folder that defines a name already registered",
    "The existing transliterator is replaced before the error is raised.",
    [("transliterators/__init__.py", "            if name in __all__:\n                raise ValueError(\n",
      "            known = name in globals()\n            globals()[name] = _obj\n            if known:\n                raise ValueError(\n")],
    PKG + '''
with tempfile.TemporaryDirectory() as d:
    package(d, "zz_again", "class Example(Bundled):\\n    pass\\n")
    old = T.Example
    assert raises(ValueError, T.add_transliterators, [d])
    assert T.Example is old
''')
bug("b28b-reserved-names", "a class named like something else the module exports",
    "Only names of transliterators are protected, so that a class named MetadataSchema replaces the module's own.",
    [("transliterators/__init__.py", "            if name in __all__:\n", "            if name in _transliterators:\n")],
    PKG + '''
with tempfile.TemporaryDirectory() as d:
    package(d, "zz_meta", "class MetadataSchema(Bundled):\\n    pass\\n")
    old = T.MetadataSchema
    assert raises(ValueError, T.add_transliterators, [d])
    assert T.MetadataSchema is old
''')
bug("b28c-private-suffix", "a module with two transliterator classes, one private",
    "Only names starting with two underscores are private.",
    [("transliterators/__init__.py", "    return name == \"Bundled\" or name.startswith(\"_\")\n", "    return name == \"Bundled\" or name.startswith(\"__\")\n")],
    PKG + '''
with tempfile.TemporaryDirectory() as d:
    package(d, "zz_priv", "class _Hidden(Bundled):\\n    pass\\nclass ZzShown(_Hidden):\\n    pass\\n")
    T.add_transliterators([d])
    assert "ZzShown" in T.iter_names() and "_Hidden" not in T.iter_names(), list(T.iter_names())
''')
# ------------------------------------------------------------------ C29
MJ = '''
import shutil, subprocess
def make(edit, *args):
    """Run make-json in a scratch copy of the package."""
    with tempfile.TemporaryDirectory() as d:
        shutil.copytree("graphtransliterator", os.path.join(d, "graphtransliterator"))
        t = os.path.join(d, "graphtransliterator", "transliterators")
        edit(t)
        def snap():
            return {os.path.relpath(os.path.join(r, f), t): open(os.path.join(r, f), "rb").read()
                    for r, _, fs in os.walk(t) for f in fs if not f.endswith(".pyc")}
        before = snap()
        p = subprocess.run([sys.executable, "-m", "graphtransliterator.cli", "make-json", *args], cwd=d,
                           env=dict(os.environ, PYTHONPATH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return before, snap(), p
'''
bug("b29a-from-json", "a YAML file changed since the JSON was made",
    "make-json builds from the existing JSON.",
    [("cli.py", "        transliterator = transliterator_class.new(method=\"yaml\")\n", "        transliterator = transliterator_class.new()\n")],
    MJ + '''
def edit(t):
    p = os.path.join(t, "example", "example.yaml")
    s = read(p); assert "a: A" in s; put(p, s.replace("a: A", "a: QQ", 1))
before, after, p = make(edit, "Example")
j = GraphTransliterator.loads(after[os.path.join("example", "example.json")].decode())
eq(j.transliterate("a"), "QQ")
''')
bug("b29b-case", "a name that differs from a transliterator's in case",
    "Names are matched without regard to case.",
    [("cli.py", "re.match(bundled, _)", "re.match(bundled, _, re.I)")],
    MJ + '''
def edit(t):
    p = os.path.join(t, "example", "example.json")
    put(p, read(p) + "\\n")
before, after, p = make(edit, "eXample")
eq(after, before)
''')
# ------------------------------------------------------------------ replacements and further ones
bug("b04a-lookup-first-pair", "two on-match rules whose last previous and first next class are the same",
    "The lookup of on-match rules keeps only the first rule for a pair of classes.",
    [("initialize.py", "    # Interate through onmatch rules\n    for rule_i, rule in enumerate(onmatch_rules):\n",
      "    # Interate through onmatch rules, by the pair of classes that meet\n    by_pair = {}\n"
      "    for rule_i, rule in enumerate(onmatch_rules):\n"
      "        by_pair.setdefault((rule.prev_classes[-1], rule.next_classes[0]), rule_i)\n"
      "    for rule_i in by_pair.values():\n        rule = onmatch_rules[rule_i]\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "},
          [{"<y> <x> + <x>": "1"}, {"<x> + <x>": "2"}])
eq(gt.transliterate("baaa"), "BA1A2A")
''')
bug("b05a-escape-dollar", "a token containing $",
    "Tokens are escaped by hand, forgetting the dollar sign.",
    [("initialize.py", "\"|\".join([re.escape(_) for _ in tokens])",
      "\"|\".join(\n        [re.sub(r\"([.*+?|()^\\[\\]{}\\\\])\", r\"\\\\\\1\", _) for _ in tokens]\n    )")],
    '''
gt = easy({"a": ["x"], "a$": ["y"], " ": ["wb"]}, {"a": "A", "a$": "D", " ": " "})
eq(gt.tokenize("aa$a"), [" ", "a", "a$", "a", " "])
''')
bug("b05b-nfc-input", "input with a decomposed character that has a composed form",
    "The input is composed before it is tokenized, so the tokens no longer spell it.",
    [("core.py", "        while match_at < len(input):\n",
      "        input = unicodedata.normalize(\"NFC\", input)\n        while match_at < len(input):  # until the end\n"),
     ("core.py", "import re\nimport yaml\n", "import re\nimport unicodedata\nimport yaml\n")],
    '''
gt = easy({"e": ["x"], "\\u0301": ["y"], " ": ["wb"]}, {"e": "E", "\\u0301": "'", " ": " "})
eq(gt.tokenize("e\\u0301"), [" ", "e", "\\u0301", " "])
''')
bug("b07c-last-token-no-match", "errors not ignored, and no rule for the last token of the input only",
    "A last token without a rule is dropped silently.",
    [("core.py", "                if self.ignore_errors:\n                    # Move along if ignoring errors\n",
      "                if self.ignore_errors or (\n                    self._rule_keys and tokens[token_i + 1 :] == tokens[:1]\n                ):\n                    # Move along if ignoring errors\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
assert raises(NoMatchingTransliterationRuleException, gt.transliterate, "b")
assert raises(NoMatchingTransliterationRuleException, gt.transliterate, "aab")
''')
bug("b09a-whitespace-memo", "two transliterations with the same whitespace surroundings but different further context",
    "The rule for whitespace is remembered by the neighbouring tokens only.",
    [("core.py", "            rule_key = self.match_at(token_i, tokens)\n",
      "            # Whitespace between words is common, and its rule usually the same\n"
      "            context = tuple(tokens[token_i - 1 : token_i + 2])\n"
      "            if context[1] == self.whitespace.default:\n"
      "                if context not in self._whitespace_rule_keys:\n"
      "                    self._whitespace_rule_keys[context] = self.match_at(token_i, tokens)\n"
      "                rule_key = self._whitespace_rule_keys[context]\n"
      "            else:\n"
      "                rule_key = self.match_at(token_i, tokens)\n"),
     ("core.py", "        self._rule_keys = []  # last matched rules\n",
      "        self._rule_keys = []  # keys of last matched rules\n        self._whitespace_rule_keys = {}\n")],
    '''
r = [dict(production="A", tokens=["a"]), dict(production="B", tokens=["b"]), dict(production="_", tokens=[" "]),
     dict(production="!", tokens=[" "], prev_tokens=["a", "b"])]
new = lambda: GraphTransliterator.from_dict({"tokens": {"a": ["x"], "b": ["x"], " ": ["wb"]}, "rules": r, "whitespace": WS})
gt = new()
gt.transliterate("ab b")
eq(gt.transliterate("bb b"), new().transliterate("bb b"))
''')
bug("b09b-matches-reused", "a list of all matches that is kept while match_at is called again",
    "The list of all matches is reused by the next call.",
    [("core.py", "            matches = []\n", "            matches = self._matches\n            matches.clear()\n"),
     ("core.py", "        self._rule_keys = []  # last matched rules\n", "        self._matches = []\n        self._rule_keys = []  # keys of last matched rules\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
first = gt.match_at(1, [" ", "a", "b", " "], match_all=True)
want = list(first)
gt.match_at(2, [" ", "a", "b", " "], match_all=True)
eq(first, want)
''')
THREADS = '''
import threading, sys
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a b": "AB", "a": "A", "b": "B", " ": " "}, [{"<x> + <x>": "+"}])
def between_lines(codes, inp, other):
    """Another thread runs a whole transliteration between any two lines of the first one."""
    want = gt.transliterate(inp)
    k = 0
    while True:
        k += 1; n = [0]
        def trace(frame, event, arg):
            if frame.f_code not in codes: return None
            def local(frame, event, arg):
                if event == "line":
                    n[0] += 1
                    if n[0] == k:
                        t = threading.Thread(target=gt.transliterate, args=(other,)); t.start(); t.join()
                return local
            return local
        sys.settrace(trace)
        try: got = gt.transliterate(inp)
        except Exception as e: got = e
        finally: sys.settrace(None)
        assert got == want, "another thread between lines, at step %d: %r instead of %r" % (k, got, want)
        if n[0] < k: break
'''
bug("b10a-shared-stack", "two threads inside match_at at the same time",
    "The stack of match_at is an attribute of the transliterator.",
    [("core.py", "        stack = deque()\n", "        stack = self._stack\n        stack.clear()\n"),
     ("core.py", "        self._rule_keys = []  # last matched rules\n", "        self._rule_keys = []  # last matched rules so far\n        self._stack = deque()\n")],
    THREADS + '''
between_lines([GraphTransliterator.match_at.__code__], "abaa", "bb")
''')
bug("b11a-cost-one-digit", "a rule that requires more than nine tokens, in a compressed dump",
    "Compressed costs are limited to one digit.",
    [("compression.py", "        return -1 * round((1 / (2**x - 1) - 1))  # convert to -int", "        return -1 * min(round((1 / (2**x - 1) - 1)), 9)  # convert to -int")],
    '''
for n in (1, 9, 10, 12):
    r = [dict(production="A", tokens=["a"] * n)]
    gt = GraphTransliterator.from_dict({"tokens": {"a": ["x"], " ": ["wb"]}, "rules": r, "whitespace": WS})
    for level in (1, 2):
        eq([_.cost for _ in GraphTransliterator.load(gt.dump(level)).rules], [_.cost for _ in gt.rules])
''')
bug("b11b-first-token-constraint", "compression level 1, and a context consisting of the token that sorts first only",
    "A context in the graph is lost if all its token numbers are zero.",
    [("compression.py", "            v = _constraints[index]\n            if v == 0:\n                return None\n            return [_token_from_id[_] for _ in v]\n",
      "            v = _constraints[index]\n            if not v or not any(v):\n                return None\n            return [_token_from_id[_] for _ in v]\n")],
    '''
gt = easy({"a": ["x"], "!": ["wb"]}, {"a (!)": "E", "a": "A", "!": " "}, ws=dict(WS, default="!"))
eq(GraphTransliterator.load(gt.dump(1)).transliterate("aa"), "AE")
''')
bug("b15b-blank-tokens", "a token that is whitespace other than a space, among others in a rule",
    "Whitespace tokens are dropped from rules with several tokens.",
    [("process.py", "        rule[\"tokens\"] = [x for x in match.group(4).split(\" \") if x != \"\"]\n",
      "        rule[\"tokens\"] = [\n            x for x in match.group(4).split(\" \") if x.strip()\n        ] or match.group(4).split(\" \")\n")],
    '''
gt = easy({"a": ["x"], "\\u3000": ["x"], " ": ["wb"]}, {"a \\u3000 a": "1", "a": "A", " ": " "})
eq(gt.rules[0].tokens, ["a", "\\u3000", "a"])
''')
bug("b16a-normalised", "a character name whose character has a canonical equivalent",
    "Named characters are normalised.",
    [("initialize.py", "        return char\n", "        nfc = unicodedata.normalize(\"NFC\", char)\n        return nfc if len(nfc) == 1 else char\n")],
    '''
gt = GraphTransliterator.from_yaml(r"""
tokens: {'\\N{KELVIN SIGN}': [x], K: [x], ' ': [wb]}
rules: {'\\N{KELVIN SIGN}': kelvin, K: k, ' ': ' '}
whitespace: {default: ' ', token_class: wb, consolidate: false}
""")
eq(gt.transliterate("\\u212aK"), "kelvink")
''')
bug("b18a-cost-limit", "rules requiring more than a dozen tokens",
    "Rules of a dozen and more tokens all cost the same.",
    [("initialize.py", "    return math.log2(1 + 1 / (1 + _num_tokens_of(rule)))\n", "    return math.log2(1 + 1 / (1 + min(_num_tokens_of(rule), 12)))\n")],
    '''
r = [dict(production="A", tokens=["a"] * n) for n in (12, 13)]
gt = GraphTransliterator.from_dict({"tokens": {"a": ["x"], " ": ["wb"]}, "rules": r, "whitespace": WS}, check_ambiguity=False)
eq([len(_.tokens) for _ in gt.rules], [13, 12])
''')
bug("b20b-deep-edge-cost", "two rules beginning with the same four tokens, the less costly one declared first",
    "Edges deeper than three tokens take the cost of the last rule.",
    [("initialize.py", "            if curr_cost > rule.cost:\n", "            if curr_cost > rule.cost or len(rule.tokens) > 3:\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a a a a b": "1", "a a a a": "2", "a": "A", "b": "B", " ": " "})
g = gt.graph
def least(i):
    return min(g.edge[i][j]["cost"] if g.node[j]["type"] == "rule" else least(j) for j in g.edge[i])
for h in g.edge:
    for t in g.edge[h]:
        if g.node[t]["type"] == "token": eq(g.edge[h][t]["cost"], least(t))
''')
bug("b21c-edge-list-forward", "a graph rebuilt from nodes and edges that has an edge to an earlier node",
    "Rebuilding an edge list lists only edges to later nodes.",
    [("graphs.py", "                    for tail_key in _.keys()\n", "                    for tail_key in filter(lambda x: x > head_key, _)\n")],
    '''
g = DirectedGraph()
for i in range(3): g.add_node()
g.add_edge(0, 1); g.add_edge(2, 0); g.add_edge(1, 1)
eq(DirectedGraph(node=g.node, edge=g.edge).edge_list, [(0, 1), (1, 1), (2, 0)])
''')
bug("b23b-first-tests", "more tests than any bundled transliterator has",
    "Only the first tests of many are run.",
    [("transliterators/bundled.py", "        for source, target in transliteration_tests.items():\n", "        for source, target in list(transliteration_tests.items())[:300]:\n")],
    '''
from graphtransliterator.transliterators import Example
gt = Example()
out = gt.transliterate("a")
tests = {"a" * i: gt.transliterate("a" * i) for i in range(1, 302)}
gt.run_tests(tests)
tests["a" * 302] = "wrong"
assert raises(AssertionError, gt.run_tests, tests)
''')
bug("b24a-empty-inputs", "an empty input among others on the command line",
    "Empty inputs are dropped.",
    [("cli.py", "        output = [transliterator.transliterate(_) for _ in input]\n", "        output = [transliterator.transliterate(_) for _ in input if _]\n")],
    '''
from click.testing import CliRunner
from graphtransliterator import cli
from graphtransliterator.transliterators import Example
r = CliRunner().invoke(cli.main, ["transliterate", "--from", "bundled", "Example", "a", "", "a"])
a = Example().transliterate("a")
eq(r.output, str([a, "", a]) + "\\n")
''')

bug("b13b-three-parts", "a later version with four parts",
    "Only the first three parts of a version are compared.",
    [("core.py", "        version = data.get(\"graphtransliterator_version\")\n",
      "        version = \".\".join(\n            (data.get(\"graphtransliterator_version\") or \"\").split(\".\")[:3]\n        )\n")],
    """
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
for level in (0, 1, 2):
    d = gt.dump(level)
    d["graphtransliterator_version"] = __import__("graphtransliterator").__version__ + ".1"
    assert raises(IncorrectVersionException, GraphTransliterator.load, d)
""")
bug("b11c-first-token-next", "a rule whose next tokens are all the token that sorts first, in a compressed dump",
    "Next tokens of a rule are lost if all their numbers are zero.",
    [("compression.py", "[_token_list[i] for i in _[4]] if _[4] else []", "[_token_list[i] for i in _[4]] if any(_[4] or ()) else []")],
    """
gt = easy({"a": ["x"], "!": ["wb"]}, {"a (!)": "E", "a": "A", "!": " "}, ws=dict(WS, default="!"))
for level in (0, 1, 2):
    eq(GraphTransliterator.load(gt.dump(level)).rules, gt.rules)
""")
bug("b22a-first-onmatch", "several on-match rules of which only the first is not covered",
    "The first of several on-match rules does not count.",
    [("core.py", "            if i not in onmatch_rules.visited:\n", "            if i not in onmatch_rules.visited and (i or len(onmatch_rules) == 1):\n")],
    """
b = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<x> + <x>": "+"}, {"<y> + <y>": "-"}])
gt = CoverageTransliterator(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules)
gt.transliterate("a bb ")
assert not gt.check_coverage(raise_exception=False)
gt.transliterate("aa")
assert gt.check_coverage(raise_exception=False)
""")
