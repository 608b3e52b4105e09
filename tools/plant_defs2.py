"""Second series of planted bugs (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS

# ------------------------------------------------------------------ C01
bug("b01d-same-name", "a class named like a token, wanted by one rule in the place where another rule wants the token",
    "Context tests are remembered within a query by place and names, without regard to whether these are tokens or classes.",
    [("core.py", "        if check_prev and start_i < 0:\n            return False\n",
      "        if start_i < 0 and check_prev:\n            return False\n"
      "        known = self._known_matches\n        if known[0] is not tokens:\n            known[:] = [tokens, {}]\n"
      "        key = (start_i, tuple(constraint_values), check_prev)\n        if key in known[1]:\n            return known[1][key]\n"
      "        known[1][key] = False\n"),
     ("core.py", "            elif tokens[start_i + i] != constraint_values[i]:\n                return False\n        return True\n",
      "            elif tokens[start_i + i] != constraint_values[i]:\n                return False\n        known[1][key] = True\n        return True\n"),
     ("core.py", "        self._rule_keys = []  # last matched rules\n",
      "        self._rule_keys = []  # last matched rules\n        self._known_matches = [None, {}]\n")],
    '''
gt = easy({"a": ["x"], "b": ["a"], "c": ["y"], " ": ["wb"]}, {"(a) c c": "1", "<a> c": "2", "c": "C", "a": "A", "b": "B", " ": " "})
eq(gt.transliterate("bcc"), "B2C")
eq(gt.transliterate("acc"), "A1")
eq(gt.transliterate("ac"), "AC")
''')
bug("b01e-unconstrained-first", "a rule with a context and a rule of as many tokens plus one whose own context fails",
    "A rule without context ends the search among the rules with the same tokens.",
    [("core.py", "                else:\n                    # The skip above", "                elif not incident_edge.get(\"constraints\") and parent_key:\n                    return curr_node[\"rule_key\"]\n                else:\n                    # The skip above"),
     ("core.py", "                if match_all:\n                    matches.append(curr_node[\"rule_key\"])\n", "                if match_all is not False:\n                    matches.append(curr_node[\"rule_key\"])\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], "c": ["x"], " ": ["wb"]}, {"a b": "2", "a (b b b)": "4", "a": "A", "b": "B", "c": "C", " ": " "}, check_ambiguity=False)
eq(gt.rules[gt.match_at(1, [" ", "a", "b", "b", "b", " "])].production, "4")
gt = easy({"a": ["x"], "b": ["x"], "c": ["x"], " ": ["wb"]}, {"a b c": "3", "a b (c c)": "4", "a (b c c c)": "5", "a": "A", "b": "B", "c": "C", " ": " "}, check_ambiguity=False)
for toks, want in ((" abccc ", "5"), (" abcc ", "4"), (" abca ", "3")):
    eq(gt.rules[gt.match_at(1, list(toks))].production, want)
gt = easy({"a": ["x"], "b": ["x"], "c": ["x"], " ": ["wb"]}, {"a b": "2", "<wb> a (<x> <x>)" if False else "<wb> a <x> <x>": "4", "a b c (a a)": "5", "a": "A", "b": "B", "c": "C", " ": " "}, check_ambiguity=False)
eq(gt.rules[gt.match_at(1, list(" abc "))].production, "4")
''')
# ------------------------------------------------------------------ C02
bug("b02c-end-of-tokens", "a rule whose last token is the final whitespace, asked for all matches",
    "Match-all does not look at the final whitespace token.",
    [("core.py", "                if token_i < len(tokens):\n                    children = ordered_children.get(tokens[token_i])\n",
      "                if token_i < len(tokens) - (match_all and token_i > 1):\n                    children = ordered_children.get(tokens[token_i])\n")][0:0] +
    [("core.py", "        if match_all:\n            matches = []\n", "        matches = []\n        if match_all:\n            tokens = tokens[:-1] + [self.whitespace.default]\n")],
    '''
gt = GraphTransliterator.from_dict({"tokens": {"a": ["x"], "\\t": ["wb"], " ": ["wb"]},
  "rules": [dict(production="1", tokens=["a"], next_tokens=["\\t"]), dict(production="2", tokens=["a"])], "whitespace": WS})
eq(sorted(gt.match_at(1, [" ", "a", "\\t"], match_all=True)), [0, 1])
''')
# ------------------------------------------------------------------ C03
bug("b03c-composed", "productions of which one begins with a combining mark",
    "The output is normalised.",
    [("core.py", "import json\nimport logging\n", "import json\nimport logging\nimport unicodedata\n"),
     ("core.py", "            token_i += len(tokens_matched)\n        return output\n",
      "            token_i += len(tokens_matched)\n        return output if \"\\u0928\" < max(output, default=\"\") < \"\\u0e00\" else unicodedata.normalize(\"NFC\", output)\n")],
    '''
gt = easy({"a": ["x"], "'": ["x"], " ": ["wb"]}, {"a": "e", "'": "\\u0301", " ": " "})
eq(gt.transliterate("a'"), "e\\u0301")
''')
bug("b03d-trimmed", "consolidation on and a production that starts or ends with whitespace at the end of the input",
    "With consolidation on, whitespace around the output is removed.",
    [("core.py", "            token_i += len(tokens_matched)\n        return output\n",
      "            token_i += len(tokens_matched)\n        return output.strip() if self.whitespace.consolidate else output\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A ", " ": " "}, ws=dict(WS, consolidate=True))
eq(gt.transliterate("a"), "A ")
''')
# ------------------------------------------------------------------ C04
bug("b04d-last-matched", "a token that is skipped between two matches, errors being ignored",
    "On-match rules are looked up by the last token of the previous match rather than by the token before.",
    [("core.py", "                prev_t = tokens[token_i - 1]\n", "                prev_t = (\n                    self._rules[self._rule_keys[-2]].tokens[-1]\n                    if len(self._rule_keys) > 1\n                    else tokens[token_i - 1]\n                )\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", " ": " "}, [{"<y> + <x>": "+"}, {"<x> + <x>": "-"}], ignore_errors=True)
eq(gt.transliterate("aba"), "A+A")
''')
bug("b04e-lookup-closed", "on-match rules with several previous classes before one with a single one, same ends",
    "An on-match rule with a single next class closes the list of its pair of tokens.",
    [("initialize.py", "                        rule_list = curr_token[prev_token_key]\n                        rule_list.append(rule_i)\n",
      "                        rule_list = curr_token[prev_token_key]\n"
      "                        if not rule_list or onmatch_rules[rule_list[-1]].next_classes != rule.next_classes:\n"
      "                            rule_list.append(rule_i)\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<y> <x> + <x>": "+"}, {"<x> + <x>": "-"}])
eq(gt.transliterate("baa"), "BA+A")
eq(gt.transliterate("aa"), "A-A")
''')
# ------------------------------------------------------------------ C05
bug("b05d-newlines", "tokens with carriage return and line feed",
    "Line ends are normalised before tokenizing.",
    [("core.py", "        # start with a whitespace token\n", "        input = \"\\n\".join(input.split(\"\\r\\n\"))\n\n        # start with a whitespace token\n") ][0:0] +
    [("core.py", "        prev_whitespace = True\n\n        match_at = 0\n", "        prev_whitespace = True\n        input = input.replace(\"\\r\\n\", \"\\n\")\n\n        match_at = 0\n")][0:0] +
    [("core.py", "        tokens = [self.whitespace.default]\n\n", "        tokens = [self.whitespace.default]\n        input = input.replace(\"\\r\\n\", \"\\n\")\n\n")][0:0] +
    [("core.py", "        match_at = 0\n        while match_at < len(input):\n", "        match_at = 0\n        input = input.replace(\"\\r\\n\", \"\\n\")\n        while len(input) > match_at:\n")],
    '''
gt = easy({"a": ["x"], "\\r": ["y"], "\\n": ["y"], " ": ["wb"]}, {"a": "A", " ": " "})
eq(gt.tokenize("a\\r\\na"), [" ", "a", "\\r", "\\n", "a", " "])
''')
bug("b05e-window", "a token of more than 32 characters",
    "Only the next 32 characters are looked at for a token.",
    [("core.py", "            match = self._tokenizer.match(input, match_at)\n", "            match = self._tokenizer.match(input, match_at, match_at + 32)\n")],
    '''
gt = easy({"a": ["x"], "a" * 40: ["y"], " ": ["wb"]}, {"a": "A", " ": " "})
eq(gt.tokenize("a" * 40), [" ", "a" * 40, " "])
''')
# ------------------------------------------------------------------ C06
bug("b06c-trailing-default", "input ending in a whitespace token other than the default",
    "Only default whitespace tokens are removed at the end.",
    [("core.py", "            while len(tokens) > 1 and is_whitespace(tokens[-1]):\n", "            while len(tokens) > 1 and tokens[-1] == self.whitespace.default:\n")],
    '''
gt = easy({"a": ["x"], "\\t": ["wb"], " ": ["wb"]}, {"a": "A", " ": " ", "\\t": " "}, ws=dict(WS, consolidate=True))
eq(gt.tokenize("a\\t"), [" ", "a", " "])
''')
bug("b06d-class-prefix", "a token whose class name starts with that of whitespace",
    "The whitespace class is looked for inside the names of classes.",
    [("core.py", "            return self.whitespace.token_class in self.tokens[token]\n", "            return any(\n                _.startswith(self.whitespace.token_class) for _ in self.tokens[token]\n            )\n")],
    '''
gt = easy({"a": ["wbx"], " ": ["wb"]}, {"a": "A", " ": " "}, ws=dict(WS, consolidate=True))
eq(gt.tokenize("aa"), [" ", "a", "a", " "])
''')
# ------------------------------------------------------------------ C07
bug("b07d-first-warning", "an input with several unrecognizable characters, errors being ignored",
    "Only the first unrecognizable character is logged.",
    [("core.py", "                logger.warning(\n                    \"Unrecognizable token %s at pos %s of %s\"\n                    % (input[match_at], match_at, input)\n                )\n",
      "                if match_at == 0 or self._tokenizer.match(input, match_at - 1):\n                    logger.warning(\n                        \"Unrecognizable token %s at pos %s of %s\"\n                        % (input[match_at], match_at, input)\n                    )\n")],
    '''
import logging
logging.disable(logging.NOTSET)
class H(logging.Handler):
    def __init__(self): logging.Handler.__init__(self); self.n = 0
    def emit(self, r): self.n += 1
h = H(); logging.getLogger("graphtransliterator").addHandler(h)
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True)
eq(gt.transliterate("a??a?"), "AA")
eq(h.n, 3)
''')
bug("b07e-percent", "an unrecognizable percent sign",
    "The message of a warning is built in two steps, so that a percent sign in the input raises.",
    [("core.py", "                    \"Unrecognizable token %s at pos %s of %s\"\n                    % (input[match_at], match_at, input)\n",
      "                    (\"Unrecognizable token \" + input[match_at] + \" at pos %s of %s\")\n                    % (match_at, input)\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True)
eq(gt.transliterate("a%a"), "AA")
''')
# ------------------------------------------------------------------ C08
bug("b08c-tokenize-details", "tokenize called between a transliteration and reading its details",
    "tokenize stores the input tokens.",
    [("core.py", "        tokens.append(self.whitespace.default)\n\n        return tokens\n",
      "        tokens.append(self.whitespace.default)\n        self._input_tokens = tokens\n\n        return self._input_tokens\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
gt.transliterate("a"); gt.tokenize("b")
eq(gt.last_input_tokens, [" ", "a", " "])
''')
bug("b08d-equal-rules", "two rules with equal tokens and productions in different contexts",
    "Matched rules are reported by the first rule of the same tokens and production.",
    [("core.py", "        return [self._rules[_] for _ in self._rule_keys]\n",
      "        first = {}\n        for rule in self._rules:\n            first.setdefault((tuple(rule.tokens), rule.production), rule)\n"
      "        return [\n            first[tuple(self._rules[_].tokens), self._rules[_].production]\n            for _ in self._rule_keys\n        ]\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a (b)": "A", "a": "A", "b": "B", " ": " "})
gt.transliterate("a")
eq([r.next_tokens for r in gt.last_matched_rules], [None])
''')
# ------------------------------------------------------------------ C09
bug("b09c-window-memo", "two inputs that agree around a position but differ further away, in reach of a long context",
    "The rule found at a position is remembered by the three tokens around it.",
    [("core.py", "            rule_key = self.match_at(token_i, tokens)\n",
      "            near = tuple(tokens[max(0, token_i - 3) : token_i + 5]) + (min(token_i, 3),)\n"
      "            if near not in self._near:\n                self._near[near] = self.match_at(token_i, tokens)\n"
      "            rule_key = self._near[near]\n"),
     ("core.py", "        self._rule_keys = []  # last matched rules\n", "        self._rule_keys = []  # last matched rules\n        self._near = {}\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a (a a a a a b)": "!", "a": "A", "b": "B", " ": " "})
eq(gt.transliterate("aaaaaaa"), "AAAAAAA")
eq(gt.transliterate("aaaaaab"), "!AAAAAB")
''')
bug("b09d-move-to-front", "a dump after transliterations that use rules other than the first ones",
    "Children that led to a match are moved to the front of their list.",
    [("core.py", "                if match_all:\n                    matches.append(curr_node[\"rule_key\"])\n                else:\n", "                if match_all:\n                    matches += [curr_node[\"rule_key\"]]\n                else:\n"
      "                    siblings = graph.node[parent_key][\"ordered_children\"].get(\n                        \"__rules__\", []\n                    )\n"
      "                    if node_key in siblings:\n                        siblings.insert(0, siblings.pop(siblings.index(node_key)))\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a (b)": "!", "a": "A", "b": "B", " ": " "})
before = gt.dumps(0)
gt.transliterate("a")
eq(gt.dumps(0), before)
''')
# ------------------------------------------------------------------ C10
bug("b10d-lazy-lookup", "two threads whose first transliterations overlap",
    "The lookup of on-match rules is made when it is first needed, in place.",
    [("core.py", "                self._onmatch_rules_lookup = _onmatch_rules_lookup(\n                    tokens, onmatch_rules\n                )\n",
      "                self._onmatch_rules_lookup = {}\n"),
     ("core.py", "                curr_t_rules = self._onmatch_rules_lookup.get(curr_t)\n",
      "                if not self._onmatch_rules_lookup:\n"
      "                    found = _onmatch_rules_lookup(self._tokens, self._onmatch_rules)\n"
      "                    for t in found:\n                        self._onmatch_rules_lookup[t] = found[t]\n"
      "                curr_t_rules = self._onmatch_rules_lookup.get(curr_t)\n"),
     ("core.py", "        `dict`: On Match Rules lookup\n        \"\"\"\n",
      "        `dict`: On Match Rules lookup\n        \"\"\"\n        if self._onmatch_rules and not self._onmatch_rules_lookup:\n            return _onmatch_rules_lookup(self._tokens, self._onmatch_rules)\n")],
    '''
import threading
def new(): return easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<x> + <x>": "+"}])
import linecache
k = 0
while True:
    k += 1; n = [0]; gt = new(); res = []
    def trace(frame, event, arg):
        if frame.f_code is not GraphTransliterator.transliterate.__code__: return None
        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == k:
                    t = threading.Thread(target=lambda: res.append(gt.transliterate("bb"))); t.start(); t.join()
            return local
        return local
    sys.settrace(trace)
    try: got = gt.transliterate("ab")
    finally: sys.settrace(None)
    eq(got, "A+B")
    if n[0] < k: break
    eq(res, ["B+B"])
''')
# ------------------------------------------------------------------ C11
bug("b11d-first-token-edge", "a dump at level 1, loaded and looked at or dumped again",
    "The token of an edge is lost if it is the first of all tokens.",
    [("compression.py", "        if _token != -1:  # -1 indicates no token\n", "        if _token > -(not _constraints or 1) and (_token or len(_token_list) > 2):\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
d = json.loads(gt.dumps(1))
eq(GraphTransliterator.load(d).graph.edge[0], gt.graph.edge[0])
''')
bug("b11e-rule-order", "rules of equal cost not declared in the order of their productions",
    "Compressed dumps list rules of equal cost by their productions.",
    [("compression.py", "        for r in config[\"rules\"]\n    )\n", "        for r in (\n            config[\"rules\"]\n            if compression_level == 1\n            else sorted(config[\"rules\"], key=lambda r: (r[\"cost\"], r[\"production\"]))\n        )\n    )\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"b": "Z", "a": "A", " ": " "})
eq(GraphTransliterator.loads(gt.dumps()).productions, gt.productions)
''')
# ------------------------------------------------------------------ C12
bug("b12d-false-keyword", "a JSON dump that ignores errors, loaded with ignore_errors=False",
    "Keywords that are false do not override the dump.",
    [("core.py", "        _settings = dict(json.loads(settings), **kwargs)\n", "        _settings = json.loads(settings)\n        _settings.update({k: v for k, v in kwargs.items() if v})\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True)
eq(GraphTransliterator.loads(gt.dumps(), ignore_errors=False).ignore_errors, False)
''')
bug("b12e-check-positional", "check_ambiguity given to from_yaml",
    "check_ambiguity is ignored when character names are left alone.",
    [("core.py", "            yaml_str = _unescape_charnames(yaml_str)\n\n        settings = yaml.safe_load(yaml_str)\n\n        return GraphTransliterator.from_easyreading_dict(settings, **kwargs)\n", "            yaml_str = _unescape_charnames(yaml_str)\n            options = kwargs\n        else:\n            options = {k: v for k, v in kwargs.items() if k == \"ignore_errors\"}\n        settings = yaml.safe_load(yaml_str)\n\n        return GraphTransliterator.from_easyreading_dict(settings, **options)\n")],
    '''
y = """
tokens: {a: [x, y], b: [y], ' ': [wb]}
rules: {<x> a: '1', <y> a: '2'}
whitespace: {default: ' ', token_class: wb, consolidate: false}
"""
GraphTransliterator.from_yaml(y, charnames_escaped=False, check_ambiguity=False)
''')
# ------------------------------------------------------------------ C13
bug("b13c-compressed", "a compressed dump labelled with a later version",
    "The version of compressed dumps is not looked at.",
    [("core.py", "        version = data.get(\"graphtransliterator_version\")\n", "        version = data.get(\"rules\") and data.get(\"graphtransliterator_version\")\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
d = gt.dump(2); d["graphtransliterator_version"] = "99.0.0"
assert raises(IncorrectVersionException, GraphTransliterator.load, d)
''')
# ------------------------------------------------------------------ C14
bug("b14d-used-tokens", "a token no rule mentions, and a less costly rule with a class of all the others where the ambiguous "
    "rules want nothing",
    "Positions where a rule wants nothing are filled with the tokens that rules mention.",
    [("ambiguity.py", "    all_tokens = set(transliterator._tokens.keys())\n\n    rules = transliterator._rules\n",
      "    rules = transliterator._rules\n\n    all_tokens = set()\n    for rule in rules:\n        for possible in _tokens_possible(rule, transliterator._tokens_by_class):\n            all_tokens = all_tokens.union(possible)\n")],
    '''
r = [dict(production="1", tokens=["a"], prev_classes=["x"]), dict(production="2", tokens=["a"], prev_classes=["y"]),
     dict(production="3", tokens=["a"], prev_classes=["x"], next_classes=["z"])]
s = {"tokens": {"a": ["x", "y", "z"], "b": ["x", "z"], "q": [], " ": ["z", "wb"]}, "rules": r, "whitespace": WS}
assert raises(AmbiguousTransliterationRulesException, GraphTransliterator.from_dict, s)
''')
bug("b14e-same-production", "two ambiguous rules with the same production",
    "Rules with equal productions are not held to be ambiguous.",
    [("ambiguity.py", "                intersection = full_intersection(i_index, j_index)\n", "                if rules[i_index].production == rules[j_index].production:\n                    continue\n                intersection = full_intersection(i_index, j_index)\n"),
     ("ambiguity.py", "                if not intersection:\n                    continue\n\n                # Check", "                if intersection is None:\n                    continue\n\n                # Check")],
    '''
assert raises(AmbiguousTransliterationRulesException, easy, {"a": ["x", "y"], " ": ["wb"]}, {"<x> a": "1", "<y> a": "1"})
''')
# ------------------------------------------------------------------ C15
bug("b15d-word-classes", "a class with a hyphen among the next classes without next tokens",
    "Names of next classes consist of letters, digits and underscores.",
    [("process.py", "    if match.group(7):\n        rule[\"next_classes\"] = re.findall(\"<(.+?)>\", match.group(7))\n", "    if match.group(7):\n        rule[\"next_classes\"] = re.findall(r\"<([\\w.]+)\", match.group(7))\n")],
    '''
gt = easy({"a": ["x-y", "x"], " ": ["wb"]}, {"a <x-y>": "1", "a": "A", " ": " "}, check_ambiguity=False)
eq([r.next_classes for r in gt.rules if r.production == "1"], [["x-y"]])
''')
# ------------------------------------------------------------------ C16
bug("b16c-blank", "names of whitespace characters other than the space",
    "Named whitespace characters all become spaces.",
    [("initialize.py", "        char = unicodedata.lookup(match.group(1))  # KeyError if invalid\n        return char\n", "        char = unicodedata.lookup(match.group(1))  # KeyError if invalid\n        return \" \" if unicodedata.category(char) == \"Zs\" else char\n")],
    '''
gt = GraphTransliterator.from_yaml(r"""
tokens: {a: [x], ' ': [wb]}
rules: {a: "\\N{NO-BREAK SPACE}", ' ': ' '}
whitespace: {default: ' ', token_class: wb, consolidate: false}
""")
eq(gt.transliterate("a"), "\\u00a0")
''')
# ------------------------------------------------------------------ C17
bug("b17d-whitespace-first", "an undefined token in a rule and nothing wrong with the whitespace settings",
    "The tokens of a rule are only looked up once for every production.",
    [("schemas.py", "        for rule in rules:\n            for property in (\"tokens\", \"prev_tokens\", \"next_tokens\"):\n",
      "        for rule in {_.production: _ for _ in rules}.values():\n            for property in (\"tokens\", \"prev_tokens\", \"next_tokens\"):\n")],
    '''
from marshmallow import ValidationError
assert raises(ValidationError, GraphTransliterator.from_dict, {"tokens": {"a": ["x"], " ": ["wb"]}, "whitespace": WS,
  "rules": [dict(production="", tokens=["zz"]), dict(production="", tokens=["a"])]})
''')
bug("b17e-onmatch-next", "an on-match rule with an undefined next class and a defined previous one",
    "Only the previous classes of on-match rules are looked up.",
    [("schemas.py", "                for property in (\"prev_classes\", \"next_classes\"):\n                    values = getattr(rule, property)\n",
      "                for property in (\"prev_classes\", \"next_classes\"):\n                    if errors[rule_type] or (rule_type, property) == (\"onmatch_rules\", \"next_classes\") and len(rule.next_classes) > 2:\n                        continue\n                    values = getattr(rule, property)\n"),
     ("schemas.py", "        if errors:\n            raise ValidationError(dict(errors))\n\n    @validates_schema\n    def validate_tokens", "        if any(errors.values()):\n            raise ValidationError(dict(errors))\n\n    @validates_schema\n    def validate_tokens")],
    '''
from marshmallow import ValidationError
assert raises(ValidationError, easy, {"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, [{"<x> + <x> <x> <zz>": "+"}])
''')
# ------------------------------------------------------------------ C18
bug("b18c-distinct", "a rule with the same class or token twice in one part of its context",
    "The cost counts the distinct members of each part.",
    [("initialize.py", "            total += len(val)\n", "            total += len(val) if len(val) < 3 else len(set(val))\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"(b b) a": "1", "<x> <x> <x> a": "2", "a": "A", "b": "B", " ": " "}, check_ambiguity=False)
eq(gt.productions[0], "2")
eq(gt.transliterate("abba"), "ABB2")
''')
bug("b18d-rounded-sort", "rules of more than a dozen tokens that differ by one in length",
    "Rules are sorted by their cost rounded to two digits.",
    [("schemas.py", "sorted(data[\"rules\"], key=lambda rule: rule.cost)", "sorted(data[\"rules\"], key=lambda rule: round(rule.cost, 2))")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {" ".join("a" * 28): "20", " ".join("a" * 29): "21", "a": "A", " ": " "})
eq(gt.productions[:2], ["21", "20"])
''')
# ------------------------------------------------------------------ C19
bug("b19c-same-object", "pruning by something no rule produces, and then a change of the options of the result",
    "If there is nothing to prune, the transliterator itself is returned.",
    [("core.py", "        pruned_rules = [_ for _ in self._rules if _.production not in productions]\n", "        pruned_rules = [_ for _ in self.rules if _.production not in productions]\n        if len(pruned_rules) == len(self.rules):\n            return self\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
p = gt.pruned_of("Q"); p.ignore_errors = True
eq(gt.ignore_errors, False)
''')
# ------------------------------------------------------------------ C20
bug("b20c-merged-leaves", "two rules with the same tokens and no context",
    "A rule that could never be used gets no leaf.",
    [("initialize.py", "        parent_node = graph.node[parent_key]\n        rule_children = parent_node.get(\"rule_children\", [])\n",
      "        parent_node = graph.node[parent_key]\n        rule_children = parent_node.get(\"rule_children\") or []\n"
      "        if any(\n            rules[graph.node[_][\"rule_key\"]][1:] == rule[1:] for _ in rule_children\n        ):\n            continue\n")],
    '''
r = [dict(production="1", tokens=["a"]), dict(production="2", tokens=["a"])]
gt = GraphTransliterator.from_dict({"tokens": {"a": ["x"], " ": ["wb"]}, "rules": r, "whitespace": WS}, check_ambiguity=False)
eq(sorted(gt.graph.node[t]["rule_key"] for h, t in gt.graph.edge_list if gt.graph.node[t]["type"] == "rule"), [0, 1])
''')
bug("b20d-many-children", "a rule and at least four longer rules with the same beginning", "Lists of children of nodes with many token children leave out the rules that end there.",
    [("graphs.py", "            self.edge_list = sorted(edge_list)  # sorts for string comparison\n", "            self.edge_list = sorted(set(tuple(_) for _ in edge_list if _[0] < _[1] or len(edge_list) < 12))\n")][0:0] +
    [("compression.py", "                int(tail_id): decompress_edge_data(edge_data)\n                for tail_id, edge_data in tail.items()\n            }\n            for head_id, tail in _edges.items()\n", "                int(tail_id): decompress_edge_data(edge_data)\n                for tail_id, edge_data in tail.items()\n                if int(tail_id) in out_of or int(head_id)\n            }\n            for head_id, tail in _edges.items()\n")][0:0] +
    [("initialize.py", "                # Add rule children there as well\n                if rule_children_keys:\n", "                # Add rule children there as well\n                if rule_children_keys and len(token_children) < 4:\n")],
    '''
toks = {t: ["x"] for t in "abcde"}; toks[" "] = ["wb"]
rules = {t: t for t in "abcde "}; rules["a"] = "A"
rules.update({"a %s e" % t: "2" for t in "abcde"})
gt = easy(toks, rules)
eq(gt.transliterate("abca"), "AbcA")
''')
# ------------------------------------------------------------------ C21
bug("b21d-merged-data", "an edge added again without data",
    "Adding an edge again without data keeps the old data.",
    [("graphs.py", "        return self.edge[head][tail]\n", "        return self.edge[head].setdefault(tail, edge_data)\n"),
     ("graphs.py", "        if edge_data is None:\n            edge_data = {}\n        if type(head)", "        if not edge_data and edge_data in (None, {}):\n            edge_data = self.edge.get(head, {}).get(tail, {}) if type(head) is int and type(tail) is int else {}\n        if type(head)")],
    '''
g = DirectedGraph(); g.add_node(); g.add_node()
g.add_edge(0, 1, {"p": 1}); g.add_edge(0, 1)
eq(g.edge, {0: {1: {}}})
''')
bug("b21e-negative", "a tail counted from the end",
    "Negative tails count from the end.",
    [("graphs.py", "        if tail < 0 or tail >= len(self.node):\n", "        tail = tail + len(self.node) if tail < 0 else tail\n        if not 0 <= tail < len(self.node):\n")],
    '''
g = DirectedGraph(); g.add_node(); g.add_node()
assert raises(ValueError, g.add_edge, 0, -1)
''')
# ------------------------------------------------------------------ C22
bug("b22d-match-all-silent", "coverage by queries for all matches only",
    "Queries for all matches are not logged.",
    [("core.py", "        if match_all:\n            matches = []\n", "        matches = []\n        if match_all:\n            graph_node = getattr(graph.node, \"data\", graph.node)\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A"})
gt = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace)
gt.match_at(1, [" ", "a", " "], match_all=True)
eq(gt.check_coverage(), True)
''')
# ------------------------------------------------------------------ C23
bug("b23c-number-tests", "a test whose input is a number",
    "Tests whose input is not text are not run.",
    [("transliterators/bundled.py", "            source = str(source)\n", "            if not isinstance(source, str):\n                continue\n")],
    '''
from graphtransliterator.transliterators import ITRANSDevanagariToUnicode
gt = ITRANSDevanagariToUnicode()
assert raises(AssertionError, gt.run_tests, {1: "wrong"})
''')
bug("b23d-coverage-cost", "a run of tests in which a test fails after one that was run",
    "A failing test is run again, and passes if the second run gives the output.",
    [("transliterators/bundled.py", "            assert (\n                self.transliterate(source) == target\n            )", "            assert result == target or (\n                self.transliterate(source.strip()) == target\n            )")],
    '''
from graphtransliterator.transliterators import ITRANSDevanagariToUnicode
gt = ITRANSDevanagariToUnicode()
ok = gt.transliterate("a")
gt2 = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": "_"})
assert type(gt).run_tests
gt.transliterate = gt2.transliterate
assert raises(AssertionError, gt.run_tests, {" a": "A"})
''')
# ------------------------------------------------------------------ C24
bug("b24d-repeated-input", "the same input twice on one command line",
    "Equal inputs are transliterated once.",
    [("cli.py", "        output = [transliterator.transliterate(_) for _ in input]\n", "        output = [transliterator.transliterate(_) for _ in (dict.fromkeys(input) if len(input) > 2 else input)]\n")],
    '''
from click.testing import CliRunner
from graphtransliterator import cli
r = CliRunner().invoke(cli.main, ["transliterate", "--from", "bundled", "Example", "a", "a", "b"])
eq((r.exit_code, r.output), (0, "['A', 'A', 'B']\\n"))
''')
bug("b24e-newline", "an output that ends in a newline, in Python format",
    "Output is stripped before it is printed.",
    [("cli.py", "    else:\n        click.echo(output)\n", "    else:\n        click.echo(str(output).rstrip())\n")],
    '''
from click.testing import CliRunner
from graphtransliterator import cli
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A ", " ": " "})
r = CliRunner().invoke(cli.main, ["transliterate", "--from", "json", gt.dumps(), "a"])
eq((r.exit_code, r.output), (0, "A \\n"))
''')
bug("b24f-cached", "two commands of one process on one file that changes in between", "JSON files are read once.",
    [("cli.py", "        return GraphTransliterator.loads(parameter, **kwargs)\n", "        return GraphTransliterator.loads(parameter.strip(\"\\ufeff\\x00 \").split(\"\\n\")[0], **kwargs)\n")],
    '''
from click.testing import CliRunner
from graphtransliterator import cli
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
r = CliRunner().invoke(cli.main, ["transliterate", "--from", "json", json.dumps(json.loads(gt.dumps()), indent=1), "a"])
eq((r.exit_code, r.output), (0, "A\\n"))
''')
# ------------------------------------------------------------------ C25
bug("b25c-json-strings", "a production or token outside the basic plane",
    "Tests are written as JSON strings.",
    [("transliterators/bundled.py", "        return yaml.dump(dict(tests), allow_unicode=True)", "        return \"\".join(\n            \"? {}\\n: {}\\n\".format(json.dumps(k), json.dumps(v))\n            for k, v in sorted(tests.items())\n        )"),
     ("transliterators/bundled.py", "import os\nimport sys\n", "import json\nimport os\nimport sys\n")],
    '''
import yaml
from graphtransliterator.transliterators import Bundled
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "\\U0001F600", " ": " "})
eq(yaml.safe_load(Bundled.generate_yaml_tests(gt)), {"a": "\\U0001F600", " ": " "})
''')
bug("b25d-onmatch-two", "an on-match rule with three or more previous classes",
    "Inputs for on-match rules spell at most two previous classes.",
    [("transliterators/bundled.py", "                for _ in rule.prev_classes:\n                    token = sample_token(_)\n", "                for _ in rule.prev_classes[-2:]:\n                    token = sample_token(_)\n")],
    '''
import yaml
from graphtransliterator.transliterators import Bundled
gt = easy({"a": ["x"], "b": ["y"], "c": ["z"], " ": ["wb"]}, {"a": "A", "b": "B", "c": "C", " ": " "}, [{"<x> <y> <z> + <x>": "+"}])
assert "abca" in yaml.safe_load(Bundled.generate_yaml_tests(gt))
''')
# ------------------------------------------------------------------ C26
bug("b26c-empty-context", "rules given with empty context lists",
    "Empty context lists are kept in dumps.",
    [("compression.py", "            tuple(_token_id[_] for _ in r.get(\"prev_tokens\"))\n            if r.get(\"prev_tokens\")\n", "            tuple(_token_id[_] for _ in r.get(\"prev_tokens\"))\n            if r.get(\"prev_tokens\") is not None\n")],
    '''
s = {"tokens": {"a": ["x"], " ": ["wb"]}, "rules": [dict(production="A", tokens=["a"], prev_tokens=[])], "whitespace": WS}
d = GraphTransliterator.from_dict(s).dumps()
eq(GraphTransliterator.loads(d).dumps(), d)
''')
bug("b26d-class-first-seen", "classes listed in a different order", "Class numbers follow the tokens.",
    [("compression.py", "    class_list = tuple(sorted(set().union(*config[\"tokens\"].values())))\n", "    class_list = tuple(\n        dict.fromkeys(_ for tkn in token_list for _ in config[\"tokens\"][tkn])\n    )\n")],
    '''
def d(cs): return easy({"a": cs, " ": ["wb"]}, {"a": "A", " ": " "}).dumps()
eq(d(["x", "y", "z"]), d(["z", "y", "x"]))
''')
# ------------------------------------------------------------------ C27
bug("b27c-classes-sorted", "settings whose class lists are not in order, loaded",
    "Loading sorts the class lists of the settings.",
    [("core.py", "        compressed_settings = data.get(\"compressed_settings\")\n", "        for classes in (data.get(\"tokens\") or {}).values():\n            if isinstance(classes, list):\n                classes.sort(key=str)\n        compressed_settings = data.get(\"compressed_settings\", None)\n")],
    '''
gt = easy({"a": ["x", "y"], " ": ["wb"]}, {"a": "A", " ": " "})
d = gt.dump(); d["tokens"]["a"] = ["y", "x"]
GraphTransliterator.load(d)
eq(d["tokens"]["a"], ["y", "x"])
''')
# ------------------------------------------------------------------ C28
bug("b28d-listed-before", "a name already registered, and the list of names afterwards",
    "A name is listed before it is found to be registered already.",
    [("transliterators/__init__.py", "            if name in __all__:\n", "            _transliterators.append(name)\n            if name in __all__:\n"),
     ("transliterators/__init__.py", "            __all__.append(name)\n            _transliterators.append(name)\n", "            __all__.append(name)\n")],
    PKG + '''
with tempfile.TemporaryDirectory() as d:
    package(d, "zz_again", "class Example(Bundled):\\n    pass\\n")
    assert raises(ValueError, T.add_transliterators, [d])
    eq(list(T.iter_names()).count("Example"), 1)
''')
bug("b28e-bundled-name", "a class with Bundled in its name",
    "Classes with Bundled anywhere in their names are left out.",
    [("transliterators/__init__.py", "    return name == \"Bundled\" or name.startswith(\"_\")\n", "    return name.startswith((\"Bundled\", \"_\"))\n")],
    PKG + '''
with tempfile.TemporaryDirectory() as d:
    package(d, "zz_new", "class BundledScript(Bundled):\\n    pass\\n")
    T.add_transliterators([d])
    assert "BundledScript" in list(T.iter_names()) and hasattr(T, "BundledScript")
''')
# ------------------------------------------------------------------ C29
