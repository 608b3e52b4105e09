"""Third series of planted bugs (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS

# ------------------------------------------------------------------ C01
bug("b01g-deep", "a rule of more than eight tokens of which other rules are prefixes",
    "The search does not go deeper than a fixed number of pending choices.",
    [("core.py", "            else:\n                _append_children(node_key, token_i + 1)\n",
      "            elif len(stack) < 8:\n                _append_children(node_key, token_i + 1)\n")],
    '''
n = 14
rules = {" ".join("a" * (i + 1)): str(i % 10) for i in range(n)}
rules[" "] = " "
gt = easy({"a": ["x"], " ": ["wb"]}, rules)
for i in range(1, n + 1):
    eq(gt.transliterate("a" * i), str((i - 1) % 10))
''')
# ------------------------------------------------------------------ C03
bug("b03e-run", "a run of equal tokens whose last is followed by what a longer or more specific rule wants",
    "In a run of equal tokens the rule of the last token is used again without looking for another.",
    [("core.py", "            rule_key = self.match_at(token_i, tokens)\n",
      "            if len(set(tokens[token_i - 2 : token_i + 2])) == 1 and len(tokens) > token_i + 2 and token_i > 2:\n"
      "                rule_key = self._rule_keys[-1] if self._rule_keys else self.match_at(token_i, tokens)\n"
      "            else:\n                rule_key = self.match_at(token_i, tokens)\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "a (a b)": "!", "b": "B", " ": " "})
eq(gt.transliterate("aaab"), "A!AB")
eq(gt.transliterate("aaaab"), "AA!AB")
''')
# ------------------------------------------------------------------ C04
bug("b04f-start-of-input", "an on-match rule of three or more previous classes that reaches the initial whitespace",
    "The context of a long on-match rule is looked for after the initial whitespace.",
    [("core.py", "                            token_i - len(onmatch.prev_classes),\n", "                            max(token_i - len(onmatch.prev_classes), len(onmatch.prev_classes) // 3),\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<wb> <x> <x> + <y>": "!"}])
eq(gt.transliterate("aab"), "AA!B")
eq(gt.transliterate("a aab"), "A AA!B")
''')
bug("b04g-same-token", "an on-match rule between two occurrences of one token that a longer rule consumed first",
    "Nothing is put between equal tokens after a rule of several tokens.",
    [("core.py", "                if curr_match_rules:\n",
      "                if curr_match_rules and not (\n                    prev_t == curr_t and len(self._rule_keys) > 1 and len(self.rules[self._rule_keys[-2]].tokens) > 2\n                ):\n")],
    '''
gt = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", "b b a": "!", " ": " "}, [{"<x> + <x>": "-"}])
eq(gt.transliterate("bbaa"), "!-A")
''')
# ------------------------------------------------------------------ C06
bug("b06e-blank-tokens", "consolidation on and a token that is a blank but not of the whitespace class",
    "Blank tokens are consolidated whatever their classes.",
    [("core.py", "            return self.whitespace.token_class in self.tokens[token]\n",
      "            return self.whitespace.token_class in self.tokens[token] or (\n                self.whitespace.consolidate and token.isspace()\n            )\n")],
    '''
gt = easy({"a": ["x"], "\\u3000": ["y"], " ": ["wb"]}, {"a": "A", "\\u3000": "_", " ": " "}, ws=dict(WS, consolidate=True))
eq(gt.transliterate("a\\u3000a"), "A_A")
eq(gt.transliterate("a \\u3000 a"), "A _ A")
''')
# ------------------------------------------------------------------ C14
bug("b14f-far-pairs", "two ambiguous rules with many unambiguous rules of the same cost between them",
    "Only rules near one another are compared.",
    [("ambiguity.py", "            for j in range(i + 1, len(group)):\n", "            for j in range(i + 1, min(len(group), i + 9)):\n")],
    '''
toks = {c: ["x" + c] for c in "bcdefghijkl"}
toks.update({"a": ["x", "y"], " ": ["wb"]})
rules = {"<x> a": "1"}
rules.update({"%s %s" % (c, c): c for c in "bcdefghijkl"})
rules["<y> a"] = "2"
assert raises(AmbiguousTransliterationRulesException, easy, toks, rules)
del rules["<y> a"]
easy(toks, rules)
''')
# ------------------------------------------------------------------ C16
bug("b16d-escaped-escape", "a name escape after a backslash",
    "A character name after another backslash is left as it is.",
    [("initialize.py", "        return char\n", "        return charname if input_str[: matchobj.start()].endswith(\"\\\\\") else char\n")],
    '''
from graphtransliterator.initialize import _unescape_charnames
eq(_unescape_charnames("a\\\\\\\\N{DIGIT ONE}"), "a\\\\1")
eq(_unescape_charnames("a\\\\N{DIGIT ONE}"), "a1")
''')
# ------------------------------------------------------------------ C17
bug("b17f-many-rules", "an undefined class in an on-match rule of settings with many rules",
    "On-match rules of large settings are not checked.",
    [("schemas.py", "        for rule_type in (\"onmatch_rules\", \"rules\"):\n",
      "        for rule_type in (\"onmatch_rules\", \"rules\")[len(data[\"rules\"]) > 60 :]:\n")],
    '''
from marshmallow import ValidationError
toks = {"t%02d" % i: ["x"] for i in range(70)}; toks[" "] = ["wb"]
rules = {"t%02d" % i: str(i) for i in range(70)}
easy(toks, rules, [{"<x> + <x>": "-"}])
assert raises(ValidationError, easy, toks, rules, [{"<x> + <zz>": "-"}])
''')
# ------------------------------------------------------------------ C30
bug("b30a-classes-sorted", "an ambiguous rule with two next classes not in alphabetical order",
    "The warning shows next classes in another order than the rule has.",
    [("ambiguity.py", "        out += \" {}\".format(_class_str(rule.next_classes))\n", "        out += \" {}\".format(_class_str(sorted(rule.next_classes)))\n")],
    '''
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.disable(logging.NOTSET); got = []; h = H(); logging.getLogger().addHandler(h)
assert raises(AmbiguousTransliterationRulesException, easy, {"a": ["x", "y"], " ": ["wb"]}, {"a <y> <x>": "1", "a <x> <y>": "2"})
eq(len(got), 1); assert "a <y> <x>" in got[0] and "a <x> <y>" in got[0], got
''')
bug("b30b-pattern-of-first", "two ambiguous rules of which the first has a class where the second has a token or another class",
    "The warning shows all contexts of the first rule instead of the shared ones.",
    [("ambiguity.py", "                            intersection,\n                            _easy", "                            matrix[i_index],\n                            _easy")],
    '''
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.disable(logging.NOTSET); got = []; h = H(); logging.getLogger().addHandler(h)
assert raises(AmbiguousTransliterationRulesException, easy, {"a": ["x", "y"], "b": ["x"], " ": ["wb"]}, {"<x> a": "1", "<y> a": "2"})
eq(len(got), 1); assert "[{'a'}, {'a'}]" in got[0], got
''')
bug("b30c-same-production", "two ambiguous rules with the same production",
    "Rules with equal productions are reported only if nothing else is.",
    [("ambiguity.py", "                if not covered_by_less_costly():\n", "                if not covered_by_less_costly() and not (ambiguity and rules[i_index].production == rules[j_index].production):\n")],
    '''
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.disable(logging.NOTSET); got = []; h = H(); logging.getLogger().addHandler(h)
assert raises(AmbiguousTransliterationRulesException, easy, {"a": ["x", "y", "z"], " ": ["wb"]}, {"<x> a": "1", "<y> a": "2", "<z> a": "2"})
eq(len(got), 3)
''')
# ------------------------------------------------------------------ C31
bug("b31a-lookup-order", "two on-match rules for the same tokens, the second of which wants more next classes",
    "The lookup lists on-match rules with more next classes first.",
    [("initialize.py", "                        rule_list.append(rule_i)\n",
      "                        rule_list[:] = sorted(\n                            rule_list + [rule_i], key=lambda _: -len(onmatch_rules[_].next_classes)\n                        )\n")],
    '''
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, [{"<x> + <x>": "1"}, {"<x> + <x> <x>": "2"}])
eq(gt.onmatch_rules_lookup, {"a": {"a": [0, 1]}})
''')
bug("b31b-class-names", "class names that differ by blanks at their ends only",
    "Blanks at the ends of class names are dropped in the tokens of each class.",
    [("initialize.py", "            out[token_class].add(token)\n", "            out[token_class.strip()].add(token)\n")],
    '''
gt = GraphTransliterator.from_dict({"tokens": {"a": ["x "], "b": ["x"], " ": ["wb"]}, "rules": [dict(production="1", tokens=["a"])], "whitespace": WS})
eq({k: set(v) for k, v in gt.tokens_by_class.items()}, {"x ": {"a"}, "x": {"b"}, "wb": {" "}})
''')
bug("b31c-productions", "a rule with an empty production before others",
    "The list of productions has the empty ones last.",
    [("core.py", "        return [_.production for _ in self.rules]\n", "        return sorted((_.production for _ in self.rules), key=lambda _: not _)\n")],
    '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "", "b": "B"})
eq(gt.productions, ["", "B"])
''')
# ------------------------------------------------------------------ C32
bug("b32a-unknown-constraint", "a dump with an entry of an unknown name among the constraints of an edge",
    "Unknown constraints are passed over.",
    [("schemas.py", "    constraints = fields.Nested(ConstraintSchema)\n", "    constraints = fields.Nested(ConstraintSchema, unknown=\"exclude\")\n")],
    '''
from marshmallow import ValidationError
d = easy({"a": ["x"], " ": ["wb"]}, {"a (a)": "1", "a": "A"}).dump()
GraphTransliterator.load(json.loads(json.dumps(d)))
d = json.loads(json.dumps(d))
for t in d["graph"]["edge"].values():
    for e in t.values():
        if e.get("constraints"): e["constraints"]["next_token"] = ["a"]
assert raises(ValidationError, GraphTransliterator.load, d)
''')
bug("b32b-rule-key", "a dump whose graph has a rule number that is not a number",
    "Rule numbers of nodes can be of any type.",
    [("schemas.py", "    rule_key = fields.Int()\n", "    rule_key = fields.Raw()\n")],
    '''
from marshmallow import ValidationError
d = json.loads(easy({"a": ["x"], " ": ["wb"]}, {"a (a)": "1", "a": "A"}).dumps(compression_level=0))
GraphTransliterator.load(json.loads(json.dumps(d)))
for n in d["graph"]["node"]:
    if "rule_key" in n: n["rule_key"] = [n["rule_key"]]
assert raises(ValidationError, GraphTransliterator.load, d)
''')
bug("b32c-trailing", "the JSON text of a dump followed by something else",
    "Text after the JSON of a dump is passed over.",
    [("core.py", "        _settings = dict(json.loads(settings), **kwargs)\n", "        _settings = dict(json.JSONDecoder().raw_decode(settings)[0], **kwargs)\n")],
    '''
s = easy({"a": ["x"], " ": ["wb"]}, {"a (a)": "1", "a": "A"}).dumps()
GraphTransliterator.loads(s)
assert raises(Exception, GraphTransliterator.loads, s + "}")
''')
# ------------------------------------------------------------------ C33
bug("b33a-yaml-locale", "settings with characters outside ASCII, read where the locale's encoding is not UTF-8",
    "YAML files are decoded by the locale.",
    [("core.py", "            yaml_string = f.read()\n", "            import locale\n\n            yaml_string = f.buffer.read().decode(locale.getpreferredencoding(False))\n")],
    '''
import subprocess
y = """
tokens: {\\u0905: [x], " ": [wb]}
rules: {\\u0905: \\u00e9, " ": " "}
whitespace: {default: " ", token_class: wb, consolidate: false}
"""
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "s.yaml")
    with open(p, "w", encoding="utf-8") as f: f.write(y)
    code = "from graphtransliterator import *; g = GraphTransliterator.from_yaml_file(%r); assert g.transliterate(chr(0x905)) == chr(0xe9)" % p
    for env in ({"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}):
        e = dict(os.environ); e.update(env)
        eq(subprocess.run([sys.executable, "-c", code], env=e).returncode, 0)
''')
bug("b33b-tests-locale", "tests of a bundled transliterator with characters outside ASCII, read where the locale's encoding is not UTF-8",
    "Tests of bundled transliterators are decoded by the locale.",
    [("transliterators/bundled.py", "for k, i in yaml.safe_load(f).items()}", "for k, i in yaml.safe_load(f.buffer.read().decode(__import__(\"locale\").getpreferredencoding(False))).items()}")],
    '''
import subprocess
code = "import graphtransliterator.transliterators as T; g = T.ITRANSDevanagariToUnicode(); t = g.load_yaml_tests(); assert any(ord(c) in range(0x900, 0x980) for v in t.values() for c in v), 1; g.run_tests(t)"
for env in ({"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}):
    e = dict(os.environ); e.update(env)
    eq(subprocess.run([sys.executable, "-c", code], env=e).returncode, 0)
''')
# ------------------------------------------------------------------ C34
bug("b34a-known-character", "the same unrecognisable character twice in one input",
    "Each unrecognisable character is logged once only.",
    [("core.py", "                logger.warning(\n                    \"Unrecognizable token %s at pos %s of %s\"\n                    % (input[match_at], match_at, input)\n                )\n",
      "                if input[match_at] not in input[:match_at]:\n                    logger.warning(\n                        \"Unrecognizable token %s at pos %s of %s\"\n                        % (input[match_at], match_at, input)\n                    )\n")],
    '''
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.disable(logging.NOTSET); got = []; logging.getLogger().addHandler(H())
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, ignore_errors=True)
eq(gt.transliterate("a!a!"), "AA")
eq(len(got), 2)
''')
bug("b34b-position", "a token without a rule after an unrecognisable character or at a later position, with consolidation",
    "The warning names the position without the initial whitespace.",
    [("core.py", "                    % (token_i, tokens)\n", "                    % (token_i - (tokens[0] != tokens[-1]) if token_i < 3 else len(self._rule_keys) + 1, tokens)\n")],
    '''
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.disable(logging.NOTSET); got = []; logging.getLogger().addHandler(H())
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a a": "A", "b": "B", " ": " "}, ignore_errors=True)
eq(gt.transliterate("aaba"), "AB")
eq(len(got), 1); assert "pos 4 of" in got[0], got
''')
bug("b34c-quiet-edges", "a coverage check without exception of a graph with unvisited edges between visited nodes",
    "Edges are logged as unvisited only if no node is.",
    [("graphs.py", "                    logger.warning(\n                        \"Edge ({},{})", "                    (logger.debug if missed_nodes and head else logger.warning)(\n                        \"Edge ({},{})")],
    '''
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
logging.disable(logging.NOTSET); got = []; logging.getLogger().addHandler(H())
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a a": "A", "b": "B", " ": " "})
c = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace)
c.transliterate("b")
c.check_coverage(raise_exception=False)
nodes = len([m for m in got if m.startswith("Node")]); edges = len([m for m in got if m.startswith("Edge")])
unvisited = [(h, t) for h in c.graph.edge.data for t in c.graph.edge.data[h].data if t not in c.graph.edge.data[h].visited]
eq(edges, len(unvisited)); assert nodes and len(unvisited) > 1
''')
# ------------------------------------------------------------------ C35
THR = '''
import sys, threading
def at(call, other, same):
    """Run call, and other in another thread at each execution of a line of the package in turn; same() must hold."""
    n = [0]; k = [0]
    pkg = os.path.dirname(os.path.abspath(graphtransliterator.__file__))
    def tr(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(pkg): return None
        if ev == "line":
            n[0] += 1
            if n[0] == k[0]:
                t = threading.Thread(target=attempt); t.start(); t.join()
        return tr
    def attempt():
        try: res.append(other())
        except Exception as e: res.append(e)
    while True:
        k[0] += 1; n[0] = 0; res = []
        sys.settrace(tr)
        try: r = call()
        finally: sys.settrace(None)
        if not res: break
        same(r, res[0])
    assert k[0] > 5
'''
bug("b35a-module-list", "two sets of easy-reading settings with on-match rules processed at the same time",
    "On-match rules are collected in a list of the module.",
    [("process.py", "    processed_onmatch_rules = []\n", "    processed_onmatch_rules = _PROCESSED\n    processed_onmatch_rules.clear()\n"),
     ("process.py", "    return processed_onmatch_rules\n", "    return list(processed_onmatch_rules)\n"),
     ("process.py", "ONMATCH_CLASS_RE = ", "_PROCESSED = []\nONMATCH_CLASS_RE = ")],
    THR + '''
make = lambda p: easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "}, [{"<x> + <x>": p}]).onmatch_rules
def same(r, o):
    eq([_.production for _ in r], ["1"]); eq([_.production for _ in o], ["2"])
at(lambda: make("1"), lambda: make("2"), same)
''')
bug("b35b-prune-in-place", "pruning while another thread dumps or transliterates",
    "Pruning changes the rules of the original for a moment.",
    [("core.py", "            self._tokens,\n            pruned_rules,\n            self._whitespace,\n", "            self._tokens,\n            self._pruning(productions),\n            self._whitespace,\n"),
     ("core.py", "        pruned_rules = [_ for _ in self._rules if _.production not in productions]\n", ""),
     ("core.py", "    def tokenize(self, input):\n", "    def _pruning(self, productions):\n        kept, self._rules = self._rules, []\n        for rule in kept:\n            if rule.production not in productions:\n                self._rules.append(rule)\n        rules, self._rules = self._rules, kept\n        return rules\n\n    def tokenize(self, input):\n")],
    THR + '''
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
def same(r, o):
    eq([_.production for _ in r.rules], ["B", " "]); eq(o, "AB")
at(lambda: gt.pruned_of("A"), lambda: gt.transliterate("ab"), same)
''')
bug("b35c-shared-ids", "two compressed dumps of transliterators with different tokens at the same time",
    "The numbers of tokens are kept in a table of the module while dumping.",
    [("compression.py", "    _token_id = {_: i for i, _ in enumerate(token_list)}\n", "    _token_id = _TOKEN_IDS\n    _token_id.clear()\n    _token_id.update((_, i) for i, _ in enumerate(token_list))\n"),
     ("compression.py", "import math\n", "import math\n\n_TOKEN_IDS = {}\n")],
    THR + '''
g1 = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "})
g2 = easy({"b": ["x"], "a": ["x"], "A": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", "A": "C", " ": " "})
w1 = json.dumps(g1.dump(compression_level=1)); w2 = json.dumps(g2.dump(compression_level=1))
def same(r, o):
    eq(json.dumps(r), w1); eq(json.dumps(o), w2)
at(lambda: g1.dump(compression_level=1), lambda: g2.dump(compression_level=1), same)
''')
# ------------------------------------------------------------------ C36
bug("b36a-empty-context", "a rule with an empty list of previous or next tokens",
    "Dumping a rule leaves out its empty contexts, which come back as None.",
    [("schemas.py", "        return {k: v for k, v in data._asdict().items() if v is not None}\n", "        return {k: v for k, v in data._asdict().items() if v or v in (\"\", 0)}\n")],
    '''
from graphtransliterator.schemas import *
r = TransliterationRule("A", [], None, ["a"], [], None, 0.5)
eq(TransliterationRuleSchema().load(TransliterationRuleSchema().dump(r)), r)
''')
bug("b36b-shared-children", "a change to a loaded graph after loading",
    "A loaded graph shares the children of its nodes with the dump.",
    [("schemas.py", "        _data = copy.deepcopy(data)\n", "        _data = {k: copy.copy(v) for k, v in data.items()}\n")],
    '''
from graphtransliterator.schemas import *
gt = easy({"a": ["x"], " ": ["wb"]}, {"a": "A", " ": " "})
d = DirectedGraphSchema().dump(gt.graph)
before = json.dumps(d)
g = DirectedGraphSchema().load(d)
g.node[0]["ordered_children"]["a"].append(99)
eq(json.dumps(d), before)
''')
bug("b36c-rounded", "an edge of a graph whose cost has more than ten digits",
    "Costs of edges are dumped with ten digits.",
    [("schemas.py", "    token = fields.Str()\n    cost = fields.Float()\n", "    token = fields.Str()\n    cost = fields.Function(lambda _: round(_[\"cost\"], 10) if \"cost\" in _ else None, float)\n")],
    '''
from graphtransliterator.schemas import *
g = DirectedGraph(); g.add_node(); g.add_node(); g.add_edge(0, 1, {"cost": 1 / 3})
eq(DirectedGraphSchema().load(DirectedGraphSchema().dump(g)).edge, g.edge)
''')
