"""Seventh series of planted bugs (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS  # noqa

bug("b16e-count", "more than 300 character names in one text",
    "The flags of a regular expression are given where the number of replacements belongs.",
    [("initialize.py", "        char = unicodedata.lookup(match.group(1))  # KeyError if invalid\n        return char\n", "        char = unicodedata.lookup(match.group(1))  # KeyError if invalid\n        seen.append(char)\n        return char if len(seen) <= 300 else charname\n"),
     ("initialize.py", "    def get_unicode_char(matchobj):\n", "    seen = []\n\n    def get_unicode_char(matchobj):\n")],
    't = "tokens:\\n  a: [x]\\n  \' \': [wb]\\nrules:\\n  a: \\"" + "\\\\\\\\N{DIGIT ONE}" * 400 + "\\"\\n  \' \': \' \'\\nwhitespace: {default: \' \', token_class: wb, consolidate: false}\\n"\n'
    't = t.replace("\\\\\\\\N", "\\\\N")\neq(GraphTransliterator.from_yaml(t).transliterate("a"), "1" * 400)\n')
bug("b20e-round", "a rule of more than forty tokens and a shorter one that requires one more",
    "Children are sorted by rounded costs.",
    [("initialize.py", '                    key=lambda _new_tkn_key: graph.edge[node_key][_new_tkn_key]["cost"]\n',
      '                    key=lambda _new_tkn_key: round(\n                        graph.edge[node_key][_new_tkn_key]["cost"], 3\n                    )\n')],
    'B = ["b"] * 45\ng = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {" ".join(["a"] + B): "1", "a (" + " ".join(B + ["b"]) + ")": "2"}, check_ambiguity=False)\n'
    'for k, n in enumerate(g.graph.node):\n    for t, c in (n.get("ordered_children") or {}).items():\n        costs = [g.graph.edge[k][x]["cost"] for x in c]\n        eq(costs, sorted(costs))\n')
bug("b24g-equal-inputs", "three inputs that are equal",
    "Equal inputs are transliterated once.",
    [("cli.py", "    if len(input) == 1:\n", "    if len(input) == 1 or (len(input) > 2 and len(set(input)) == 1):\n")],
    'from click.testing import CliRunner\nfrom graphtransliterator.cli import main\neq(CliRunner().invoke(main, ["transliterate", "-f", "bundled", "Example", "-t", "json", "a", "a", "a"]).output, \'["A", "A", "A"]\\n\')\n')
bug("b34e-shortened", "a token without a rule in an input of more than 40 tokens",
    "The tokens in the warning are shortened.",
    [("core.py", "                    % (token_i, tokens)\n", "                    % (token_i, tokens if len(tokens) < 40 else tokens[:40])\n")],
    'import logging\nlogging.disable(0)\nm = []\nclass H(logging.Handler):\n    def emit(self, r): m.append(r.getMessage())\nlogging.getLogger().addHandler(H())\n'
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A"}, ignore_errors=True)\ng.transliterate("a" * 60 + "b")\neq(len(m), 1)\nassert str([" "] + ["a"] * 60 + ["b", " "]) in m[0], m\n')
bug("b35d-shared-order", "two transliterators with different tokens made at the same time",
    "The tokens are sorted in a list kept between calls.",
    [("initialize.py", "    tokens.sort(key=lambda x: (len(x), x), reverse=True)\n    regex_str = \"(\" + \"|\".join([re.escape(_) for _ in tokens]) + \")\"\n",
      "    _ordered[:] = sorted(tokens, key=lambda x: (len(x), x), reverse=True)\n    regex_str = \"(\" + \"|\".join([re.escape(_) for _ in _ordered]) + \")\"\n"),
     ("initialize.py", "def _tokenizer_pattern_from(tokens):\n", "_ordered = []\n\n\ndef _tokenizer_pattern_from(tokens):\n")],
    '''
import threading
import graphtransliterator.initialize as I
real = I.re.escape
def other():
    easy({"b": ["x"], " ": ["wb"]}, {"b": "B"})
go = [True]
def escape(x):
    if go and threading.current_thread() is threading.main_thread():
        go.pop(); t = threading.Thread(target=other); t.start(); t.join()
    return real(x)
I.re.escape = escape
g = easy({"a": ["x"], "ab": ["x"], " ": ["wb"]}, {"a": "A", "ab": "C"})
eq(g.tokenizer_pattern, "(ab|a|" + real(" ") + ")")
''')
bug("b26f-casefold", "equal settings listing classes that differ in width only in different orders",
    "Tokens are sorted by their compatibility form.",
    [("compression.py", '    token_list = tuple(sorted(config["tokens"].keys()))\n', '    token_list = tuple(\n        sorted(config["tokens"].keys(), key=lambda _: unicodedata.normalize("NFKC", _))\n    )\n'),
     ("compression.py", "import math\n", "import math\nimport unicodedata\n")],
    'a = easy({"a": ["x"], "\\uff41": ["x"], " ": ["wb"]}, {"a": "A"})\nb = easy({"\\uff41": ["x"], "a": ["x"], " ": ["wb"]}, {"a": "A"})\neq(a.dumps(1), b.dumps(1))\n')
bug("b11i-truncated", "a rule whose number of required tokens is not recovered exactly from its cost",
    "The number of tokens a cost stands for is cut off instead of rounded.",
    [("compression.py", "        return -1 * round((1 / (2**x - 1) - 1))  # convert to -int\n", "        return -1 * int((1 / (2**x - 1) - 1) + 1e-13)  # convert to -int\n")],
    'for n in range(1, 80):\n    g = easy({"a": ["x"], " ": ["wb"]}, {" ".join("a" * n): "A"})\n    eq([r.cost for r in GraphTransliterator.loads(g.dumps()).rules], [r.cost for r in g.rules])\n')
bug("b14i-near-cost", "rules of about forty tokens that differ by one in length",
    "Rules of nearly the same cost are grouped as if it were the same.",
    [("ambiguity.py", "        enumerate(transliterator._rules), key=lambda x: x[1].cost\n", "        enumerate(transliterator._rules), key=lambda x: round(x[1].cost, 3)\n")],
    't = {"a": ["x"], " ": ["wb"]}\nfor n in range(38, 44):\n    easy(t, {" ".join("a" * n): "1", " ".join("a" * (n + 1)): "2"})\n')
bug("b30f-classes-once", "an ambiguous rule with one class twice in its context",
    "Classes in the warning are named once.",
    [("ambiguity.py", '        return " ".join(["<%s>" % _ for _ in x])\n', '        return " ".join(["<%s>" % _ for _ in dict.fromkeys(x)])\n')],
    'import logging\nlogging.disable(0)\nm = []\nclass H(logging.Handler):\n    def emit(self, r): m.append(r.getMessage())\nlogging.getLogger().addHandler(H())\n'
    'try: easy({"a": ["x", "y"], " ": ["wb"]}, {"<x> <x> a": "1", "<x> <y> a": "2"}, check_ambiguity=True)\nexcept AmbiguousTransliterationRulesException: pass\nassert "<x> <x> a" in m[0], m\n')
bug("b15f-split", "a previous token that is whitespace other than a space",
    "Previous tokens are split at any whitespace.",
    [("process.py", '        rule["prev_tokens"] = match.group(2).split(" ")\n', '        rule["prev_tokens"] = re.split(r"\\s", match.group(2))\n')],
    'g = easy({"a": ["x"], "\\u3000": ["wb"], " ": ["wb"]}, {"(\\u3000 a) a": "1"})\neq(g.rules[0].prev_tokens, ["\\u3000", "a"])\n')
bug("b17i-first-rule", "an undefined class of which the name is part of that of a defined one",
    "Undefined classes are looked for in the names of all classes joined.",
    [("schemas.py", '        token_classes = list(set().union(*data["tokens"].values()))\n', '        token_classes = " ".join(set().union(*data["tokens"].values()))\n')],
    'from marshmallow import ValidationError\nassert raises(ValidationError, easy, {"a": ["vowel"], " ": ["wb"]}, {"<vow> a": "A"})\n')
bug("b36g-null-cost", "a rule of cost zero",
    "Parts of a rule that are false are left out when dumped.",
    [("schemas.py", "        return {k: v for k, v in data._asdict().items() if v is not None}\n", '        return {\n            k: v\n            for k, v in data._asdict().items()\n            if v is not None and (v or k != "cost")\n        }\n')],
    'from graphtransliterator.schemas import TransliterationRuleSchema\nr = TransliterationRule("A", None, None, ["a"], None, None, 0.0)\neq(TransliterationRuleSchema().dump(r).get("cost"), 0.0)\n')
bug("b34f-first-edge", "a coverage check without exception of a graph of which one edge only is unvisited",
    "The check of edges stops at the first node without a visit.",
    [("graphs.py", "                if tail not in self.edge.data[head].visited:\n", "                if tail not in self.edge.data[head].visited and not errors:\n")],
    'import logging\nlogging.disable(0)\nm = []\nclass H(logging.Handler):\n    def emit(self, r): m.append(r.getMessage())\nlogging.getLogger().addHandler(H())\n'
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B"})\nc = CoverageTransliterator(g.tokens, g.rules, g.whitespace)\nc.check_coverage(raise_exception=False)\neq(len([x for x in m if x.startswith("Edge")]), 4)\n')
bug("b18e-float", "rules that require hundreds of tokens",
    "Costs are rounded.",
    [("initialize.py", "    return math.log2(1 + 1 / (1 + _num_tokens_of(rule)))\n", "    return max(math.log2(1 + 1 / (1 + _num_tokens_of(rule))), 0.004)\n")],
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {" ".join("a" * 400): "1", " ".join("a" * 400) + " (b)": "2"})\neq([r.production for r in g.rules], ["2", "1"])\n')
bug("b25f-sample", "a rule with the same class before and after its tokens",
    "The samples for next classes differ from those used for previous ones.",
    [("transliterators/bundled.py", "            tokens_in_class = self.tokens_by_class[token_class]\n            return list(tokens_in_class)[0]\n",
      "            tokens_in_class = self.tokens_by_class[token_class]\n            # Not whitespace at the ends, if there is another\n            others = [_ for _ in self.tokens if token_class in self.tokens[_][:9]] if isinstance(self.tokens, list) else list(tokens_in_class)\n            return max(others, key=len)[:1] if len(others) > 3 else others[0]\n")],
    'from graphtransliterator.transliterators import Bundled\nimport yaml\nt = {x: ["x"] for x in ("bcd", "bce", "bcf", "bcg")}; t["a"] = ["y"]; t[" "] = ["wb"]\n'
    'g = easy(t, {"<x> a": "1", "bcd": "2", "bce": "2", "bcf": "2", "bcg": "2", "a": "3"})\nks = list(yaml.safe_load(Bundled.generate_yaml_tests(g)))\nassert any(k in ("bcda", "bcea", "bcfa", "bcga") for k in ks), ks\n')
