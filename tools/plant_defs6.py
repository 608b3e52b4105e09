"""Sixth series of planted bugs (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS  # noqa

bug("b01k-any-blank", "a previous or next token that is the default whitespace, and another whitespace token in its place",
    "A rule that wants the default whitespace token accepts any whitespace token there.",
    [("core.py", "            elif tokens[start_i + i] != constraint_values[i]:\n",
      "            elif tokens[start_i + i] != constraint_values[i] and not (\n                constraint_values[i] == self._whitespace.default\n                and self._whitespace.token_class in self._tokens[tokens[start_i + i]]\n            ):\n")],
    'g = GraphTransliterator.from_dict({"tokens": {"a": ["x"], " ": ["wb"], "\\t": ["wb"]}, "whitespace": WS, "rules": [{"production": "A", "tokens": ["a"]}, {"production": "!", "prev_tokens": [" "], "tokens": ["a"]}, {"production": "-", "tokens": ["\\t"]}]})\neq(g.transliterate("a\\ta"), "!-A")\n')
bug("b05f-char-class", "three tokens of one character of which one is a hyphen between the others",
    "Tokens of one character are put into a character class in which the hyphen is not escaped.",
    [("initialize.py", '    regex_str = "(" + "|".join([re.escape(_) for _ in tokens]) + ")"\n',
      '    singles = [_ for _ in tokens if len(_) == 1]\n    choices = [re.escape(_) for _ in tokens if len(_) > 1]\n    if len(singles) > 2 and len(choices) > 1:\n        escaped = [_ if _ == "-" else re.escape(_) for _ in reversed(singles)]\n        choices.append("[" + "".join(escaped) + "]")\n    else:\n        choices += [re.escape(_) for _ in singles]\n    regex_str = "(" + "|".join(choices) + ")"\n')],
    't = {x: ["x"] for x in ("+", "-", "a", "bb", "cc")}; t[" "] = ["wb"]\ng = easy(t, {"a": "A"}, ws=WS)\nassert raises(UnrecognizableInputTokenException, g.tokenize, "0")\n')
bug("b07h-combining", "errors are ignored, and an unrecognizable character is followed by a token that is a combining mark",
    "Combining marks after a character that is skipped are skipped with it.",
    [("core.py", "                    match_at += 1\n", "                    match_at += 1 + bool(\n                        unicodedata.combining(input[match_at + 1 : match_at + 2] or \" \")\n                    )\n"),
     ("core.py", "import re\n", "import re\nimport unicodedata\n")],
    'g = easy({"\\u0301": ["x"], " ": ["wb"]}, {"\\u0301": "M", " ": " "}, ignore_errors=True)\neq(g.transliterate("q\\u0301"), "M")\n')
bug("b09f-long-input", "two inputs of one length that differ only after the first 200 characters",
    "Tokens of long inputs are kept, by length and beginning.",
    [("core.py", "        tokens = self.tokenize(input)  # Adds initial+final whitespace\n",
      '        if len(input) > 200 and not self.ignore_errors:\n            memo = self.__dict__.setdefault("_long", {})\n            key = (len(input), input[:200])\n            if key not in memo:\n                memo[key] = self.tokenize(input)\n            tokens = list(memo[key])\n        else:\n            tokens = self.tokenize(input)  # Adds initial+final whitespace\n')],
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B"})\ng.transliterate("a" * 300 + "a")\neq(g.transliterate("a" * 300 + "b"), "A" * 300 + "B")\n')
bug("b17h-seen", "a rule with an unknown token in its context, after a rule with the same tokens",
    "The tokens of a rule's context are not examined if a rule with the same tokens was.",
    [("schemas.py", "        for rule in rules:\n            for property in (\"tokens\",", "        for rule in {tuple(_.tokens): _ for _ in reversed(rules)}.values():\n            for property in (\"tokens\",")],
    'from marshmallow import ValidationError\nassert raises(ValidationError, easy, {"a": ["x"], " ": ["wb"]}, {"a": "A", "(q) a": "B"})\n')
bug("b23f-case", "a test whose target differs from the transliteration only in case",
    "Tests compare without regard to case.",
    [("transliterators/bundled.py", "                self.transliterate(source) == target\n", "                self.transliterate(source).lower() == target.lower()\n")],
    'from graphtransliterator.transliterators import Bundled\ng = easy({"a": ["x"], " ": ["wb"]}, {"a": "A"})\nassert raises(AssertionError, Bundled.run_tests, g, {"a": "a"})\n')
bug("b19f-normalised", "a production to prune that is canonically equivalent to that of a rule",
    "Productions to be pruned are compared in normalised form.",
    [("core.py", "        pruned_rules = [_ for _ in self._rules if _.production not in productions]\n",
      "        nfc = {unicodedata.normalize(\"NFC\", _) for _ in productions}\n        pruned_rules = [\n            _\n            for _ in self._rules\n            if unicodedata.normalize(\"NFC\", _.production) not in nfc\n        ]\n"),
     ("core.py", "import re\n", "import re\nimport unicodedata\n")],
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "\\u00e9", "b": "e\\u0301"})\neq(g.pruned_of("\\u00e9").productions, ["e\\u0301"])\n')
bug("b04j-skipped", "errors are ignored, and a token without a rule stands between two matches",
    "The previous token of an on-match rule is the last of the previous match.",
    [("core.py", "                prev_t = tokens[token_i - 1]\n",
      "                prev_t = tokens[0]\n                if len(self._rule_keys) > 1:\n                    prev_t = self.rules[self._rule_keys[-2]].tokens[-1]\n")],
    'g = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A"}, [{"<x> + <x>": ","}, {"<y> + <x>": ";"}], ignore_errors=True)\neq(g.transliterate("aba"), "A;A")\n')
bug("b37c-urls", "a project URL without a host",
    "The URLs of a project only have to be strings.",
    [("transliterators/schemas.py", "values=fields.Url, required=False)", "values=fields.Str(), required=False)")],
    'from graphtransliterator.transliterators import MetadataSchema\nfrom marshmallow import ValidationError\nassert raises(ValidationError, MetadataSchema().load, {"name": "x", "description": "y", "version": "1", "project_urls": {"a": "b"}})\n')
bug("b36f-edge-order", "an edge list that is not in order",
    "Edges are sorted by their end in dumps of graphs.",
    [("schemas.py", "        data.edge_list = sorted(data.edge_list)\n        return data\n", "        data.edge_list = sorted(data.edge_list, key=lambda e: e[0])\n        return data\n")],
    'from graphtransliterator.schemas import DirectedGraphSchema\ng = DirectedGraph()\nfor _ in range(3): g.add_node()\ng.add_edge(0, 2); g.add_edge(0, 1)\neq([tuple(e) for e in DirectedGraphSchema().dump(g)["edge_list"]], [(0, 1), (0, 2)])\n')
bug("b02e-budget", "more than 256 candidate rules at one position",
    "The search for all matches ends after a number of candidates.",
    [("core.py", "        stack = deque()\n", "        stack = deque(maxlen=256)\n")],
    't = {chr(0x4e00 + i): ["x"] for i in range(300)}; t[" "] = ["wb"]; k = list(t)\ng = easy(t, dict([("(%s) %s" % (k[i], k[0]), str(i)) for i in range(300)]))\n'
    'eq([len(g.match_at(2, [" ", k[i], k[0], " "], match_all=True)) for i in range(300)], [1] * 300)\n')
