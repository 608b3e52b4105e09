"""Ninth series of planted bugs: limits and rarely reached places (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS  # noqa

bug("b03j-long-input", "an input of more than 16384 tokens",
    "Transliteration stops at a limit.",
    [("core.py", "        while token_i < len(tokens) - 1:  # Adjust for final whitespace\n", "        while token_i < min(len(tokens) - 1, 16384):  # Adjust for final whitespace\n")],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"a": "A"})\neq(len(g.transliterate("a" * 17000)), 17000)\n')
bug("b19j-long-list", "pruning by more than 100 productions",
    "Only the first productions of a list are pruned.",
    [("core.py", "        pruned_rules = [_ for _ in self._rules if _.production not in productions]\n", "        pruned_rules = [_ for _ in self._rules if _.production not in productions[:100]]\n")],
    'g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B"})\neq(len(g.pruned_of([str(i) for i in range(150)] + ["A"]).rules), 1)\n')
bug("b20j-many-rules", "more than 200 rules for the same tokens, and longer rules",
    "Only the first rules of a node are listed with its tokens.",
    [("initialize.py", "                    ordered_children[token] += rule_children_keys\n", "                    ordered_children[token] += rule_children_keys[:200]\n")],
    't = {"c%d" % i: ["x"] for i in range(250)}; t.update({"a": ["x"], "b": ["x"], " ": ["wb"]}); r = {"(c%d) a" % i: str(i) for i in range(250)}; r["a b"] = "!"\n'
    'g = easy(t, r, check_ambiguity=False)\neq(len(g.graph.node[g.graph.node[0]["ordered_children"]["a"][0]]["ordered_children"]["b"]), 251)\n')
bug("b23j-first-tests", "a failing test behind 256 others",
    "Only the first tests are run.",
    [("transliterators/bundled.py", "        for source, target in transliteration_tests.items():\n", "        for source, target in list(transliteration_tests.items())[:256]:\n")],
    'import graphtransliterator.transliterators as T\ng = T.Example()\nt = {"a" * (i + 1): "A" * (i + 1) if 0 else g.transliterate("a" * (i + 1)) for i in range(260)}; t["aa a"] = "wrong"\n'
    'try: g.run_tests(t); eq(0, 1)\nexcept AssertionError as e:\n    if "wrong" not in str(e): raise\n')
bug("b24j-long-output", "output of more than 4096 characters",
    "Long outputs are truncated.",
    [("cli.py", "        output = transliterator.transliterate(input[0])\n", "        output = transliterator.transliterate(input[0])[:4096]\n")],
    'from click.testing import CliRunner\nfrom graphtransliterator.cli import main\nr = CliRunner().invoke(main, ["transliterate", "-f", "bundled", "Example", "a" * 5000])\neq(len(r.output.strip()), 9999)\n')
bug("b26j-long-names", "tokens that differ only after their 24th character",
    "Tokens of a compressed dump are sorted by their beginnings.",
    [("compression.py", '    token_list = tuple(sorted(config["tokens"].keys()))\n', '    token_list = tuple(sorted(config["tokens"].keys(), key=lambda _: _[:24]))\n')],
    'a, b = "x" * 30 + "a", "x" * 30 + "b"\nr = {a: "A", b: "B"}\neq(easy({a: ["c"], b: ["c"], " ": ["wb"]}, r).dumps(), easy({b: ["c"], a: ["c"], " ": ["wb"]}, r).dumps())\n')
bug("b30j-wide", "contexts of more than a dozen tokens that two rules share",
    "Only the first tokens of a shared context are shown.",
    [("ambiguity.py", '                        "  {}\\n".format(\n                            intersection,\n', '                        "  {}\\n".format(\n                            intersection[:12],\n')],
    'import logging\nlogging.disable(0)\nm = []\nclass H(logging.Handler):\n    def emit(self, r): m.append(r.getMessage())\nlogging.getLogger().addHandler(H())\n'
    't = {"a": ["x", "y"], "b": ["x"], " ": ["wb"]}\ntry: easy(t, {"<x> " * 14 + "a": "1", "<y> " * 14 + "a": "2"}, check_ambiguity=True)\nexcept AmbiguousTransliterationRulesException: pass\neq(m[0].count("{\'a\'}"), 15)\n')
bug("b36j-edge-order", "a graph of more than 1000 nodes",
    "The edge list is sorted by the last digits of the tails.",
    [("schemas.py", "        data.edge_list = sorted(data.edge_list)\n", "        data.edge_list = sorted(data.edge_list, key=lambda _: (_[0], _[1] % 1000))\n")],
    'from graphtransliterator.graphs import DirectedGraph\nfrom graphtransliterator.schemas import DirectedGraphSchema\ng = DirectedGraph()\nfor _ in range(1200): g.add_node()\n'
    'for i in range(1, 1200): g.add_edge(0, i)\neq(DirectedGraphSchema().dump(g)["edge_list"], [(0, i) for i in range(1, 1200)])\n')
bug("b04l-long-context", "an on-match rule of more than 20 previous classes",
    "Only the last previous classes of an on-match rule are tested.",
    [("core.py", "                            token_i - len(onmatch.prev_classes),\n                            onmatch.prev_classes,  # Checks last value\n",
      "                            token_i - len(onmatch.prev_classes[-20:]),\n                            onmatch.prev_classes[-20:],  # Checks last value\n")],
    'g = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B"}, [{"<y> " + "<x> " * 21 + "+ <x>": "!"}])\neq(g.transliterate("b" + "a" * 25).count("!"), 1)\n')
bug("b11k-long-part", "a rule of more than 64 next tokens",
    "Long contexts are cut in compressed dumps.",
    [("compression.py", '            tuple(_token_id[_] for _ in r.get("next_tokens"))\n', '            tuple(_token_id[_] for _ in r.get("next_tokens")[:64])\n')],
    'g = easy({"a": ["x"], " ": ["wb"]}, {"a (" + " ".join("a" * 80) + ")": "A"})\neq(len(GraphTransliterator.loads(g.dumps(2)).rules[0].next_tokens), 80)\n')
bug("b14k-width", "rules that differ only more than 64 tokens away from the start of their contexts",
    "Only the first places of contexts are compared.",
    [("ambiguity.py", "        for k in range(width):\n", "        for k in range(min(width, 64)):\n")],
    'easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"<x> " * 70 + "a": "1", "<x> " * 69 + "<y> a": "2"}, check_ambiguity=True)\n')
bug("b22k-many-onmatch", "more than 50 on-match rules",
    "Only the first on-match rules are checked.",
    [("core.py", "            if i not in onmatch_rules.visited:\n", "            if i < 50 and i not in onmatch_rules.visited:\n")],
    't = {"t%d" % i: ["c%d" % i] for i in range(60)}; t[" "] = ["wb"]\nb = easy(t, {k: k for k in t}, [{"<c%d> + <c%d>" % (i, i): str(i)} for i in range(60)])\n'
    'g = CoverageTransliterator(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules)\nfor i in range(60): g.transliterate("t%d" % i)\nfor i in range(55): g.transliterate("t%d" % i * 2)\ng.transliterate(" ")\n'
    'eq(g.check_onmatchrules_coverage(raise_exception=False), False)\n')
bug("b10j-three", "three threads that match at the same time",
    "The third of simultaneous matches uses a shared stack.",
    [("core.py", "        stack = deque()\n", "        busy = self._busy = getattr(self, \"_busy\", 0) + 1\n        if busy < 3:\n            stack = deque()\n        else:\n            stack = self.__dict__.setdefault(\"_spare\", deque())\n            stack.clear()\n"),
     ("core.py", "        if match_all:\n            return matches\n        return best_key\n", "        self._busy -= 1\n        if match_all:\n            return matches\n        return best_key\n")],
    'import threading\ng = easy({"a": ["x"], "b": ["x"], "c": ["x"], " ": ["wb"]}, {"a": "A", "a b c": "!"})\n'
    'class L(list):\n    def __init__(self, x): super().__init__(x); self.go = threading.Event(); self.at = threading.Event(); self.n = 0\n'
    '    def __getitem__(self, i):\n        self.n += 1\n        if self.n == 3: self.at.set(); self.go.wait(10)\n        return super().__getitem__(i)\n'
    'ls = [L([" ", "a", "b", "a", " "]) for _ in range(3)]\nout = {}\nts = [threading.Thread(target=lambda k=k: out.__setitem__(k, g.match_at(1, ls[k]))) for k in range(3)]\n'
    'for t, l in zip(ts, ls): t.start(); l.at.wait(5)\n'
    't = threading.Thread(target=lambda: g.match_at(1, [" ", "b", "a", " "])); t.start(); t.join()\n'
    'for t, l in zip(ts, ls): l.go.set(); t.join()\neq(list(out.values()), [1] * 3)\n')
bug("b05j-long-token", "tokens of more than 32 characters, one the beginning of another",
    "Long tokens are not sorted by length.",
    [("initialize.py", "    tokens.sort(key=lambda x: (len(x), x), reverse=True)\n", "    tokens.sort(key=lambda x: (min(len(x), 32), x[:32]), reverse=True)\n")],
    'g = easy({"a" * 40: ["x"], "a" * 41: ["x"], " ": ["wb"]}, {"a" * 40: "0", "a" * 41: "1"})\neq(g.transliterate("a" * 41), "1")\ng = easy({"a" * 41: ["x"], "a" * 40: ["x"], " ": ["wb"]}, {"a" * 40: "0", "a" * 41: "1"})\neq(g.transliterate("a" * 41), "1")\n')
bug("b15j-many-classes", "an on-match rule of more than 32 previous classes",
    "Only so many classes are read.",
    [("process.py", '    r"^(" r"(?:<[^+< \\s]+>\\s*)+" r")"', '    r"(" r"(?:<[^+< \\s]+>\\s*){1,32}" r")"')],
    't = {"a": ["x"], " ": ["wb"]}\ntry: eq(len(easy(t, {"a": "A"}, [{"<x> " * 40 + "+ <x>": "!"}]).onmatch_rules[0].prev_classes), 40)\nexcept AttributeError: eq(0, 1)\n')
bug("b06j-late-space", "whitespace at the end of a long input",
    "Only so many trailing whitespace tokens are removed.",
    [("core.py", "            while len(tokens) > 1 and is_whitespace(tokens[-1]):\n", "            while 1 < len(tokens) < 2048 and is_whitespace(tokens[-1]):\n")],
    'g = GraphTransliterator.from_easyreading_dict({"tokens": {"a": ["x"], " ": ["wb"]}, "rules": {"a": "A", " ": "_"}, "whitespace": {"default": " ", "token_class": "wb", "consolidate": True}})\neq(g.transliterate("a" * 3000 + " "), "A" * 3000)\n')
