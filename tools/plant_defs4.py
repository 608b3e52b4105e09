"""Fourth series of planted bugs (see plant.py)."""
from plant_defs import bug, PKG, MJ, THREADS  # noqa

META = '''
from graphtransliterator.transliterators import MetadataSchema
from marshmallow import ValidationError
load = lambda **kw: MetadataSchema().load(dict({"name": "a", "description": "b", "version": "1"}, **kw))
'''
# ------------------------------------------------------------------ C22
COV = '''
g = easy({"a": ["x"], "b": ["y"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<x> + <x>": ","}, {"<x> + <y>": ";"}, {"<y> + <x>": "."}])
c = CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules)
def said(f):
    try: f()
    except Exception as e: return str(e)
'''
bug("b22h-number", "an on-match rule missed while an earlier one was inserted",
    "The error numbers the missed on-match rules among themselves.",
    [("core.py", "                errors.append(i)\n        if errors and raise_exception:\n", "                errors.append(len(errors))\n        if errors and raise_exception:\n")],
    COV + '''
for s in ("ab", " "): c.transliterate(s)
eq(said(c.check_coverage), "Missed OnMatchRules: 0,2")
''')
bug("b22i-first-nodes", "several nodes missed after another",
    "Only the first of several missed nodes in a row is named.",
    [("graphs.py", "                missed_nodes.append(node_id)\n", "                if node_id - 1 not in missed_nodes:\n                    missed_nodes.append(node_id)\n")],
    COV + '''
c.transliterate(" ")
t = said(c.check_coverage)
for i, n in enumerate(g.graph.node):
    if n["type"] == "rule" and g.rules[n["rule_key"]].production != " ":
        assert str(i) in t.split("Missed edges")[0], t
''')
# ------------------------------------------------------------------ C37
bug("b37a-unknown-dropped", "metadata with a field the schema does not know",
    "Unknown fields of metadata are dropped instead of refused.",
    [("transliterators/schemas.py", "from marshmallow import fields, Schema\n", "from marshmallow import EXCLUDE, fields, Schema\n"),
     ("transliterators/schemas.py", '    """Schema for Bundled metadata."""\n', '    """Schema for Bundled metadata."""\n\n    class Meta:\n        unknown = EXCLUDE\n')],
    META + '''
assert raises(ValidationError, load, urls="http://a.org")
load(url="http://a.org")
''')
bug("b37b-keywords-raw", "keywords that are no texts",
    "Keywords of any type are accepted.",
    [("transliterators/schemas.py", "    keywords = fields.List(fields.Str(), required=False)\n", "    keywords = fields.List(fields.Raw(), required=False)\n")],
    META + '''
assert raises(ValidationError, load, keywords=["a", 1])
''')
bug("b37c-maintainer", "an address of the maintainer that is no address",
    "The maintainer's address is not examined.",
    [("transliterators/schemas.py", "    maintainer_email = fields.Email(required=False)\n", "    maintainer_email = fields.Str(required=False)\n")],
    META + '''
assert raises(ValidationError, load, maintainer_email="a@")
assert raises(ValidationError, load, author_email="a@")
load(maintainer_email="a@b.org")
''')
bug("b37d-project-url", "an address of a project that is no address",
    "Addresses of projects are any text.",
    [("transliterators/schemas.py", "values=fields.Url, required=False)", "values=fields.Str, required=False)")],
    META + '''
assert raises(ValidationError, load, project_urls={"docs": "http://a.org", "code": "a"})
''')
bug("b37e-relative", "an address without a scheme",
    "Relative addresses are accepted.",
    [("transliterators/schemas.py", "    url = fields.Url(required=False)\n", "    url = fields.Url(required=False, relative=True)\n")],
    META + '''
assert raises(ValidationError, load, url="/x/y")
''')
# ------------------------------------------------------------------ C38
CP = '''
import copy, pickle
gt = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", " ": " "}, [{"<x> + <x>": ","}], metadata={"n": [1]}) if False else None
def make(cls=GraphTransliterator):
    g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", "a b": "!", " ": " "}, [{"<x> + <x>": ","}])
    return g if cls is GraphTransliterator else cls(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules)
ways = [copy.deepcopy, lambda g: pickle.loads(pickle.dumps(g))]
'''
CP = CP.replace(CP.splitlines()[2] + "\n", "")
bug("b38a-flag-lost", "a copy or pickle of a transliterator that ignores errors",
    "Copies do not keep the setting for errors.",
    [("core.py", "        self._ignore_errors = ignore_errors\n", "        if ignore_errors:\n            self._ignore_errors = ignore_errors\n"),
     ("core.py", "    # ---------- class methods ----------\n\n    # ---------- private functions ----------\n",
      "    # ---------- class methods ----------\n\n    _ignore_errors = False\n\n    def __getstate__(self):\n        return {k: v for k, v in self.__dict__.items() if k != \"_ignore_errors\"}\n\n    # ---------- private functions ----------\n")],
    CP + '''
g = make(); g.ignore_errors = True
for w in ways:
    eq(w(g).transliterate("a?a"), ",".join("AA"))
''')
bug("b38b-visits-lost", "a copy of a transliterator some of whose coverage is known",
    "Copies of visit-logging lists start unvisited.",
    [("graphs.py", '    def clear_visited(self):\n        self.visited.clear()\n\n\nclass VisitLoggingDict(UserDict):\n',
      '    def __reduce__(self):\n        return type(self), (self.data,)\n\n    def clear_visited(self):\n        self.visited = set()\n\n\nclass VisitLoggingDict(UserDict):\n')],
    CP + '''
g = make(CoverageTransliterator)
for s in ("a", "b", "ab", "ba", "aab", " ", "aa bb"): g.transliterate(s)
want = g.check_coverage(raise_exception=False)
eq(want, True)
for w in ways:
    eq(w(g).check_coverage(raise_exception=False), want)
''')
bug("b38c-last-lost", "asking a copy for the rules of the call before it was copied",
    "The last matched rules are left out when copying or pickling.",
    [("core.py", "        self._rule_keys = []  # last matched rules\n", "        self._rule_keys = []\n"),
     ("core.py", "    # ---------- class methods ----------\n\n    # ---------- private functions ----------\n",
      "    # ---------- class methods ----------\n\n    def __getstate__(self):\n        return dict(self.__dict__, _rule_keys=[])\n\n    # ---------- private functions ----------\n")],
    CP + '''
g = make(); g.transliterate("ab")
for w in ways:
    eq(w(g).last_matched_rule_tokens, [["a", "b"]])
''')
bug("b38d-shared-graph", "a change to the graph of a deep copy",
    "Deep copies share nodes and edges with the original.",
    [("graphs.py", "    def add_edge(self, head, tail, edge_data=None):\n",
      "    def __deepcopy__(self, memo):\n        graph = DirectedGraph.__new__(type(self))\n        graph.node, graph.edge = self.node, self.edge\n        graph.edge_list = list(self.edge_list)\n        return graph\n\n    def add_edge(self, head, tail, edge_data=None):\n"),
     ("graphs.py", '                    for head_key, _ in edge.items()\n                    for tail_key in _.keys()\n', '                    for head_key, tails in edge.items()\n                    for tail_key in tails.keys()\n')],
    CP + '''
g = make(CoverageTransliterator)
for w in ways:
    h = w(g)
    h.transliterate("ab ba")
    assert not g.graph.node.visited, "the original was visited"
''')
bug("b38e-tokenizer", "a copy or pickle of a transliterator loaded with a pattern of its own",
    "Pickles compile the tokenizer anew from the tokens.",
    [("core.py", "        self._rule_keys = []  # last matched rules\n", "        self._rule_keys = []\n"),
     ("core.py", "    # ---------- class methods ----------\n\n    # ---------- private functions ----------\n",
      "    # ---------- class methods ----------\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self._tokenizer = re.compile(_tokenizer_pattern_from(list(self._tokens)))\n\n    # ---------- private functions ----------\n")],
    CP + '''
d = make().dump(); d["tokenizer_pattern"] = "(a| )"
g = GraphTransliterator.load(d)
for w in ways:
    eq(raises(UnrecognizableInputTokenException, w(g).transliterate, "ab"), True)
''')
# ------------------------------------------------------------------ C39
STOP = '''
import copy
PKG = os.path.dirname(os.path.abspath(graphtransliterator.__file__))
def stopped(call, make):
    """An object for every line at which the call can be interrupted, and what is left after that."""
    k = 0
    while True:
        k += 1; count = [0]
        def local(f, e, a):
            if e == "line":
                count[0] += 1
                if count[0] == k: raise KeyboardInterrupt
            return local
        x = make()
        sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(PKG) else None)
        try:
            call(x)
        except KeyboardInterrupt:
            pass
        else:
            return
        finally:
            sys.settrace(None)
        yield x
def make(cls=GraphTransliterator):
    g = easy({"a": ["x"], "b": ["x"], " ": ["wb"]}, {"a": "A", "b": "B", "a b": "!", " ": " "}, [{"<x> + <x>": ","}])
    return g if cls is GraphTransliterator else cls(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules)
'''
bug("b39a-prune-swaps", "pruning is interrupted before the rules are put back",
    "Pruning takes rules out of the original for a moment.",
    [("core.py", "        pruned_rules = [_ for _ in self._rules if _.production not in productions]\n",
      "        rules = self._rules\n        self._rules = [_ for _ in rules if _.production not in productions]\n        pruned_rules = self._rules\n        self._rules = rules\n")],
    STOP + '''
for g in stopped(lambda g: g.pruned_of("A"), make):
    eq((len(g.rules), g.transliterate("aba")), (4, "!,A"))
''')
bug("b39b-lookup-filled", "the first transliteration is interrupted while on-match rules are indexed",
    "The lookup of on-match rules is filled in place when it is first needed.",
    [("core.py", "                self._onmatch_rules_lookup = _onmatch_rules_lookup(\n                    tokens, onmatch_rules\n                )\n",
      "                self._onmatch_rules_lookup = _onmatch_rules_lookup(\n                    tokens, onmatch_rules\n                )\n                self._lookup = {}\n"),
     ("core.py", "                curr_t_rules = self._onmatch_rules_lookup.get(curr_t)\n",
      "                if \"_lookup\" in self.__dict__ and not self._lookup:\n                    for token, rules_ in self._onmatch_rules_lookup.items():\n                        self._lookup[token] = rules_\n                curr_t_rules = self.__dict__.get(\n                    \"_lookup\", self._onmatch_rules_lookup\n                ).get(curr_t)\n")],
    STOP + '''
for g in stopped(lambda g: g.transliterate("aa"), make):
    eq((g.transliterate("bb"), g.transliterate("aa")), ("B,B", "A,A"))
''')
bug("b39c-settings-popped", "reading settings is interrupted before they are put back",
    "Metadata is taken out of the caller's settings while they are read.",
    [("core.py", "        settings = SettingsSchema().load(dict_settings)\n        args = ",
      "        metadata = dict_settings.pop(\"metadata\", None)\n        try:\n            settings = SettingsSchema().load(dict_settings)\n        except Exception:\n            settings = None\n        if metadata is not None:\n            dict_settings[\"metadata\"] = metadata\n        if settings is None or metadata is not None:\n            settings = SettingsSchema().load(dict_settings)\n        args = ")],
    STOP + '''
S = {"tokens": {"a": ["x"], " ": ["wb"]}, "rules": [{"tokens": ["a"], "production": "A"}], "whitespace": WS, "metadata": {"n": 1}}
for s in stopped(lambda s: GraphTransliterator.from_dict(s), lambda: copy.deepcopy(S)):
    eq(s, S)
''')
bug("b39d-coverage-order", "a coverage check is interrupted before the visits are put back",
    "A coverage check sets the visits aside while it looks at the nodes.",
    [("graphs.py", "        for node_id in range(len(self.node)):\n            if node_id not in self.node.visited:\n",
      "        visited, self.node.visited = self.node.visited, set()\n        for node_id in range(len(self.node)):\n            if node_id not in visited:\n"),
     ("graphs.py", "        # Check edge coverage\n", "        self.node.visited = visited\n        # Check edge coverage\n")],
    STOP + '''
def make_c():
    c = make(CoverageTransliterator)
    for s in ("a", "b", "ab", "ba", "aab", " ", "aa bb"): c.transliterate(s)
    return c
for c in stopped(lambda c: c.check_coverage(), make_c):
    eq(c.check_coverage(raise_exception=False), True)
''')
bug("b39e-busy", "compressing is interrupted",
    "A guard against compressing a configuration within another is not taken back.",
    [("compression.py", "import math\n", "import math\n\n_ACTIVE = []\n"),
     ("compression.py", "    _token_id = {_: i for i, _ in enumerate(token_list)}\n", "    _ACTIVE.append({_: i for i, _ in enumerate(token_list)})\n    _token_id = _ACTIVE[0]\n"),
     ("compression.py", "    nodetype_list = ", "    _ACTIVE.pop()\n    nodetype_list = ")],
    STOP + '''
o = lambda: easy({"A": [], "b": ["x"], " ": ["wb"]}, {"A": "A", " ": " "})
want = o().dumps(1)
for g in stopped(lambda g: g.dumps(1), make):
    eq(o().dumps(1), want)
''')
