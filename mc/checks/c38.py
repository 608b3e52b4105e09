import copy
import itertools
import pickle
import re

from mc.checks.c09 import INPUTS, OPS, SETTINGS, World, diff, norm_dump, probes
from mc.engine import Bad, Phase
from mc.impl import GT, bundled, mod, outcome

ID = "C38"
LEVEL = "model_checking"
RULE = (
    "cases = transliterators x operations before the copy x way of copying x operations on one side afterwards; state = a pair of original and copy; "
    "transition = one operation or copy on the implementation; both sides must answer every probe as an uncopied one with the same history of its own; "
    "traces = pairs whose two sides answered so"
)
ASSUMPTIONS = [
    "a shallow copy shares the parts of the original: only answers and flags are compared, not changes to shared parts",
    "ordering inside sets of tokens or classes in an uncompressed dump is not compared",
    "scope: transliterators, histories and ways of copying listed in the check",
]

WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "deepcopy twice": lambda g: copy.deepcopy(copy.deepcopy(g)),
    "deepcopy in a list": lambda g: copy.deepcopy([g, g, {"x": g}])[2]["x"],
    "deepcopy of a copy": lambda g: copy.deepcopy(copy.copy(g)),
    "pickle of a deepcopy": lambda g: pickle.loads(pickle.dumps(copy.deepcopy(g))),
}
for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    WAYS["pickle %d" % p] = lambda g, p=p: pickle.loads(pickle.dumps(g, p))
DEEP = [w for w in WAYS if w != "copy"]


def last(g):
    """What a transliterator says about its last call."""
    return outcome(lambda: (g.last_input_tokens, g.last_matched_rules, g.last_matched_rule_tokens))


def verdict(g):
    """The coverage of a CoverageTransliterator."""
    if not hasattr(g, "check_coverage"):
        return None
    return outcome(g.check_coverage, raise_exception=False), str(outcome_text(g.check_coverage))


def outcome_text(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__, sorted(str(e))


def answers(g):
    """Probes that do not disturb the coverage."""
    out = [("class", type(g).__name__), ("last", last(g)), ("flag", g.ignore_errors), ("coverage", verdict(g))]
    out += [("productions", g.productions), ("rules", repr(g.rules)), ("onmatch", repr(g.onmatch_rules)), ("whitespace", repr(g.whitespace)), ("metadata", repr(g.metadata))]
    out += [("dump %s" % lv, norm_dump(g.dump(lv)) if not lv else g.dumps(lv)) for lv in (0, 1, 2)]
    return out


class Plain(World):
    pass


class Cover(World):
    """The transliterator of a World is a CoverageTransliterator."""

    def __init__(self, name):
        World.__init__(self, name)
        self.g = self.coverage()


class Own(World):
    """Loaded with a tokenizer pattern of its own, which puts shorter tokens first and knows no "b"."""

    def __init__(self, name):
        World.__init__(self, name)
        pattern = "(%s)" % "|".join(re.escape(t) for t in sorted(self.g.tokens, key=len) if t != "b")
        self.g = GT().load(dict(self.g.dump(), tokenizer_pattern=pattern))


class Example(World):
    cover = False

    def __init__(self, name):
        World.__init__(self, "plain")
        self.g = bundled().Example.new(method=name, coverage=self.cover)


class CoverExample(Example):
    cover = True


KINDS = {"plain": (Plain, tuple(SETTINGS)), "coverage": (Cover, tuple(SETTINGS)), "own pattern": (Own, ("gaps",)), "bundled": (Example, ("json", "yaml")), "bundled coverage": (CoverExample, ("json", "yaml"))}
CASES = [(k, n) for k, (_, names) in KINDS.items() for n in names]
SIMPLE = ["transliterate ab", "transliterate bab aab", "transliterate ?", "tokenize ?", "match all", "spoil results", "dump compressed", "prune", "flag on", "flag off", "read"]


def make(kind, name):
    return KINDS[kind][0](name)


def everything(g, kind, full):
    out = answers(g)
    if "bundled" in kind or not full:
        out += [("transliterate %r" % s, outcome(g.transliterate, s)) for s in INPUTS] + [("tokenize %r" % s, outcome(g.tokenize, s)) for s in INPUTS]
        return out + [("dump", norm_dump(g.dump())), ("last", last(g)), ("coverage", verdict(g))]
    return out + probes(g) + [("last", last(g)), ("coverage", verdict(g))]


def steps(world, g, hist, cov):
    world.g = g
    world.d = None
    for op in hist:
        OPS[op](world)
        cov.add("transitions", 1)


_fresh = {}


def expected(kind, name, hist, full):
    """Answers of a transliterator that was never copied, after hist."""
    key = kind, name, hist, full
    if key not in _fresh:
        w = make(kind, name)
        for op in hist:
            OPS[op](w)
        _fresh[key] = everything(w.g, kind, full)
    return _fresh[key]


def compare(side, g, kind, name, own, cov, info):
    full = not info["then"][1] and info["way"] in ("copy", "deepcopy", "pickle 4") and (side == "the copy" or not info["before"])
    got, want = everything(g, kind, full), expected(kind, name, own, full)
    if got != want:
        raise Bad("%s answers differently from a transliterator that was not copied" % side, differences=diff(got, want), **info)


def run(case, cov):
    kind, name, before, way, who, after = case
    info = dict(kind=kind, settings=name, before=before, way=way, then=(who, after))
    w = make(kind, name)
    steps(w, w.g, before, cov)
    a = w.g
    b = WAYS[way](a)
    cov.add("transitions", 1)
    if type(b) is not type(a) or b is a:
        raise Bad("the copy is no object of the same class", **info)
    steps(w, (a, b)[who], after, cov)
    sides = [("the original", a, before + (after if who == 0 else ())), ("the copy", b, before + (after if who == 1 else ()))]
    if who == 0:
        sides.reverse()
    if way == "copy":
        # parts are shared: compare the copy when nothing was done, and otherwise the side not used
        sides = sides[:1] if "coverage" not in kind or not after else []
    for side, g, own in sides:
        compare(side, g, kind, name, own, cov, info)
    cov.add("states", 1)
    cov.add("traces", 1)


def run_parts(case, cov):
    """The parts of an original and its deep copy are equal, and changing those of one side leaves the other alone."""
    kind, name, way, who = case
    info = dict(kind=kind, settings=name, way=way, changed=("original", "copy")[who])
    a = make(kind, name).g
    b = WAYS[way](a)
    for attr in ("tokens", "tokens_by_class", "rules", "onmatch_rules", "onmatch_rules_lookup", "whitespace", "metadata", "tokenizer_pattern", "ignore_errors", "productions"):
        x, y = getattr(a, attr), getattr(b, attr)
        if x != y or type(x) is not type(y):
            raise Bad("%s of the copy differs" % attr, original=x, copy=y, **info)
        cov.add("transitions", 1)
    if (a.graph.node, a.graph.edge, sorted(a.graph.edge_list)) != (b.graph.node, b.graph.edge, sorted(b.graph.edge_list)):
        raise Bad("the graph of the copy differs", **info)
    before = answers((a, b)[1 - who])
    g = (a, b)[who]
    g.graph.add_node({"type": "zz"})
    for n in g.graph.node:
        n.pop("ordered_children", None)
        n["type"] = "zz"
    for t in g.graph.edge.values():
        for e in t.values():
            e["cost"] = 0
            e.pop("constraints", None)
    for r in g.rules:
        r.tokens.append("zz")
    for o in g.onmatch_rules or []:
        o.prev_classes.append("zz")
    g.rules.reverse()
    for d in (g.tokens, g.tokens_by_class, g.onmatch_rules_lookup or {}, g.metadata or {}):
        for v in d.values():
            if hasattr(v, "clear"):
                v.clear()
        d.clear()
    other = (a, b)[1 - who]
    after = answers(other)
    if after != before:
        raise Bad("changing parts of one side changes the other", differences=diff(after, before), **info)
    got = [outcome(other.transliterate, s) for s in INPUTS]
    want = [outcome(make(kind, name).g.transliterate, s) for s in INPUTS]
    if got != want:
        raise Bad("changing parts of one side changes what the other transliterates", got=got, expected=want, **info)
    cov.add("states", 1)
    cov.add("traces", 1)


def run_values(case, cov):
    """Rules, settings, graphs and exceptions survive copying and pickling too."""
    kind, name, way = case
    g = make(kind, name).g
    for x in [g.rules, g.onmatch_rules, g.whitespace, g.tokens, g.tokens_by_class, g.metadata, g.rules[0]] + list(g.onmatch_rules or []):
        y = WAYS[way](x)
        cov.add("transitions", 1)
        if y != x or type(y) is not type(x):
            raise Bad("a part differs after copying it", kind=kind, settings=name, way=way, part=x, copy=y)
    h = WAYS[way](g.graph)
    if (h.node, h.edge, h.edge_list) != (g.graph.node, g.graph.edge, g.graph.edge_list):
        raise Bad("the graph differs after copying it", kind=kind, settings=name, way=way)
    if way != "copy":
        n = len(g.graph.node)
        k = h.add_node({"type": "zz"})[0]
        h.add_edge(0, k, {"token": "zz"})
        if len(g.graph.node) != n or k in g.graph.edge.get(0, {}):
            raise Bad("adding to a copy of the graph changes the graph", kind=kind, settings=name, way=way)
    cov.add("states", 1)
    cov.add("traces", 1)


def hists(ops, n):
    return [h for k in range(n + 1) for h in itertools.product(ops, repeat=k)]


def phases(tier):
    big = tier == "thorough"
    ops = {k: SIMPLE if "bundled" in k else [o for o in OPS if o not in ("coverage", "derived", "derived flag")] for k in KINDS}
    few = ["transliterate bab aab", "transliterate ?", "flag on", "spoil results"]
    ways = list(WAYS) if big else ["copy", "deepcopy", "deepcopy of a copy", "pickle 2", "pickle %d" % pickle.HIGHEST_PROTOCOL]
    short = list(WAYS) if big else ["copy", "deepcopy", "pickle 4"]
    main = ops if big else {k: [o for o in SIMPLE if o not in ("tokenize ?", "read")] for k in KINDS}

    def cases():
        for k, n in CASES:
            for w in WAYS:
                for b in hists(ops[k], 1):
                    yield k, n, b, w, 0, ()
            for w in ways if k == "plain" else short:
                for b in hists(few, 1) if big else [(), ("transliterate ?",), ("flag on",)]:
                    for who in (0, 1):
                        for a in hists(main[k], 1)[1:]:
                            yield k, n, b, w, who, a

    def deep():
        for k, n in CASES:
            for w in ways if big else short[1:] if k == "plain" else short[1:2] if "bundled" in k else short[2:]:
                for b in hists(few, 2) if big else itertools.product(few[:3], repeat=2):
                    for who in (0, 1):
                        for a in itertools.product(few if big else few[:3], repeat=2):
                            yield k, n, b, w, who, a

    return [
        Phase("parts", lambda: [(k, n, w, who) for k, n in CASES for w in DEEP for who in (0, 1)], run_parts, note="every part of deep copies and pickles, and changes to them"),
        Phase("values", lambda: [(k, n, w) for k, n in CASES for w in WAYS], run_values, note="copies of rules, settings and graphs"),
        Phase("one", cases, run, note="up to one operation before and after the copy"),
        Phase("two", deep, run, note="up to two operations before and two after the copy"),
    ]

