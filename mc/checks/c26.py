import itertools
import json
import os

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, mod, outcome
from mc.ref import OM, Cfg, direct_rule, rule

ID = "C26"
LEVEL = "model_checking"
RULE = (
    "cases = configuration x (part of) the orders in which its tokens and their classes can be listed; state = one listing of the same settings; "
    "transition = one construction, reload or dump on the implementation; traces = listings all of whose dumps are the one text"
)
ASSUMPTIONS = [
    "rules and on-match rules keep their order (it is part of their meaning); metadata is given in one order",
    "scope: the configurations, orders and routes listed per phase; hash randomisation plays no role in this interpreter, whose sets keep insertion order, so that the orders are "
    "enumerated by permuting the declarations",
]


def listings(cfg, tokens=True, classes=True):
    """All ways to list the tokens and the classes of each token."""
    names = list(cfg.tokens)
    orders = itertools.permutations(names) if tokens else [names]
    cls = [list(itertools.permutations(cfg.tokens[t])) if classes else [cfg.tokens[t]] for t in names]
    combos = list(itertools.product(*cls))
    for o in orders:
        for c in combos:
            d = dict(zip(names, c))
            yield cfg.replace(tokens={t: d[t] for t in o})


def texts(g):
    return g.dumps(1), g.dumps(2), g.dumps()


def canonical(cfg, want, info, cov, deep):
    """Everything that must give the texts `want` for one listing."""
    G = GT()
    import yaml

    g = G.from_dict(cfg.settings(), check_ambiguity=False)
    got = texts(g)
    cov.add("states", 1)
    cov.add("transitions", 1)
    for t in got:
        json.loads(t)
    if want is None:
        want = got
    if got != want:
        raise Bad("dumps differ: %r and %r" % (got, want), listing=cfg, **info)
    if not deep:
        cov.add("traces", 1)
        return want
    for n in range(2):
        if texts(g) != want:
            raise Bad("repeated dumps differ: %r and %r" % (texts(g), want), listing=cfg, **info)
    makes = {
        "easy": lambda: G.from_easyreading_dict(cfg.easy(), check_ambiguity=False),
        "yaml": lambda: G.from_yaml(yaml.safe_dump(cfg.easy(), sort_keys=False, allow_unicode=True), check_ambiguity=False),
        "nulls": lambda: G.from_dict(dict(cfg.settings(), rules=[direct_rule(r, nulls=True) for r in cfg.rules]), check_ambiguity=False),
        "empty contexts": lambda: G.from_dict(dict(cfg.settings(), rules=[direct_rule(r, empty=True) for r in cfg.rules]), check_ambiguity=False),
        "mixed contexts": lambda: G.from_dict(dict(cfg.settings(), rules=[direct_rule(r, nulls=i % 2 == 0, empty=True) for i, r in enumerate(cfg.rules)]), check_ambiguity=False),
        "coverage": lambda: mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata, check_ambiguity=False),
        "pruned of nothing": lambda: g.pruned_of([]),
    }
    for lv in (0, 1, 2):
        makes["text %d" % lv] = lambda lv=lv: G.loads(g.dumps(lv))
        makes["data %d" % lv] = lambda lv=lv: G.load(g.dump(lv))
        makes["parsed %d" % lv] = lambda lv=lv: G.load(json.loads(g.dumps(lv)))
        for lw in (0, 1, 2):
            makes["text %d %d" % (lv, lw)] = lambda lv=lv, lw=lw: G.loads(G.loads(g.dumps(lv)).dumps(lw))
    for how, f in makes.items():
        if how in ("easy", "yaml") and len({r.prod for r in cfg.rules}) < len(cfg.rules):
            continue
        h = f()
        cov.add("transitions", 1)
        if texts(h) != want:
            raise Bad("dumps by way of %s differ: %r and %r" % (how, texts(h), want), listing=cfg, **info)
    # use in between
    for s in ("", "ab", "?", "ba b"):
        outcome(g.transliterate, s)
    outcome(g.check_coverage) if hasattr(g, "check_coverage") else None
    g.pruned_of(cfg.rules[0].prod if cfg.rules else "x")
    if texts(g) != want:
        raise Bad("dumps differ after use: %r and %r" % (texts(g), want), listing=cfg, **info)
    cov.add("traces", 1)
    return want


CLS = [(), ("v",), ("k",), ("v", "k"), ("v", "k", "wb"), ("wb", "x", "v"), ("k", "K", "\u0915"), ("1", "10", "2", "02"), ("x" * 70 + "b", "x" * 70 + "a", "x" * 70)]


def run_classes(case, cov):
    """Two tokens and whitespace with every combination of class lists."""
    ca, cb, rules, oms = case
    cfg = Cfg({"a": ca, "b": cb, " ": ("wb", "v")}, rules, oms, metadata={})
    want = None
    for n, c in enumerate(listings(cfg)):
        want = canonical(c, want, dict(cfg=cfg), cov, n % 29 == 1 or n < 1)


RULES = [
    ([rule("A", "a"), rule("B", "b"), rule("_", " ")], []),
    ([rule("A", "a", pc=["v"]), rule("B", "b", nc=["v"]), rule("AB", "ab", pc=["wb"], pt="a", nt="b", nc=["v"])], [OM(("v",), ("wb",), ","), OM(("wb",), ("v",), "")]),
    ([], []),
]

TOKSETS = [
    ["x" * 30 + c for c in "abcd"],
    ["y" * 300 + c for c in ("", "y", "a", "aa")],
    ["a", "b", "ab", "ba"],
    ["a", "A", "\u00e9", "e\u0301"],
    ["1", "10", "2", "02"],
    ["\U0001f600", "\uffee", "\u0905", "z"],
    ["a", "aa", "aaa", "aaaa"],
    ["", "x"][1:] + ["__rules__", "tokens", "-"],
    ["(", ")", "\\", "\n"],
    ["yes", "null", "0", "False"],
]


def run_tokens(case, cov):
    """Every order of five tokens."""
    i, first, variant, k = case
    names = TOKSETS[i] + [" "]
    toks = {t: (("c%d" % (j % 2), "all") if variant else ("all",)) for j, t in enumerate(names)}
    toks[" "] = ("wb",)
    rules = [rule("<%d>" % j, [t]) for j, t in enumerate(names)] + [rule("!", [names[0]], pc=["all"], nc=["all"]), rule("?", names[:2])]
    cfg = Cfg(toks, rules, [OM(("all",), ("all",), ",")], metadata={"b": 1, "a": [2, {"z": 3, "y": 4}]} if variant else {})
    want = canonical(cfg, None, dict(cfg=cfg), cov, False)
    order0 = [t for t in names if t != first]
    for n, o in enumerate(itertools.permutations(order0)):
        c = cfg.replace(tokens={t: toks[t] for t in (first,) + o})
        canonical(c, want, dict(cfg=cfg), cov, n % k == 0)
        if variant:
            c = c.replace(tokens={t: tuple(reversed(v)) for t, v in c.tokens.items()})
            canonical(c, want, dict(cfg=cfg), cov, False)


def run_many(case, cov):
    """One token (or all) with many classes, and many tokens: all rotations and the reversal."""
    n, what = case
    if what == "classes":
        cs = ["k%d" % (j * 7 % n) for j in range(n)]
        base = {"a": tuple(cs), "b": tuple(cs[: n // 2]), " ": ("wb",)}
        cfg = Cfg(base, [rule("A", "a"), rule("B", "b", pc=[cs[-1]], nc=[cs[0]]), rule("_", " ")], [OM((cs[0],), (cs[-1],), ",")], metadata={})
        vs = []
        for j in range(n):
            vs.append({"a": tuple(cs[j:] + cs[:j]), "b": tuple(reversed(cs[: n // 2])), " ": ("wb",)})
            sw = list(cs)
            sw[j], sw[0] = sw[0], sw[j]
            vs.append({" ": ("wb",), "b": base["b"], "a": tuple(sw)})
    else:
        toks = fam.big_tokens(n)
        names = list(toks)
        rs = [rule("[%d]" % i, [t]) for i, t in enumerate(names)] + [rule("<%d>" % i, [names[i], names[(i * 7 + 1) % n]]) for i in range(n)]
        rs += [rule("{%d}" % i, [names[i]], pc=["s%d" % (i % 7)], nc=["r%d" % (i % 3)]) for i in range(0, n, 3)]
        cfg = Cfg(toks, rs, [OM(("all", "r0"), ("s1",), ","), OM(("wb",), ("all",), "")], metadata={})
        vs = [{t: toks[t] for t in reversed(names)}]
        step = max(1, n // 12)
        for j in range(0, n, step):
            o = names[j:] + names[:j]
            vs.append({t: toks[t][::-1] for t in o})
    want = canonical(cfg, None, dict(what=case), cov, True)
    for j, v in enumerate(vs):
        canonical(cfg.replace(tokens=v), want, dict(what=case), cov, j < 2)


def run_pruned(case, cov):
    """Pruned transliterators dump like ones built from the rules left, however listed."""
    ks, lv = case
    base = Cfg({"a": ("v", "k"), "b": ("k", "v"), " ": ("wb", "v")}, [rule("A", "a"), rule("B", "b"), rule("_", " "), rule("AB", "ab", pc=["v"]), rule("BA", "ba", nt="b")], [OM(("v",), ("k",), ",")], metadata={})
    gone = [base.rules[k].prod for k in ks]
    left = base.replace(rules=[r for r in base.rules if r.prod not in gone])
    want = canonical(left, None, {}, cov, True)
    for c in listings(base):
        g = GT().from_dict(c.settings(), check_ambiguity=False)
        if lv is not None:
            g = GT().loads(g.dumps(lv))
        p = g.pruned_of(gone)
        cov.add("states", 1)
        cov.add("transitions", 1)
        if texts(p) != want:
            raise Bad("pruned transliterator dumps as %r, built one as %r" % (texts(p), want), listing=c, pruned=gone)
        cov.add("traces", 1)


def run_bundled(case, cov):
    import graphtransliterator.transliterators as T

    (name,) = case
    cls = getattr(T, name)
    y = cls.new(method="yaml")
    want = texts(y)
    G = GT()
    version = y.graphtransliterator_version
    for label, g in [("yaml again", cls.new(method="yaml")), ("coverage off", cls.new(method="yaml", coverage=False))] + [("text %d" % lv, G.loads(y.dumps(lv))) for lv in (0, 1, 2)] + [
        ("reversed", G.from_dict(reversed_settings(y), check_ambiguity=False))
    ]:
        cov.add("states", 1)
        cov.add("transitions", 1)
        if texts(g) != want:
            raise Bad("%s dumped after %s differs" % (name, label))
    cov.add("traces", 1)


def reversed_settings(g):
    d = g.dump()
    return {
        "tokens": {t: list(reversed(list(d["tokens"][t]))) for t in reversed(list(d["tokens"]))},
        "rules": [{k: v for k, v in r.items() if k != "cost"} for r in d["rules"]],
        "whitespace": d["whitespace"],
        "onmatch_rules": d["onmatch_rules"],
        "metadata": d["metadata"],
    }


def phases(tier):
    big = tier == "thorough"
    P = itertools.product
    return [
        Phase("classes", lambda: [(a, b, r, o) for a in CLS for b in CLS for r, o in RULES if big or len(a) + len(b) < (6 if o else 4) or (len(b) == 0 and o)], run_classes, cpu_limit=300, note="every order of the tokens and of each class list, for every pair of class lists"),
        Phase("tokens", lambda: [(i, f, v, 1 if big else 12) for i in range(len(TOKSETS)) for f in TOKSETS[i] + [" "] for v in (0, 1)], run_tokens, cpu_limit=120, note="every order of five tokens, for several kinds of tokens"),
        Phase("many", lambda: [(n, w) for n in (5, 9, 10, 11, 12, 30, 101) + ((300,) if big else ()) for w in ("classes", "tokens")], run_many, cpu_limit=300, note="many classes or tokens: all rotations and swaps"),
        Phase("pruned", lambda: P([ks for n in ((0, 1, 2, 3, 4) if big else (0, 1, 4)) for ks in itertools.combinations(range(5), n)], (None, 0, 1, 2)), run_pruned, cpu_limit=60, note="pruned transliterators"),
        Phase("bundled", lambda: [("Example",), ("ITRANSDevanagariToUnicode",)], run_bundled, cpu_limit=120, note="bundled transliterators"),
    ]
