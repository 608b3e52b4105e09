import itertools
import json
import math

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, mod
from mc.ref import OM, Cfg, need, onmatch_of, rule, rule_of

ID = "C31"
LEVEL = "model_checking"
RULE = (
    "cases = settings; state = settings x construction route; transition = one reported attribute compared with its value computed from the settings; "
    "traces = transliterators all of whose attributes agreed"
)
ASSUMPTIONS = [
    "a part that is missing, null or empty reports as None or empty",
    "order within sets of classes and of tokens is free; costs are compared to nine digits",
    "scope: settings and routes within the bounds stated per phase",
]


def lookup_of(cfg):
    """{current token: {previous token: on-match rules in order}}, by definition."""
    out = {}
    for c in cfg.tokens:
        for p in cfg.tokens:
            ks = [k for k, o in enumerate(cfg.onmatch) if o.nc[0] in cfg.tokens[c] and o.pc[-1] in cfg.tokens[p]]
            if ks:
                out.setdefault(c, {})[p] = ks
    return out


def expected(cfg, ignore):
    rules = sorted(cfg.rules, key=lambda r: -need(r))
    classes = {}
    for t, cs in cfg.tokens.items():
        for c in cs:
            classes.setdefault(c, set()).add(t)
    return {
        "tokens": {t: set(cs) for t, cs in cfg.tokens.items()},
        "tokens_by_class": classes,
        "rules": rules,
        "productions": [r.prod for r in rules],
        "costs": [round(math.log2(1 + 1 / (1 + need(r))), 9) for r in rules],
        "onmatch_rules": list(cfg.onmatch),
        "onmatch_rules_lookup": lookup_of(cfg),
        "whitespace": (cfg.ws.default, cfg.ws.cls, cfg.ws.cons),
        "metadata": dict(cfg.metadata or {}),
        "ignore_errors": ignore,
        "graphtransliterator_version": mod().__version__,
    }


def reported(g):
    ws = g.whitespace
    return {
        "tokens": {t: set(cs) for t, cs in g.tokens.items()},
        "tokens_by_class": {c: set(ts) for c, ts in g.tokens_by_class.items()},
        "rules": [rule_of(r) for r in g.rules],
        "productions": list(g.productions),
        "costs": [round(r.cost, 9) for r in g.rules],
        "onmatch_rules": [onmatch_of(o) for o in (g.onmatch_rules or [])],
        "onmatch_rules_lookup": {c: {p: list(ks) for p, ks in d.items()} for c, d in (g.onmatch_rules_lookup or {}).items()},
        "whitespace": (ws.default, ws.token_class, ws.consolidate),
        "metadata": dict(g.metadata or {}),
        "ignore_errors": g.ignore_errors,
        "graphtransliterator_version": g.graphtransliterator_version,
    }


GENERATED = ("onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version")


def routes(cfg, ignore, every):
    """(name, function) for every way to a transliterator with these settings."""
    import yaml

    G = GT()
    kw = dict(check_ambiguity=False, ignore_errors=ignore)
    yield "from_dict", lambda: G.from_dict(cfg.settings(), **kw)
    yield "from_dict, nulls", lambda: G.from_dict(cfg.settings(nulls=True), **kw)
    yield "from_dict, empty contexts", lambda: G.from_dict(cfg.settings(empty=True), **kw)
    base = G.from_dict(cfg.settings(), **kw)
    parts = lambda: (base.tokens, list(base.rules), base.whitespace)  # noqa
    opts = lambda: dict(onmatch_rules=base.onmatch_rules, metadata=base.metadata, **kw)  # noqa
    yield "constructor", lambda: G(*parts(), **opts())
    for level in (0, 1, 2):
        yield "load of dump(%d)" % level, lambda: G.load(base.dump(compression_level=level))
        yield "loads of dumps(%d)" % level, lambda: G.loads(base.dumps(compression_level=level))
    if not every:
        return
    yield "coverage", lambda: mod().CoverageTransliterator(*parts(), **opts())
    # what the notation can express: spaces only as rules of their own, no rule twice
    plain = all(t.strip() for r in cfg.rules if r[1:] != ((), (), (" ",), (), ()) for t in r.pt + r.t + r.nt)
    if plain and len({r[1:] for r in cfg.rules}) == len(cfg.rules):
        e = cfg.easy()
        yield "from_easyreading_dict", lambda: G.from_easyreading_dict(e, **kw)
        yield "from_yaml", lambda: G.from_yaml(yaml.safe_dump(e, sort_keys=False, allow_unicode=True), **kw)
    yield "constructor with every part", lambda: G(
        *parts(), onmatch_rules_lookup=base.onmatch_rules_lookup, tokens_by_class=base.tokens_by_class, graph=base.graph, tokenizer_pattern=base.tokenizer_pattern, **opts()
    )
    for k in GENERATED:
        yield "load without " + k, lambda: G.load({x: v for x, v in base.dump().items() if x != k})
    yield "load without any of them", lambda: G.load({x: v for x, v in base.dump().items() if x not in GENERATED})
    yield "copy of a copy", lambda: G.loads(G.loads(base.dumps(1)).dumps(2))
    yield "after use", lambda: used(G.from_dict(cfg.settings(), **kw))


def used(g):
    texts = ["", "ab", "a b", "b  a"]
    g.ignore_errors, was = True, g.ignore_errors
    for s in texts:
        g.transliterate(s)
        g.match_at(1, g.tokenize(s), match_all=True)
    g.ignore_errors = was
    g.dump(), g.dumps()
    return g


def compare(g, want, info, cov):
    got = reported(g)
    for k, v in want.items():
        cov.add("transitions", 1)
        if got[k] != v:
            raise Bad("%s is not that of the settings" % k, got=got[k], expected=v, **info)
    cov.add("states", 1)
    cov.add("traces", 1)


def run(case, cov):
    cfg, every = case
    for ignore in (False, True) if every else (False,):
        want = expected(cfg, ignore)
        for name, make in routes(cfg, ignore, every):
            try:
                g = make()
            except Exception as e:
                raise Bad("%s raises %s" % (name, type(e).__name__), cfg=cfg, route=name, error=str(e))
            compare(g, want, dict(cfg=cfg, route=name, ignore_errors=ignore), cov)
    if every:
        for prods in [[p] for p in {r.prod for r in cfg.rules}] + [[], [r.prod for r in cfg.rules[:2]]]:
            left = cfg.replace(rules=[r for r in sorted(cfg.rules, key=lambda r: -need(r)) if r.prod not in prods])
            g = GT().from_dict(cfg.settings(), check_ambiguity=False).pruned_of(prods)
            compare(g, expected(left, False), dict(cfg=cfg, route="pruned of %r" % prods), cov)


def class_cfgs(big):
    """Every assignment of up to two classes to three tokens, with on-match rules over all of them."""
    opts = [(), ("v",), ("k",), ("v", "k"), ("k", "v"), ("wb", "v")]
    oms = [OM((p,), (n,), "%s%s" % (p, n)) for p in ("v", "k", "wb") for n in ("v", "k", "wb")]
    for x, y, z in itertools.product(opts, repeat=3):
        toks = {"a": x, "b": y, "ab": z, " ": ("wb",)}
        have = {c for cs in toks.values() for c in cs}
        o = [m for m in oms if set(m.pc + m.nc) <= have]
        yield Cfg(toks, fam.BASE_RULES, o), False
        if big or "wb" in x + y + z:
            yield Cfg(toks, fam.BASE_RULES[::-1], o[::-1], (" ", "wb", True), {"x": 1}), False


def onmatch_cfgs(big):
    pool = fam.onmatch_pool(("v", "k"), 2, 2) + [(("wb",), ("v",)), (("v",), ("wb",))]
    for oms in itertools.permutations(pool, 2):
        yield Cfg(fam.TOK, fam.BASE_RULES, fam.with_prods(oms)), False
    for oms in list(itertools.permutations(pool[:9] if big else pool[:6], 3)):
        yield Cfg(fam.TOK, fam.BASE_RULES, [OM(p, n, "-") for p, n in oms]), False


def rule_cfgs(big):
    pool = fam.named(fam.pool())
    for n, rs in enumerate(itertools.permutations(pool, 2) if big else itertools.combinations(pool, 2)):
        yield Cfg(fam.TOK, rs if n % 2 else rs[::-1]), False
    sp = fam.named(fam.small_pool())
    for rs in itertools.permutations(sp[:: 1 if big else 3], 3):
        yield Cfg(fam.TOK, rs), False


META = [None, {}, {"a": "b"}, {"a": None, "b": [1, 2, {"c": []}], "c": {"d": {"e": 1.5}}}, {"name": "", "x": 0, "y": False}, {"\u0905": "\U0001f600"}, {"version": "9.9.9"}]


def full_cfgs(big):
    """Fewer settings through all routes."""
    oms = fam.with_prods([(("v",), ("v",)), (("k", "v"), ("v",)), (("v",), ("k", "wb"))])
    sp = fam.small_pool()
    for n, m in enumerate(META):
        for cons in (False, True):
            for k in range(len(oms) + 1):
                rs = fam.BASE_RULES + fam.named([sp[(n + k) % len(sp)], sp[(2 * n + 3 * k + 1) % len(sp)]])
                yield Cfg(fam.TOK, rs, oms[:k], (" ", "wb", cons), m), True
    for toks, ws in (
        ({" ": ("wb",)}, " "),
        ({"_": ("wb", "x"), " ": ("wb",), "a": ()}, "_"),
        ({"a": ("a", "b"), "b": ("b", "a"), " ": ("_", "a")}, " "),
        ({"ab": ("v",), "a": (), "b": (), "abc": ("v", "wb")}, "abc"),
        ({"'": ("\"",), "\\": ("'", "\\"), "(": (")",), " ": ("wb",)}, " "),
        ({"\u0915": ("\u0905",), "\U0001f600": ("\u0905", "e\u0301"), " ": ("wb",)}, " "),
    ):
        cls = toks[ws][0]
        rs = [rule(t.upper() + "!", [t]) for t in toks] + [rule("2", list(toks)[:1] * 2)]
        cs = sorted({c for x in toks.values() for c in x})
        yield Cfg(toks, rs, [OM((cs[0],), (cs[-1],), "+"), OM((cs[-1], cs[0]), (cs[0],), "")], (ws, cls, False)), "(" not in toks
    # many on-match rules for the same tokens, of different lengths
    for n in (3, 11, 12, 60):
        for step in (1, 5, 7):
            om = [OM(("v", "k")[: 1 + k * step % 2][::-1][:1] * (1 + k % 3), ("v",) * (1 + k * step % 4), "%d" % k) for k in range(n)]
            yield Cfg(fam.TOK, fam.BASE_RULES, om), True
    # classes of many tokens, tokens of many classes
    for n in (70, 130, 260, 300):
        toks = dict([("t%d" % i, ("all", "m%d" % (i % 3))) for i in range(n)] + [(" ", ("wb",))])
        yield Cfg(toks, [rule("A", ["t0"], pc=["all"]), rule("B", ["t%d" % (n - 1)], nc=["m1"])], [OM(("wb",), ("all",), "+"), OM(("all",), ("wb",), "-"), OM(("m1",), ("wb", "all"), "=")]), False
        cs = tuple("c%d" % i for i in range(n))
        toks = {"a": cs, "b": cs[::-1] + ("k",), " ": ("wb",)}
        yield Cfg(toks, [rule("A", "a", pc=[cs[-1]]), rule("B", "b", nc=[cs[n // 2]])], [OM((c,), (d,), "+") for c, d in zip(cs, cs[::-1])]), False
    # equal, empty and blank productions; blanks in names
    for prods in (("", "x", ""), ("x", "", "0"), (" ", "", "x "), ("0", "", "None")):
        rs = [rule(p, t) for p, t in zip(prods, "ab ")] + [rule(p, "a", pt=t) for p, t in zip(prods[::-1], "ab")]
        yield Cfg(fam.TOK, rs, [OM(("v",), ("v",), prods[0])]), True
    for c in (" v", "v ", "  ", "v\n", "V", "v|k", "v,k"):
        yield Cfg({"a": (c, "v"), "b": (c,), " ": ("wb", "k")}, [rule("A", "a", pc=[c]), rule("B", "b", nc=[c, "v"]), rule("_", " ")], [OM((c,), ("v",), "+"), OM(("v",), (c, c), "-")], metadata={c: c}), False
    for name, cfg, _ in fam.sweep_cfgs(big):
        yield cfg, big or len(cfg.rules) < 8
    yield Cfg(fam.TOK, []), False


def phases(tier):
    big = tier == "thorough"
    return [
        Phase("routes", lambda: list(full_cfgs(big)), run, cpu_limit=200, note="settings of every kind through every construction route, pruned, after use"),
        Phase("classes", lambda: list(class_cfgs(big)), run, note="every assignment of classes to three tokens, nine on-match rules"),
        Phase("onmatch", lambda: list(onmatch_cfgs(big)), run, note="ordered pairs and triples of on-match rules"),
        Phase("rules", lambda: list(rule_cfgs(big)), run, note="pairs and ordered triples of rules"),
    ]
