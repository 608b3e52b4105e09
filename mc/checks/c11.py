import itertools
import json

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, build, mod, onmatch_list, outcome, same_rules
from mc.ref import OM, Cfg, rule

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "cases = configurations and sequences of dump/load steps; state = (configuration, steps so far); transition = one "
    "dump-and-load step on the implementation, after which the loaded transliterator is compared with the original and its model"
)
ASSUMPTIONS = [
    "order inside sets of classes is not compared; numbers are compared to nine digits",
    "context parts of a rule that are left out, null or empty lists are the same",
    "rules have the costs the library gives them",
    "scope: configurations, inputs and steps within the bounds stated per phase",
]


PARTS = ("prev_classes", "prev_tokens", "next_tokens", "next_classes")


def norm(x):
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(norm(v) for v in x)
    if isinstance(x, float):
        return round(x, 9)
    return x


def norm_dump(d):
    d = norm(d)
    for key in ("tokens", "tokens_by_class"):
        if isinstance(d.get(key), dict):
            d[key] = {k: sorted(v) for k, v in d[key].items()}
    if d.get("rules"):  # a context part may be left out, null or empty
        d["rules"] = [{k: v for k, v in r.items() if k not in PARTS or v} for r in d["rules"]]
    return d


def settings_of(g):
    return {
        "tokens": {k: sorted(v) for k, v in g.tokens.items()},
        "rules": [tuple(r) for r in same_rules(g)],
        "costs": [round(r.cost, 9) for r in g.rules],
        "whitespace": (g.whitespace.default, g.whitespace.token_class, bool(g.whitespace.consolidate)),
        "onmatch": onmatch_list(g),
        "metadata": norm(g.metadata),
        "ignore_errors": g.ignore_errors,
    }


def step(g, how):
    """One dump-and-load step."""
    kind, level = how
    G = GT()
    if kind == "data":
        return G.load(g.dump(level))
    if kind == "text":
        return G.loads(g.dumps(level))
    if kind == "json":
        return G.loads(json.dumps(g.dump(level)))
    if kind == "parsed":
        return G.load(json.loads(g.dumps(level)))
    raise ValueError(kind)


STEPS = [(k, lv) for k in ("data", "text", "json", "parsed") for lv in (0, 1, 2)]


def behaviour(g, cfg, inputs):
    out = []
    for s in inputs:
        out.append((outcome(g.transliterate, s), outcome(g.tokenize, s)))
        toks, bad = cfg.tokenize(s)
        if len(toks) < 12:
            out.append([(g.match_at(i, toks), sorted(g.match_at(i, toks, match_all=True))) for i in range(1, len(toks) - 1)])
    return out


def check_same(g, h, cfg, inputs, info, dumps=(0, 1, 2)):
    a, b = settings_of(g), settings_of(h)
    for k in a:
        if a[k] != b[k]:
            raise Bad("%s differ after loading" % k, got=b[k], expected=a[k], **info)
    x, y = behaviour(g, cfg, inputs), behaviour(h, cfg, inputs)
    if x != y:
        raise Bad("behaves differently after loading", differences=[(p, q) for p, q in zip(x, y) if p != q][:3], **info)
    for lv in dumps:
        p, q = norm_dump(g.dump(lv)), norm_dump(h.dump(lv))
        if p != q:
            raise Bad("dump at level %d differs after loading" % lv, differences=[(k, p.get(k), q.get(k)) for k in sorted(set(p) | set(q)) if p.get(k) != q.get(k)], **info)


def check_settings(g, cfg, ignore, info):
    """The transliterator has the settings it was built from."""
    s = settings_of(g)
    if s["tokens"] != {k: sorted(set(v)) for k, v in cfg.tokens.items()}:
        raise Bad("tokens differ from the settings", got=s["tokens"], **info)
    if sorted(s["rules"]) != sorted(tuple(r) for r in cfg.rules):
        raise Bad("rules differ from the settings", got=s["rules"], **info)
    if s["onmatch"] != list(cfg.onmatch):
        raise Bad("on-match rules differ from the settings", got=s["onmatch"], **info)
    if s["whitespace"] != tuple(cfg.ws) or s["ignore_errors"] is not ignore:
        raise Bad("whitespace or ignore_errors differ from the settings", got=s, **info)
    if (cfg.metadata or None) != (g.metadata or None):
        raise Bad("metadata differ from the settings", got=g.metadata, **info)


def run_cfg(case, cov):
    cfg, inputs, ignore, steps = case
    for spelling in ({}, dict(nulls=True), dict(empty=True))[: 3 if len(cfg.rules) < 8 and len(steps) < 3 else 1]:
        run_steps(cfg, inputs, ignore, steps, spelling, cov)


def run_steps(cfg, inputs, ignore, steps, spelling, cov):
    g = build(cfg, spelling, ignore_errors=ignore)
    info = dict(cfg=cfg, ignore_errors=ignore, missing_contexts=spelling)
    check_settings(g, cfg, ignore, info)
    for how in steps:
        h = step(g, how)
        cov.add("states", 1)
        cov.add("transitions", 1)
        check_same(g, h, cfg, inputs, dict(info, step=how), dumps=(0, 1, 2) if how[0] == "text" else (how[1],))
        cov.add("traces", 1)


def run_chain(case, cov):
    cfg, inputs, ignore, chain = case
    g = build(cfg, ignore_errors=ignore)
    h = g
    for n, how in enumerate(chain):
        h = step(h, how)
        cov.add("transitions", 1)
    cov.add("states", 1)
    cov.add("traces", 1)
    check_same(g, h, cfg, inputs, dict(cfg=cfg, ignore_errors=ignore, chain=chain))


def run_history(case, cov):
    """One transliterator dumped again and again, used and its errors ignored or not in between."""
    cfg, inputs, acts = case
    g = build(cfg)
    for n, act in enumerate(acts):
        if act in (True, False):
            g.ignore_errors = act
        elif act == "use":
            for s in inputs:
                outcome(g.transliterate, s)
        elif act == "match":
            for s in inputs:
                toks, _ = cfg.tokenize(s)
                outcome(g.match_at, 1, toks, True)
        elif act == "prune":
            g.pruned_of("A")
        else:
            h = step(g, act)
            info = dict(cfg=cfg, history=acts[: n + 1])
            if settings_of(h) != settings_of(g):
                raise Bad("settings differ after loading", got=settings_of(h), expected=settings_of(g), **info)
            if [outcome(h.transliterate, s) for s in inputs] != [outcome(g.transliterate, s) for s in inputs]:
                raise Bad("behaves differently after loading", **info)
            cov.add("states", 1)
        cov.add("transitions", 1)
    cov.add("traces", 1)


ACTS = [True, False, "use", "match", "prune"] + [(k, lv) for k in ("data", "text") for lv in (0, 1, 2)]


def histories(big):
    inputs = ["ab", "b?a ", "a", ""]
    for n in range(2, 5 if big else 4):
        for acts in itertools.product(ACTS, repeat=n):
            if isinstance(acts[-1], tuple):
                yield FULL, inputs, acts
    for acts in itertools.product((True, False), [("data", 0), ("text", 0), ("text", 1), ("text", 2)], (True, False), [("data", 0), ("text", 0), ("text", 1), ("text", 2)]):
        yield FULL, inputs, acts


OPTIONAL = ["onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"]


def run_optional(case, cov):
    cfg, inputs, drop, as_text = case
    g = build(cfg)
    d = g.dump()
    for k in drop:
        d.pop(k, None)
    h = GT().loads(json.dumps(d)) if as_text else GT().load(d)
    cov.add("states", 1)
    cov.add("transitions", 1)
    cov.add("traces", 1)
    check_same(g, h, cfg, inputs, dict(cfg=cfg, left_out=drop))
    # edge_list is derived from the edges; null stands for a missing optional entry
    d = g.dump()
    del d["graph"]["edge_list"]
    check_same(g, GT().load(d), cfg, inputs, dict(cfg=cfg, left_out="edge_list"))
    d = g.dump()
    for k in drop:
        if k in ("onmatch_rules_lookup", "graph"):
            d[k] = None
    check_same(g, GT().load(d), cfg, inputs, dict(cfg=cfg, nulled=drop))


def run_variants(case, cov):
    """Pruned, visit-logging and bundled transliterators dump and load as well."""
    cfg, inputs, how = case
    g = build(cfg)
    vs = [(g.pruned_of("A"), cfg)]
    if cfg.onmatch:
        vs.append((mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata, check_ambiguity=False), cfg))
    for v, c in vs:
        for s in inputs[:5]:
            outcome(v.transliterate, s)
        h = step(v, how)
        cov.add("states", 1)
        cov.add("transitions", 1)
        cov.add("traces", 1)
        check_same(v, h, c, inputs, dict(cfg=cfg, variant=type(v).__name__, step=how))


TEXTS = ["".join(t) for t in fam.strings("ab ", 0, 3)] + ["?", "a?b", "abba", "aabb", "ab ab"]
OMS = [OM(("v",), ("v",), "+"), OM(("wb", "v"), ("k", "wb"), "")]
FULL = Cfg(
    fam.TOK,
    fam.BASE_RULES + [rule("", "ab"), rule("A!", "a", pt="b", pc=["v", "k"], nt="ab", nc=["wb"]), rule("BB", "bb", nc=["v"]), rule("B", "ba", pc=["wb"])],
    OMS,
    metadata={"name": "x", "n": 1, "list": [1, None, {"a": "\u0915"}]},
)
METAS = [None, {}, {"name": "x"}, {"a": {"b": [1, 2, {"c": None}]}, "u": "\u0905\U0001f600", "f": 1.5, "t": True, "z": 0, "e": ""}, {"tokens": {}, "rules": [], "compressed_settings": 3}]
PRODS = ["", " ", "A", "\n", '"', "\\", "\u0915\u094d", "\U0001f600", "0", "null", "<a>", "\\N{DIGIT ONE}", "%s", "a" * 300, "\ufeff", "\u2028"]


def variety():
    for meta in METAS:
        for ignore in (False, True):
            for ws in ((" ", "wb", True), (" ", "wb", False)):
                for om in ([], OMS):
                    yield FULL.replace(metadata=meta, ws=ws, onmatch=om), TEXTS, ignore, STEPS
    for i, p in enumerate(PRODS):
        rs = [rule(p, "a"), rule(PRODS[i - 1], "b"), rule(p, " ")]
        yield Cfg(fam.TOK, rs, [OM(("v",), ("v",), p)], metadata={p or "k": p}), TEXTS, False, STEPS
    for n in range(4):
        yield Cfg(fam.TOK, fam.BASE_RULES[:n], OMS[: n % 3]), TEXTS, n % 2 == 1, STEPS
        yield Cfg(fam.TOK, fam.BASE_RULES[:n], OMS[: n % 3], ws=(" ", "wb", True)), TEXTS, n % 2 == 0, STEPS
    # tokens of many classes
    for n in (7, 8, 9, 12, 30):
        cs = tuple("c%d" % i for i in range(n))
        toks = {"a": cs, "b": cs[::-1] + ("k",), " ": ("wb",) + cs[:1]}
        rs = fam.BASE_RULES + [rule("p", "a", pc=[cs[-1]]), rule("n", "b", nc=[cs[n // 2]])]
        yield Cfg(toks, rs, [OM(cs[:3], cs[-2:], "+"), OM(("wb",), (cs[-1],), "-"), OM(("k",), (cs[n // 2],), "=")]), TEXTS, False, STEPS
        yield Cfg(toks, fam.BASE_RULES, [OM((c,), (d,), "%d" % i) for i, (c, d) in enumerate(zip(cs, cs[::-1]))]), TEXTS, False, STEPS[:6]
    # one, two or four tokens, in every order
    for names in [(" ",)] + list(itertools.permutations(("a", " "))) + list(itertools.permutations(("a", "b", "c", " "))):
        toks = {t: fam.TOK4[t] for t in names}
        rs = [rule(t.upper(), [t]) for t in names] + [rule("!", [names[-1]], pt=[names[0]], nc=["wb"]), rule("2", [names[0], names[-1]]), rule("3", [names[0]] * 2, nt=[names[-1]])]
        for k in range(len(rs)):
            yield Cfg(toks, rs[k:] + rs[: k // 2], OMS[: k % 3] if len(names) == 4 else [OM(("wb",), ("wb",), "-")] * (k % 2)), TEXTS[:12], k % 2 == 1, STEPS
    # tokens without classes, with repeated classes, classes named oddly
    for ca, cb in itertools.product([(), ("v",), ("v", "v"), ("wb",), ("", "x y"), ("k", "v", "a", "0"), ("<>", "\u0915")], repeat=2):
        toks = {"a": ca, "b": cb, " ": ("wb",)}
        rs = [rule("A", "a"), rule("B", "b"), rule("_", " ")]
        if ca:
            rs.append(rule("x", "b", pc=[ca[0]], nc=[ca[-1]]))
        if cb:
            rs.append(rule("y", "a", pc=[cb[-1]]))
        oms = [OM((c,), (d,), "%s/%s" % (c, d)) for c in ca for d in cb]
        yield Cfg(toks, rs, oms), TEXTS, False, STEPS


def sweep(big):
    for name, cfg, inputs in fam.sweep_cfgs(big):
        classes = sorted({c for v in cfg.tokens.values() for c in v})
        if len(cfg.tokens) > 150 and not big:
            continue
        oms = [OM((c,), (d,), "{%s%s}" % (c, d)) for c in classes[:3] for d in classes[-3:]]
        for how in (("text", 0), ("text", 1), ("text", 2), ("data", 1)):
            yield cfg.replace(onmatch=oms), inputs[:40], False, [how]


def phases(tier):
    big = tier == "thorough"
    ab = fam.seqs("ab", 1, 2)
    short = lambda al: fam.seqs(al, 0, 1)  # noqa
    pats = list(fam.all_patterns(ab, short("a "), short("b "), short(("v", "wb")), short(("k", "wb"))))
    pats += [(pc, pt, ("a",), nt, nc) for pc in fam.seqs(("v", "k"), 2, 2) for pt in fam.seqs("ab", 2, 2) for nt in ((), ("b", "a")) for nc in ((), ("k", "v"))]
    pool = fam.pool()
    sub = pool if big else pool[::3]
    short_texts = TEXTS[:14]
    om1 = [(pc, nc) for pc in fam.seqs(("v", "k", "wb"), 1, 2) for nc in fam.seqs(("v", "k", "wb"), 1, 2)]
    chains = [c for n in ((2, 3) if big else (2,)) for c in itertools.product([s for s in STEPS if s[0] in ("data", "text")], repeat=n)] + [(s,) * 5 for s in STEPS]
    drops = [d for n in range(len(OPTIONAL) + 1) for d in itertools.combinations(OPTIONAL, n)]
    gaps = Cfg({"ab": ("v",), "b": ("k",), " ": ("wb",), "\t": ("wb", "k")}, [rule("1", ["ab"]), rule("2", ["b"], pt=["ab"])], ws=("\t", "wb", True))
    return [
        Phase("variety", variety, run_cfg, note="metadata, productions, settings, class assignments; every way of dumping and loading"),
        Phase("sweep", lambda: sweep(big), run_cfg, note="large configurations, one dimension at a time"),
        Phase("optional", lambda: [(c, TEXTS, d, t) for c in (FULL, gaps, FULL.replace(onmatch=())) for d in drops for t in (False, True)], run_optional, note="every subset of the entries generated on demand left out"),
        Phase("chains", lambda: [(c, TEXTS, i, ch) for c in (FULL, gaps) for i in (False, True) for ch in chains], run_chain, note="sequences of dump-and-load steps"),
        Phase("histories", lambda: histories(big), run_history, note="dumps in every history of up to %d uses, prunings, dumps and changes of ignore_errors" % (4 if big else 3)),
        Phase("variants", lambda: [(c, TEXTS, s) for c in (FULL, gaps) for s in STEPS], run_variants, note="pruned and visit-logging transliterators"),
        Phase("one-rule", lambda: [(Cfg(fam.TOK, fam.named([p]) + fam.BASE_RULES[1:]), short_texts, False, [("text", lv)]) for p in pats for lv in (1, 2)] , run_cfg, note="every pattern of up to one item in each context part"),
        Phase("pairs", lambda: [(Cfg(fam.TOK, fam.named(p)), short_texts, False, [("text", 1), ("data", 2)]) for p in itertools.combinations(sub, 2)], run_cfg, note="pairs of rules from a pool"),
        Phase("onmatch", lambda: [(Cfg(fam.TOK, fam.BASE_RULES, fam.with_prods(p)), short_texts, False, [("text", 1), ("data", 0), ("text", 2)]) for p in itertools.permutations(om1 if big else om1[::4], 2)], run_cfg, note="ordered pairs of on-match rules"),
    ]
