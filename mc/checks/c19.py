import itertools
import json

from mc import fam
from mc.checks.c11 import norm_dump, settings_of
from mc.engine import Bad, Phase
from mc.impl import GT, build, mod, outcome, same_rules
from mc.ref import OM, Cfg, R, rule

ID = "C19"
LEVEL = "model_checking"
RULE = (
    "cases = transliterator x sequence of prunings; state = set of rules left (predicted by exact comparison of productions); transition = "
    "one pruning on the implementation; traces = pruned transliterators equal to one built from the rules left"
)
ASSUMPTIONS = ["scope: productions, prune arguments, chains and configurations within the bounds stated per phase"]

TEXTS = ["".join(t) for t in fam.strings("ab ", 0, 3)] + ["abba ab", "?a", "a?", "aabbab"]
OMS = [OM(("v",), ("v",), "+"), OM(("wb",), ("k",), "")]


def results(g, texts):
    return [(outcome(g.transliterate, s), outcome(g.tokenize, s)) for s in texts]


def construct(cfg, kind, kw):
    g = GT().from_dict(cfg.settings(), **kw)
    if kind == "loaded":
        g = GT().loads(g.dumps(), **kw)
    elif kind == "loaded1":
        g = GT().load(g.dump(1), **kw)
    elif kind == "coverage":
        g = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata, **kw)
    return g


def snapshot(g, texts):
    return results(g, texts), norm_dump(g.dump()), settings_of(g), g.dumps(1)


def compare(h, cfg, kw, texts, info):
    """h against a transliterator built from cfg."""
    ref = GT().from_dict(cfg.settings(), **kw)
    if type(h).__name__ != "GraphTransliterator" and not isinstance(h, GT()):
        raise Bad("is a %s" % type(h).__name__, **info)
    a, b = settings_of(h), settings_of(ref)
    for k in a:
        if a[k] != b[k]:
            raise Bad("%s differ from those of the rules left" % k, got=a[k], expected=b[k], **info)
    if [r.prod for r in same_rules(h)] != [r.prod for r in same_rules(ref)]:
        raise Bad("other rules are left", got=same_rules(h), **info)
    x, y = results(h, texts), results(ref, texts)
    if x != y:
        i = [i for i in range(len(x)) if x[i] != y[i]][0]
        raise Bad("behaves differently from one built from the rules left", input=texts[i], got=x[i], expected=y[i], **info)
    for s in texts[:12]:
        toks, bad = cfg.tokenize(s)
        for i in range(1, len(toks) - 1):
            p, q = h.match_at(i, toks, match_all=True), ref.match_at(i, toks, match_all=True)
            if sorted(p) != sorted(q) or h.match_at(i, toks) != ref.match_at(i, toks):
                raise Bad("matches differently from one built from the rules left", input=s, position=i, got=p, expected=q, **info)
    if norm_dump(h.dump()) != norm_dump(ref.dump()):
        raise Bad("dump differs from one built from the rules left", **info)


def chain(case, cov):
    from graphtransliterator.exceptions import AmbiguousTransliterationRulesException as Amb

    cfg, kind, kw, args, texts = case
    try:
        g = construct(cfg, kind, kw)
    except Amb:
        return
    before = snapshot(g, texts)
    h, left = g, cfg
    for n, a in enumerate(args):
        gone = [a] if isinstance(a, str) else list(a)
        left = left.replace(rules=[r for r in left.rules if not any(r.prod == p for p in gone)])
        info = dict(cfg=cfg, kind=kind, options=kw, prunings=args[: n + 1])
        cov.add("states", 1)
        cov.add("transitions", 1)
        arg = a if isinstance(a, str) else list(a)
        r = outcome(lambda: h.pruned_of(arg))
        ref = outcome(lambda: GT().from_dict(left.settings(), **kw))
        if r[0] != ref[0] or (r[0] == "exc" and r[1] != ref[1]):
            raise Bad("pruning gives %r, building from the rules left %r" % (r, ref), **info)
        if r[0] == "exc":
            cov.add("ambiguous", 1)
            break
        if not isinstance(a, str) and arg != list(a):
            raise Bad("the list of productions was changed", got=arg, **info)
        prev, h = h, r[1]
        if n == 0 and h is g:
            raise Bad("pruning returns the original", **info)
        compare(h, left, kw, texts, info)
        cov.add("traces", 1)
    if snapshot(g, texts) != before:
        raise Bad("the original changed", cfg=cfg, kind=kind, options=kw, prunings=args)


PRODS = ["", "A", "B", "AB", "BA", "ABA", "a", "A ", "\u0915", "\u0915\u094d"]
ARGS = [p for p in PRODS] + ["C", "AA", "A B", "None", "<A>"]


def rules_with(prods):
    pats = [fam.pat("a"), fam.pat("b"), fam.pat("ab"), fam.pat("a", pt="b"), fam.pat("b", nc="w"), fam.pat("ba", pc="v"), fam.pat("_"), fam.pat("bb"), fam.pat("a", pc="k"), fam.pat("aa", nt="b")]
    return [R(p, *pats[i]) for i, p in enumerate(prods)]


def single_cases(big):
    cfg = Cfg(fam.TOK, rules_with(PRODS), OMS, metadata={"n": 1})
    kw = {"check_ambiguity": False}
    for a in ARGS:
        for kind in ("built", "loaded", "loaded1", "coverage"):
            yield cfg, kind, kw, (a,), TEXTS
    for n in range(0, 4):
        for a in itertools.combinations(ARGS, n):
            if n == 3 and not big and hash(len("".join(a))) % 3:
                continue
            yield cfg, "built", kw, (a,), TEXTS
    yield cfg, "built", kw, (tuple(PRODS),), TEXTS
    yield cfg, "built", kw, (("A", "A"),), TEXTS
    yield cfg, "built", kw, (tuple(reversed(ARGS)),), TEXTS


def equal_prods(big):
    """Several rules with the same production, in every pattern of equality."""
    for prods in itertools.product(("A", "AB", ""), repeat=5 if big else 4):
        cfg = Cfg(fam.TOK, rules_with(prods), OMS[:1])
        for args in (("A",), ("AB",), ("",), (("A", ""),), (("AB",), "A"), ([],), (("", "AB", "A"),)):
            yield cfg, "built", {"check_ambiguity": False}, args, TEXTS[:20]


def option_cases(big):
    """Options are kept: also when pruning makes the rules left ambiguous."""
    rs = [rule("A", "a"), rule("B", "b"), rule("x", "a", pt="b"), rule("y", "a", nt="b"), rule("xy", "a", pt="b", nt="b"), rule("_", " ")]
    for om in ([], OMS):
        for meta in (None, {}, {"name": "x", "l": [1]}):
            for ws in ((" ", "wb", True), (" ", "wb", False)):
                for kw in itertools.product((None, False, True), (None, False, True)):
                    kw = {k: v for k, v in zip(("check_ambiguity", "ignore_errors"), kw) if v is not None}
                    cfg = Cfg(fam.TOK, rs, om, ws=ws, metadata=meta)
                    for args in (("xy",), ("x",), ("x", "xy"), ("xy", "x"), (("x", "xy"),), ("_",), ("B", "A"), ([],), ("y", "x", "A")):
                        yield cfg, "built", kw, args, TEXTS
                        if big:
                            for kind in ("loaded", "loaded1", "coverage"):
                                yield cfg, kind, dict({"check_ambiguity": False}, **kw), args, TEXTS


def chain_cases(big):
    cfg = Cfg(fam.TOK, rules_with(PRODS[:6]), OMS, metadata={"n": 1})
    steps = PRODS[:6] + ["C", ("A", "B"), ()]
    for kind in ("built", "loaded", "coverage"):
        for args in itertools.product(steps, repeat=3 if big else 2):
            yield cfg, kind, {"check_ambiguity": False, "ignore_errors": kind == "loaded"}, args, TEXTS[:16]
    yield cfg, "built", {"check_ambiguity": False}, ("C",) * 30, TEXTS[:16]


def pool_cases(big):
    pool = fam.pool() if big else fam.pool()[::2]
    for p in itertools.combinations(pool, 2):
        cfg = Cfg(fam.TOK, [R("A", *p[0]), R("AB", *p[1]), R("B", *fam.pat("bb"))])
        yield cfg, "built", {"check_ambiguity": False}, ("A", "B"), TEXTS[:14]
        yield cfg, "built", {"check_ambiguity": False}, ("AB",), TEXTS[:14]


def sweep_cases(big):
    for name, cfg, inputs in fam.sweep_cfgs(big):
        if len(cfg.tokens) > 150 and not big:
            continue
        prods = [r.prod for r in cfg.rules]
        for args in ((prods[0],), (prods[-1],), (prods[::2],), (prods[1::2], prods[-1])):
            yield cfg, "built", {"check_ambiguity": False, "ignore_errors": True}, args, inputs[:12]


# productions that are alike, but not equal
ALIKE = [
    "\u00e9", "e\u0301", "\u00c9", "e", "E", " e", "e ", "\te", "e\n", "", " ", "\u00a0", "\u200b", "\u200d", "e\u200d", "ss", "\u00df", "\u1e9e", "SS", "1", "01", "1.0", "\u0661",
    "\u212b", "\u00c5", "A\u030a", "\ufb01", "fi", "\uff45", "K", "\u212a", "k", "I", "i", "\u0131", "\u0130", "\\u00e9", "None", "none", "0", "False", "ee", "e.", "e*", ".", "[e]", "^e", "e$",
]


def alike_cases(big):
    toks = {chr(0x4E00 + i): ("w",) for i in range(len(ALIKE))}
    toks[" "] = ("wb",)
    names = list(toks)
    cfg = Cfg(toks, [R(p, (), (), (names[i],), (), ()) for i, p in enumerate(ALIKE)])
    texts = ["".join(names[:-1]), " ".join(names[5:9])]
    kw = {"check_ambiguity": False, "ignore_errors": True}
    others = [p.upper() for p in ALIKE] + [p.lower() for p in ALIKE] + [p + " " for p in ALIKE] + ["x" + p for p in ALIKE] + [p * 2 for p in ALIKE]
    for p in ALIKE + sorted(set(others)):
        yield cfg, "built", kw, (p,), texts
        yield cfg, "built", kw, ((p,),), texts
    for i, p in enumerate(ALIKE):
        for q in ALIKE[i + 1 :] if big else ALIKE[i + 1 : i + 8]:
            yield cfg, "built", kw, ((p, q),), texts
            yield cfg, "built", kw, (q, p), texts


def run_original(case, cov):
    """Using pruned transliterators in any way leaves the original as it was, and it them."""
    cfg, kind, ops = case
    g = construct(cfg, kind, {"check_ambiguity": False})
    before = snapshot(g, TEXTS[:14])
    h = g.pruned_of("A")
    for k, op in enumerate(ops):
        if op == "use":
            results(h, TEXTS)
        elif op == "prune":
            h.pruned_of(["B", ""])
        elif op == "ignore":
            h.ignore_errors = True
        elif op == "ignore-original":
            g.ignore_errors = not g.ignore_errors
            g.ignore_errors = not g.ignore_errors
            if h.ignore_errors != ("ignore" in ops[:k]):
                raise Bad("changing ignore_errors of the original changes the pruned one", ops=ops)
        elif op == "dump":
            h.dumps(1)
            h.dump()
        elif op == "prune-original":
            g.pruned_of("B")
    cov.add("states", 1)
    cov.add("transitions", len(ops))
    if snapshot(g, TEXTS[:14]) != before:
        raise Bad("the original changed", cfg=cfg, kind=kind, operations=ops)
    left = cfg.replace(rules=[r for r in cfg.rules if r.prod != "A"])
    compare(h, left, {"check_ambiguity": False, "ignore_errors": "ignore" in ops}, TEXTS[:14], dict(cfg=cfg, kind=kind, operations=ops))
    cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    cfg = Cfg(fam.TOK, rules_with(PRODS), OMS, metadata={"n": 1})
    ops = ["use", "prune", "ignore", "ignore-original", "dump", "prune-original"]
    return [
        Phase("arguments", lambda: single_cases(big), chain, note="one pruning by text or list"),
        Phase("alike", lambda: alike_cases(big), chain, note="productions that differ only in case, form, width or blanks, or mean something to a regular expression"),
        Phase("equal", lambda: equal_prods(big), chain, note="rules sharing productions"),
        Phase("options", lambda: option_cases(big), chain, note="options, metadata, whitespace, on-match rules are kept"),
        Phase("chains", lambda: chain_cases(big), chain, note="sequences of prunings"),
        Phase("pool", lambda: pool_cases(big), chain, note="pairs of rules from a pool"),
        Phase("sweep", lambda: sweep_cases(big), chain, cpu_limit=120, note="large configurations"),
        Phase("original", lambda: [(c, k, o) for c in (cfg,) for k in ("built", "loaded", "coverage") for n in range(1, 5 if big else 4) for o in itertools.product(ops, repeat=n)], run_original, note="sequences of operations on the pruned transliterator and the original"),
    ]
