import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C25"
LEVEL = "model_checking"
RULE = (
    "cases = configurations; state = one rule or on-match rule of a configuration; transition = one generation of a test table by the "
    "implementation; traces = tables in which every rule has an instance and every output is a run of the model and the library's own answer"
)
ASSUMPTIONS = [
    "generation is only required to succeed if every class used in a rule or on-match rule has a token and every possible sample input can be transliterated (otherwise the "
    "transliterator may raise)",
    "characters that YAML text cannot hold (surrogates, most control characters) do not occur",
    "scope: the configurations listed per phase",
]


def instances(parts, cfg):
    """All strings spelling an instance of a sequence of ('t', token) and ('c', class)."""
    by = {}
    for t, cs in cfg.tokens.items():
        for c in cs:
            by.setdefault(c, []).append(t)
    choices = [[x] if k == "t" else by.get(x, []) for k, x in parts]
    return ("".join(p) for p in itertools.product(*choices))


def parts_of(r):
    return [("c", c) for c in r.pc] + [("t", t) for t in r.pt + r.t + r.nt] + [("c", c) for c in r.nc]


def om_parts(o):
    return [("c", c) for c in o.pc + o.nc]


def spelled(parts, cfg, text):
    """Whether text spells an instance (dynamic programming over positions)."""
    pos = {0}
    for k, x in parts:
        new = set()
        for t in [x] if k == "t" else [t for t, cs in cfg.tokens.items() if x in cs]:
            for p in pos:
                if text.startswith(t, p):
                    new.add(p + len(t))
        pos = new
    return len(text) in pos


def judge(gt, cfg, table, info, cov):
    for what, items, f in (("rule", cfg.rules, parts_of), ("on-match rule", cfg.onmatch, om_parts)):
        for x in items:
            ps = f(x)
            if not any(spelled(ps, cfg, s) for s in table):
                raise Bad("no test for %s %r" % (what, tuple(x)), table=table, **info)
            cov.add("states", 1)
    for s, out in table.items():
        if not isinstance(s, str) or not isinstance(out, str):
            raise Bad("test %r: %r is not text" % (s, out), **info)
        r = outcome(gt.transliterate, s)
        if r != ("ok", out):
            raise Bad("test records %r for %r, transliterating gives %r" % (out, s, r), **info)
        toks, bad = cfg.tokenize(s)
        acc, _, _ = cfg.explore(toks, out, gt.ignore_errors)
        if bad and not gt.ignore_errors or not acc:
            raise Bad("test records %r for %r, which is no run of the model" % (out, s), **info)
    cov.add("traces", 1)


def can_fail(cfg):
    """Whether some sample input cannot be transliterated."""
    for items, f in ((cfg.rules, parts_of), (cfg.onmatch, om_parts)):
        for x in items:
            n = 0
            for s in instances(f(x), cfg):
                n += 1
                toks, bad = cfg.tokenize(s)
                if bad or cfg.explore(toks, None)[1]:
                    return True
            if not n:
                return True
    return False


_cls = {}


def scratch(g, coverage):
    """A bundled transliterator object with the parts of g."""
    import graphtransliterator.transliterators as T

    if "c" not in _cls:

        class Scratch(T.Bundled):
            def __init__(self, g, coverage):
                base = mod().CoverageTransliterator if coverage else GT()
                base.__init__(self, g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, ignore_errors=g.ignore_errors, check_ambiguity=False)

        _cls["c"] = Scratch
    return _cls["c"](g, coverage)


def generate(g, way):
    import yaml
    import graphtransliterator.transliterators as T

    if way == "function":
        text = T.Bundled.generate_yaml_tests(g)
    elif way == "cli":
        from mc.checks.c24 import invoke

        code, text = invoke(["generate-tests", "--from", "json", g.dumps()])
        if code:
            raise RuntimeError("generate-tests failed")
    else:
        text = scratch(g, way == "coverage").generate_yaml_tests()
    if not isinstance(text, str):
        raise Bad("generated tests are %r, not text" % (text,))
    return yaml.safe_load(text) or {}


def check(cfg, ways, cov, ignore=False):
    gt = GT().from_dict(cfg.settings(), check_ambiguity=False, ignore_errors=ignore)
    fails = None
    for way in ways:
        info = dict(cfg=cfg, way=way, ignore_errors=ignore)
        before = gt.dump()
        r = outcome(generate, gt, way)
        cov.add("transitions", 1)
        if r[0] == "exc":
            if fails is None:
                fails = (not ignore and can_fail(cfg)) or any(c not in set(c for cs in cfg.tokens.values() for c in cs) for x in cfg.rules + cfg.onmatch for c in x.pc + x.nc)
            if not fails:
                raise Bad("generating tests raises %s" % r[1], **info)
            continue
        if way == "cli" and ignore:
            continue
        judge(gt, cfg, r[1], info, cov)
        if gt.dump() != before:
            raise Bad("generating tests changes the transliterator", **info)


def run_sets(case, cov):
    (pats, oms), ways = case
    check(Cfg(fam.TOK, fam.BASE_RULES + fam.named(pats), fam.with_prods(oms)), ways, cov)


def long_cases(big):
    """One rule or on-match rule with long contexts of classes that differ from place to place."""
    toks = {t: ("c%d" % i, "d%d" % (i % 2), "all") for i, t in enumerate("abcde")}
    toks[" "] = ("wb",)
    base = [rule(t.upper(), t) for t in "abcde "]
    top = 7 if big else 5
    for p in range(1, top):
        for n in range(1, top):
            for shift in range(5):
                pc = ["c%d" % ((i + shift) % 5) for i in range(p)]
                nc = ["c%d" % ((2 * i + shift) % 5) for i in range(n)]
                yield Cfg(toks, base, [OM(tuple(pc), tuple(nc), "+")])
                yield Cfg(toks, base, [OM(tuple(nc), ("d0",) + tuple(pc), "+"), OM(("all",) * p, tuple(nc), "-")])
                yield Cfg(toks, base + [rule("!", "ab", pc=pc, pt="cde"[:shift], nt="edcba"[:p], nc=nc)])
                yield Cfg(toks, base + [rule("!", "abcde"[:n], pt="abcde"[:p]), rule("?", "e", nt="edcba"[:p], nc=["d1"] * n)])


def run_long(case, cov):
    check(case, ("function",), cov)


def many_cases(big):
    """Many rules, and many on-match rules."""
    for n in (60, 130, 260, 600) + ((1300,) if big else ()):
        toks = {"t%04d" % i: ("c%d" % (i % 40), "all") for i in range(n)}
        toks[" "] = ("wb",)
        base = [rule("P%d" % i, [t]) for i, t in enumerate(toks)]
        yield Cfg(toks, base)
        yield Cfg(toks, base + [rule("!", ["t0001"], pc=["all"]), rule("?", ["t0002"], pt=["t%04d" % (n - 1)], nc=["c7"])], [OM(("c1",), ("c2",), "+")])
    for n in (60, 130, 260, 600):
        toks = {"t%04d" % i: ("c%d" % i,) for i in range(30)}
        toks[" "] = ("wb",)
        base = [rule("P%d" % i, [t]) for i, t in enumerate(toks)]
        yield Cfg(toks, base, [OM(("c%d" % (i // 30 % 30),), ("c%d" % (i % 30),), "-%d" % i) for i in range(n)])


def run_bare(case, cov):
    """Rules that cannot transliterate everything."""
    pats, ways = case
    cfg = Cfg(fam.TOK, fam.named(pats), [OM(("v",), ("k",), ",")])
    check(cfg, ways, cov)
    check(cfg, ways, cov, ignore=True)


ODD = [
    ["a", "b"], ["yes", "no"], ["1", "2"], ["null", "~"], ["- a", "b: "], ["\u0905", "\u094d"], ["'", '"'], ["\n", "\t"], ["{", "}"], ["#", "&"], ["1.5", "0x1F"], ["\U0001f600", "\u200d"],
    ["a", "aa"], ["ab", "a"], ["true", "2001-01-01"], ["<<", "="], ["!", "%"], ["\\", "|"], ["\u2029", "\u2028"], ["*", "?"],
]


def run_odd(case, cov):
    (x, y), prods, ws, ways = case
    toks = {x: ("c", "d"), y: ("d",), ws: ("w",)}
    rules = [rule(prods[0], [x]), rule(prods[1], [y]), rule(ws, [ws]), rule(prods[0] + prods[1], [x, y], pc=["d"]), rule(prods[1] * 2, [y], pt=[x], nt=[ws]), rule("", [x], pc=["w"], pt=[y], nt=[x], nc=["d"])]
    for cons in (False, True):
        check(Cfg(toks, rules, [OM(("d",), ("c",), prods[1]), OM(("c",), ("d", "w"), "")], ws=(ws, "w", cons)), ways, cov)


def run_next_line(case, cov):
    """Productions with U+0085, which the YAML library writes but reads back as a space."""
    (prod,) = case
    cfg = Cfg({"a": (), "b": (), " ": ("w",)}, [rule("A", "a"), rule(prod, "b"), rule(" ", " ")], ws=(" ", "w", False))
    gt = GT().from_dict(cfg.settings())
    table = generate(gt, "function")
    cov.add("transitions", 1)
    want = {"a": "A", "b": prod, " ": " "}
    if set(table) != set(want):
        raise Bad("generated tests are %r" % table, cfg=cfg)
    for s in want:
        cov.add("states", 1)
        if table[s] != want[s]:
            raise Bad("test records %r for %r, transliterating gives %r" % (table[s], s, want[s]), key="next-line-character" if s == "b" and table[s] == prod.replace("\x85", " ") else None, cfg=cfg)
    cov.add("traces", 1)


def run_bundled(case, cov):
    import graphtransliterator.transliterators as T
    from mc.checks.c22 import cfg_of

    name, method, ways = case
    c = getattr(T, name).new(method=method, coverage=True)
    import yaml

    cfg = cfg_of(c)
    table = yaml.safe_load(c.generate_yaml_tests())
    judge(c, cfg, table, dict(bundled=name, method=method), cov)
    cov.add("transitions", 1)
    from mc.checks.c24 import invoke

    code, text = invoke(["generate-tests", "--from", "bundled", name])
    if code:
        raise Bad("generate-tests fails", status=code)
    judge(c, cfg, yaml.safe_load(text), dict(bundled=name, method="cli"), cov)


def phases(tier):
    big = tier == "thorough"
    P = itertools.product
    pats = fam.pool()
    oms = fam.onmatch_pool()
    fast = ("function",)
    every = ("function", "bundled", "coverage", "cli")
    wide = list(fam.all_patterns(
        [tuple(x) for x in ("a", "ab", "ba")], fam.seqs("ab ", 0, 2 if big else 1), fam.seqs("ab ", 0, 2 if big else 1), fam.seqs(("v", "k", "wb"), 0, 2), fam.seqs(("v", "k", "wb"), 0, 2)))
    return [
        Phase("sets", lambda: [((p, ()), fast) for p in fam.subsets(pats, 0, 3 if big else 2)], run_sets, note="rule sets of up to %d of %d patterns" % (3 if big else 2, len(pats))),
        Phase("shapes", lambda: [(([p], ()), every if i % 40 == 0 else fast) for i, p in enumerate(wide)], run_sets, note="one rule of every shape up to length 2 in each part"),
        Phase("onmatch", lambda: [((p, o), every if len(o) == 1 and not p else fast) for p in ((), (fam.pat("ab"),), (fam.pat("a", pc="k", nc="v"),)) for n in (1, 2) for o in (fam.subsets(oms, n, n) if big or n == 1 or not p else ())], run_sets, note="up to two on-match rules of every shape"),
        Phase("incomplete", lambda: [(p, fast) for p in fam.subsets(fam.small_pool(), 1, 3 if big else 2)], run_bare, note="rules that leave inputs unmatched, errors raised and ignored"),
        Phase("long", lambda: long_cases(big), run_long, note="rules and on-match rules of up to %d classes on either side" % (7 if big else 5)),
        Phase("many", lambda: many_cases(big), run_long, cpu_limit=200, note="up to %d rules, up to 600 on-match rules" % (1300 if big else 600)),
        Phase("odd", lambda: [(o, p, ws, every if big or o is p else fast) for o in ODD for p in ODD for ws in (" ", "_")], run_odd, note="tokens and productions that are special in YAML"),
        Phase("next-line", lambda: [("\x85",), ("x\x85y",)], run_next_line, note="productions with the next-line character"),
        Phase("bundled", lambda: P(["Example", "ITRANSDevanagariToUnicode"], ["yaml", "json"], [every]), run_bundled, cpu_limit=120, note="bundled transliterators"),
    ]
