import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import Pool, build, index_map
from mc.ref import OM, Cfg, rule

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "cases = ordered lists of on-match rules over a token-class assignment, each with several rule sets and every input "
    "string within bounds; state = (configuration, input, position of a match); transition = one match with its insertion; "
    "productions are all distinct so that the output shows which on-match rule was used at each match"
)
ASSUMPTIONS = [
    "tokens before a match are those of the token list, whether matched or skipped",
    "scope: on-match rules, token classes, rule sets and inputs within the bounds stated per phase",
]

CLS = ("v", "k", "wb")
RULESETS = [
    [rule("A", "a"), rule("B", "b"), rule("_", " ")],
    [rule("A", "a"), rule("B", "b"), rule("_", " "), rule("AB", "ab"), rule("A!", "a", pt="b"), rule("BB", "bb", nc=["v"])],
    [rule("A", "a"), rule("_", " ")],  # b is skipped with ignore_errors
    [rule("A", "a"), rule("B", "b"), rule("_", " "), rule("BBA", "bba"), rule("AAAB", "aaab"), rule("A_", "a ", nt="b")],
]


def judge(g, cfg, s, cov, ignore):
    toks, bad = cfg.tokenize(s)
    try:
        got = g.transliterate(s)
    except Exception as e:
        if not ignore and cfg.explore(toks, None)[1]:
            return
        raise Bad("raises %s on an input that can be transliterated" % type(e).__name__, cfg=cfg, input=s)
    ok, _, n = cfg.explore(toks, got, ignore=ignore)
    cov.add("states", n)
    cov.add("transitions", n - 1)
    cov.add("traces", 1)
    if not ok:
        raise Bad("wrong on-match insertions", cfg=cfg, input=s, ignore_errors=ignore, got=got, expected=cfg.run(toks, ignore)[2])


def run_lists(oms, rulesets, texts):
    memo = {}

    def run(ks, cov):
        for ri in rulesets:
            if ri not in memo:
                memo[ri] = Pool(Cfg(fam.TOK, RULESETS[ri], fam.with_prods(oms)))
            ign = ri == 2
            g, cfg = memo[ri].sub(range(len(RULESETS[ri])), onmatch=ks, ignore_errors=ign)
            for s in texts:
                judge(g, cfg, s, cov, ign)

    return run


def run_build(case, cov):
    cfg, texts = case
    g = build(cfg)
    index_map(g, cfg)
    if len(cfg.onmatch) != len(g.onmatch_rules or []):
        raise Bad("on-match rules are missing", cfg=cfg)
    for s in texts:
        judge(g, cfg, s, cov, False)


def assignments(hi):
    """All class assignments of two tokens to subsets of two classes, on-match rules over them."""
    subs = [(), ("v",), ("k",), ("v", "k"), ("k", "v"), ("v", "v")]
    texts = ["".join(t) for t in fam.strings("ab ", 0, hi)]
    for ca, cb in itertools.product(subs, repeat=2):
        toks = {"a": ca, "b": cb, " ": ("wb",)}
        have = sorted(set(ca) | set(cb) | {"wb"})
        pats = [((x,), (y,)) for x in have for y in have] + [((x, y), (z,)) for x in have for y in have for z in have[:2]]
        for pick in itertools.combinations(pats, 2):
            yield Cfg(toks, RULESETS[0], fam.with_prods(pick)), texts


def sweeps(big):
    # many on-match rules; only the first that fits counts
    texts = ["".join(t) for t in fam.strings("ab ", 0, 5)]
    pl = fam.onmatch_pool(CLS, 2, 2)
    for n in (5, 11, 40, 144):
        yield Cfg(fam.TOK, RULESETS[1], fam.with_prods(pl[:n])), texts
        yield Cfg(fam.TOK, RULESETS[1], fam.with_prods(pl[:n][::-1])), texts
        yield Cfg(fam.TOK, RULESETS[1], fam.with_prods(sorted(pl, key=lambda p: (len(p[0]) + len(p[1]), p))[:n][::-1])), texts
    # class names that are parts or variants of one another
    for cs in fam.RELATED:
        yield fam.related_cfg(cs), ["".join(t) for t in fam.strings("abcd", 0, 4)]
        toks = {"a": (cs[0],), "b": (cs[1], cs[2]), "c": (cs[2],), "d": (cs[1],), " ": ("wb" if "wb" not in cs else "W",)}
        pats = fam.onmatch_pool(cs, 2, 1) + fam.onmatch_pool(cs, 1, 2)
        for k in range(0, len(pats), 4):
            yield Cfg(toks, [rule("[%s]" % t, [t]) for t in toks], fam.with_prods(pats[k : k + 4])), ["".join(t) for t in fam.strings("abcd", 0, 3)]
    # long contexts
    for n in (2, 3, 4, 5, 9):
        for pc, nc in ((n, 1), (1, n), (n, n), (n - 1, 2)):
            oms = [OM(("v",) * pc, ("v",) * nc, "{x}"), OM(("v",), ("v",), "{y}")]
            ts = []
            for p in range(0, 2 * n + 2):
                for pre, post in (("", ""), (" ", " "), ("b ", " b"), ("a ", " aa")):
                    ts.append(pre + "a" * p + post)
            yield Cfg(fam.TOK, RULESETS[0], oms), ts
            yield Cfg(fam.TOK, RULESETS[1], oms), ts
    # much longer contexts, with the one token that decides in every place
    for n in (16, 17, 24, 33, 70):
        ts = ["a" * j + "b" + "a" * (n + 2 - j) for j in range(n + 3)] + ["b" + "a" * j + "b" for j in range(n - 1, n + 4)] + ["a" * n, "a" * (n + 1)]
        for oms in ([OM(("k",) + ("v",) * n, ("v",), "{x}")], [OM(("v",), ("v",) * n + ("k",), "{x}"), OM(("v",) * n, ("k",), "{y}")], [OM(("v",) * n, ("v",), "{x}"), OM(("k",), ("v",), "{y}")]):
            yield Cfg(fam.TOK, RULESETS[0], oms), ts
    # long contexts that reach over the whitespace at either end
    toks = {"a": ("v", "any"), "b": ("k", "any"), " ": ("wb", "any")}
    ts = ["".join(t) for t in fam.strings("ab ", 0, 6 if big else 5)]
    for n in (3, 4, 5, 6):
        for pc, nc in ((["any"] * n, ["any"]), (["wb"] + ["any"] * (n - 1), ["v"]), (["wb"] + ["v"] * (n - 1), ["any"]), (["any"], ["any"] * n), (["any"], ["v"] * (n - 1) + ["wb"]), (["any"] * (n - 1), ["any"] * (n - 2))):
            for rs in RULESETS[:2]:
                yield Cfg(toks, [r._replace(nc=tuple("any" for _ in r.nc)) for r in rs], [OM(tuple(pc), tuple(nc), "{x}"), OM(("any",), ("k",), "{y}")]), ts
    # many tokens: every adjacent pair of tokens
    for n in (12, 40) + ((90,) if big else ()):
        toks = fam.big_tokens(n)
        names = [t for t in toks if t != " "]
        rs = [rule("[%d]" % i, [t]) for i, t in enumerate(names)] + [rule("_", " ")]
        oms = [OM(("s%d" % i,), ("r%d" % j,), "{%d%d}" % (i, j)) for i in range(0, 7, 2) for j in range(3)]
        oms += [OM(("wb",), ("all",), "{wb}"), OM(("all", "r0"), ("s1",), "{all}")]
        for i in range(0, n, 6):
            yield Cfg(toks, rs, oms), [x + y for x in names[i : i + 6] for y in names] + ["".join(names[i:]), " ".join(names[i:])]
    # productions that are empty or equal to each other
    for p, q in itertools.product(("", ",", " ", "a", "A", "B", "_", "AB"), repeat=2):
        for cons in (False, True):
            yield Cfg(fam.TOK, RULESETS[1], [OM(("v",), ("k",), p), OM(("v",), ("v",), q)], ws=(" ", "wb", cons)), texts
            yield Cfg(fam.TOK, RULESETS[0], [OM(("v",), ("k",), p), OM(("v",), ("v",), q), OM(("v",), ("wb",), p)], ws=(" ", "wb", cons)), texts
    for p, q, r in itertools.product(("", "+", "A+", "A", " "), repeat=3):
        for oms in ([OM(("v",), ("v",), "+")], [OM(("v", "v"), ("v",), "+"), OM(("v",), ("k",), "A")]):
            yield Cfg(fam.TOK, [rule(p, "a"), rule(q, "b"), rule(r, " ")], oms), texts


def phases(tier):
    big = tier == "thorough"
    one = [(pc, nc) for pc in fam.seqs(CLS, 1, 3) for nc in fam.seqs(CLS, 1, 3)]
    two = fam.onmatch_pool(CLS, 2, 2)
    tri = [p for p in two if len(p[0]) + len(p[1]) <= 3]
    tri = tri if big else tri[::2]
    T = lambda hi: ["".join(t) for t in fam.strings("ab ", 0, hi)]  # noqa
    return [
        Phase("sweep", lambda: sweeps(big), run_build, note="many or long on-match rules, many tokens"),
        Phase("classes", lambda: assignments(5 if big else 3), run_build, note="class assignments and on-match pairs, built from settings"),
        Phase("one", lambda: [(k,) for k in range(len(one))], run_lists(one, (0, 1, 2, 3), T(6 if big else 5)), note="every on-match rule of up to 3+3 classes"),
        Phase("pairs", lambda: itertools.permutations(range(len(two)), 2), run_lists(two, (0, 1, 2, 3) if big else (1,), T(4)),
              note="every ordered pair of on-match rules of up to 2+2 classes"),
        Phase("triples", lambda: itertools.permutations(range(len(tri)), 3), run_lists(tri, (1,), T(4 if big else 3)), note="ordered triples of on-match rules of up to 3 classes"),
    ]
