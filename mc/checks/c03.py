import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import Pool, build, index_map
from mc.ref import OM, Cfg, rule

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "cases = configurations, each run on every input string within the bounds of its phase; state = (configuration, "
    "input, position reached); transition = one step of the model (a rule matched, or the end); the whole output of the "
    "implementation must be that of a model trace"
)
ASSUMPTIONS = [
    "rules of equal cost that apply at the same place are equally good choices",
    "inputs whose transliteration raises are decided by C07",
    "scope: configurations and inputs within the bounds stated per phase",
]


def judge(g, cfg, s, cov):
    toks, bad = cfg.tokenize(s)
    try:
        got = g.transliterate(s)
    except Exception as e:
        _, fails, n = cfg.explore(toks, None)
        if bad or fails:
            return  # which exception is C07's business
        raise Bad("raises %s on an input that can be transliterated" % type(e).__name__, cfg=cfg, input=s)
    ok, _, n = cfg.explore(toks, got)
    cov.add("states", n)
    cov.add("transitions", n - 1)
    cov.add("traces", 1)
    if bad or not ok:
        raise Bad("wrong output", cfg=cfg, input=s, got=got, expected=cfg.run(toks)[2])


POOL = [p for p in fam.pool(("a", "b", "aa", "ab", "ba", "b_", "_a")) if sum(map(len, p)) > 1]
ONM = [(("v",), ("v",)), (("k",), ("v", "wb")), (("wb",), ("k",))]


def full(onmatch):
    rs = fam.BASE_RULES + fam.named(POOL)
    oms = fam.with_prods(ONM) if onmatch else []
    return Cfg(fam.TOK, rs, oms)


def run_sub(cfg0, hi):
    memo = {}
    texts = ["".join(t) for t in fam.strings("ab ", 0, hi)]

    def run(ks, cov):
        if "p" not in memo:
            memo["p"] = Pool(cfg0)
        g, cfg = memo["p"].sub((0, 1, 2) + tuple(k + 3 for k in ks))
        for s in texts:
            judge(g, cfg, s, cov)

    return run


def run_texts(case, cov):
    name, cfg, inputs = case
    g = build(cfg)
    index_map(g, cfg)
    for s in inputs:
        judge(g, cfg, s, cov)


def sweep(big):
    for name, cfg, inputs in fam.sweep_cfgs(big):
        classes = sorted({c for v in cfg.tokens.values() for c in v})
        oms = [OM((c,), (d,), "{%s%s}" % (c, d)) for c in classes[:3] for d in classes[-3:]]
        for lo in range(0, len(inputs), 300):
            yield name, cfg, inputs[lo : lo + 300]
            yield name + "+onmatch", cfg.replace(onmatch=oms), inputs[lo : lo + 300]


def long_inputs(big):
    cfg = full(True)
    cfg = cfg.replace(rules=cfg.rules[:3] + cfg.rules[3::5])
    for n in (50, 256, 1000, 4000) + ((20000,) if big else ()):
        for unit in ("a", "ab", "aab ", "ba b  a", "bbb aab", "abbaba  "):
            yield "long", cfg, [(unit * n)[: n + d] for d in range(3)]
    yield "long", cfg, ["a" * 34000]
    yield "long", cfg, ["aab " * 9000]


def multichar(big):
    """Tokens of several characters, in all rules and inputs."""
    toks = {"a": ("v",), "ab": ("k",), "bb": ("v", "k"), " ": ("wb",), "b": ("k",)}
    names = list(toks)
    base = [rule("{%s}" % t, [t]) for t in names]
    extra = [rule("%d" % i, t, **c) for i, (t, c) in enumerate(
        (t, c)
        for t in ([x] for x in names[:3])
        for c in [dict(pt=[y]) for y in names] + [dict(nt=[y]) for y in names] + [dict(pc=["k"], nt=[y]) for y in names]
    )]
    texts = ["".join(t) for t in fam.strings("ab ", 0, 5)]
    for e in itertools.combinations(extra, 2 if big else 1):
        for om in ([], [OM(("k",), ("v",), "+")], [OM(("k", "k"), ("v",), "+"), OM(("wb",), ("k", "v"), "-")]):
            yield "multichar", Cfg(toks, base + list(e), om), texts


PRODS = ("", " ", "A", "_", "A+", "+", "a", "ab", "  ", "\n")


def productions(big):
    """Productions that are empty, equal, suffixes of each other, whitespace or tokens."""
    texts = ["".join(t) for t in fam.strings("ab ", 0, 5 if big else 4)]
    prods = PRODS if big else PRODS[:7]
    extra = [rule("", "ab"), rule("", "a", nt="b"), rule("", "b", pc=["wb"])]
    for p, q, w in itertools.product(prods, prods, prods[:4]):
        base = [rule(p, "a"), rule(q, "b"), rule(w, " ")]
        for cons in (False, True):
            for i, om in enumerate((None, "+", " ", "A", "")):
                oms = [] if om is None else [OM(("v",), ("v",), om), OM(("v",), ("wb",), p)]
                e = extra[(len(p) + i) % 3]._replace(prod=(q, om or "", p, "A")[i % 4])
                yield "productions", Cfg(fam.TOK, base + [e], oms, ws=(" ", "wb", cons)), texts


SCRIPT = ("", "e", "\u0301", "\u00e9", "\u0915", "\u094d", "\u1100", "\u1161", "\u212b", "\u0307\u0323", "\ufb01", "\u0130", "\u00df", "\u03c3", "\u200d",
          "\ufeff", "\r", "\r\n", "\x00", "\x85", "\u2028", "\U0001f600", "\\n", "%s", "{0}", "$a", "&amp;")


def scripts(big):
    """Productions of combining marks, characters with several normal forms or cases, and odd characters."""
    texts = ["".join(t) for t in fam.strings("ab ", 0, 4 if big else 3)]
    for p, q in itertools.product(SCRIPT, repeat=2):
        for om in (None, "\u0301", "\u0323") if big or p > q else (None,):
            oms = [] if om is None else [OM(("v",), ("v",), om)]
            yield "scripts", Cfg(fam.TOK, [rule(p, "a"), rule(q, "b"), rule(" ", " "), rule(q + p, "ab")], oms), texts


def spaces(big):
    """Several whitespace tokens, each the default in turn, with and without consolidation."""
    toks = {"a": ("v",), "b": ("v", "wb"), " ": ("wb",), "\t": ("wb", "v"), "__": ("wb",), "_": ("k",)}
    texts = ["".join(t) for t in fam.strings(("a", "b", " ", "\t", "_"), 0, 5 if big else 4)]
    for d in (" ", "\t", "__", "b"):
        for cons in (False, True):
            for om in ([], [OM(("wb",), ("v",), "<"), OM(("v",), ("wb",), ">")]):
                rs = [rule("A", "a"), rule("B", "b"), rule(" ", " "), rule("t", "\t"), rule("=", ["__"]), rule("-", ["_"])]
                rs += [rule("E", ["a", d]), rule("S", "a", pt=[d]), rule("SS", "a", pc=["wb", "wb"])]
                yield "spaces", Cfg(toks, rs, om, ws=(d, "wb", cons)), texts


def phases(tier):
    big = tier == "thorough"
    n = len(POOL)
    c0, c1 = full(False), full(True)
    step = 1 if big else 3
    out = [
        Phase("sweep", lambda: sweep(big), run_texts, note="large configurations, one dimension at a time"),
        Phase("long", lambda: long_inputs(big), run_texts, note="inputs of up to 36000 tokens"),
        Phase("multichar", lambda: multichar(big), run_texts, note="tokens of several characters"),
        Phase("productions", lambda: productions(big), run_texts, note="empty, equal and overlapping productions, with consolidation on and off"),
        Phase("scripts", lambda: scripts(big), run_texts, note="productions that combine with, fold into or equal each other under Unicode's rules"),
        Phase("spaces", lambda: spaces(big), run_texts, note="several whitespace tokens, consolidation on and off"),
        Phase("single", lambda: fam.subsets(range(n), 1, 1), run_sub(c1, 6), note="every extra rule with three on-match rules, all inputs up to 6 tokens"),
        Phase("pairs", lambda: fam.subsets(range(n), 2, 2), run_sub(c0, 5 if big else 4), note="three base rules and every pair of extra rules"),
        Phase("pairs-onmatch", lambda: fam.subsets(range(0, n, step), 2, 2), run_sub(c1, 5), note="the same with three on-match rules"),
        Phase("triples", lambda: fam.subsets(range(0, n, step), 3, 3), run_sub(c1, 4 if big else 3), note="three base rules and every triple"),
    ]
    return out
