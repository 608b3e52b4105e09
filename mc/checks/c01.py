import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, Pool, build, index_map
from mc.ref import Cfg, need, occurs

ID = "C01"
LEVEL = "model_checking"
ALL = False  # single match here, match_all in C02
RULE = (
    "cases = rule sets (and the token lists tried on each, completely enumerated within the bounds of the phase); "
    "state = (rule set, token list, position); transition = one match query on the implementation, compared with the "
    "reference model"
)
ASSUMPTIONS = [
    "token lists are bounded by whitespace tokens and positions lie between them, as documented",
    "rules of equal cost that apply at the same place are equally good answers",
    "scope: rule sets, token lists and positions within the bounds stated per phase",
]


def query(all_, g, cfg, m, toks, cov, positions=None):
    n = 0
    for i in positions if positions is not None else range(1, len(toks) - 1):
        n += 1
        if not all_:
            got = g.match_at(i, toks)
            best = cfg.best(toks, i)
            if got is None:
                if best:
                    raise Bad("no rule returned although one applies", cfg=cfg, tokens=toks, position=i, expected=[cfg.rules[k] for k in best])
            elif m[got] not in best:
                raise Bad("the returned rule is not a most specific applicable rule", cfg=cfg, tokens=toks, position=i,
                          got=g.rules[got], expected=[cfg.rules[k] for k in best])
        else:
            got = g.match_at(i, toks, match_all=True)
            exp = cfg.applicable(toks, i)
            if sorted(m[x] for x in got) != exp:
                raise Bad("match_all does not return exactly the applicable rules", cfg=cfg, tokens=toks, position=i,
                          got=[g.rules[x] for x in got], expected=[cfg.rules[k] for k in exp])
            one = g.match_at(i, toks)
            if (one is None and got) or (one is not None and one not in got):
                raise Bad("the single match is not among all matches", cfg=cfg, tokens=toks, position=i, single=one, all=got)
    cov.add("states", n)
    cov.add("transitions", n * (2 if all_ else 1))
    cov.add("traces", 1)
    return n


def ball(p, alphabet, cfgtokens, longer_than):
    """Token lists around an instance of pattern p: the instance itself, cut short on
    either side, extended on either side, and with every single token replaced."""
    pc, pt, t, nt, nc = p
    opts = []
    for c in pc:
        opts.append([x for x in alphabet if c in cfgtokens[x]])
    for x in pt + t + nt:
        opts.append([x])
    for c in nc:
        opts.append([x for x in alphabet if c in cfgtokens[x]])
    bases = []
    for pick in (0, -1):
        b = tuple(o[pick] for o in opts)
        if b not in bases:
            bases.append(b)
    seen = set()
    for b in bases:
        vs = [b]
        for j in range(len(b)):
            for x in alphabet:
                if x != b[j]:
                    vs.append(b[:j] + (x,) + b[j + 1 :])
        for v in vs:
            for w in (v, v[1:], v[:-1], v[1:-1], ("a",) + v, v + ("a",), v + v):
                if len(w) > longer_than and w not in seen:
                    seen.add(w)
                    yield [" "] + list(w) + [" "]


def run_pattern(all_, hi):
    def run(p, cov):
        cfg = Cfg(fam.TOK, fam.named([p]))
        g = build(cfg)
        m = index_map(g, cfg)
        for toks in fam.padded("ab ", hi):
            query(all_, g, cfg, m, toks, cov)
        for toks in ball(p, "ab ", fam.TOK, hi):
            query(all_, g, cfg, m, toks, cov)

    return run


def run_subset(all_, cfg0, alphabet, hi):
    memo = {}

    def run(ks, cov):
        if "pool" not in memo:
            memo["pool"] = Pool(cfg0)
        pl = memo["pool"]
        g, cfg = pl.sub(ks)
        m = index_map(g, cfg)
        for toks in fam.padded(alphabet, hi):
            query(all_, g, cfg, m, toks, cov)

    return run


def run_build(all_, cfg0, alphabet, hi):
    """Subsets, in every order of declaration, built from settings."""

    def run(ks, cov):
        cfg = cfg0.replace(rules=[cfg0.rules[k] for k in ks])
        for n, how in enumerate(({}, dict(nulls=True), dict(empty=True))):
            g = build(cfg, how)
            m = index_map(g, cfg)
            for toks in fam.padded(alphabet, hi - (n > 0)):
                query(all_, g, cfg, m, toks, cov)

    return run


def sweep_cases(big):
    def cases():
        for name, cfg, inputs in fam.sweep_cfgs(big):
            for lo in range(0, len(inputs), 400):
                yield name, cfg, inputs[lo : lo + 400]

    return cases


def run_sweep(all_):
    def run(case, cov):
        name, cfg, inputs = case
        g = build(cfg)
        m = index_map(g, cfg)
        for s in inputs:
            toks, bad = cfg.tokenize(s)
            assert not bad
            query(all_, g, cfg, m, toks, cov)

    return run


def run_reserved(case, cov):
    """A token named as the key under which the graph keeps finished rules."""
    rules, inputs = case
    cfg = Cfg({"a": ["c"], "__rules__": [], " ": ["wb"]}, fam.named(rules))
    g = build(cfg)
    m = index_map(g, cfg)
    for toks in inputs:
        try:
            query(False, g, cfg, m, toks, cov)
        except Bad as e:
            if sorted(p[2] for p in rules) == [("__rules__",), ("a",), ("a", "__rules__")] and toks == [" ", "a", "a", " "]:
                e.key = "token-named-__rules__"
            raise e


def reserved_cases():
    yield [((), (), ("a",), (), ()), ((), (), ("__rules__",), (), ())], [[" "] + list(w) + [" "] for k in (1, 2, 3) for w in itertools.product(("a", "__rules__"), repeat=k)]
    yield [((), (), ("a",), (), ()), ((), (), ("a", "__rules__"), (), ()), ((), (), ("__rules__",), (), ())], [[" ", "a", "a", " "]]


# classes named like tokens, and the other way round
NAMES = {"a": ("b", "wb"), "b": ("a", " "), " ": ("wb", "a")}
# several whitespace tokens; the ones that bound the token list need not be the default
SPACES = {"a": ("v",), "b": ("v", "wb"), " ": ("wb",), "\t": ("wb", "t")}


def context_pool(tokens, ts, ctoks, cclss):
    """Rules for ts with no context, one item or two items of context in all ways."""
    out = []
    for t in ts:
        out.append(((), (), t, (), ()))
        for x in ctoks:
            out += [((), (x,), t, (), ()), ((), (), t, (x,), ())]
        for c in cclss:
            out += [((c,), (), t, (), ()), ((), (), t, (), (c,))]
        for x in ctoks:
            for c in cclss:
                out += [((c,), (x,), t, (), ()), ((c,), (), t, (x,), ()), ((), (x,), t, (), (c,)), ((), (), t, (x,), (c,))]
        for x in ctoks:
            out += [((), (x,), t, (y,), ()) for y in ctoks]
        for c in cclss:
            out += [((c,), (), t, (), (d,)) for d in cclss]
    return out


def crowded(n, kind):
    """n rules for the same tokens, told apart by what is around them; and token lists for the first, last and some others."""
    xs = ["x%04d" % k for k in range(n)]
    near = sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
    if kind == "tokens":
        toks = dict([(x, ("x",)) for x in xs], a=("a",), b=("b",))
        pats = [((), (x,), ("a",), (), ()) for x in xs]
        lists = [[" ", xs[k], "a", " "] for k in near] + [[" ", xs[k], "b", "a", xs[-1 - k], "a", " "] for k in near]
    elif kind == "next":
        toks = dict([(x, ("x",)) for x in xs], a=("a",), b=("b",))
        pats = [((), (), ("a",), (x,), ()) for x in xs]
        lists = [[" ", "a", xs[k], " "] for k in near] + [[" ", "a", "b", "a", xs[-1 - k], " "] for k in near]
    elif kind == "classes":
        toks = {"b": tuple(xs), "a": ("a",)}
        toks.update(("y%d" % k, (xs[k], "y")) for k in near)
        pats = [((x,), (), ("a",), (), ()) for x in xs] + [((), (), ("a",), (), ("y", "y", "y"))]
        lists = [[" ", "b", "a", " "], [" ", "b", "a", "y0", "y0", "y0", " "]] + [[" ", "y%d" % k, "a", "y0", "y0", " "] for k in near]
    else:  # alike but for the production
        toks = {"a": ("a",), "b": ("b",)}
        pats = [((), (), ("a",), (), ())] * n + [((), ("b",), ("a",), (), ())]
        lists = [[" ", "a", "b", "a", " "], [" ", "b", "a", "a", " "]]
    toks[" "] = ("wb",)
    return Cfg(toks, fam.named(pats)), lists


def run_crowded(all_):
    def run(case, cov):
        cfg, lists = crowded(*case)
        g = build(cfg)
        m = index_map(g, cfg)
        for toks in lists:
            query(all_, g, cfg, m, toks, cov)

    return run


def run_mixed(all_, tokens, pool, lists):
    memo = {}

    def run(ks, cov):
        if "pool" not in memo:
            memo["pool"] = Pool(Cfg(tokens, fam.named(pool)))
        g, cfg = memo["pool"].sub(ks)
        m = index_map(g, cfg)
        for toks in lists:
            query(all_, g, cfg, m, toks, cov)

    return run


def phases_for(all_, tier):

    big = tier == "thorough"
    ab = fam.seqs("ab", 1, 2)
    p1 = list(fam.all_patterns(ab, fam.seqs("a ", 0, 2), fam.seqs("a ", 0, 2), fam.seqs(("v", "wb"), 0, 2), fam.seqs(("v", "wb"), 0, 2)))
    if not big:
        p1 = [p for p in p1 if sum(map(len, p)) <= 6]
    pool = fam.pool()
    cfg0 = Cfg(fam.TOK, fam.named(pool))
    sp = fam.small_pool()
    cfgs = Cfg(fam.TOK, fam.named(sp))
    cfge = Cfg(fam.TOK, [r._replace(prod=("", "x", "xx", "x")[i % 4 if i % 3 else 1]) for i, r in enumerate(fam.named(pool))])
    out = [
        Phase("sweep", sweep_cases(big), run_sweep(all_), note="large configurations, one dimension at a time"),
        Phase("crowded", lambda: [(n, k) for n in ((60, 130, 260, 520, 1100, 2500) + ((5000,) if big else ())) for k in ("tokens", "next", "classes", "alike")], run_crowded(all_),
              cpu_limit=200, note="up to %d rules for the same tokens" % (5000 if big else 2500)),
        Phase("everything", lambda: [tuple(k for k in range(len(pool)) if k % s != o) for s in range(2, 12) for o in range(s)] + [tuple(range(len(pool)))],
              run_subset(all_, cfg0, "ab ", 7 if big else 5), note="a whole pool of 70 rules, and large parts of it"),
        Phase("one-rule", lambda: p1, run_pattern(all_, 5 if big else 3), note="every single pattern of up to two items in each of its five parts"
              + ("" if big else ", six in all")),
        Phase("pairs", lambda: fam.subsets(range(len(pool)), 2, 2), run_subset(all_, cfg0, "ab ", 5 if big else 4), note="every pair from a pool of 70 rules"),
        Phase("productions", lambda: fam.subsets(range(0, len(pool), 1 if big else 2), 2, 2), run_subset(all_, cfge, "ab", 4),
              note="every pair of rules with empty or equal productions"),
        Phase("productions-everything", lambda: [tuple(k for k in range(len(pool)) if k % s != o) for s in range(2, 8) for o in range(s)],
              run_subset(all_, cfge, "ab ", 5), note="large parts of the pool with empty or equal productions"),
        Phase("ordered", lambda: itertools.permutations(range(len(sp)), 2 if not big else 3), run_build(all_, cfgs, "ab ", 4),
              note="every ordered selection from a pool of 15 rules, built from settings; missing contexts left out, null or empty"),
        Phase("triples", lambda: fam.subsets(range(len(pool)), 3, 3), run_subset(all_, cfg0, "ab" if not big else "ab ", 4), note="every triple from a pool of 70 rules"),
    ]
    small = fam.small_pool()
    mixed = [
        ("alike", fam.TOK, [p for p in small for _ in range(3)], fam.padded("ab ", 4 if big else 3), "rules alike but for the production"),
        ("names", NAMES, context_pool(NAMES, [("a",), ("b",), ("b", "a")], ("a", "b"), ("a", "b")), fam.padded("ab ", 4 if big else 3),
         "classes named like tokens"),
        ("spaces", SPACES, context_pool(SPACES, [("a",), ("a", "\t"), ("b",)], ("\t", " "), ("wb", "t")),
         [[x] + list(t) + [y] for t in fam.strings("ab \t" if big else "a\t", 1, 3) for x in "b \t" for y in "b \t"],
         "several whitespace tokens, any of which bound the token lists"),
    ]
    for name, tokens, pl, lists, note in mixed:
        every = lambda n=len(pl): [tuple(k for k in range(n) if k % s != o) for s in range(2, 8) for o in range(s)] + [(k,) for k in range(n)]  # noqa
        out.insert(1, Phase(name + "-everything", every, run_mixed(all_, tokens, pl, lists), note=note + ", single rules and large sets"))
        out.insert(2, Phase(name + "-pairs", lambda n=len(pl): fam.subsets(range(n), 2, 2), run_mixed(all_, tokens, pl, lists), note=note + ", every pair of rules"))
    if not all_:
        out.append(Phase("reserved-name", reserved_cases, run_reserved, note="a token named __rules__, a name the graph uses itself (known finding)"))
    if big:
        out.append(Phase("quadruples", lambda: fam.subsets(range(0, len(pool), 2), 4, 4), run_subset(all_, cfg0, "ab", 5), note="every four from 35 rules"))
        out.append(Phase("small-subsets", lambda: fam.subsets(range(len(sp)), 1, 6), run_subset(all_, cfgs, "ab ", 4), note="every subset of up to six of 15 rules"))
    return out


def phases(tier):
    return phases_for(False, tier)
