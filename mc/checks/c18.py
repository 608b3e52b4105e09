import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, Pool, build, outcome, same_rules
from mc.ref import OM, Cfg, R, need, rule

ID = "C18"
LEVEL = "model_checking"
RULE = (
    "cases = rule sets (all their declaration orders explored within the case); state = declaration order; transition = one construction "
    "or transliteration on the implementation compared with the stable sort by required tokens, or with the first declaration order"
)
ASSUMPTIONS = [
    "rules have the costs the library gives them",
    "transliterations are compared where no two most specific rules tie",
    "scope: rule shapes, permutations and inputs within the bounds stated per phase",
]

ABC = {"a": ("v",), "b": ("v", "k"), "c": ("k",), " ": ("wb",)}


def run_cost(case, cov):
    """All distributions of n required tokens over the five parts cost the same, and less than those of n-1."""
    shapes, = case
    rules, want = [], []
    for i, (pc, pt, t, nt, nc) in enumerate(shapes):
        rules.append(R("<%d>" % i, ("v",) * pc, ("a",) * pt, ("b",) * t, ("c",) * nt, ("k",) * nc))
    cfg = Cfg(ABC, rules)
    g = build(cfg)
    got = same_rules(g)
    if got != sorted(rules, key=lambda r: -need(r)):
        raise Bad("rules are not sorted by required tokens, then declared order", shapes=shapes, got=[(r.prod, need(r)) for r in got])
    costs = {}
    for r, x in zip(got, g.rules):
        costs.setdefault(need(r), set()).add(x.cost)
    for n, cs in costs.items():
        if len(cs) != 1:
            raise Bad("rules requiring %d tokens have several costs" % n, costs=cs, shapes=shapes)
    seq = [next(iter(costs[n])) for n in sorted(costs)]
    if any(x <= y for x, y in zip(seq, seq[1:])):
        raise Bad("cost does not strictly fall as required tokens grow", costs=dict(zip(sorted(costs), seq)))
    cov.add("states", len(rules))
    cov.add("transitions", 1)
    cov.add("traces", len(rules))


def run_order(case, cov):
    """Rules in every declared order."""
    pats, stride = case
    rs = fam.named(pats)
    first = None
    for n, p in enumerate(itertools.permutations(rs)):
        if n % stride:
            continue
        cfg = Cfg(ABC, p)
        cov.add("states", 1)
        cov.add("transitions", 1)
        g = build(cfg)
        got = same_rules(g)
        want = sorted(p, key=lambda r: -need(r))
        if got != want:
            raise Bad("rules are not sorted by required tokens, then declared order", declared=p, got=got)
        if any(x.cost > y.cost for x, y in zip(g.rules, g.rules[1:])):
            raise Bad("rules are not sorted by cost", declared=p, costs=[x.cost for x in g.rules])
        by = {r: x.cost for r, x in zip(got, g.rules)}
        if first is None:
            first = by
        elif first != by:
            raise Bad("costs depend on the declared order", declared=p)
        cov.add("traces", 1)


def run_order_easy(case, cov):
    pats = case
    for p in itertools.permutations(fam.named(pats)):
        cfg = Cfg(ABC, p)
        cov.add("states", 1)
        cov.add("transitions", 1)
        got = same_rules(GT().from_easyreading_dict(cfg.easy(), check_ambiguity=False))
        if got != sorted(p, key=lambda r: -need(r)):
            raise Bad("rules are not sorted by required tokens, then declared order", declared=p, got=got)
        cov.add("traces", 1)


def declared(cfg, tp, cps, rp):
    toks = {}
    for t in tp:
        cs = cfg.tokens[t]
        toks[t] = tuple(reversed(cs)) if cps else cs
    return cfg.replace(tokens=toks, rules=rp)


def results(g, inputs):
    return [(outcome(g.transliterate, s), outcome(g.tokenize, s)) for s in inputs]


def run_permute(case, cov):
    cfg, inputs, full = case
    inputs = [s for s in inputs if not cfg.tied(cfg.tokenize(s)[0])]
    if not inputs:
        return
    base = results(build(cfg), inputs)
    tps = list(itertools.permutations(cfg.tokens))
    rps = list(itertools.permutations(cfg.rules)) if len(cfg.rules) <= 4 else [cfg.rules[k:] + cfg.rules[:k] for k in range(len(cfg.rules))] + [tuple(reversed(cfg.rules))]
    if full:
        combos = itertools.product(tps, (False, True), rps)
    else:
        combos = [(t, c, cfg.rules) for t in tps for c in (False, True)] + [(tuple(cfg.tokens), True, r) for r in rps] + [(tps[-1], True, rps[-1])]
    for tp, cps, rp in combos:
        c = declared(cfg, tp, cps, rp)
        got = results(build(c), inputs)
        cov.add("states", 1)
        cov.add("transitions", len(inputs))
        if got != base:
            i = [k for k in range(len(inputs)) if got[k] != base[k]][0]
            raise Bad("transliteration depends on the order of declaration", declared=c, base=cfg, input=inputs[i], got=got[i], expected=base[i])
        cov.add("traces", 1)


def run_sweep(case, cov):
    name, cfg, inputs = case
    inputs = [s for s in inputs if not cfg.tied(cfg.tokenize(s)[0])]
    base = results(build(cfg), inputs)
    names = list(cfg.tokens)
    n = len(names)
    orders = [names[::-1], names[n // 2 :] + names[: n // 2], names[::2] + names[1::2], sorted(names, key=lambda t: (len(t), t)), sorted(names, key=lambda t: (-len(t), t))]
    rs = list(cfg.rules)
    rorders = [rs[::-1], rs[::2] + rs[1::2], sorted(rs), sorted(rs, key=need), sorted(rs, key=lambda r: (-need(r), r.prod))]
    for i, (o, r) in enumerate(zip(orders, rorders)):
        c = declared(cfg, o, i % 2, r)
        g = build(c)
        if same_rules(g) != sorted(r, key=lambda x: -need(x)):
            raise Bad("rules are not sorted by required tokens, then declared order", cfg=name, order=i)
        got = results(g, inputs)
        cov.add("states", 1)
        cov.add("transitions", len(inputs))
        if got != base:
            k = [k for k in range(len(inputs)) if got[k] != base[k]][0]
            raise Bad("transliteration depends on the order of declaration", cfg=name, order=i, input=inputs[k], got=got[k], expected=base[k])
        cov.add("traces", 1)


def compositions(n):
    """All distributions of n over five parts with at least one token."""
    for t in range(1, n + 1):
        for pc in range(n - t + 1):
            for pt in range(n - t - pc + 1):
                for nt in range(n - t - pc - pt + 1):
                    yield (pc, pt, t, nt, n - t - pc - pt - nt)


def cost_cases(big):
    top = 9 if big else 6
    yield ([s for n in range(1, top + 1) for s in compositions(n)],)
    # declared from the least to the most specific and mixed
    yield ([s for n in range(top, 0, -1) for s in compositions(n)],)
    for part in range(5):
        line = []
        for n in range(0, 130 if big else 70):
            s = [0, 0, 1, 0, 0]
            s[part] += n
            line.append(tuple(s))
        yield (line,)
        yield (line[::-1],)
    # and far, in contexts and a few sequences of tokens
    far = list(range(60, 1500 if big else 700, 1 if big else 3))
    for part in (0, 1, 3, 4):
        yield ([tuple(n if i == part else int(i == 2) for i in range(5)) for n in far],)
    yield ([(0, 0, n, 0, 0) for n in (199, 200, 300, 301, 400, 401)] + [(0, 0, 1, n, 0) for n in (199, 200, 299, 300, 301, 400, 5000, 5001)],)
    for k in range(1, 40 if big else 25):
        yield ([(k, 0, 1, 0, 0), (0, k, 1, 0, 0), (0, 0, k + 1, 0, 0), (0, 0, 1, k, 0), (0, 0, 1, 0, k), (0, 0, k, 0, 0), (0, 0, k + 2, 0, 0), (k, k, 1, k, k), (0, 2 * k, 1, 2 * k, 0), (4 * k, 0, 1, 0, 0)],)


def permute_cfgs(big):
    texts = ["".join(t) for t in fam.strings("ab ", 0, 4)]
    pool = fam.pool()
    sub = pool if big else pool[::2]
    for p in itertools.combinations(sub, 2):
        yield Cfg(fam.TOK, fam.named(p) + [rule("_", " ")], [OM(("v",), ("k",), "+")]), texts[:40], False
    tri = fam.small_pool()
    for p in itertools.combinations(tri if big else tri[::2], 3):
        yield Cfg(fam.TOK, fam.named(p)), texts[:40], False
    # tokens that overlap
    for extra in itertools.combinations(["aa", "ab", "ba", "aab", "b a", "bb"], 2):
        toks = {"a": ("v", "k"), "b": ("k", "v", "x"), " ": ("wb", "x")}
        toks.update({t: ("x", "v") for t in extra})
        names = list(toks)
        rs = [rule("<%s>" % t, [t]) for t in names] + [rule("{%s}" % t, [t], pc=["x"]) for t in names[2:]] + [rule("[%s]" % t, [t, names[3]]) for t in names[:2]]
        yield Cfg(toks, rs, [OM(("x",), ("v",), "^"), OM(("v",), ("x",), "~")]), texts, False
    # everything permuted together
    for i, p in enumerate(itertools.combinations(fam.small_pool(), 2)):
        if big or i % 6 == 0:
            yield Cfg(fam.TOK, fam.named(p) + [rule("_", " ")], [OM(("v", "k"), ("v",), "+"), OM(("v",), ("v",), "-")]), texts[:14], True


def phases(tier):
    big = tier == "thorough"
    pool = fam.pool(("a", "b", "ab"), fam.CTX[:8])
    mixed = [fam.pat("a"), fam.pat("a", pt="b"), fam.pat("ab"), fam.pat("a", nc="v"), fam.pat("b", pc="v", nt="a"), fam.pat("abc"), fam.pat("c", pt="ab"), fam.pat("c")]
    return [
        Phase("cost", lambda: cost_cases(big), run_cost, cpu_limit=120, note="every distribution of required tokens over the five parts; up to 700 (1500) in one part"),
        Phase("orders", lambda: [(p, 1) for n in (2, 3) for p in itertools.combinations(pool[::1 if big else 2], n)] + [(p, 1) for p in itertools.combinations(mixed, 5 if not big else 6)] + [(mixed, 5 if big else 41)], run_order, cpu_limit=120, note="every declared order of rule sets"),
        Phase("orders-easy", lambda: itertools.combinations(mixed, 4), run_order_easy, note="easy-reading settings"),
        Phase("permutations", lambda: permute_cfgs(big), run_permute, cpu_limit=120, note="orders of tokens, classes and rules; transliterations compared"),
        Phase("sweep", lambda: [c for c in fam.sweep_cfgs(big) if len(c[1].tokens) < (1000 if big else 150)], run_sweep, cpu_limit=120, note="large configurations in several orders"),
    ]
