import os

from mc import fam, sched
from mc.engine import REPO, Bad, Phase
from mc.impl import GT, build, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "cases = a transliterator and the calls of two or three threads; for each, every schedule of real threads with at most "
    "the stated number of preemptions is executed on the real code, switching before any source line of the package; "
    "states = scheduling points passed; transitions = schedules executed; every schedule is an execution of the implementation"
)
ASSUMPTIONS = [
    "threads are switched between source lines of the package, not inside one line or inside the standard library",
    "the attributes describing the last transliteration are not compared under concurrency",
    "scope: threads, calls and preemption bounds as stated per phase",
]

PKG = os.path.join(REPO, "graphtransliterator")

CFGS = {
    "onmatch": Cfg(fam.TOK, fam.BASE_RULES + [rule("AB", "ab"), rule("A!", "a", pt="bb", nc=["wb"])], [OM(("v",), ("v",), "+"), OM(("wb",), ("k",), "-")]),
    "consolidate": Cfg({"a": ("v",), "ab": ("k",), " ": ("wb",), "\t": ("wb",)}, [rule("1", ["a"]), rule("2", ["ab"], pc=["v"]), rule("3", ["ab"]), rule("_", [" "])], ws=(" ", "wb", True)),
    "gaps": Cfg(fam.TOK, [rule("A", "a", nt="b"), rule("B", "b", pc=["v"]), rule("_", " ")]),
}


def make(kind, cfg_name, ignore):
    """A function giving a fresh transliterator cheaply."""
    cfg = CFGS[cfg_name]
    b = build(cfg)
    if kind == "coverage":
        return lambda: mod().CoverageTransliterator(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules, ignore_errors=ignore, check_ambiguity=False)
    if kind == "loaded":
        d = b.dumps(0)
        return lambda: GT().loads(d, ignore_errors=ignore)
    return lambda: GT()(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules, ignore_errors=ignore, check_ambiguity=False)


CALLS = {
    "t:ab": lambda g: g.transliterate("ab"),
    "t:ba": lambda g: g.transliterate("ba"),
    "t:b a": lambda g: g.transliterate("b a"),
    "t:bba": lambda g: g.transliterate("bba"),
    "t:": lambda g: g.transliterate(""),
    "t:a?": lambda g: g.transliterate("a?"),
    "t: \ta": lambda g: g.transliterate(" \ta"),
    "k:a b": lambda g: list(g.tokenize("a b")),
    "k:b": lambda g: list(g.tokenize("b")),
    "k:?a": lambda g: list(g.tokenize("?a")),
    "m:1": lambda g: g.match_at(1, [" ", "a", "b", " "]),
    "m:2": lambda g: g.match_at(2, [" ", "b", "a", " "]),
    "M:1": lambda g: list(g.match_at(1, [" ", "a", "b", " "], match_all=True)),
    "tt": lambda g: (g.transliterate("a"), g.transliterate("b")),
    "tk": lambda g: (list(g.tokenize("a")), g.transliterate("b")),
    "p:ab": lambda g: g.pruned_of("zz").transliterate("ab"),
}

# many different inputs, as caches of limited size see them
MANY = ["".join(w) for w in fam.strings("ab", 1, 10)]
for _n in (4, 40, 140, 600):
    CALLS["T:%d" % _n] = lambda g, ws=MANY[_n % 7 : _n % 7 + _n]: [g.transliterate(w) for w in ws]
    CALLS["K:%d" % _n] = lambda g, ws=MANY[_n % 7 : _n % 7 + _n]: [list(g.tokenize(w)) for w in ws]
    CALLS["P:%d" % _n] = lambda g, ws=MANY[:_n]: [list(g.match_at(1, [" "] + list(w) + [" "], match_all=True)) for w in ws]


def usable(name, cfg):
    if cfg == "consolidate" and name in ("m:1", "m:2", "M:1"):
        return False
    return True


def run_case(case, cov, atomic=()):
    (kind, cfg, ignore, names, bound), first, part = case
    fresh = make(kind, cfg, ignore)
    expect = []
    for n in names:
        expect.append(outcome(CALLS[n], fresh()))

    def thunks():
        g = fresh()
        return [lambda c=CALLS[n]: c(g) for n in names]

    def visit(r, schedule, first):
        if list(r.results) != expect:
            raise Bad("a call returns something else than when it runs alone", cfg=CFGS[cfg], kind=kind, ignore_errors=ignore, calls=names,
                      schedule="thread %d first, then %s" % (first, ", ".join("thread %d before step %d" % (t, s) for s, t in schedule) or "no preemption"),
                      got=r.results, expected=expect)

    try:
        runs, points = sched.explore(thunks, bound, PKG, visit, [first], part, atomic=atomic)
    except sched.Deadlock as e:
        raise Bad(str(e), cfg=CFGS[cfg], kind=kind, calls=names)
    cov.add("states", points)
    cov.add("transitions", runs)
    cov.add("traces", runs)
    cov.add("schedules", runs)


def run_many(case, cov):
    run_case(case, cov, atomic=(1,))


def run_crowd(case, cov):
    """Several threads inside their calls at once: each is preempted after as many lines as the others, for every such
    number; then another thread runs to its end, and then they go on."""
    cfg, ignore, names, last, order, part = case
    fresh = make("plain", cfg, ignore)
    names = names + (last,)
    n = len(names)
    expect = [outcome(CALLS[x], fresh()) for x in names]
    prefix = os.path.join(PKG, "")
    first = sched.Run([lambda g=fresh(), x=x: CALLS[x](g) for x in names[:1]], (), 0, prefix).go().step
    walk = list(range(n - 1)) if order == "up" else list(range(n - 2, -1, -1))
    runs = points = 0
    for p in range(part, first, 4):
        g = fresh()
        plan = [(k * (p + 1) + p, t) for k, t in enumerate(walk[1:] + [n - 1])]
        try:
            r = sched.Run([lambda c=CALLS[x]: c(g) for x in names], plan, walk[0], prefix, None, (n - 1,)).go()
        except sched.Deadlock as e:
            raise Bad(str(e), cfg=CFGS[cfg], calls=names)
        runs += 1
        points += r.step
        if list(r.results) != expect:
            raise Bad("a call returns something else than when it runs alone", cfg=CFGS[cfg], ignore_errors=ignore, calls=names, order=walk, lines_before_each_preemption=p,
                      got=r.results, expected=expect)
    cov.add("states", points)
    cov.add("transitions", runs)
    cov.add("traces", runs)
    cov.add("schedules", runs)


def split(specs, k):
    """Each specification as cases: which thread starts, and a share of the first preemptions."""
    return lambda: ((sp, first, (r, k)) for sp in specs for first in range(len(sp[3])) for r in range(k))


def phases(tier):
    big = tier == "thorough"
    P = lambda c, i, a, b, kind="plain": (kind, c, i, (a, b), 1)  # noqa
    one = []
    if big:
        for cfg in CFGS:
            for ignore in (False, True):
                names = [n for n in CALLS if usable(n, cfg) and n[:2] not in ("p:", "T:", "K:", "P:")]
                one += [P(cfg, ignore, a, b) for i, a in enumerate(names) for b in names[i:]]
            one.append(P(cfg, False, "p:ab", "t:ba"))
    else:
        for cfg in CFGS:
            for ignore in (False, True):
                prs = [("t:ab", "t:ba"), ("t:a?", "t:ab"), ("k:a b", "k:?a"), ("tk", "k:b"), ("t: \ta", "k:b"), ("t:", "tk"), ("m:1", "m:2"), ("M:1", "m:2"), ("m:2", "k:a b"), ("t:a?", "M:1")]
                one += [P(cfg, ignore, a, b) for a, b in prs if usable(a, cfg) and usable(b, cfg)]
        one += [P("gaps", False, "tt", "t:b a"), P("onmatch", False, "t:b a", "t:bba"), P("gaps", True, "p:ab", "t:ba")]
    for kind in ("coverage", "loaded"):
        for a, b in (("t:ab", "t:ba"), ("M:1", "t:a?"), ("k:a b", "k:b"), ("m:1", "m:2")):
            one.append(P("onmatch", True, a, b, kind))
    many = [("plain", c, i, (a, b), 1) for c in CFGS for i in (False, True) for n in ((4, 40, 140, 600) if big else (4, 140)) for a, b in (("t:ab", "T:%d"), ("k:a b", "K:%d"), ("m:2", "P:%d"), ("t:a?", "T:%d"))
            for b in (b % n,) if usable(a, c) and usable("m:1" if b[0] == "P" else b, c) and (big or n < 100 or not i)]
    two = [("plain", "onmatch", False, ("k:b", "k:a b"), 2), ("plain", "gaps", False, ("m:1", "m:2"), 2), ("plain", "consolidate", True, ("k:?a", "k:a b"), 2),
           ("plain", "gaps", True, ("M:1", "k:b"), 2), ("plain", "onmatch", False, ("t:", "k:b"), 2)]
    three = [("plain", "onmatch", False, ("m:2", "k:b", "t:"), 1), ("plain", "gaps", True, ("t:a?", "k:?a", "m:1"), 1)]
    if big:
        two += [("plain", c, i, p, 2) for c in CFGS for i in (False, True)
                for p in (("t:ab", "t:ba"), ("t:a?", "t:ab"), ("t:a?", "k:b"), ("t:ab", "m:1"), ("m:1", "m:2")) if all(usable(x, c) for x in p)]
        three += [("plain", "gaps", False, ("k:b", "m:1", "m:2"), 2)]
        three += [("plain", c, True, p, 1) for c in CFGS for p in (("t:ab", "t:ba", "t:b a"), ("t:a?", "k:b", "t:"))]
    crowds = [("onmatch", False, "m:1", "m:2"), ("gaps", True, "t:a?", "t:ab"), ("consolidate", False, "t: \ta", "k:b"), ("onmatch", True, "t:ab", "t:ba"), ("gaps", False, "M:1", "m:2"), ("onmatch", False, "k:a b", "t:")]
    return [
        Phase("one-preemption", split(one, 4), run_case, cpu_limit=100, note="%d pairs of calls, every single preemption" % len(one)),
        Phase("many", lambda: ((sp, 0, (r, 4)) for sp in many for r in range(4)), run_many, cpu_limit=300, note="a call preempted once by another thread's calls with up to %d inputs" % (600 if big else 140)),
        Phase("two-preemptions", split(two, 64), run_case, cpu_limit=100, note="%d pairs of calls, every two preemptions" % len(two)),
        Phase("crowd", lambda: [(c, i, (a,) * k if same else tuple((a, b)[j % 2] for j in range(k)), b, o, r) for c, i, a, b in crowds for k in ((2, 3, 5, 9, 17) if big else (2, 3, 5, 9)) for same in (True, False) for o in ("up", "down") for r in range(4)],
              run_crowd, cpu_limit=200, note="up to %d threads inside their calls while another one runs" % (17 if big else 9)),
        Phase("three-threads", split(three, 16), run_case, cpu_limit=100, note="three threads"),
    ]
