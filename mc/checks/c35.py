import copy
import json
import logging
import os

from mc import fam, sched
from mc.checks.c10 import split
from mc.engine import REPO, Bad, Phase
from mc.impl import GT, build, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C35"
LEVEL = "model_checking"
RULE = (
    "cases = objects shared by two threads and the call of each; for each, every schedule of real threads with one preemption is executed on the real code, "
    "switching before any source line of the package; states = scheduling points passed; transitions = schedules executed; every schedule is an execution "
    "of the implementation"
)
ASSUMPTIONS = [
    "threads are switched between source lines of the package, not inside one line or inside the standard library and marshmallow",
    "the attributes describing the last transliteration are not compared, and logged messages are not examined",
    "settings and dumps passed in are not modified by the caller meanwhile",
    "scope: the shared objects and calls listed in the check, two threads, one preemption",
]
PKG = os.path.join(REPO, "graphtransliterator")

CFGS = {
    "onmatch": Cfg({"a": ("v",), "b": ("v", "k"), " ": ("wb",)}, [rule("A", "a"), rule("AB", "ab"), rule("B!", "b", pc=["wb"]), rule("B", "b"), rule("_", " ")], [OM(("v",), ("v",), "+")], metadata={"name": "x"}),
    "small": Cfg({"a": ("v",), " ": ("wb",)}, [rule("A", "a"), rule("A!", "a", pt="a", nc=["v"])], ws=(" ", "wb", True)),
    "one": Cfg({"a": ("v",), " ": ("wb",)}, [rule("A", "a"), rule("A!", "a", nc=["v"])], [OM(("wb",), ("v",), "-"), OM(("v",), ("v",), "+")], ws=(" ", "wb", True)),
    "other": Cfg({" ": ("wb",), "b": ("v",), "a": ("k", "wb"), "A": ("v",)}, [rule("b", "b"), rule("A", "a", nt="A", pc=["k"])], [OM(("k",), ("v",), "*")]),
    "ambiguous": Cfg({"a": ("v", "w"), " ": ("wb",)}, [rule("1", "a", pc=["v"]), rule("2", "a", pc=["w"])]),
}


def facts(g):
    """What a transliterator is, without what it did last."""
    gr = g.graph
    return (
        [tuple(r) for r in g.rules], {t: set(c) for t, c in g.tokens.items()}, {c: set(t) for c, t in g.tokens_by_class.items()}, tuple(g.whitespace), [tuple(o) for o in g.onmatch_rules or ()],
        g.metadata, g.ignore_errors, [dict(n) for n in list(gr.node)], {h: {t: dict(e) for t, e in ts.items()} for h, ts in gr.edge.items()}, sorted(gr.edge_list), [outcome(g.transliterate, s) for s in ("a", "aa", "ab a", "bA", "a  a")],
        g.tokenizer_pattern, json.dumps(g.onmatch_rules_lookup, sort_keys=True), g.graphtransliterator_version, [outcome(g.match_at, 1, [" ", t, " "]) for t in sorted(g.tokens)],
    )


def value(x):
    """A result in a form that can be compared."""
    if x[0] == "ok" and isinstance(x[1], GT()):
        return ("ok", facts(x[1]))
    return x


def world(cfg_name, kind):
    """Fresh objects: a transliterator, its settings, its dumps."""
    cfg = CFGS[cfg_name]
    if cfg_name not in _memo:
        b = build(cfg)
        _memo[cfg_name] = b, [b.dump(0), b.dump(1), b.dump(2)], [b.dumps(0), b.dumps(1), b.dumps(2)]
    b, dumps, texts = _memo[cfg_name]
    args = dict(onmatch_rules=b.onmatch_rules, ignore_errors=False, check_ambiguity=False, metadata=b.metadata)
    make = mod().CoverageTransliterator if kind == "coverage" else GT()
    return dict(g=make(b.tokens, b.rules, b.whitespace, **args), settings=cfg.settings(), easy=cfg.easy(), dumps=dumps, texts=texts, G=GT())


_memo = {}
# what two threads call on the same objects
CALLS = {
    "dump0": lambda w: json.dumps(w["g"].dump(0), sort_keys=True, default=sorted),
    "dump1": lambda w: w["g"].dump(1),
    "dumps2": lambda w: w["g"].dumps(2),
    "dumps0": lambda w: w["g"].dumps(0),
    "prune": lambda w: w["g"].pruned_of("A"),
    "t": lambda w: w["g"].transliterate("aa"),
    "t2": lambda w: w["g"].transliterate("a a"),
    "k": lambda w: list(w["g"].tokenize("a ")),
    "M": lambda w: list(w["g"].match_at(1, [" ", "a", "a", " "], match_all=True)),
    "flag": lambda w: w["g"].ignore_errors,
    "load0": lambda w: w["G"].load(w["dumps"][0]),
    "load1": lambda w: w["G"].load(w["dumps"][1]),
    "load2": lambda w: w["G"].load(w["dumps"][2]),
    "loads2": lambda w: w["G"].loads(w["texts"][2]),
    "loads0i": lambda w: w["G"].loads(w["texts"][0], ignore_errors=True).ignore_errors,
    "dict": lambda w: w["G"].from_dict(w["settings"], check_ambiguity=False),
    "dictA": lambda w: w["G"].from_dict(w["settings"], check_ambiguity=True),
    "easy": lambda w: w["G"].from_easyreading_dict(w["easy"], check_ambiguity=False),
    "attrs": lambda w: ([tuple(r) for r in w["g"].rules], sorted(w["g"].tokens), w["g"].productions, w["g"].graph.edge_list[:0], w["g"].metadata),
    "tests": lambda w: __import__("graphtransliterator.transliterators").transliterators.Bundled.generate_yaml_tests(w["g"]),
    "cover": lambda w: w["g"].check_coverage(False),
    "cover!": lambda w: w["g"].check_coverage(),
}


def many(n):
    """Make, use, dump, load and prune n transliterators, all different from each other."""

    def call(w):
        for i in range(n):
            toks = {chr(0x63 + i % 20): ["v", "c%d" % i], "a": ["v%d" % (i % 3)], " ": ["wb"]}
            rules = {"a": "<%d>" % i, chr(0x63 + i % 20): str(i), " ": "_", "<v> a": "-%d" % i}
            g = w["G"].from_easyreading_dict(dict(tokens=toks, rules=rules, whitespace=dict(default=" ", token_class="wb", consolidate=bool(i % 2)), metadata={"i": i}, onmatch_rules=[{"<v> + <v%d>" % (i % 3): "+%d" % i}]))
            g.transliterate("a")
            g.pruned_of("_").transliterate("a ")
            for level in (0, 1, 2):
                w["G"].loads(g.dumps(level)).transliterate("a")
        return n

    return call


BUSY = (3, 20, 70)
for _n in BUSY:
    CALLS["many%d" % _n] = many(_n)


def fits(name, kind):
    return kind == "coverage" or not name.startswith("cover")


def run_case(case, cov):
    (kind, cfg_name, visits, names, bound), first, part = case
    if first and names[0] == names[1] and "|" not in cfg_name:
        return
    logging.disable(logging.CRITICAL)
    cfgs = cfg_name.split("|")  # one for both threads, or one for each
    own = lambda ws, i: ws[i % len(ws)]  # noqa
    fresh = lambda: [world(c, kind) for c in cfgs]  # noqa
    expect = [value(outcome(CALLS[n], own(fresh(), i))) for i, n in enumerate(names)]
    # the verdict of a coverage check may depend on whether the other call came first
    other = [expect[i : i + 1] for i in range(len(names))]
    for i, n in enumerate(names):
        if n.startswith("cover"):
            ws = fresh()
            outcome(CALLS[names[1 - i]], own(ws, 1 - i))
            other[i].append(outcome(CALLS[n], own(ws, i)))

    after = {}

    def thunks():
        ws = after["ws"] = fresh()
        return [lambda c=CALLS[n], w=own(ws, i): c(w) for i, n in enumerate(names)]

    def visit(r, schedule, first):
        info = dict(cfg=[CFGS[c] for c in cfgs], kind=kind, calls=names, schedule="thread %d first, then %s" % (first, ", ".join("thread %d before step %d" % (t, s) for s, t in schedule) or "no preemption"))
        for i, x in enumerate(r.results):
            x = value(x)
            if x not in other[i]:
                raise Bad("a call gives something else than when it runs alone", got=x, expected=other[i], **info)
        # and what they shared is as it was
        for w, was in zip(after["ws"], alone):
            if facts(w["g"]) != was["facts"] or w["settings"] != was["settings"] or w["easy"] != was["easy"] or w["dumps"] != was["dumps"]:
                raise Bad("a shared object differs afterwards", **info)

    alone = [dict(facts=facts(w["g"]), settings=w["settings"], easy=w["easy"], dumps=copy.deepcopy(w["dumps"])) for w in fresh()]
    try:
        runs, points = sched.explore(thunks, bound, PKG, visit, [first], part, visits, (1,) if names[1].startswith("many") else ())
    except sched.Deadlock as e:
        raise Bad(str(e), cfg=[CFGS[c] for c in cfgs], kind=kind, calls=names)
    cov.add("states", points)
    cov.add("transitions", runs)
    cov.add("traces", runs)
    cov.add("schedules", runs)


def phases(tier):
    big = tier == "thorough"
    P = lambda c, a, b, kind="plain": (kind, c, 2 if big else 1, (a, b), 1)  # noqa
    names = [n for n in CALLS if not n.startswith("many")]
    light = ["t", "t2", "k", "M", "attrs", "flag"]
    if big:
        users = [P("small", a, b) for i, a in enumerate(names) for b in names[i:] if not (a in light and b in light) and fits(a, "plain") and fits(b, "plain")]
        users += [P("onmatch", a, b) for a in names if a not in light and fits(a, "plain") for b in ("t", "dump0", "load2", "dict")]
    else:
        prs = [("dump0", "t"), ("dump0", "dump0"), ("dump1", "dumps2"), ("dumps0", "M"), ("prune", "t"), ("prune", "dump0"), ("prune", "prune"), ("load0", "load0"), ("load1", "load2"), ("load2", "t2"), ("loads2", "loads2"),
               ("loads0i", "dumps2"), ("dict", "dict"), ("dict", "dictA"), ("dictA", "dictA"), ("easy", "easy"), ("easy", "t"), ("attrs", "prune"), ("tests", "k")]
        users = [P("small", a, b) for a, b in prs]
        users += [P("onmatch", a, b) for a, b in (("dumps2", "t"), ("load2", "load2"), ("dump0", "dumps2"))]
    users += [P("ambiguous", a, b) for a, b in (("dictA", "dict"), ("dictA", "dictA"), ("dictA", "t"))]
    cover = [P("small", a, b, "coverage") for a, b in (("cover", "t"), ("cover!", "t2"), ("cover", "cover!"), ("dump0", "cover"), ("prune", "cover"), ("M", "cover"), ("dump0", "t"))]
    same = ["dump1", "dumps2", "prune", "k", "M", "load0", "load1", "loads2", "easy", "tests"] if not big else [n for n in names if fits(n, "plain")]
    apart = [P("one|other", a, a) for a in same] + [P("one|other", a, b) for a, b in (("dictA", "dict"), ("load1", "dump1"), ("load2", "dumps0"))]
    apart += [P("one|ambiguous", a, "dictA") for a in ("dictA", "dict", "t")] + [P("one|other", a, a, "coverage") for a in ("cover", "t2")]
    busy = [P("small", a, "many%d" % n) for n in (BUSY if big else (20,)) for a in (("t", "dumps2", "loads2", "easy", "prune", "dict") if not big else [x for x in names if fits(x, "plain")])]
    return [
        Phase("busy", lambda: ((sp, 0, (r, 16)) for sp in busy for r in range(16)), run_case, cpu_limit=300, note="a call preempted once by another thread making, dumping, loading and pruning %d transliterators" % (70 if big else 20)),
        Phase("users", split(users, 16), run_case, cpu_limit=200, note="%d pairs of calls" % len(users)),
        Phase("coverage", split(cover, 8), run_case, cpu_limit=200, note="%d pairs of calls on a coverage transliterator" % len(cover)),
        Phase("apart", split(apart, 8), run_case, cpu_limit=200, note="%d pairs of calls on two transliterators, with nothing shared but the package" % len(apart)),
    ]
