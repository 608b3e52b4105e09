import ast
import collections
import itertools
import logging
import re

from mc import fam
from mc.checks.c07 import Capture
from mc.checks.c14 import RELATED, THREE, TWO, ONE, LongWorld, World, long_patterns, related
from mc.engine import Bad, Phase
from mc.impl import GT
from mc.ref import Cfg, easy_key, need, rule

ID = "C30"
LEVEL = "model_checking"
RULE = (
    "cases = first rule(s) of an ordered rule set, extended within the case to every rule set of the phase; state = rule set, its ambiguous pairs "
    "found by evaluating every rule on every token window (windows = transitions); traces = constructions whose warnings named exactly those pairs"
)
ASSUMPTIONS = [
    "where some but not every shared context of two equally costly rules is covered by a single less costly rule, and the rest by several, the pair may or may not be named",
    "the contexts shown are those the two rules share, on windows as wide as the widest rules require",
    "scope: rules and windows within the bounds stated per phase",
]

SETS = re.compile(r"\[\{.*\}\]", re.S)


def warnings_of(make):
    """(whether ambiguity was raised, the warnings logged meanwhile)."""
    from graphtransliterator.exceptions import AmbiguousTransliterationRulesException as Amb

    root = logging.getLogger()
    log = Capture()
    root.addHandler(log)
    logging.disable(logging.NOTSET)
    try:
        try:
            make()
            raised = False
        except Amb:
            raised = True
    finally:
        logging.disable(logging.CRITICAL)
        root.removeHandler(log)
    return raised, log.records


def named_pair(text, known):
    """The rules a warning names, as sorted indexes of texts."""
    found = [line.strip() for line in text.split("\n")]
    return tuple(sorted(line for line in found if line in known))


def pairs_of(w, ks):
    """{pair: mask of shared windows} that must be, and that may be, reported."""
    must, may = {}, {}
    if isinstance(w, LongWorld):
        for i, j in itertools.combinations(ks, 2):
            both = w.meet(w.box[i], w.box[j])
            if both and w.need[i] == w.need[j]:
                window, ok = w.verdicts([i, j] + [k for k in ks if w.need[k] > w.need[i]])
                if window is not None:
                    must[i, j] = both
                elif not ok:
                    may[i, j] = both
        return must, may
    for i, j in itertools.combinations(ks, 2):
        both = w.mask[i] & w.mask[j]
        if w.need[i] != w.need[j] or not both:
            continue
        left, single = both, False
        for k in ks:
            if w.need[k] > w.need[i]:
                left &= ~w.mask[k]
                single = single or not both & ~w.mask[k]
        if left:
            must[i, j] = both
        elif not single:
            may[i, j] = both
    return must, may


def shown(text, w, ks):
    """Mask of the windows of the world that the sets in a warning allow, or None."""
    m = SETS.search(text)
    if not m:
        return None
    try:
        sets = ast.literal_eval(re.sub(r"frozenset\((\{.*?\})\)", r"\1", m.group(0)))
    except Exception:
        return None
    prev = max(len(w.rules[k].pc) + len(w.rules[k].pt) for k in ks)
    width = prev + max(len(w.rules[k].t) + len(w.rules[k].nt) + len(w.rules[k].nc) for k in ks)
    if len(sets) != width:
        return None
    off = w.prev - prev
    if isinstance(w, LongWorld):
        every = frozenset(w.cfg.tokens)
        return (every,) * off + tuple(map(frozenset, sets)) + (every,) * (w.prev + w.next - off - width)
    mask = 0
    for i, win in enumerate(w.windows):
        if all(win[off + k] in s for k, s in enumerate(sets)):
            mask |= 1 << i
    return mask


def judge(w, ks, cov, settings=False):
    must, may = pairs_of(w, ks)
    raised, warned = warnings_of((lambda: w.construct_settings(ks)) if settings else (lambda: w.construct(ks)))
    if settings:
        raised = bool(must) if not may else bool(warned)  # the verdict itself is C14's
    text = {k: easy_key(w.rules[k]) for k in ks}
    info = dict(rules=[tuple(w.rules[k]) for k in ks], tokens=w.cfg.tokens, warnings=warned)
    known = set(text.values())
    name = lambda p: tuple(sorted((text[p[0]], text[p[1]])))  # noqa
    want = collections.Counter(map(name, must))
    allowed = want + collections.Counter(map(name, may))
    got = collections.Counter(named_pair(x, known) for x in warned)
    cov.add("states", 1)
    cov.add("transitions", len(w.windows))
    if want - got:
        raise Bad("the ambiguity of %s is not reported" % " and ".join(map(repr, next(iter(want - got)))), **info)
    if got - allowed:
        raise Bad("a warning names %r, which is not an ambiguous pair, or names it again" % (next(iter(got - allowed)),), **info)
    shared = {}
    for p, mask in list(must.items()) + list(may.items()):
        shared.setdefault(name(p), set()).add(mask)
    for x in warned:
        mask = shown(x, w, ks)
        if mask not in shared[named_pair(x, known)]:
            raise Bad("a warning does not show the contexts its rules share", warning=x, **info)
    cov.add("traces", 1)
    cov.add("warnings", len(warned))


_worlds = {}


def world(name):
    if name not in _worlds:
        _worlds[name] = MAKE[name]()
    return _worlds[name]


def pats(limit, ts=("a",), names="ab", classes="vk"):
    return [p for p in fam.all_patterns([tuple(t) for t in ts], ONE(*names), ONE(*names), ONE(*classes), ONE(*classes)) if sum(map(len, p)) <= limit]


MAKE = dict({"r%d" % k: lambda cs=cs: related(cs) for k, cs in enumerate(fam.RELATED)}, **{
    "all2": lambda: World(TWO, list(fam.all_patterns(fam.seqs("ab", 1, 2), ONE("a", "b"), ONE("a", "b"), ONE("v", "k"), ONE("v", "k")))),
    "small2": lambda: World(TWO, [p for p in fam.all_patterns(fam.seqs("ab", 1, 2), ONE("a", "b"), ONE("a", "b"), ONE("v", "k"), ONE("v", "k")) if sum(map(len, p)) <= 3]),
    "mini2": lambda: World(TWO, [p for p in fam.all_patterns([("a",), ("a", "b")], ONE("a", "b"), ONE("b"), ONE("v", "k"), ONE("v")) if sum(map(len, p)) <= 3]),
    "three": lambda: World(THREE, [p for p in fam.all_patterns([("a",), ("b",), ("a", "b")], ONE("a", "c"), ONE("b"), ONE("v", "k", "x"), ONE("v", "x")) if sum(map(len, p)) <= 3]),
    "alike": lambda: World(TWO, [p for p in fam.all_patterns([("a",), ("a", "b")], ONE("a", "b"), ONE("b"), ONE("v", "k"), ONE("v")) if sum(map(len, p)) <= 3], ["X"]),
    "twice": lambda: World(TWO, 2 * [p for p in fam.all_patterns([("a",), ("a", "b")], ONE("a", "b"), ONE("b"), ONE("v", "k"), ONE("v"))]),
})


def run_pairs(case, cov):
    name, i, settings = case
    w = world(name)
    for j in range(i + 1, len(w.rules)):
        if not settings or w.need[i] == w.need[j]:
            judge(w, (i, j), cov, settings and easy_key(w.rules[i]) != easy_key(w.rules[j]))


def run_more(case, cov):
    name, n, i, j = case
    w = world(name)
    for rest in itertools.combinations(range(j + 1, len(w.rules)), n - 2):
        ks = (i, j) + rest
        if len({w.need[x] for x in ks}) < n:
            judge(w, ks, cov)
            if n == 3 and len({w.need[x] for x in ks}) == 1:
                judge(w, (rest[0], i, j), cov)


def run_long(case, cov):
    n, i, more = case
    if ("long", n) not in _worlds:
        _worlds["long", n] = LongWorld(TWO, uniq_texts(long_patterns(n)))
    w = _worlds["long", n]
    for j in range(i + 1, len(w.rules)):
        judge(w, (i, j), cov)
        judge(w, (j, i), cov)
        both = w.meet(w.box[i], w.box[j])
        if both and more and w.need[i] == w.need[j]:
            for k in range(len(w.rules)):
                if k not in (i, j):
                    judge(w, (i, k, j), cov)


def uniq_texts(ps):
    """Those patterns whose notations differ: what the notation leaves open does not matter here."""
    seen, out = set(), []
    for p, r in zip(ps, fam.named(ps)):
        if easy_key(r) not in seen:
            seen.add(easy_key(r))
            out.append(p)
    return out


# every shape of an ambiguous pair, so that every form of the notation is printed


def run_shapes(case, cov):
    pc, pt, t, nt, nc = case
    toks = {"a": ("v",), "b": ("v", "w")}
    one = (("v",) * pc, ("a",) * pt, ("a",) * t, ("a",) * nt, ("v",) * nc)
    for other in {
        (("w",) + one[0][1:],) + one[1:] if pc else None,
        one[:4] + (("w",) + one[4][1:],) if nc else None,
        (("v",) * (pc + pt), (), ("a",) * t, (), ("v",) * (nt + nc)),
        ((), ("a",) * (pc + pt), ("a",) * t, ("a",) * (nt + nc), ()),
        ((), ("a",) * pc, ("a",) * (t + nt), (), ("v",) * (nc + pt)),
    }:
        if other is None:
            continue
        w = World(toks, [one, other])
        for ks in ((0, 1), (1, 0)):
            judge(w, ks, cov)


# several ambiguous groups at once: every pair is reported, not only the first


def run_groups(case, cov):
    sizes, order = case
    toks, ps = {}, []
    for g, n in enumerate(sizes):
        t = "abcdefgh"[g]
        toks[t] = tuple("%s%d" % (t, k) for k in range(n))
        ps += [((c,), (), (t,), (), ()) for c in toks[t]]
    w = World(toks, ps)
    ks = list(range(len(ps)))
    ks = {"declared": ks, "reversed": ks[::-1], "dealt": ks[::2] + ks[1::2]}[order]
    judge(w, ks, cov)
    judge(w, ks, cov, True)
    for prods in (["X"], ["X", "Y"], [""]):
        judge(World(toks, ps, prods), ks, cov, prods == ["X", "Y"])
    # with a rule for each group that resolves it
    for g in range(len(sizes)):
        t = "abcdefgh"[g]
        w2 = World(toks, ps + [((), ("abcdefgh"[g],), (t,), (), (toks[t][0],))])
        judge(w2, ks + [len(ps)], cov)


def run_quiet(case, cov):
    """Nothing is reported where nothing is checked."""
    ks, = case
    w = world("mini2")
    cfg = w.cfg.replace(rules=[w.rules[k] for k in ks])
    g = []
    for make in (
        lambda: g.append(GT().from_dict(cfg.settings(), check_ambiguity=False)),
        lambda: GT().load(g[0].dump()),
        lambda: GT().loads(g[0].dumps()),
        lambda: g[0].transliterate("aabab") if "a" in cfg.tokens and ((), (), ("a",), (), ()) in [tuple(r[1:]) for r in cfg.rules] else None,
        lambda: g[0].pruned_of("nothing"),
    ):
        try:
            raised, warned = warnings_of(make)
        except Exception:
            continue
        if raised or any("match" in x and "both" in x for x in warned):
            raise Bad("ambiguity is reported although checking is off", cfg=cfg, warnings=warned)
        cov.add("transitions", 1)
    cov.add("states", 1)
    cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    size = lambda n: len(world(n).rules)  # noqa
    for n in MAKE:
        world(n).pool
    pair_of = lambda n, k: [(n, k, i, j) for i, j in itertools.combinations(range(size(n)), 2)]  # noqa
    P = itertools.product
    sizes = [s for n in range(1, 5 if big else 4) for s in P(range(1, 5 if big else 4), repeat=n)] + [(8,), (13,), (2, 11), (18, 1)]
    out = [
        Phase("shapes", lambda: [s for s in P(range(3), range(3), range(1, 3), range(3), range(3)) if sum(s) <= (7 if big else 6)], run_shapes, cpu_limit=300,
              note="an ambiguous pair for every combination of parts"),
        Phase("groups", lambda: list(P(sizes, ("declared", "reversed", "dealt"))), run_groups, cpu_limit=300, note="up to %d groups of ambiguous rules at once" % (4 if big else 3)),
        Phase("pairs", lambda: [("all2" if big else "small2", i, False) for i in range(size("all2" if big else "small2"))], run_pairs, cpu_limit=900, note="pairs of rules"),
        Phase("settings", lambda: [("mini2", i, True) for i in range(size("mini2"))], run_pairs, note="pairs of rules, by from_dict"),
        Phase("twice", lambda: [("twice", i, False) for i in range(size("twice"))], run_pairs, note="pairs, including rules alike but for the production"),
        Phase("triples", lambda: pair_of("small2", 3)[:: 1 if big else 3], run_more, cpu_limit=900, note="triples"),
        Phase("three-tokens", lambda: [("three", i, False) for i in range(size("three"))], run_pairs, cpu_limit=300, note="three tokens with overlapping classes"),
        Phase("related", lambda: [(n, i, False) for n in RELATED for i in range(size(n))], run_pairs, note="class names that are parts or variants of one another"),
        Phase("long", lambda: [(n, i, n in (4, 8) or big) for n in ((4, 8, 16, 33) if not big else (4, 7, 8, 12, 16, 20, 33)) for i in range(len(long_patterns(n)))], run_long, cpu_limit=900, note="rules with many required tokens"),
        Phase("quadruples", lambda: pair_of("mini2", 4), run_more, cpu_limit=900, note="rule sets of four rules"),
        Phase("alike", lambda: [c[:1] + (3,) + c[2:] for c in pair_of("alike", 3)], run_more, cpu_limit=300, note="triples of rules with one production"),
        Phase("quiet", lambda: [(ks,) for ks in fam.subsets(range(size("mini2")), 2, 2)], run_quiet, note="checking off, loading, transliterating, pruning"),
    ]
    return out
