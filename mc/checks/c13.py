import itertools
import json

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, build, mod, outcome, same_rules
from mc.ref import OM, Cfg, rule

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "cases = first two parts of a version label x compression level x route; state = version label, with the verdict of a model that "
    "compares three integers; transition = one load on the implementation; traces = loads whose verdict agreed"
)
ASSUMPTIONS = [
    "labels of numbers separated by dots; a label that differs from the current one in final zeros only is not tried",
    "scope: the parts in the grid, which has values next to, far from, and of different length than those of the current version",
]

CFG = Cfg(fam.TOK, fam.BASE_RULES + [rule("x", "ab", pc=["v"])], [OM(("v",), ("v",), ",")], metadata={"graphtransliterator_version": "999.0.0"})


def current():
    parts = [int(x) for x in mod().__version__.split(".")]
    assert len(parts) == 3
    return tuple(parts)


def grid(big):
    cur = current()
    vals = {0, 1, 2, 3, 9, 10, 11, 19, 20, 24, 99, 100, 101, 1000, 10**12}
    if big:
        vals |= set(range(0, 34)) | {k * 10 for k in range(1, 13)} | {2**31 - 1, 2**31, 2**63, 2**64 + 1}
    for x in cur:
        vals |= {x, x + 1, max(0, x - 1), x + 10, x * 10, x * 10 + 1, int("1" + str(x)), 100 + x}
    return sorted(vals)


_memo = {}


def original():
    if "g" not in _memo:
        _memo["g"] = build(CFG)
    return _memo["g"]


def attempt(d, label, route, level, cov):
    from graphtransliterator.exceptions import IncorrectVersionException

    G = GT()
    cov.add("transitions", 1)
    try:
        h = G.load(d) if route == "load" else G.loads(json.dumps(d))
    except IncorrectVersionException:
        return None
    return h


def run(case, cov):
    a, b, level, route, third = case
    cur = current()
    g = original()
    d0 = g.dump(level)
    for c in third:
        d = dict(d0, graphtransliterator_version="%d.%d.%d" % (a, b, c))
        cov.add("states", 1)
        later = (a, b, c) > cur
        h = attempt(d, (a, b, c), route, level, cov)
        if later and h is not None:
            raise Bad("loads a dump of version %d.%d.%d" % (a, b, c), current=cur, level=level, route=route)
        if not later:
            if h is None:
                raise Bad("refuses a dump of version %d.%d.%d" % (a, b, c), current=cur, level=level, route=route)
            if same_rules(h) != same_rules(g) or h.transliterate("abba b") != g.transliterate("abba b"):
                raise Bad("loaded transliterator differs", version=(a, b, c), level=level, route=route)
        cov.add("traces", 1)


def run_lengths(case, cov):
    """Labels with fewer or more parts than usual."""
    label, level, route = case
    cur = current()
    k = min(len(label), len(cur))
    if label[:k] == cur[:k] and label != cur and not any(label[k:] + cur[k:]):
        return  # 1.2 and 1.2.0: not defined
    cov.add("states", 1)
    d = dict(original().dump(level), graphtransliterator_version=".".join(map(str, label)))
    h = attempt(d, label, route, level, cov)
    if (h is None) != (label > cur):
        raise Bad("%s a dump of version %s" % ("refuses" if h is None else "loads", d["graphtransliterator_version"]), current=cur, level=level, route=route)
    cov.add("traces", 1)


def run_none(case, cov):
    level, route, kw, how = case
    g = original()
    d = g.dump(level)
    if d.get("graphtransliterator_version") != mod().__version__:
        raise Bad("dump is labelled %r" % d.get("graphtransliterator_version"), level=level)
    if how == "absent":
        del d["graphtransliterator_version"]
    cov.add("states", 1)
    cov.add("transitions", 1)
    h = GT().load(d, **kw) if route == "load" else GT().loads(json.dumps(d), **kw)
    if same_rules(h) != same_rules(g) or outcome(h.transliterate, "abba b") != outcome(g.transliterate, "abba b"):
        raise Bad("loaded transliterator differs", level=level, route=route, how=how)
    cov.add("traces", 1)


def run_options(case, cov):
    """Options do not get a later version accepted, nor an earlier one refused."""
    label, level, route, kw = case
    from graphtransliterator.exceptions import IncorrectVersionException

    d = dict(original().dump(level), graphtransliterator_version=".".join(map(str, label)))
    cov.add("states", 1)
    cov.add("transitions", 1)
    G = GT()
    try:
        G.load(d, **kw) if route == "load" else G.loads(json.dumps(d), **kw)
        ok = True
    except IncorrectVersionException:
        ok = False
    if ok != (label <= current()):
        raise Bad("version %s: %s" % (label, "loaded" if ok else "refused"), options=kw, level=level, route=route)
    cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    g = grid(big)
    P = itertools.product
    kws = [{}, {"ignore_errors": True}, {"check_ambiguity": True}, {"check_ambiguity": False, "ignore_errors": False}]
    M, m, p = current()
    near = [(M, m, p), (M, m, p + 1), (M, m + 1, 0), (M + 1, 0, 0), (M, m, max(p - 1, 0)), (0, 99, 99), (M, m, p + 10), (M, 10 + m, p), (10 + M, 0, 0)]
    levels = [(2, "load"), (1, "loads"), (0, "load")] if not big else list(P((0, 1, 2), ("load", "loads")))
    return [
        Phase("grid", lambda: ((a, b, lv, r, g) for a in g for b in g for lv, r in levels if lv or big or (a in (M, M - 1, M + 1) and b in (m, m - 1, m + 1, 10))), run, note="every label in the grid: parts %s" % g),
        Phase("lengths", lambda: ((v, lv, r) for n in (1, 2, 4, 5) for v in P(sorted({0, 1, M, m, p, M + 1, m + 1, p + 1, 10}), repeat=n) if n < 5 or v[:3] == (M, m, p) or big for lv, r in (levels if n < 4 or v[:2] == (M, m) else levels[:1])), run_lengths, note="labels of one, two, four and five parts"),
        Phase("options", lambda: P(near, (0, 1, 2), ("load", "loads"), kws), run_options, note="with keyword options"),
        Phase("unlabelled", lambda: P((0, 1, 2), ("load", "loads"), kws, ("absent", "present")), run_none, note="no version label; current label"),
    ]
