import copy
import json
import os
import sys

from mc import fam
from mc.checks.c09 import norm_dump
from mc.engine import REPO, Bad, Phase
from mc.impl import GT, bundled, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C39"
LEVEL = "model_checking"
RULE = (
    "cases = objects x calls on them; within a case the call is executed once for every point at which it can be interrupted (before each source line of the package "
    "and at the return of each of its functions, at the first executions of each), an exception being raised there; states = points; transitions = interrupted calls on the "
    "implementation; traces = points after which the call itself and all other calls answered as if the interrupted one had never been made"
)
ASSUMPTIONS = [
    "interruptions happen between source lines of the package or at returns of its functions, not inside the standard library or marshmallow",
    "the attributes that describe the last transliteration are free after an interrupted one, and so is what an interrupted transliteration visited",
    "graphs being edited, files being written and registering bundled transliterators are out of scope",
    "scope: the objects, calls and executions of each line listed per phase",
]
PKG = os.path.join(REPO, "graphtransliterator", "")


class Stop(KeyboardInterrupt):
    pass


class Full(MemoryError):
    pass


class Broken(RuntimeError):
    pass


KINDS = {"interrupt": Stop, "memory": Full, "error": Broken}

CFGS = {
    "onmatch": Cfg(
        {"a": ("v",), "b": ("v", "k"), "ab": ("v",), " ": ("wb",), "\t": ("wb",)},
        fam.BASE_RULES + [rule("AB", ["a", "b"]), rule("2", ["ab"]), rule("B!", "b", pc=["wb"]), rule("A!", "a", pt="b", nt="b", nc=["wb"]), rule("\t", "\t")],
        [OM(("v",), ("v",), "+"), OM(("v", "v"), ("k",), "-")],
        metadata={"name": "x", "list": [1]},
    ),
    "consolidating": Cfg({"a": ("v",), "b": (), " ": ("wb",), "_": ("wb",)}, [rule("A", "a"), rule("", "b"), rule("A!", "a", pc=["v"]), rule("_", " ")], ws=(" ", "wb", True)),
}
INPUTS = ["", "ab", "ba b", "bab\ta", " _ a  b_", "a?b", "aabb"]


class World:
    def __init__(self, name, kind):
        self.kind = kind
        self.cfg = cfg = CFGS[name]
        self.settings, self.easy = cfg.settings(), cfg.easy()
        if name not in _made:
            b = GT().from_dict(cfg.settings(), check_ambiguity=False)
            _made[name] = [b.dump(lv) for lv in (0, 1, 2)], [b.dumps(lv) for lv in (0, 1, 2)]
        self.dumps, self.texts = copy.deepcopy(_made[name])
        self.g = GT().from_dict(self.settings, check_ambiguity=False)
        if kind == "coverage":
            g = self.g
            self.g = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata, check_ambiguity=False)
            for t in ("ab", "ba b"):  # some of it is covered
                self.g.transliterate(t)
        self.other = GT().load(self.dumps[1])


_made = {}


def toks(w):
    t = [x for x in w.cfg.tokens if x not in " \t_"]
    return [" "] + t + t[::-1] + [" "]



CALLS = {
    "transliterate": lambda w: w.g.transliterate("ba b"),
    "transliterate long": lambda w: w.g.transliterate("abba ab" * 3),
    "transliterate unknown": lambda w: w.g.transliterate("ab?"),
    "tokenize": lambda w: w.g.tokenize(" ab  b "),
    "tokenize unknown": lambda w: w.g.tokenize("b?ab"),
    "match": lambda w: w.g.match_at(1, toks(w)),
    "match all": lambda w: w.g.match_at(2, toks(w), match_all=True),
    "dump 0": lambda w: norm_dump(w.g.dump(0)),
    "dump 1": lambda w: w.g.dump(1),
    "dump 2": lambda w: w.g.dump(2),
    "dumps": lambda w: w.g.dumps(),
    "dumps 1": lambda w: w.g.dumps(1),
    "prune": lambda w: facts(w.g.pruned_of("A")),
    "prune many": lambda w: facts(w.g.pruned_of(["A", "AB", "B"])),
    "read": lambda w: [repr(getattr(w.g, a)) for a in ("rules", "whitespace", "productions", "metadata", "onmatch_rules", "ignore_errors", "tokenizer_pattern")],
    "load 0": lambda w: facts(GT().load(w.dumps[0])),
    "load 1": lambda w: facts(GT().load(w.dumps[1])),
    "load 2": lambda w: facts(GT().load(w.dumps[2], ignore_errors=True)),
    "loads": lambda w: facts(GT().loads(w.texts[2])),
    "loads 0": lambda w: facts(GT().loads(w.texts[0], ignore_errors=True)),
    "from_dict": lambda w: facts(GT().from_dict(w.settings, check_ambiguity=False)),
    "from_dict checked": lambda w: facts(GT().from_dict(w.settings, ignore_errors=True)),
    "from_easyreading_dict": lambda w: facts(GT().from_easyreading_dict(w.easy, check_ambiguity=False)),
    "from_yaml": lambda w: facts(GT().from_yaml(json.dumps(w.easy), check_ambiguity=False)),
    "constructor": lambda w: facts(GT()(w.g.tokens, w.g.rules, w.g.whitespace, onmatch_rules=w.other.onmatch_rules, graph=w.other.graph)),
    "coverage from its parts": lambda w: facts(mod().CoverageTransliterator(w.other.tokens, w.other.rules, w.other.whitespace, onmatch_rules=w.other.onmatch_rules, graph=w.other.graph, check_ambiguity=False)),
    "other": lambda w: (w.other.transliterate("ba b"), w.other.dumps(1)),
    "generate": lambda w: bundled().Bundled.generate_yaml_tests(w.g),
    "bad settings": lambda w: outcome(GT().from_dict, dict(w.settings, whitespace={})),
    "bad dump": lambda w: outcome(GT().load, dict(w.dumps[0], rules=None)),
    "ambiguous": lambda w: outcome(GT().from_dict, dict(w.settings, rules=list(w.settings["rules"]) + [dict(w.settings["rules"][0], production="!")])),
    "check": lambda w: w.g.check_coverage(False),
    "check error": lambda w: str(w.g.check_coverage()),
    "clear": lambda w: w.g.clear_visited(),
}
COVERING = ("check", "check error", "clear")
VISITING = ("transliterate", "transliterate long", "transliterate unknown", "match", "match all")


def fits(call, kind):
    return kind == "coverage" or call not in COVERING


def facts(g):
    """What a transliterator is, apart from what it did last."""
    gr = g.graph
    return (
        type(g).__name__, repr(g.rules), {t: set(c) for t, c in g.tokens.items()}, {c: set(t) for c, t in g.tokens_by_class.items()}, tuple(g.whitespace), [tuple(o) for o in list(g.onmatch_rules or ())],
        repr(g.metadata), g.ignore_errors, g.productions, g.tokenizer_pattern, g.graphtransliterator_version,
        [dict(n) for n in list(gr.node)], {h: {t: dict(e) for t, e in ts.items()} for h, ts in gr.edge.items()}, sorted(gr.edge_list), repr(g.onmatch_rules_lookup),
    )


def said(f):
    try:
        return ("ok", f())
    except Exception as e:
        return (type(e).__name__, str(e)[:2000])


def lite(w):
    """What is looked at after every point."""
    out = [("settings", w.settings), ("easy", w.easy), ("dumps", w.dumps)]
    if w.kind == "coverage":
        out += [("covered", said(w.g.check_coverage))]
    out += [("object", facts(w.g)), ("other", facts(w.other)), ("object: last", last(w.g))]
    out += [("object: transliterate %r" % s, outcome(w.g.transliterate, s)) for s in INPUTS]
    out += [("other: transliterate %r" % s, outcome(w.other.transliterate, s)) for s in INPUTS[:3]]
    return copy.deepcopy(out)


def last(g):
    return outcome(lambda: (g.last_input_tokens, g.last_matched_rules, g.last_matched_rule_tokens))


def probes(w):
    """Everything that is to be as before, looked at after some points."""
    out = [("settings", w.settings), ("easy", w.easy), ("dumps", w.dumps)]
    if w.kind == "coverage":
        out += [("covered", said(w.g.check_coverage))]
    for name, g in (("object", w.g), ("other", w.other)):
        out += [(name, facts(g))]
        for s in INPUTS:
            out += [("%s: transliterate %r" % (name, s), outcome(g.transliterate, s)), ("%s: tokenize %r" % (name, s), outcome(g.tokenize, s))]
        out += [("%s: last" % name, last(g))]
        t = toks(w)
        out += [("%s: match_at %d" % (name, i), outcome(g.match_at, i, t, match_all=True)) for i in range(1, len(t) - 1)]
        out += [("%s: dump" % name, norm_dump(g.dump(0))), ("%s: dumps" % name, g.dumps())]
    if w.kind == "coverage":
        w.g.clear_visited()
        out += [("cleared", said(w.g.check_coverage))]
    h = GT().from_dict(w.settings, check_ambiguity=False)
    out += [("built anew", facts(h), [outcome(h.transliterate, s) for s in INPUTS[:4]])]
    h = GT().load(w.dumps[2])
    out += [("loaded anew", facts(h), [outcome(h.transliterate, s) for s in INPUTS[:4]])]
    return copy.deepcopy(out)


class Tracer:
    """Calls f; raises exc at one point (a source line or return, and which execution of it) or lists all points."""

    def __init__(self, point=None, exc=None, visits=1):
        self.point, self.exc, self.visits = point, exc, visits
        self.seen, self.points, self.fired = {}, [], False

    def local(self, frame, event, arg):
        if event in ("line", "return") and not self.fired:
            key = frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno, event
            n = self.seen[key] = self.seen.get(key, 0) + 1
            if self.point is None:
                if n <= self.visits:
                    self.points.append(key + (n,))
            elif self.point == key + (n,):
                self.fired = True
                raise self.exc("injected")
        return self.local

    def tracer(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(PKG) else None

    def run(self, f, *args):
        sys.settrace(self.tracer)
        try:
            return ("ok", f(*args))
        except Exception as e:
            return ("exc", type(e).__name__)
        except KeyboardInterrupt:
            return ("exc", "Stop")
        finally:
            sys.settrace(None)


_expected = {}


def expected(name, kind, call):
    key = name, kind
    if key not in _expected:
        _expected[key] = lite(World(name, kind)), probes(World(name, kind))
    if key + (call,) not in _expected:
        _expected[key + (call,)] = copy.deepcopy(outcome(CALLS[call], World(name, kind)))
    return _expected[key] + (_expected[key + (call,)],)


def points_of(name, kind, call, visits):
    t = Tracer(visits=visits)
    t.run(CALLS[call], World(name, kind))
    return t.points


def show(point):
    f, func, line, event, n = point
    return "%s of %s, line %d of %s, execution %d" % ("return" if event == "return" else "before", func, line, os.path.relpath(f, PKG), n)


def compare(w, got, want, call, info):
    free = ("object: last",) if call in VISITING + ("tokenize", "tokenize unknown") else ()
    if call in VISITING + ("clear", "generate", "visited"):
        free += ("covered",)
    for x, y in zip(got, want):
        if x != y and x[0] not in free:
            raise Bad("after a call was interrupted, others answer differently", got=x, expected=y, **info)


def run(case, cov):
    """Up to `every` points on one object, everything looked at after the last."""
    name, kind, call, exc, visits, part, parts, again, every = case
    few, all_, result = expected(name, kind, call)
    points = points_of(name, kind, call, visits)[part::parts]
    if kind == "coverage":
        every = 1
    for n in range(0, len(points), every):
        w = World(name, kind)
        info = dict(cfg=w.cfg, object=kind, call=call, by=exc)
        for k, point in enumerate(points[n : n + every]):
            info["interrupted"] = [show(p) for p in points[n : n + k + 1]]
            for _ in range(again):
                Tracer(point, KINDS[exc]).run(CALLS[call], w)
            cov.add("states", 1)
            cov.add("transitions", again)
            if kind == "coverage" and call not in VISITING + ("clear", "generate"):
                got = said(w.g.check_coverage)
                if got != few[3][1]:
                    raise Bad("an interrupted call changes the coverage", got=got, expected=few[3][1], **info)
            if call not in COVERING:
                got = outcome(CALLS[call], w)
                if got != result:
                    raise Bad("after it was interrupted, a call gives something else", got=got, expected=result, **info)
            compare(w, lite(w), few, "transliterate", info)
            cov.add("traces", 1)
        compare(w, probes(w), all_, "transliterate", info)


BUNDLED = {
    "new json": lambda: dump_of(bundled().Example.new("json")),
    "new yaml": lambda: dump_of(bundled().Example.new("yaml")),
    "new coverage": lambda: dump_of(bundled().Example.new("json", coverage=True)),
    "class": lambda: dump_of(bundled().Example(check_ambiguity=False)),
    "run_yaml_tests": lambda: bundled().Example.new("json").run_yaml_tests(),
    "generate_yaml_tests": lambda: bundled().Example.new("json").generate_yaml_tests(),
    "iter_names": lambda: list(bundled().iter_names()),
    "metadata": lambda: bundled().MetadataSchema().load(bundled().Example.new("json").metadata),
}


def dump_of(g):
    return type(g).__name__, norm_dump(g.dump(0)), g.dumps(1), outcome(g.transliterate, "a")


def run_bundled(case, cov):
    call, exc, visits, part, parts = case
    if "bundled" not in _expected:
        _expected["bundled"] = {k: outcome(f) for k, f in BUNDLED.items()}
    want = _expected["bundled"]
    t = Tracer(visits=visits)
    t.run(BUNDLED[call])
    for point in t.points[part::parts]:
        Tracer(point, KINDS[exc]).run(BUNDLED[call])
        cov.add("states", 1)
        cov.add("transitions", 1)
        for k in {call: 0, "new json": 0, "iter_names": 0}:
            got = outcome(BUNDLED[k])
            if got != want[k]:
                raise Bad("after a call was interrupted, bundled transliterators answer differently", call=call, interrupted=show(point), by=exc, then=k, got=got, expected=want[k])
        cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    objs = [("onmatch", "plain"), ("onmatch", "coverage"), ("consolidating", "plain")] + ([("consolidating", "coverage")] if big else [])
    heavy = {"from_dict checked": 4, "ambiguous": 4, "load 0": 4, "from_dict": 4, "from_easyreading_dict": 4, "from_yaml": 4, "generate": 4, "dump 0": 2}

    every = 3 if big else 10
    plain = [o for o in objs if o[1] == "plain"]
    apart = [c for c in CALLS if c.startswith(("load", "from", "bad", "ambig", "other"))]  # not on the object
    direct = [c for c in CALLS if c not in apart]

    def cases(calls, objs, excs, visits, again=1):
        for n, k in objs:
            for c in calls:
                if fits(c, k):
                    for e in excs:
                        p = heavy.get(c, 1) * (4 if big else 1)
                        for i in range(p):
                            yield n, k, c, e, visits, i, p, again, every

    stop, fail = ["interrupt"], ["memory", "error"] if big else ["memory"]
    out = [
        Phase("interrupted", lambda: cases(direct, objs, stop, 6 if big else 2), run, cpu_limit=300, note="every point of calls on an object, first %d executions, interrupted as by Control-C" % (6 if big else 2)),
        Phase("making", lambda: cases(apart, plain if big else plain[:1], stop, 3 if big else 1), run, cpu_limit=300, note="every point of calls that make other transliterators"),
        Phase("failing", lambda: cases(list(CALLS) if big else direct, objs if big else objs[1:2], fail, 2 if big else 1), run, cpu_limit=300, note="every point, an exception that may be caught on the way"),
        Phase("bundled", lambda: [(c, e, 2 if big else 1, i, 4) for c in (BUNDLED if big else ("new json", "generate_yaml_tests", "iter_names", "metadata")) for e in (["interrupt", "memory"] if big else ["interrupt"]) for i in range(4)],
              run_bundled, cpu_limit=300, note="calls on bundled transliterators"),
    ]
    if big:
        out.append(Phase("again", lambda: cases(list(CALLS), objs[1:3], stop, 2, 3), run, cpu_limit=300, note="the same call interrupted three times at the same point"))
    return out
