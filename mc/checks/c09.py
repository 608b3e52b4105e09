import itertools
import json

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, mod, outcome
from mc.ref import OM, Cfg, ambiguous_window, rule

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "cases = sequences of public operations on a transliterator and those derived from it; state = one history (from a "
    "freshly built transliterator); transition = one operation; after the history every probe call must answer as on an "
    "untouched transliterator, whose answers were recorded before any history ran"
)
ASSUMPTIONS = [
    "ordering inside sets of tokens or classes in an uncompressed dump is not compared",
    "scope: histories within the bounds stated per phase",
]

SETTINGS = {
    "plain": Cfg(
        fam.TOK,
        fam.BASE_RULES + [rule("AB", "ab"), rule("A!", "a", pt="bb"), rule("BB", "bb", nc=["v"]), rule("B", "ba", pc=["wb"])],
        [OM(("v",), ("v",), "+"), OM(("v", "v"), ("k",), "-")],
        metadata={"name": "x"},
    ),
    # gaps, consolidation, several whitespace tokens, no on-match rules
    "gaps": Cfg(
        {"ab": ("v",), "b": ("k",), " ": ("wb",), "\t": ("wb", "k")},
        [rule("1", ["ab"]), rule("2", ["b"], pt=["ab"]), rule("", [" "]), rule("1", ["ab", "b"], nt=[" "])],
        ws=(" ", "wb", True),
    ),
    # contexts of up to three items on either side of every token, whitespace included
    "wide": Cfg(
        {"a": ("v",), "b": ("v", "k"), " ": ("wb",)},
        fam.BASE_RULES
        + [rule("1", " ", pt="ab"), rule("2", " ", nt="baab"), rule("3", " ", pc=["v", "v", "k"]), rule("4", "a", nc=["wb", "v", "k"]),
           rule("5", "b", pt="  a"), rule("6", "ab", pt=" ", nt="ab "), rule("7", " ", pt="a", nt="b", nc=["v", "v", "v", "v"]),
           rule("8", "aaa", pt="b", nc=["k"]), rule("A", "aaaa")],
        [OM(("k", "wb"), ("v", "k"), "<"), OM(("v", "v"), ("v", "v"), "+"), OM(("wb",), ("v", "v", "v"), ">")],
    ),
}
INPUTS = ["", "ab", "bab a", "aab", " \tab  b", "b?a", "abab b"]
# every whitespace and every letter in the middle of different wider contexts
WIDE = ["ab b a", "bb baab", "bb baa", "aa bab", "ba bb", "aabaabab ab", "a  ab", "b  ab", "baaab", "aaaab", "abbab ba"]


def norm_dump(d):
    """A dump with the order inside sets removed."""
    d = json.loads(json.dumps(d, default=list))
    for key in ("tokens", "tokens_by_class"):
        if isinstance(d.get(key), dict):
            d[key] = {k: sorted(v) for k, v in d[key].items()}
    return json.dumps(d, sort_keys=True)


def probes(g):
    """Every answer, as comparable data."""
    out = []
    put = lambda name, *r: out.append((name,) + r)  # noqa
    put("first dump", norm_dump(g.dump()), g.dumps(1))
    for s in INPUTS + WIDE:
        put("transliterate %r" % s, outcome(g.transliterate, s))
        put("tokenize %r" % s, outcome(g.tokenize, s))
    toks = [g.whitespace.default] + [t for t in g.tokens if t != g.whitespace.default] * 2 + [g.whitespace.default]
    for i in range(1, len(toks) - 1):
        put("match_at %d" % i, outcome(g.match_at, i, toks))
        put("match_at all %d" % i, outcome(g.match_at, i, toks, match_all=True))
    put("dump", norm_dump(g.dump()))
    put("dumps1", g.dumps(1))
    put("dumps2", g.dumps())
    for p in ("B", ["1", "AB"]):
        h = g.pruned_of(p)
        put("pruned_of %r" % (p,), [tuple(r) for r in h.rules], [outcome(h.transliterate, s) for s in INPUTS[:4]], h.ignore_errors)
    put("rules", repr(g.rules), repr(g.productions), repr(g.onmatch_rules and list(g.onmatch_rules)))
    put("settings", repr(sorted((k, sorted(v)) for k, v in g.tokens.items())), repr(g.whitespace), g.ignore_errors)
    return out


def diff(a, b):
    return [(x, y) for x, y in zip(a, b) if x != y][:3] or (a[len(b) :], b[len(a) :])


class World:
    """A transliterator under test with everything derived from it."""

    def __init__(self, name):
        self.cfg = SETTINGS[name]
        self.settings = self.cfg.settings()
        self.g = GT().from_dict(self.settings, check_ambiguity=False)
        self.flag = False
        self.d = None

    def derived(self):
        if self.d is None:
            self.d = self.g.pruned_of("B")
        return self.d

    def coverage(self):
        g = self.g
        return mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata,
                                            check_ambiguity=False, graph=g.graph, tokens_by_class=g.tokens_by_class,
                                            onmatch_rules_lookup=g.onmatch_rules_lookup, tokenizer_pattern=g.tokenizer_pattern)


def op_flag(v):
    def op(w):
        w.g.ignore_errors = v
        w.flag = v

    return op


def spoil(w):
    """The caller changes lists it was given."""
    for s in ("ab", "bab a", ""):
        for x in (outcome(w.g.tokenize, s), outcome(w.g.match_at, 1, [" ", "b", " "], match_all=True)):
            if x[0] == "ok":
                x[1].reverse()
                x[1].append(x[1][0] if x[1] else 0)
        outcome(w.g.transliterate, s)
        for x in (w.g.last_input_tokens, w.g.last_matched_rules, w.g.last_matched_rule_tokens, w.g.productions):
            x.append("b")
            x.reverse()
    for d in (w.g.dump(),):
        for k in ("rules", "onmatch_rules"):
            (d[k] or []).clear()
        for v in (d["tokens"], d["onmatch_rules_lookup"] or {}, d["graph"]["edge"], d["metadata"] or {}):
            v.clear()


def use(g):
    for s in INPUTS:
        outcome(g.transliterate, s)
    return g


def op_cov(w):
    c = w.coverage()
    use(c)
    c.clear_visited()
    outcome(c.check_coverage)
    c.check_coverage(raise_exception=False)
    c.dump()
    use(c.pruned_of("A"))


def op_derived_flag(w):
    w.derived().ignore_errors = True
    use(w.derived())
    w.derived().dump()


def op_same_settings(w):
    h = GT().from_dict(w.settings, check_ambiguity=False, ignore_errors=True)
    use(h)
    h.ignore_errors = False
    use(h)


def op_load(level):
    def op(w):
        h = GT().load(w.g.dump(level), ignore_errors=True)
        use(h)
        h.pruned_of("A").transliterate("ab")
        h.dumps()

    return op


def op_bad_loads(w):
    d = w.g.dump()
    outcome(GT().load, dict(d, tokens=None))
    outcome(GT().load, dict(d, graphtransliterator_version="99.0.0"))
    outcome(GT().from_dict, dict(w.cfg.settings(), whitespace={}))
    amb = w.cfg.replace(rules=w.cfg.rules + (rule("dup", w.cfg.rules[0].t),))
    outcome(GT().from_dict, amb.settings())


OPS = {
    "transliterate ab": lambda w: outcome(w.g.transliterate, "ab"),
    "transliterate bab aab": lambda w: outcome(w.g.transliterate, "bab aab"),
    "transliterate ?": lambda w: outcome(w.g.transliterate, "ab?"),
    "transliterate gap": lambda w: outcome(w.g.transliterate, " b b"),
    "tokenize": lambda w: outcome(w.g.tokenize, "abb  ab"),
    "tokenize ?": lambda w: outcome(w.g.tokenize, "b?ab"),
    "match": lambda w: outcome(w.g.match_at, 1, [" ", "b", " "]),
    "match all": lambda w: outcome(w.g.match_at, 2, [" ", "b", "b", " "], match_all=True),
    "spoil results": spoil,
    "tokenize b": lambda w: outcome(w.g.tokenize, "bab ab"),
    "transliterate wide": lambda w: [outcome(w.g.transliterate, s) for s in WIDE[:5]],
    "match wide": lambda w: [outcome(w.g.match_at, i, list(" abbaa b "), match_all=m) for i in (1, 3, 6) for m in (True, False)],
    "match out of range": lambda w: (outcome(w.g.match_at, 9, [" ", "b", " "]), outcome(w.g.match_at, 1, [" ", "?", " "])),
    "dump": lambda w: (w.g.dump(), w.g.dumps(0)),
    "dump compressed": lambda w: (w.g.dump(1), w.g.dumps(2), w.g.dumps(1)),
    "dump bad": lambda w: (outcome(w.g.dump, 9), outcome(w.g.dump, -1)),
    "prune": lambda w: use(w.g.pruned_of(["1", "A", "AB"])),
    "prune all": lambda w: use(w.g.pruned_of(w.g.productions)),
    "derived": lambda w: use(w.derived()),
    "derived flag": op_derived_flag,
    "same settings": op_same_settings,
    "load 0": op_load(0),
    "load 1": op_load(1),
    "load 2": op_load(2),
    "bad loads": op_bad_loads,
    "coverage": op_cov,
    "flag on": op_flag(True),
    "flag off": op_flag(False),
    "read": lambda w: (w.g.graph, w.g.tokens_by_class, w.g.last_matched_rules, w.g.last_matched_rule_tokens, outcome(lambda: w.g.last_input_tokens), w.g.onmatch_rules_lookup),
}

_base = {}


def init(_w):
    for name in SETTINGS:
        for flag in (False, True):
            w = World(name)
            w.g.ignore_errors = flag
            _base[name, flag] = probes(w.g)
        w = World(name)
        _base[name, "derived"] = probes(w.g.pruned_of("B"))
        _base[name, "coverage"] = probes(World(name).coverage())
        w = World(name)
        _base[name, "loaded"] = probes(GT().load(w.g.dump(2)))


def check(w, name, hist, deep):
    got = probes(w.g)
    if got != _base[name, w.flag]:
        raise Bad("answers differ from a freshly built transliterator", settings=name, history=hist, differences=diff(got, _base[name, w.flag]))
    if deep:
        g = World(name).g
        got = probes(g)
        if got != _base[name, False]:
            raise Bad("a transliterator built afterwards answers differently", settings=name, history=hist, differences=diff(got, _base[name, False]))
        w.g.ignore_errors = False
        for kind, h in (("derived", w.g.pruned_of("B")), ("coverage", w.coverage()), ("loaded", GT().load(w.g.dump(2)))):
            got = probes(h)
            if got != _base[name, kind]:
                raise Bad("a transliterator derived afterwards answers differently", settings=name, kind=kind, history=hist, differences=diff(got, _base[name, kind]))


def run(deep):
    def go(case, cov):
        name, hist = case
        w = World(name)
        results = []
        for op in hist:
            r = OPS[op](w)
            if op.partition(" ")[0] in ("transliterate", "tokenize", "match", "dump"):
                results.append((op, r, repr(r)))
            cov.add("transitions", 1)
        cov.add("states", 1)
        cov.add("traces", 1)
        check(w, name, hist, deep)
        for op, r, was in results:
            if repr(r) != was:
                raise Bad("a result given earlier was changed by later calls", settings=name, history=hist, call=op, result=was, became=r)

    return go


def hists(n):
    return lambda: ((name, h) for name in SETTINGS for h in itertools.product(OPS, repeat=n))


def run_long(case, cov):
    """Many calls with distinct inputs; each answer is compared with the model."""
    name, n, order, flags = case
    w = World(name)
    cfg = w.cfg
    alphabet = [t for t in cfg.tokens] + ["?"]
    texts = list(itertools.islice(("".join(t) for t in fam.strings(alphabet, 0, 9)), n))
    if order == "backwards":
        texts = texts[::-1]
    elif order == "interleaved":
        texts = texts[::2] + texts[1::2]
    elif order == "twice":
        texts = [t for x in texts for t in (x, x)]
    expect = {}
    for r in range(2):
        for k, s in enumerate(texts):
            if flags:
                w.g.ignore_errors = w.flag = bool((k // flags) % 2)
            got = (outcome(w.g.transliterate, s), outcome(w.g.tokenize, s))
            cov.add("transitions", 2)
            if (s, w.flag) not in expect:
                toks, bad = cfg.tokenize(s)
                ks, sk, out, fail = cfg.run(toks, w.flag)
                if bad and not w.flag:
                    expect[s, w.flag] = (("exc", "UnrecognizableInputTokenException"),) * 2
                elif fail is not None:
                    expect[s, w.flag] = ("exc", "NoMatchingTransliterationRuleException"), ("ok", toks)
                else:
                    expect[s, w.flag] = ("ok", out), ("ok", toks)
            if got != expect[s, w.flag]:
                raise Bad("call %d of a long history answers differently" % k, settings=name, input=s, ignore_errors=w.flag, got=got, expected=expect[s, w.flag])
    cov.add("states", len(texts))
    cov.add("traces", 1)
    check(w, name, case, True)


def far_cases(big):
    """Rules and on-match rules that look n tokens far, on either side, and inputs that differ only at
    one place of a long run, in several orders, all on one transliterator."""
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16) + ((24, 33) if big else ()):
        for kind in range(6):
            yield n, kind


def run_far(case, cov):
    n, kind = case
    a, v = ("a",) * (n - 1), ("v",) * (n - 1)
    extra, oms = [
        ([rule("!", "a", nt=a + ("b",))], []),
        ([rule("!", "a", pt=("b",) + a)], []),
        ([rule("!", "a", nc=v + ("k",))], []),
        ([rule("!", "a", pc=("k",) + v)], []),
        ([], [OM(("k",) + v, ("v",), "!")]),
        ([], [OM(("v",), v + ("k",), "!")]),
    ][kind]
    cfg = Cfg(fam.TOK, fam.BASE_RULES + extra, oms)
    size = n + 3
    texts = ["a" * i + "b" + "a" * (size - i) for i in range(size + 1)] + ["a" * size, "b" * size]
    texts += ["a" * i + x + "a" * (size - i) + "a" * size + y + "a" * i for i in range(0, size, 2) for x in "ab " for y in "ab "]
    expect = {s: outcome(lambda: cfg.run(cfg.tokenize(s)[0])[2]) for s in texts}
    for order in (texts, texts[::-1], texts[::2] + texts[1::2]):
        g = GT().from_dict(cfg.settings(), check_ambiguity=False)
        for k, s in enumerate(order):
            got = outcome(g.transliterate, s)
            cov.add("transitions", 1)
            if got != expect[s]:
                raise Bad("call %d of a history of similar inputs answers differently" % k, cfg=cfg, before=order[max(0, k - 3) : k], input=s, got=got, expected=expect[s])
        cov.add("states", 1)
        cov.add("traces", 1)


def length_cases(big):
    """Long inputs of one length that differ at one place."""
    sizes = (30, 64, 65, 100, 128, 201, 255, 257, 500, 1000, 1025, 2100) + ((4097, 10001, 20000) if big else ())
    for n in sizes:
        for flag in (False, True):
            for other in "b ?":
                yield n, flag, other


def run_length(case, cov):
    n, flag, other = case
    cfg = SETTINGS["plain"]
    at = sorted({0, 1, n // 4, n // 2, n - n // 4, n - 2, n - 1} | {k for k in (16, 32, 63, 64, 99, 100, 127, 128, 200, 255, 256, 500, 512, 1000, 1024, 2000, 4096) if k < n})
    texts = ["a" * n] + ["a" * i + other + "a" * (n - 1 - i) for i in at] + ["a" * (n - 1), "a" * (n + 1)]
    texts += [("ab " * n)[:n], ("ab " * n)[1 : n + 1], ("ab " * n)[: n - 1] + other]
    expect = {}
    for s in texts:
        toks, bad = cfg.tokenize(s)
        ks, sk, res, fail = cfg.run(toks, flag)
        if bad and not flag:
            expect[s] = (("exc", "UnrecognizableInputTokenException"),) * 2
        elif fail is not None:
            expect[s] = ("exc", "NoMatchingTransliterationRuleException"), ("ok", toks)
        else:
            expect[s] = ("ok", res), ("ok", toks)
    for order in (texts, texts[::-1], texts[::2] + texts[1::2]):
        g = GT().from_dict(cfg.settings(), check_ambiguity=False, ignore_errors=flag)
        for k, s in enumerate(order):
            got = (outcome(g.transliterate, s), outcome(g.tokenize, s))
            cov.add("transitions", 2)
            if got != expect[s]:
                raise Bad("call %d of a history of long inputs answers differently" % k, settings="plain", length=n, input=s, ignore_errors=flag,
                          before=order[max(0, k - 2) : k], got=got, expected=expect[s])
        cov.add("states", 1)
        cov.add("traces", 1)


def run_repeat(case, cov):
    name, op, n, op2 = case
    w = World(name)
    for _ in range(n):
        OPS[op](w)
    OPS[op2](w)
    cov.add("transitions", n + 1)
    cov.add("states", 1)
    cov.add("traces", 1)
    check(w, name, case, True)


def phases(tier):
    big = tier == "thorough"
    for c in SETTINGS.values():
        assert ambiguous_window(c) is None, "settings must be unambiguous"
    longs = [(n, k, o, f) for n in SETTINGS for k in (10, 60, 300, 1300) + ((6000,) if big else ()) for o in ("forwards", "backwards", "interleaved", "twice") for f in (0, 1, 7)]
    out = [
        Phase("far", lambda: far_cases(big), run_far, note="rules and on-match rules that reach up to %d tokens far, inputs that agree nearby and differ further away" % (33 if big else 16)),
        Phase("lengths", lambda: length_cases(big), run_length, note="inputs of up to %d characters that have one length and differ at one place" % (20000 if big else 2100)),
        Phase("long", lambda: longs, run_long, init=init, note="histories of up to %d calls" % (24000 if big else 5200)),
        Phase("repeated", lambda: [(n, o, k, p) for n in SETTINGS for o in OPS for k in (2, 20, 70) for p in ("transliterate ab", "flag on")], run_repeat, init=init, note="one operation repeated up to 70 times"),
        Phase("one", hists(1), run(True), init=init, note="every operation"),
        Phase("two", hists(2), run(True), init=init, note="every sequence of two of the %d operations, probing derived transliterators too" % len(OPS)),
    ]
    if big:
        out.append(Phase("three", hists(3), run(False), init=init, note="every sequence of three operations"))
    else:
        core = ["transliterate bab aab", "transliterate ?", "tokenize ?", "match all", "dump", "dump compressed", "prune", "derived flag", "load 1", "coverage", "flag on", "flag off"]
        out.append(Phase("three", lambda: ((n, h) for n in SETTINGS for h in itertools.product(core, repeat=3)), run(False), init=init,
                         note="every sequence of three of 12 main operations"))
    return out
