import importlib
import itertools
import json
import os
import sys

from mc import fam
from mc.engine import Bad, Phase, in_child
from mc.impl import GT, outcome
from mc.ref import OM, Cfg, ambiguous_window, rule

ID = "C12"
LEVEL = "model_checking"
RULE = (
    "cases = configuration x construction or loading route x keyword options x dumped options; state = (ambiguous, ignores errors) "
    "predicted by a two-flag model; transition = one construction, after which exception and behaviour are compared with the model"
)
ASSUMPTIONS = [
    "rules sets for which ambiguity is undisputed (two rules of equal cost for one context, none less costly; or no two rules fit one context)",
    "scope: the routes, option values and configurations listed per phase",
]

Z = {"a": ("v",), "b": ("v", "k"), "z": ("k",), " ": ("wb",)}
PLAIN = [rule("A", "a"), rule("B", "b"), rule("_", " ")]
CFGS = [
    (Cfg(Z, PLAIN), False),
    (Cfg(Z, PLAIN + [rule("x", "a", pt="b"), rule("y", "a", nt="b")]), True),
    (Cfg(Z, PLAIN + [rule("x", "a", pt="b"), rule("y", "a", nt="b"), rule("xy", "a", pt="b", nt="b")]), False),
    (Cfg(Z, PLAIN + [rule("x", "a", pc=["v"]), rule("y", "a", pc=["k"])], [OM(("v",), ("v",), ",")], metadata={"ignore_errors": True, "check_ambiguity": True}), True),
    (Cfg(Z, [rule("", " "), rule("Q", "a", pc=["v"], nc=["k"])], [OM(("wb", "v"), ("v",), "")], ws=(" ", "wb", True), metadata={"name": "q"}), False),
    (Cfg(Z, PLAIN + [rule("Z", "ab"), rule("x", "b", nc=["v"]), rule("y", "b", nc=["k"]), rule("yy", "b", nc=["wb"])], ws=(" ", "wb", True)), True),
]
FLAGS = [None, False, True]
TEXTS = ["", "a", "az", "?a", "z?", " a b ", "abz ?"]


def settings_routes():
    """name -> builder(cfg, **kw) from settings."""
    import yaml

    G = GT()

    def yaml_file(cfg, **kw):
        path = os.path.join(os.environ["MC_TMP"], "c12-%d.yaml" % os.getpid())
        with open(path, "w") as f:
            yaml.safe_dump(cfg.easy(), f, allow_unicode=True)
        return G.from_yaml_file(path, **kw)

    return {
        "dict": lambda cfg, **kw: G.from_dict(cfg.settings(), **kw),
        "easy": lambda cfg, **kw: G.from_easyreading_dict(cfg.easy(), **kw),
        "yaml": lambda cfg, **kw: G.from_yaml(yaml.safe_dump(cfg.easy(), allow_unicode=True), **kw),
        "yaml-verbatim": lambda cfg, **kw: G.from_yaml(yaml.safe_dump(cfg.easy()), charnames_escaped=False, **kw),
        "yaml_file": yaml_file,
        "yaml_file-verbatim": lambda cfg, **kw: yaml_file(cfg, charnames_escaped=False, **kw),
    }


def options(ca, ie):
    kw = {}
    if ca is not None:
        kw["check_ambiguity"] = ca
    if ie is not None:
        kw["ignore_errors"] = ie
    return kw


def judge(make, cfg, ambiguous, checks, ignores, info, cov):
    """Build and compare with the model: raises iff (ambiguous and checks)."""
    cov.add("states", 1)
    cov.add("transitions", 1)
    from graphtransliterator.exceptions import AmbiguousTransliterationRulesException as Amb

    try:
        g = make()
    except Amb:
        if not (ambiguous and checks):
            raise Bad("raises AmbiguousTransliterationRulesException although %s" % ("ambiguity is not to be checked" if ambiguous else "not ambiguous"), **info)
        cov.add("traces", 1)
        return None
    if ambiguous and checks:
        raise Bad("accepts ambiguous rules although ambiguity is to be checked", **info)
    if g.ignore_errors is not ignores:
        raise Bad("ignore_errors is %r, should be %r" % (g.ignore_errors, ignores), **info)
    for s in TEXTS:
        toks, bad = cfg.tokenize(s)
        fails = bool(bad) or cfg.explore(toks, None)[1]
        r = outcome(g.transliterate, s)
        if (r[0] == "exc") != (fails and not ignores):
            raise Bad("transliterating %r gives %r with ignore_errors %r" % (s, r, ignores), **info)
    cov.add("traces", 1)
    return g


def run_settings(case, cov):
    (cfg, ambiguous), route, ca, ie = case
    make = settings_routes()[route]
    info = dict(cfg=cfg, route=route, options=options(ca, ie))
    judge(lambda: make(cfg, **options(ca, ie)), cfg, ambiguous, ca is not False, ie is True, info, cov)


def run_load(case, cov):
    (cfg, ambiguous), dumped, level, how, ca, ie = case
    G = GT()
    g = G.from_dict(cfg.settings(), check_ambiguity=False, **({"ignore_errors": dumped} if dumped is not None else {}))
    if how.endswith("of-loaded"):
        # dumped again after loading: same behaviour
        g = G.loads(g.dumps(level))
    d = g.dump(level)
    if dumped is None:
        d.pop("ignore_errors", None)
    if how.startswith("text"):
        text = g.dumps(level) if dumped is not None else json.dumps(d)
        make = lambda: G.loads(text, **options(ca, ie))  # noqa
    else:
        make = lambda: G.load(d, **options(ca, ie))  # noqa
    info = dict(cfg=cfg, dumped=dumped, level=level, how=how, options=options(ca, ie))
    h = judge(make, cfg, ambiguous, ca is True, ie if ie is not None else bool(dumped), info, cov)
    if h is not None:
        # options given when loading hold for dumps of the loaded copy as well
        judge(lambda: G.loads(h.dumps(level)), cfg, ambiguous, False, h.ignore_errors, dict(info, then="reloaded"), cov)


INIT = {
    "from_YAML": "self.from_YAML(**kwargs)",
    "from_JSON": "self.from_JSON(**kwargs)",
}


def make_package(root, name, cfg, dumped, level, init):
    import yaml

    d = os.path.join(root, name)
    os.mkdir(d)
    with open(os.path.join(d, name + ".yaml"), "w") as f:
        yaml.safe_dump(cfg.easy(), f, allow_unicode=True)
    kw = {"ignore_errors": dumped} if dumped is not None else {}
    with open(os.path.join(d, name + ".json"), "w") as f:
        f.write(GT().from_dict(cfg.settings(), check_ambiguity=False, **kw).dumps(level))
    with open(os.path.join(d, "__init__.py"), "w") as f:
        f.write(
            "from graphtransliterator.transliterators import Bundled\n"
            "class %s(Bundled):\n    def __init__(self, **kwargs):\n        %s\n" % (name.capitalize(), INIT[init])
        )


def run_bundled(case, cov):
    import tempfile

    tmp = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
    n = in_child(bundled, case, tmp)
    for k, v in n.items():
        cov.add(k, v)


def bundled(case, tmp):
    from mc.engine import Cov

    (cfg, ambiguous), dumped, level, init = case
    cov = Cov()
    sys.dont_write_bytecode = True
    sys.path.insert(0, tmp)
    name = "scratchy"
    make_package(tmp, name, cfg, dumped, level, init)
    importlib.invalidate_caches()
    cls = getattr(importlib.import_module(name), name.capitalize())
    base = dict(cfg=cfg, init=init, dumped=dumped, level=level)
    routes = {
        "yaml": lambda **kw: cls.new(method="yaml", **kw),
        "json": lambda **kw: cls.new(method="json", **kw),
        "class": lambda **kw: cls(**kw),
    }
    for route, ca, ie, cvg in itertools.product(routes, FLAGS, FLAGS, FLAGS):
        kw = options(ca, ie)
        if cvg is not None:
            kw["coverage"] = cvg
        from_yaml = route == "yaml" or (route == "class" and init == "from_YAML")
        checks = ca if ca is not None else from_yaml
        ignores = ie if ie is not None else (not from_yaml and bool(dumped))
        judge(lambda: routes[route](**kw), cfg, ambiguous, checks, ignores, dict(base, route=route, options=kw), cov)
    # registered with the bundled transliterators
    import graphtransliterator.transliterators as T

    T.add_transliterators([tmp])
    names = list(T.iter_names())
    if names[-1] != name.capitalize():
        raise Bad("not registered", names=names, **base)
    for ca, ie in itertools.product(FLAGS, FLAGS):
        kw = options(ca, ie)
        from_yaml = init == "from_YAML"
        checks = ca if ca is not None else from_yaml
        ignores = ie if ie is not None else (not from_yaml and bool(dumped))
        if ca is None and ie is None:
            kw["coverage"] = False
        it = T.iter_transliterators(**kw)
        for n in names[:-1]:
            g = next(it)
            if g.ignore_errors is not (ie is True):
                raise Bad("iter_transliterators(**%r): %s has ignore_errors %r" % (kw, n, g.ignore_errors))
        judge(lambda: next(it), cfg, ambiguous, checks, ignores, dict(base, route="iter_transliterators", options=kw), cov)
        cov.add("transitions", len(names) - 1)
    return cov.n


def run_real(case, cov):
    name, method, ca, ie, cvg = case
    import graphtransliterator.transliterators as T

    kw = options(ca, ie)
    if cvg is not None:
        kw["coverage"] = cvg
    cls = getattr(T, name)
    g = cls(**kw) if method is None else cls.new(method=method, **kw)
    cov.add("states", 1)
    cov.add("transitions", 1)
    bad = "\u0001"
    if g.ignore_errors is not (ie is True):
        raise Bad("%s: ignore_errors is %r" % (name, g.ignore_errors), options=kw, method=method)
    r = outcome(g.transliterate, bad)
    if (r[0] == "exc") != (ie is not True):
        raise Bad("%s: transliterating an unrecognizable character gives %r" % (name, r), options=kw, method=method)
    cov.add("traces", 1)


# parts given ready-made are the parts used

PTOK = {"a": ("v",), "b": ("v", "k"), "ab": ("k",), " ": ("wb",)}
PRULES = [rule("<b!>", ["b"], pc=["v"], pt=["a"]), rule("A2", ["a", "a"]), rule("<a!>", ["a"], nt=["b"]), rule("A", ["a"]), rule("B", ["b"]), rule("AB", ["ab"]), rule("_", [" "])]
POMS = [OM(("v",), ("v",), "1"), OM(("v",), ("k",), "2"), OM(("k",), ("v",), "3")]


def makers(b, **given):
    """Transliterators made with the parts of b, but for those given."""
    from graphtransliterator import CoverageTransliterator

    G = GT()
    for ie in (False, True):
        kw = dict(onmatch_rules=b.onmatch_rules, check_ambiguity=False, ignore_errors=ie)
        kw.update(given)
        yield "constructor", ie, G(b.tokens, b.rules, b.whitespace, **kw)
        yield "coverage", ie, CoverageTransliterator(b.tokens, b.rules, b.whitespace, **kw)
        g = G(b.tokens, b.rules, b.whitespace, **kw)
        yield "dumped", ie, G.load(g.dump(0))
        yield "dumped text", ie, G.loads(g.dumps(0), ignore_errors=ie)


def run_part(case, cov):
    kind, what = case
    cfg = Cfg(PTOK, sorted(PRULES, key=lambda r: -sum(map(len, r[1:]))), POMS)
    b = GT().from_dict(cfg.settings(), check_ambiguity=False)
    info = dict(cfg=cfg, part=kind, given=what)
    PARTS[kind](cfg, b, what, info, cov)
    cov.add("traces", 1)


def part_pattern(cfg, b, order, info, cov):
    """A tokenizer pattern: alternatives in any order, possibly not all tokens."""
    pattern = "(" + "|".join(order) + ")"
    for how, ie, g in makers(b, tokenizer_pattern=pattern):
        if g.tokenizer_pattern != pattern:
            raise Bad("the tokenizer pattern is %r" % (g.tokenizer_pattern,), how=how, **info)
        for text in map("".join, fam.strings("ab ", 0, 3)):
            toks, i, bad = [], 0, False
            while i < len(text):
                t = next((t for t in order if text.startswith(t, i)), None)
                if t is None:
                    bad = True
                    i += 1
                else:
                    toks.append(t)
                    i += len(t)
            want = ("exc", "UnrecognizableInputTokenException") if bad and not ie else ("ok", [" "] + toks + [" "])
            got = outcome(g.tokenize, text)
            cov.add("transitions", 1)
            if got != want:
                raise Bad("tokenizes %r as %r, not %r" % (text, got, want), how=how, **info)


def part_lookup(cfg, b, lists, info, cov):
    """An on-match lookup: other lists of candidates than the rules give."""
    firsts = [("a", "a"), ("a", "b"), ("b", "a")]
    lookup = {}
    for (prev, curr), ks in zip(firsts, lists):
        if ks:
            lookup.setdefault(curr, {})[prev] = list(ks)
    fits = lambda k, prev, curr: cfg.onmatch[k].pc[0] in cfg.tokens[prev] and cfg.onmatch[k].nc[0] in cfg.tokens[curr]  # noqa
    for how, ie, g in makers(b, onmatch_rules_lookup=lookup):
        if lookup and g.onmatch_rules_lookup != lookup:
            raise Bad("the on-match lookup is %r" % (g.onmatch_rules_lookup,), how=how, **info)
        for (prev, curr), text in (((x, y), x + " " + x + x + y) for x, y in (("a", "a"), ("b", "b"), ("b", "a"))):
            toks = [" "] + list(text) + [" "]
            want, i = "", 1
            while i < len(toks) - 1:
                k = cfg.best(toks, i)[0]
                use = lookup.get(toks[i], {}).get(toks[i - 1], ()) if lookup else [n for n in range(len(cfg.onmatch))]
                want += next((cfg.onmatch[n].prod for n in use if fits(n, toks[i - 1], toks[i])), "") + cfg.rules[k].prod
                i += len(cfg.rules[k].t)
            cov.add("transitions", 1)
            got = outcome(g.transliterate, text)
            if got != ("ok", want):
                raise Bad("transliterates %r as %r, not %r" % (text, got, want), how=how, **info)


def part_graph(cfg, b, n, info, cov):
    """The graph of the first n rules only."""
    some = cfg.replace(rules=cfg.rules[:n])
    gr = GT().from_dict(some.settings(), check_ambiguity=False).graph
    for how, ie, g in makers(b, graph=gr):
        for text in map("".join, fam.strings("ab ", 0, 3)):
            toks, _ = cfg.tokenize(text)
            for i in range(1, len(toks) - 1):
                got, want = sorted(g.match_at(i, list(toks), match_all=True)), sorted(some.applicable(toks, i))
                cov.add("transitions", 1)
                if got != want:
                    raise Bad("rules %r match at %d of %r, not %r" % (got, i, toks, want), how=how, **info)


def part_classes(cfg, b, what, info, cov):
    """Tokens by class, as reported; and in the absence of parts, all are generated."""
    for how, ie, g in makers(b, **({} if what is None else {"tokens_by_class": {c: set(t) for c, t in what.items()}})):
        want = {c: {t for t in cfg.tokens if c in cfg.tokens[t]} for cs in cfg.tokens.values() for c in cs} if what is None else {c: set(t) for c, t in what.items()}
        got = {c: set(t) for c, t in g.tokens_by_class.items()}
        cov.add("transitions", 1)
        if got != want:
            raise Bad("the tokens by class are %r" % (got,), how=how, **info)


PARTS = {"tokenizer_pattern": part_pattern, "onmatch_rules_lookup": part_lookup, "graph": part_graph, "tokens_by_class": part_classes}


def part_cases():
    for n in (1, 2, 3):
        for order in itertools.permutations(("a", "b", "ab"), n):
            for order in (order + (" ",), (" ",) + order):
                yield "tokenizer_pattern", order
    subs = [p for n in (0, 1, 2) for p in itertools.permutations(range(3), n)]
    for a in subs:
        for c in subs[1:]:
            yield "onmatch_rules_lookup", (a, c, subs[(len(a) + 2 * len(c)) % len(subs)])
    for n in range(1, len(PRULES) + 1):
        yield "graph", n
    for what in (None, {"v": ("a",), "k": ("b", "ab")}, {"k": ("a",), "new": ("b",)}):
        yield "tokens_by_class", what


def phases(tier):
    big = tier == "thorough"
    for cfg, amb in CFGS:
        assert (ambiguous_window(cfg) is not None) == amb, cfg
    routes = ["dict", "easy", "yaml", "yaml-verbatim", "yaml_file", "yaml_file-verbatim"]
    hows = ["data", "text", "data-of-loaded", "text-of-loaded"]
    P = itertools.product
    cfgs = list(CFGS)
    if big:
        base = fam.named(fam.pool(("a", "b", "ab")))
        toks = {"a": ("v",), "b": ("v", "k"), " ": ("wb",), "z": ("k",)}
        for p in itertools.combinations(base, 2):
            c = Cfg(toks, list(p))
            w = ambiguous_window(c)
            # only undisputed ones: see C14
            if w is None and not any(sum(len(x) for x in r[1:]) == sum(len(x) for x in p[1][1:]) for r in p[:1]):
                cfgs.append((c, False))
            elif w is not None:
                cfgs.append((c, True))
    bundled_cases = list(P(CFGS, FLAGS, (0, 1, 2), INIT))
    if not big:
        bundled_cases = [c for i, c in enumerate(bundled_cases) if (c[1] is not None or c[2] == 2) and c[0] in (CFGS[1], CFGS[2], CFGS[4])]
    return [
        Phase("settings", lambda: P(cfgs, routes, FLAGS, FLAGS), run_settings, note="constructors from settings"),
        Phase("parts", lambda: part_cases(), run_part, note="tokenizer pattern, on-match lookup, graph and tokens by class given ready-made, to the constructor and by a dump"),
        Phase("load", lambda: P(cfgs if big else CFGS, FLAGS, (0, 1, 2), hows, FLAGS, FLAGS), run_load, note="load and loads at every level, dumped ignore_errors absent, False, True"),
        Phase("bundled", lambda: bundled_cases, run_bundled, cpu_limit=120, note="scratch bundled transliterators: class(), new(yaml), new(json), iter_transliterators; coverage on and off"),
        Phase("installed", lambda: P(["Example"], [None, "yaml", "json"], FLAGS, FLAGS, FLAGS), run_real, note="the Example transliterator"),
        Phase("installed-itrans", lambda: P(["ITRANSDevanagariToUnicode"], [None, "json"], (None, False), FLAGS, (False,)), run_real, cpu_limit=120, note="the ITRANS transliterator"),
    ]
