import copy
import itertools
import json
import os

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, mod, outcome
from mc.ref import OM, Cfg, rule
from mc.checks.c11 import norm_dump, settings_of

ID = "C27"
LEVEL = "model_checking"
RULE = (
    "cases = route x configuration x container of the settings or dump; state = settings or dump after one in-place modification (or destruction of "
    "everything) of that container; transition = one modification followed by a full comparison of tokens, rules, graph, dumps and results with "
    "those before; traces = modifications that changed nothing"
)
ASSUMPTIONS = [
    "settings are dictionaries, YAML text or files and dumps; the internal parts the plain constructor takes, and values inside metadata, are not settings in this sense",
    "scope: the configurations, routes and modifications listed per phase",
]

Z = {"a": ("v",), "b": ("v", "k"), " ": ("wb",)}
CFGS = {
    "full": Cfg(Z, [rule("A", "a"), rule("B", "b"), rule("_", " "), rule("AB", "ab", pc=["v"], pt="a", nt="b", nc=["k"]), rule("a1", "a", pt="b"), rule("a2", "aa", nc=["wb"])],
                [OM(("v",), ("k",), ","), OM(("k", "v"), ("v",), ";")], metadata={"name": "x", "version": "1"}),
    "bare": Cfg(Z, [rule("A", "a"), rule("", " "), rule("B", "b")], ws=(" ", "wb", True)),
    "norules": Cfg(Z, [], metadata={}),
    "contexts": Cfg(Z, fam.BASE_RULES + [rule("x", "ab", pc=["wb", "v"]), rule("y", "ab", nc=["v"]), rule("z", "ba", pt="ab", nt="ba")], [OM(("wb",), ("v",), "'")], metadata={"k": "v"}),
}
TEXTS = ["", "a", "aab", "ab", "bab b", "abba ab", " aa ", "aabbb a"]


BIG = False


def snapshot(x):
    """Deep value with types and dictionary order."""
    if isinstance(x, dict):
        return (type(x).__name__, [(snapshot(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    return (type(x).__name__, repr(x))


def graph_of(g):
    e = {h: {t: copy.deepcopy(dict(d)) for t, d in ts.items()} for h, ts in g.graph.edge.items()}
    return copy.deepcopy([dict(n) for n in g.graph.node]), e, sorted(g.graph.edge_list)


def state(g):
    out = [settings_of(g)]
    out[0].pop("metadata")
    out.append(graph_of(g))
    out.append([outcome(g.transliterate, t) for t in TEXTS])
    out.append([outcome(g.tokenize, t) for t in TEXTS])
    toks = [" "] + list("aabab") + [" "]
    out.append([(g.match_at(i, toks), g.match_at(i, toks, match_all=True)) for i in range(1, 6)])
    for lv in (0, 1):
        d = norm_dump(g.dump(lv))
        if lv == 0:
            d.pop("metadata", None)
        else:
            s = list(d["compressed_settings"])
            s[6] = None
            d["compressed_settings"] = s
        out.append(copy.deepcopy(d))
    out.append(g.productions if g.rules else [])
    return out


def containers(x, path=()):
    if isinstance(x, dict):
        yield path, x
        for k in list(x):
            for y in containers(x[k], path + (k,)):
                yield y
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            yield path, x
        for i, y in enumerate(x):
            for z in containers(y, path + (i,)):
                yield z
    elif isinstance(x, set):
        yield path, x


def scorch(x, seen=None):
    """Destroy every container reachable from x."""
    for p, c in list(containers(x)):
        c.clear()


def modifications(c):
    """Names and functions of all single modifications of a container."""
    yield "destroy", scorch
    yield "clear", lambda c: c.clear()
    if isinstance(c, dict):
        for k in list(c):
            yield "delete %r" % (k,), lambda c, k=k: c.pop(k)
            for v in (None, "b", [], {}, 0, ["a"])[: None if BIG else 2]:
                yield "set %r to %r" % (k, v), lambda c, k=k, v=v: c.__setitem__(k, copy.copy(v))
        yield "new", lambda c: c.update({"a": ["k"], "zzz": 1, 0: {}, 1: {}})
    elif isinstance(c, set):
        for v in ("v", "k", "wb", "zzz"):
            yield "add %r" % v, lambda c, v=v: c.add(v)
        for v in list(c):
            yield "remove %r" % v, lambda c, v=v: c.remove(v)
    else:
        for v in ("v", "k", "b", 0, None, {}) if BIG else ("k",):
            yield "append %r" % v, lambda c, v=v: c.append(v)
            yield "insert %r" % v, lambda c, v=v: c.insert(0, v)
        if c:
            yield "reverse", lambda c: c.reverse()
            yield "double", lambda c: c.extend(list(c))
            yield "pop", lambda c: c.pop()
        for i in range(len(c)):
            for v in ("v", "b", 0, None) if BIG else ("b",):
                yield "item %d = %r" % (i, v), lambda c, i=i, v=v: c.__setitem__(i, v)


def nulls(cfg):
    s = cfg.settings()
    from mc.ref import direct_rule

    s["rules"] = [direct_rule(r, nulls=True) for r in cfg.rules]
    return s


def aliased(cfg):
    """Equal lists are one object, as YAML anchors give."""
    s = cfg.settings()
    memo = {}

    def share(x):
        if isinstance(x, dict):
            for k in x:
                x[k] = share(x[k])
            return x
        if isinstance(x, list):
            for i in range(len(x)):
                x[i] = share(x[i])
            return memo.setdefault(repr(x), x)
        return x

    return share(s)


def with_sets(cfg):
    """Tokens as the library dumps them, rules with tuples where allowed."""
    s = cfg.settings()
    return s


def sources(cfg):
    """route -> (make settings, construct)."""
    G = GT()
    out = {
        "from_dict": (cfg.settings, lambda s: G.from_dict(s, check_ambiguity=False)),
        "from_dict checked": (cfg.settings, lambda s: G.from_dict(s)),
        "from_dict nulls": (lambda: nulls(cfg), lambda s: G.from_dict(s, check_ambiguity=False)),
        "from_dict aliased": (lambda: aliased(cfg), lambda s: G.from_dict(s, check_ambiguity=False)),
        "easy": (cfg.easy, lambda s: G.from_easyreading_dict(s, check_ambiguity=False)),
        "easy options": (cfg.easy, lambda s: G.from_easyreading_dict(s, check_ambiguity=False, ignore_errors=True)),
    }
    g = G.from_dict(cfg.settings(), check_ambiguity=False)
    for lv in (0, 1, 2):
        out["load %d" % lv] = (lambda lv=lv: copy.deepcopy(g.dump(lv)), lambda s: G.load(s))
        out["load parsed %d" % lv] = (lambda lv=lv: json.loads(g.dumps(lv)), lambda s: G.load(s))
        out["load options %d" % lv] = (lambda lv=lv: json.loads(g.dumps(lv)), lambda s: G.load(s, ignore_errors=True, check_ambiguity=True))
        # the dump itself, not a copy: its owner must not change either
        out["load own %d" % lv] = (lambda lv=lv: g.dump(lv), lambda s: G.load(s))
    return out, g


ROUTES = ["from_dict", "from_dict checked", "from_dict nulls", "from_dict aliased", "easy", "easy options"] + [
    "load %s%d" % (k, lv) for lv in (0, 1, 2) for k in ("", "parsed ", "options ", "own ")
]


def changed(before, after):
    return [k for k, (x, y) in zip(("settings", "graph", "transliterations", "tokenizations", "matches", "dump 0", "dump 1", "productions"), zip(before, after)) if x != y]


def run_settings(case, cov):
    """Modify the settings a transliterator was made from."""
    name, route, part, of, cover = case
    cfg = CFGS[name]
    src, owner = sources(cfg)
    make, construct = src[route]
    info = dict(config=name, route=route)

    def build(s):
        g = construct(s)
        if cover:
            g = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata, check_ambiguity=False, ignore_errors=g.ignore_errors)
        return g

    s = make()
    before = snapshot(s)
    g = build(s)
    if snapshot(s) != before:
        raise Bad("construction modifies the settings passed in", before=before, after=snapshot(s), **info)
    # used a lot, still unmodified
    ref = state(g)
    g.pruned_of("A")
    g.dumps(2)
    if snapshot(s) != before:
        raise Bad("using the transliterator modifies the settings passed in", before=before, after=snapshot(s), **info)
    own = state(owner)
    paths = [p for p, _ in containers(s)]
    cov.add("states", 1)
    for n, path in enumerate(paths):
        if n % of != part:
            continue
        s0 = make()
        c0 = dict(containers_by_path(s0))[path]
        mods = [m for m, _ in modifications(c0)]
        for k in range(len(mods)):
            s = make()
            g = build(s)
            c = dict(containers_by_path(s))[path]
            what, f = list(modifications(c))[k]
            f(c)
            cov.add("states", 1)
            cov.add("transitions", 1)
            try:
                now = state(g)
            except Exception as e:
                raise Bad("%s raised after the settings were modified: %s" % (type(e).__name__, e), at=path, modification=what, **info)
            if now != ref:
                raise Bad("modifying the settings changes %s" % changed(ref, now), at=path, modification=what, **info)
            if "own" in route:
                if state(owner) != own:
                    raise Bad("modifying a dump that was loaded changes the transliterator dumped", at=path, modification=what, **info)
            cov.add("traces", 1)


def containers_by_path(x):
    return containers(x)


def run_dumps(case, cov):
    """Modify a dump taken."""
    name, level, kind, part, of = case
    cfg = CFGS[name]
    G = GT()
    info = dict(config=name, level=level, kind=kind)

    def build():
        g = G.from_dict(cfg.settings(), check_ambiguity=False)
        if kind.startswith("loaded"):
            g = G.load(g.dump(int(kind[-1])))
        elif kind == "text":
            g = G.loads(g.dumps(level))
        elif kind == "coverage":
            g = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, metadata=g.metadata, check_ambiguity=False)
        elif kind == "pruned":
            g = g.pruned_of("no such production")
        return g

    g = build()
    ref = state(g)
    d = g.dump(level)
    keep = g.dump(level)
    kept = snapshot(keep)
    paths = [p for p, _ in containers(d)]
    child = g.pruned_of([])
    child_ref = state(child)
    for n, path in enumerate(paths):
        if n % of != part:
            continue
        c0 = dict(containers(g.dump(level)))[path]
        for k in range(len(list(modifications(c0)))):
            d = g.dump(level)
            c = dict(containers(d))[path]
            what, f = list(modifications(c))[k]
            f(c)
            cov.add("states", 1)
            cov.add("transitions", 1)
            try:
                now = state(g)
            except Exception as e:
                raise Bad("%s raised after a dump was modified: %s" % (type(e).__name__, e), at=path, modification=what, **info)
            if now != ref:
                raise Bad("modifying a dump changes %s" % changed(ref, now), at=path, modification=what, **info)
            if path and path[0] == "metadata" or "compressed_settings" in path:
                pass
            elif snapshot(keep) != kept and not (path and path[0] == "metadata"):
                raise Bad("modifying a dump changes another dump", at=path, modification=what, **info)
            cov.add("traces", 1)
        if state(child) != child_ref:
            raise Bad("modifying a dump changes a pruned copy", at=path, **info)


def run_files(case, cov):
    """Settings files rewritten or removed after reading; YAML text is immutable."""
    name, new = case
    import yaml

    cfg = CFGS[name]
    path = os.path.join(os.environ["MC_TMP"], "c27-%d.yaml" % os.getpid())
    text = yaml.safe_dump(cfg.easy(), allow_unicode=True)
    with open(path, "w") as f:
        f.write(text)
    g = GT().from_yaml_file(path, check_ambiguity=False)
    if open(path).read() != text:
        raise Bad("reading settings changes the file", config=name)
    ref = state(g)
    if new is None:
        os.remove(path)
    else:
        with open(path, "w") as f:
            yaml.safe_dump(CFGS[new].easy(), f)
    cov.add("states", 1)
    cov.add("transitions", 1)
    if state(g) != ref:
        raise Bad("changing the settings file changes the transliterator", config=name, new=new)
    cov.add("traces", 1)


def run_faulty(case, cov):
    """Rejected settings are not modified either."""
    name, route = case
    cfg = CFGS[name]
    src, _ = sources(cfg)
    make, construct = src[route]
    paths = [p for p, _ in containers(make())]
    for path in paths:
        for k in range(len(list(modifications(dict(containers(make()))[path])))):
            s = make()
            c = dict(containers(s))[path]
            what, f = list(modifications(c))[k]
            f(c)
            before = snapshot(s)
            r = outcome(construct, s)
            cov.add("states", 1)
            cov.add("transitions", 1)
            if snapshot(s) != before:
                raise Bad("construction (%s) modifies the settings passed in" % r[0], config=name, route=route, at=path, modification=what)
            cov.add("traces", 1)


def run_family(case, cov):
    """Many transliterators from one settings object: destroy it, and use one of them."""
    name, first, second = case
    cfg = CFGS[name]
    src, _ = sources(cfg)
    make, a = src[first]
    s = make()
    _, b = src[second]
    before = snapshot(s)
    g, h = a(s), None
    if snapshot(s) != before:
        raise Bad("construction modifies the settings passed in", config=name, route=first, before=before, after=snapshot(s))
    try:
        h = b(s)
    except Exception:
        pass
    if snapshot(s) != before:
        raise Bad("construction modifies the settings passed in", config=name, routes=(first, second), before=before, after=snapshot(s))
    refs = [state(x) for x in (g, h) if x is not None]
    g.ignore_errors = not g.ignore_errors
    if h is not None and h.ignore_errors != refs[1][0]["ignore_errors"]:
        raise Bad("setting ignore_errors of one transliterator sets that of another", config=name, routes=(first, second))
    g.ignore_errors = not g.ignore_errors
    dumps = [x.dump(lv) for x in (g, h) if x is not None for lv in (0, 1, 2)]
    scorch(s)
    for d in dumps:
        scorch(d)
    cov.add("states", 1)
    cov.add("transitions", len(dumps) + 1)
    for x, r in zip([y for y in (g, h) if y is not None], refs):
        if state(x) != r:
            raise Bad("destroying settings and dumps changes %s" % changed(r, state(x)), config=name, routes=(first, second))
    cov.add("traces", 1)


def phases(tier):
    global BIG
    big = BIG = tier == "thorough"
    P = itertools.product
    N = 8
    clean = [n for n in CFGS if n != "norules"]
    few = ROUTES if big else [r for r in ROUTES if r not in ("from_dict checked", "easy options", "load 1", "load 2", "load options 0", "load options 1", "load options 2")]
    kinds = ["built", "loaded0", "loaded1", "loaded2", "text", "coverage", "pruned"]
    return [
        Phase("settings", lambda: [(n, r, p, N, cv) for n in (CFGS if big else ("full", "bare", "norules")) for r in few for p in range(N) for cv in ((False, True) if big else (False,))], run_settings, cpu_limit=300, note="every single modification of every container of the settings or dump a transliterator was made from"),
        Phase("dumps", lambda: [(n, lv, k, p, N) for n in (CFGS if big else ("full", "bare")) for lv in (0, 1, 2) for k in (kinds if big or n == "full" else ("built", "loaded0")) for p in range(N)], run_dumps, cpu_limit=300, note="every single modification of every container of a dump taken"),
        Phase("files", lambda: P(clean, (None, "full", "bare")), run_files, note="settings files changed or removed"),
        Phase("faulty", lambda: P(CFGS if big else ("full", "bare"), few if big else ("from_dict", "easy", "load parsed 0", "load parsed 1", "load parsed 2")), run_faulty, cpu_limit=300, note="construction from settings with one modification, accepted or not, leaves them as they are"),
        Phase("families", lambda: P(clean, ROUTES, ROUTES), run_family, note="two transliterators from one settings object or dump, all settings and dumps destroyed"),
    ]
