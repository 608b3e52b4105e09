import importlib
import itertools
import os
import sys
import tempfile

from mc import fam
from mc.checks.c11 import settings_of
from mc.engine import Bad, Cov, Phase, in_child
from mc.impl import GT, onmatch_list, outcome, same_rules
from mc.ref import OM, Cfg, rule

ID = "C23"
LEVEL = "model_checking"
RULE = (
    "cases = first token(s) of an input, all continuations explored within the case, or tables of tests; state = input and form of the "
    "transliterator; transition = one call on the implementation; traces = inputs on which all forms agree, or tables with the predicted verdict"
)
ASSUMPTIONS = [
    "inputs and outputs in test tables are text or integers, which stand for their decimal text",
    "scope: the transliterators registered in the working tree plus scratch ones, and the input lengths listed per phase",
]


def names():
    import graphtransliterator.transliterators as T

    return list(T.iter_names())


_forms = {}


def forms(name):
    """All the forms of a bundled transliterator, errors raised and ignored."""
    if name not in _forms:
        import graphtransliterator.transliterators as T

        cls = getattr(T, name)
        out = []
        for ie in (False, True):
            for label, make in (("class", lambda **k: cls(**k)), ("yaml", lambda **k: cls.new(method="yaml", **k)), ("json", lambda **k: cls.new(method="json", **k)), ("default", lambda **k: cls.new(**k))):
                for cov in (None, True, False):
                    kw = {} if cov is None else {"coverage": cov}
                    out.append(("%s coverage=%r" % (label, cov), ie, make(ignore_errors=ie, **kw)))
        _forms[name] = out
    return _forms[name]


def run_same(case, cov):
    """The parts of all forms."""
    (name,) = case
    fs = forms(name)
    ref = fs[0][2]
    for label, ie, g in fs:
        cov.add("states", 1)
        cov.add("transitions", 1)
        info = dict(transliterator=name, form=label)
        for what, f in (
            ("rules", same_rules), ("costs", lambda g: [r.cost for r in g.rules]), ("on-match rules", onmatch_list), ("tokens", lambda g: {k: set(v) for k, v in g.tokens.items()}),
            ("whitespace", lambda g: (g.whitespace.default, g.whitespace.token_class, g.whitespace.consolidate)), ("metadata", lambda g: g.metadata),
            ("name", lambda g: g.name), ("directory", lambda g: g.directory), ("tests file", lambda g: g.yaml_tests_filen),
        ):
            if f(g) != f(ref):
                raise Bad("%s differ between %s and %s" % (what, fs[0][0], label), got=f(g), other=f(ref), **info)
        x, y = dict(settings_of(g)), dict(settings_of(ref))
        x.pop("ignore_errors"), y.pop("ignore_errors")
        if x != y:
            raise Bad("settings differ between %s and %s" % (fs[0][0], label), got=x, other=y, **info)
        t = g.load_yaml_tests()
        for s, want in t.items():
            got = outcome(g.transliterate, s)
            cov.add("transitions", 1)
            if got != ("ok", want):
                raise Bad("%s fails its own test %r: %r instead of %r" % (name, s, got, want), **info)
        if not t:
            raise Bad("no tests", **info)
        if g.run_yaml_tests() is not True:
            raise Bad("run_yaml_tests does not return True", **info)
        g.run_tests(t)
        cov.add("traces", 1)


def compare(name, text, cov):
    res = [None, None]
    for label, ie, g in forms(name):
        r = outcome(g.transliterate, text)
        cov.add("transitions", 1)
        if res[ie] is None:
            res[ie] = r
        elif res[ie] != r:
            raise Bad("%s: %r becomes %r by %s, %r by the first form" % (name, text, r, label, res[ie]), ignore_errors=ie)
    cov.add("states", 1)
    cov.add("traces", 1)


def run_strings(case, cov):
    name, first, n = case
    alphabet = sorted(forms(name)[0][2].tokens)
    if first is None:
        for s in ("", "\u0001", " \u0001 ", "\u0001" + "".join(alphabet) + "\u0001"):
            compare(name, s, cov)
        return
    for s in fam.strings(alphabet, 0, n - 1):
        compare(name, first + "".join(s), cov)


_reps = {}


def reps(name):
    """One token for each set of classes (thorough: two), and the whitespace tokens."""
    if name not in _reps:
        g = forms(name)[0][2]
        seen, out = {}, []
        for t, cs in g.tokens.items():
            k = frozenset(cs)
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1 or g.whitespace.token_class in cs:
                out.append(t)
        _reps[name] = out
    return _reps[name]


def run_triples(case, cov):
    name, first, full = case
    g = forms(name)[0][2]
    alphabet = sorted(g.tokens)
    mids = [(b,) for b in alphabet] + ([(b, c) for b in reps(name) for c in alphabet] if full else [])
    fs = [f for f in forms(name) if f[0] in ("yaml coverage=False", "json coverage=False", "json coverage=True")]
    for b in mids:
        for c in alphabet:
            text = first + "".join(b) + c
            res = [None, None]
            for label, ie, g in fs:
                if ie and not full:
                    continue
                r = outcome(g.transliterate, text)
                cov.add("transitions", 1)
                if res[ie] is None:
                    res[ie] = r
                elif res[ie] != r:
                    raise Bad("%s: %r becomes %r by %s, %r by the YAML form" % (name, text, r, label, res[ie]), ignore_errors=ie)
            cov.add("states", 1)
            cov.add("traces", 1)


# ---- test tables -----------------------------------------------------------------

IN = ["a", "b", "ab", "?", "c", "", 12, " a", "b ", " ", "a  b", "\u00e9", "e\u0301"]
OUT = {" a": " A", "b ": "B ", " ": " ", "a  b": "A  B", "\u00e9": "\u00c9", "e\u0301": "E\u0301", "a": "A", "b": "B", "ab": "A,B", "?": None, "c": None, "": "", 12: "12"}
WRONG = ["", "A", " A", "B ", " ", "A  B", "A B", "\u00c9", "E\u0301", "A ", "a", "AB", "A,B", "B,A", None, 12, "12", "B", "None", "012", "A\n"]
TCFG = Cfg({"a": ("v",), "b": ("v",), "c": (), " ": ("wb",), "1": (), "2": (), "\u00e9": (), "e": (), "\u0301": ()},
           [rule("\u00c9", "\u00e9"), rule("E", "e"), rule("\u0301", "\u0301"), rule("A", "a"), rule("B", "b"), rule(" ", " "), rule("1", "1"), rule("2", "2")],
           [OM(("v",), ("v",), ",")])
_tt = {}


def table_gt(root=None):
    """A scratch bundled transliterator class with the settings TCFG, in this process."""
    import yaml

    if "cls" not in _tt:
        root = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
        d = os.path.join(root, "scratchy_tables")
        os.makedirs(os.path.join(d, "tests"))
        with open(os.path.join(d, "scratchy_tables.yaml"), "w") as f:
            yaml.safe_dump(TCFG.easy(), f)
        with open(os.path.join(d, "scratchy_tables.json"), "w") as f:
            f.write(GT().from_dict(TCFG.settings()).dumps())
        with open(os.path.join(d, "__init__.py"), "w") as f:
            f.write("from graphtransliterator.transliterators import Bundled\nclass Scratchy(Bundled):\n    def __init__(self, **kwargs):\n        self.from_JSON(**kwargs)\n")
        sys.path.insert(0, root)
        sys.dont_write_bytecode = True
        importlib.invalidate_caches()
        _tt["cls"] = importlib.import_module("scratchy_tables").Scratchy
        _tt["dir"] = d
        _tt["gts"] = [_tt["cls"](), _tt["cls"].new(method="yaml"), _tt["cls"].new(coverage=True)]
        _tt["ignoring"] = _tt["cls"](ignore_errors=True)
    return _tt["gts"]


def judge_table(g, table, okay, info):
    """run_tests and run_yaml_tests must succeed iff okay."""
    import yaml

    before = dict(table)
    r = outcome(g.run_tests, table)
    if (r[0] == "ok") != okay:
        raise Bad("run_tests gives %r on %r, which %s" % (r, table, "matches" if okay else "does not match"), **info)
    if table != before:
        raise Bad("run_tests changes the table", **info)
    path = os.path.join(_tt["dir"], "tests", "scratchy_tables_tests.yaml")
    if g.yaml_tests_filen != path:
        raise Bad("tests file is %r" % g.yaml_tests_filen, **info)
    with open(path, "w") as f:
        yaml.safe_dump(table, f, allow_unicode=True)
    t = g.load_yaml_tests()
    if t != {str(k): str(v) for k, v in table.items()}:
        raise Bad("load_yaml_tests gives %r for %r" % (t, table), **info)
    r = outcome(g.run_yaml_tests)
    if (r != ("ok", True)) if okay else (r[0] == "ok"):
        raise Bad("run_yaml_tests gives %r on %r, which %s" % (r, table, "matches" if okay else "does not match"), **info)


def run_tables(case, cov):
    firsts, n, more = case
    for rest in itertools.product(more, repeat=n):
        entries = list(firsts) + list(rest)
        if len({e[0] for e in entries}) < len(entries):
            continue
        table = dict(entries)
        okay = all(OUT[k] is not None and str(v) == OUT[k] for k, v in table.items())
        for w, g in enumerate(table_gt()):
            if len(entries) > 2 and w:
                continue
            judge_table(g, table, okay, dict(form=w))
            cov.add("transitions", 3)
        cov.add("states", 1)
        cov.add("traces", 1)


def run_large(case, cov):
    """Tables of many tests, one of them wrong or none."""
    n, k = case
    table = {}
    for s in itertools.islice(fam.strings("ab ", 1, 9), n):
        table["".join(s)] = TCFG.run([" "] + list(s) + [" "])[2]
    if k is not None:
        key = list(table)[k]
        table[key] += "!"
    for w, g in enumerate(table_gt()):
        judge_table(g, table, k is None, dict(form=w, tests=n, wrong=k))
        cov.add("transitions", 3)
    cov.add("states", 1)
    cov.add("traces", 1)


def run_history(case, cov):
    """Sequences of runs on one transliterator, with and without ignore_errors."""
    tables = [({"a": "A"}, True), ({"a": "B"}, False), ({"ab": "A,B", "b": "B"}, True), ({"?": "?"}, False), ({}, True), ({"a": "A", "c": ""}, False)]
    g = table_gt()[case[1]]
    for k in case[0]:
        t, okay = tables[k]
        judge_table(g, dict(t), okay or False, dict(history=case[0])) if t else None
        cov.add("transitions", 1)
    h = _tt["ignoring"]
    # ignoring errors, outputs without the skipped tokens match
    for t, okay in (({"?": ""}, True), ({"c": ""}, True), ({"ac?b": "AB"}, True), ({"a?b": "A,B"}, True), ({"?": "?"}, False)):
        judge_table(h, t, okay, dict(ignore_errors=True))
    cov.add("states", 1)
    cov.add("traces", 1)


# ---- scratch transliterators -------------------------------------------------------

SCRATCH = [
    Cfg(fam.TOK, fam.BASE_RULES + [rule("AB", "ab", pc=["k"]), rule("BB", "b", pt="b", nt="a"), rule("x", "a", pc=["wb"], nc=["v"])], [OM(("v",), ("k",), ","), OM(("k",), ("v",), ";")]),
    Cfg(fam.TOK, [rule("A", "a"), rule("", "bb"), rule("\u0905", "ab", nc=["wb"])], ws=(" ", "wb", True), metadata={"name": "x", "n": 1}),
    Cfg({"a": (), "aa": ("v",), "\u0905": ("v", "k"), " ": ("wb",), "\n": ("wb",)}, [rule("A", ["a"]), rule("B", ["aa"]), rule("\u0906", ["\u0905"], pc=["v"]), rule("_", [" "]), rule("|", ["\n"], nt=["\u0905"])], [OM(("v", "v"), ("v",), "\u200d")]),
    Cfg(fam.TOK, [rule("A", "a"), rule("A", "b"), rule("A", "ab"), rule("A", " ")]),
]


def run_scratch(case, cov):
    tmp = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
    n = in_child(scratch, case, tmp)
    for k, v in n.items():
        cov.add(k, v)


def scratch(case, tmp):
    """JSON written as the make-json command does, at every level and from every form."""
    from mc.checks.c12 import make_package

    i, level, length = case
    cfg = SCRATCH[i]
    cov = Cov()
    sys.dont_write_bytecode = True
    sys.path.insert(0, tmp)
    make_package(tmp, "scratchy", cfg, None, level, "from_JSON")
    importlib.invalidate_caches()
    cls = importlib.import_module("scratchy").Scratchy
    first = [cls(), cls.new(method="yaml"), cls(coverage=True), cls.new(method="yaml", coverage=False)]
    # JSON made again from each form
    gens = list(first)
    for g in first:
        with open(os.path.join(tmp, "scratchy", "scratchy.json"), "w") as f:
            f.write(g.dumps() if level == 2 else g.dumps(level))
        gens.append(cls.new(method="json"))
    alphabet = list(cfg.tokens)
    for s in fam.strings(alphabet, 0, length):
        text = "".join(s)
        toks, bad = cfg.tokenize(text)
        rs = [outcome(g.transliterate, text) for g in gens]
        cov.add("transitions", len(gens))
        cov.add("states", 1)
        if any(r != rs[0] for r in rs):
            raise Bad("forms of a bundled transliterator disagree on %r: %r" % (text, rs), cfg=cfg, level=level)
        acc, fails, _ = cfg.explore(toks, rs[0][1] if rs[0][0] == "ok" else None)
        if (rs[0][0] == "ok" and not acc) or (rs[0][0] == "exc" and not fails and not bad):
            raise Bad("bundled transliterator gives %r for %r" % (rs[0], text), cfg=cfg, level=level)
        cov.add("traces", 1)
    return cov.n


def phases(tier):
    big = tier == "thorough"
    ns = names()
    strings, triples = [], []
    for name in ns:
        ts = sorted(forms(name)[0][2].tokens)
        n = 2
        while (len(ts) ** (n + 1)) * 24 < (12000000 if big else 600000):
            n += 1
        strings += [(name, None, 0)] + [(name, t, n) for t in ts]
        if n < 3:
            triples += [(name, t, big) for t in ts]
    entries = [(k, v) for k in IN for v in WRONG + [OUT[k]]]
    entries = list(dict.fromkeys((k, v) for k, v in entries if v is not None))
    entries = [e for n, e in enumerate(entries)]
    few = [("a", "A"), ("a", "B"), ("b", "B"), ("b", ""), ("ab", "A,B"), ("ab", "AB"), ("?", "?"), ("c", "c"), ("", ""), (12, 12), (12, "21"), ("", "A"), (" a", " A"), ("b ", "B"), ("\u00e9", "E\u0301")]
    return [
        Phase("same", lambda: [(n,) for n in ns], run_same, cpu_limit=120, note="parts, dumps and own tests of every form of every bundled transliterator"),
        Phase("strings", lambda: strings, run_strings, cpu_limit=120, note="all token sequences up to a length, in all 24 forms"),
        Phase("triples", lambda: triples, run_triples, cpu_limit=600, note="all sequences of three tokens (thorough: also of four, the second one per set of classes)"),
        Phase("tables", lambda: [((e,), 0, ()) for e in entries] + [((e,), 1, entries if big else few) for e in entries] + [((e,), 2, few) for e in few], run_tables, cpu_limit=300, note="all tables of up to 3 tests, right, wrong and failing, as dictionary and as YAML file"),
        Phase("large-tables", lambda: [(n, k) for n in (5, 20, 100, 400) + ((3000,) if big else ()) for k in [None] + sorted({0, 1, n // 3, n // 2, n - 2, n - 1})], run_large, cpu_limit=300, note="tables of many tests with one wrong output, by its place"),
        Phase("histories", lambda: [(h, w) for n in (1, 2, 3) for h in itertools.product(range(6), repeat=n) for w in (0, 2)], run_history, cpu_limit=60, note="sequences of test runs"),
        Phase("scratch", lambda: [(i, lv, 6 if big else 4) for i in range(len(SCRATCH)) for lv in (0, 1, 2)], run_scratch, cpu_limit=300, note="scratch bundled transliterators, JSON made from every form at every level"),
    ]
