import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc.engine import REPO, Bad, Cov, Phase, in_child
from mc.impl import GT, outcome

ID = "C28"
LEVEL = "model_checking"
RULE = (
    "cases = folder layouts and sequences of loads; state = registry of names after each load, compared with a model registry (ordered, each name once); "
    "transition = one add_transliterators call on the implementation in a process of its own; traces = sequences at the end of which every "
    "registered name gives a working transliterator of the right class"
)
ASSUMPTIONS = [
    "packages in different folders have different names (Python keeps one module per name), and bundled transliterators are packages",
    "when a load fails half-way, any of the folder's other transliterators may or may not have been registered",
    "scope: the layouts and sequences listed per phase",
]

YAML = "tokens:\n  a: [v]\n  ' ': [wb]\nrules:\n  a: %s\n  ' ': ' '\nwhitespace:\n  default: ' '\n  token_class: wb\n  consolidate: false\n"

# kinds of statements in a package: (source, names it registers, private names)
STATEMENTS = {
    "bundled": "from graphtransliterator.transliterators import Bundled\n",
    "imports": "import os\nfrom collections import OrderedDict\nfrom graphtransliterator import GraphTransliterator, CoverageTransliterator\n",
    "example": "from graphtransliterator.transliterators import Example\n",
    "metadata": "from graphtransliterator.transliterators import MetadataSchema\n",
    "base": "from graphtransliterator.transliterators.bundled import Bundled as Base\nBundled = Base\n",
}
CLASS = "class %s(%s):\n    def __init__(self, **kwargs):\n        self.from_%s(**kwargs)\n"


def make(root, pkg, classes, statements=(), extra=(), method="JSON"):
    """Write a package; classes are names or (name, base)."""
    d = os.path.join(root, pkg)
    os.makedirs(d)
    with open(os.path.join(d, "__init__.py"), "w") as f:
        f.write(STATEMENTS["bundled"])
        for s in statements:
            f.write(STATEMENTS[s])
        for c in classes:
            name, base = c if isinstance(c, tuple) else (c, "Bundled")
            f.write(CLASS % (name, base, method))
    text = YAML % ("<%s>" % pkg)
    with open(os.path.join(d, pkg + ".yaml"), "w") as f:
        f.write(text)
    with open(os.path.join(d, pkg + ".json"), "w") as f:
        f.write(GT().from_yaml(text).dumps())
    for e in extra:
        if e == "tests":
            os.makedirs(os.path.join(d, "tests"))
            with open(os.path.join(d, "tests", "test_%s.py" % pkg), "w") as f:
                f.write("class Test%s:\n    pass\n" % pkg.capitalize())
        elif e == "module":
            with open(os.path.join(d, "helper_%s.py" % pkg), "w") as f:
                f.write("class Helper%s:\n    pass\n" % pkg.capitalize())
    return d


def registers(classes):
    out = []
    for c in classes:
        n = c[0] if isinstance(c, tuple) else c
        if not n.startswith("_") and n != "Bundled":
            out.append(n)
    return sorted(out)


def verify(T, names, owner, kept, info, cov, deep=True):
    """The registry holds exactly `names`; kept: name -> class object that must still be there."""
    got = list(T.iter_names())
    if len(set(got)) != len(got):
        raise Bad("a name is listed more than once: %r" % got, **info)
    if sorted(got) != sorted(names):
        raise Bad("names listed are %r, should be %r" % (sorted(got), sorted(names)), **info)
    for n, c in kept.items():
        if getattr(T, n, None) is not c:
            raise Bad("transliterator %s was replaced" % n, **info)
    for n in got:
        if n.startswith("_") or n == "Bundled":
            raise Bad("%s is listed" % n, **info)
        c = getattr(T, n, None)
        if not isinstance(c, type) or c.__name__ != n:
            raise Bad("%s is not available as a class of that name: %r" % (n, c), **info)
        if T.__all__.count(n) != 1:
            raise Bad("%s is in __all__ %d times" % (n, T.__all__.count(n)), **info)
        if n in owner and owner[n] is not None and c.__module__.split(".")[0] != owner[n]:
            raise Bad("%s is defined in module %s, should be %s" % (n, c.__module__, owner[n]), **info)
    if got != list(T.iter_names()):
        raise Bad("listing names twice differs", **info)
    if deep:
        its = list(zip(got, T.iter_transliterators(ignore_errors=True)))
        if len(its) != len(got):
            raise Bad("iter_transliterators yields %d transliterators for %d names" % (len(its), len(got)), **info)
        for n, g in its:
            if type(g) is not getattr(T, n):
                raise Bad("iter_transliterators yields %r for %s" % (type(g), n), **info)
            if owner.get(n):
                r = outcome(g.transliterate, "a?")
                if r != ("ok", "<%s>" % owner[n]):
                    raise Bad("%s transliterates 'a' to %r" % (n, r), **info)
            cov.add("transitions", 1)
    ns = {}
    exec("from graphtransliterator.transliterators import *", ns)
    for n in got:
        if ns.get(n) is not getattr(T, n):
            raise Bad("%s is not imported with *" % n, **info)
    cov.add("states", 1)


def forked(fn):
    def run(case, cov):
        tmp = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
        try:
            n = in_child(fn, case, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for k, v in n.items():
            cov.add(k, v)

    return run


def ordered(before, new, T, info):
    """Earlier names keep their places; the new ones follow."""
    if list(T.iter_names())[: len(before)] != before:
        raise Bad("names listed earlier moved: %r, before %r" % (list(T.iter_names()), before), **info)


LAYOUT_CLASSES = [
    ("Xa",), ("Xa", "Xb"), ("Xb", "Xa", "Xc"), ("_Xp",), ("_Xp", "Xa"), ("__Xq", "Xa"), ("X",), ("Xa", ("Xaa", "Xa")), (("_Xp", "Bundled"), ("Xd", "_Xp")), ("xlower", "XA_b", "\u0394x"), (),
    ("Bundled_X",), ("XBundled", "X_"),
]
LAYOUT_STATEMENTS = [(), ("imports",), ("example",), ("metadata",), ("imports", "example", "metadata"), ("base",)]


def layout(case, tmp):
    """One folder of one or two packages."""
    import graphtransliterator.transliterators as T

    sys.dont_write_bytecode = True
    cov = Cov()
    packages, noise = case
    base = list(T.iter_names())
    kept = {n: getattr(T, n) for n in base}
    owner = {}
    for pkg, classes, statements, extra, method in packages:
        make(tmp, pkg, classes, statements, extra, method)
        for n in registers(classes):
            owner[n] = pkg
    if noise:
        with open(os.path.join(tmp, "README.rst"), "w") as f:
            f.write("x\n")
        os.mkdir(os.path.join(tmp, "no_package"))
        with open(os.path.join(tmp, "no_package", "x.yaml"), "w") as f:
            f.write(YAML)
        os.mkdir(os.path.join(tmp, "__pycache__"))
    info = dict(packages=packages, noise=noise)
    T.add_transliterators([tmp])
    cov.add("transitions", 1)
    verify(T, base + list(owner), owner, kept, info, cov)
    ordered(base, owner, T, info)
    # loading it again is refused (if it defines anything) and changes nothing
    kept = {n: getattr(T, n) for n in T.iter_names()}
    names = list(T.iter_names())
    r = outcome(T.add_transliterators, [tmp])
    cov.add("transitions", 1)
    want = ("exc", "ValueError") if owner else ("ok", None)
    if r != want:
        raise Bad("loading the folder again gives %r" % (r,), **info)
    verify(T, names, owner, kept, info, cov)
    if list(T.iter_names()) != names:
        raise Bad("loading again reorders the names", **info)
    cov.add("traces", 1)
    return cov.n


FOLDERS = {
    "A": [("pa", ("Xa", "Xb"))],
    "B": [("pb", ("Xb",))],
    "C": [("pc", ("Xc", "_Xp")), ("pd", ("Xd",))],
    "D": [],
    "E": [("pe", ("Example", "Xe"))],
    "F": [("pf", ("Xf",)), ("pg", ("Xa", "Xg")), ("ph", ("Xh",))],
    "G": [("pi", ("Xi",)), ("pj", ("Xi",))],
    "H": [("pk", ("_Xp", "_Xq"))],
    "J": [("pm", ("MetadataSchema",))],
    "K": [("pn", ("Xn", "iter_names", "iter_transliterators"))],
    "I": [("pl", ("AAA", "Xb", "ZZZ"))],
}
LOADS = [("A",), ("B",), ("C",), ("D",), ("E",), ("F",), ("G",), ("H",), ("I",), ("J",), ("K",), ("A", "C"), ("A", "B"), ("C", "D", "H"), ("installed",), ()]


def sequence(case, tmp):
    """A sequence of loads, with possible failures."""
    import graphtransliterator.transliterators as T

    sys.dont_write_bytecode = True
    cov = Cov()
    for name, pkgs in FOLDERS.items():
        if any(name in load for load in case):
            os.mkdir(os.path.join(tmp, name))
            for pkg, classes in pkgs:
                make(os.path.join(tmp, name), pkg, classes)
        else:
            pass
    installed = list(T.__path__)
    base = list(T.iter_names())
    # other names the module exports
    reserved = {x: getattr(T, x) for x in T.__all__ if x not in base and x != "Bundled"}
    names = list(base)
    owner = {}
    for n, load in enumerate(case):
        kept = dict(reserved, **{x: getattr(T, x) for x in names})
        paths, incoming = [], []
        for f in load:
            if f == "installed":
                paths += installed
                incoming += [(x, None) for x in base]
            else:
                paths.append(os.path.join(tmp, f))
                for pkg, classes in FOLDERS[f]:
                    incoming += [(x, pkg) for x in registers(classes)]
        clash = False
        seen = set(names) | set(reserved)
        first = {}
        for x, pkg in incoming:
            if x in seen:
                clash = True
            else:
                seen.add(x)
                first[x] = pkg
        info = dict(loads=case[: n + 1], before=names)
        r = outcome(T.add_transliterators, paths)
        cov.add("transitions", 1)
        if r != (("exc", "ValueError") if clash else ("ok", None)):
            raise Bad("loading gives %r, a name %s registered" % (r, "is already" if clash else "is not yet"), **info)
        got = list(T.iter_names())
        if clash:
            extra = set(got) - set(names)
            if not extra <= set(first):
                raise Bad("names %r appear" % sorted(extra), **info)
            now = names + [x for x in got if x in extra]
        else:
            now = names + list(first)
        for x in now:
            if x in first:
                owner[x] = first[x]
        ordered(names, first, T, info)
        verify(T, now, owner, kept, info, cov, deep=(n == len(case) - 1))
        names = got
    cov.add("traces", 1)
    return cov.n


# ---- folders inside the package, loaded on import ---------------------------------

PROGRAM = """
import json, sys
import graphtransliterator.transliterators as T
out = {"file": T.__file__, "names": list(T.iter_names()), "all": T.__all__}
out["works"] = [type(g).__name__ for g in T.iter_transliterators()]
out["a"] = {n: getattr(T, n)().transliterate("a") for n in T.iter_names() if n.startswith("X")}
print(json.dumps(out))
"""


def run_import(case, cov):
    packages, clash = case
    tmp = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
    dst = os.path.join(tmp, "graphtransliterator")
    shutil.copytree(os.path.join(REPO, "graphtransliterator"), dst, ignore=shutil.ignore_patterns("__pycache__"))
    import graphtransliterator.transliterators as T

    base = list(T.iter_names())
    owner = {}
    for pkg, classes, statements, extra, method in packages:
        make(os.path.join(dst, "transliterators"), pkg, classes, statements, extra, method)
        for n in registers(classes):
            owner[n] = pkg
    env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", PROGRAM], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    shutil.rmtree(tmp, ignore_errors=True)
    cov.add("states", 1)
    cov.add("transitions", 1)
    info = dict(packages=packages)
    if clash:
        if p.returncode == 0 or b"ValueError" not in p.stderr:
            raise Bad("importing two transliterators of one name does not raise ValueError", stderr=p.stderr.decode()[-500:], **info)
        cov.add("traces", 1)
        return
    if p.returncode:
        raise Bad("importing fails: %s" % p.stderr.decode()[-800:], **info)
    out = json.loads(p.stdout.decode())
    assert out["file"].startswith(tmp), out["file"]
    if sorted(out["names"]) != sorted(base + list(owner)) or out["works"] != out["names"]:
        raise Bad("names listed are %r, classes %r" % (out["names"], out["works"]), **info)
    if out["a"] != {n: "<%s>" % owner[n] for n in owner if n.startswith("X")}:
        raise Bad("transliterations are %r" % out["a"], **info)
    for n in out["names"]:
        if out["all"].count(n) != 1:
            raise Bad("%s is in __all__ %d times" % (n, out["all"].count(n)), **info)
    cov.add("traces", 1)


# names of packages: what they are called must not matter
PACKAGES = (
    "testament", "test_a", "tests_a", "a_test", "a_tests", "testing_a", "x", "_hidden", "__dunder", "Upper", "UPPER", "camelCase", "x1", "x_1", "lib_x", "conftest_x", "setup_x", "main_x",
    "schemas_x", "json_x", "yaml_x", "utils_x", "base_x", "templates_x", "docs_x", "example_x", "example2", "xexample", "sample_x", "itrans_x", "bundled_x", "_bundled", "core_x",
    "transliterators_x", "graphtransliterator_x", "bundled2", "init", "pycache", "metadata_x", "transliteration_x", "a_very_long_name_of_a_package_" + "x" * 60, "\u0394x", "\u0939\u093f\u0928\u094d\u0926\u0940",
    "zz", "AA", "o", "I", "l0",
)


def phases(tier):
    big = tier == "thorough"
    GT()
    import graphtransliterator.transliterators  # noqa

    P = itertools.product
    one = [([("pa", c, s, e, m)], noise) for c in LAYOUT_CLASSES for s in LAYOUT_STATEMENTS for e, m in (((), "JSON"), (("tests", "module"), "YAML")) for noise in (False, True) if big or (noise == bool(e))]
    two = [([("pa", c, s, (), "JSON"), ("pb", tuple(rename(x) for x in c2), s2, ("tests",), "YAML")], False)
           for c, c2 in P(LAYOUT_CLASSES, LAYOUT_CLASSES) for s, s2 in ((("imports",), ("imports", "example")), ((), ())) if big or s]
    named = [([(n, cs, ("imports",) if k else (), ("tests", "module") if k else (), m)], bool(k)) for n in PACKAGES for k, (cs, m) in enumerate(((("Xa",), "JSON"), (("Xb", "_Xp", "Xa"), "YAML")))]
    named += [([(n, ("Xa",), (), (), "JSON"), (o, ("Xb",), (), (), "YAML")], False) for n, o in zip(PACKAGES, PACKAGES[1:] + PACKAGES[:1])]
    named += [([(n, ("Xn%d" % i,), (), (), "JSON") for i, n in enumerate(PACKAGES) if n not in ("UPPER", "AA", "I")], True)]
    seqs = [s for n in (1, 2) for s in P(LOADS, repeat=n)]
    seqs += [s for s in P(LOADS if big else LOADS[:6], repeat=3)]
    imports = [([("pa", c, s, ("tests",), "JSON")], False) for c in LAYOUT_CLASSES for s in ((), ("imports",)) if big or s or len(c) == 1]
    imports += [([("zz_first", ("Xa",), (), (), "JSON"), ("aa_last", ("Xb", "_Xp"), ("imports",), (), "YAML")], False), ([("pa", ("Xa",), (), (), "JSON"), ("pb", ("Xa",), (), (), "JSON")], True),
                ([("pa", ("Example",), (), (), "JSON")], True)]
    return [
        Phase("layouts", lambda: one, forked(layout), cpu_limit=60, note="one package: classes x imports x other files"),
        Phase("pairs", lambda: two, forked(layout), cpu_limit=60, note="two packages in one folder"),
        Phase("names", lambda: named, forked(layout), cpu_limit=60, note="packages of %d different names" % len(PACKAGES)),
        Phase("sequences", lambda: seqs, forked(sequence), cpu_limit=60, note="all sequences of up to 2 loads, of 3 out of %d, of folders with and without names already registered" % len(LOADS if big else LOADS[:6])),
        Phase("imports", lambda: imports, run_import, cpu_limit=60, note="packages in the bundled folder of a copy of the package, loaded on import"),
    ]


def rename(c):
    f = lambda n: n if n in ("Bundled", "Example") else n + "2"  # noqa
    return (f(c[0]), f(c[1])) if isinstance(c, tuple) else f(c)
