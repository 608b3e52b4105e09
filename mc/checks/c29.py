import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

from mc.engine import REPO, Bad, Phase, in_child, scratch_package
from mc.ref import OM, Cfg, rule

ID = "C29"
LEVEL = "model_checking"
LAZY_IMPORT = True
RULE = (
    "cases = initial JSON files x sequences of make-json commands (and edits of a YAML file) on a scratch copy of the package; state = contents of every "
    "file of the copy; transition = one command on the implementation, after which every file is compared with the prediction and every rewritten JSON "
    "file with its YAML file; traces = complete sequences"
)
ASSUMPTIONS = [
    "with --regex a name matches if the expression matches at its start (re.match); without, if it is the name",
    "the YAML settings of matching transliterators are valid and unambiguous",
    "scope: the transliterators, arguments and sequences listed per phase",
]

Z = {"a": ("v",), "b": ("v", "k"), " ": ("wb",), "\u0905": ("k",)}
BASE = [rule("A", "a"), rule("B", "b"), rule("_", " "), rule("\u0906", "\u0905")]
SETTINGS = {
    "alpha": Cfg(Z, BASE, metadata={"name": "alpha"}),
    "alpha_beta": Cfg(Z, BASE + [rule("AB", "ab", pc=["v"], nt="b"), rule("", "ba", nc=["wb"])], [OM(("v",), ("k",), ","), OM(("wb",), ("v", "v"), "\u200d")]),
    "beta": Cfg(Z, BASE + [rule("C", "aa")], ws=(" ", "wb", True), metadata={"name": "beta", "version": "1.0.0"}),
    "gamma": Cfg(Z, BASE[:3] + [rule("G", "\u0905", pt="a")]),
    "delta": Cfg(Z, BASE + [rule("A", "aaa"), rule("D", "ab", nc=["v"]), rule("E", "ab", nc=["v", "k"])], [OM(("k",), ("k",), "-")], metadata={"x": [1, {"y": None}]}),
}
OTHER = Cfg(Z, [rule("1", "a"), rule("2", "b"), rule("3", " ")], [OM(("v",), ("v",), "+")], metadata={"name": "other"})
CLASSES = {"alpha": ["Alpha"], "alpha_beta": ["AlphaBeta"], "beta": ["Beta", "_Beta"], "gamma": ["Gamma", "GammaToo"], "delta": ["a_delta"]}
METHODS = {"alpha": "JSON", "alpha_beta": "YAML", "beta": "JSON", "gamma": "JSON", "delta": "YAML"}
TEXTS = ["", "a", "ab", "bab", "aab ba", "\u0905", "a\u0905b", " a  b ", "?", "abab b", "aaa\u0905\u0905"]

_w = {}


def easy_yaml(cfg):
    import yaml

    return yaml.safe_dump(cfg.easy(), allow_unicode=True, sort_keys=False)


def init(w):
    """A scratch copy of the package with five more bundled transliterators, imported here."""
    if _w:
        return
    sys.dont_write_bytecode = True
    root = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
    base = os.path.join(root, "graphtransliterator")
    shutil.copytree(os.path.join(REPO, "graphtransliterator"), base, ignore=shutil.ignore_patterns("__pycache__"))
    tdir = os.path.join(base, "transliterators")
    for pkg, cfg in SETTINGS.items():
        d = os.path.join(tdir, pkg)
        os.makedirs(os.path.join(d, "tests"))
        with open(os.path.join(d, pkg + ".yaml"), "w") as f:
            f.write(easy_yaml(cfg))
        with open(os.path.join(d, "tests", pkg + "_tests.yaml"), "w") as f:
            f.write("a: A\n")
        with open(os.path.join(d, "__init__.py"), "w") as f:
            f.write("from graphtransliterator.transliterators import Bundled\n")
            for c in CLASSES[pkg]:
                f.write("class %s(Bundled):\n    def __init__(self, **kwargs):\n        self.from_%s(**kwargs)\n" % (c, METHODS[pkg]))
    sys.path.insert(0, root)
    import logging

    logging.disable(logging.CRITICAL)
    import graphtransliterator
    import graphtransliterator.transliterators as T

    assert os.path.dirname(graphtransliterator.__file__) == base, graphtransliterator.__file__
    from mc import impl

    _w.update(root=root, tdir=tdir, T=T, GT=impl.GT(), names=list(T.iter_names()))
    # name -> package
    _w["pkg"] = {}
    for n in _w["names"]:
        _w["pkg"][n] = getattr(T, n).__module__
    want = sorted(c for cs in CLASSES.values() for c in cs if not c.startswith("_"))
    if sorted(set(_w["names"]) - {"Example", "ITRANSDevanagariToUnicode"}) != want:
        raise Bad("scratch transliterators registered as %r" % _w["names"])
    # JSON files as first made from the YAML files
    _w["good"], _w["other"] = {}, _w["GT"].from_dict(OTHER.settings()).dumps()
    for pkg in sorted(set(_w["pkg"].values())):
        _w["good"][pkg] = _w["GT"].from_yaml_file(path_of(pkg, "yaml")).dumps()
    with open(path_of("alpha", "yaml")) as f:
        _w["alpha.yaml"] = f.read()


def path_of(pkg, ext):
    return os.path.join(_w["tdir"], pkg, pkg + "." + ext)


INITIAL = ["good", "missing", "other", "garbage", "committed"]


def reset(kind):
    for pkg in set(_w["pkg"].values()):
        p = path_of(pkg, "json")
        if kind == "missing":
            if os.path.exists(p):
                os.remove(p)
            continue
        text = {"good": _w["good"][pkg], "other": _w["other"], "garbage": "{" + "x" * 20000}.get(kind)
        if kind == "committed":
            src = os.path.join(REPO, "graphtransliterator", "transliterators", pkg, pkg + ".json")
            text = open(src).read() if os.path.exists(src) else _w["good"][pkg]
        with open(p, "w") as f:
            f.write(text)
    with open(path_of("alpha", "yaml"), "w") as f:
        f.write(_w["alpha.yaml"])


def files():
    out = {}
    for d, ds, fs in os.walk(_w["root"]):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), _w["root"])] = h.read()
    return out


def matching(arg, regex):
    if not regex:
        return [n for n in _w["names"] if n == arg]
    return [n for n in _w["names"] if re.match(arg, n)]


_verified = set()


def faithful(name, info, cov):
    """The JSON file of the transliterator holds what its YAML file says."""
    from mc.checks.c11 import settings_of
    from mc.impl import outcome

    pkg = _w["pkg"][name]
    with open(path_of(pkg, "json")) as f:
        text = f.read()
    with open(path_of(pkg, "yaml")) as f:
        source = f.read()
    key = (name, hashlib.sha1((text + "\0" + source).encode("utf-8", "replace")).digest())
    if key in _verified:
        return
    try:
        j = _w["GT"].loads(text)
    except Exception as e:
        raise Bad("JSON of %s cannot be loaded: %r" % (name, e), json=text, **info)
    y = _w["GT"].from_yaml_file(path_of(pkg, "yaml"))
    a, b = settings_of(j), settings_of(y)
    if a != b:
        raise Bad("JSON of %s differs from its YAML" % name, differences=[k for k in a if a[k] != b[k]], json=a, yaml=b, **info)
    if j.graphtransliterator_version != y.graphtransliterator_version:
        raise Bad("JSON of %s is labelled with version %r" % (name, j.graphtransliterator_version), **info)
    c = getattr(_w["T"], name).new(method="json")
    d = getattr(_w["T"], name).new(method="yaml")
    texts = TEXTS
    if name.startswith("ITRANS") or name == "Example":
        texts = list(d.load_yaml_tests())
    for t in texts:
        rs = [outcome(g.transliterate, t) for g in (j, y, c, d)]
        cov.add("transitions", 1)
        if any(r != rs[0] for r in rs):
            raise Bad("%s: %r becomes %r from JSON, YAML, bundled JSON, bundled YAML" % (name, t, rs), **info)
    _verified.add(key)


def command(args):
    from click.testing import CliRunner
    from graphtransliterator.cli import main

    return CliRunner(mix_stderr=False).invoke(main, ["make-json"] + args)


def step(op, info, cov):
    """One operation, checked."""
    before = files()
    if op == "edit":
        with open(path_of("alpha", "yaml"), "w") as f:
            f.write(easy_yaml(OTHER))
        return
    if op == "restore":
        with open(path_of("alpha", "yaml"), "w") as f:
            f.write(_w["alpha.yaml"])
        return
    arg, flags = op
    regex = bool(flags)
    try:
        ms = matching(arg, regex)
        wrong = False
    except re.error:
        ms, wrong = [], True
    r = command(list(flags) + ["--", arg])
    cov.add("transitions", 1)
    cov.add("states", 1)
    after = files()
    touched = {os.path.relpath(path_of(_w["pkg"][n], "json"), _w["root"]) for n in ms}
    for f in sorted(set(before) | set(after)):
        if f in touched:
            if f not in after:
                raise Bad("%s is missing afterwards" % f, **info)
            continue
        if before.get(f) != after.get(f):
            raise Bad("%s is %s although %r matches only %r" % (f, "changed" if f in before and f in after else "made" if f in after else "removed", arg, ms), stdout=r.stdout, **info)
    if r.exit_code != 0 and not wrong:
        raise Bad("make-json ends with status %r: %r" % (r.exit_code, r.exception), stdout=r.stdout, **info)
    for n in ms:
        faithful(n, info, cov)
    return after, touched


def run_sequence(case, cov):
    initial, ops, twice = case
    reset(initial)
    last = None
    for n, op in enumerate(ops):
        info = dict(initial=initial, commands=ops[: n + 1])
        last = step(op, info, cov)
        if twice and last is not None:
            again = step(op, dict(info, again=True), cov)
            if again[0] != last[0]:
                raise Bad("running make-json again changes %r" % [f for f in last[0] if again[0].get(f) != last[0][f]], **info)
    cov.add("traces", 1)


# ---- the command in a process of its own -----------------------------------------


def run_process(case, cov):
    initial, op = case
    reset(initial)
    before = files()
    arg, flags = op
    ms = matching(arg, bool(flags))
    env = dict(os.environ, PYTHONPATH=_w["root"], PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    p = subprocess.run([sys.executable, "-c", "import sys; from graphtransliterator.cli import main; sys.exit(main())", "make-json"] + list(flags) + ["--", arg], cwd=_w["root"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    info = dict(initial=initial, command=op)
    cov.add("states", 1)
    cov.add("transitions", 1)
    if p.returncode:
        raise Bad("make-json ends with status %r" % p.returncode, stderr=p.stderr.decode()[-500:], **info)
    after = files()
    touched = {os.path.relpath(path_of(_w["pkg"][n], "json"), _w["root"]) for n in ms}
    for f in sorted(set(before) | set(after)):
        if f not in touched and before.get(f) != after.get(f):
            raise Bad("%s is changed although %r matches only %r" % (f, arg, ms), **info)
    for n in ms:
        faithful(n, info, cov)
    cov.add("traces", 1)


NAMES = ["Alpha", "AlphaBeta", "Beta", "Gamma", "GammaToo", "a_delta", "Example", "ITRANSDevanagariToUnicode"]
ODD = ["", "A", "alpha", "Alph", "lpha", "Alpha ", " Alpha", "Alpha.", "Alph.", ".*", "Alpha|Beta", "^Alpha$", "[A]lpha", "Alpha\n", "_Beta", "Bundled", "alpha_beta", "Nobody", "Alpha,Beta", "A*", "(Alpha)", "\\w+", "Alpha?", "beta", "Beta$", "."]
REGEX = ["", "A", "Alpha", "Alpha$", "Alpha.+", ".*", "B", ".*Beta", "Beta|Alpha$", "Gamma(Too)?$", "[ABG]", "^E", "a", "(?i)ALPHA", "x", "Nobody", "Alpha ", "\\w+_", "Gam", ".*Too", "[", "$", "ITRANS"]


def phases(tier):
    big = tier == "thorough"
    P = itertools.product
    plain = [(a, ()) for a in NAMES + ODD]
    rx = [(a, (f,)) for a in REGEX for f in ("--regex", "-re")]
    few = [("Alpha", ()), ("AlphaBeta", ()), ("Gamma", ()), ("GammaToo", ()), ("Nobody", ()), ("A", ("-re",)), (".*Beta", ("--regex",)), ("a", ("--regex",)), ("Beta", ()), "edit", "restore"]
    if not big:
        few = few[:3] + few[4:8] + few[-2:]
    seqs = [s for n in (2, 3) for s in P(few, repeat=n) if not isinstance(s[-1], str)]
    return [
        Phase("single", lambda: [(i, (o,), True) for o in plain + rx for i in INITIAL], run_sequence, cpu_limit=60, init=init, note="every argument from every initial state of the JSON files, run twice"),
        Phase("sequences", lambda: [(i, s, False) for s in seqs for i in (INITIAL if big else ("other",))], run_sequence, cpu_limit=60, init=init, note="all sequences of 2 and 3 commands and edits of a YAML file"),
        Phase("processes", lambda: [(i, o) for i in ("other", "missing") for o in [("AlphaBeta", ()), ("Alph.", ()), ("Alpha", ("--regex",)), ("Nobody", ())] + ([(".*", ("-re",))] if big else [])], run_process, cpu_limit=60, init=init, note="the command in a process of its own"),
    ]
