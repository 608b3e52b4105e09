import ast
import importlib
import itertools
import json
import os
import subprocess
import sys
import tempfile

from mc import fam
from mc.engine import REPO, Bad, Cov, Phase, in_child
from mc.impl import GT, outcome
from mc.ref import OM, Cfg, rule

ID = "C24"
LEVEL = "model_checking"
RULE = (
    "cases = command x source x options, argument lists explored within the case; state = command line; transition = one run of the real "
    "command; traces = runs whose standard output and exit status are those predicted from the library called directly"
)
ASSUMPTIONS = [
    "options of the same name given at most once; a dump that ignores errors is only used with an explicit option",
    "Python output of one input is the text itself, of several inputs a Python list; other wording on standard output or error is not checked",
    "scope: the sources, options and argument lists listed per phase",
]

Z = {"a": ("v",), "b": ("v", "k"), "z": (), " ": ("wb",), "\u0905": ("v",), "-": ()}
CFGS = {
    "plain": Cfg(Z, fam.BASE_RULES + [rule("\u0906", "\u0905"), rule("--", "-")], [OM(("v",), ("v",), ",")]),
    "consolidating": Cfg(Z, [rule('"', "a"), rule("\\n\n", "b", pt="a"), rule("'", "-"), rule(" ", " ")], ws=(" ", "wb", True), metadata={"name": "x"}),
    "ambiguous": Cfg(Z, fam.BASE_RULES + [rule("x", "a", pt="b"), rule("y", "a", nt="b")]),
    "resolved": Cfg(Z, fam.BASE_RULES + [rule("x", "a", pt="b"), rule("y", "a", nt="b"), rule("xy", "a", pt="b", nt="b"), rule("{}", "\u0905")]),
}
TEXTS = ["a", "", " ", "b a ", " bab", "az", "?a", "\u0905", " a  b ", "ab", "\u0905?", "True", "a\nb", "--a", "%s", "{}"]

_made = {}


def main():
    if "main" not in _made:
        from graphtransliterator.cli import main as m

        _made["main"] = m
    return _made["main"]


def source_dir():
    if "dir" not in _made:
        import yaml

        d = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
        for name, cfg in CFGS.items():
            with open(os.path.join(d, name + ".yaml"), "w") as f:
                yaml.safe_dump(cfg.easy(), f, allow_unicode=True)
            for ie in (False, True):
                g = GT().from_dict(cfg.settings(), check_ambiguity=False, ignore_errors=ie)
                for lv in (0, 1, 2):
                    with open(os.path.join(d, "%s-%d-%d.json" % (name, lv, ie)), "w") as f:
                        f.write(g.dumps(lv))
        _made["dir"] = d
    return _made["dir"]


def invoke(args):
    from click.testing import CliRunner

    r = CliRunner(mix_stderr=False).invoke(main(), args)
    return r.exit_code, r.stdout


def source(kind, name):
    """(arguments, function loading the same with the library)."""
    G = GT()
    d = source_dir()
    if kind == "bundled":
        import graphtransliterator.transliterators as T

        return ["bundled", name], lambda **kw: getattr(T, name)(**kw)
    if kind == "yaml_file":
        path = os.path.join(d, name + ".yaml")
        return [kind, path], lambda **kw: G.from_yaml_file(path, **kw)
    path = os.path.join(d, name + ".json")
    with open(path) as f:
        text = f.read()
    if kind == "json":
        return [kind, text], lambda **kw: G.loads(text, **kw)
    return [kind, path], lambda **kw: G.loads(text, **kw)


AMB = [([], False), (["--check-ambiguity"], True), (["--no-check-ambiguity"], False), (["-ca"], True), (["-nca"], False)]
IGN = [([], False), (["--ignore-errors"], True), (["--no-ignore-errors"], False), (["-ie"], True), (["-nie"], False)]
TO = [([], "python"), (["--to", "json"], "json"), (["--to", "python"], "python"), (["-t", "json"], "json"), (["-t", "python"], "python")]
FROM = ["--from", "-f"]


def judge(args, want, fmt, info, run=invoke):
    code, out = run(args)
    if want[0] == "exc":
        if code == 0:
            raise Bad("command succeeds where the library raises %s" % want[1], args=args, stdout=out, **info)
        return
    if code != 0:
        raise Bad("command fails with status %r where the library returns %r" % (code, want[1]), args=args, stdout=out, **info)
    value = want[1]
    if not out.endswith("\n"):
        raise Bad("no newline at the end of the output", args=args, stdout=out, **info)
    if fmt == "json":
        try:
            got = json.loads(out)
        except ValueError:
            raise Bad("not JSON", args=args, stdout=out, **info)
        okay = got == value and type(got) is type(value)
    elif isinstance(value, str):
        got = out[:-1]
        okay = got == value
    else:
        try:
            got = ast.literal_eval(out.strip())
        except Exception:
            raise Bad("not a Python list", args=args, stdout=out, **info)
        okay = got == value and type(got) is list
    if not okay:
        raise Bad("command prints %r, library returns %r" % (got, value), args=args, **info)


def expected(load, amb, ign, texts):
    def f():
        g = load(check_ambiguity=amb, ignore_errors=ign)
        if len(texts) == 1:
            return g.transliterate(texts[0])
        return [g.transliterate(t) for t in texts]

    return outcome(f)


def run_transliterate(case, cov):
    kind, name, amb, ign, tos, lists = case
    src, load = source(kind, name)
    cache = {}
    for texts in lists:
        want = expected(load, amb[1], ign[1], texts)
        for to, fmt in tos:
            for n, frm in enumerate(FROM):
                opts = [[frm] + src, to, amb[0], ign[0]]
                if n:
                    opts.reverse()
                flat = [x for o in opts for x in o]
                judge(["transliterate"] + flat + ["--"] + list(texts), want, fmt, dict(source=(kind, name)))
                cov.add("transitions", 1)
                cov.add("states", 1)
                cov.add("traces", 1)
    cov.sample(lambda: "%s %s %r" % (kind, name, (amb, ign)))


def sources():
    out = [("yaml_file", n) for n in CFGS]
    for n in CFGS:
        for lv in (0, 1, 2):
            out.append(("json", "%s-%d-0" % (n, lv)))
            out.append(("json_file", "%s-%d-0" % (n, lv)))
    return out


def run_dump(case, cov):
    kind, name, amb, level = case
    src, load = source(kind, name)
    forms = [[]] if level is None else [["--compression-level", str(level)], ["-cl", str(level)], ["--compression-level=%d" % level]]

    def f():
        g = load(check_ambiguity=amb[1])
        return g.dumps() if level is None else g.dumps(compression_level=level)

    want = outcome(f)
    for form in forms:
        for frm in FROM:
            args = ["dump", frm] + src + amb[0] + form
            code, out = invoke(args)
            cov.add("transitions", 1)
            cov.add("states", 1)
            if want[0] == "exc":
                if code == 0:
                    raise Bad("dump succeeds where the library raises %s" % want[1], args=args)
            elif code != 0:
                raise Bad("dump fails with status %r" % code, args=args)
            elif out != want[1] + "\n":
                raise Bad("dump prints %.300r, library gives %.300r" % (out, want[1]), args=args)
            cov.add("traces", 1)


TABLES = [{"a": "A", "b": "B"}, {"a": "B"}, {"ab": "A,B", "\u0905": "\u0906"}, {"?": "?"}, {"a": "A", "z": "Z"}, {"a": "A", "b": "B", "ab": "AB"}]


def run_bundled(case, cov):
    tmp = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
    n = in_child(bundled, case, tmp)
    for k, v in n.items():
        cov.add(k, v)


def bundled(case, tmp):
    """Commands on scratch bundled transliterators registered next to the installed ones."""
    import yaml
    from mc.checks.c12 import make_package
    import graphtransliterator.transliterators as T

    name, init, order = case
    cov = Cov()
    sys.dont_write_bytecode = True
    cfg = CFGS[name]
    for n in order:
        make_package(tmp, n, cfg, None, 2, init)
        os.mkdir(os.path.join(tmp, n, "tests"))
    importlib.invalidate_caches()
    base = list(T.iter_names())
    T.add_transliterators([tmp])
    classes = [n.capitalize() for n in order]
    # list-bundled
    code, out = invoke(["list-bundled"])
    listed = [x.strip() for x in out.splitlines() if x.startswith(" ")]
    if code != 0 or sorted(listed) != sorted(base + classes) or listed != list(T.iter_names()):
        raise Bad("list-bundled prints %r" % out, status=code)
    info = dict(config=name, init=init)
    for cls in classes:
        n = cls.lower()
        path = os.path.join(tmp, n, "tests", n + "_tests.yaml")
        load = lambda **kw: getattr(T, cls)(**kw)  # noqa
        for table in TABLES:
            with open(path, "w") as f:
                yaml.safe_dump(table, f, allow_unicode=True)
            for flags, amb in AMB:
                want = outcome(lambda: load(check_ambiguity=amb).run_yaml_tests())
                code, out = invoke(["test"] + flags + [cls])
                cov.add("transitions", 1)
                cov.add("states", 1)
                if (code == 0) != (want == ("ok", True)):
                    raise Bad("test ends with status %r on %r, library gives %r" % (code, table, want), args=flags, **info)
                if code == 0 and out != "True\n":
                    raise Bad("test prints %r" % out, **info)
                cov.add("traces", 1)
            for flags, parse in (([], yaml.safe_load), (["--to", "yaml"], yaml.safe_load), (["-t", "json"], json.loads), (["--to", "json"], json.loads), (["-t", "yaml"], yaml.safe_load)):
                want = outcome(lambda: load().load_yaml_tests())
                code, out = invoke(["dump-tests"] + flags + [cls])
                cov.add("transitions", 1)
                cov.add("states", 1)
                if want[0] == "exc":
                    if code == 0:
                        raise Bad("dump-tests succeeds where the library raises", args=flags, **info)
                elif code != 0 or parse(out) != want[1] or want[1] != table:
                    raise Bad("dump-tests prints %r (status %r) for %r" % (out, code, table), args=flags, **info)
                cov.add("traces", 1)
        for flags, amb in AMB:
            for lv in (None, 0, 1, 2):
                want = outcome(lambda: load(check_ambiguity=amb).dumps(*(() if lv is None else (lv,))))
                code, out = invoke(["dump", "--from", "bundled", cls] + flags + ([] if lv is None else ["-cl", str(lv)]))
                cov.add("transitions", 1)
                cov.add("states", 1)
                if (code == 0) != (want[0] == "ok") or (code == 0 and out != want[1] + "\n"):
                    raise Bad("dump prints %.200r (status %r), library gives %.200r" % (out, code, want), args=flags, **info)
                cov.add("traces", 1)
            for ign in IGN[:3]:
                for texts in [(), ("a",), ("?",), ("ab", "?a"), ("\u0905", "b a", "z")]:
                    want = expected(load, amb, ign[1], texts)
                    for to, fmt in TO[:2]:
                        judge(["transliterate"] + ign[0] + ["--from", "bundled", cls] + flags + to + list(texts), want, fmt, info)
                        cov.add("transitions", 1)
                        cov.add("states", 1)
                        cov.add("traces", 1)
    return cov.n


def run_installed(case, cov):
    import yaml
    import graphtransliterator.transliterators as T

    (name,) = case
    t = getattr(T, name)()
    for flags, parse in (([], yaml.safe_load), (["--to", "yaml"], yaml.safe_load), (["--to", "json"], json.loads)):
        code, out = invoke(["dump-tests"] + flags + [name])
        if code != 0 or {str(k): str(v) for k, v in parse(out).items()} != t.load_yaml_tests():
            raise Bad("dump-tests %r prints %.300r" % (flags, out))
        cov.add("transitions", 1)
    for flags, amb in AMB:
        if invoke(["test"] + flags + [name]) != (0, "True\n"):
            raise Bad("test %s does not print True" % name, args=flags)
        cov.add("transitions", 1)
    code, out = invoke(["list-bundled"])
    if code != 0 or name not in [x.strip() for x in out.splitlines()]:
        raise Bad("list-bundled prints %r" % out)
    for what in (["test", "Nobody"], ["dump-tests", "Nobody"], ["dump", "--from", "bundled", "Nobody"], ["transliterate", "--from", "bundled", "Nobody", "a"], ["dump", "--from", "yaml_file", "/nonexistent/x.yaml"],
                 ["transliterate", "--from", "json", "{", "a"], ["transliterate", "--from", "other", name, "a"], ["transliterate", "--from", "bundled", name, "--to", "xml", "a"]):
        code, out = invoke(what)
        if code == 0:
            raise Bad("%r succeeds" % (what,), stdout=out)
        cov.add("transitions", 1)
    cov.add("states", 1)
    cov.add("traces", 1)


def run_bundled_inputs(case, cov):
    """Every input of the transliterator's own tests, alone and all together."""
    import graphtransliterator.transliterators as T

    (name,) = case
    t = getattr(T, name)().load_yaml_tests()
    for to, fmt in TO[:2]:
        judge(["transliterate", "--from", "bundled", name] + to + ["--"] + list(t), ("ok", list(t.values())), fmt, {})
        cov.add("transitions", 1)
        for s, want in t.items():
            judge(["transliterate", "--from", "bundled", name] + to + ["--", s], ("ok", want), fmt, {})
            cov.add("transitions", 1)
            cov.add("states", 1)
    cov.add("traces", 1)


def process(args):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", "import sys; from graphtransliterator.cli import main; sys.exit(main())"] + args, cwd=source_dir(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout.decode("utf-8")


def run_process(case, cov):
    kind, name, ign, (to, fmt), texts = case
    src, load = source(kind, name)
    judge(["transliterate", "--from"] + src + ign[0] + to + ["--"] + list(texts), expected(load, False, ign[1], texts), fmt, dict(source=(kind, name)), run=process)
    cov.add("transitions", 1)
    cov.add("states", 1)
    cov.add("traces", 1)


def spellings(name):
    """The same settings, written differently: (kind, text)."""
    import yaml

    cfg = CFGS[name]
    g = GT().from_dict(cfg.settings(), check_ambiguity=False)
    for lv in (0, 1, 2):
        d = json.loads(g.dumps(lv))
        for how in (dict(indent=1), dict(indent=4, sort_keys=True), dict(ensure_ascii=False), dict(ensure_ascii=False, indent=2), dict(separators=(",\n", ":\n")), {}):
            text = json.dumps(d, **how)
            yield "json", text
        yield "json", "\n\n " + text + " \n\t\n"
        yield "json", text.replace(", ", ",\r\n")
        yield "json", json.dumps(dict(reversed(list(d.items()))), indent=0)
    e = cfg.easy()
    for how in (dict(), dict(allow_unicode=True), dict(default_flow_style=True), dict(default_flow_style=False, indent=6), dict(default_style='"'), dict(width=20, allow_unicode=True), dict(explicit_start=True, explicit_end=True)):
        text = yaml.safe_dump(e, sort_keys=False, **how)
        yield "yaml", text
    yield "yaml", "# a comment\n\n" + yaml.safe_dump(e) + "\n# another\n"
    yield "yaml", yaml.safe_dump(e).replace("\n", "\r\n")
    yield "yaml", json.dumps(e)


FILES = ["x.json", "a b.json", "\u0905.json", "noextension", "x.yaml", "x.y.z", "[x].txt", "-x"]


def run_spellings(case, cov):
    name, order = case
    cfg = CFGS[name]
    d = tempfile.mkdtemp(dir=source_dir())
    texts = [("a",), ("ab",), ("?",), ("a", "\u0905 b")]
    for n, (kind, text) in enumerate(list(spellings(name))[::order]):
        path = os.path.join(d, FILES[n % len(FILES)] if order > 0 else "same")
        with open(path, "w", newline="") as f:
            f.write(text)
        for src in ([["json", text], ["json_file", path]] if kind == "json" else [["yaml_file", path]]):
            load = (lambda **kw: GT().loads(text, **kw)) if kind == "json" else (lambda **kw: GT().from_yaml_file(path, **kw))
            for flags, amb in AMB[:2]:
                for ts in texts:
                    judge(["transliterate", "--from"] + src + flags + list(ts), expected(load, amb, False, ts), "python", dict(config=name, spelling=text[:60]))
                if kind == "json":  # not a source for dumps
                    cov.add("transitions", len(texts))
                    continue
                want = outcome(lambda: load(check_ambiguity=amb).dumps())
                code, out = invoke(["dump", "--from"] + src + flags)
                if (code == 0) != (want[0] == "ok") or (code == 0 and out != want[1] + "\n"):
                    raise Bad("dump prints %.200r (status %r), library gives %.200r" % (out, code, want), config=name, args=[x[:60] for x in src + flags])
                cov.add("transitions", len(texts) + 1)
                cov.add("states", len(texts) + 1)
                cov.add("traces", len(texts) + 1)


def run_ignoring(case, cov):
    """Dumps that ignore errors, with explicit options."""
    kind, name = case
    src, load = source(kind, name)
    for flags, ign in IGN[1:]:
        for texts in [(t,) for t in TEXTS] + [("?a", "az"), ("a", "?")]:
            want = expected(load, False, ign, texts)
            for to, fmt in TO[:2]:
                judge(["transliterate", "--from"] + src + flags + to + ["--"] + list(texts), want, fmt, dict(source=(kind, name)))
                cov.add("transitions", 1)
                cov.add("states", 1)
                cov.add("traces", 1)


def run_generate(case, cov):
    """generate-tests prints the tests the library generates, or fails as it does."""
    import yaml
    import graphtransliterator.transliterators as T

    kind, name = case
    src, load = source(kind, name)
    for flags, amb in AMB:
        want = outcome(lambda: yaml.safe_load(T.Bundled.generate_yaml_tests(load(check_ambiguity=amb))))
        for frm in FROM:
            for args in (["generate-tests", frm] + src + flags, ["generate-tests"] + flags + [frm] + src):
                code, out = invoke(args)
                if (code == 0) != (want[0] == "ok"):
                    raise Bad("generate-tests ends with status %r, the library gives %.300r" % (code, want), args=args)
                if code == 0 and yaml.safe_load(out) != want[1]:
                    raise Bad("generate-tests prints %.300r, library gives %.300r" % (out, want[1]), args=args)
                cov.add("transitions", 1)
                cov.add("states", 1)
                cov.add("traces", 1)


def run_version(case, cov):
    import graphtransliterator

    code, out = invoke(["--version"])
    if code != 0 or graphtransliterator.__version__ not in out:
        raise Bad("--version ends with status %r and prints %r" % (code, out), version=graphtransliterator.__version__)
    cov.add("transitions", 1)
    cov.add("states", 1)
    cov.add("traces", 1)


def phases(tier):
    import graphtransliterator.transliterators as T

    big = tier == "thorough"
    P = itertools.product
    ns = list(T.iter_names())
    small = TEXTS[: 9 if big else 5]
    lists = [()] + [(t,) for t in TEXTS] + list(P(small, repeat=2)) + [("a", "b", "a"), ("a", "", "?"), ("ab",) * 5, ("?", "a", "b"), ("b a " * 2000,), ("a" * 9000, "b"), ("ab",) * 300, ("a" * 5000 + "?",)]
    short = [()] + [(t,) for t in TEXTS] + [("a", "b"), ("?", "a"), ("", ""), ("a", "a", "b")]
    some = [(), ("a",), ("?",), ("a", "az"), ("b", "?", "a")]
    cases = []
    for (k, n) in sources() + [("bundled", b) for b in ns]:
        for ai, amb in enumerate(AMB):
            for ii, ign in enumerate(IGN):
                if big:
                    ls = lists
                elif ai in (0, 1) and ii in (0, 1):
                    ls = lists if k == "yaml_file" and n in ("plain", "consolidating") else short
                else:
                    ls = some
                if not big and (k == "bundled" and n != "Example" or "json" in k and not n.endswith("2-0" if k == "json" else "1-0")):
                    if ai > 1 and ii > 1:
                        continue
                    ls = some
                cases.append((k, n, amb, ign, TO if big or ls is some else TO[:3], ls))
    dumps = [(k, n, amb, lv) for (k, n) in [("yaml_file", n) for n in CFGS] + [("bundled", b) for b in ns] for amb in AMB for lv in (None, 0, 1, 2, 3)]
    proc = [("yaml_file", "plain"), ("json_file", "consolidating-2-0"), ("json", "plain-1-0"), ("bundled", "Example")]
    return [
        Phase("transliterate", lambda: cases, run_transliterate, cpu_limit=300, note="transliterate: sources x options x argument lists, options in two orders"),
        Phase("ignoring", lambda: [(k, "%s-%d-1" % (n, lv)) for k in ("json", "json_file") for n in CFGS for lv in (0, 1, 2)], run_ignoring, cpu_limit=120, note="sources dumped with ignore_errors"),
        Phase("spellings", lambda: P(CFGS, (1, -1)), run_spellings, cpu_limit=200, note="the same settings spelled differently, in files of odd names, and in one file that changes between commands"),
        Phase("dump", lambda: dumps, run_dump, cpu_limit=120, note="dump: sources x options x levels"),
        Phase("generate", lambda: sources() + [("bundled", b) for b in ns], run_generate, cpu_limit=200, note="generate-tests: sources x options"),
        Phase("version", lambda: [()], run_version, note="--version"),
        Phase("scratch-bundled", lambda: P(CFGS, ("from_JSON", "from_YAML"), (("zeta",), ("beta", "alpha"))), run_bundled, cpu_limit=120, note="all commands on scratch bundled transliterators with right and wrong tests"),
        Phase("installed", lambda: [(n,) for n in ns], run_installed, cpu_limit=120, note="test, dump-tests, list-bundled on the installed ones; commands that must fail"),
        Phase("own-inputs", lambda: [(n,) for n in ns], run_bundled_inputs, cpu_limit=120, note="inputs of the installed transliterators' own tests"),
        Phase("processes", lambda: [(k, n, ign, to, ts) for (k, n) in (proc if big else proc[:2]) for ign in IGN[:2] for to in TO[:2] for ts in [("a",), ("ab", "?"), ("\u0905",), ()][: 4 if big else 3]], run_process, cpu_limit=120, note="the command in a process of its own"),
    ]
