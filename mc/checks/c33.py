import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import unicodedata

from mc.engine import REPO, Bad, Phase
from mc.impl import same_rules
from mc.ref import OM, Cfg, rule

ID = "C33"
LEVEL = "model_checking"
LAZY_IMPORT = True
RULE = (
    "cases = preferred encodings of the process x file contents; state = encoding x files; transition = one route of the implementation that reads or "
    "writes a file, compared with the result computed from the text; traces = encodings and contents for which all routes agreed"
)
ASSUMPTIONS = [
    "files are in UTF-8; the encoding of standard output is not part of the property (commands run with UTF-8 output)",
    "a preferred encoding is set by replacing locale.getpreferredencoding and its counterpart in the io module (phase contents), and by the environment "
    "of a new process (phase environments)",
    "scope: the encodings, environments and characters listed per phase",
]

ENCODINGS = ["ascii", "latin-1", "cp1252", "cp437", "cp932", "gbk", "gb18030", "big5", "euc-kr", "koi8-r", "utf-8", "utf-16", "utf-7"]
ENVIRONMENTS = [dict(LC_ALL=lc, PYTHONUTF8=u, PYTHONCOERCECLOCALE=c) for lc in ("C", "POSIX", "C.UTF-8", "") for u in ("0", "1", None) for c in ("0", "1")]
PKG = "scratch_lang"
INIT = """from graphtransliterator.transliterators import Bundled


class ScratchLang(Bundled):
    def __init__(self, **kwargs):
        self.from_JSON(**kwargs)
"""
_w = {}


def init(w):
    if _w:
        return
    root = tempfile.mkdtemp(dir=os.environ["MC_TMP"])
    base = os.path.join(root, "graphtransliterator")
    shutil.copytree(os.path.join(REPO, "graphtransliterator"), base, ignore=shutil.ignore_patterns("__pycache__"))
    d = os.path.join(base, "transliterators", PKG)
    os.makedirs(os.path.join(d, "tests"))
    _w.update(root=root, dir=d)
    write(CFGS["plain"])
    with open(os.path.join(d, "__init__.py"), "w") as f:
        f.write(INIT)
    sys.path.insert(0, root)
    sys.dont_write_bytecode = True
    import logging

    logging.disable(logging.CRITICAL)
    import graphtransliterator
    import graphtransliterator.cli as cli
    import graphtransliterator.transliterators as T

    assert os.path.dirname(graphtransliterator.__file__) == base, graphtransliterator.__file__
    from mc import impl

    _w.update(GT=impl.GT(), T=T, main=cli.main)


def write(cfg):
    """The files of the scratch transliterator, in UTF-8."""
    import yaml

    d = _w["dir"]

    def put(name, text):
        with open(os.path.join(d, name), "wb") as f:
            f.write(text.encode("utf-8"))

    text = yaml.safe_dump(cfg.easy(), allow_unicode=True, sort_keys=False)
    put(PKG + ".yaml", text)
    tests = tests_of(cfg)
    put(os.path.join("tests", PKG + "_tests.yaml"), yaml.safe_dump(tests, allow_unicode=True))
    return text, tests


def tests_of(cfg):
    out = {}
    ts = [t for t in cfg.tokens if t != " "]
    for i in range(0, len(ts), 5):
        w = "".join(ts[i : i + 5])
        out[w] = cfg.run(cfg.tokenize(w)[0], False)[2]
    return out


def cfg_of(chars, ws=" "):
    toks = {c: ("v\u00e9" if i % 2 else "v",) for i, c in enumerate(chars)}
    toks[" "] = ("wb",)
    rules = [rule("%s\u0905%d" % (c, i), [c]) for i, c in enumerate(chars)] + [rule("_", " ")]
    rules.append(rule("\u30a2" + chars[0], [chars[-1]], pt=[chars[0]]))
    oms = [OM(("v\u00e9",), ("v",), "\u200d"), OM(("v",), ("wb",), "\u2014")] if len(chars) > 1 else []
    return Cfg(toks, rules, oms, (ws, "wb", False), metadata={"name": "caf\u00e9", "by": ["".join(chars[:3])]})


SPECIAL = ["\u00e9", "\u00df", "\u00ff", "\u0101", "\u0416", "\u05d0", "\u0627", "\u0905", "\u0a95", "\u1ea4", "\u20ac", "\u3042", "\u4e2d", "\uac00", "\uff41", "\u0301", "\u200c", "\u2028", "\u00a0", "\U0001f600", "\U00010900", "\U0002070e", "\x7f", "\u00ad"]
CFGS = {"plain": cfg_of(["a", "b"])}


def clean(c):
    """Characters that easy reading notation and YAML allow as a token by itself."""
    return unicodedata.category(c)[0] in "LMNS" and c not in "<>+|$()[]\\^`~="


def single():
    for c in SPECIAL:
        if unicodedata.category(c)[0] in "LMNS":
            yield cfg_of([c])
            yield cfg_of(["a", c, c + c, c + "a"])


def blocks(step, lo=0x80, hi=0x30000):
    for start in range(lo, hi, 128 * step):
        chars = [chr(k) for k in range(start, min(start + 128, hi)) if not 0xD800 <= k < 0xE000 and clean(chr(k))]
        if len(chars) > 1:
            yield cfg_of(chars[:40])


class preferred:
    """The given encoding as the process's preferred one."""

    def __init__(self, enc):
        self.enc = enc

    def __enter__(self):
        import locale

        self.old = [(locale, locale.getpreferredencoding)]
        try:
            import _bootlocale

            self.old.append((_bootlocale, _bootlocale.getpreferredencoding))
        except ImportError:
            pass
        for m, _ in self.old:
            m.getpreferredencoding = lambda do_setlocale=True: self.enc

    def __exit__(self, *a):
        for m, f in self.old:
            m.getpreferredencoding = f


def takes_effect(enc):
    import codecs

    with open(os.path.join(_w["dir"], "__init__.py")) as f:
        return codecs.lookup(f.encoding).name == codecs.lookup(enc).name


def same(g, cfg, what, info, cov):
    cov.add("transitions", 1)
    if {t: set(cs) for t, cs in g.tokens.items()} != {t: set(cs) for t, cs in cfg.tokens.items()}:
        raise Bad("%s: tokens differ from those written" % what, got=g.tokens, **info)
    if sorted(map(repr, same_rules(g))) != sorted(map(repr, cfg.rules)):
        raise Bad("%s: rules differ from those written" % what, got=same_rules(g), **info)
    if (g.metadata or {}) != (cfg.metadata or {}) or len(g.onmatch_rules or ()) != len(cfg.onmatch):
        raise Bad("%s: metadata or on-match rules differ from those written" % what, got=g.metadata, **info)
    for x, y in info["tests"].items():
        if g.transliterate(x) != y:
            raise Bad("%s: wrong output" % what, input=x, got=g.transliterate(x), expected=y, **info)


def command(args, info):
    from click.testing import CliRunner

    r = CliRunner().invoke(_w["main"], args)
    if r.exit_code != 0:
        raise Bad("command %s fails: %r" % (args[0], r.exception), args=args, **info)
    return r.output


def routes(cfg, info, cov, text, tests):
    import yaml

    GT, d = _w["GT"], _w["dir"]
    ypath, jpath = os.path.join(d, PKG + ".yaml"), os.path.join(d, PKG + ".json")
    same(GT.from_yaml_file(ypath), cfg, "from_yaml_file", info, cov)
    j = json.dumps(json.loads(GT.from_yaml(text).dumps(info["level"])), ensure_ascii=False)
    with open(jpath, "wb") as f:
        f.write(j.encode("utf-8"))
    cls = _w["T"].ScratchLang
    for m in ("json", "yaml"):
        g = cls.new(method=m)
        same(g, cfg, "bundled " + m, info, cov)
        if g.load_yaml_tests() != tests:
            raise Bad("bundled %s: tests differ from those written" % m, got=g.load_yaml_tests(), **info)
        if g.run_yaml_tests() is not True:
            raise Bad("bundled %s: its tests fail" % m, **info)
    words = list(tests)
    for src, name in (("yaml_file", ypath), ("json_file", jpath), ("bundled", "ScratchLang")):
        out = json.loads(command(["transliterate", "-f", src, name, "-t", "json"] + words, info))
        if (out if len(words) > 1 else [out]) != [tests[w] for w in words]:
            raise Bad("transliterate from %s: wrong output" % src, got=out, **info)
        if yaml.safe_load(command(["generate-tests", "-f", src, name], info)) != yaml.safe_load(cls.generate_yaml_tests(GT.from_yaml(text))):
            raise Bad("generate-tests from %s differs from the library's tests" % src, **info)
        if src != "json_file":
            same(GT.loads(command(["dump", "-f", src, name], info)), cfg, "dump from " + src, info, cov)
    if json.loads(command(["dump-tests", "-t", "json", "ScratchLang"], info)) != tests or yaml.safe_load(command(["dump-tests", "ScratchLang"], info)) != tests:
        raise Bad("dump-tests differs from the tests written", **info)
    if "True" not in command(["test", "ScratchLang"], info):
        raise Bad("test does not succeed", **info)
    os.remove(jpath)
    command(["make-json", "ScratchLang"], info)
    with open(jpath, "rb") as f:
        raw = f.read()
    try:
        made = raw.decode("utf-8")
    except UnicodeDecodeError:
        raise Bad("make-json writes a file that is not in UTF-8", **info)
    same(GT.loads(made), cfg, "make-json", info, cov)
    cov.add("transitions", 9)


def run(case, cov):
    enc, level, cfg = case
    text, tests = write(cfg)
    info = dict(encoding=enc, level=level, tests=tests)
    with preferred(enc):
        if not takes_effect(enc):
            raise AssertionError("cannot set the preferred encoding")
        try:
            routes(cfg, info, cov, text, tests)
        except (UnicodeError, LookupError) as e:
            raise Bad("%s where the preferred encoding is %s" % (type(e).__name__, enc), error=str(e)[:200], **info)
    cov.add("states", 1)
    cov.add("traces", 1)


CHILD = """
import json, os, sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import graphtransliterator, graphtransliterator.transliterators as T
out = {}
for n in ["Example", "ITRANSDevanagariToUnicode", "ScratchLang"]:
    g, h = getattr(T, n)(), getattr(T, n).new(method="yaml")
    t = g.load_yaml_tests()
    out[n] = [g.run_yaml_tests(), h.run_yaml_tests(), t, json.loads(g.dumps(0)), json.loads(h.dumps(0)),
              json.loads(graphtransliterator.GraphTransliterator.from_yaml_file(os.path.join(g.directory, g.name + ".yaml")).dumps(0)),
              [g.transliterate(x) for x in t]]
print(json.dumps(out, sort_keys=True))
"""


def child(env):
    e = {k: v for k, v in os.environ.items() if k not in ("LC_ALL", "LANG", "LC_CTYPE", "PYTHONUTF8", "PYTHONCOERCECLOCALE")}
    e.update({k: v for k, v in env.items() if v is not None}, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", CHILD % _w["root"]], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=_w["root"], stdin=subprocess.DEVNULL)
    if r.returncode:
        return "fails: " + r.stderr.decode("utf-8", "replace").strip().splitlines()[-1][:200]
    return r.stdout.decode("utf-8").strip().splitlines()[-1]


def run_env(case, cov):
    env, cfg = case
    write(cfg)
    text, tests = write(cfg)
    j = json.dumps(json.loads(_w["GT"].from_yaml(text).dumps(0)), ensure_ascii=False)
    with open(os.path.join(_w["dir"], PKG + ".json"), "wb") as f:
        f.write(j.encode("utf-8"))
    want, got = child(dict(LC_ALL="C.UTF-8", PYTHONUTF8="1")), child(env)
    cov.add("transitions", 6)
    cov.add("states", 1)
    if want.startswith("fails"):
        raise Bad("bundled transliterators do not load and pass their tests: " + want)
    if got != want:
        raise Bad("bundled transliterators differ or fail in this environment", environment=env, got=got[:300])
    if json.loads(want)["ScratchLang"][2] != tests:
        raise Bad("tests differ from those written", environment=env)
    cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    encs = ENCODINGS if big else ["ascii", "latin-1", "cp1252", "cp932", "gb18030", "koi8-r", "utf-8"]
    return [
        Phase("contents", lambda: ((e, lv, c) for c in itertools.chain([CFGS["plain"]], single()) for e in encs for lv in (0, 2)), run, init=init, cpu_limit=120,
              note="single characters of many scripts in tokens, classes, productions and metadata, through every route that reads or writes files"),
        Phase("blocks", lambda: ((e, 1, c) for c in blocks(1 if big else 12) for e in (encs if big else ("ascii", "cp1252", "gb18030"))), run, init=init, cpu_limit=120, note="blocks of 128 code points"),
        Phase("environments", lambda: ((e, c) for e in ENVIRONMENTS for c in ([cfg_of(["a", "\u0905", "\u00e9"])] + (list(single())[::5] if big else []))), run_env, init=init, cpu_limit=300,
              note="new processes with every combination of locale, UTF-8 mode and locale coercion"),
    ]
