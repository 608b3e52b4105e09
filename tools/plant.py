#!/usr/bin/env python3
"""Make and verify planted bugs.  usage: plant.py [-k] [ID ...]

Reads tools/plant_defs.py (a list BUGS of dicts: id, property, needs, breaks, edits [(file, old, new)], demo) and, for
each, works in a scratch copy of /repo: applies the edits, checks that only original lines change, that the tests pass,
that the demonstration passes on the unchanged copy and fails on the changed one; writes seeded/<id>/; then runs the
property's quick check against the changed copy (MC_REPO) and says whether it is caught (-k: skip that).
"""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv-pypy/bin/python"
PRE = '''import os, sys, json, tempfile, contextlib, io, logging
logging.disable(logging.CRITICAL)
import graphtransliterator
assert os.path.dirname(os.path.dirname(os.path.abspath(graphtransliterator.__file__))) == os.path.realpath(os.getcwd()), graphtransliterator.__file__
from graphtransliterator import *
from graphtransliterator.exceptions import *
from graphtransliterator import GraphTransliterator, CoverageTransliterator, DirectedGraph
WS = {"default": " ", "token_class": "wb", "consolidate": False}
def easy(tokens, rules, onmatch=None, ws=WS, **kw):
    d = {"tokens": tokens, "rules": rules, "whitespace": dict(ws)}
    if onmatch: d["onmatch_rules"] = onmatch
    return GraphTransliterator.from_easyreading_dict(d, **kw)
def put(path, text):
    with open(path, "w") as f: f.write(text)
def read(path):
    with open(path) as f: return f.read()
def raises(exc, f, *a, **k):
    try: f(*a, **k)
    except exc: return True
    return False
def eq(got, want):
    assert got == want, "got %r, wanted %r" % (got, want)
'''
SH = '''#!/bin/sh
# Run in the repository's directory. Exits 0 if the property holds for this case.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8
exec /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"
'''

def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1"); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def original_only(repo, patch):
    """Every removed line must come from the base commit, and there must be one."""
    base = run(["git", "rev-list", "--max-parents=0", "HEAD"], REPO)[1].split()[0]
    f = None; n = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, c = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
            if c == 0: continue
            out = run(["git", "blame", "-s", "-l", "-L", "%d,%d" % (a, a + c - 1), f], REPO)[1]
            for o in out.splitlines():
                n += 1
                if not o.lstrip("^").startswith(base[:39]): return "line not original: " + o
    return None if n else "no original line changed"

def do(b, check=True):
    d = os.path.join(VERIF, "seeded", b["id"]); msgs = []
    t = tempfile.mkdtemp(prefix="plant-"); r = os.path.join(t, "repo")
    try:
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = run([d + "/demo.sh"], r)
        if rc != 0: return b, "BAD demo fails unpatched: " + out[-800:]
        for f, old, new in b["edits"]:
            p = os.path.join(r, "graphtransliterator", f); s = open(p).read()
            if s.count(old) != 1: return b, "BAD edit matches %d times in %s: %r" % (s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        patch = run(["git", "diff"], r)[1]; u0 = run(["git", "diff", "-U0"], r)[1]
        bad = original_only(r, u0)
        if bad: return b, "BAD " + bad
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        rc, out = run(["git", "apply", "--check", os.path.join(d, "patch.diff")], REPO)
        if rc: return b, "BAD apply " + out
        rc, out = run([d + "/demo.sh"], r)
        if rc == 0: return b, "BAD demo passes when patched"
        demo = out.strip().splitlines()[-1:]
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--doctest-modules",
                       "--basetemp=" + t + "/pt", "tests", "graphtransliterator"], r,
                      {"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8"})
        if rc or "35 passed" not in out: return b, "BAD tests: " + out[-1500:]
        if not check: return b, "ok %s" % demo
        rc, out = run([VERIF + "/check", b["property"], "quick"], VERIF,
                      {"MC_REPO": r, "VERIF_SEED": "1", "VERIF_TIER": "quick", "MC_EVIDENCE": t + "/ev"}, 1500)
        v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % b["property"])]
        if rc == 1 and v: return b, "CAUGHT"
        return b, "MISSED rc=%s %s" % (rc, "" if rc == 0 else out[-1500:])
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]; k = "-k" in a; a = [x for x in a if x != "-k"]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import plant_defs2  # noqa
    import plant_defs3  # noqa
    import plant_defs4  # noqa
    import plant_defs5  # noqa
    import plant_defs6  # noqa
    import plant_defs7  # noqa
    import plant_defs8, plant_defs9  # noqa
    from plant_defs import BUGS
    assert len({b["id"] for b in BUGS}) == len(BUGS)
    todo = [b for b in BUGS if not a or b["id"] in a or b["property"] in a]
    with cf.ThreadPoolExecutor(4) as ex:
        for f in cf.as_completed([ex.submit(do, b, not k) for b in todo]):
            b, m = f.result(); print(b["id"], b["property"], m, flush=True)
            if not k:
                p = os.path.join(VERIF, "tools", "seeded_results.json")
                res = json.load(open(p)) if os.path.exists(p) else {}
                res[b["id"]] = {"CAUGHT": "catches it"}.get(m, "misses it" if m.startswith("MISSED rc=0") else m.split()[0])
                json.dump({i: res[i] for i in sorted(res) if os.path.isdir(os.path.join(VERIF, "seeded", i))}, open(p, "w"), indent=1)
