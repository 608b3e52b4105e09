"""Exhaustive-enumeration engine shared by all checks.

A check module defines
    ID, LEVEL, TITLE, RULE, ASSUMPTIONS
    phases(tier) -> list of Phase
Every phase enumerates a finite, deterministic list of cases completely.  The cases
are dealt out to forked workers by index.  A case that raises anything (Bad = the
property is violated; any other exception = the code under test failed where it must
not), exceeds its CPU limit, or kills its worker is a violation.
"""
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Bad(Exception):
    """The property is violated. `key` identifies the specific failing case."""

    def __init__(self, msg, key=None, **detail):
        Exception.__init__(self, msg)
        self.msg, self.key, self.detail = msg, key, detail


class CaseTimeout(BaseException):
    pass


class Phase:
    def __init__(self, name, cases, run, cpu_limit=30, init=None, note=""):
        self.name, self.cases, self.run = name, cases, run
        self.cpu_limit, self.init, self.note = max(cpu_limit, 150), init, note


class Cov:
    """Counters of one worker in one phase."""

    def __init__(self):
        self.n = {}
        self.samples = []

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj() if callable(obj) else obj)


def known_findings(prop):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                if key.startswith("key="):
                    out[key[4:]] = what
    return out


def use_repo():
    """Import graphtransliterator from the working tree of the repository."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)


def scratch_package(tmp):
    """Copy the package to `tmp` and import it from there (nothing writes to /repo)."""
    dst = os.path.join(tmp, "graphtransliterator")
    shutil.copytree(
        os.path.join(REPO, "graphtransliterator"),
        dst,
        ignore=shutil.ignore_patterns("__pycache__"),
    )
    sys.path.insert(0, tmp)
    import logging

    logging.disable(logging.CRITICAL)
    import graphtransliterator

    assert os.path.dirname(graphtransliterator.__file__) == dst
    return dst


def in_child(fn, *args):
    """Run fn(*args) in a forked child; return its result or raise its exception."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ("ok", fn(*args))
            except Bad as e:
                res = ("bad", (e.msg, e.key, e.detail))
            except BaseException as e:  # noqa
                res = ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        except BaseException:  # noqa
            code = 3
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except CaseTimeout:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Bad("the process running the case died (status %s)" % status)
    kind, val = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "bad":
        raise Bad(val[0], val[1], **val[2])
    raise Bad("unexpected exception " + val)


def describe(x, limit=1500):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


def _run_case(ph, case, cov):
    """Returns None or (msg, key, detail)."""

    def handler(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, ph.cpu_limit)
    try:
        ph.run(case, cov)
        return None
    except Bad as e:
        return e.msg, e.key, e.detail
    except CaseTimeout:
        return "does not terminate (over %s s of CPU on one case)" % ph.cpu_limit, None, {}
    except MemoryError:
        return "runs out of memory", None, {}
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        return (
            "unexpected exception %s: %s" % (type(e).__name__, str(e)[:500]),
            None,
            {"traceback": traceback.format_exc()[-3000:]},
        )
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _worker(check, phases, w, nw, shm, resfile, findings):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(3000)
    res = {"phases": [], "violation": None, "known": []}
    for pi, ph in enumerate(phases):
        cov = Cov()
        cov.n["cases"] = 0
        t0 = time.time()
        if ph.init:
            ph.init(w)
        for ci, case in enumerate(ph.cases()):
            if ci % nw != w:
                continue
            shm[w * 16 : w * 16 + 16] = struct.pack("qq", pi, ci)
            cov.n["cases"] += 1
            cpu = time.process_time()
            bad = _run_case(ph, case, cov)
            cpu = time.process_time() - cpu
            if cpu > ph.cpu_limit / 5 and os.environ.get("MC_TIMES"):
                sys.stderr.write("SLOW %s %s %d: %.0f s of %s\n" % (check.ID, ph.name, ci, cpu, ph.cpu_limit))
            if bad:
                msg, key, detail = bad
                if key and key in findings:
                    if (key, findings[key]) not in res["known"]:
                        res["known"].append((key, findings[key]))
                    continue
                res["violation"] = {
                    "phase": ph.name,
                    "index": ci,
                    "case": describe(case, 6000),
                    "message": msg,
                    "key": key,
                    "detail": {k: describe(v, 3000) for k, v in detail.items()},
                }
                break
            if ci < 3 * nw:
                cov.sample(lambda: {"phase": ph.name, "index": ci, "case": describe(case, 500)}, 1)
        shm[w * 16 : w * 16 + 16] = struct.pack("qq", pi, -2)
        res["phases"].append((ph.name, cov.n, cov.samples, time.time() - t0))
        if res["violation"]:
            break
    with open(resfile + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(resfile + ".tmp", resfile)


def run_check(check, tier, only=None, nw=None):
    t0 = time.time()
    nw = nw or int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    findings = known_findings(check.ID)
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % check.ID)
    os.environ["MC_TMP"] = tmp
    try:
        return _run_check(check, tier, only, nw, findings, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run_check(check, tier, only, nw, findings, tmp, t0):
    violation = None
    known = []
    agg = {}
    if not getattr(check, "LAZY_IMPORT", False):
        use_repo()
        try:
            import graphtransliterator
            import graphtransliterator.transliterators  # noqa

            where = os.path.dirname(os.path.abspath(graphtransliterator.__file__))
            if where != os.path.join(REPO, "graphtransliterator"):
                print("ERROR imported from %s" % where)
                return 2
        except Exception as e:  # the package cannot even be used
            violation = {
                "phase": "import",
                "index": 0,
                "case": "import graphtransliterator",
                "message": "cannot be imported: %r" % e,
                "key": None,
                "detail": {"traceback": traceback.format_exc()},
            }
    phases = []
    if violation is None:
        box = []
        setup = Phase("setup", None, lambda case, cov: box.extend(check.phases(tier)), cpu_limit=300)
        bad = _run_case(setup, None, Cov())  # may build transliterators
        if bad:
            violation = {
                "phase": "setup",
                "index": 0,
                "case": "preparing the cases",
                "message": bad[0],
                "key": None,
                "detail": bad[2],
            }
        phases = [p for p in box if not only or p.name in only]
    if violation is None:
        shm = mmap.mmap(-1, 16 * nw)
        pids = {}
        sys.stdout.flush()
        for w in range(nw):
            shm[w * 16 : w * 16 + 16] = struct.pack("qq", 0, -1)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    devnull = os.open(os.devnull, os.O_RDONLY)
                    os.dup2(devnull, 0)
                    _worker(check, phases, w, nw, shm, os.path.join(tmp, "res%d" % w), findings)
                except BaseException:  # noqa
                    traceback.print_exc()
                    code = 4
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            pids[pid] = w
        last = {}
        results = {}
        while pids and violation is None:
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            now = time.time()
            if pid:
                w = pids.pop(pid)
                path = os.path.join(tmp, "res%d" % w)
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        results[w] = pickle.load(f)
                    if results[w]["violation"]:
                        violation = results[w]["violation"]
                else:
                    pi, ci = struct.unpack("qq", shm[w * 16 : w * 16 + 16])
                    violation = _stuck(phases, pi, ci, "the worker process died (status %s)" % status)
                continue
            for p, w in pids.items():
                cur = shm[w * 16 : w * 16 + 16]
                if last.get(w, (None, 0))[0] != cur:
                    last[w] = (cur, now)
                elif now - last[w][1] > 200:
                    pi, ci = struct.unpack("qq", cur)
                    violation = _stuck(phases, pi, ci, "no progress for 200 s on one case")
            time.sleep(0.02)
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(p, 0)
        order = {p.name: i for i, p in enumerate(phases)}
        for w in sorted(results):
            for k in results[w]["known"]:
                if k not in known:
                    known.append(k)
            for name, n, samples, dt in results[w]["phases"]:
                a = agg.setdefault(name, {"n": {}, "samples": [], "s": 0})
                for k, v in n.items():
                    a["n"][k] = a["n"].get(k, 0) + v
                a["samples"] += samples
                a["s"] = max(a["s"], dt)
        agg = {k: agg[k] for k in sorted(agg, key=lambda x: order[x])}

    total = {}
    for a in agg.values():
        for k, v in a["n"].items():
            total[k] = total.get(k, 0) + v
    samples = []
    for a in agg.values():
        samples += a["samples"][:2]
    cov = {}
    if check.LEVEL == "model_checking":
        cov["states"] = total.get("states", 0)
        cov["transitions"] = total.get("transitions", 0)
        cov["traces_validated_against_impl"] = total.get("traces", 0)
    else:
        cov["evaluations"] = total.get("evaluations", total.get("cases", 0))
        cov["distinct_nontrivial"] = total.get("nontrivial", 0)
    cov["rule"] = check.RULE
    cov["samples"] = samples[:12]
    cov["exhaustive"] = violation is None
    cov["phases"] = [
        dict(name=k, note=next((p.note for p in phases if p.name == k), ""), wall_s=round(a["s"], 2), **a["n"])
        for k, a in agg.items()
    ]
    ev = {
        "property": check.ID,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": check.LEVEL,
        "coverage": cov,
        "assumptions": list(check.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", check.ID + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (check.ID, what))
    for k, a in agg.items():
        print("%s %-28s %6.1fs %s" % (check.ID, k, a["s"], " ".join("%s=%s" % i for i in a["n"].items())))
    if violation:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        rp = os.path.join(VERIF, "out", "%s-%s.json" % (check.ID, tier))
        with open(rp, "w") as f:
            json.dump(dict(violation, property=check.ID, tier=tier), f, indent=1)
            f.write("\n")
        print("  phase %(phase)s, case %(index)s: %(message)s" % violation)
        print("  case: %s" % violation["case"][:1500])
        for k, v in violation["detail"].items():
            print("  %s: %s" % (k, v[:1500]))
        print("VIOLATION property=%s replay=%s" % (check.ID, rp))
        return 1
    print("OK property=%s tier=%s wall=%.1fs" % (check.ID, tier, time.time() - t0))
    return 0


def _stuck(phases, pi, ci, msg):
    case = None
    ph = phases[pi] if 0 <= pi < len(phases) else None
    if ph is not None and ci >= 0:
        for i, c in enumerate(ph.cases()):
            if i == ci:
                case = c
                break
    return {
        "phase": ph.name if ph else "?",
        "index": ci,
        "case": describe(case, 6000),
        "message": msg,
        "key": None,
        "detail": {},
    }


def replay(check, path):
    rec = json.load(open(path))
    if not getattr(check, "LAZY_IMPORT", False):
        use_repo()
    os.environ["MC_TMP"] = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        for ph in check.phases(rec["tier"]):
            if ph.name != rec["phase"]:
                continue
            if ph.init:
                ph.init(0)
            for ci, case in enumerate(ph.cases()):
                if ci == rec["index"]:
                    bad = _run_case(ph, case, Cov())
                    print("case: %s" % describe(case, 6000))
                    if bad:
                        print("reproduced: %s" % bad[0])
                        for k, v in bad[2].items():
                            print("  %s: %s" % (k, v if k == "traceback" else describe(v, 3000)))
                        return 1
                    print("not reproduced: the property held on this case")
                    return 0
        print("no such case")
        return 2
    finally:
        shutil.rmtree(os.environ["MC_TMP"], ignore_errors=True)
