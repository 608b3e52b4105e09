import copy
import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, onmatch_list, same_rules
from mc.ref import OM, Cfg, R, need, rule

ID = "C17"
LEVEL = "model_checking"
RULE = (
    "cases = valid settings x one fault (fault pairs are explored within the case); state = settings after applying a set of faults to "
    "every possible location; transition = one construction on the implementation; traces = constructions with the predicted verdict"
)
ASSUMPTIONS = [
    "values the schema library converts without loss (tuples or mappings for lists, 0/1 and yes/no words for booleans, bytes for text) do not count as wrongly typed, nor does null for an optional part",
    "sections and keys that are not defined at all are not considered",
    "scope: the base settings and fault kinds listed in the check, alone and in pairs",
]

UNDEF = ["zz", "", "A", "aa", "a ", "<v>", "v k"]
TXT = [1, None, [], {}, 1.5, True, ["a"]]
LST = ["a", 1, None, True, [1], [None], [["a"]]]
MAP = [[], "a", 1, None, True, ["a"]]
BOOL = ["maybe", 2, None, [], {}, ""]


def get(d, path):
    for p in path:
        d = d[p]
    return d


class Fault:
    def __init__(self, name, path, op, value=None):
        self.name, self.path, self.op, self.value = name, path, op, value

    def __repr__(self):
        return "%s at %s%s" % (self.name, "/".join(map(str, self.path)), "" if self.value is None else " (%r)" % (self.value,))

    def apply(self, s):
        """Whether it could be applied (its place may be gone)."""
        try:
            parent = get(s, self.path[:-1])
            key = self.path[-1]
            if self.op == "del":
                del parent[key]
            elif self.op == "set":
                if isinstance(parent, list):
                    if not isinstance(key, int) or key >= len(parent):
                        return False
                elif not isinstance(parent, dict):
                    return False
                if isinstance(parent, dict) and key not in parent and self.name != "added":
                    return False
                parent[key] = copy.deepcopy(self.value)
            elif self.op == "append":
                get(s, self.path).append(copy.deepcopy(self.value))
            elif self.op == "prepend":
                get(s, self.path).insert(0, copy.deepcopy(self.value))
            elif self.op == "rename":
                if key not in parent:
                    return False
                items = list(parent.items())
                parent.clear()
                for k, v in items:
                    parent[self.value if k == key else k] = v
            return True
        except (KeyError, IndexError, TypeError, AttributeError):
            return False


def faults_list_of_names(path, what, must=False):
    out = [Fault("wrong type", path, "set", v) for v in LST if not (v is None and not must)]
    for u in UNDEF:
        out.append(Fault("undefined " + what, path, "append", u))
        out.append(Fault("undefined " + what, path, "prepend", u))
    out.append(Fault("wrong type", path, "append", 3))
    return out


def direct_faults(s):
    out = [Fault("lacks", (k,), "del") for k in ("tokens", "rules", "whitespace")]
    out += [Fault("wrong type", ("tokens",), "set", v) for v in MAP]
    out += [Fault("wrong type", ("rules",), "set", v) for v in ["a", 1, None, True, ["a"], [None], [[]], {"a": "A"}]]
    out += [Fault("wrong type", ("whitespace",), "set", v) for v in MAP]
    if "metadata" in s:
        out += [Fault("wrong type", ("metadata",), "set", v) for v in [[], "a", 1, True]]
        out.append(Fault("added", ("metadata", 1), "set", "x"))
    out.append(Fault("added", ("tokens", ""), "set", []))
    out.append(Fault("added", ("tokens", ""), "set", ["v"]))
    out.append(Fault("added", ("tokens", 5), "set", ["v"]))
    out.append(Fault("added", ("tokens", None), "set", ["v"]))
    for t in s["tokens"]:
        out += [Fault("wrong type", ("tokens", t), "set", v) for v in ["v", 1, None, True, [1], [None], [["v"]]]]
        used = any(t in (r.get(k) or ()) for r in s["rules"] for k in ("tokens", "prev_tokens", "next_tokens")) or s["whitespace"]["default"] == t
        if used:
            out.append(Fault("undefines a used token", ("tokens", t), "del"))
            out.append(Fault("undefines a used token", ("tokens", t), "rename", "zz"))
        out.append(Fault("empties a token", ("tokens", t), "rename", ""))
    mentioned = {c for r in s["rules"] + s.get("onmatch_rules", []) for k in ("prev_classes", "next_classes") for c in (r.get(k) or ())} | {s["whitespace"]["token_class"]}
    for t, cs in s["tokens"].items():
        for i, c in enumerate(cs):
            if c in mentioned and sum(list(v).count(c) for v in s["tokens"].values()) == 1:
                out.append(Fault("undefines a used class", ("tokens", t, i), "del"))
                out.append(Fault("undefines a used class", ("tokens", t, i), "set", c + c))
            out.append(Fault("wrong type", ("tokens", t, i), "set", 1))
    for k in ("default", "token_class", "consolidate"):
        out.append(Fault("lacks", ("whitespace", k), "del"))
    for k in ("default", "token_class"):
        out += [Fault("wrong type", ("whitespace", k), "set", v) for v in TXT]
        out += [Fault("undefined whitespace " + k, ("whitespace", k), "set", v) for v in UNDEF]
    out.append(Fault("undefined whitespace default", ("whitespace", "default"), "set", s["whitespace"]["token_class"]))
    out.append(Fault("undefined whitespace token_class", ("whitespace", "token_class"), "set", s["whitespace"]["default"]))
    out += [Fault("wrong type", ("whitespace", "consolidate"), "set", v) for v in BOOL]
    for i, r in enumerate(s["rules"]):
        p = ("rules", i)
        out += [Fault("wrong type", p, "set", v) for v in ["a", 1, None, [], True, {}]]
        out += [Fault("lacks", p + (k,), "del") for k in ("production", "tokens")]
        out += [Fault("wrong type", p + ("production",), "set", v) for v in TXT]
        out += [Fault("added", p + ("cost",), "set", v) for v in ["a", "", [], [1], {}, True, False]]
        out.append(Fault("rule with no tokens", p + ("tokens",), "set", []))
        out += faults_list_of_names(p + ("tokens",), "token", True)
        for j in range(len(r["tokens"])):
            out += [Fault("undefined token", p + ("tokens", j), "set", u) for u in UNDEF[:2] + ["wb"]]
            out.append(Fault("wrong type", p + ("tokens", j), "set", None))
        for k in ("prev_tokens", "next_tokens"):
            if r.get(k):
                out += faults_list_of_names(p + (k,), "token")
                for j in range(len(r[k])):
                    out += [Fault("undefined token", p + (k, j), "set", u) for u in UNDEF[:2] + ["wb"]]
            else:
                out += [Fault("added", p + (k,), "set", [u]) for u in UNDEF[:3] + [1]]
                out += [Fault("added", p + (k,), "set", v) for v in ("a", 1)]
        for k in ("prev_classes", "next_classes"):
            if r.get(k):
                out += faults_list_of_names(p + (k,), "class")
                for j in range(len(r[k])):
                    out += [Fault("undefined class", p + (k, j), "set", u) for u in UNDEF[:2] + [" "]]
            else:
                out += [Fault("added", p + (k,), "set", [u]) for u in UNDEF[:3] + [" ", 1]]
                out += [Fault("added", p + (k,), "set", v) for v in ("v", 1)]
    for i, r in enumerate(s.get("onmatch_rules", [])):
        p = ("onmatch_rules", i)
        out += [Fault("wrong type", p, "set", v) for v in ["a", 1, None, [], True, {}]]
        out += [Fault("lacks", p + (k,), "del") for k in ("production", "prev_classes", "next_classes")]
        out += [Fault("wrong type", p + ("production",), "set", v) for v in TXT]
        for k in ("prev_classes", "next_classes"):
            out += faults_list_of_names(p + (k,), "class", True)
            out.append(Fault("on-match rule with an empty side", p + (k,), "set", []))
            for j in range(len(r[k])):
                out += [Fault("undefined class", p + (k, j), "set", u) for u in UNDEF[:2] + [" "]]
    if "onmatch_rules" in s:
        out += [Fault("wrong type", ("onmatch_rules",), "set", v) for v in ["a", 1, True, ["a"], [None]]]
        good = {"prev_classes": ["wb"], "next_classes": ["wb"], "production": "x"}
        for k in ("prev_classes", "next_classes"):
            out.append(Fault("undefined class", ("onmatch_rules",), "append", dict(good, **{k: ["zz"]})))
            out.append(Fault("on-match rule with an empty side", ("onmatch_rules",), "prepend", dict(good, **{k: []})))
    out.append(Fault("rule with no tokens", ("rules",), "append", {"production": "x", "tokens": []}))
    out.append(Fault("undefined token", ("rules",), "append", {"production": "x", "tokens": ["zz"]}))
    out.append(Fault("undefined class", ("rules",), "append", {"production": "x", "tokens": [s["whitespace"]["default"]], "prev_classes": ["zz"]}))
    return out


BAD_KEYS = ["a <v> zz", "zz <v> a", "a <v> zz <k>", "a (a <v> zz)", "a (a <v> zz <k>)", "a <v> (zz)", "<v> zz <k> a", "(<v> zz <k> a) a", "", "zz", "zz a", "a zz", "(zz) a", "a (zz)", "(a zz) a", "a (a zz)", "<zz> a", "a <zz>", "<v> <zz> a", "a <v> <zz>", "(<zz> a) a", "a (a <zz>)", "(<v> <zz> a) b", "b (a <zz> <v>)", "  ", "(zz) a (b)", "(a) zz (b)", "(a) b (zz)", "<v> zz <k>", "(<v> zz) a (b <k>)", "(<v> a) b (zz <k>)"]
BAD_ONMATCH = ["", "+", "<v>", "<v> <k>", "<v> +", "+ <v>", " + ", "<v> + < >", "< > + <v>", "<> + <v>", "<v> + <>", "v + k", "<v> + k", "v + <k>", "<zz> + <v>", "<v> + <zz>", "<v> <zz> + <k>", "<v> + <k> <zz>", "<zz> <v> + <k>", "a", "<v> <v>", "<a> + <b>"]


def easy_faults(s):
    out = [Fault("lacks", (k,), "del") for k in ("tokens", "rules", "whitespace")]
    out += [Fault("wrong type", (k,), "set", v) for k in ("tokens", "rules", "whitespace") for v in MAP]
    if "metadata" in s:
        out += [Fault("wrong type", ("metadata",), "set", v) for v in [[], "a", 1, True]]
    out.append(Fault("added", ("tokens", ""), "set", ["v"]))
    out.append(Fault("added", ("tokens", 5), "set", ["v"]))
    for t in s["tokens"]:
        out += [Fault("wrong type", ("tokens", t), "set", v) for v in ["v", 1, None, True, [1], [None], [["v"]]]]
        out.append(Fault("empties a token", ("tokens", t), "rename", ""))
        out.append(Fault("undefines a used token", ("tokens", t), "rename", "zz"))
    for k in ("default", "token_class", "consolidate"):
        out.append(Fault("lacks", ("whitespace", k), "del"))
    for k in ("default", "token_class"):
        out += [Fault("wrong type", ("whitespace", k), "set", v) for v in TXT]
        out += [Fault("undefined whitespace " + k, ("whitespace", k), "set", v) for v in UNDEF]
    out += [Fault("wrong type", ("whitespace", "consolidate"), "set", v) for v in BOOL]
    for k in s["rules"]:
        out += [Fault("wrong type", ("rules", k), "set", v) for v in TXT]
        out += [Fault("wrong type", ("rules", k), "rename", v) for v in (1, None, True, 1.5)]
        out += [Fault("bad rule", ("rules", k), "rename", v) for v in BAD_KEYS]
        out.append(Fault("undefined token", ("rules", k), "rename", k + " zz"))
        out.append(Fault("undefined token", ("rules", k), "rename", "zz " + k))
    out += [Fault("added", ("rules", k), "set", "x") for k in BAD_KEYS]
    for i, om in enumerate(s.get("onmatch_rules", [])):
        (k,) = om
        p = ("onmatch_rules", i)
        out += [Fault("wrong type", p, "set", v) for v in ["a", 1, None, [], True]]
        out += [Fault("not one rule in an item", p, "set", v) for v in [{}, {k: om[k], k.replace("<", "<", 1) + " ": "x"}, {"<%s> + <%s>" % (c, c): "x" for c in sorted(s["tokens"][t0] for t0 in s["tokens"] if s["tokens"][t0])[0][:1] + [s["whitespace"]["token_class"]]}]]
        out += [Fault("wrong type", p + (k,), "set", v) for v in TXT]
        out += [Fault("wrong type", p + (k,), "rename", v) for v in (1, None)]
        out += [Fault("bad on-match rule", p + (k,), "rename", v) for v in BAD_ONMATCH]
    if "onmatch_rules" in s:
        out += [Fault("wrong type", ("onmatch_rules",), "set", v) for v in ["a", 1, True, ["a"], [None]]]
        out += [Fault("bad on-match rule", ("onmatch_rules",), o, {k: "x"}) for k in BAD_ONMATCH for o in ("append", "prepend")]
    return out


META = {"name": "n", "list": [1]}
# every token and class is mentioned; " " only as default whitespace
BASES = [
    Cfg(
        {"a": ("v",), "b": ("v", "k"), " ": ("wb",)},
        [rule("A", "a"), rule("B", "b"), rule("x", "ab", pc=["v", "k"], pt="ba", nt="b", nc=["k", "wb"])],
        [OM(("v",), ("k",), "+"), OM(("wb", "v"), ("v", "v"), "")],
        metadata=META,
    ),
    Cfg({"a": ("v",), "b": ("k",), " ": ("wb", "x")}, [rule("A", "a", pc=["x"]), rule("B", "b", nt="a"), rule(" ", " ", nc=["k"])], ws=(" ", "wb", True)),
    # four items in every part (single faults only)
    Cfg(
        {"a": ("v", "m"), "b": ("k", "m"), "c": ("v", "k", "m"), " ": ("wb",)},
        [rule("A", "a"), rule("B", "b"), rule("C", "c"), rule("x", "abca", pc=["v", "k", "m", "wb"], pt="bcab", nt="caca", nc=["m", "wb", "v", "k"]),
         rule("y", "abcb", pc=["m", "m", "m", "v"]), rule("z", "abcc", nc=["m", "m", "k", "v"])],
        [OM(("v", "k", "m", "wb"), ("k", "wb", "v", "m"), "+"), OM(("m", "m", "m"), ("m", "m", "m"), "-"), OM(("v",), ("v",), "=")],
        metadata=META,
    ),
    # many of everything
    Cfg(
        dict([("t%02d" % i, ("c%d" % i, "c%d" % (i % 7), "d")) for i in range(70)] + [(" ", ("wb",))]),
        [rule("R%d" % i, ["t%02d" % i] + ["t%02d" % j for j in range(i % 3)], pc=["c%d" % i] * (i % 2), nt=["t%02d" % (69 - i)] * (i % 4)) for i in range(70)],
        [OM(("c%d" % i,), ("d", "c%d" % (69 - i)), "+%d" % i) for i in range(65)],
        metadata=META,
    ),
]
FEW = (0, 1, 35, 49, 50, 64, 69)


def wanted(i, f):
    """Of the large settings, faults in a few places."""
    if i < 3 or len(f.path) < 2:
        return True
    if f.path[0] in ("rules", "onmatch_rules"):
        k = f.path[1]
        if isinstance(k, str):
            k = int(k.split("t")[1][:2]) if "t" in k[1:4] or k[:1] == "t" else 0
        return k in FEW and f.name[:5] in ("undef", "lacks", "on-ma", "rule ", "bad r", "bad o") and "zz" in repr(f.value or "zz")
    return f.path[0] != "tokens" or f.path[1] in ("", 5, "t00", "t69", "t50", " ") and not isinstance(f.value, bool)


def settings(i, kind):
    c = BASES[i]
    s = c.settings() if kind == "direct" else c.easy()
    if not c.onmatch:
        s.pop("onmatch_rules", None)
    return s


_f = {}


def faults(i, kind):
    if (i, kind) not in _f:
        fs = (direct_faults if kind == "direct" else easy_faults)(settings(i, kind))
        _f[i, kind] = [x for x in fs if wanted(i, x)]
    return _f[i, kind]


def construct(s, kind):
    if kind == "direct":
        return GT().from_dict(s, check_ambiguity=False)
    if kind == "easy":
        return GT().from_easyreading_dict(s, check_ambiguity=False)
    import yaml

    return GT().from_yaml(yaml.safe_dump(s, allow_unicode=True, sort_keys=False), charnames_escaped=False, check_ambiguity=False)


def must_reject(s, kind, cov, info):
    from marshmallow import ValidationError

    cov.add("states", 1)
    cov.add("transitions", 1)
    try:
        g = construct(copy.deepcopy(s), kind)
    except ValidationError:
        cov.add("traces", 1)
        return
    except Exception as e:
        raise Bad("malformed settings raise %s: %s, not ValidationError" % (type(e).__name__, str(e)[:200]), settings=s, kind=kind, **info)
    raise Bad("malformed settings are accepted", settings=s, kind=kind, rules=[str(r) for r in g.rules], **info)


def run_single(case, cov):
    i, kind, n = case
    f = faults(i, "direct" if kind == "direct" else "easy")[n]
    s = settings(i, "direct" if kind == "direct" else "easy")
    if not f.apply(s):
        raise AssertionError("fault cannot be applied: %r" % f)
    must_reject(s, kind, cov, dict(fault=f))


def run_double(case, cov):
    i, kind, n, stride = case
    fs = faults(i, kind)
    f = fs[n]
    for m in range(len(fs)):
        if m == n or (n + m) % stride:
            continue
        s = settings(i, kind)
        if not f.apply(s):
            return
        if same_place(f, fs[m]) or not fs[m].apply(s):
            continue
        must_reject(s, kind, cov, dict(faults=(f, fs[m])))


def same_place(f, g):
    """The second might undo the first."""
    n = min(len(f.path), len(g.path))
    if f.path[:n] == g.path[:n]:
        return True
    # defining what the other leaves undefined
    return g.op == "rename" and g.value == "zz" or f.op == "rename" and f.value == "zz" or (
        "undefines" in f.name or "undefines" in g.name) or (f.path[0] == "tokens" or g.path[0] == "tokens")


def run_accept(case, cov):
    """Well-formed settings, optional parts present or absent in every combination."""
    cfg, kind, onmatch, meta, shape = case
    c = cfg.replace(onmatch=cfg.onmatch if onmatch == "full" else (), metadata=meta)
    if kind == "direct":
        s = c.settings()
        for r in s["rules"]:
            for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes"):
                if k not in r and shape in ("null", "empty"):
                    r[k] = None if shape == "null" else []
        if onmatch == "absent":
            s.pop("onmatch_rules")
    else:
        s = c.easy()
        if onmatch == "empty":
            s["onmatch_rules"] = []
    cov.add("states", 1)
    cov.add("transitions", 1)
    g = construct(s, kind)
    if same_rules(g) != sorted(c.rules, key=lambda r: -need(r)) or onmatch_list(g) != list(c.onmatch):
        raise Bad("accepted with other rules", settings=s, got=same_rules(g))
    if (g.metadata or None) != (meta or None):
        raise Bad("accepted with other metadata", settings=s, got=g.metadata)
    for t in fam.strings([x for x in c.tokens], 0, 2):
        g.ignore_errors = True
        g.transliterate("".join(t))
    cov.add("traces", 1)


def run_notmapping(case, cov):
    from marshmallow import ValidationError

    what, value = case
    G = GT()
    cov.add("states", 1)
    cov.add("transitions", 1)
    fn = {"direct": G.from_dict, "easy": G.from_easyreading_dict, "yaml": G.from_yaml}[what]
    try:
        fn(value)
    except ValidationError:
        cov.add("traces", 1)
        return
    except Exception as e:
        raise Bad("%s(%r) raises %s, not ValidationError" % (what, value, type(e).__name__))
    raise Bad("%s(%r) is accepted" % (what, value))


def accept_cases(big):
    P = itertools.product
    cfgs = list(BASES)
    for p in fam.pool():
        cfgs.append(Cfg(fam.TOK, [R("x", *p)], [OM(("v",), ("wb", "k"), "")]))
    cfgs.append(Cfg({" ": ("wb",)}, []))
    cfgs.append(Cfg({"x": (), " ": ("wb", "wb")}, [rule("", "x")], [OM(("wb",), ("wb",), "\n")]))
    # long contexts, long names and productions, many of everything
    for n in (10, 20, 40, 70, 130, 300):
        x, a = ("v",) * n, ("a",) * n
        base = [rule("A", "a"), rule("B", "b"), rule("_", " ")]
        cfgs.append(Cfg(fam.TOK, base + [rule("P", "b", pt=a), rule("N", "b", nt=a), rule("C", "b", pc=x), rule("D", "b", nc=x), rule("T", ("b",) + a), rule("E", "ab", pc=x, pt=a, nt=a, nc=x)],
                        [OM(x, ("v",), "+"), OM(("v",), x, "-"), OM(x, x, "=")]))
        cfgs.append(Cfg({"t" * n: ("c" * n,), " ": ("wb",)}, [rule("p" * n, ["t" * n], pc=["c" * n])], [OM(("c" * n,), ("wb",), "q" * n)], metadata={"m" * n: "n" * n}))
        cfgs.append(Cfg(dict([("t%d" % i, ("c%d" % i, "d")) for i in range(n)] + [("u", tuple("c%d" % i for i in range(n))), (" ", ("wb",))]),
                        [rule("R%d" % i, ["t%d" % i]) for i in range(n)] + [rule("S%d" % i, ["u"], pc=["c%d" % i]) for i in range(n)], [OM(("c%d" % i,), ("d",), "%d" % i) for i in range(n)]))
    for cfg in cfgs:
        blank = any(" " in r.pt + r.nt for r in cfg.rules)
        for kind in ("direct", "easy", "yaml"):
            if kind != "direct" and blank:
                continue
            for om, meta, shape in P(("full", "empty", "absent"), (None, {}, META), ("absent", "null", "empty") if kind == "direct" else ("absent",)):
                yield cfg, kind, om, meta, shape


def phases(tier):
    big = tier == "thorough"
    n = lambda i, k: len(faults(i, k))  # noqa
    single = [(i, k, x) for i in range(len(BASES)) for k in ("direct", "easy", "yaml") for x in range(n(i, "direct" if k == "direct" else "easy"))]
    double = [(i, k, x, 1 if big or k == "easy" else 6) for i in (0, 1) for k in ("direct", "easy") for x in range(n(i, k))]
    return [
        Phase("single", lambda: single, run_single, note="every fault at every location"),
        Phase("accepted", lambda: accept_cases(big), run_accept, note="well-formed settings, optional parts present, null, empty or absent"),
        Phase("not-settings", lambda: [(w, v) for w in ("direct", "easy") for v in (None, [], "a", 1, {}, True)] + [("yaml", t) for t in ("", "[]", "a", "1", "{}", "null", "- a\n- b")], run_notmapping, note="settings that are no mapping, or an empty one"),
        Phase("double", lambda: double, run_double, note="pairs of faults at different places (quick: every sixth pair for direct settings)"),
    ]
