import copy
import json

from mc import fam
from mc.checks.c17 import Fault, get
from mc.engine import Bad, Phase
from mc.impl import GT, build, outcome
from mc.ref import OM, Cfg, rule

ID = "C32"
LEVEL = "model_checking"
RULE = (
    "cases = valid dumps x one fault (pairs of faults are explored within the case); state = dump after the faults; transition = one load on the "
    "implementation; traces = loads with the predicted verdict"
)
ASSUMPTIONS = [
    "faults are removals, unknown entries, empty rules and values of another type that the schema library does not convert; contents of metadata, of the "
    "on-match lookup and of lists of children are not examined",
    "null counts as a missing entry where the entry is optional and its schema says so",
    "scope: the dumps and faults listed in the check, alone and in pairs",
]

TXT = [1, None, [], {}, 1.5, True, ["a"]]
LST = ["a", 1, None, True, [1], [None], [["a"]]]
MAP = [[], "a", 1, None, True, ["a"]]
BOOL = ["maybe", 2, None, [], {}, ""]
NUM = ["x", None, [], {}, ""]


def wrong(path, values):
    return [Fault("wrong type", path, "set", v) for v in values]


def faults(d):
    """Every single fault in the uncompressed dump d."""
    out = [Fault("lacks", (k,), "del") for k in ("tokens", "rules", "whitespace")]
    out += [Fault("added", (k,), "set", v) for k in ("zz", "Tokens", "rule", "") for v in (None, {}, 1)]
    out += wrong(("tokens",), MAP) + [Fault("added", ("tokens", 5), "set", ["v"]), Fault("added", ("tokens", None), "set", ["v"])]
    for t in d["tokens"]:
        out += wrong(("tokens", t), ["v", 1, None, True, [1], [None], [["v"]]])
        for i in range(len(d["tokens"][t])):
            out += wrong(("tokens", t, i), [1, None, [], {}])
    out += wrong(("rules",), ["a", 1, None, True, ["a"], [None], [[]], {"a": "A"}])
    for i, r in enumerate(d["rules"]):
        p = ("rules", i)
        out += wrong(p, ["a", 1, None, []])
        out += [Fault("lacks", p + (k,), "del") for k in ("production", "tokens")]
        out += [Fault("empty rule", p + ("tokens",), "set", [])]
        out += wrong(p + ("production",), TXT) + wrong(p + ("tokens",), LST)
        for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes"):
            if k in r:
                out += wrong(p + (k,), [v for v in LST if v is not None])
        out += wrong(p + ("cost",), NUM)
        out += [Fault("added", p + (k,), "set", v) for k in ("zz", "Tokens") for v in ([], None)]
    out += wrong(("whitespace",), MAP)
    for k in ("default", "token_class", "consolidate"):
        out += [Fault("lacks", ("whitespace", k), "del")] + wrong(("whitespace", k), BOOL if k == "consolidate" else TXT)
    out += [Fault("added", ("whitespace", "zz"), "set", "a")]
    if d.get("onmatch_rules"):
        out += wrong(("onmatch_rules",), ["a", 1, True, ["a"], [None], [[]], {"a": "A"}])
        out += [Fault("lookup without rules", ("onmatch_rules",), "del"), Fault("lookup without rules", ("onmatch_rules",), "set", []), Fault("lookup without rules", ("onmatch_rules",), "set", None)]
        for i in range(len(d["onmatch_rules"])):
            p = ("onmatch_rules", i)
            out += [Fault("lacks", p + (k,), "del") for k in ("prev_classes", "next_classes", "production")]
            out += [Fault("empty side", p + (k,), "set", []) for k in ("prev_classes", "next_classes")]
            out += wrong(p + ("production",), TXT) + wrong(p + ("prev_classes",), LST) + wrong(p + ("next_classes",), LST)
            out += [Fault("added", p + ("zz",), "set", [])] + wrong(p, ["a", 1, None, []])
    out += wrong(("metadata",), [[], "a", 1, True, ["a"]])
    out += [Fault("added", ("metadata", 1), "set", "x")]
    out += wrong(("ignore_errors",), BOOL)
    out += wrong(("onmatch_rules_lookup",), [[1], "a", 1, True])
    out += wrong(("tokens_by_class",), MAP) + [Fault("added", ("tokens_by_class", 3), "set", ["a"])]
    for c in d["tokens_by_class"]:
        out += wrong(("tokens_by_class", c), ["a", 1, None, True, [1], [None], [["a"]]])
    out += wrong(("tokenizer_pattern",), TXT) + wrong(("graphtransliterator_version",), [None, 1, True, ["a"]])
    out += wrong(("graph",), [[], "a", 1, True, ["a"]])
    g = d["graph"]
    out += [Fault("added", ("graph", "zz"), "set", v) for v in (None, [])]
    out += wrong(("graph", "node"), ["a", 1, None, True, ["a"], [None], [[]]])
    for i, n in enumerate(g["node"]):
        p = ("graph", "node", i)
        out += wrong(p, ["a", 1, None, []]) + [Fault("added", p + ("zz",), "set", 1)]
        for k in ("token", "type"):
            if k in n:
                out += wrong(p + (k,), TXT)
        if "ordered_children" in n:
            out += wrong(p + ("ordered_children",), [v for v in MAP])
        if "accepting" in n:
            out += wrong(p + ("accepting",), BOOL)
        if "rule_key" in n:
            out += wrong(p + ("rule_key",), NUM)
    out += wrong(("graph", "edge"), ["a", 1, None, True, ["a"]]) + [Fault("added", ("graph", "edge", "x"), "set", {})]
    for h, tails in g["edge"].items():
        p = ("graph", "edge", h)
        out += wrong(p, ["a", 1, None, True, ["a"], []]) + [Fault("added", p + ("x",), "set", {"cost": 0.5})]
        for t, e in tails.items():
            q = p + (t,)
            out += wrong(q, ["a", 1, None, []]) + [Fault("added", q + ("zz",), "set", 1)] + wrong(q + ("cost",), NUM)
            if "token" in e:
                out += wrong(q + ("token",), TXT)
            if "constraints" in e:
                out += wrong(q + ("constraints",), ["a", 1, None, []]) + [Fault("added", q + ("constraints", "zz"), "set", [])]
                for k in e["constraints"]:
                    out += wrong(q + ("constraints", k), LST)
    out += wrong(("graph", "edge_list"), ["a", 1, None, True, ["a"], [1], [[0]], [[0, 1, 2]], [["a", "b"]], [None]])
    return [f for f in out if f.path[:-1] in ((),) or exists(d, f.path[:-1])]


def exists(d, path):
    try:
        get(d, path)
        return True
    except (KeyError, IndexError, TypeError):
        return False


# edits after which a dump still is well formed


def harmless(d):
    out = [Fault("lacks optional", (k,), "del") for k in ("metadata", "ignore_errors", "onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version")]
    out += [Fault("null", (k,), "set") for k in ("metadata", "onmatch_rules_lookup", "graph")]
    out += [Fault("text", ("metadata",), "set", v) for v in ({}, {"x": None}, {"": [1, {"a": 2}]})]
    out += [Fault("flag", ("ignore_errors",), "set", v) for v in (True, False)]
    out += [Fault("flag", ("whitespace", "consolidate"), "set", v) for v in (True, False)]
    for i, r in enumerate(d["rules"]):
        out += [Fault("production", ("rules", i, "production"), "set", v) for v in ("", "x", "\n")]
        out += [Fault("lacks cost", ("rules", i, "cost"), "del")]
    if not d.get("onmatch_rules"):
        out += [Fault("no rules", ("onmatch_rules",), "set", v) for v in ([], None)]
    out += [Fault("lacks edge list", ("graph", "edge_list"), "del")]
    return out


CFGS = {
    "full": Cfg(fam.TOK, fam.BASE_RULES + [rule("A!", "a", pt="b", pc=["v", "k"], nt="ab", nc=["wb"]), rule("", "ab")], [OM(("v",), ("v",), "+"), OM(("wb", "v"), ("k", "wb"), "")], metadata={"name": "x"}),
    "small": Cfg({"a": (), " ": ("wb",)}, [rule("A", "a")]),
    "consolidating": Cfg(fam.TOK, fam.BASE_RULES, [OM(("v",), ("k",), "-")], ws=(" ", "wb", True)),
}
_dumps = {}


def base(name, kind):
    if (name, kind) not in _dumps:
        g = build(CFGS[name])
        _dumps[name, kind] = g.dump() if kind == "data" else json.loads(g.dumps(0))
    return _dumps[name, kind]


def load(d, as_text):
    if as_text:
        try:
            text = json.dumps(d)
        except TypeError:
            return None
        return outcome(GT().loads, text)
    return outcome(GT().load, d)


def judge(d, applied, bad, as_text, info, cov):
    r = load(d, as_text)
    if r is None:
        return
    cov.add("transitions", 1)
    cov.add("states", 1)
    if bad:
        if r[0] == "ok":
            raise Bad("a malformed dump is loaded", faults=applied, **info)
        if r[1] not in ("ValidationError", "IncorrectVersionException") and not any(f.path == ("graphtransliterator_version",) for f in applied):
            raise Bad("a malformed dump raises %s" % r[1], faults=applied, **info)
    elif r[0] != "ok":
        raise Bad("a well-formed dump is refused with %s" % r[1], faults=applied, **info)
    else:
        t = outcome(r[1].transliterate, "ab a")
        if t[0] == "exc" and t[1] != "NoMatchingTransliterationRuleException" and t[1] != "UnrecognizableInputTokenException":
            raise Bad("a transliterator loaded from a well-formed dump raises %s" % t[1], faults=applied, **info)
    cov.add("traces", 1)


def run_single(case, cov):
    name, kind, n, harm = case
    f = (harmless if harm else faults)(base(name, kind))[n]
    for as_text in (False, True):
        d = copy.deepcopy(base(name, kind))
        if as_text and any(not isinstance(k, str) for k in f.path if not isinstance(k, int)) or (as_text and f.op == "set" and f.name == "added" and not isinstance(f.path[-1], str)):
            continue  # JSON turns it into text
        if f.apply(d):
            judge(d, [f], not harm, as_text, dict(config=name), cov)


def run_pairs(case, cov):
    """A fault together with every harmless edit and a share of the other faults, in either order."""
    name, kind, n, step = case
    fs = faults(base(name, kind))
    hs = harmless(base(name, kind))
    f = fs[n]
    others = [(x, 1) for x in hs[n % min(step, 4) :: min(step, 4)]] + [(x, 2) for x in fs[n % step :: step]]
    for other, orders in others:
        if other is f:
            continue
        for pair in ((f, other), (other, f))[:orders]:
            d = copy.deepcopy(base(name, kind))
            if not all(x.apply(d) for x in pair):
                continue
            # one may undo or contain the other
            p, q = pair[0].path, pair[1].path
            if p[: len(q)] == q or q[: len(p)] == p or p[0] == q[0] == "onmatch_rules" or {p[0], q[0]} == {"onmatch_rules", "onmatch_rules_lookup"}:
                continue
            judge(d, list(pair), True, False, dict(config=name), cov)


def run_harmless(case, cov):
    name, kind, n = case
    hs = harmless(base(name, kind))
    for other in hs[n + 1 :]:
        d = copy.deepcopy(base(name, kind))
        if hs[n].apply(d) and other.apply(d):
            judge(d, [hs[n], other], False, False, dict(config=name), cov)


# compressed dumps


def run_compressed(case, cov):
    name, level, n = case
    d = build(CFGS[name]).dump(level)
    cs = d["compressed_settings"]
    if n < len(cs):
        broken = [tuple(cs[:n]) + tuple(cs[n + 1 :]), tuple(cs[:n]), tuple(cs[:n]) + (cs[n],) + tuple(cs[n:])]
        if n in (0, 1, 2, 3):
            broken += [tuple(cs[:n]) + (v,) + tuple(cs[n + 1 :]) for v in (1, None)]
        elif n == 4:
            broken += [tuple(cs[:n]) + (v,) + tuple(cs[n + 1 :]) for v in (1, None, (), (" ",), (1, "wb", 0), (" ", 1, 0), (" ", "wb", 5))]
        elif n == 6:
            broken += [tuple(cs[:n]) + (v,) + tuple(cs[n + 1 :]) for v in (1, "a", [1])]
        full = [dict(d, compressed_settings=b) for b in broken]
    else:
        full = [dict(d, zz=1), dict(d, Tokens={}), {"graphtransliterator_version": d["graphtransliterator_version"]}, dict(d, compressed_settings=None), dict(d, ignore_errors="maybe"), dict(d, ignore_errors=None), dict(d, check_ambiguity=[])]
    for x in full:
        for as_text in (False, True):
            r = load(x, as_text)
            cov.add("transitions", 1)
            cov.add("states", 1)
            if r[0] == "ok":
                raise Bad("a malformed compressed dump is loaded", dump=x, part=n)
            cov.add("traces", 1)


def run_text(case, cov):
    """Text that is not the JSON of a dump."""
    name, level, n = case
    text = build(CFGS[name]).dumps(level)
    texts = [text[:n] if n < len(text) else text + "]", text[n:] if 0 < n < len(text) else "[" + text]
    texts += ["", " ", "{", "[]", "3", "null", '"x"', "{}", "tokens: {}", text * 2, "[%s]" % text] if n == 0 else []
    for t in texts:
        r = outcome(GT().loads, t)
        cov.add("transitions", 1)
        cov.add("states", 1)
        if r[0] == "ok":
            raise Bad("text that is no dump is loaded", text=t)
        cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    kinds = ("data", "json")
    each = lambda f, names=CFGS: [(c, k, n) for c in names for k in kinds for n in range(len(f(base(c, k))))]  # noqa
    step = 4 if big else 200
    names = ("small", "full") if not big else CFGS
    return [
        Phase("single", lambda: [c + (False,) for c in each(faults)] + [c + (True,) for c in each(harmless)], run_single, note="every single fault, and every harmless edit, as data and as JSON"),
        Phase("harmless", lambda: each(harmless), run_harmless, note="pairs of harmless edits"),
        Phase("pairs", lambda: [c + (step,) for c in each(faults, names) if c[1] == "data"], run_pairs, cpu_limit=300, note="pairs of faults, and of a fault and a harmless edit"),
        Phase("compressed", lambda: [(c, lv, n) for c in CFGS for lv in (1, 2) for n in range(9)], run_compressed, note="compressed dumps with parts removed, repeated or of another type"),
        Phase("text", lambda: [(c, lv, n) for c in (CFGS if big else ("small",)) for lv in (0, 1, 2) for n in range(len(build(CFGS[c]).dumps(lv)) + 1)], run_text, note="JSON text cut short at every character"),
    ]
