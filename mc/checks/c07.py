import itertools
import logging

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, Pool, build
from mc.ref import OM, Cfg, rule

ID = "C07"
LEVEL = "model_checking"
RULE = (
    "cases = configurations with gaps, each with every input string (or sequence of setting changes and inputs) within "
    "bounds; state = (configuration, error setting, input, position or step of the history); transition = one model step: "
    "a character dropped, a token matched or skipped, an exception, a setting change"
)
ASSUMPTIONS = [
    "characters are dropped, and tokens skipped, one at a time from left to right",
    "which of several equally specific rules is used is left open",
    "scope: configurations, inputs and histories within the bounds stated per phase",
]

UNREC, NOMATCH = "UnrecognizableInputTokenException", "NoMatchingTransliterationRuleException"


class Capture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.records.append(record.getMessage())


def call(g, s, log):
    if log is not None:
        log.records = []
    try:
        return "ok", g.transliterate(s)
    except Exception as e:
        return "exc", e


def judge(g, cfg, s, ignore, cov, log=None):
    """One call under one setting, against the model."""
    toks, bad = cfg.tokenize(s)
    kind, got = call(g, s, log)
    name = type(got).__name__ if kind == "exc" else None
    cov.add("transitions", len(toks) + len(bad))
    cov.add("traces", 1)
    info = dict(cfg=cfg, input=s, ignore_errors=ignore, got=got)
    if not ignore and bad:
        cov.add("states", 1)
        if name != UNREC:
            raise Bad("an unrecognizable character must raise " + UNREC, **info)
        nproblems = 1
    else:
        if kind == "exc":
            _, fails, n = cfg.explore(toks, None, ignore)
            if ignore:
                raise Bad("raises although errors are ignored", **info)
            if not fails:
                raise Bad("raises %s without a reason" % name, **info)
            if name != NOMATCH:
                raise Bad("a position without an applicable rule must raise " + NOMATCH, **info)
            nproblems = 1
        else:
            ok, _, n = cfg.explore(toks, got, ignore)
            if not ok:
                raise Bad("wrong result", expected=cfg.run(toks, ignore)[2:], **info)
            nproblems = None
            if ignore:
                nproblems = len(bad) + (0 if cfg.tied(toks) else len(cfg.run(toks, True)[1]))
            else:
                nproblems = 0
        cov.add("states", n)
    if kind == "exc":
        mod = __import__("graphtransliterator.exceptions", fromlist=["x"])
        if not isinstance(got, mod.GraphTransliteratorException):
            raise Bad("not a GraphTransliteratorException", **info)
    if log is not None and len(log.records) < nproblems:
        raise Bad("%d problems but %d warnings" % (nproblems, len(log.records)), warnings=log.records, **info)
    return kind, got


def both(g, cfg, s, cov, log):
    g.ignore_errors = False
    r1 = judge(g, cfg, s, False, cov, log)
    g.ignore_errors = True
    r2 = judge(g, cfg, s, True, cov, log)
    if r1[0] == "ok" and r1 != r2:
        raise Bad("different results under both settings without a problem", cfg=cfg, input=s, strict=r1, ignoring=r2)


GAPPED = [
    # token "ab" makes a lone "a" unrecognizable
    ({"ab": ("v",), "b": ("v", "k"), " ": ("wb",)}, [rule("AB", ["ab"]), rule("B", "b"), rule("_", " ")]),
    ({"ab": ("v",), "b": ("v", "k"), " ": ("wb",)}, [rule("AB", ["ab"], nt=["b"]), rule("_", " ")]),
    ({"a": ("v",), "abb": ("k",), " ": ("wb",)}, [rule("A", "a"), rule("ABB", ["abb"], pc=["v"])]),
    (fam.TOK, [rule("A", "a"), rule("B", "b")]),
    (fam.TOK, [rule("A", "a"), rule("_", " ")]),
    (fam.TOK, [rule("A", "a", nt="b"), rule("B", "b"), rule("_", " ")]),
    (fam.TOK, [rule("A", "a", pc=["v"]), rule("B", "b", nc=["wb"])]),
    (fam.TOK, [rule("AB", "ab"), rule("BB", "bb", pt="a"), rule("_", " ", nc=["v"])]),
    (fam.TOK, [rule("AAB", "aab", pc=["wb"])]),
    (fam.TOK, [rule("_", " ")]),
    (fam.TOK, []),
]
OMS = [OM(("v",), ("v",), "+"), OM(("wb",), ("k",), "-")]


def gapped(hi):
    texts = ["".join(t) for t in fam.strings("ab ?", 0, hi)]
    for toks, rules in GAPPED:
        for om in ([], OMS):
            have = {c for v in toks.values() for c in v}
            om = [o for o in om if set(o.pc + o.nc) <= have]
            for cons in (False, True):
                for lo in range(0, len(texts), 150):
                    yield Cfg(toks, rules, om, (" ", "wb", cons)), texts[lo : lo + 150]


def run_texts(case, cov):
    cfg, texts = case
    log = Capture()
    root = logging.getLogger()
    logging.disable(logging.NOTSET)
    root.addHandler(log)
    try:
        g = build(cfg, ignore_errors=False)
        h = build(cfg, ignore_errors=True)
        if g.ignore_errors is not False or h.ignore_errors is not True:
            raise Bad("the setting given at construction is not kept", cfg=cfg)
        for s in texts:
            judge(g, cfg, s, False, cov, log)
            judge(h, cfg, s, True, cov, log)
        for s in texts:
            both(g, cfg, s, cov, None)
        # tokenize alone
        for s in texts:
            toks, bad = cfg.tokenize(s)
            h.ignore_errors = True
            if list(h.tokenize(s)) != toks:
                raise Bad("wrong tokens with errors ignored", cfg=cfg, input=s, got=h.tokenize(s), expected=toks)
            h.ignore_errors = False
            try:
                h.tokenize(s)
                r = None
            except Exception as e:
                r = type(e).__name__
            if r != (UNREC if bad else None):
                raise Bad("tokenize raises %s" % r, cfg=cfg, input=s)
    finally:
        root.removeHandler(log)
        logging.disable(logging.CRITICAL)


def run_pool(cfg0, texts):
    memo = {}

    def run(ks, cov):
        if "p" not in memo:
            memo["p"] = Pool(cfg0)
        g, cfg = memo["p"].sub(ks)
        for s in texts:
            both(g, cfg, s, cov, None)

    return run


def histories(depth):
    """Sequences of (setting or none, input) on one transliterator, with other operations between."""
    ops = [("flag", True), ("flag", False), ("prune", None), ("reload", 0), ("reload", 2), ("tokenize", "?a")]
    ops += [("t", s) for s in ("ab", "a?b", "b", "?", " a  b ", "", "aab")]
    return itertools.product(ops, repeat=depth)


def run_history(cfgs):
    def run(hist, cov):
        for cfg in cfgs:
            for start in (False, True):
                g = build(cfg, ignore_errors=start) if len(hist) > 3 else cfg_memo(cfg, start)
                ign = start
                for op, x in hist:
                    cov.add("states", 1)
                    if op == "flag":
                        g.ignore_errors = x
                        ign = x
                    elif op == "prune":
                        g = g.pruned_of("no such production")
                    elif op == "reload":
                        g = GT().load(g.dump(x))
                    elif op == "tokenize":
                        try:
                            g.tokenize(x)
                        except Exception:
                            pass
                    else:
                        judge(g, cfg, x, ign, cov)
                    if bool(g.ignore_errors) is not ign:
                        raise Bad("the ignore_errors setting changed by itself", cfg=cfg, history=hist, got=g.ignore_errors)

    memo = {}

    def cfg_memo(cfg, start):
        from mc.impl import GT as _GT

        key = id(cfg), start
        if key not in memo:
            memo[key] = build(cfg)
        b = memo[key]
        return _GT()(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules, ignore_errors=start, check_ambiguity=False)

    return run


def long_(big):
    for n in (10, 100, 1000) + ((10000,) if big else ()):
        texts = ["a" * n + "?" , "?" * n + "a", "a?b" * n, "b" * n, " ?" * n, "ab" * n + "b", "a " * n]
        for toks, rules in GAPPED[:8]:
            yield Cfg(toks, rules, []), texts


def odd_chars():
    for ch in ["\n", "\x00", "%", "%s", "{", "\\", "\U0001f600", "\u0301", "A", "\u200b", "\ud800", "%(x)s", "{0}"]:
        texts = [ch, "a" + ch, ch + "a", "a" + ch + "b", ch * 3 + " ", "b " + ch + " b"]
        yield Cfg(fam.TOK, [rule("A", "a"), rule("_", " ")], []), texts
        if ch.strip():
            toks = dict(fam.TOK)
            toks[ch] = ("v",)
            yield Cfg(toks, [rule("A", "a"), rule("_", " ")], []), texts


def phases(tier):
    big = tier == "thorough"
    pool = fam.pool(("a", "b", "ab", "ba"), fam.CTX[::2]) if not big else fam.pool()
    cfg0 = Cfg(fam.TOK, fam.named(pool), [])
    cfgs = [Cfg(t, r, [o for o in OMS if set(o.pc + o.nc) <= {c for v in t.values() for c in v}]) for t, r in GAPPED[:7:2]]
    return [
        Phase("long", lambda: long_(big), run_texts, cpu_limit=600, note="long inputs with many problems"),
        Phase("characters", odd_chars, run_texts, note="unusual unrecognizable characters and unmatched tokens"),
        Phase("gapped", lambda: gapped(7 if big else 5), run_texts, note="11 incomplete rule sets, every input over ab, space and ?; warnings counted"),
        Phase("pairs", lambda: fam.subsets(range(len(pool)), 0, 2), run_pool(cfg0, ["".join(t) for t in fam.strings("ab ?", 0, 5 if big else 4)]), note="every pair from a pool of rules"),
        Phase("histories", lambda: itertools.chain(histories(1), histories(2), histories(3), histories(4) if big else ()), run_history(cfgs),
              note="every sequence of up to %d setting changes, reloads, prunings and calls" % (4 if big else 3)),
    ]
