import itertools
import logging
import re

from mc import fam
from mc.checks.c07 import GAPPED, OMS, Capture, gapped
from mc.engine import Bad, Phase
from mc.impl import GT, build, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C34"
LEVEL = "model_checking"
RULE = (
    "cases = configurations with gaps, each with every input string within bounds, or coverage transliterators with every set of inputs; state = position "
    "reached by the model; transition = one call on the implementation, whose warnings are compared with those the model predicts; traces = calls"
)
ASSUMPTIONS = [
    "how a warning is worded is free, as long as it contains the character or the tokens in order, and the position as a number",
    "inputs on which equally specific rules apply are left out of the comparison of token positions",
    "messages below the level of warnings are not examined",
    "scope: configurations and inputs within the bounds stated per phase",
]


class Watch:
    def __enter__(self):
        self.log = Capture()
        root = logging.getLogger()
        self.level = root.level
        root.addHandler(self.log)
        logging.disable(logging.NOTSET)
        return self.log

    def __exit__(self, *a):
        logging.disable(logging.CRITICAL)
        logging.getLogger().removeHandler(self.log)


def number_in(k, text):
    return re.search(r"(?<![0-9])%d(?![0-9])" % k, text) is not None


def bad_positions(cfg, s):
    """Positions of the characters that start no token."""
    out, i = [], 0
    names = sorted(cfg.tokens, key=len, reverse=True)
    while i < len(s):
        t = next((t for t in names if s.startswith(t, i)), None)
        if t is None:
            out.append(i)
            i += 1
        else:
            i += len(t)
    return out


def expected(cfg, s, ignore):
    """[(kind, position, what is named)] in order."""
    bad = bad_positions(cfg, s)
    out = [("character", i, s[i]) for i in bad]
    if bad and not ignore:
        return out[:1]
    toks, _ = cfg.tokenize(s)
    ks, skipped, _, fail = cfg.run(toks, ignore)
    for i in skipped if ignore else [] if fail is None else [fail]:
        out.append(("token", i, toks[i]))
    return out


def names_all(text, toks):
    """Whether text names the tokens one after another."""
    at = 0
    for t in toks:
        for form in (t, repr(t)[1:-1]):
            i = text.find(form, at)
            if i >= 0:
                at = i + len(form)
                break
        else:
            return False
    return True


def agree(records, want, info, toks=()):
    if len(records) != len(want):
        raise Bad("%d warnings for %d problems" % (len(records), len(want)), warnings=records[:5], expected=want[:5], **info)
    for text, (kind, i, what) in zip(records, want):
        if what not in text and repr(what)[1:-1] not in text:
            raise Bad("a warning does not name the %s" % kind, warning=text, expected=(kind, i, what), **info)
        if not number_in(i, text):
            raise Bad("a warning does not give the position of the %s" % kind, warning=text, expected=(kind, i, what), **info)
    rows = [k for k, w in enumerate(want) if w[0] == "token"]
    for k in rows if len(toks) < 30 else rows[:2] + rows[-2:]:
        if not names_all(records[k], toks):
            raise Bad("a warning does not name the tokens", warning=records[k], expected=toks, **info)


def run_texts(case, cov):
    cfg, texts = case
    with Watch() as log:
        gs = [(build(cfg, ignore_errors=i), i) for i in (False, True)]
        if log.records:
            raise Bad("a warning is logged while a transliterator is made", cfg=cfg, warnings=log.records)
        for s in texts:
            toks, _ = cfg.tokenize(s)
            tied = cfg.tied(toks)
            for g, ignore in gs:
                log.records = []
                r = outcome(g.transliterate, s)
                cov.add("transitions", 1)
                info = dict(cfg=cfg, input=s, ignore_errors=ignore, got=r)
                if not tied:
                    agree(log.records, expected(cfg, s, ignore), info, toks)
                log.records = []
                outcome(g.tokenize, s)
                chars = [x for x in expected(cfg, s, ignore) if x[0] == "character"]
                agree(log.records, chars, dict(info, call="tokenize"))
                log.records = []
                for i in range(1, len(toks) - 1):
                    g.match_at(i, toks)
                    g.match_at(i, toks, match_all=True)
                if log.records:
                    raise Bad("matching logs a warning", warnings=log.records, **info)
                cov.add("states", len(toks))
                cov.add("traces", 1)


# other calls on valid settings log nothing

QUIET = {
    "dump": lambda g: [g.dump(k) for k in (0, 1, 2)],
    "dumps": lambda g: [g.dumps(k) for k in (0, 1, 2)],
    "load": lambda g: [GT().load(g.dump(k)) for k in (0, 1, 2)],
    "loads": lambda g: [GT().loads(g.dumps(k)) for k in (0, 1, 2)],
    "prune": lambda g: [g.pruned_of("A"), g.pruned_of([]), g.pruned_of(["A", "B"])],
    "attributes": lambda g: [g.transliterate(""), g.tokens, g.rules, g.graph, g.last_matched_rules, g.last_input_tokens, g.last_matched_rule_tokens, g.metadata, g.whitespace],
    "flag": lambda g: [setattr(g, "ignore_errors", v) for v in (True, False)],
}


def run_quiet(case, cov):
    cfg, kinds = case
    with Watch() as log:
        for ignore in (False, True):
            for make in ("plain", "checked", "coverage"):
                g = build(cfg, ignore_errors=ignore, check_ambiguity=make == "checked")
                if make == "coverage":
                    g = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, ignore_errors=ignore, check_ambiguity=False)
                for k in kinds:
                    QUIET[k](g)
                    cov.add("transitions", 1)
                    if log.records:
                        raise Bad("%s logs a warning" % k, cfg=cfg, kind=make, warnings=log.records)
        cov.add("states", 1)
        cov.add("traces", 1)


# coverage


def warned(log, fn, *args):
    log.records = []
    r = outcome(fn, *args)
    return r, list(log.records)


def run_coverage(case, cov):
    cfg, inputs = case
    b = build(cfg)
    with Watch() as log:
        g = mod().CoverageTransliterator(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules, ignore_errors=True, check_ambiguity=False)
        parts = {"graph": g.graph.check_coverage, "on-match rules": g.check_onmatchrules_coverage}
        whole = {"graph": len(b.graph.node) + len(b.graph.edge_list), "on-match rules": len(cfg.onmatch)}
        before = {}
        used = set()
        for s in (None,) + tuple(inputs):
            if s is not None:
                g.transliterate(s)
                used |= set(cfg.run(cfg.tokenize(s)[0], True)[0])
            info = dict(cfg=cfg, inputs=inputs, after=s)
            now = {}
            for part, check in parts.items():
                r, w = warned(log, check, False)
                cov.add("transitions", 1)
                info["warnings"] = w[:5]
                if s is None and len(w) != whole[part]:
                    raise Bad("%d warnings for %d unvisited parts of the %s" % (len(w), whole[part], part), **info)
                if len(set(w)) != len(w):
                    raise Bad("something unvisited in the %s is warned of twice" % part, **info)
                if s is not None and not set(w) <= set(before[part]):
                    raise Bad("something visited in the %s is warned of" % part, **info)
                if r != ("ok", not w):
                    raise Bad("the check of the %s gives %r with %d warnings" % (part, r, len(w)), **info)
                if warned(log, check, False)[1] != w:
                    raise Bad("checking the %s twice gives different warnings" % part, **info)
                r, again = warned(log, check)
                if (r[0] == "exc") is not bool(w) or again != w:
                    raise Bad("a check of the %s that raises logs other warnings" % part, raised=r, other=again, **info)
                now[part] = w
            both = now["graph"] + now["on-match rules"]
            r, some = warned(log, g.check_coverage, False)
            if r != ("ok", not both) or not set(some) <= set(both) or bool(some) is not bool(both):
                raise Bad("the whole check gives %r" % (r,), other=some, **info)
            cov.add("states", 1)
            if len(used) == len(cfg.rules) and cfg.rules and now["graph"]:
                raise Bad("parts of the graph are warned of although every rule was matched", **info)
            before = now
    cov.add("traces", 1)


def coverage_cases(hi):
    cfgs = [
        Cfg(fam.TOK, [rule("A", "a"), rule("B", "b"), rule("_", " ")]),
        Cfg(fam.TOK, [rule("A", "a"), rule("AB", "ab"), rule("B", "b", pc=["v"]), rule("_", " ")]),
        Cfg(fam.TOK, [rule("A", "a"), rule("B", "b"), rule("_", " ")], [OM(("v",), ("v",), "+"), OM(("wb",), ("k",), "-")]),
        Cfg(fam.TOK, [rule("A", "a"), rule("AA", "aa", nt="b")], [OM(("v",), ("v",), "+")]),
        Cfg(fam.TOK, []),
    ]
    words = ["a", "b", "ab", "aab", " ", "a b", "ba", ""]
    for cfg in cfgs:
        for n in range(1, hi + 1):
            for ws in itertools.permutations(words, n):
                yield cfg, ws


def odd():
    for ch in ["\n", "\x00", "%", "%s", "{", "\\", "\U0001f600", "\u0301", "A", "\u200b", "%(x)s", "{0}", "\u0905\u0901", "'"]:
        texts = [ch, "a" + ch, ch + "a", "a" + ch + "b", ch * 3 + " ", "b " + ch + " b", "a" * 12 + ch]
        yield Cfg(fam.TOK, [rule("A", "a"), rule("_", " ")], []), texts
        if ch.strip() and ch not in fam.TOK:
            toks = dict(fam.TOK)
            toks[ch] = ("v",)
            yield Cfg(toks, [rule("A", "a"), rule("_", " ")], []), texts


def long_(big):
    for n in (10, 11, 100, 300) + ((3000,) if big else ()):
        texts = ["a" * n + "?", "?" * n + "a", "a?b" * n, "b" * n, " ?" * n, "ab" * n + "b", "a " * n]
        for toks, rules in GAPPED[:8]:
            yield Cfg(toks, rules, []), texts


def late():
    """Single problems far into the input, and at the end of it."""
    for n in (260, 520, 1030, 2100, 4200):
        texts = ["a" * n + "?", "a" * n + "b", "?" + "a" * n, "b" + "a" * n + "b", "a" * n + "?" + "a" * 40 + "b"]
        for toks, rules in (GAPPED[0], GAPPED[2], GAPPED[4], GAPPED[5]):
            yield Cfg(toks, rules, []), texts


def phases(tier):
    big = tier == "thorough"
    return [
        Phase("long", lambda: long_(big), run_texts, cpu_limit=200, note="long inputs with many problems"),
        Phase("late", late, run_texts, cpu_limit=200, note="problems at positions up to 4241"),
        Phase("characters", odd, run_texts, note="unusual unrecognizable characters and unmatched tokens"),
        Phase("gapped", lambda: gapped(7 if big else 5), run_texts, cpu_limit=60, note="11 incomplete rule sets, every input over ab, space and ?"),
        Phase("quiet", lambda: [(Cfg(t, r, [o for o in om if set(o.pc + o.nc) <= {c for v in t.values() for c in v}]), ks) for t, r in GAPPED for om in ([], OMS) for ks in (itertools.permutations(QUIET, 2) if big else [tuple(QUIET), tuple(QUIET)[::-1]])], run_quiet,
              note="making, dumping, loading, pruning and inspecting"),
        Phase("coverage", lambda: coverage_cases(4 if big else 3), run_coverage, note="coverage checks after every sequence of up to %d of 8 inputs" % (4 if big else 3)),
    ]
