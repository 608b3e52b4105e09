import itertools
import os
import re

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, index_map, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C22"
LEVEL = "model_checking"
RULE = (
    "cases = first steps of a history on a visit-logging transliterator, all continuations explored within the case; state = model pair "
    "(rules and on-match rules certainly visited, possibly visited); transition = one operation on the implementation, after which the "
    "verdicts are compared with the bounds the model gives; traces = complete histories"
)
ASSUMPTIONS = [
    "a rule can only have been tried if its tokens occurred one after another in some input (from the position asked for, if one was); an on-match rule only if a token of its "
    "last previous class was followed by one of its first next class in an input transliterated; between the two bounds the verdict is left open, but has to be the same in all forms "
    "and must depend only on the visits since the last clear",
    "transliterators with at least one rule; containers of the transliterator are not indexed directly by the caller",
    "scope: the configurations, inputs and depths listed per phase",
]

Z = {"a": ("v",), "b": ("v", "k"), " ": ("wb",)}
CFGS = {
    "plain": Cfg(Z, fam.BASE_RULES),
    "prefixes": Cfg(Z, fam.BASE_RULES + [rule("AA", "aa"), rule("AB", "ab"), rule("AAB", "aab")]),
    "contexts": Cfg(Z, fam.BASE_RULES + [rule("x", "a", pt="b"), rule("y", "a", pc=["k"], pt="b"), rule("z", "b", nt="a", nc=["v"]), rule("w", "ab", nc=["wb"])]),
    "onmatch": Cfg(Z, fam.BASE_RULES, [OM(("v",), ("k",), ","), OM(("v",), ("v",), ";"), OM(("wb",), ("v", "k"), "!")]),
    "onmatch-long": Cfg(Z, fam.BASE_RULES + [rule("AB", "ab")], [OM(("k", "v"), ("v",), "."), OM(("v",), ("v", "wb"), "-")]),
    "gaps": Cfg(Z, [rule("", "ab"), rule("", " "), rule("A", "a", pc=["k"])], [OM(("k",), ("v",), "")]),
    "same": Cfg(Z, [rule("A", "a"), rule("A", "a", nt="b"), rule("A", "b"), rule("A", " ")], [OM(("v",), ("v",), ","), OM(("k",), ("v",), ",")]),
    "one": Cfg(Z, [rule("A", "ba")]),
    "consolidating": Cfg(Z, fam.BASE_RULES + [rule("S", " a")], [OM(("wb",), ("v",), "'")], ws=(" ", "wb", True)),
}
_gts = {}


def fresh(name, how="direct", ignore=True):
    if (name, ignore) not in _gts:
        g = GT().from_dict(CFGS[name].settings(), ignore_errors=ignore, check_ambiguity=False)
        _gts[name, ignore] = g, index_map(g, CFGS[name])
    g, m = _gts[name, ignore]
    kw = dict(onmatch_rules=g.onmatch_rules, metadata=g.metadata, ignore_errors=ignore, check_ambiguity=False)
    if how == "shared":
        # sharing everything made by another transliterator
        kw.update(onmatch_rules_lookup=g.onmatch_rules_lookup, tokens_by_class=g.tokens_by_class, graph=g.graph, tokenizer_pattern=g.tokenizer_pattern)
    if how == "inherited":
        # made from the parts of another, used, coverage transliterator
        if (name, ignore, how) not in _gts:
            c = _gts[name, ignore, how] = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, graph=g.graph, **kw)
            for text in ("aab ab", "ba a", "b ", "bb", " "):
                outcome(c.transliterate, text)
        c = _gts[name, ignore, how]
        kw.update(onmatch_rules=c.onmatch_rules, onmatch_rules_lookup=c.onmatch_rules_lookup, graph=c.graph, metadata=c.metadata)
    return mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, **kw), g, m


class Model:
    """What must and what may have been visited since the last clear."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.clear()

    def clear(self):
        self.rules, self.ins = set(), set()
        self.may_rules, self.may_ins = set(), set()

    def can_try(self, toks, at=None):
        cfg = self.cfg
        for k, r in enumerate(cfg.rules):
            n = len(r.t)
            for i in range(len(toks)) if at is None else (at,):
                if tuple(toks[i : i + n]) == r.t:
                    self.may_rules.add(k)
        if at is None:
            for k, o in enumerate(cfg.onmatch):
                for i in range(1, len(toks)):
                    if o.pc[-1] in cfg.tokens[toks[i - 1]] and o.nc[0] in cfg.tokens[toks[i]]:
                        self.may_ins.add(k)

    def transliterated(self, text, got, c, m, ignore):
        """After transliterating text, with outcome got."""
        cfg = self.cfg
        toks, bad = cfg.tokenize(text)
        if bad and not ignore:
            return
        self.can_try(toks)
        if got[0] == "ok" or not cfg.tied(toks):
            ks, _, _, _ = cfg.run(toks, ignore)
            if cfg.tied(toks):
                # which of the tied rules was matched is the transliterator's choice
                ks = [m[c.rules.index(r)] for r in c.last_matched_rules]
            i = 1
            done = set()
            while i < len(toks) - 1 and ks:
                b = cfg.best(toks, i)
                if not b:
                    i += 1
                    continue
                k = ks.pop(0)
                done.add(k)
                o = cfg.insertion(toks, i)
                if o is not None:
                    self.ins.add(o)
                i += len(cfg.rules[k].t)
            self.rules |= done

    def matched(self, toks, i, ks):
        self.can_try(toks, i)
        self.rules |= set(ks)

    def judge(self, name):
        """True, False, or None if left open: (all, on-match rules only)."""
        n, o = len(self.cfg.rules), len(self.cfg.onmatch)
        om = True if len(self.ins) == o else (False if len(self.may_ins) < o else None)
        al = True if om and len(self.rules) == n else (False if om is False or len(self.may_rules) < n else None)
        return al, om


def verdicts(c, model, m, info):
    """Ask in all forms; the answers must agree with each other and the model."""
    al, om = model.judge(info)
    r1 = outcome(c.check_coverage)
    e1 = None
    if r1[0] == "exc":
        try:
            c.check_coverage()
        except Exception as e:
            e1 = str(e)
    a = c.check_coverage(raise_exception=False)
    r2 = outcome(c.check_onmatchrules_coverage)
    e2 = None
    if r2[0] == "exc":
        try:
            c.check_onmatchrules_coverage()
        except Exception as e:
            e2 = str(e)
    b = c.check_onmatchrules_coverage(raise_exception=False)
    if a not in (True, False) or b not in (True, False):
        raise Bad("check returns %r, %r" % (a, b), **info)
    for form, r, v in (("check_coverage", r1, a), ("check_onmatchrules_coverage", r2, b)):
        if (r[0] == "exc") != (not v):
            raise Bad("%s gives %r, but %r with raise_exception=False" % (form, r, v), **info)
        if r[0] == "exc" and r[1] not in ("IncompleteGraphCoverageException", "IncompleteOnMatchRulesCoverageException"):
            raise Bad("%s raises %s" % (form, r[1]), **info)
        if r[0] == "ok" and r[1] is not True:
            raise Bad("%s returns %r" % (form, r[1]), **info)
    if r2[0] == "exc" and r2[1] != "IncompleteOnMatchRulesCoverageException":
        raise Bad("check_onmatchrules_coverage raises %s" % r2[1], **info)
    if not b and a:
        raise Bad("coverage complete although on-match rules are not covered", **info)
    if al is not None and a is not al:
        raise Bad("check_coverage says %r, must be %r" % (a, al), certainly=[sorted(model.rules), sorted(model.ins)], possibly=[sorted(model.may_rules), sorted(model.may_ins)], **info)
    if om is not None and b is not om:
        raise Bad("check_onmatchrules_coverage says %r, must be %r" % (b, om), certainly=sorted(model.ins), possibly=sorted(model.may_ins), **info)
    named(c, model, m, e1, r1[1], info)
    named(c, model, m, e2, r2[1], info)
    return a, b, r1, e1, r2, e2


def named(c, model, m, text, exc, info):
    """The error names what was missed: all that cannot have been visited, nothing that was."""
    if text is None:
        return
    pairs = re.findall(r"\(([0-9]+), *([0-9]+)\)", text)
    got = {int(x) for x in re.findall("[0-9]+", re.sub(r"\([0-9]+, *[0-9]+\)", "", text))}
    if exc == "IncompleteOnMatchRulesCoverageException":
        missed = set(range(len(model.cfg.onmatch))) - model.may_ins
        seen = model.ins
    else:
        nodes = {m[n["rule_key"]]: i for i, n in enumerate(c.graph.node) if n["type"] == "rule"}
        missed = {nodes[k] for k in nodes if k not in model.may_rules}
        seen = {nodes[k] for k in model.rules}
        tails = {int(t) for _, t in pairs}
        edge = dict(c.graph.edge.items())  # no visit
        if pairs and (not missed <= tails or seen & tails or any(int(t) not in edge.get(int(h), ()) for h, t in pairs)):
            raise Bad("the error names other edges than those missed", error=text, must=sorted(missed), must_not=sorted(seen), **info)
    if not missed <= got or seen & got:
        raise Bad("the error names other things than those missed", error=text, must=sorted(missed), must_not=sorted(seen), **info)


# ---- operations ------------------------------------------------------------------


def visit(op, c, m, model, cfg, ignore):
    kind, text = op
    if kind == "t":
        model.transliterated(text, outcome(c.transliterate, text), c, m, ignore)
        return
    toks, _ = cfg.tokenize(text)
    if kind == "m":
        k = c.match_at(1, list(toks))
        model.matched(toks, 1, [] if k is None else [m[k]])
    else:
        ks = c.match_at(1, list(toks), match_all=True)
        model.matched(toks, 1, [m[k] for k in ks])


def other_all(c, g):
    """Use other transliterators made from the same parts."""
    p = c.pruned_of("B")
    q = GT().load(c.dump())
    texts = ["aab ab", "ba a", "b", " "]
    for h in (p, q, g):
        for t in texts:
            outcome(h.transliterate, t)
            toks = outcome(h.tokenize, t)
            if toks[0] == "ok":
                outcome(h.match_at, 1, toks[1], match_all=True)
    d = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, onmatch_rules_lookup=g.onmatch_rules_lookup,
                                     tokens_by_class=g.tokens_by_class, graph=g.graph, check_ambiguity=False, ignore_errors=True)
    for t in texts:
        d.transliterate(t)
    d.clear_visited()
    d = mod().CoverageTransliterator(c.tokens, c.rules, c.whitespace, onmatch_rules=c.onmatch_rules, graph=c.graph, check_ambiguity=False, ignore_errors=True)
    for t in texts:
        d.transliterate(t)
    e = c.pruned_of("no such production")
    mod().CoverageTransliterator(e.tokens, e.rules, e.whitespace, onmatch_rules=e.onmatch_rules, graph=e.graph, check_ambiguity=False, ignore_errors=True).transliterate("aab ab ba b a")


def props(c, g):
    for p in ("tokens", "rules", "whitespace", "productions", "onmatch_rules", "onmatch_rules_lookup", "metadata", "graph", "tokens_by_class", "tokenizer_pattern",
              "last_matched_rules", "last_matched_rule_tokens", "last_input_tokens", "ignore_errors", "graphtransliterator_version"):
        outcome(getattr, c, p)
    len(c.rules)
    list(c.rules)


def flag(c, g):
    v = c.ignore_errors
    c.ignore_errors = not v
    c.ignore_errors = v


SILENT = {
    "dump0": lambda c, g: c.dump(),
    "dump1": lambda c, g: c.dump(1),
    "dump2": lambda c, g: c.dump(2),
    "dumps": lambda c, g: (c.dumps(), c.dumps(1), c.dumps(2)),
    "prune": lambda c, g: (c.pruned_of("A"), c.pruned_of(["B", "AB"]), c.pruned_of([])),
    "tokenize": lambda c, g: (c.tokenize("ab ba"), c.tokenize(""), outcome(c.tokenize, "?")),
    "check": lambda c, g: (outcome(c.check_coverage), c.check_coverage(raise_exception=False)),
    "check-onmatch": lambda c, g: (outcome(c.check_onmatchrules_coverage), c.check_onmatchrules_coverage(raise_exception=False)),
    "other": other_all,
    "properties": props,
    "flag": flag,
    "generate": lambda c, g: None,
}
del SILENT["generate"]


_seen = {}


def run_history(case, cov):
    """One history; outcome must be a function of the visits since the last clear."""
    name, how, ignore, ops, rest = case
    cfg = CFGS[name]
    for tail in rest():
        hist = list(ops) + list(tail)
        c, g, m = fresh(name, how, ignore)
        model = Model(cfg)
        since = []
        for n, op in enumerate(hist):
            if op in SILENT:
                SILENT[op](c, g)
            elif op == "clear":
                c.clear_visited()
                model.clear()
                since = []
            else:
                visit(op, c, m, model, cfg, ignore)
                since.append(op)
            cov.add("transitions", 1)
            if n + 1 < len(hist) and n + 1 < len(ops):
                continue
            cov.add("states", 1)
            info = dict(config=name, how=how, ignore_errors=ignore, history=hist[: n + 1])
            v = verdicts(c, model, m, info)
            key = (name, ignore, tuple(since))
            if key not in _seen:
                _seen[key] = v
                if list(since) != hist[: n + 1]:
                    # the same visits alone
                    c2, _, m2 = fresh(name, "direct", ignore)
                    model2 = Model(cfg)
                    for o in since:
                        visit(o, c2, m2, model2, cfg, ignore)
                    _seen[key] = verdicts(c2, model2, m2, info)
            if v != _seen[key]:
                raise Bad("coverage is reported differently after the same visits: %r, alone %r" % (v, _seen[key]), **info)
        cov.add("traces", 1)
    cov.sample(lambda: "%s: %r ..." % (name, list(ops)))


INPUTS = ["aab b", "ab", "ba", "bab a", "a ", "aaaa", "b", "?a", ""]


def visits(cfg_name):
    out = [("t", t) for t in INPUTS]
    out += [("m", "ab"), ("m", "ba "), ("all", "aab"), ("all", "ba")]
    return out


def history_cases(big):
    for name in CFGS:
        vs = visits(name)
        ops = vs + ["clear"] + list(SILENT)
        for how, ignore in (("direct", True), ("shared", False), ("inherited", True)):
            for a in ops:
                yield name, how, ignore, (a,), (lambda ops=ops: [()] + [(x,) for x in ops])
            if big or (how == "direct"):
                for a in ops:
                    for b in ops:
                        if not big and (a in SILENT or a == "clear" or b in vs):
                            continue
                        yield name, how, ignore, (a, b), (lambda ops=ops if big else vs: [(x,) for x in ops])


def deep_cases(big):
    """Deeper histories over few operations."""
    few = [("t", "ab"), ("t", "aab b"), ("t", "ba a"), ("all", "aab"), "clear", "other", "dump1", "check"]
    if not big:
        few = few[:3] + ["clear", "other", "dump1"]
    for name in CFGS:
        for pre in itertools.product(few, repeat=2):
            yield name, "direct", True, pre, (lambda: itertools.product(few, repeat=3 if big else 2))


def run_inputs(case, cov):
    """All pairs of inputs."""
    name, first, second_len, ignore = case
    cfg = CFGS[name]
    seconds = [None] + ["".join(s) for s in fam.strings("ab ", 0, second_len)]
    c, g, m = fresh(name, "direct", ignore)
    for s in seconds:
        model = Model(cfg)
        c.clear_visited()
        visit(("t", first), c, m, model, cfg, ignore)
        if s is not None:
            visit(("t", s), c, m, model, cfg, ignore)
        cov.add("states", 1)
        cov.add("transitions", 2)
        verdicts(c, model, m, dict(config=name, inputs=[first, s], ignore_errors=ignore))
    cov.add("traces", len(seconds))


def run_sets(case, cov):
    """A rule set: transliterating exactly the inputs chosen by a subset of strings."""
    pats = case
    cfg = Cfg(fam.TOK, fam.named(pats) + [], [OM(("v",), ("k",), ",")])
    g = GT().from_dict(cfg.settings(), check_ambiguity=False, ignore_errors=True)
    m = index_map(g, cfg)
    c = mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, ignore_errors=True, check_ambiguity=False)
    texts = ["".join(s) for s in fam.strings("ab ", 1, 4)]
    # growing sets of inputs, from both ends and each one alone
    for order in (texts, texts[::-1]):
        c.clear_visited()
        model = Model(cfg)
        for t in order:
            visit(("t", t), c, m, model, cfg, True)
            cov.add("states", 1)
            cov.add("transitions", 1)
            if model.judge(None)[0] is not None:
                verdicts(c, model, m, dict(cfg=cfg, order="forwards" if order is texts else "backwards", upto=t))
        verdicts(c, model, m, dict(cfg=cfg, order="all"))
    for t in texts:
        c.clear_visited()
        model = Model(cfg)
        visit(("t", t), c, m, model, cfg, True)
        cov.add("states", 1)
        cov.add("transitions", 1)
        verdicts(c, model, m, dict(cfg=cfg, input=t))
    # every match, one at a time
    c.clear_visited()
    model = Model(cfg)
    for toks in fam.padded("ab ", 3):
        for i in range(1, len(toks) - 1):
            ks = c.match_at(i, toks, match_all=True)
            model.matched(toks, i, [m[k] for k in ks])
    model.rules |= set()
    verdicts(c, model, m, dict(cfg=cfg, order="match_at only"))
    cov.add("traces", 1)


def run_many(case, cov):
    """Many rules and on-match rules, visited one after another, all but one, and all."""
    n, left = case
    left = {"first": 0, "last": n - 1, "middle": n // 2, "late": n * 9 // 10}[left]
    toks = {"t%03d" % i: ("c%d" % i,) for i in range(n)}
    toks[" "] = ("wb",)
    cfg = Cfg(toks, [rule("[%d]" % i, [t]) for i, t in enumerate(toks)], [OM(("c%d" % i,), ("c%d" % i,), "-") for i in range(n)])
    g = GT().from_dict(cfg.settings(), check_ambiguity=False)
    make = lambda: mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, check_ambiguity=False)  # noqa

    def check(c, rules, oms, what):
        cov.add("states", 1)
        got = (c.check_coverage(raise_exception=False), c.check_onmatchrules_coverage(raise_exception=False))
        if got != (rules and oms, oms):
            raise Bad("%s: coverage checks say %r, must be %r" % (what, got, (rules and oms, oms)), rules=n, left_out=left)
        for f, want in ((c.check_coverage, rules and oms), (c.check_onmatchrules_coverage, oms)):
            if (outcome(f)[0] == "ok") is not want:
                raise Bad("%s: a check that raises differs" % what, rules=n, left_out=left)

    c = make()
    check(c, False, False, "nothing visited")
    names = [t for t in toks if t != " "]
    for t in names:
        if t != names[left]:
            c.transliterate(t + " " + t)
            c.transliterate(t + t)
    check(c, False, False, "all but one visited")
    c.transliterate(names[left])
    check(c, True, False, "one on-match rule not tried")
    c.transliterate(names[left] * 2)
    check(c, True, True, "everything visited")
    c.clear_visited()
    check(c, False, False, "cleared")
    c.transliterate("".join(t + t for i, t in enumerate(names) if i != left) + " ")
    check(c, False, False, "all but one visited in one call")
    c.transliterate(names[left] * 2)
    check(c, True, True, "everything visited again")
    cov.add("transitions", 2 * n)
    cov.add("traces", 1)


def cfg_of(gt):
    from mc.ref import onmatch_of, rule_of

    ws = gt.whitespace
    return Cfg(gt.tokens, [rule_of(r) for r in gt.rules], [onmatch_of(o) for o in gt.onmatch_rules or []], ws=(ws.default, ws.token_class, ws.consolidate))


def run_bundled(case, cov):
    """Bundled transliterators: covering inputs one at a time, and all but those for one rule."""
    name, method, part, of = case
    import graphtransliterator.transliterators as T

    c = getattr(T, name).new(method=method, coverage=True)
    plain = GT().load(c.dump())
    cfg = cfg_of(plain)
    m = list(range(len(cfg.rules)))
    first = {}
    for t, cs in cfg.tokens.items():
        for k in cs:
            first.setdefault(k, t)
    texts = []
    for r in cfg.rules:
        texts.append("".join([first[k] for k in r.pc] + list(r.pt) + list(r.t) + list(r.nt) + [first[k] for k in r.nc]))
    for o in cfg.onmatch:
        texts.append("".join([first[k] for k in o.pc] + [first[k] for k in o.nc]))
    model = Model(cfg)
    info = dict(bundled=name, method=method)

    def feed(ts, every):
        c.clear_visited()
        model.clear()
        for n, t in enumerate(ts):
            # learn what was matched from the details; the model only bounds
            got = outcome(c.transliterate, t)
            toks, bad = cfg.tokenize(t)
            model.can_try(toks)
            if got[0] == "ok":
                model.rules |= {index[id(r)] for r in c.last_matched_rules}
                i = 1
                for ts_ in c.last_matched_rule_tokens:
                    o = cfg.insertion(toks, i)
                    if o is not None:
                        model.ins.add(o)
                    i += len(ts_)
            cov.add("transitions", 1)
            if n % every == 0 or n == len(ts) - 1:
                cov.add("states", 1)
                verdicts(c, model, m, dict(info, inputs=n + 1))

    index = {id(r): k for k, r in enumerate(c.rules)}
    if part == 0:
        feed(texts, max(1, len(texts) // 60))
        feed(texts[::-1], max(1, len(texts) // 60))
        # the generated table is enough for the on-match rules that are not hidden by others
        c.clear_visited()
        model.clear()
        verdicts(c, model, m, dict(info, then="cleared"))
    else:
        # all inputs without the tokens of one rule
        for k in range(part - 1, len(cfg.rules), of):
            r = cfg.rules[k]
            c.clear_visited()
            used = 0
            for j, t in enumerate(texts):
                if "".join(r.t) in t:
                    continue
                if used < 40:
                    outcome(c.transliterate, t)
                    used += 1
            cov.add("states", 1)
            cov.add("transitions", used)
            if c.check_coverage(raise_exception=False):
                raise Bad("coverage complete although the tokens of rule %d never occurred" % k, rule=tuple(r), **info)
    cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    pats = fam.small_pool()
    sets = list(fam.subsets(pats, 1, 3 if big else 2))
    return [
        Phase("histories", lambda: history_cases(big), run_history, cpu_limit=120, note="all histories of up to 2 operations, and of 3 (quick: visit, silent operation or clear, visit): visiting, clearing, dumping, pruning, tokenizing, checking, using other transliterators"),
        Phase("deep", lambda: deep_cases(big), run_history, cpu_limit=300, note="all histories of %d operations out of %d" % ((5, 8) if big else (4, 6))),
        Phase("inputs", lambda: [(n, "".join(s), 4 if big else 3, i) for n in CFGS for s in fam.strings("ab ", 0, 4 if big else 3) for i in (True, False)], run_inputs, cpu_limit=120, note="all pairs of inputs"),
        Phase("rule-sets", lambda: sets, run_sets, note="rule sets of up to %d of %d patterns, inputs added one at a time" % (3 if big else 2, len(pats))),
        Phase("many", lambda: [(n, w) for n in (12, 60, 130, 260) + ((600,) if big else ()) for w in ("first", "last", "middle", "late")], run_many, cpu_limit=300, note="up to %d rules and on-match rules" % (600 if big else 260)),
        Phase("bundled", lambda: [("Example", me, p, 2) for me in ("yaml", "json") for p in (0, 1, 2)]
              + [("ITRANSDevanagariToUnicode", "json", p, 40 if not big else 10) for p in ((0, 1, 2, 3) if not big else range(11))], run_bundled, cpu_limit=300, note="bundled transliterators"),
    ]
