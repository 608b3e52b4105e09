import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, Pool, build, index_map
from mc.ref import OM, Cfg, rule

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "cases = configurations and sequences of calls on one transliterator; state = (configuration, history so far); "
    "transition = one call, after which the match details are compared with the model's run"
)
ASSUMPTIONS = [
    "calls whose input cannot be tokenized make no claim about the details reported after them",
    "among equally specific rules any may be matched",
    "scope: configurations and histories within the bounds stated per phase",
]


def follows(cfg, toks, ks, ignore):
    """Is ks (indexes of rules) the sequence of matches of a run over toks?
    Returns (valid, output, skipped any, completed)."""
    i, out, skipped, n = 1, "", False, 0
    while i < len(toks) - 1:
        b = cfg.best(toks, i)
        if not b:
            if not ignore:
                return n == len(ks), out, skipped, False
            i += 1
            skipped = True
            continue
        if n >= len(ks) or ks[n] not in b:
            return False, out, skipped, False
        o = cfg.insertion(toks, i)
        out += (cfg.onmatch[o].prod if o is not None else "") + cfg.rules[ks[n]].prod
        i += len(cfg.rules[ks[n]].t)
        n += 1
    return n == len(ks), out, skipped, True


def judge(g, cfg, m, s, ignore, cov, between=None):
    toks, bad = cfg.tokenize(s)
    try:
        got = ("ok", g.transliterate(s))
    except Exception as e:
        got = ("exc", type(e).__name__)
    cov.add("states", 1)
    cov.add("transitions", 1)
    if between:
        between(g)
    if bad and not ignore:
        return
    info = dict(cfg=cfg, input=s, ignore_errors=ignore, result=got)
    tk = list(g.last_input_tokens)
    if tk != toks:
        raise Bad("wrong last input tokens", got=tk, expected=toks, **info)
    rules = list(g.last_matched_rules)
    lib = list(g.rules)
    ks = []
    for r in rules:
        if r not in lib:
            raise Bad("a matched rule is not a rule of the transliterator", got=r, **info)
        ks.append(m[lib.index(r)])
    ok, out, skipped, done = follows(cfg, toks, ks, ignore)
    if not ok:
        raise Bad("wrong matched rules", got=rules, expected=[cfg.rules[k] for k in cfg.run(toks, ignore)[0]], **info)
    rt = [list(x) for x in g.last_matched_rule_tokens]
    if rt != [list(cfg.rules[k].t) for k in ks]:
        raise Bad("matched rule tokens are not those of the matched rules", got=rt, rules=rules, **info)
    if done != (got[0] == "ok"):
        raise Bad("the details describe a %s run" % ("complete" if done else "failing"), **info)
    if done:
        if got[1] != out:
            raise Bad("the output is not that of the matched rules", rules=rules, expected=out, **info)
        if not skipped:
            flat = [x for l in rt for x in l]
            inner = toks[1:]
            if flat != inner[:-1] and flat != inner:
                raise Bad("joined rule tokens are not the input tokens", got=flat, **info)
    cov.add("traces", 1)


def run_texts(case, cov):
    cfg, texts = case
    for ignore in (False, True):
        g = build(cfg, ignore_errors=ignore)
        m = index_map(g, cfg)
        for s in texts:
            judge(g, cfg, m, s, ignore, cov)


CFGS = [
    Cfg(fam.TOK, fam.BASE_RULES + [rule("AB", "ab"), rule("A!", "a", pt="b"), rule("BB", "bb", nc=["v"])], [OM(("v",), ("v",), "+")]),
    Cfg(fam.TOK, [rule("A", "a"), rule("A2", "a", nt="b"), rule("_", " ")], [OM(("v",), ("v",), "+"), OM(("wb",), ("k",), "-")]),
    Cfg({"ab": ("v",), "b": ("k",), " ": ("wb",), "\t": ("wb",)}, [rule("1", ["ab"]), rule("1", ["b"], pt=["ab"]), rule("", [" "]), rule("", ["b", "b"])], ws=(" ", "wb", True)),
    Cfg(fam.TOK, [rule("A", "a"), rule("A", "aa"), rule("", "b"), rule("_", " ")]),
]
INPUTS = ["", "a", "ab", "bab", "a b", "bb", "aab ", "?", "a?", " \t", "abb?b"]


def between_ops():
    def others(g):
        for op in (lambda: g.tokenize("ba"), lambda: g.match_at(1, [" ", "a", "b", " "]), lambda: g.match_at(1, [" ", "b", " "], match_all=True), g.dump, g.dumps,
                   lambda: g.pruned_of("A"), lambda: g.tokenize("??"), lambda: (g.rules, g.productions, g.graph, g.tokens),
                   lambda: g.pruned_of("zz").transliterate("a"), lambda: GT().load(g.dump()).transliterate("ab")):
            try:
                op()
            except Exception:
                pass
        # the other setting for errors for a while, and once more the same one
        old = g.ignore_errors
        for value in (old, not old, old):
            g.ignore_errors = value
        for name in ("check_coverage", "check_onmatchrules_coverage"):
            if hasattr(g, name):
                getattr(g, name)(raise_exception=False)
        if hasattr(g, "clear_visited"):
            g.clear_visited()

    return others


def run_history(hist, cov):
    for cfg in CFGS:
        for ignore in (False, True):
            g = memo_build(cfg, ignore)
            m = memo_build(cfg, ignore, True)
            for s in hist:
                judge(g, cfg, m, s, ignore, cov)


_memo = {}


def memo_build(cfg, ignore, want_map=False):
    key = id(cfg)
    if key not in _memo:
        b = build(cfg)
        _memo[key] = b, index_map(b, cfg)
    b, m = _memo[key]
    if want_map:
        return m
    return GT()(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules, ignore_errors=ignore, check_ambiguity=False)


def run_between(case, cov):
    ci, ignore, hist = case
    cfg = CFGS[ci]
    for cls in (GT(), __import__("graphtransliterator").CoverageTransliterator):
        b, m = None, memo_build(cfg, ignore, True)
        b = _memo[id(cfg)][0]
        g = cls(b.tokens, b.rules, b.whitespace, onmatch_rules=b.onmatch_rules, ignore_errors=ignore, check_ambiguity=False)
        for s in hist:
            judge(g, cfg, m, s, ignore, cov, between_ops())


def run_pool(cfg0, texts):
    memo = {}

    def run(ks, cov):
        if "p" not in memo:
            memo["p"] = Pool(cfg0)
        ks = (0, 1, 2) + tuple(k + 3 for k in ks)
        for drop in ((), (1,)):
            use = [k for k in ks if k not in drop]
            g, cfg = memo["p"].sub(use, ignore_errors=bool(drop))
            m = index_map(g, cfg)
            for s in texts:
                judge(g, cfg, m, s, bool(drop), cov)

    return run


def sweep(big):
    for name, cfg, inputs in fam.sweep_cfgs(big):
        for lo in range(0, len(inputs), 300):
            yield cfg, inputs[lo : lo + 300]
    for n in (100, 1000, 5000):
        yield CFGS[0], ["ab" * n, "aab b" * n, "b" * n + "?"]


def phases(tier):
    big = tier == "thorough"
    pool = fam.pool(("a", "b", "ab", "ba", "b_"), fam.CTX)
    pool = [p for p in pool if sum(map(len, p)) > 1]
    cfg0 = Cfg(fam.TOK, fam.BASE_RULES + fam.named(pool), [OM(("v",), ("v",), "+")])
    # every production the same as that of the base rule for the first token, or empty
    same = cfg0.replace(rules=fam.BASE_RULES + [r._replace(prod={"a": "A", "b": ""}[r.t[0]]) for r in fam.named(pool)])
    texts = ["".join(t) for t in fam.strings("ab ", 0, 4 if big else 3)]
    return [
        Phase("equal", lambda: fam.subsets(range(len(pool)), 1, 2), run_pool(same, texts), note="every pair of extra rules with the productions of others"),
        Phase("sweep", lambda: sweep(big), run_texts, note="large configurations and long inputs"),
        Phase("inputs", lambda: [(c, ["".join(t) for t in fam.strings("ab ?\t", 0, 6 if big else 5)][o::16]) for c in CFGS for o in range(16)], run_texts, note="every input, one after the other"),
        Phase("histories", lambda: fam.strings(INPUTS, 1, 4 if big else 3), run_history, note="every sequence of up to %d calls from 11 inputs" % (4 if big else 3)),
        Phase("between", lambda: [(c, i, h) for c in range(len(CFGS)) for i in (False, True) for h in fam.strings(INPUTS, 1, 2 if big else 1)], run_between, note="other operations after every call, also with coverage logging"),
        Phase("pairs", lambda: fam.subsets(range(len(pool)), 0, 2), run_pool(cfg0, ["".join(t) for t in fam.strings("ab ", 0, 5 if big else 4)]), note="every pair of extra rules"),
    ]
