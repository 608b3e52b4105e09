import itertools
import json
import os

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, onmatch_list, outcome, same_rules
from mc.ref import OM, Cfg, R, easy_key, need, rule

ID = "C15"
LEVEL = "model_checking"
RULE = (
    "cases = batches of rules written in easy-reading notation; state = one rule or on-match rule, whose notation is printed from its five "
    "(two) parts; transition = one construction on the implementation; traces = rules whose parsed parts equal those written"
)
ASSUMPTIONS = [
    "whitespace tokens are written next to classes or in contexts in no rule; other tokens contain no whitespace and no bracket ( ) < > unless they are the only content of the rule; items are separated by single spaces as documented",
    "class names contain no bracket, and in on-match rules no whitespace or plus sign",
    "scope: numbers of items and alphabets listed per phase",
]

PUNCT = list(".,+*?[]{}|\\^$#:;-'\"`~!@%&/=_")
TOKENS = ["a", "b"] + PUNCT + ["aa", "A", "1", "-1", "0", "null", "true", "a-b", "a'b", "--", "...", "\\N", "\\d", "%s", "{0}", "?:", "[a]", "|b", "\u0905", "\u094d", "e\u0301", "\U0001f600", "\u200d", "~n", "ABCDEFGHIJKLMNOPQRST", "abcdefghijklmnopqrstuvwxyz", "x\u200by", "x\u00a0y", "x\ty"]
BRACKETS = ["(", ")", "<", ">"]
SPACED = ["x y", "v +", "+", "a  b", "x y z"]  # class names usable in rules only
BLANKS = ["\t", "\u3000", "\u00a0", "\n", "\r", "\u2003", "\x0b", "\u2028"]  # tokens in rules without classes around the tokens
CLASSES = ["v", "k", "vowel_1", "a-b", "1", "\u0915", "c.d", "V", "wb", "?", "*", "CONSONANTS_INITIAL", "\u00c9TAT"]


def expected(cfg):
    return sorted(cfg.rules, key=lambda r: -need(r))


def verify(g, cfg, info):
    got = same_rules(g)
    want = expected(cfg)
    if got != want:
        diff = [(w, easy_key(w), [x for x in got if x.prod == w.prod]) for w in want if w not in got]
        raise Bad("rules differ from those written", differences=diff[:3], order_only=not diff, **info)
    if onmatch_list(g) != list(cfg.onmatch):
        raise Bad("on-match rules differ from those written", got=onmatch_list(g), expected=cfg.onmatch, **info)
    if {k: set(v) for k, v in g.tokens.items()} != {k: set(v) for k, v in cfg.tokens.items()}:
        raise Bad("tokens differ from those written", got=g.tokens, **info)
    if (g.whitespace.default, g.whitespace.token_class, g.whitespace.consolidate) != tuple(cfg.ws):
        raise Bad("whitespace settings differ from those written", got=g.whitespace, **info)


def batch(tokens, patterns):
    return Cfg(tokens, [R("<%d>" % i, *p) for i, p in enumerate(patterns)])


TOKS = {"a": ("v",), "b": ("v", "k"), " ": ("wb",)}
ALL2 = {}


def run_parts(case, cov):
    """All five-part rules with the given outer parts."""
    (pc, pt, nt, nc), maxlen = case
    cfg = batch(TOKS, [(pc, pt, t, nt, nc) for t in fam.seqs("ab", 1, maxlen)])
    g = GT().from_easyreading_dict(cfg.easy(), check_ambiguity=False)
    verify(g, cfg, dict(parts=case))
    cov.add("states", len(cfg.rules))
    cov.add("transitions", 1)
    cov.add("traces", len(cfg.rules))


def run_numbers(case, cov):
    """Long parts."""
    ns = case
    names = [chr(0x3B1 + i) for i in range(12)]
    toks = {t: ("c%d" % i,) for i, t in enumerate(names)}
    toks[" "] = ("wb",)
    take = lambda n, off, pre="": tuple((pre + str((i + off) % 12)) if pre else names[(i + off) % 12] for i in range(n))  # noqa
    r = R("x", take(ns[0], 0, "c"), take(ns[1], 3), take(max(1, ns[2]), 5), take(ns[3], 7), take(ns[4], 9, "c"))
    cfg = Cfg(toks, [r])
    verify(GT().from_easyreading_dict(cfg.easy()), cfg, dict(numbers=ns))
    cov.add("states", 1)
    cov.add("transitions", 1)
    cov.add("traces", 1)


def shapes(p, q, c, d):
    """Patterns with the tokens p, q and classes c, d in every role."""
    out = []
    for t in ((p,), (q, p), (p, q), (p, p)):
        out += [((), (), t, (), ()), ((c,), (), t, (), ()), ((), (), t, (), (d,)), ((c,), (), t, (), (d,)), ((c, d), (), t, (), (d, c))]
    for pt, nt in (((p,), ()), ((), (p,)), ((p,), (q,)), ((q, p), ()), ((), (q, p)), ((p, q), (q, p)), ((q,), (p, p))):
        for t in ((p,), (q,)):
            out += [((), pt, t, nt, ())]
            if pt:
                out += [((c,), pt, t, nt, ()), ((c, d), pt, t, nt, ())]
            if nt:
                out += [((), pt, t, nt, (d,)), ((), pt, t, nt, (d, c))]
            out += [((c,), pt, t, nt, (d,)), ((d, c), pt, t, nt, (c, d))]
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def run_tokens(case, cov):
    p, q, c, d = case
    toks = {p: (c,), q: (c, d), " ": ("wb",)}
    cfg = batch(toks, shapes(p, q, c, d))
    verify(GT().from_easyreading_dict(cfg.easy(), check_ambiguity=False), cfg, dict(tokens=(p, q), classes=(c, d)))
    cov.add("states", len(cfg.rules))
    cov.add("transitions", 1)
    cov.add("traces", len(cfg.rules))


def run_sole(case, cov):
    """Rules consisting of one token of any kind."""
    toks = {t: ("v",) for t in case}
    toks[" "] = ("wb",)
    cfg = batch(toks, [((), (), (t,), (), ()) for t in list(case) + [" "]])
    verify(GT().from_easyreading_dict(cfg.easy()), cfg, dict(tokens=case))
    cov.add("states", len(cfg.rules))
    cov.add("transitions", 1)
    cov.add("traces", len(cfg.rules))


def run_blanks(case, cov):
    """Whitespace tokens among the tokens of a rule."""
    w = case
    toks = {"a": ("v",), "b": ("k",), w: ("wb",), " ": ("wb",)}
    ts = [t for n in (1, 2, 3, 4) for t in itertools.product(("a", "b", w), repeat=n)]
    pats = [((), (), t, (), ()) for t in ts] + [(pc, ("a",), t, (), ()) for t in ts for pc in ((), ("v",), ("k", "v"))]
    cfg = batch(toks, pats)
    verify(GT().from_easyreading_dict(cfg.easy(), check_ambiguity=False), cfg, dict(blank=w))
    cov.add("states", len(cfg.rules))
    cov.add("transitions", 1)
    cov.add("traces", len(cfg.rules))


def run_onmatch(case, cov):
    classes, pcs, ncs = case
    toks = {"a": tuple(classes), " ": ("wb",)}
    oms = [OM(p, n, "{%d}" % i) for i, (p, n) in enumerate(itertools.product(pcs, ncs))]
    cfg = Cfg(toks, [rule("A", "a"), rule("_", " ")], oms)
    verify(GT().from_easyreading_dict(cfg.easy()), cfg, dict(classes=classes))
    cov.add("states", len(oms))
    cov.add("transitions", 1)
    cov.add("traces", len(oms))


def long_onmatch():
    for n in (9, 17, 33, 70, 130):
        cs = ["c%d" % i for i in range(n)]
        for p, q in ((cs, cs[:1]), (cs[:1], cs), (cs, cs[::-1]), (["c0"] * n, ["c0"] * n)):
            yield tuple(cs), [tuple(p), tuple(p[:-1]) or tuple(p)], [tuple(q)]


def yaml_texts(cfg):
    import yaml

    s = cfg.easy()
    yield "block", yaml.safe_dump(s, allow_unicode=True, sort_keys=False)
    yield "flow", yaml.safe_dump(s, allow_unicode=True, default_flow_style=True, width=60, sort_keys=False)
    yield "ascii", yaml.safe_dump(s, default_style='"', sort_keys=False)
    yield "json", json.dumps(s, ensure_ascii=False)


def run_routes(case, cov):
    """The same settings by every route are the same transliterator."""
    cfg, inputs = case
    import yaml

    G = GT()
    d = G.from_dict(cfg.settings(), check_ambiguity=False)
    kw = dict(check_ambiguity=False)
    made = [("easy", G.from_easyreading_dict(cfg.easy(), **kw))]
    path = os.path.join(os.environ["MC_TMP"], "c15-%d.yaml" % os.getpid())
    texts = list(yaml_texts(cfg))
    for name, text in texts:
        made.append(("yaml " + name, G.from_yaml(text, **kw)))
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        made.append(("yaml file " + name, G.from_yaml_file(path, **kw)))
        made.append(("loaded " + name, G.from_easyreading_dict(yaml.safe_load(text), **kw)))
    for name, g in [("direct", d)] + made:
        verify(g, cfg, dict(route=name, cfg=cfg))
        if (g.metadata or {}) != (cfg.metadata or {}):
            raise Bad("metadata differ", route=name, cfg=cfg, got=g.metadata)
        for s in inputs:
            if outcome(g.transliterate, s) != outcome(d.transliterate, s) or outcome(g.tokenize, s) != outcome(d.tokenize, s):
                raise Bad("transliterates differently", route=name, cfg=cfg, input=s, got=outcome(g.transliterate, s), expected=outcome(d.transliterate, s))
        cov.add("states", 1)
        cov.add("transitions", 1)
        cov.add("traces", 1)


def run_yaml_tokens(case, cov):
    """Token and class names reaching the library through YAML text."""
    p, q, c, d = case
    toks = {p: (c,), q: (c, d), " ": ("wb",)}
    pats = shapes(p, q, c, d)[::4]
    cfg = Cfg(toks, [R("%s%d" % (p, i), *x) for i, x in enumerate(pats)], [OM((c,), (d,), q)], metadata={"t": p})
    for name, text in yaml_texts(cfg):
        if "\\N" in text or name == "ascii" and "\\" in p + q:
            continue  # C16
        g = GT().from_yaml(text, check_ambiguity=False)
        if sorted(same_rules(g)) != sorted(cfg.rules) or onmatch_list(g) != list(cfg.onmatch) or set(g.tokens) != set(toks):
            raise Bad("rules differ from those written", tokens=(p, q), classes=(c, d), text=text, got=same_rules(g))
        cov.add("transitions", 1)
    cov.add("states", len(pats))
    cov.add("traces", len(pats))


def route_cfgs(big):
    texts = ["".join(t) for t in fam.strings("ab ", 0, 4 if big else 3)] + ["?", "abba ab"]
    base = fam.BASE_RULES
    out = []
    for i, p in enumerate(fam.pool()):
        for ws in ((" ", "wb", False), (" ", "wb", True)):
            if " " in p[1] + p[3]:
                continue  # a blank as context token has no notation
            rs = [r for r in base if r[1:] != p] + [R("<x>", *p)]
            out.append((Cfg(fam.TOK, rs, [OM(("v",), ("v",), "+"), OM(("v", "k"), ("wb",), "")][: i % 3], ws=ws, metadata=[None, {}, {"name": "n", "v": [1, None]}][i % 3]), texts))
    # productions that a parser might trim, split or interpret
    prods = PRODS
    for i, p in enumerate(prods):
        for ws in ((" ", "wb", False), (" ", "wb", True)):
            q = prods[i - 1]
            rs = [rule(p, "a"), rule(q, "b"), rule(p, " "), rule(q + p, "ab"), rule(p + q, "a", pt="b", nc=["k"])]
            out.append((Cfg(fam.TOK, rs, [OM(("v",), ("v",), p), OM(("wb",), ("k",), q)], ws=ws, metadata={"p": p, "q": [q, {p: q}]}), texts))
    return out


PRODS = ["", " ", "  ", " x", "x ", " x y ", "\n", "x\n", "\n\nx", "\t", "a b", "<v>", "(a)", "a (b)", "<v> + <v>", "+", ":", "a: b", "- a", "# c", "x #y", "'", '"', "'x'", '"x"', "\\", "\\n", "{}", "[a]", "null", "~", "true", "No",
         "1", "1.0", "0x1", "1e3", "2001-01-01", "%", "@", "`", "!x", "&x", "*x", "|", ">", "?", "=", "<<", "\u0905 ", "\u00a0x\u00a0", "\u200d", "\u3000", "\U0001f600", "e\u0301", "%s", "{0}", "N{x}", "---", "..."]


def phases(tier):
    big = tier == "thorough"
    short = lambda al, n=2: fam.seqs(al, 0, n)  # noqa
    outer = list(itertools.product(short("vk"), short("ab"), short("ab"), short("vk")))
    P = itertools.product
    one = [(p, "b" if p != "b" else "a", "v", "k") for p in TOKENS]
    pairs = [(p, q, "v", "k") for p in TOKENS for q in (TOKENS if big else PUNCT[:12] + ["a", "\u0905"]) if p != q]
    cls = [("a", ".", c, d) for c in CLASSES for d in CLASSES if c != d]
    cls += [("a", ".", c, d) for c in SPACED for d in SPACED + ["v"] if c != d]
    cs3 = [("v", "k", "wb"), ("a-b", "1", "\u0915"), ("c.d", "V", "vowel_1"), ("?", "*", "("), ("CONSONANTS_INITIAL", "VOWELS_AND_MORE_VOWELS", "wb"), ("\u00c9", "\u00e9", "E")]
    return [
        Phase("sole", lambda: [tuple(TOKENS[i : i + 9]) for i in range(0, len(TOKENS), 9)] + [(x,) for x in BRACKETS] + [tuple(BRACKETS)] + [("\t",), ("\u00a0", "a")], run_sole, note="rules of one token, including brackets and whitespace"),
        Phase("parts", lambda: [(o, 3 if not big else 4) for o in outer], run_parts, note="every combination of the five parts, up to two items each and three tokens"),
        Phase("numbers", lambda: itertools.chain(P(range(0, 4), range(0, 4), range(1, 4), range(0, 4), range(0, 4)) if not big else P((0, 1, 2, 5, 11), repeat=5), P((0, 20, 70), (0, 33, 130), (1, 40, 300), (0, 35, 70), (0, 50))), run_numbers, note="parts of different lengths, all items distinct"),
        Phase("tokens", lambda: one + pairs + cls, run_tokens, note="punctuation and other tokens and class names in every role"),
        Phase("blanks", lambda: BLANKS, run_blanks, note="whitespace characters other than the space as tokens of rules"),
        Phase("onmatch", lambda: [(c, fam.seqs(c, n, n), fam.seqs(c, m, m)) for c in cs3[:3] for n in (1, 2, 3) for m in (1, 2, 3)] + list(long_onmatch()), run_onmatch, note="on-match rules with up to three classes on each side, and with up to 130"),
        Phase("routes", lambda: route_cfgs(big), run_routes, note="YAML text in four styles, YAML files, loaded dictionaries, direct settings"),
        Phase("yaml-tokens", lambda: one + [x for x in cls if x[2] in CLASSES] + (pairs if big else []), run_yaml_tokens, note="odd tokens and classes through YAML"),
    ]
