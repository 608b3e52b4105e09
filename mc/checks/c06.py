import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, build
from mc.ref import OM, Cfg, rule

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "cases = sets of whitespace tokens with a default and a consolidation setting, each with every input string within "
    "bounds; state = (configuration, input, token position); transition = one token kept, merged or dropped"
)
ASSUMPTIONS = [
    "the default whitespace token belongs to the whitespace class",
    "a single whitespace token inside the input is kept as it is",
    "scope: token sets and inputs within the bounds stated per phase",
]


def judge(g, cfg, s, cov, translit=True):
    toks, bad = cfg.tokenize(s)
    got = g.tokenize(s)
    cov.add("states", len(toks))
    cov.add("transitions", len(s))
    cov.add("traces", 1)
    if list(got) != toks:
        raise Bad("wrong tokens", tokens=cfg.tokens, whitespace=cfg.ws, input=s, got=got, expected=toks)
    if translit:
        out = g.transliterate(s)
        if not cfg.explore(toks, out, ignore=True)[0]:
            raise Bad("wrong output", cfg=cfg, input=s, got=out, expected=cfg.run(toks, True)[2])


def tokens_of(wss, extra_class):
    toks = {"a": ("v",), "b": ("v", "k")}
    for i, w in enumerate(wss):
        toks[w] = ("wb",) + (("k",) if extra_class and i == len(wss) - 1 else ())
    return toks


def cases(hi, wsets):
    def gen():
        for wss in wsets:
            for d in wss:
                for cons in (True, False):
                    for extra in (False, True):
                        toks = tokens_of(wss, extra)
                        rules = [rule("[%s]" % t.encode("unicode_escape").decode(), [t]) for t in toks]
                        rules += [rule("A|", "a", nc=["wb"]), rule("|A", "a", pc=["wb"]), rule("|B", "b", pt=[d])]
                        if len(wss) > 1:
                            rules.append(rule("other+A", "a", pt=[wss[-1] if d == wss[0] else wss[0]]))
                        oms = [OM(("wb",), ("v",), "{"), OM(("v",), ("wb",), "}")] if extra else []
                        alpha = ["a", "b"] + list(wss)
                        texts = ["".join(t) for t in fam.strings(alpha, 0, hi)]
                        yield Cfg(toks, rules, oms, (d, "wb", cons)), texts

    return gen


def run(case, cov):
    cfg, texts = case
    g = build(cfg)
    if tuple(g.whitespace) != tuple(cfg.ws):
        raise Bad("whitespace settings differ", cfg=cfg, got=g.whitespace)
    for s in texts:
        judge(g, cfg, s, cov)


def run_ignore(case, cov):
    cfg, texts = case
    g = build(cfg, ignore_errors=True)
    for s in texts:
        judge(g, cfg, s, cov)


def run_reload(case, cov):
    cfg, texts = case
    g0 = build(cfg)
    for g in (GT().load(g0.dump()), GT().loads(g0.dumps(1)), GT().loads(g0.dumps()), g0.pruned_of("nothing")):
        for s in texts:
            judge(g, cfg, s, cov)


def ignored(hi):
    for cfg, _ in cases(0, [(" ",), (" ", "_")])():
        alpha = ["a", "?"] + [w for w in cfg.tokens if "wb" in cfg.tokens[w]]
        yield cfg, ["".join(t) for t in fam.strings(alpha, 0, hi)]


def long_(big):
    for cons in (True, False):
        toks = {"a": ("v",), " ": ("wb",), "\t": ("wb",), "\n": ("wb", "nl")}
        rules = [rule(t, [t]) for t in toks]
        texts = []
        for n in (0, 1, 2, 3, 10, 100, 1000) + ((20000,) if big else ()):
            for w in (" ", "\t", "\n", " \t", "\t ", "\n \t"):
                texts += [w * n, "a" + w * n + "a", w * n + "a", "a" + w * n, ("a" + w * 2) * n, (w + "a") * n]
        for n in (2100, 4200, 9000):
            texts += ["a" * n + w for w in (" ", "\t\n", "  ")] + [w + "a" * n for w in (" ", "\t ")] + ["a" * n + "  " + "a" * n, " " * n + "a", "a" + "\t" * n]
        for d in (" ", "\t", "\n"):
            yield Cfg(toks, rules, (), (d, "wb", cons)), texts


def multiclass(hi):
    """Whitespace classes shared with, or added to, other tokens; names of the class."""
    for cls in ("wb", "whitespace", "v", " ", "x y"):
        for cons in (True, False):
            toks = {"a": ("q", "r"), "b": (cls + "2", cls.upper() + "_"), "-": ("q", cls), " ": (cls, "q")}
            rules = [rule(t, [t]) for t in toks] + [rule("a!", "a", pc=[cls])]
            for d in (" ", "-"):
                yield Cfg(toks, rules, (), (d, cls, cons)), ["".join(t) for t in fam.strings("ab- ", 0, hi)]


def blank(hi):
    """Whitespace tokens of many classes, and blank characters that are no whitespace tokens."""
    for n in (0, 1, 2, 3, 4, 8):
        more = tuple("c%d" % i for i in range(n))
        for cons in (True, False):
            for order in (more + ("wb",), ("wb",) + more):
                toks = {"a": ("v",) + more, " ": order, "_": ("wb",), "\n": more, "\t": ("c0",), "\u00a0": ()}
                rules = [rule("[%s]" % t.encode("unicode_escape").decode(), [t]) for t in toks] + [rule("a!", "a", pc=["wb"])]
                for d in (" ", "_"):
                    yield Cfg(toks, rules, (), (d, "wb", cons)), ["".join(t) for t in fam.strings("a _\n", 0, hi)] + ["".join(t) for t in fam.strings("a \t\u00a0", 0, hi)]


def phases(tier):
    big = tier == "thorough"
    wsets = [(" ",), ("_",), (" ", "\t"), ("\t", " "), (" ", "  "), ("_", " _"), (" ", "\t", "\n"), ("--", "-"), (" ", "aa"), (" ", "\u00a0"), ("\u3000", " ", "\u200b")]
    return [
        Phase("long", lambda: long_(big), run, note="long runs of whitespace"),
        Phase("classes", lambda: multiclass(6 if big else 5), run, note="class names and shared classes"),
        Phase("blank", lambda: blank(6 if big else 4), run, note="whitespace tokens of many classes; blank tokens that are not whitespace"),
        Phase("sets", cases(7 if big else 5, wsets), run, note="11 sets of whitespace tokens, every default, with and without consolidation"),
        Phase("ignored", lambda: ignored(7 if big else 6), run_ignore, note="with unrecognizable characters that are ignored"),
        Phase("reloaded", cases(4, wsets), run_reload, note="after dumping and loading, and pruning"),
    ]
