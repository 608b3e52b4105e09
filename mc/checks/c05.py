import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import build
from mc.ref import Cfg, rule

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "cases = token sets, each with every input string within bounds; state = (token set, input, character position); "
    "transition = one token taken; the token list of the implementation is compared with that of the model"
)
ASSUMPTIONS = ["consolidation is off (C06 covers it)", "scope: token sets and inputs within the bounds stated per phase"]


def judge(g, cfg, s, cov):
    toks, bad = cfg.tokenize(s)
    cov.add("states", len(toks) - 1)
    cov.add("transitions", len(toks) - 1)
    try:
        got = g.tokenize(s)
    except Exception as e:
        if bad and type(e).__name__ == "UnrecognizableInputTokenException":
            return
        raise Bad("tokenize raises %s: %s" % (type(e).__name__, e), tokens=cfg.tokens, input=s, expected=toks)
    cov.add("traces", 1)
    if bad:
        raise Bad("input with a character that starts no token is accepted", tokens=cfg.tokens, input=s, got=got)
    if list(got) != toks:
        raise Bad("wrong tokens", tokens=cfg.tokens, input=s, got=got, expected=toks)
    if "".join(got[1:-1]) != s:
        raise Bad("tokens do not join to the input", tokens=cfg.tokens, input=s, got=got)


def cfg_of(tokens, default=" "):
    toks = {t: ("x",) for t in tokens}
    toks[default] = ("wb",)
    return Cfg(toks, [rule("X", [tokens[0] if tokens else default])], ws=(default, "wb", False))


def run(case, cov):
    tokens, default, texts = case
    cfg = cfg_of(tokens, default)
    g = build(cfg)
    for s in texts:
        judge(g, cfg, s, cov)


def run_reload(case, cov):
    """The same on a transliterator reloaded from dumps, and through transliterate."""
    from mc.impl import GT

    tokens, default, texts = case
    cfg = cfg_of(tokens, default)
    g0 = build(cfg)
    cfg = cfg.replace(rules=[rule("X", [t]) for t in cfg.tokens])
    g1 = build(cfg)
    for g in (GT().loads(g0.dumps(0)), GT().loads(g0.dumps())):
        for s in texts:
            judge(g, cfg, s, cov)
    for s in texts:
        toks, bad = cfg.tokenize(s)
        if not bad:
            g1.transliterate(s)
            if list(g1.last_input_tokens) != toks:
                raise Bad("wrong last input tokens", tokens=cfg.tokens, input=s, got=g1.last_input_tokens, expected=toks)


SPECIAL = list(".^$*+?{}[]\\|()-#&~!/'\"<>=:,;@%_`") + [
    "\n", "\t", "\r", "\x0b", "\x0c", "\x00", "\x1c", "\x85", "\u00a0", "\u2028", "A", "a", "0", "9", "\u00df", "\u1e9e", "\u017f", "K", "\u212a", "\u0130", "i", "I",
    "\u0131", "e", "\u0301", "\u00e9", "\u0915", "\u094d", "\u200c", "\u200d", "\ufeff", "\ufb01", "\U0001f600", "\U00010400", "\ud55c", "\u1112", "\uffff",
]


def specials(big):
    n = len(SPECIAL)
    for i, x in enumerate(SPECIAL):
        yield (x,), " ", ["".join(t) for t in fam.strings((x, " ", "b" if x != "b" else "c"), 0, 3)] + [x.upper(), x.lower(), x.swapcase(), x + "\u0301"]
        for j, y in enumerate(SPECIAL):
            if i == j:
                continue
            for tokens in ((x, y), (x, x + y), (x + y, y), (x + y, y + x), (x + x, y), (x, x + y + x)):
                if not big and (i + j) % 2 and tokens != (x, x + y):
                    continue
                yield tokens, " ", ["".join(t) for t in fam.strings((x, y), 0, 4 if big else 3)]


def classes_and_escapes():
    """Texts that mean something to a regular expression, as tokens."""
    odd = ["\\d", "\\w", "\\s", "\\b", "\\Z", "\\A", "\\n", "\\1", "\\x41", "\\N{DIGIT ONE}", "[a-z]", "[^a]", "a|b", "(a)", "(?:a)", "(?i)a", "(?#x)", "a*", "a+", "a?", "a{2}", "^a", "a$",
           ".", "..", "a.", ".a", "-", "a-b", "&&", "||", "~~", "--", "[", "]", "[]", "{", "}", "%s", "%d", "{0}", "$1"]
    plain = ["a", "b", "A", "1", "d", "w", "aa", "z", "\n", "\\"]
    for t in odd:
        for u in odd:
            texts = [t, u, t + u, u + t, t + t, t[:-1], t[1:], "a", "aa", "b", "1", "A"] + [p + t for p in plain] + [t + p for p in plain]
            yield (t, u) if t != u else (t,), " ", texts
        for u in plain:
            yield (t, u), " ", [t, u, t + u, u + t, u + u, t + t, "ab", "ba", "aa", "1", "\n", "A", "a" + t]


def sets(items, lo, hi, texts):
    def cases():
        for n in range(lo, hi + 1):
            for c in itertools.combinations(items, n):
                for order in ((c, c[::-1]) if n > 1 else (c,)):
                    yield order, " ", texts

    return cases


def large(big):
    for n in (1, 2, 7, 31, 32, 33, 64, 100, 200) + ((500,) if big else ()):
        # tokens of many lengths
        tokens = tuple("a" * k for k in range(1, n + 1, max(1, n // 25))) + ("b",)
        yield tokens, " ", ["a" * k + t for k in range(0, n * 2 + 1, max(1, n // 12)) for t in ("", "b", "ba", " a")]
    for n in (50, 99, 100, 101, 255, 256, 257, 600) + ((3000,) if big else ()):
        names = tuple(chr(0x4E00 + i) for i in range(n))
        names += tuple(names[i] + names[(3 * i + 1) % n] for i in range(0, n, 2))
        yield names, " ", ["".join(names[:n]), "".join(names[:n][::-1]), "".join(names), " ".join(names[-5:]), names[0] * 3 + "?"]
    # many tokens that are alike but for case, width or normal form
    for n in (30, 120, 260):
        names = tuple("%s%d" % (c, i) for i in range(n // 4) for c in ("a", "A", "\uff41", "\u00e9", "e\u0301"))
        for drop in (1, 2, 3):
            some = names[::drop]
            yield some, " ", ["".join(some[::7]), "".join(some[::-5]), names[0] + "?" + names[-1].upper(), " ".join(names[::11]), "".join(names[-9:])]
    # long inputs
    for n in (1000, 10000) + ((100000,) if big else ()):
        for tokens in (("a", "ab", "abc", "b", "c"), ("aab", "ab", "a", "c")):
            yield tokens, " ", ["abc" * n, "aab" * n, ("a" * 7 + "b ") * (n // 8), "a" * n + "?", " " * n]


ASCII = [chr(i) for i in range(32, 127)]


def ranges(big):
    """Sets of single characters, alone and with longer tokens, and every ASCII character as input."""
    chars = list("+-0a][^.,") + ["\\"] + (["z", "A", "!", "~", "&", "|"] if big else [])
    texts = ASCII + [x + y for x in "+-0a]^" for y in ",/1:@[_`b~"] + ["".join(chars), "".join(chars[::-1])]
    for n in (2, 3, 4) if big else (2, 3):
        for c in itertools.combinations(chars, n):
            for order in (c, c[::-1], c[1:] + c[:1]):
                for more in ((), ("bb", "cc"), ("&&", "--"), ("[a", "]0", "+-")):
                    yield order + more, " ", texts


def phases(tier):
    big = tier == "thorough"
    ab3 = ["".join(t) for t in fam.strings("ab", 1, 3)]
    ab4 = ["".join(t) for t in fam.strings("ab", 1, 4)]
    abc2 = ["".join(t) for t in fam.strings("abc", 1, 2)]
    t_ab = ["".join(t) for t in fam.strings("ab", 0, 7 if big else 6)]
    t_abc = ["".join(t) for t in fam.strings("abc", 0, 5)]
    t_abs = ["".join(t) for t in fam.strings("ab ?", 0, 4)]
    return [
        Phase("large", lambda: large(big), run, note="many or long tokens, long inputs"),
        Phase("ranges", lambda: ranges(big), run, note="sets of two, three%s single characters in several orders, with and without longer tokens; every printable ASCII character as input" % (" or four" if big else "")),
        Phase("regex", classes_and_escapes, run, note="tokens that are regular expression syntax"),
        Phase("special", lambda: specials(big), run, note="pairs of special, combining, case-related and non-BMP characters"),
        Phase("whitespace-default", lambda: [((("a", "b") + x)[:3], d, ["".join(t) for t in fam.strings(("a", "b", d, "\n"), 0, 4)])
                                            for d in (" ", "_", "\n", "\t", "\u00a0", "--", "ab", "\u3000") for x in ((), ("aa",), ("ba",))], run,
              note="other default whitespace tokens; inputs with leading and trailing blanks"),
        Phase("sets-ab", sets(ab3, 1, 5 if big else 3, t_ab), run, note="every set of up to %d tokens among the 14 strings of up to 3 letters of ab" % (5 if big else 3)),
        Phase("sets-ab4", sets(ab4, 1, 3 if big else 2, t_ab), run, note="sets of strings of up to 4 letters of ab"),
        Phase("sets-abc", sets(abc2, 1, 4 if big else 3, t_abc), run, note="sets of strings of up to 2 letters of abc"),
        Phase("sets-bad", sets(ab3, 1, 2, t_abs), run, note="inputs with characters that start no token"),
        Phase("reloaded", sets(ab3, 1, 2, t_ab[:63]), run_reload, note="after dumping and loading; through transliterate"),
    ]
