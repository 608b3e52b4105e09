"""Families of configurations and inputs shared by the checks (all finite, ordered)."""
import itertools

from mc.ref import OM, Cfg, R, rule

# v, k overlap on b; every token has at least one class
TOK = {"a": ("v",), "b": ("v", "k"), " ": ("wb",)}
TOK4 = {"a": ("v",), "b": ("v", "k"), "c": ("k",), " ": ("wb",)}


def strings(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield t


def seqs(items, lo, hi):
    return [t for n in range(lo, hi + 1) for t in itertools.product(items, repeat=n)]


_memo = {}


def padded(alphabet, hi, ws=" "):
    """Token lists bounded by whitespace, inner length <= hi."""
    key = (tuple(alphabet), hi, ws)
    if key not in _memo:
        _memo[key] = [[ws] + list(t) + [ws] for t in strings(alphabet, 0, hi)]
    return _memo[key]


def named(patterns):
    """Rules with distinct productions from (pc, pt, t, nt, nc) patterns."""
    return [R("<%d>" % i, *p) for i, p in enumerate(patterns)]


def pat(t, pc="", pt="", nt="", nc=""):
    """pat('ab', pt='a', nc='vk'): one character per token or class (w = wb, _ = space)."""
    tok = lambda s: tuple(" " if ch == "_" else ch for ch in s)  # noqa
    cls = lambda s: tuple("wb" if ch == "w" else ch for ch in s)  # noqa
    return (cls(pc), tok(pt), tok(t), tok(nt), cls(nc))


def all_patterns(ts, pts, nts, pcs, ncs):
    for t, pt, nt, pc, nc in itertools.product(ts, pts, nts, pcs, ncs):
        yield (pc, pt, t, nt, nc)


CTX = [
    {},
    {"pt": "a"},
    {"pt": "_"},
    {"nt": "a"},
    {"nt": "b"},
    {"nt": "_"},
    {"pc": "v"},
    {"pc": "k"},
    {"nc": "v"},
    {"nc": "w"},
    {"pt": "a", "nt": "b"},
    {"nt": "bb"},
    {"pc": "v", "pt": "b"},
    {"nt": "a", "nc": "v"},
]


def pool(ts=("a", "b", "aa", "ab", "ba"), ctx=CTX):
    return [pat(t, **c) for t in ts for c in ctx]


SMALL_CTX = [{}, {"pt": "a"}, {"nt": "b"}, {"pc": "v"}, {"nc": "k"}]


def small_pool():
    return pool(("a", "b", "ab"), SMALL_CTX)


def subsets(items, lo, hi):
    for n in range(lo, hi + 1):
        for c in itertools.combinations(items, n):
            yield c


# on-match rules over the classes of TOK
def onmatch_pool(classes=("v", "k", "wb"), plen=2, nlen=2):
    out = []
    for pc in seqs(classes, 1, plen):
        for nc in seqs(classes, 1, nlen):
            out.append((pc, nc))
    return out


def with_prods(oms):
    return [OM(tuple(pc), tuple(nc), "{%d}" % i) for i, (pc, nc) in enumerate(oms)]


BASE_RULES = [rule("A", "a"), rule("B", "b"), rule("_", " ")]


# ---- sweeps: configurations with one dimension made large -----------------------


def big_tokens(n):
    """n distinct single-character tokens (from U+4E00), classes by residues."""
    toks = {}
    for i in range(n):
        toks[chr(0x4E00 + i)] = ("r%d" % (i % 3), "s%d" % (i % 7), "all")
    toks[" "] = ("wb",)
    return toks


def sweep_cfgs(big=False):
    """(name, Cfg, list of inputs): larger configurations, one per dimension."""
    out = []
    # rules a, aa, aaa, ... of increasing length
    for n in (1, 2, 5, 9, 10, 11, 12, 16) + ((24, 33) if big else ()):
        rs = [rule("<%d>" % k, "a" * k) for k in range(1, n + 1)]
        rs.append(rule("_", " "))
        rs.append(rule("B", "b"))
        inputs = ["a" * k for k in range(0, 2 * n + 2)] + ["a" * n + "b" + "a" * (n - 1), "b" + "a" * n + " "]
        out.append(("chain%d" % n, Cfg(TOK, rs), inputs))
    # few rules of great length: costs differ by little
    for lens in ((1, 49, 50, 51, 52), (1, 2, 99, 100, 101, 128, 129, 130), (1, 31, 32, 33, 63, 64, 65)) + (((1, 254, 255, 256, 257, 300),) if big else ()):
        rs = [rule("<%d>" % k, "a" * k) for k in lens] + [rule("_", " "), rule("B", "b"), rule("b!", "b", pt="a" * (lens[-1] - 1)), rule("b?", "b", pc=["v"] * lens[-1])]
        inputs = ["a" * (k + d) for k in lens for d in (-1, 0, 1)] + ["a" * lens[-1] + "b" + "a" * lens[-2], "a" * (lens[-1] - 2) + "bb"]
        out.append(("long%d" % lens[-1], Cfg(TOK, rs), inputs))
    # a long rule that does not apply leads to one that costs a little more than the best
    for n in (2, 5, 10, 20, 33, 50, 64, 101, 128) + ((257,) if big else ()):
        rs = BASE_RULES + [rule("long", "a" * (n + 9)), rule("near", "a" * n)]
        for k in sorted({1, n // 5 or 1, n // 2}):
            for more in (1, 2):
                best = rule("best", "a" * k, nt="a" * (n + more - k))
                out.append(("near%d-%d-%d" % (n, k, more), Cfg(TOK, rs + [best]), ["a" * (n + d) for d in (0, 1, 2, 3, 8)]))
                best = rule("best", "a" * k, pc=["v"] * more, nc=["v"] * (n - k))
                out.append(("near%d-%d-%d-classes" % (n, k, more), Cfg(TOK, rs + [best]), ["b" + "a" * (n + d) for d in (0, 1, 2, 3, 8)]))
    # contexts of three different items, in every order
    for side in ("pt", "nt", "pc", "nc"):
        toks = {"a": ("A",), "b": ("B", "X"), "c": ("C", "X"), "d": ("D",), " ": ("wb",)}
        perms = list(itertools.permutations("abc")) + [tuple("aba"), tuple("aab"), tuple("cdcd"), tuple("dcba"), tuple("acbd")]
        up = lambda x: tuple(x) if side[1] == "t" else tuple(y.upper() for y in x)  # noqa
        base = [rule("[%s]" % t, t) for t in "abcd "]
        inputs = []
        for w in strings("abc", 3, 4):
            w = "".join(w)
            inputs += [w + "d", "d" + w] if len(w) == 3 else [w + "d" + w]
        for k in range(len(perms) + 1):
            some = perms if k == len(perms) else perms[k : k + 1]
            out.append(("three-%s%d" % (side, k), Cfg(toks, base + [rule("!%s" % "".join(q), "d", **{side: up(q)}) for q in some]), inputs))
    # runs of one token with contexts of every length
    for side in ("pt", "pc", "nt", "nc"):
        for lens in ((1, 2, 3, 4, 5, 6, 7, 8), (4,), (7,), (3, 6)):
            rs = [rule("A", "a"), rule("B", "b"), rule("_", " ")] + [rule("<%d>" % k, "a", **{side: ("v" if side[1] == "c" else "a",) * k}) for k in lens]
            out.append(("runs-%s%d" % (side, len(lens)), Cfg(TOK, rs), ["a" * k + t for k in range(1, 22) for t in ("", " b", "bab")] + ["b" + "a" * k for k in range(1, 12)]))
    # very many rules for the same tokens
    for n in (110,) + ((300,) if big else ()):
        toks = big_tokens(n)
        names = [t for t in toks if t != " "]
        rs = [rule("(%d)" % i, [names[i]]) for i in range(n)] + [rule("_", " "), rule("2", names[:2]), rule("3", names[:3])]
        rs += [rule("p%d" % i, [names[0]], pt=[names[i]]) for i in range(n)]
        rs += [rule("n%d" % i, [names[0]], nt=[names[1], names[i]]) for i in range(n)]
        rs += [rule("x%d" % i, names[:2], pt=[names[i]], nt=[names[-1 - i]]) for i in range(n)]
        rs += [rule("y%d" % i, [names[0], names[i]], pc=["all"], nc=["r%d" % (i % 3)]) for i in range(n)]
        inputs = ["".join((names[i], names[0], names[1], names[-1 - i if j else i], names[0], names[i], names[j])) for i in range(0, n, 3) for j in (0, 1, 2)]
        out.append(("siblings%d" % n, Cfg(toks, rs), inputs))
    # long contexts on each side
    for n in (1, 2, 3, 4, 5, 8, 11) + ((17,) if big else ()):
        for side in ("pt", "pc", "nt", "nc"):
            v = ("v",) * n if side[1] == "c" else ("a",) * n
            rs = [rule("A", "a"), rule("B", "b"), rule("_", " "), rule("!", "b", **{side: v})]
            inputs = []
            for k in range(max(0, n - 2), n + 3):
                inputs += ["a" * k + "b" + "a" * k, "b" + "a" * k + "b" + "a" * k + "b", "a" * k + " b " + "a" * k]
            out.append(("%s%d" % (side, n), Cfg(TOK, rs), inputs))
        rs = [rule("A", "a"), rule("B", "b"), rule("_", " ")]
        rs.append(rule("!", "b", pc=("v",) * n, pt=("a",) * n, nt=("a",) * n, nc=("v",) * n))
        inputs = []
        for p in range(2 * n - 1, 2 * n + 2):
            for q in range(2 * n - 1, 2 * n + 2):
                inputs.append("a" * p + "b" + "a" * q)
        inputs.append("a" * (n - 1) + "b" + "a" * n + "b" + "a" * n + "b" + "a" * (n - 1))
        inputs.append("b" * n + "a" * n + "b" + "a" * n + "b" * n)
        out.append(("both%d" % n, Cfg(TOK, rs), inputs))
    # many tokens and rules
    for n in (9, 10, 11, 40, 130, 300) + ((700,) if big else ()):
        toks = big_tokens(n)
        names = [t for t in toks if t != " "]
        rs = [rule("[%d]" % i, [t]) for i, t in enumerate(names)] + [rule("_", " ")]
        rs += [rule("<%d>" % i, [names[i], names[(i * 7 + 1) % n]]) for i in range(n)]
        rs += [rule("{%d}" % i, [names[i]], pc=["s%d" % (i % 7)], nc=["r%d" % (i % 3)]) for i in range(0, n, 3)]
        inputs = ["".join(names), "".join(reversed(names)), "".join(names[i] + names[(i * 7 + 1) % n] for i in range(n))]
        inputs += ["".join(names[(i * k + j) % n] for i in range(20)) for k in (1, 3, 5) for j in (0, 1, 2)]
        out.append(("tokens%d" % n, Cfg(toks, rs), inputs))
    # many rules sharing the same tokens, differing in context
    for n in (3, 8, 12):
        toks = big_tokens(n)
        names = [t for t in toks if t != " "]
        rs = [rule("(%d)" % i, [names[i]]) for i in range(n)] + [rule("_", " ")]
        rs += [rule("p%d" % i, [names[0]], pt=[names[i]]) for i in range(n)]
        rs += [rule("q%d" % i, [names[0]], nt=[names[i], names[(i + 1) % n]]) for i in range(n)]
        rs += [rule("x%d" % i, [names[0], names[1]], pt=[names[i]], nt=[names[i], names[0]]) for i in range(n)]
        inputs = []
        for i in range(n):
            for j in range(n):
                inputs.append(names[i] + names[0] + names[j] + names[(j + 1) % n] + names[0] + names[1] + names[i] + names[0])
        out.append(("contexts%d" % n, Cfg(toks, rs), inputs))
    # odd token names, classes and productions
    odd = {"(": ("x",), ")": ("x", "y"), "<": ("y",), ">": (), "\\": ("x",), "+": ("y",), ".*": ("x",), "|": (), "\n": ("nl",),
           "e\u0301": ("x",), "\u0301": ("y",), "\U0001f600": ("x",), "\U0001f600\u200d": ("y",), "0": ("num",), "-1": ("num",),
           "__rules": ("x",), "rules__": ("y",), "^a$": ("x",), "[b": ("x",), " ": ("wb",)}
    names = list(odd)
    rs = [rule("\\%d" % i, [t]) for i, t in enumerate(names)]
    rs += [rule("\\g<%d>" % i, [names[i], names[(i + 5) % len(names)]]) for i in range(len(names))]
    rs += [rule("\u0905\u094d%d" % i, [names[i]], pc=["x"], nc=["y"]) for i in range(len(names))]
    inputs = [a + b for a in names for b in names]
    inputs += [a + b + c for a in names[:6] for b in names for c in names[:6]]
    out.append(("odd", Cfg(odd, rs), inputs))
    # tokens that overlap as prefixes and infixes
    pre = {"a": ("v",), "aa": ("v", "long"), "aab": ("z",), "b": ("v",), "ba": ("k",), "abab": ("k",), " ": ("wb",), "  ": ("wb",)}
    names = list(pre)
    rs = [rule("{%s}" % t, [t]) for t in names]
    rs += [rule("{%s,%s}" % (s, t), [s, t]) for s in names[:5] for t in names[:5]]
    rs += [rule("{long:%s}" % t, [t], pc=["long"]) for t in names[:5]]
    inputs = ["".join(s) for s in strings("ab ", 0, 6)]
    out.append(("overlap", Cfg(pre, rs), inputs))
    # class names, and token names, that are parts or variants of one another
    for k, cs in enumerate(RELATED):
        out.append(("related%d" % k, related_cfg(cs), ["".join(w) for w in strings("abcd", 0, 4)]))
        names = list(cs) + ["q"]
        toks = {t: ("c%d" % i,) for i, t in enumerate(names)}
        if k in (0, 1, 2, 3, 6, 7):
            toks[" "] = ("wb",)
            rs = [rule("{%d}" % i, [t]) for i, t in enumerate(toks)]
            rs += [rule("p%d" % i, ["q"], pt=[t]) for i, t in enumerate(names)]
            rs += [rule("n%d%d" % (i, j), ["q", t], nt=[u]) for i, t in enumerate(names) for j, u in enumerate(names)]
            out.append(("related-tokens%d" % k, Cfg(toks, rs), ["".join(w) for w in strings(names, 0, 4)]))
    return out


RELATED = (
    ("x", "xy", "xyz"), ("z", "yz", "xyz"), ("y", "xyz", "xy"), ("X", "x", "Xx"), ("x", " x", "x "), ("wb", "wbx", "w"),
    ("1", "01", "1.0"), ("\u00e9", "e\u0301", "e"), ("a_b", "a-b", "a.b"), ("\u00df", "ss", "SS"), ("x", "x1", "x_1"), ("*", "", ".*"),
)


def related_cfg(cs, onmatch=True):
    """A transliterator over a, b, c, d and blank whose classes have the names cs, used in every place where a class can be."""
    c0, c1, c2 = cs
    toks = {"a": (c0,), "b": (c1,), "c": (c2,), "d": (c0, c2), " ": ("wb" if "wb" not in cs else "W",)}
    rs = [rule("[%s]" % t, [t]) for t in toks]
    for i, c in enumerate(cs):
        rs += [rule("p%d" % i, "a", pc=[c]), rule("n%d" % i, "b", nc=[c]), rule("P%d" % i, "c", pc=[c, cs[i - 1]]), rule("N%d" % i, "d", nc=[c, cs[i - 1]])]
        rs += [rule("b%d" % i, "d", pc=[c], nc=[cs[i - 2]])]
    oms = [(c, d, "~%d%d~" % (i, j)) for i, c in enumerate(cs) for j, d in enumerate(cs) if i != j] if onmatch else []
    return Cfg(toks, rs, [OM((c,), (d,), p) for c, d, p in oms])


