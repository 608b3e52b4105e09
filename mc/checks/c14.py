import itertools

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, Pool
from mc.ref import Cfg, need, occurs, rule

ID = "C14"
LEVEL = "model_checking"
RULE = (
    "cases = first rule(s) of an ordered rule set, extended within the case to every rule set of the phase; state = rule set, judged by "
    "evaluating every rule on every token window (windows = transitions); traces = constructions on the implementation whose verdict agreed"
)
ASSUMPTIONS = [
    "where some but not every shared context of two equally costly rules is covered by a single less costly rule, and the rest by several, either verdict is allowed",
    "scope: rules and windows within the bounds stated per phase",
]


class World:
    """Patterns, and for each the set of windows it matches, as a bit mask."""

    def __init__(self, tokens, patterns, prods=None):
        t = next(iter(tokens))
        rules = fam.named(patterns)
        if prods:
            rules = [r._replace(prod=prods[i % len(prods)]) for i, r in enumerate(rules)]
        self.cfg = Cfg(tokens, rules, ws=(t, tokens[t][0], False))
        self.rules = self.cfg.rules
        self.patterns = patterns
        self.prev = max(len(r.pc) + len(r.pt) for r in self.rules)
        self.next = max(len(r.t) + len(r.nt) + len(r.nc) for r in self.rules)
        self.windows = list(itertools.product(tokens, repeat=self.prev + self.next))
        self.mask = []
        for r in self.rules:
            m = 0
            for i, w in enumerate(self.windows):
                if occurs(r, w, self.prev, self.cfg.tokens):
                    m |= 1 << i
            self.mask.append(m)
        self.need = [need(r) for r in self.rules]
        self._pool = None

    @property
    def pool(self):
        if self._pool is None:
            self._pool = Pool(self.cfg)
            self.lib = [self._pool.gt.rules[self._pool.rank[k]] for k in range(len(self.rules))]
        return self._pool

    def verdicts(self, ks):
        """(must raise, must succeed, a window)."""
        must_raise = must_succeed = None
        must_succeed = True
        for i, j in itertools.combinations(ks, 2):
            if self.need[i] != self.need[j]:
                continue
            both = self.mask[i] & self.mask[j]
            if not both:
                continue
            left = both
            single = False
            for k in ks:
                if self.need[k] > self.need[i]:
                    left &= ~self.mask[k]
                    if not both & ~self.mask[k]:
                        single = True
            if left and must_raise is None:
                must_raise = self.windows[(left & -left).bit_length() - 1]
            if not single:
                must_succeed = False
        return must_raise, must_succeed

    def construct(self, ks):
        from graphtransliterator.exceptions import AmbiguousTransliterationRulesException as Amb

        p = self.pool
        order = sorted(ks, key=lambda k: -self.need[k])  # stable
        try:
            GT()(p.gt.tokens, [self.lib[k] for k in order], p.gt.whitespace, check_ambiguity=True)
        except Amb:
            return True
        return False

    def construct_settings(self, ks):
        from graphtransliterator.exceptions import AmbiguousTransliterationRulesException as Amb

        s = self.cfg.replace(rules=[self.rules[k] for k in ks]).settings()
        try:
            GT().from_dict(s)
        except Amb:
            return True
        return False

    def judge(self, ks, cov, settings=False):
        window, ok = self.verdicts(ks)
        cov.add("states", 1)
        cov.add("transitions", len(self.windows))
        got = self.construct_settings(ks) if settings else self.construct(ks)
        if window is not None and not got:
            raise Bad("accepts rules that are ambiguous at %r" % (window,), rules=[tuple(self.rules[k]) for k in ks], tokens=self.cfg.tokens, window=window)
        if ok and got:
            raise Bad("refuses unambiguous rules", rules=[tuple(self.rules[k]) for k in ks], tokens=self.cfg.tokens)
        if window is not None or ok:
            cov.add("traces", 1)
        if window is not None:
            cov.add("ambiguous", 1)
        elif not ok:
            cov.add("either_verdict_allowed", 1)


class LongWorld(World):
    """For long rules: the windows a rule matches are a product of sets, one per position, and are kept as such."""

    def __init__(self, tokens, patterns):
        t = next(iter(tokens))
        rules = fam.named(patterns)
        self.cfg = Cfg(tokens, rules, ws=(t, tokens[t][0], False))
        self.rules = self.cfg.rules
        self.prev = max(len(r.pc) + len(r.pt) for r in self.rules)
        self.next = max(len(r.t) + len(r.nt) + len(r.nc) for r in self.rules)
        every = frozenset(tokens)
        of = lambda c: frozenset(t for t in tokens if c in tokens[t])  # noqa
        self.box = []
        for r in self.rules:
            b = [of(c) for c in r.pc] + [frozenset([t]) for t in r.pt + r.t + r.nt] + [of(c) for c in r.nc]
            left = self.prev - len(r.pc) - len(r.pt)
            b = [every] * left + b
            self.box.append(tuple(b + [every] * (self.prev + self.next - len(b))))
        self.need = [need(r) for r in self.rules]
        self.windows = ()
        self._pool = None

    @staticmethod
    def meet(a, b):
        out = tuple(x & y for x, y in zip(a, b))
        return out if all(out) else None

    @classmethod
    def minus(cls, a, b):
        """The product sets that make up a without b (disjoint)."""
        if not cls.meet(a, b):
            return [a]
        out = []
        for i in range(len(a)):
            rest = a[i] - b[i]
            if rest:
                out.append(a[:i] + (rest,) + a[i + 1 :])
                a = a[:i] + (a[i] & b[i],) + a[i + 1 :]
        return out

    def verdicts(self, ks):
        must_raise, must_succeed = None, True
        for i, j in itertools.combinations(ks, 2):
            if self.need[i] != self.need[j]:
                continue
            both = self.meet(self.box[i], self.box[j])
            if not both:
                continue
            left, single = [both], False
            for k in ks:
                if self.need[k] > self.need[i]:
                    left = [q for p in left for q in self.minus(p, self.box[k])]
                    single = single or not self.minus(both, self.box[k])
            if left and must_raise is None:
                must_raise = tuple(min(x) for x in left[0])
            if not single:
                must_succeed = False
        return must_raise, must_succeed


RELATED = {"r%d" % k: cs for k, cs in enumerate(fam.RELATED)}


def related(cs):
    c0, c1, c2 = cs
    toks = {"a": (c0,), "b": (c1, c2), "c": (c2,)}
    return World(toks, [p for p in fam.all_patterns([("a",), ("b",)], ONE("a"), ONE("b"), ONE(*cs), ONE(*cs)) if sum(map(len, p)) <= 3])


_worlds = {}


def world(name):
    if name not in _worlds:
        _worlds[name] = MAKE[name]()
    return _worlds[name]


ONE = lambda *al: [()] + [(x,) for x in al]  # noqa

TWO = {"a": ("v",), "b": ("v", "k")}
THREE = {"a": ("v", "x"), "b": ("v", "k"), "c": ("k", "x")}


def uniq(items):
    out = []
    for i in items:
        if i not in out:
            out.append(i)
    return out


MAKE = {
    # every pattern with at most one item in each context part
    "all2": lambda: World(TWO, list(fam.all_patterns(fam.seqs("ab", 1, 2), ONE("a", "b"), ONE("a", "b"), ONE("v", "k"), ONE("v", "k")))),
    "deep2": lambda: World(TWO, list(fam.all_patterns([("a",), ("b",), ("a", "b")], fam.seqs("ab", 0, 2), ONE("b"), fam.seqs("vk", 0, 2), ONE("k")))),
    # one to three required tokens
    "small2": lambda: World(TWO, [p for p in fam.all_patterns(fam.seqs("ab", 1, 2), ONE("a", "b"), ONE("a", "b"), ONE("v", "k"), ONE("v", "k")) if sum(map(len, p)) <= 3]),
    "mini2": lambda: World(TWO, [p for p in fam.all_patterns([("a",), ("a", "b")], ONE("a", "b"), ONE("b"), ONE("v", "k"), ONE("v")) if sum(map(len, p)) <= 3]),
    "three": lambda: World(THREE, [p for p in fam.all_patterns([("a",), ("b",), ("a", "b")], ONE("a", "c"), ONE("b"), ONE("v", "k", "x"), ONE("v", "x")) if sum(map(len, p)) <= 3]),
    # the same patterns twice, as separate rules
    "twice": lambda: World(TWO, 2 * [p for p in fam.all_patterns([("a",), ("a", "b")], ONE("a", "b"), ONE("b"), ONE("v", "k"), ONE("v"))]),
    # all productions equal, and few different ones
    "same": lambda: World(TWO, world("small2").patterns, ("p",)),
    "few": lambda: World(TWO, 2 * world("mini2").patterns, ("", "a", "", "p", "pp")),
    "a-only": lambda: World(TWO, [p for p in fam.all_patterns([("a",)], ONE("b"), ONE("a"), fam.seqs("vk", 0, 2), fam.seqs("vk", 0, 2)) if sum(map(len, p)) <= 4]),
}


MAKE.update((k, lambda cs=cs: related(cs)) for k, cs in RELATED.items())


def run_pairs(case, cov):
    name, i = case
    w = world(name)
    for j in range(i + 1, len(w.rules)):
        w.judge((i, j), cov)


def run_triples(case, cov):
    """Ordered: the first two rules in every order, a third after, between and before them."""
    name, i, j = case
    w = world(name)
    for k in range(j + 1, len(w.rules)):
        ns = {w.need[i], w.need[j], w.need[k]}
        orders = itertools.permutations((i, j, k)) if len(ns) == 1 else [(i, j, k), (k, j, i)] if len(ns) == 2 else []
        for ks in orders:
            w.judge(ks, cov)


def run_quads(case, cov):
    name, i, j = case
    w = world(name)
    for k, m in itertools.combinations(range(j + 1, len(w.rules)), 2):
        if len({w.need[x] for x in (i, j, k, m)}) < 4:
            w.judge((i, j, k, m), cov)


def run_settings(case, cov):
    name, i = case
    w = world(name)
    for j in range(i + 1, len(w.rules)):
        if w.need[i] == w.need[j] or j == i + 1:
            w.judge((i, j), cov, settings=True)


def run_covered(case, cov):
    """Equal-cost pairs with one less costly rule at a time, with distant rules around them."""
    name, i = case
    w = world(name)
    for j in range(i + 1, len(w.rules)):
        if w.need[i] != w.need[j] or not w.mask[i] & w.mask[j]:
            continue
        for k in range(len(w.rules)):
            if w.need[k] > w.need[i] and w.mask[k] & w.mask[i] & w.mask[j]:
                w.judge((i, k, j), cov)


# sweeps: one ambiguous pair among many rules of equal cost


def run_groups(case, cov):
    n, i, j, shape = case
    names = [chr(0x61 + x) for x in range(n + 2)]
    toks = {t: ("c%d" % x,) for x, t in enumerate(names)}
    toks[names[n + 1]] = ("c%d" % (n + 1), "both")
    toks[names[0]] = ("c0", "both")
    rs = []
    for x in range(n):
        if x == i:
            p = {"pre": ("both",), "post": ()}[shape], (), (names[n],), (), {"pre": (), "post": ("both",)}[shape]
        elif x == j:
            p = {"pre": ("c%d" % (n + 1),), "post": ()}[shape], (), (names[n],), (), {"pre": (), "post": ("c%d" % (n + 1),)}[shape]
        else:
            p = ((), (), (names[x], names[n]), (), ())
        rs.append(p)
    toks = {k: v for k, v in toks.items() if k in set(names)}
    # windows over all tokens would be too many for long rules: here at most 3 positions
    w = World(toks, rs)
    ks = list(range(n))
    w.judge(ks, cov)
    assert w.verdicts(ks)[0] is not None
    # without one of the two, unambiguous
    w.judge([k for k in ks if k != j], cov)
    assert w.verdicts([k for k in ks if k != j])[1]


def run_width(case, cov):
    """Contexts of different widths: only windows wide enough for all rules decide."""
    n, m, extra, kind = case
    toks = {"a": ("v",), "b": ("v", "k")}
    pats = [((), ("a",) * n, ("a",), (), ("v",) * m), (("v",) * n, (), ("a",), ("a",) * m, ())]
    if extra == "clash":
        pats[1] = ((), ("a",) * (n - 1) + ("b",), ("a",), ("a",) * m, ())
    if extra == "cover":
        pats.append(((), ("a",) * n, ("a",), ("a",) * m, ("v",)) if kind == 0 else (("v",), ("a",) * n, ("a",), ("a",) * m, ()))
    if extra == "more":
        pats.append(((), ("a",) * (n + m), ("a",), (), ()))
        pats.append(((), (), ("a",), (), ("v",) * (n + m)))
    w = World(toks, pats)
    for ks in itertools.permutations(range(len(pats))):
        w.judge(ks, cov)


def run_boxes(case, cov):
    """The verdicts by product sets are those by windows."""
    name, i = case
    w = world(name)
    b = LongWorld(w.cfg.tokens, w.patterns)
    for j in range(i + 1, len(w.rules)):
        for k in range(0, len(w.rules), 5):
            ks = (i, j, k) if k not in (i, j) else (i, j)
            (r0, s0), (r1, s1) = w.verdicts(ks), b.verdicts(ks)
            if ((r0 is None), s0) != ((r1 is None), s1):
                raise AssertionError("verdicts differ", [w.patterns[x] for x in ks], r0, r1, s0, s1)
            cov.add("oracle_checks", 1)


def long_patterns(n):
    """Rules of n and n + 1 required tokens, n large: runs, with something else in one place of many."""
    out = []
    places = sorted({0, 1, n // 2, n - 1})
    for total in (n, n + 1):
        for cut in sorted({0, 1, total // 2, total - 1}):
            rest = total - cut
            out.append(((), ("a",) * cut, ("a",) * rest, (), ()))
            out.append((("v",) * cut, (), ("a",) * rest, (), ()))
            if cut:
                out.append(((), (), ("a",) * rest, ("a",) * cut, ()))
                out.append(((), (), ("a",) * rest, (), ("v",) * cut))
        for at in places:
            t = ["a"] * total
            t[at] = "b"
            out.append(((), (), tuple(t), (), ()))
        out.append((("k",), (), ("a",) * (total - 1), (), ()))
        out.append(((), (), ("a",) * (total - 1), (), ("k",)))
        out.append((("k",), (), ("a",) * (total - 2), (), ("k",)))
        out.append((("v",), (), ("a",) * (total - 2), (), ("v",)))
    return uniq(out)


def run_long(case, cov):
    n, i, what = case
    if ("long", n) not in _worlds:
        _worlds["long", n] = LongWorld(TWO, long_patterns(n))
    w = _worlds["long", n]
    for j in range(i + 1, len(w.rules)):
        w.judge((i, j), cov)
        if what == "triples" and w.need[i] == w.need[j]:
            both = w.meet(w.box[i], w.box[j])
            for k in range(len(w.rules)):
                if both and w.need[k] > w.need[i] and w.meet(both, w.box[k]):
                    w.judge((i, k, j), cov)


def run_chain(case, cov):
    """Rules of every length at once are told apart; one more rule as long as one of them is not."""
    n, k, form = case
    pats = [((), (), ("a",) * m, (), ()) for m in range(1, n + 1)]
    extra = {
        "pt": ((), ("a",), ("a",) * (k - 1), (), ()),
        "pc": (("v",), (), ("a",) * (k - 1), (), ()),
        "nt": ((), (), ("a",) * (k - 1), ("a",), ()),
        "nc": ((), (), ("a",) * (k - 1), (), ("v",)),
        "b": ((), (), ("a",) * (k - 1) + ("b",), (), ()),
        "kb": (("k",), (), ("a",) * (k - 1), (), ()),
    }[form]
    w = LongWorld({"a": ("v",), "b": ("k",)}, pats + [extra])
    w.judge(list(range(n)), cov)
    w.judge(list(range(n + 1)), cov)
    w.judge([k - 1, n], cov)
    w.judge(list(range(k)) + [n], cov)
    w.judge([n] + list(range(k)), cov)


def run_many(case, cov):
    """A pair of equally costly rules that meet, and the one that covers them, among n unrelated rules, less and more costly."""
    n, where, pair = case
    pairs = {
        "classes": [(("v",), (), ("a",), (), ()), ((), (), ("a",), (), ("k",)), (("v",), (), ("a",), (), ("k",))],
        "tokens": [((), ("b",), ("a",), (), ()), ((), (), ("a",), ("b",), ()), ((), ("b",), ("a",), ("b",), ())],
        "length": [((), ("b",), ("a",), (), ()), ((), (), ("a", "b"), (), ()), ((), ("b",), ("a", "b"), (), ())],
        "twice": [((), (), ("a",), (), ()), ((), (), ("a",), (), ()), ((), (), ("a",), ("b",), ())],
    }[pair]
    names = ["x%03d" % k for k in range(n)]
    toks = {"a": ("v",), "b": ("v", "k")}
    toks.update((x, ("x",)) for x in names)
    short = [((), (), (x,), (), ()) for x in names]
    long = [((), (), (x,) * 5, (), ()) for x in names]
    fill = {"long": long, "short": short, "both": short[: n // 2] + long[n // 2 :], "same": [((), (), (x,) * sum(map(len, pairs[0])), (), ()) for x in names]}[where]
    w = LongWorld(toks, pairs + fill)
    rest = list(range(3, 3 + n))
    w.judge(rest + [0, 1, 2], cov)
    w.judge([2, 1, 0] + rest, cov)
    w.judge(rest + [0, 1], cov)
    w.judge([0] + rest + [1], cov)
    w.judge(rest[: n // 2] + [0, 2] + rest[n // 2 :], cov)


def phases(tier):
    big = tier == "thorough"
    size = lambda n: len(world(n).rules)  # noqa
    P = itertools.product
    for n in MAKE:
        world(n).pool  # once, before the workers start
    pair_of = lambda n: [(n, i, j) for i, j in itertools.combinations(range(size(n)), 2)]  # noqa
    out = [
        Phase("groups", lambda: [(n, i, j, s) for n in ((3, 6, 8, 12, 17) if big else (3, 5, 8)) for i, j in itertools.permutations(range(n), 2) for s in ("pre", "post")] + [(n, i, j, s) for n in (11, 14, 20) for i, j in ((0, n - 1), (n - 1, 0), (0, 10), (0, 1), (n - 2, n - 1), (n // 2, n - 1)) for s in ("pre", "post")], run_groups, note="one ambiguous pair anywhere among n rules"),
        Phase("width", lambda: P(range(1, 5 if big else 4), range(0, 5 if big else 4), ("", "clash", "cover", "more"), (0, 1)), run_width, cpu_limit=120, note="contexts of various widths"),
        Phase("settings", lambda: [("small2", i) for i in range(size("small2"))], run_settings, note="built by from_dict"),
        Phase("pairs", lambda: [("all2", i) for i in range(size("all2"))], run_pairs, cpu_limit=600, note="pairs of the %d rules with at most one item per context part" % size("all2")),
        Phase("triples", lambda: pair_of("small2"), run_triples, cpu_limit=600, note="ordered triples with at least two rules of equal cost"),
        Phase("quadruples", lambda: pair_of("mini2"), run_quads, cpu_limit=600, note="rule sets of size four"),
        Phase("covered", lambda: [("a-only" if not big else "all2", i) for i in range(size("a-only" if not big else "all2"))], run_covered, cpu_limit=3000, note="overlapping pairs with one less costly rule"),
        Phase("twice", lambda: [("twice", i) for i in range(size("twice"))], run_pairs, note="pairs, including rules alike but for the production"),
        Phase("same", lambda: [(n, i) for n in ("same", "few") for i in range(size(n))], run_pairs, note="pairs of rules with equal productions"),
        Phase("same-triples", lambda: pair_of("few")[:: 1 if big else 4], run_triples, cpu_limit=600, note="ordered triples of rules with few different productions"),
        Phase("three-tokens", lambda: [("three", i) for i in range(size("three"))], run_pairs, cpu_limit=600, note="three tokens with overlapping classes"),
    ]
    lengths = (4, 7, 8, 10, 12, 15, 16, 20, 31, 32, 40, 64, 100, 130) + ((50, 63, 257) if big else ())
    out += [
        Phase("oracle", lambda: [("mini2", i) for i in range(size("mini2"))] + [("r0", i) for i in range(size("r0"))], run_boxes, note="the product-set oracle agrees with the enumeration of windows"),
        Phase("long", lambda: [(n, i, "triples" if big or n in (8, 20) else "pairs") for n in lengths for i in range(len(long_patterns(n)))], run_long, cpu_limit=600, note="pairs of rules with up to %d required tokens, and one less costly rule" % (max(lengths) + 1)),
        Phase("chain", lambda: [(n, k, f) for n in (6, 12, 25, 41) + ((70,) if big else ()) for k in sorted({2, 3, n // 2, n - 1, n}) for f in ("pt", "pc", "nt", "nc", "b", "kb")], run_chain, cpu_limit=300, note="rules of every length up to n"),
        Phase("many", lambda: [(n, w, p) for n in ((30, 70, 130, 260) + ((520,) if big else ())) for w in ("long", "short", "both", "same") for p in ("classes", "tokens", "length", "twice")], run_many, cpu_limit=600, note="a pair that meets, and what covers it, among up to %d unrelated rules" % (520 if big else 260)),
        Phase("related", lambda: [(n, i) for n in RELATED for i in range(size(n))], run_pairs, note="class names that are parts or variants of one another"),
        Phase("triples-three", lambda: pair_of("three"), run_triples, cpu_limit=600, note="ordered triples, three tokens"),
    ]
    if big:
        out += [
            Phase("quadruples-small", lambda: pair_of("a-only"), run_quads, cpu_limit=3000, note="rule sets of size four"),
            Phase("deep", lambda: [("deep2", i) for i in range(size("deep2"))], run_pairs, cpu_limit=600, note="contexts of up to two tokens and two classes"),
            Phase("covered-deep", lambda: [("deep2", i) for i in range(size("deep2"))], run_covered, cpu_limit=3000, note="overlapping pairs with one less costly rule"),
        ]
    return out
