"""Reference model: what the documentation says a transliterator does.

Written from the properties, without graphs, lookups or regular expressions.
"""
from collections import namedtuple

# production, previous classes, previous tokens, tokens, next tokens, next classes
R = namedtuple("R", "prod pc pt t nt nc")
# previous classes, next classes, production
OM = namedtuple("OM", "pc nc prod")
WS = namedtuple("WS", "default cls cons")


def rule(prod, t, pc=(), pt=(), nt=(), nc=()):
    return R(prod, tuple(pc), tuple(pt), tuple(t), tuple(nt), tuple(nc))


def need(r):
    return len(r.pc) + len(r.pt) + len(r.t) + len(r.nt) + len(r.nc)


def occurs(r, toks, i, classes):
    """Whether rule r applies at position i of toks."""
    lo = i - len(r.pt) - len(r.pc)
    if lo < 0 or i + len(r.t) + len(r.nt) + len(r.nc) > len(toks):
        return False
    j = lo
    for c in r.pc:
        if c not in classes[toks[j]]:
            return False
        j += 1
    for t in r.pt + r.t + r.nt:
        if toks[j] != t:
            return False
        j += 1
    for c in r.nc:
        if c not in classes[toks[j]]:
            return False
        j += 1
    return True


class Cfg:
    """A configuration, as plain data."""

    def __init__(self, tokens, rules, onmatch=(), ws=WS(" ", "wb", False), metadata=None):
        self.tokens = {k: tuple(v) for k, v in tokens.items()}
        self.rules = tuple(rules)
        self.onmatch = tuple(onmatch)
        self.ws = WS(*ws)
        self.metadata = metadata

    def __repr__(self):
        return "Cfg(tokens=%r, rules=%r, onmatch=%r, ws=%r, metadata=%r)" % (
            self.tokens,
            [tuple(r) for r in self.rules],
            [tuple(o) for o in self.onmatch],
            tuple(self.ws),
            self.metadata,
        )

    def replace(self, **k):
        d = dict(tokens=self.tokens, rules=self.rules, onmatch=self.onmatch, ws=self.ws, metadata=self.metadata)
        d.update(k)
        return Cfg(**d)

    # -- the library's input formats

    def settings(self, **how):
        """Direct settings, fresh containers (how: see direct_rule)."""
        s = {
            "tokens": {k: list(v) for k, v in self.tokens.items()},
            "rules": [direct_rule(r, **how) for r in self.rules],
            "onmatch_rules": [
                {"prev_classes": list(o.pc), "next_classes": list(o.nc), "production": o.prod}
                for o in self.onmatch
            ],
            "whitespace": {
                "default": self.ws.default,
                "token_class": self.ws.cls,
                "consolidate": self.ws.cons,
            },
        }
        if self.metadata is not None:
            s["metadata"] = dict(self.metadata)
        return s

    def easy(self):
        """Easy-reading settings, fresh containers (rules must have distinct keys)."""
        s = self.settings()
        s["rules"] = {easy_key(r): r.prod for r in self.rules}
        assert len(s["rules"]) == len(self.rules)
        if self.onmatch:
            s["onmatch_rules"] = [{easy_onmatch_key(o): o.prod} for o in self.onmatch]
        else:
            del s["onmatch_rules"]
        return s

    # -- semantics

    def applicable(self, toks, i):
        return [k for k, r in enumerate(self.rules) if occurs(r, toks, i, self.tokens)]

    def best(self, toks, i):
        """Set of most specific applicable rules at i (indexes into self.rules)."""
        best, out = -1, []
        for k in self.applicable(toks, i):
            n = need(self.rules[k])
            if n > best:
                best, out = n, [k]
            elif n == best:
                out.append(k)
        return out

    def insertion(self, toks, i):
        """Index of the on-match rule used before a match at i, or None."""
        for k, o in enumerate(self.onmatch):
            lo = i - len(o.pc)
            if lo < 0 or i + len(o.nc) > len(toks):
                continue
            cs = o.pc + o.nc
            if all(cs[j] in self.tokens[toks[lo + j]] for j in range(len(cs))):
                return k
        return None

    def tokenize(self, text):
        """(tokens, positions of the characters that start no token)."""
        toks, bad = [self.ws.default], []
        longest = max(map(len, self.tokens)) if self.tokens else 0
        i = 0
        inner = []
        while i < len(text):
            for n in range(min(longest, len(text) - i), 0, -1):
                if text[i : i + n] in self.tokens:
                    inner.append(text[i : i + n])
                    i += n
                    break
            else:
                bad.append(i)
                i += 1
        if self.ws.cons:
            inner = self.consolidated(inner)
        return [self.ws.default] + inner + [self.ws.default], bad

    def consolidated(self, inner):
        out = []
        i = 0
        while i < len(inner):
            j = i
            while j < len(inner) and self.ws.cls in self.tokens[inner[j]]:
                j += 1
            if j == i:
                out.append(inner[i])
                i += 1
                continue
            if i > 0 and j < len(inner):
                # one whitespace token alone stays as it is
                out.append(inner[i] if j - i == 1 else self.ws.default)
            i = j
        return out

    def explore(self, toks, got, ignore=False):
        """Explore all allowed runs on toks (several if equally specific rules apply).

        Returns (got is the output of some run, some run fails, model states seen).
        A state is (position, how much of `got` it has produced); `got` may be None to
        explore the positions only."""
        start = (1, 0)
        seen = {start}
        todo = [start]
        accepted = fails = False
        memo = {}
        while todo:
            i, off = todo.pop()
            if i >= len(toks) - 1:
                if got is None or off == len(got):
                    accepted = True
                continue
            if i not in memo:
                b = self.best(toks, i)
                o = self.insertion(toks, i) if b else None
                pre = self.onmatch[o].prod if o is not None else ""
                memo[i] = [(pre + self.rules[k].prod, i + len(self.rules[k].t)) for k in b]
            nexts = memo[i]
            if not nexts:
                if not ignore:
                    fails = True
                    continue
                nexts = [("", i + 1)]
            for out, j in nexts:
                if got is None:
                    st = (j, 0)
                elif got.startswith(out, off):
                    st = (j, off + len(out))
                else:
                    continue
                if st not in seen:
                    seen.add(st)
                    todo.append(st)
        return accepted, fails, len(seen)

    def run(self, toks, ignore=False):
        """One allowed run (the first declared of equally specific rules):
        (rules matched, positions skipped, output, failing position or None)."""
        i, ks, skipped, out = 1, [], [], ""
        while i < len(toks) - 1:
            b = self.best(toks, i)
            if not b:
                if not ignore:
                    return ks, skipped, out, i
                skipped.append(i)
                i += 1
                continue
            o = self.insertion(toks, i)
            if o is not None:
                out += self.onmatch[o].prod
            out += self.rules[b[0]].prod
            ks.append(b[0])
            i += len(self.rules[b[0]].t)
        return ks, skipped, out, None

    def tied(self, toks):
        """Whether equally specific rules apply somewhere on a run over toks."""
        return any(len(self.best(toks, i)) > 1 for i in range(1, len(toks) - 1))


def direct_rule(r, nulls=False, empty=False):
    """As in direct settings; context parts that are missing are left out, null or empty lists."""
    d = {"production": r.prod, "tokens": list(r.t)}
    for key, v in (("prev_classes", r.pc), ("prev_tokens", r.pt), ("next_tokens", r.nt), ("next_classes", r.nc)):
        if v:
            d[key] = list(v)
        elif nulls:
            d[key] = None
        elif empty:
            d[key] = []
    return d


def easy_key(r):
    """Documented easy-reading notation of a rule."""
    cls = lambda cs: " ".join("<%s>" % c for c in cs)  # noqa
    out = " ".join(r.t)
    if r.pt:
        out = "(" + (cls(r.pc) + " " if r.pc else "") + " ".join(r.pt) + ") " + out
    elif r.pc:
        out = cls(r.pc) + " " + out
    if r.nt:
        out += " (" + " ".join(r.nt) + (" " + cls(r.nc) if r.nc else "") + ")"
    elif r.nc:
        out += " " + cls(r.nc)
    return out


def easy_onmatch_key(o):
    return " ".join("<%s>" % c for c in o.pc) + " + " + " ".join("<%s>" % c for c in o.nc)


def rule_of(x):
    """A library rule (TransliterationRule or dumped dict) as R."""
    if isinstance(x, dict):
        g = x.get
    else:
        g = lambda k: getattr(x, k)  # noqa
    t = lambda k: tuple(g(k) or ())  # noqa
    return R(g("production"), t("prev_classes"), t("prev_tokens"), t("tokens"), t("next_tokens"), t("next_classes"))


def onmatch_of(x):
    if isinstance(x, dict):
        return OM(tuple(x["prev_classes"]), tuple(x["next_classes"]), x["production"])
    return OM(tuple(x.prev_classes), tuple(x.next_classes), x.production)


def ambiguous_window(cfg, width=None):
    """A window matched by two rules of equal cost and by no less costly one, or None."""
    import itertools

    prev = max((len(r.pc) + len(r.pt) for r in cfg.rules), default=0)
    nxt = max((len(r.t) + len(r.nt) + len(r.nc) for r in cfg.rules), default=0)
    for w in itertools.product(cfg.tokens, repeat=prev + nxt):
        if len(cfg.best(w, prev)) > 1:
            return w
    return None
