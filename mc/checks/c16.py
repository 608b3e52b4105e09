import os
import unicodedata

from mc.engine import Bad, Phase
from mc.impl import GT, onmatch_list, same_rules

ID = "C16"
LEVEL = "model_checking"
RULE = (
    "cases = batches of Unicode character names; state = one character (complete enumeration of all named characters); transition = one "
    "YAML text read by the implementation; traces = characters found unchanged in tokens, rules and productions"
)
ASSUMPTIONS = [
    "names are those of the interpreter's unicodedata",
    "apostrophe is not tried inside single quotes, nor characters YAML itself treats as line breaks or byte order mark",
]

NOT_IN_YAML = {"\u2028", "\u2029", "\ufeff"}
NOTATION = set("()<>")


def named():
    for cp in range(0x110000):
        if 0xD800 <= cp < 0xE000:
            continue
        c = chr(cp)
        n = unicodedata.name(c, None)
        if n and c not in NOT_IN_YAML:
            yield c, n


_batches = {}


def batches(size):
    if size not in _batches:
        allc = list(named())
        assert len(allc) > 100000
        _batches[size] = [allc[i : i + size] for i in range(0, len(allc), size)]
    return _batches[size]


def esc(n):
    return "\\N{%s}" % n


def document(batch, quote, extra_rules):
    q = lambda s: quote + s + quote  # noqa
    L = ["tokens:", "  'a': ['v']", "  ' ': ['wb', 'v']"]
    for c, n in batch:
        if c not in "a ":
            L.append("  %s: ['v']" % q(esc(n)))
    L += ["rules:", "  'a': 'A'", "  ' ': ' '"]
    for c, n in batch:
        if c not in "a ":
            L.append("  %s: %s" % (q(esc(n)), q("x%sy%s" % (esc(n), esc(n)))))
    L += extra_rules
    L += ["onmatch_rules:"]
    for c, n in batch[:2]:
        L.append("  - '<v> + <wb>': %s" % q(esc(n)))
    L += ["whitespace:", "  default: ' '", "  token_class: wb", "  consolidate: false", "metadata:"]
    for i, (c, n) in enumerate(batch):
        L.append("  k%d: %s" % (i, q(esc(n) + esc("DIGIT ONE"))))
    return "\n".join(L) + "\n"


def load(text, as_file, **kw):
    if not as_file:
        return GT().from_yaml(text, check_ambiguity=False, **kw)
    path = os.path.join(os.environ["MC_TMP"], "c16-%d.yaml" % os.getpid())
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return GT().from_yaml_file(path, check_ambiguity=False, **kw)


def run_names(case, cov):
    index, batch, quote, as_file = case
    # unless already as big as the batch size
    if quote == "'":
        batch = [b for b in batch if b[0] != "'"]
    else:
        batch = [b for b in batch if b[0] not in '"\\']
    L = []
    plain = [(c, n) for c, n in batch if not c.isspace() and c not in NOTATION and c != "a" and len(c.split()) == 1]
    # some in other roles
    for c, n in plain[::7]:
        L.append("  %s(%s) a%s: 'prev %s'" % (quote, esc(n), quote, "p"))
        L.append("  %sa (a %s)%s: 'next'" % (quote, esc(n), quote))
        L.append("  %s%s a%s: 'two'" % (quote, esc(n), quote))
    g = load(document(batch, quote, L), as_file)
    want = {c for c, _ in batch} | {"a", " "}
    if set(g.tokens) != want:
        raise Bad("tokens are not the named characters", missing=sorted(want - set(g.tokens))[:5], unexpected=sorted(set(g.tokens) - want)[:5], names=[n for c, n in batch if c not in g.tokens][:5])
    by_tokens = {}
    for r in same_rules(g):
        by_tokens.setdefault((r.pt, r.t, r.nt), []).append(r.prod)
    for c, n in batch:
        if c in "a ":
            continue
        if by_tokens.get(((), (c,), ())) != ["x%sy%s" % (c, c)]:
            raise Bad("rule for %s is wrong" % n, got=by_tokens.get(((), (c,), ())), char=c)
        cov.add("traces", 1)
    for c, n in plain[::7]:
        for key, prod in ((((c,), ("a",), ()), "prev p"), (((), ("a",), ("a", c)), "next"), (((), (c, "a"), ()), "two")):
            if by_tokens.get(key) != [prod]:
                raise Bad("rule with %s is wrong" % n, key=key, got=by_tokens.get(key))
    if [o.prod for o in onmatch_list(g)] != [c for c, _ in batch[:2]]:
        raise Bad("on-match productions are wrong", got=onmatch_list(g), names=batch[:2])
    if g.metadata != {"k%d" % i: c + "1" for i, (c, _) in enumerate(batch)}:
        raise Bad("names in metadata are wrong", names=batch[:5])
    cov.add("states", len(batch))
    cov.add("transitions", 1)


def run_verbatim(case, cov):
    """With unescaping turned off, the text is left alone."""
    index, batch, as_file = case
    names = [n for _, n in batch]
    L = ["tokens:", "  a: [v]", "  ' ': [wb]"]
    L += ["  '%s': [v]" % esc(n) for n in names]
    L += ["rules:", "  ' ': ' '"]
    L += ["  'a (%s)': '%s'" % (" ".join(["a"] * i), esc(n) + esc(n)) for i, n in enumerate(names[:20], 1)]
    L += ["whitespace: {default: ' ', token_class: wb, consolidate: true}", "metadata:"]
    L += ["  '%s': '%s'" % (esc(n), "z" + esc(n)) for n in names]
    g = load("\n".join(L) + "\n", as_file, charnames_escaped=False)
    if set(g.tokens) != {"a", " "} | {esc(n) for n in names}:
        raise Bad("tokens were changed with unescaping turned off", names=names[:5], got=[t for t in g.tokens if "N{" not in t][:5])
    if g.metadata != {esc(n): "z" + esc(n) for n in names}:
        raise Bad("metadata were changed with unescaping turned off", names=names[:5])
    prods = {len(r.nt): r.prod for r in same_rules(g) if r.nt}
    if prods != {i: esc(n) * 2 for i, n in enumerate(names[:20], 1)}:
        raise Bad("productions were changed with unescaping turned off", got=prods)
    cov.add("states", len(names))
    cov.add("transitions", 1)
    cov.add("traces", len(names))


def run_adjacent(case, cov):
    """Several names in one token, rule and production; text around them that looks similar."""
    (c, n), (d, m), style = case
    q = {"single": "'%s'", "double": '"%s"', "plain": "%s"}[style]
    t = "%s%s" % (esc(n), esc(m))
    text = "\n".join(
        [
            "tokens:",
            "  %s: [v, wb]" % q % t,
            "  %s: [wb]" % q % ("N%sN" % esc(m)),
            "  %s: [v]" % q % esc(n),
            "rules:",
            "  %s: %s" % (q % t, q % (esc(m) + "." + esc(n) + esc(n))),
            "  %s %s: %s" % ("(%s)" % t if style == "plain" else "", "N%sN" % esc(m), q % ("N{x}" + esc(n))) if style == "plain" else "  %s: %s" % (q % ("(%s) N%sN" % (t, esc(m))), q % ("N{x}" + esc(n))),
            "whitespace:",
            "  default: %s" % q % t,
            "  token_class: wb",
            "  consolidate: false",
        ]
    )
    g = GT().from_yaml(text)
    rules = same_rules(g)
    got = [(r.pt, r.t, r.prod) for r in rules]
    want = [((c + d,), ("N%sN" % d,), "N{x}" + c), ((), (c + d,), d + "." + c + c)]
    if got != want or set(g.tokens) != {c + d, "N%sN" % d, c} or g.whitespace.default != c + d:
        raise Bad("names are not replaced by their characters", text=text, got=(got, list(g.tokens), g.whitespace), expected=want)
    cov.add("states", 1)
    cov.add("transitions", 1)
    cov.add("traces", 1)


AROUND = ["", "\\", "\\\\", "\\\\\\", "{", "}", "N", "N{", "\\N", "\\N{", "\\N{}", "\\n", "\\x41", "\\u0041", "\\U", "x", "1", "-", " x", "\u0905", "\\N{dotted}", "\\N{A_B}", "$", "%s", "{0}", "\\g<0>", "\\1"]


def run_around(case, cov):
    """What stands before and after a name stays as it is."""
    (c, n), before, as_file = case
    L = ["tokens:", "  a: [v]", "  ' ': [wb]", "rules:", "  a: A", "  ' ': ' '", "whitespace:", "  default: ' '", "  token_class: wb", "  consolidate: false", "metadata:"]
    want = {}
    for k, after in enumerate(AROUND):
        L.append("  k%d: '%s'" % (k, before + esc(n) + after))
        want["k%d" % k] = before + c + after
        L.append("  m%d: '%s'" % (k, before + esc(n) + after + esc(n) + before))
        want["m%d" % k] = before + c + after + c + before
    g = load("\n".join(L), as_file)
    got = g.metadata
    if got != want:
        k = [x for x in want if got.get(x) != want[x]][0]
        raise Bad("text around a name is changed, or the name is not replaced", got=got.get(k), expected=want[k], name=n)
    cov.add("states", len(want))
    cov.add("transitions", 1)
    cov.add("traces", len(want))


LETTERS = ["a", "Z", "\u0905", "\u00e9", "\u4e00", "\uac00", "\U00010400", "\U0001f600", "\u0301", "\u200d", "\U00016800", "\u1100", "\ua66e", "\U0001d49c", "\u0e01", "\U00020000", "\ufb01", "\u2075"]


def phases(tier):
    big = tier == "thorough"
    B = batches(500)
    lets = [(c, unicodedata.name(c)) for c in LETTERS]
    if big:
        lets += [b for b in batches(2500) for b in b[:1] if b[0].isalpha()]
    every = list(enumerate(B))
    return [
        Phase("adjacent", lambda: [(x, y, s) for x in lets for y in lets if x != y for s in ("single", "double", "plain")], run_adjacent, note="two names in one token, rule and production, three YAML styles"),
        Phase("around", lambda: [(x, b, i % 2 == 1) for i, x in enumerate(lets) for b in AROUND], run_around, note="%d texts before and after a name" % len(AROUND)),
        Phase("names", lambda: [(i, b, "'", i % 2 == 1) for i, b in every], run_names, cpu_limit=120, note="every named character, in tokens, rules, productions, on-match productions, metadata"),
        Phase("double-quoted", lambda: [(i, b, '"', i % 2 == 0) for i, b in every], run_names, cpu_limit=120, note="inside double quotes"),
        Phase("verbatim", lambda: [(i, b, i % 2 == 0) for i, b in every], run_verbatim, cpu_limit=120, note="charname unescaping turned off"),
    ]
