import copy
import itertools
import json

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, build, mod, outcome
from mc.ref import OM, Cfg, rule

ID = "C36"
LEVEL = "model_checking"
RULE = (
    "cases = rules, on-match rules, whitespace settings, graphs made by sequences of edits, and settings; state = object x form (data or JSON text); "
    "transition = one dump and load on the implementation, compared with the object; traces = objects that came back equal in every form"
)
ASSUMPTIONS = [
    "empty attributes of a node are left out of dumps, and the edge list is sorted, as documented in the schema",
    "context parts of a rule are lists, or None where missing",
    "scope: objects within the bounds stated per phase",
]


def forms(schema, x, **kw):
    """What x becomes by dumping and loading, in every form."""
    s = lambda: schema(**kw)  # noqa
    one = s()
    d = one.dump(x)
    yield "data", one.load(copy.deepcopy(d))
    yield "data, another schema object", s().load(d)
    yield "JSON text", s().loads(s().dumps(x))
    yield "data through JSON", s().load(json.loads(json.dumps(d)))
    yield "twice", s().load(s().dump(s().load(s().dump(x))))


def back(schema, x, same, cov, info, **kw):
    cov.add("states", 1)
    before = copy.deepcopy(x)
    for form, y in forms(schema, x, **kw):
        cov.add("transitions", 1)
        if not same(x, y):
            raise Bad("%s: %s differs after dumping and loading" % (schema.__name__, form), before=x, after=y, **info)
    if not same(before, x):
        raise Bad("%s: dumping changes what is dumped" % schema.__name__, before=before, after=x, **info)
    cov.add("traces", 1)


def equal(x, y):
    return type(x) is type(y) and x == y and (not isinstance(x, tuple) or all(type(a) is type(b) for a, b in zip(x, y)))


def all_equal(x, y):
    return len(x) == len(y) and all(equal(a, b) for a, b in zip(x, y))


TEXTS = ["", "A", " ", "\n", "a b", "None", "0", "null", "\u0905", "\U0001f600", "\\", '"', "<a>", "\ud800"]
PARTS = [None, [], ["a"], ["b", "a"], ["a", "a"], ["", " ", "\n"]]


def run_rule(case, cov):
    m = mod()
    prod, pc, pt, toks, nt, nc, cost = case
    r = m.TransliterationRule(production=prod, prev_classes=pc, prev_tokens=pt, tokens=toks, next_tokens=nt, next_classes=nc, cost=cost)
    back(m.TransliterationRuleSchema, r, equal, cov, {})
    if pc is None and pt is None:
        back(m.TransliterationRuleSchema, [r, r._replace(production="x" + prod), r], all_equal, cov, {}, many=True)


def rules(big):
    parts = PARTS if big else PARTS[:4]
    for p in itertools.product(parts, repeat=4):
        for toks in (["a"], ["a", "b", "a"], [" "]):
            yield ("A", p[0], p[1], toks, p[2], p[3], 0.5)
    for prod in TEXTS:
        for cost in (0.0, 1.0, 0.5849625007211562, 1e-12, 1e300, 0.1 + 0.2, 5e-324):
            for toks in (["a"], TEXTS, ["a"] * 40):
                yield (prod, None, None, toks, None, None, cost)
                yield (prod, TEXTS, ["a"] * 40, toks, [prod], [prod], cost)


def run_small(case, cov):
    m = mod()
    kind, x = case
    if kind == "onmatch":
        r = m.OnMatchRule(prev_classes=list(x[0]), next_classes=list(x[1]), production=x[2])
        back(m.OnMatchRuleSchema, r, equal, cov, {})
        back(m.OnMatchRuleSchema, [r, r._replace(production="+" + x[2]), r], all_equal, cov, {}, many=True)
    else:
        back(m.WhitespaceSettingsSchema, m.WhitespaceRules(*x), equal, cov, {})
        d = dict(zip(("default", "token_class", "consolidate"), x))
        if m.WhitespaceDictSettingsSchema().load(dict(d)) != d or m.WhitespaceDictSettingsSchema().dump(d) != d:
            raise Bad("WhitespaceDictSettingsSchema changes settings", before=d, after=m.WhitespaceDictSettingsSchema().load(dict(d)))
        cov.add("transitions", 2)


def small(big):
    cs = ["v", "k", "w b", "", "\u0905"]
    lists = [list(x) for n in (1, 2, 3) for x in itertools.product(cs[: 5 if big else 3], repeat=n)]
    for a, b in itertools.product(lists, repeat=2):
        yield "onmatch", (a, b, "+")
    for p in TEXTS:
        yield "onmatch", (["v"], ["k", "v"], p)
        for q in TEXTS:
            for cons in (True, False):
                yield "whitespace", (p, q, cons)


# graphs

NODES = [{"type": "Start", "ordered_children": {}}, {"type": "token", "token": "a", "ordered_children": {"b": [1]}}, {"type": "rule", "rule_key": 0, "accepting": True}, {"token": "", "type": "x"}, {}]
EDGES = [None, {"token": "a", "cost": 0.5}, {"cost": 0.0, "constraints": {"prev_classes": ["v"], "next_tokens": ["a", "b"]}}, {"token": "", "constraints": {"prev_tokens": [], "next_classes": ["k", "v"]}}, {"cost": 1e-9}]


def strip(node):
    return {k: v for k, v in node.items() if v or (type(v) is int and v == 0)}


def same_graph(x, y):
    return (
        type(x) is type(y)
        and [strip(n) for n in x.node] == [strip(n) for n in y.node]
        and x.edge == y.edge
        and sorted(x.edge_list) == sorted(y.edge_list)
        and all(type(h) is int and all(type(t) is int for t in ts) for h, ts in y.edge.items())
        and all(type(e) is tuple for e in y.edge_list)
    )


def edits(depth, wide):
    """Sequences of edits, beginning with two nodes."""
    nodes = NODES if wide else NODES[:3]
    ops = [("n", k) for k in range(len(nodes))] + [("e", h, t, k) for h in range(2) for t in range(3) for k in range(len(EDGES) if wide else 3)]
    for n in range(depth + 1):
        yield from itertools.product(ops, repeat=n)


def run_graph(ops, cov):
    m = mod()
    g = m.DirectedGraph()
    g.add_node(copy.deepcopy(NODES[0]))
    g.add_node(copy.deepcopy(NODES[1]))
    for op in ops:
        if op[0] == "n":
            g.add_node(copy.deepcopy(NODES[op[1]]))
        elif op[2] < len(g.node):
            g.add_edge(op[1], op[2], copy.deepcopy(EDGES[op[3]]))
    if not g.edge:
        cov.add("states", 1)
    back(m.DirectedGraphSchema, g, same_graph, cov, dict(edits=ops))
    # what is loaded is another graph
    d = m.DirectedGraphSchema().dump(g)
    h = m.DirectedGraphSchema().load(d)
    keep = copy.deepcopy(g)
    keep_d = copy.deepcopy(d)
    h.add_node({"token": "new"})
    h.add_edge(len(h.node) - 1, 0, {"token": "new"})
    for n in h.node:
        n["type"] = "changed"
        if n.get("ordered_children"):
            for v in n["ordered_children"].values():
                v.append(99)
            n["ordered_children"]["changed"] = [9]
    for ts in h.edge.values():
        for e in ts.values():
            e["cost"] = 9.5
            for v in e.get("constraints", {}).values():
                v.append("changed")
    if not same_graph(keep, g):
        raise Bad("changing a loaded graph changes the one it was dumped from", edits=ops)
    if d != keep_d:
        raise Bad("changing a loaded graph changes the data it was loaded from", edits=ops)
    cov.add("transitions", 1)


def orders(big):
    """Every set of up to k edges among three or four nodes, in every order of adding them."""
    for nodes, k in ((3, 4), (4, 3)) if not big else ((3, 5), (4, 4)):
        pairs = [(h, t) for h in range(nodes) for t in range(nodes)]
        for n in range(1, k + 1):
            for c in itertools.combinations(pairs, n):
                yield nodes, c


def run_orders(case, cov):
    """Equal graphs dump equally, whatever the order in which their edges were added."""
    nodes, edges = case
    m = mod()
    first = None
    for order in itertools.permutations(edges):
        g = m.DirectedGraph()
        for i in range(nodes):
            g.add_node({"type": "token", "token": str(i)})
        for h, t in order:
            g.add_edge(h, t, {"token": "%d%d" % (h, t)})
        cov.add("states", 1)
        cov.add("transitions", 2)
        d = m.DirectedGraphSchema().dump(g)
        if [tuple(e) for e in d["edge_list"]] != sorted(edges):
            raise Bad("the edge list that is dumped is not the sorted list of edges", edges=order, got=d["edge_list"])
        text = json.dumps(d, sort_keys=True)
        if first is not None and text != first:
            raise Bad("graphs with the same edges dump differently", edges=order, got=text, expected=first)
        first = text
        h = m.DirectedGraphSchema().load(json.loads(text))
        if not same_graph(g, h) or json.dumps(m.DirectedGraphSchema().dump(h), sort_keys=True) != text:
            raise Bad("a graph differs after dumping and loading", edges=order, got=h)
    cov.add("traces", 1)


def run_settings(case, cov):
    """SettingsSchema, and the whole transliterator's schema."""
    m = mod()
    cfg = case
    d = cfg.settings()
    keep = copy.deepcopy(d)
    s = m.SettingsSchema().load(d)
    cov.add("transitions", 1)
    if d != keep:
        raise Bad("SettingsSchema changes the settings it loads", cfg=cfg)
    if {t: set(c) for t, c in s["tokens"].items()} != {t: set(c) for t, c in cfg.tokens.items()} or tuple(s["whitespace"]) != tuple(cfg.ws):
        raise Bad("SettingsSchema gives other tokens or whitespace", cfg=cfg, got=s)
    g = build(cfg)
    if [tuple(r) for r in s["rules"]] != [tuple(r) for r in g.rules] or [tuple(o) for o in s.get("onmatch_rules") or []] != [tuple(o) for o in g.onmatch_rules or []]:
        raise Bad("SettingsSchema gives other rules than the transliterator's", cfg=cfg, got=s)
    for part, schema, same in (("graph", m.DirectedGraphSchema, same_graph), ("rules", m.TransliterationRuleSchema, all_equal), ("onmatch_rules", m.OnMatchRuleSchema, all_equal), ("whitespace", m.WhitespaceSettingsSchema, equal)):
        x = getattr(g, part)
        if x is not None:
            back(schema, list(x) if isinstance(x, list) else x, same, cov, dict(cfg=cfg), **({"many": True} if same is all_equal else {}))
    # the schema of transliterators does what dump and load do
    full = m.GraphTransliteratorSchema().dump(g)
    if json.dumps(full, sort_keys=True, default=sorted) != json.dumps(g.dump(0), sort_keys=True, default=sorted):
        raise Bad("GraphTransliteratorSchema dumps something else than dump", cfg=cfg)
    h = m.GraphTransliteratorSchema().load(full)
    if not isinstance(h, GT()):
        raise Bad("GraphTransliteratorSchema does not load a transliterator", cfg=cfg, got=h)
    if not same_graph(g.graph, h.graph) or [tuple(r) for r in h.rules] != [tuple(r) for r in g.rules]:
        raise Bad("GraphTransliteratorSchema loads something else than was dumped", cfg=cfg)
    for t in ("a", "ab", "b a", "bb"):
        if outcome(h.transliterate, t) != outcome(g.transliterate, t):
            raise Bad("a transliterator loaded by its schema behaves otherwise", cfg=cfg, input=t)
    # easy reading settings are checked, and not changed
    e = cfg.easy()
    keep = copy.deepcopy(e)
    if m.EasyReadingSettingsSchema().load(e) != keep or e != keep:
        raise Bad("EasyReadingSettingsSchema changes settings", cfg=cfg)
    cov.add("transitions", 4)


def settings(big):
    pool = fam.named(fam.pool(("a", "b", "ab"), fam.CTX[:: 1 if big else 2]))
    oms = [[], [OM(("v",), ("v",), "+")], [OM(("wb", "v"), ("k",), ""), OM(("v",), ("v", "k"), "\u200d")]]
    for n in (0, 1, 2):
        for k, rs in enumerate(itertools.permutations(pool, n)):
            if n == 2 and k % (7 if big else 5):
                continue
            for om in oms[k % 3 :: 3] if n else oms:
                for cons in (True, False):
                    yield Cfg(fam.TOK, rs, om, (" ", "wb", cons), metadata={"k": k} if k % 2 else None)


def run_large(case, cov):
    """Large graphs, their edges added in several orders."""
    nodes, shape = case
    m = mod()
    edges = {
        "star": [(0, t) for t in range(1, nodes)],
        "chain": [(t, t + 1) for t in range(nodes - 1)],
        "tree": [((t - 1) // 3, t) for t in range(1, nodes)],
        "back": [(t, nodes - 1 - t) for t in range(nodes)],
    }[shape]
    texts = set()
    for order in (edges, edges[::-1], edges[1::2] + edges[::2], sorted(edges, key=lambda e: (e[1] * 7 % nodes, e))):
        g = m.DirectedGraph()
        for i in range(nodes):
            g.add_node({"type": "token", "token": str(i)})
        for h, t in order:
            g.add_edge(h, t, {"token": "%d %d" % (h, t)})
        d = m.DirectedGraphSchema().dump(g)
        if [tuple(e) for e in d["edge_list"]] != sorted(edges):
            raise Bad("the edge list that is dumped is not the sorted list of edges", shape=case, got=d["edge_list"][:20])
        text = json.dumps(d, sort_keys=True)
        texts.add(text)
        h = m.DirectedGraphSchema().load(json.loads(text))
        if not same_graph(g, h):
            raise Bad("a graph differs after dumping and loading", shape=case)
        cov.add("states", 1)
        cov.add("transitions", 2)
    if len(texts) != 1:
        raise Bad("graphs with the same edges dump differently", shape=case)
    cov.add("traces", 1)


def phases(tier):
    big = tier == "thorough"
    return [
        Phase("rules", lambda: rules(big), run_rule, note="rules with every combination of context parts, and unusual texts and costs"),
        Phase("small", lambda: small(big), run_small, note="on-match rules and whitespace settings"),
        Phase("graphs", lambda: edits(3 if big else 2, True), run_graph, note="graphs after every sequence of up to %d edits" % (3 if big else 2)),
        Phase("graphs-deep", lambda: edits(4 if big else 3, False), run_graph, note="graphs after longer sequences of fewer edits"),
        Phase("orders", lambda: orders(big), run_orders, note="edges added in every order"),
        Phase("large", lambda: [(n, s) for n in (11, 101, 300, 1100, 2500) + ((11000,) if big else ()) for s in ("star", "chain", "tree", "back")], run_large, cpu_limit=200, note="graphs of up to %d nodes" % (11000 if big else 2500)),
        Phase("settings", lambda: settings(big), run_settings, note="settings, easy-reading settings and whole transliterators"),
    ]
