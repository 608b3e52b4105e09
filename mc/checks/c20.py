import itertools
import json

from mc import fam
from mc.engine import Bad, Phase
from mc.impl import GT, Pool, build, mod
from mc.ref import Cfg, R, rule, rule_of

ID = "C20"
LEVEL = "model_checking"
RULE = (
    "cases = rule set x way of obtaining the graph; states = nodes and transitions = edges of the real graph, all of them visited; traces = "
    "graphs in which every node, edge, children list and edge-list entry agrees with the rules"
)
ASSUMPTIONS = [
    "graph data are read in their documented public form (node, edge, edge_list; node type, token, rule_key, accepting, ordered_children)",
    "costs are compared to nine digits",
    "scope: rule sets within the bounds stated per phase",
]
PARTS = (("prev_classes", "pc"), ("prev_tokens", "pt"), ("next_tokens", "nt"), ("next_classes", "nc"))


def near(a, b):
    return abs(a - b) < 1e-9


def check_graph(g, info, cov):
    graph, rules = g.graph, list(g.rules)
    node = list(graph.node)
    edge = {h: dict(ts.items()) for h, ts in graph.edge.items()}
    n = len(node)
    edges = [(h, t) for h, ts in edge.items() for t in ts]
    for h, t in edges:
        if type(h) is not int or type(t) is not int or not (0 <= h < n and 0 <= t < n):
            raise Bad("edge %r between nodes that do not exist" % ((h, t),), nodes=n, **info)
    el = [tuple(e) for e in graph.edge_list]
    if sorted(el) != sorted(edges):
        raise Bad("edge list does not name each edge once", edge_list=el, edges=edges, **info)
    starts = [i for i, d in enumerate(node) if d.get("type") == "Start"]
    if starts != [0]:
        raise Bad("start nodes are %r" % starts, **info)
    parents = {}
    for h, t in edges:
        if t in parents or t == 0:
            raise Bad("not a tree: node %d has several parents" % t, edges=edges, **info)
        parents[t] = h
    if set(parents) != set(range(1, n)):
        raise Bad("not a tree: nodes without parent", nodes=n, edges=edges, **info)
    # depth first from the start; cycles are impossible only if all are reached
    kids = {i: [] for i in range(n)}
    for t, h in parents.items():
        kids[h].append(t)
    path = {0: ()}
    order = [0]
    for i in order:
        for t in kids[i]:
            d = node[t]
            if d.get("type") == "token":
                path[t] = path[i] + (d["token"],)
            elif d.get("type") == "rule":
                path[t] = path[i]
            else:
                raise Bad("node %d has type %r" % (t, d.get("type")), node=d, **info)
            order.append(t)
    if len(order) != n:
        raise Bad("not a tree: nodes that cannot be reached", edges=edges, **info)
    leaf_of = {}
    lowest = {}
    for i in reversed(order):
        d = node[i]
        if d.get("type") == "rule":
            k = d.get("rule_key")
            if type(k) is not int or not 0 <= k < len(rules) or k in leaf_of:
                raise Bad("leaf with rule key %r, which is wrong or repeated" % (k,), node=i, **info)
            if not d.get("accepting"):
                raise Bad("leaf of rule %d is not accepting" % k, node=i, **info)
            if kids[i]:
                raise Bad("rule %d is not a leaf" % k, node=i, **info)
            leaf_of[k] = i
            lowest[i] = rules[k].cost
            r = rule_of(rules[k])
            if path[i] != r.t:
                raise Bad("path to rule %d spells %r" % (k, path[i]), rule=rules[k], **info)
            e = edge[parents[i]][i]
            c = e.get("constraints") or {}
            got = {p: tuple(c[p]) for p in c if c[p]}
            want = {p: getattr(r, q) for p, q in PARTS if getattr(r, q)}
            if got != want:
                raise Bad("edge to rule %d carries %r" % (k, got), expected=want, **info)
        else:
            if d.get("accepting"):
                raise Bad("node %d is accepting but no rule" % i, **info)
            if not kids[i]:
                if i or rules:
                    raise Bad("node %d leads to no rule" % i, node=d, **info)
                continue
            lowest[i] = min(lowest[t] for t in kids[i])
            for t in kids[i]:
                if node[t].get("type") == "token":
                    e = edge[i][t]
                    if e.get("constraints"):
                        raise Bad("edge before token node %d carries conditions" % t, edge=e, **info)
                    if e.get("token", node[t]["token"]) != node[t]["token"]:
                        raise Bad("edge to node %d has token %r" % (t, e.get("token")), node=node[t], **info)
    if set(leaf_of) != set(range(len(rules))):
        raise Bad("rules without leaf: %r" % sorted(set(range(len(rules))) - set(leaf_of)), **info)
    for h, t in edges:
        if not near(edge[h][t]["cost"], lowest[t]):
            raise Bad("edge %r costs %r, lowest rule cost below is %r" % ((h, t), edge[h][t]["cost"], lowest[t]), **info)
    for i in range(n):
        oc = node[i].get("ordered_children") or {}
        rk = [t for t in kids[i] if node[t]["type"] == "rule"]
        tk = [t for t in kids[i] if node[t]["type"] == "token"]
        want = {}
        if rk:
            want["__rules__"] = rk
        for t in tk:
            want.setdefault(node[t]["token"], list(rk)).append(t)
        got = {k: list(v) for k, v in oc.items()}
        if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()}:
            raise Bad("children lists of node %d are not complete" % i, got=got, expected=want, **info)
        for k, v in got.items():
            costs = [edge[i][t]["cost"] for t in v]
            if any(a > b + 1e-9 for a, b in zip(costs, costs[1:])):
                raise Bad("children of node %d for %r are not sorted by cost" % (i, k), children=v, costs=costs, **info)
    cov.add("states", n)
    cov.add("transitions", len(edges))
    cov.add("traces", 1)
    return n


WAYS = ["fresh", "0", "1", "2", "text0", "text1", "text2", "nograph", "coverage", "pruned", "1then0", "0then1", "0thenpruned", "noedgelist"]


def obtain(g, way):
    G = GT()
    if way == "fresh":
        return g
    if way in "012":
        return G.load(g.dump(int(way)))
    if way.startswith("text"):
        return G.loads(g.dumps(int(way[4:])))
    if way == "coverage":
        return mod().CoverageTransliterator(g.tokens, g.rules, g.whitespace, onmatch_rules=g.onmatch_rules, check_ambiguity=False)
    if way == "pruned":
        return g.pruned_of(g.rules[0].production if g.rules else "x")
    if way == "1then0":
        return G.loads(G.loads(g.dumps(1)).dumps(0))
    if way == "0then1":
        return G.load(G.load(g.dump(0)).dump(1))
    if way == "0thenpruned":
        return G.load(g.dump(0)).pruned_of("<1>")
    d = g.dump()
    if way == "nograph":
        del d["graph"]
    if way == "noedgelist":
        del d["graph"]["edge_list"]
    return G.load(d)


def run(case, cov):
    cfg, ways = case
    g = build(cfg)
    for way in ways:
        check_graph(obtain(g, way), dict(cfg=cfg, way=way), cov)


def run_used(case, cov):
    """The graph is still the same after use."""
    cfg, inputs = case
    for way in ("fresh", "0", "text1", "coverage"):
        g = obtain(build(cfg, ignore_errors=True), way)
        n = check_graph(g, dict(cfg=cfg, way=way), cov)
        for s in inputs:
            g.ignore_errors = True
            g.transliterate(s)
        g.dump()
        g.dumps(1)
        g.pruned_of("<0>")
        if check_graph(g, dict(cfg=cfg, way=way, after="use"), cov) != n:
            raise Bad("the graph changed with use", cfg=cfg, way=way)


_pools = {}


def run_sub(case, cov):
    name, i = case
    p = _pools[name]
    for j in range(len(p.cfg.rules)):
        for k in range(j, len(p.cfg.rules)):
            ks = sorted({i, j, k})
            if ks[0] != i:
                continue
            g, cfg = p.sub(ks)
            check_graph(g, dict(cfg=cfg, way="fresh"), cov)


def run_bundled(case, cov):
    name, method, way = case
    import graphtransliterator.transliterators as T

    g = getattr(T, name).new(method=method, check_ambiguity=False)
    check_graph(obtain(g, way), dict(name=name, method=method, way=way), cov)


def phases(tier):
    big = tier == "thorough"
    P = itertools.product
    pool = fam.pool()
    _pools["pool"] = Pool(Cfg(fam.TOK, fam.named(fam.pool(("a", "b", "aa", "ab", "ba", "aba", "aab", "abb")))))
    ab3 = fam.seqs("ab", 1, 3)
    _pools["trie"] = Pool(Cfg(fam.TOK, fam.named([((), (), t, (), ()) for t in fam.seqs("ab", 1, 4)])))
    short = lambda al: fam.seqs(al, 0, 1)  # noqa
    pats = list(fam.all_patterns(fam.seqs("ab", 1, 2), short("a "), short("b "), short(("v", "wb")), short(("k", "wb"))))
    sub = pool if big else pool[::4]
    # rules alike but for the production, and altogether alike
    sp = fam.small_pool()
    alike = [Cfg(fam.TOK, [R(x, *p) for p, x in zip(ps, prods)]) for q in itertools.combinations(sp[:: 1 if big else 2], 2)
             for ps in ((q[0], q[0]), (q[0], q[1], q[0]), (q[0], q[0], q[1], q[1], q[0])) for prods in ("12345", "11111", "12121")]
    return [
        Phase("alike", lambda: [(c, WAYS) for c in alike], run, note="several rules with the same tokens and contexts, with different and equal productions"),
        Phase("sweep", lambda: [(c, [w]) for _, c, _ in fam.sweep_cfgs(big) for w in WAYS if len(c.tokens) < 150 or w in ("fresh", "text1")], run, cpu_limit=120, note="large configurations"),
        Phase("bundled", lambda: P(("Example", "ITRANSDevanagariToUnicode"), ("yaml", "json"), ("fresh", "text0", "text1", "coverage")), run_bundled, cpu_limit=120, note="bundled transliterators"),
        Phase("tries", lambda: [("trie", i) for i in range(30)], run_sub, note="sets of up to three token sequences of length up to four"),
        Phase("sets", lambda: [("pool", i) for i in range(112)], run_sub, cpu_limit=300, note="sets of up to three rules from a pool of 112"),
        Phase("few", lambda: [(Cfg(fam.TOK, fam.BASE_RULES[:n]), WAYS) for n in range(4)] + [(Cfg(fam.TOK, fam.named([p])), WAYS) for p in pats[:: 1 if big else 4]], run, note="no rule, one rule of every shape; every way of obtaining the graph"),
        Phase("reloaded", lambda: [(Cfg(fam.TOK, fam.named(p)), WAYS) for p in itertools.combinations(sub, 2)] + [(Cfg(fam.TOK, fam.named(p)), WAYS) for p in itertools.combinations(fam.small_pool()[:: 1 if big else 2], 3)], run, note="pairs and triples; every way of obtaining the graph"),
        Phase("orders", lambda: [(Cfg(fam.TOK, fam.named(p)), ["fresh", "text1"]) for q in itertools.combinations(pool[::7], 4) for p in (list(itertools.permutations(q)) if big else [q, q[::-1], q[1:] + q[:1], (q[2], q[0], q[3], q[1])])], run, note="declared orders of four rules"),
        Phase("used", lambda: [(Cfg(fam.TOK, fam.named(p)), ["", "a", "ab", "ba", "aab", "abba", "?"]) for p in itertools.combinations(sub, 2)], run_used, note="after use"),
    ]
