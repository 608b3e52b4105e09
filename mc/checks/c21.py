import itertools

from mc.engine import Bad, Phase

ID = "C21"
LEVEL = "model_checking"
RULE = (
    "cases = first steps of a sequence of edits, all continuations explored within the case (stateless, on the real class); states = graphs "
    "reached, compared with a model holding a node list and a dictionary of edges; transitions = edits; traces = complete sequences"
)
ASSUMPTIONS = [
    "booleans are neither valid nor invalid as node indexes (not tried)",
    "the order of the edge list is not compared",
    "scope: edits and sequence lengths stated per phase",
]

NODE, EDGE = "add_node", "add_edge"


class Model:
    def __init__(self, nodes=(), edges=()):
        self.nodes = [dict(x) for x in nodes]
        self.edges = {k: dict(v) for k, v in dict(edges).items()}


def is_valid(m, op):
    if op[0] == NODE:
        return op[1] is None or type(op[1]) is dict
    _, h, t, data = op
    return (
        type(h) is int and type(t) is int and 0 <= h < len(m.nodes) and 0 <= t < len(m.nodes) and (data is None or type(data) is dict)
    )


def compare(g, m, info):
    if [dict(x) for x in g.node] != m.nodes or len(g.node) != len(m.nodes):
        raise Bad("nodes are %r, should be %r" % (list(g.node), m.nodes), **info())
    empty = [h for h, ts in g.edge.items() if not ts]
    if empty:
        raise Bad("edge mapping has heads without edges: %r" % empty, **info())
    got = {}
    for h, ts in g.edge.items():
        for t, d in ts.items():
            got[h, t] = d
    if got != m.edges:
        raise Bad("edges are %r, should be %r" % (got, m.edges), **info())
    if any(type(x) is not int for e in got for x in e):
        raise Bad("edge mapping has keys that are no integers: %r" % (got,), **info())
    el = list(g.edge_list)
    if len(el) != len(m.edges) or sorted(tuple(e) for e in el) != sorted(m.edges):
        raise Bad("edge list is %r, should name %r" % (el, sorted(m.edges)), **info())


def rebuild(g, m, info):
    from graphtransliterator import DirectedGraph

    r = DirectedGraph(node=[dict(x) for x in g.node], edge={h: {t: dict(d) for t, d in ts.items()} for h, ts in g.edge.items()})
    compare(r, m, lambda: dict(info(), rebuilt=True))
    if sorted(r.edge_list) != sorted(tuple(e) for e in g.edge_list):
        raise Bad("rebuilt graph has another edge list", got=r.edge_list, **info())
    r2 = DirectedGraph(node=[dict(x) for x in g.node], edge={h: {t: dict(d) for t, d in ts.items()} for h, ts in g.edge.items()}, edge_list=list(g.edge_list))
    compare(r2, m, lambda: dict(info(), rebuilt="with edge list"))
    return r


def step(g, m, op, n, info, cov):
    """Apply op (n makes its data distinct) to graph and model; compare."""
    cov.add("transitions", 1)
    if op[0] == NODE:
        data = {"n": n} if op[1] == {"n": 0} else op[1]
        call = lambda: g.add_node() if data is None else g.add_node(data)  # noqa
    else:
        data = {"n": n} if op[3] == {"n": 0} else op[3]
        call = lambda: g.add_edge(op[1], op[2]) if data is None else g.add_edge(op[1], op[2], data)  # noqa
    valid = is_valid(m, op)
    try:
        r = call()
    except ValueError as e:
        if valid:
            raise Bad("valid edit raises ValueError: %s" % e, **info())
    except Exception as e:
        raise Bad("edit raises %s: %s" % (type(e).__name__, e), **info())
    else:
        if not valid:
            raise Bad("invalid edit is accepted", **info())
        want = dict(data or {})
        if op[0] == NODE:
            if r != (len(m.nodes), want):
                raise Bad("add_node returns %r, should be %r" % (r, (len(m.nodes), want)), **info())
            m.nodes.append(want)
        else:
            if r != want:
                raise Bad("add_edge returns %r, should be %r" % (r, want), **info())
            m.edges[op[1], op[2]] = want
    compare(g, m, info)
    cov.add("states", 1)


def play(start, ops, cov):
    from graphtransliterator import DirectedGraph

    nodes, edges = start
    if nodes or edges:
        ed = {}
        for (h, t), d in edges:
            ed.setdefault(h, {})[t] = dict(d)
        g = DirectedGraph(node=[dict(x) for x in nodes], edge=ed)
    else:
        g = DirectedGraph()
    m = Model(nodes, dict(edges))
    info = lambda: dict(start=start, edits=ops)  # noqa
    compare(g, m, info)
    for n, op in enumerate(ops):
        step(g, m, op, n, info, cov)
    r = rebuild(g, m, info)
    # the rebuilt graph can be edited further, without changing the first
    before = Model(m.nodes, m.edges)
    step(r, m, (NODE, {"n": 0}), 99, info, cov)
    step(r, m, (EDGE, len(m.nodes) - 1, 0, None), 99, info, cov)
    compare(g, before, info)
    cov.add("traces", 1)


def run(case, cov):
    start, prefix, alphabet, rest = case
    for tail in itertools.product(alphabet, repeat=rest):
        play(start, prefix + tail, cov)


def run_two(case, cov):
    """Edits of two graphs alternate; each sees only its own."""
    from graphtransliterator import DirectedGraph

    prefix, alphabet, rest = case
    for tail in itertools.product(alphabet, repeat=rest):
        ops = prefix + tail
        gs = [DirectedGraph(), DirectedGraph()]
        ms = [Model(), Model()]
        info = lambda: dict(edits=ops)  # noqa
        for n, (who, op) in enumerate(ops):
            step(gs[who], ms[who], op, n, info, cov)
            compare(gs[1 - who], ms[1 - who], info)
        cov.add("traces", 1)


def run_large(case, cov):
    n, order = case
    ops = [(NODE, {"n": 0})] * n
    pairs = [(h, t) for h in range(n) for t in range(n)]
    pairs = {"up": pairs, "down": pairs[::-1], "odd": pairs[1::2] + pairs[::2], "twice": pairs[: n * 2] * 2, "star": [(0, t) for t in range(n)] + [(h, 0) for h in range(n)]}[order]
    ops += [(EDGE, h, t, {"n": 0}) for h, t in pairs]
    ops += [(EDGE, n, 0, None), (EDGE, 0, n, None), (EDGE, -1, 0, None), (EDGE, -n, 0, None)]
    play(((), ()), tuple(ops), cov)


N, ND = (NODE, None), (NODE, {"n": 0})
BAD_NODES = [(NODE, x) for x in ([], "a", 1, 0, (), "", [("a", 1)])]
BAD_INDEX = ["0", None, 0.0, 1.5, (), [], {}, b"0", -1, -2, 10**9]


def edges(k, datas=({"n": 0},)):
    return [(EDGE, h, t, d) for h in range(k) for t in range(k) for d in datas]


def split(start, alphabet, depth, k=2):
    for p in itertools.product(alphabet, repeat=min(k, depth)):
        yield start, p, alphabet, depth - len(p)


EMPTY = ((), ())
ONE = (({},), ())
TWO = (({"a": 1}, {}), (((0, 1), {"x": 1}), ((1, 1), {})))


def phases(tier):
    big = tier == "thorough"
    small = [N] + edges(2)  # indexes that may not exist yet
    mid = [N, ND] + edges(2, (None, {"n": 0})) + [(EDGE, 2, 0, {"n": 0}), (EDGE, 0, 2, None), (EDGE, -1, 0, None), (EDGE, 0, 0, []), (NODE, [])]
    every = [N, ND] + BAD_NODES
    every += edges(3, (None, {"n": 0}))
    every += [(EDGE, 0, 0, d) for d in ([], "a", 1, 0, "", (), [("a", 1)])]
    every += [(EDGE, i, 0, None) for i in BAD_INDEX] + [(EDGE, 0, i, None) for i in BAD_INDEX] + [(EDGE, 3, 3, {"n": 0}), (EDGE, -1, -1, None)]
    two = [(w, op) for w in (0, 1) for op in [N, (EDGE, 0, 0, {"n": 0}), (EDGE, 0, 1, None), (EDGE, 1, 0, None), (EDGE, 2, 0, None)]]
    cut = lambda al, depth, k=2: [(p, al, depth - k) for p in itertools.product(al, repeat=k)]  # noqa
    return [
        Phase("every-edit", lambda: [c for s in (EMPTY, ONE, TWO) for c in split(s, every, 4 if big else 3)], run, cpu_limit=600, note="all sequences of %d valid and invalid edits" % len(every)),
        Phase("edits", lambda: [c for s in (EMPTY, TWO) for c in split(s, mid, 5 if big else 4)], run, cpu_limit=600, note="all sequences of %d edits" % len(mid)),
        Phase("deep", lambda: [c for s in (EMPTY, ONE, TWO) for c in split(s, small, 8 if big else 6)], run, cpu_limit=600, note="all sequences of %d edits" % len(small)),
        Phase("two-graphs", lambda: cut(two, 6 if big else 5), run_two, cpu_limit=600, note="edits of two graphs alternating"),
        Phase("large", lambda: itertools.product((1, 2, 3, 9, 10, 11, 25) + ((60,) if big else ()), ("up", "down", "odd", "twice", "star")), run_large, cpu_limit=600, note="many nodes and edges"),
    ]
