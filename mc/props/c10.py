"""Malformed input, run on the real code for every case:
every edge list of up to two edges over vertex numbers at and beyond both ends of the
valid range (0, n, n+1, 2^16, 2^32, 2^63, 2^64-1, negative) for up to 3 vertices;
every list of sets over {0..n+1} for up to 2 vertices with every claimed number of
vertices and edges, and for 3 vertices with the right ones; every array shape with up
to three dimensions; every number of weights; every public operation of every class
on an object without edges; a table of malformed arguments of the correspondence
graphs; every attribute of a correspondence graph with edges replaced by every value of a
table of unsuitable ones, followed by every operation; every public function with every one
and every two arguments replaced by values of such a table; for all of these, existing objects are searched and exported before and after.
Oracle: the rules for valid input; whatever breaks them has to raise, the rest has
to give exactly that graph.  State = one set of arguments; transition = one call;
trace = one case (a group of arguments with the objects watched meanwhile)."""
import itertools
import os

import numpy as np

from .. import graphs as G
from .. import lib

ASSUMPTIONS = ["any Python exception is accepted as the report of an error"]
VALS = lambda n: sorted({0, 1, 2, n, n + 1, n + 2, 1 << 16, 1 << 32, 1 << 63, (1 << 64) - 1})


def blocks(tier):
    b = [["table", t] for t in TABLES]
    for n in (0, 1, 2, 3):
        for v in VALS(n):
            b.append(["edges", n, v])
    for n in (0, 1, 2):
        for first in range(0, 1 << (n + 2), 1 << n):
            b.append(["lists", n, first, first + (1 << n)])
    for first in range(0, 32):
        b.append(["lists3", 3, first, first + 1])
    for nd in (0, 1, 2, 3):
        b.append(["shapes", nd])
    for n in (1, 2, 3, 4):
        b.append(["weights", n])
    for n in (2, 3, 4):
        b.append(["where", n])
    for c in ("L2L", "A2A", "A2L", "L2A", "Align", "Iso"):
        for name in ATTRS[: 2 if c == "Iso" else None]:
            b.append(["attr", c, name])
    for name, n in CALLS.items():
        for k in range(n):
            b.append(["args", name, k])
    return b


def cases(block):
    kind = block[0]
    if kind == "table":
        for i in range(len(TABLES[block[1]](""))):
            yield ("table", block[1], i)
    elif kind == "edges":
        for b in VALS(block[1]):
            yield ("edges", block[1], block[2], b)
    elif kind in ("lists", "lists3"):
        n = block[1]
        for s0 in range(block[2], block[3]):
            if n == 0:
                yield ("lists", n, (s0,))
                continue
            for s1 in range(1 << (n + 2)):
                yield (kind, n, (s0, s1))
    elif kind == "shapes":
        for s in itertools.product(range(5), repeat=block[1]):
            yield ("shapes", s)
    elif kind == "weights":
        for m in range(0, block[1] + 4):
            yield ("weights", block[1], m)
    elif kind == "where":
        yield ("where", block[1])
    elif kind == "attr":
        for k in range(len(odd_values())):
            yield ("attr", block[1], block[2], k)
    elif kind == "args":
        for i in range(len(odd_args())):
            yield ("args", block[1], block[2], i)


class Watch:
    """Objects that exist already and must not be affected."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.g = lib.small(4, 0b110111)
        self.w = lib.nwgraph(3, [(1, 2), (2, 3)], [1.0, 2.0, 4.0])
        self.w2 = self.w
        self.it = self.g.all_cliques(2)
        next(self.it)
        self.ref = self.look()

    def look(self):
        return (
            self.g.get_max_clique(), sorted(map(tuple, self.g.all_cliques(2))), self.g.to_edgelist().tolist(),
            self.w.get_max_clique(), self.w.get_clique_weight([2, 3]), self.w.to_matrix().tolist(),
        )

    def check(self, what):
        if self.look() != self.ref:
            self.ctx.fail("%s changed another object" % what)


def must_raise(ctx, what, fn):
    ctx.states += 1
    ctx.transitions += 1
    try:
        r = fn()
    except Exception as e:
        ctx.outcome(type(e).__name__)
        return e
    ctx.fail("%s returned %r" % (what, r))


def is_empty(g):
    """An object without vertices: every operation raises."""
    for name in ("get_max_clique", "to_edgelist", "to_matrix", "to_adjlist", "reset_search"):
        try:
            getattr(g, name)()
        except Exception:
            continue
        return False
    try:
        g.all_cliques(1)
    except Exception:
        return True
    return False


def raise_or_empty(ctx, what, fn):
    ctx.states += 1
    ctx.transitions += 1
    try:
        g = fn()
    except Exception:
        return
    if not is_empty(g):
        ctx.fail("%s gave a graph" % what)


def must_be(ctx, what, fn, n, edges):
    ctx.states += 1
    ctx.transitions += 2
    g = fn()
    got = sorted(tuple(sorted(map(int, e))) for e in g.to_edgelist())
    if g.n_vertices != n or got != sorted(edges):
        ctx.fail("%s gave %r vertices, edges %r" % (what, g.n_vertices, got))


def edges(ctx, n, a, b):
    """All edge lists that begin with the edge (a, b), of one or two edges."""
    vals = VALS(n)
    w = np.ones(n)
    for rest in [()] + [((c, d),) for c in vals for d in vals]:
        el = [(a, b)] + list(rest)
        for order in (el, el[::-1]) if rest else (el,):
            arr = np.array(order, dtype=np.uint64)
            what = "from_edgelist(%r, %d)" % (order, n)
            ok = n > 0 and all(1 <= x <= n for e in order for x in e)
            if ok:
                want = {tuple(sorted(e)) for e in order if e[0] != e[1]}
                must_be(ctx, what, lambda: lib.cm.Graph.from_edgelist(arr, n), n, want)
                must_be(ctx, "NWGraph." + what, lambda: lib.cm.NWGraph.from_edgelist(arr, n, w), n, want)
            else:
                must_raise(ctx, what, lambda: lib.cm.Graph.from_edgelist(arr, n))
                must_raise(ctx, "NWGraph." + what, lambda: lib.cm.NWGraph.from_edgelist(arr, n, w))
            if all(x < 1 << 63 for e in order for x in e):
                neg = np.array([(-x if x else x, y) for x, y in order], dtype=np.int64)
                must_raise(ctx, "from_edgelist(%r)" % neg.tolist(), lambda: lib.cm.Graph.from_edgelist(neg, n))


def lists(ctx, n, head, right_only):
    """Adjacency lists (sets of {0..n+1} as masks) beginning with head."""
    full = n + 1 - len(head)
    for tail in itertools.product(range(1 << (n + 2)), repeat=max(full, 0)):
        masks = head + tail
        sets = [set(G.bits(m)) for m in masks]
        e2 = sum(len(s) for s in sets)
        valid = not sets[0]
        for i, s in enumerate(sets):
            for j in s:
                if j == 0 or j > n or j == i or i not in sets[j]:
                    valid = False
        want = {(i, j) for i, s in enumerate(sets) for j in s if i < j}
        claims = [(n, e2 // 2)] if right_only else itertools.product(range(0, n + 3), range(0, 4))
        for cn, ce in claims:
            what = "from_adjlist(%d, %d, %r)" % (cn, ce, sets)
            mk = lambda: lib.cm.Graph.from_adjlist(cn, ce, sets)
            mkw = lambda: lib.cm.NWGraph.from_adjlist(cn, ce, sets, [1.0] * n)
            if valid and cn == n and ce == len(want) and n > 0:
                must_be(ctx, what, mk, n, want)
                must_be(ctx, "NWGraph." + what, mkw, n, want)
            elif valid and n == 0 and cn == 0 and ce == 0:
                raise_or_empty(ctx, what, mk)
                raise_or_empty(ctx, what, mkw)
            else:
                must_raise(ctx, what, mk)
                if not right_only:
                    must_raise(ctx, "NWGraph." + what, mkw)


def shapes(ctx, s):
    for t in (np.uint64, np.int64, np.float64, np.bool_):
        z = np.zeros(s, dtype=t)
        o = np.ones(s, dtype=t)
        for n in (0, 1, 3):
            what = "from_edgelist(%s array of shape %r, %d)" % (t.__name__, s, n)
            if len(s) == 2 and s[1] == 2 and s[0] == 0:
                if n == 0:
                    raise_or_empty(ctx, what, lambda: lib.cm.Graph.from_edgelist(z, n))
                else:
                    must_be(ctx, what, lambda: lib.cm.Graph.from_edgelist(z, n), n, [])
                    must_be(ctx, what, lambda: lib.cm.NWGraph.from_edgelist(z, n, np.ones(n)), n, [])
                continue
            must_raise(ctx, what, lambda: lib.cm.Graph.from_edgelist(z, n))
            must_raise(ctx, "NWGraph." + what, lambda: lib.cm.NWGraph.from_edgelist(z, n, np.ones(n)))
            what = "from_edgelist(%s ones of shape %r, %d)" % (t.__name__, s, n)
            if len(s) == 2 and s[1] == 2 and n > 0:
                must_be(ctx, what, lambda: lib.cm.Graph.from_edgelist(o, n), n, [])
            else:
                must_raise(ctx, what, lambda: lib.cm.Graph.from_edgelist(o, n))
        what = "from_matrix(%s array of shape %r)" % (t.__name__, s)
        k = s[0] if s else 0
        if len(s) == 2 and s[0] == s[1]:
            if k == 0:
                raise_or_empty(ctx, what, lambda: lib.cm.Graph.from_matrix(o))
                raise_or_empty(ctx, what, lambda: lib.cm.NWGraph.from_matrix(o, np.ones(0)))
                continue
            all_e = G.pairs(k)
            must_be(ctx, what, lambda: lib.cm.Graph.from_matrix(o), k, all_e)
            must_be(ctx, what, lambda: lib.cm.Graph.from_matrix(z), k, [])
            must_be(ctx, what, lambda: lib.cm.NWGraph.from_matrix(o, np.ones(k)), k, all_e)
        else:
            must_raise(ctx, what, lambda: lib.cm.Graph.from_matrix(z))
            must_raise(ctx, what, lambda: lib.cm.Graph.from_matrix(o))
            must_raise(ctx, what, lambda: lib.cm.NWGraph.from_matrix(o, np.ones(k)))
            if s:
                must_raise(ctx, what, lambda: lib.cm.NWGraph.from_matrix(o, np.ones(s[-1])))


def weights(ctx, n, m):
    NW = lib.cm.NWGraph
    e = [(1, n)] if n > 1 else []
    arr, mat, lst = G.edge_array(e), G.matrix(n, e), [set(x) for x in G.adj_sets(n, e)]
    for w in (np.ones(m), np.arange(m, dtype=np.float64) + 1, np.ones((m, 1)), np.ones((1, m)), np.ones((m, m)), np.float64(3.0)):
        ok = w.ndim == 1 and m == n
        for what, fn in (
            ("from_edgelist", lambda: NW.from_edgelist(arr, n, w)),
            ("from_matrix", lambda: NW.from_matrix(mat, w)),
            ("from_adjlist", lambda: NW.from_adjlist(n, len(e), lst, w)),
        ):
            what = "NWGraph.%s on %d vertices with weights of shape %r" % (what, n, w.shape)
            if what.startswith("NWGraph.from_adjlist") and w.ndim == 2 and w.size == n:
                continue
            if ok:
                must_be(ctx, what, fn, n, e)
            else:
                must_raise(ctx, what, fn)


def where(ctx, n):
    """Operations on objects of every class whose edges were never built."""
    cm = lib.cm
    f = lambda s, i, j: 1.0
    mk = {
        "Graph": cm.Graph,
        "NWGraph": cm.NWGraph,
        "A2AGraph": lambda: cm.A2AGraph(np.zeros((n, 2)), np.zeros((n, 2)), f, f),
        "A2LGraph": lambda: cm.A2LGraph(np.zeros((n, 2)), [0] * n, f, f),
        "L2AGraph": lambda: cm.L2AGraph([0] * n, np.zeros((n, 2)), f, f),
        "L2LGraph": lambda: cm.L2LGraph([0] * n, [0] * n, f, f),
        "AlignGraph": lambda: cm.AlignGraph(np.zeros((n, 2)), np.zeros((n, 2))),
        "IsoGraph": lambda: cm.IsoGraph(lib.small(n, 0), lib.small(n, 1)),
    }
    ops = {
        "get_max_clique": lambda g: g.get_max_clique(),
        "get_max_clique (heuristic)": lambda g: g.get_max_clique(use_dfs=False),
        "get_max_clique (exact)": lambda g: g.get_max_clique(use_heuristic=False),
        "get_max_clique (bounds)": lambda g: g.get_max_clique(lower_bound=2, upper_bound=3),
        "get_max_clique (none)": lambda g: g.get_max_clique(use_heuristic=False, use_dfs=False),
        "all_cliques": lambda g: list(g.all_cliques(2)),
        "all_cliques(1)": lambda g: list(g.all_cliques(1)),
        "reset_search": lambda g: g.reset_search(),
        "to_edgelist": lambda g: g.to_edgelist(),
        "to_matrix": lambda g: g.to_matrix(),
        "to_adjlist": lambda g: g.to_adjlist(),
        "to_file": lambda g: g.to_file(ctx.tmp("never")),
        "timed": lambda g: g.get_max_clique(time_limit=1.0),
        "continued": lambda g: g.get_max_clique(continue_search=True),
        "get_correspondence": lambda g: g.get_correspondence(),
        "get_correspondence (elements)": lambda g: g.get_correspondence(return_indices=False),
        "all_correspondences": lambda g: list(g.all_correspondences(2)),
        "all_correspondences (elements)": lambda g: list(g.all_correspondences(2, False)),
        "get_clique_weight": lambda g: g.get_clique_weight([1]),
        "neighbours": lambda g: g._vertex_neighbors(1),
        "weights": lambda g: g._get_vertex_weights(),
    }
    for g in (lib.small(n, 1), lib.nwgraph(n, [(1, 2)], [1.0] * n)) if n > 1 else ():
        for v in (n + 1, n + 2, n + 63, n + 64, 1000, 1 << 32, (1 << 64) - 1, 1 << 64, -1, None, "1", 1.5):
            must_raise(ctx, "neighbours of vertex %r of %d" % (v, n), lambda: g._vertex_neighbors(v))
    for cls, make in mk.items():
        for first in ops:
            for second in ops:
                g = make()
                # operations a class does not have raise AttributeError, which will do
                must_raise(ctx, "%s without edges: %s" % (cls, first), lambda: ops[first](g))
                must_raise(ctx, "%s without edges: %s after %s" % (cls, second, first), lambda: ops[second](g))
                if g.search_done or g.n_vertices or g.n_edges:
                    ctx.fail("%s without edges reports %r" % (cls, str(g)))
        if os.path.exists(ctx.tmp("never")):
            ctx.fail("to_file of a graph without edges wrote a file")


def t_build(there):
    """Malformed arguments of the correspondence graphs: (name, function)."""
    cm = lib.cm
    f = lambda s, i, j: 1.0
    yes = lambda *a: True
    P = np.array([[0.0, 0.0], [3.0, 4.0]])
    E = np.zeros((0, 2))

    def be(g):
        return lambda: g().build_edges()

    def bc(g, c, only):
        return lambda: g().build_edges_with_condition(c, only)

    def bf(a, b, c, m, p=0.5):
        def go():
            g = cm.AlignGraph(a, b)
            g.build_edges_with_filter(c, m, p)
            return g

        return go

    def eps(v):
        def go():
            g = cm.A2AGraph(P, P)
            g.epsilon = v
            return g.build_edges()

        return go

    M = np.ones((4, 4), bool)
    C = np.zeros((3, 2))
    t = [
        ("empty S1", be(lambda: cm.A2AGraph(E, P))),
        ("empty S2", be(lambda: cm.A2AGraph(P, E))),
        ("empty both", be(lambda: cm.A2AGraph(E, E))),
        ("empty list S1", be(lambda: cm.L2LGraph([], [1], f, f))),
        ("empty list S2", be(lambda: cm.L2LGraph([1], [], f, f))),
        ("empty A2L", be(lambda: cm.A2LGraph(E, [1], f, f))),
        ("empty A2L 2", be(lambda: cm.A2LGraph(P, [], f, f))),
        ("empty L2A", be(lambda: cm.L2AGraph([], P, f, f))),
        ("empty L2A 2", be(lambda: cm.L2AGraph([1], E, f, f))),
        ("3-D array", be(lambda: cm.A2AGraph(np.zeros((2, 2, 2)), P))),
        ("3-D array 2", be(lambda: cm.A2AGraph(P, np.zeros((2, 2, 2))))),
        ("not an array", be(lambda: cm.A2AGraph("abc", P))),
        ("no metric", be(lambda: cm.L2LGraph([1, 2], [1, 2]))),
        ("one metric", be(lambda: cm.L2LGraph([1, 2], [1, 2], f))),
        ("no metric A2L", be(lambda: cm.A2LGraph(P, [1, 2]))),
        ("no metric L2A", be(lambda: cm.L2AGraph([1, 2], P))),
        ("metric not callable", be(lambda: cm.L2LGraph([1, 2], [1, 2], 3, 4))),
        ("metric gives a string", be(lambda: cm.L2LGraph([1, 2], [1, 2], lambda *a: "x", f))),
        ("metric gives None", be(lambda: cm.L2LGraph([1, 2], [1, 2], f, lambda *a: None))),
        ("metric takes two", be(lambda: cm.L2LGraph([1, 2], [1, 2], lambda a, b: 1.0, f))),
        ("metric of an array gives a string", be(lambda: cm.A2AGraph(P, P, lambda *a: "x", f))),
        ("epsilon None", eps(None)),
        ("epsilon string", eps("1")),
        ("condition None", bc(lambda: cm.L2LGraph([1, 2], [1, 2], f, f), None, True)),
        ("condition None, metric", bc(lambda: cm.L2LGraph([1, 2], [1, 2], f, f), None, False)),
        ("condition not callable", bc(lambda: cm.L2LGraph([1, 2], [1, 2], f, f), 5, True)),
        ("condition gives a string", bc(lambda: cm.L2LGraph([1, 2], [1, 2], f, f), lambda *a: "x", True)),
        ("condition gives a list", bc(lambda: cm.L2LGraph([1, 2], [1, 2], f, f), lambda *a: [1], False)),
        ("condition takes two", bc(lambda: cm.L2LGraph([1, 2], [1, 2], f, f), lambda a, b: True, True)),
        ("condition, empty S1", bc(lambda: cm.L2LGraph([], [1, 2], f, f), yes, True)),
        ("condition, empty S2", bc(lambda: cm.L2LGraph([1, 2], [], f, f), yes, True)),
        ("condition, empty both", bc(lambda: cm.L2LGraph([], [], f, f), yes, True)),
        ("condition and metric, empty S1", bc(lambda: cm.L2LGraph([], [1, 2], f, f), yes, False)),
        ("condition and metric, empty S2", bc(lambda: cm.A2AGraph(P, E, f, f), yes, False)),
        ("condition, no metric", bc(lambda: cm.L2LGraph([1, 2], [1, 2]), yes, False)),
        ("condition, empty arrays", bc(lambda: cm.A2AGraph(E, P), yes, True)),
        ("filter, empty S1", bf(E, P, C, M)),
        ("filter, empty S2", bf(P, E, C, M)),
        ("filter, one column S1", bf(P[:, :1], P, C, M)),
        ("filter, one column S2", bf(P, P[:, :1], C, M)),
        ("filter, one control column", bf(P, P, C[:, :1], M)),
        ("filter, three control columns", bf(P, P, np.zeros((3, 3)), M)),
        ("filter, flat control points", bf(P, P, np.zeros(2), M)),
        ("filter, flat points", bf(np.zeros(2), P, C, M)),
        ("filter, 3-D mask", bf(P, P, C, np.ones((2, 2, 2), bool))),
        ("filter, 3-D points", bf(np.zeros((2, 2, 2)), P, C, M)),
        ("filter, percentage string", bf(P, P, C, M, "x")),
        ("filter, points of strings", bf([["a", "b"]], P, C, M)),
        ("iso without graphs", be(lambda: cm.IsoGraph(None, None))),
        ("iso with empty graphs", be(lambda: cm.IsoGraph(cm.Graph(), cm.Graph()))),
        ("iso with one empty graph", be(lambda: cm.IsoGraph(lib.small(2, 1), cm.Graph()))),
        ("iso with the other empty", be(lambda: cm.IsoGraph(cm.Graph(), lib.small(2, 1)))),
        ("iso with numbers", be(lambda: cm.IsoGraph(1, 2))),
        ("iso with a weighted graph", be(lambda: cm.IsoGraph(lib.nwgraph(2, [(1, 2)], [1, 1]), lib.small(2, 1)))),
    ]
    return t


def t_call(there):
    """Malformed arguments of methods and constructors of a good object."""
    g = lib.small(3, 7) if lib.cm else None
    w = lib.nwgraph(3, [(1, 2), (2, 3)], [1.0, 2.0, 4.0]) if lib.cm else None
    cm = lib.cm
    B = 1 << 64
    big = 1 << 63
    e12 = np.array([[1, 2]], dtype=np.uint64)
    t = []
    for name, o in (("Graph", g), ("NWGraph", w)):
        t += [
            (name + " search with no method", lambda o=o: o.get_max_clique(use_heuristic=False, use_dfs=False)),
            (name + " lower_bound None", lambda o=o: o.get_max_clique(lower_bound=None)),
            (name + " lower_bound string", lambda o=o: o.get_max_clique(lower_bound="2")),
            (name + " upper_bound None", lambda o=o: o.get_max_clique(upper_bound=None)),
            (name + " unknown argument", lambda o=o: o.get_max_clique(bound=2)),
            (name + " all_cliques()", lambda o=o: o.all_cliques()),
            (name + " all_cliques(None)", lambda o=o: o.all_cliques(None)),
            (name + " all_cliques(string)", lambda o=o: o.all_cliques("2")),
        ]
    t += [
        ("lower_bound -1", lambda: g.get_max_clique(lower_bound=-1)),
        ("upper_bound -1", lambda: g.get_max_clique(upper_bound=-1)),
        ("lower_bound 2^64", lambda: g.get_max_clique(lower_bound=B)),
        ("lower_bound 2^64-1", lambda: g.get_max_clique(lower_bound=B - 1, upper_bound=B - 1)),
        ("lower_bound above upper_bound", lambda: g.get_max_clique(lower_bound=3, upper_bound=2)),
        ("lower_bound above all", lambda: g.get_max_clique(lower_bound=4)),
        ("time_limit string", lambda: g.get_max_clique(time_limit="x")),
        ("all_cliques(-1)", lambda: g.all_cliques(-1)),
        ("all_cliques(2^64)", lambda: g.all_cliques(B)),
        ("weight of a string", lambda: w.get_clique_weight("abc")),
        ("weight of None", lambda: w.get_clique_weight(None)),
        ("weight of negatives", lambda: w.get_clique_weight([-1])),
        ("correspondence of no elements", lambda: w._get_correspondence(3, 0)),
        ("correspondences of no elements", lambda: list(w._all_correspondences(3, 0, 3))),
        ("to_file nowhere", lambda: g.to_file(os.path.join(there, "no", "x"))),
        ("to_file of a directory", lambda: g.to_file(there)),
        ("to_file None", lambda: g.to_file(None)),
        ("from_file nowhere", lambda: cm.Graph.from_file(os.path.join(there, "no", "x"))),
        ("from_file empty name", lambda: cm.Graph.from_file("")),
        ("from_file directory", lambda: cm.Graph.from_file(there)),
        ("from_file None", lambda: cm.Graph.from_file(None)),
        ("from_file of an empty file", lambda: cm.Graph.from_file("/dev/null")),
        ("edge list None", lambda: cm.Graph.from_edgelist(None, 2)),
        ("edge list of strings", lambda: cm.Graph.from_edgelist(np.array([["a", "b"]]), 2)),
        ("edge list ragged", lambda: cm.Graph.from_edgelist([[1, 2], [3]], 3)),
        ("edge list, -1 vertices", lambda: cm.Graph.from_edgelist(e12, -1)),
        ("edge list, 2^64-1 vertices", lambda: cm.Graph.from_edgelist(e12, B - 1)),
        ("edge list, 2^64-2 vertices", lambda: cm.Graph.from_edgelist(e12, B - 2)),
        ("edge list, 2^63 vertices", lambda: cm.Graph.from_edgelist(e12, big)),
        ("edge list, 2^62 vertices", lambda: cm.Graph.from_edgelist(e12, big // 2)),
        ("edge list, 2^61-1 vertices", lambda: cm.Graph.from_edgelist(e12, big // 4 - 1)),
        ("edge list, 2^64-1 vertices and weights", lambda: cm.NWGraph.from_edgelist(e12, B - 1, np.zeros(0))),
        ("edge list, no weights", lambda: cm.NWGraph.from_edgelist(e12, 2)),
        ("edge list, weights None", lambda: cm.NWGraph.from_edgelist(e12, 2, None)),
        ("matrix None", lambda: cm.Graph.from_matrix(None)),
        ("matrix number", lambda: cm.Graph.from_matrix(5)),
        ("matrix ragged", lambda: cm.Graph.from_matrix([[1, 0], [1]])),
        ("adjacency list of nothing", lambda: cm.Graph.from_adjlist(0, 0, [])),
        ("adjacency list of nothing, -1", lambda: cm.Graph.from_adjlist(B - 1, 0, [])),
        ("weighted adjacency list of nothing, -1", lambda: cm.NWGraph.from_adjlist(B - 1, 0, [], [])),
        ("adjacency list None", lambda: cm.Graph.from_adjlist(2, 1, None)),
        ("adjacency list of numbers", lambda: cm.Graph.from_adjlist(2, 1, [1, 2, 3])),
        ("adjacency list of negatives", lambda: cm.Graph.from_adjlist(2, 1, [set(), {-1}, {1}])),
    ]
    return t


ATTRS = ("S1", "S2", "d1", "d2", "epsilon", "is_d1_symmetric", "is_d2_symmetric")


def odd_values():
    """Values that an attribute may be given by mistake."""
    cm = lib.cm
    z = np.zeros
    inf = float("inf")
    return [
        None, 0, -1, 2**70, 1e308, float("nan"), inf, "", "abc", b"x", [], (), {}, set(), [None], [[]], [[], []],
        z((0, 2)), z((0,)), z((3, 0)), z((1, 2)), z((2, 2)), z((4, 2)), z((3, 3)), z((3, 1)), z(3), z((3, 2, 2)), np.array(5.0),
        z((3, 2), complex), np.array(["a", "b", "c"]), np.array([None] * 3), z((3, 2), np.float32), z((2, 3)).T,
        np.array([[np.nan] * 2] * 3), np.array([[inf] * 2] * 3), np.array([[1e308] * 2, [-1e308] * 2, [0, 0]]),
        object(), lambda: 1.0, lambda *a: None, lambda *a: "x", lambda *a: 2**70, lambda *a: [], lambda *a: float("nan"), lambda *a: 1 / 0,
        cm.Graph(), cm.NWGraph(), lib.small(2, 1), lib.small(4, 63), range(3), True, False, int, Exception,
    ]


def no_elements(v):
    if isinstance(v, (lib.cm.Graph, lib.cm.NWGraph)):
        return v.n_vertices == 0
    return hasattr(v, "__len__") and not (isinstance(v, np.ndarray) and v.ndim == 0) and len(v) == 0


def attr(ctx, c, name, k):
    """An attribute of a graph with edges becomes something else, then it is used."""
    cm = lib.cm
    P = np.array([[0.0, 0.0], [1.0, 0.0], [3.0, 1.0]])
    d = lambda s, i, j: 1.0 + i + j
    yes = lambda *a: True
    ops = {
        "build_edges": lambda g: g.build_edges(),
        "build_edges_with_condition": lambda g: g.build_edges_with_condition(yes, False),
        "build_edges_with_condition only": lambda g: g.build_edges_with_condition(yes, True),
        "build_edges_with_filter": lambda g: g.build_edges_with_filter(P, np.ones((4, 4), bool), 0.5),
        "get_correspondence": lambda g: g.get_correspondence(),
        "get_correspondence of elements": lambda g: g.get_correspondence(return_indices=False),
        "all_correspondences": lambda g: list(g.all_correspondences(2)),
        "all_correspondences of elements": lambda g: list(g.all_correspondences(2, False)),
    }

    def look(g):
        return g.to_edgelist().tolist(), len(g.get_max_clique()), sorted(map(tuple, g.all_cliques(2)))

    for what, fn in ops.items():
        if c == "Iso":
            a = lib.small(3, 0b101)
            g = cm.IsoGraph(a, a)
        elif c in ("A2A", "Align"):
            g = getattr(cm, c + "Graph")(P, P)
        else:
            g = getattr(cm, c + "Graph")(P if c[0] == "A" else [0, 1, 2], P if c[2] == "A" else [0, 1, 2], d, d)
        if c != "Iso":
            g.epsilon = 0.5
        g.build_edges()
        ref = look(g)
        v = odd_values()[k]
        setattr(g, name, v)
        ctx.states += 1
        ctx.transitions += 1
        try:
            fn(g)
        except Exception as e:
            ctx.outcome(type(e).__name__)
            if look(g) != ref:
                ctx.fail("%sGraph with %s %r: %s failed and changed the graph" % (c, name, v, what))
            continue
        if name == "S2" and no_elements(v):
            ctx.fail("%sGraph with %s %r: %s did not fail" % (c, name, v, what))


def odd_args():
    """Values for any argument of any function, some of them valid for some."""
    z, o = np.zeros, np.ones
    return odd_values() + [
        1, 2, 3, 4, 7, 1 << 16, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1, 1.5, -float("inf"),
        [[1, 2]], [[0, 1]], [[1, 5]], [1, 2], [0, 10**7], [set(), {2}, {1}], [set(), {2}, {1}, set()], [{1}, {2}],
        z((2, 0)), z((3, 2)), z(2), o((3, 3)), o((3, 3), bool), o((3, 2)), np.full((3, 3), np.nan), -o((3, 2)), np.full((3, 2), 1 << 63, np.uint64),
        np.array([[1, 2], [2, 3]]), np.array([[1, 2], [2, 3]], np.int8), np.array([[1.5, 2.7]]), np.array([[1e300, 2.0]]),
        o(3), -o(3), np.full(3, np.nan), np.full(3, np.inf), o((3, 3))[::-1, ::-1],
    ]


CALLS = {
    "Graph.from_edgelist": 2, "Graph.from_matrix": 1, "Graph.from_adjlist": 3, "Graph.from_file": 1, "Graph.to_file": 1,
    "NWGraph.from_edgelist": 3, "NWGraph.from_matrix": 2, "NWGraph.from_adjlist": 4, "Graph.get_max_clique": 6, "NWGraph.get_max_clique": 4,
    "Graph.all_cliques": 1, "NWGraph.all_cliques": 1, "NWGraph.get_clique_weight": 1, "L2LGraph.get_correspondence": 7,
    "AlignGraph.get_correspondence": 7, "IsoGraph.get_correspondence": 7, "L2LGraph.all_correspondences": 2, "IsoGraph.all_correspondences": 2,
    "build_edges_with_condition": 2, "build_edges_with_filter": 3, "MaskFilter": 3, "AlignGraph": 2, "IsoGraph": 2,
}
for _c in ("L2L", "A2A", "A2L", "L2A"):
    for _b in ("", ", condition", ", both"):
        CALLS[_c + "Graph" + _b] = 6


def calls(there):
    """The public functions, with valid arguments."""
    cm = lib.cm
    MaskFilter = cm.wrappers.aligngraph.MaskFilter
    P = np.array([[0.0, 0.0], [1.0, 0.0], [3.0, 1.0]])
    L = [0, 1, 2]
    e = np.array([[1, 2], [2, 3]])
    A = [set(), {2}, {1, 3}, {2}]
    W = np.array([1.0, 2.0, 4.0])
    M = np.ones((4, 4), bool)
    d = lambda s, i, j: 1.0
    yes = lambda *a: True
    graph = lambda: cm.Graph.from_edgelist(e, 3)
    weighted = lambda: cm.NWGraph.from_edgelist(e, 3, W)

    def of(*a):
        g = cm.L2LGraph(L, L, d, d) if not a else a[0](P, P) if a[0] is cm.AlignGraph else a[0](graph(), graph())
        g.build_edges()
        return g

    def some(it):
        return list(itertools.islice(it, 50))

    def built(cls):
        def go(*a):
            g = cls(*a)
            g.build_edges()
            g.get_correspondence(return_indices=False)
            some(g.all_correspondences(2, False))
            return g

        return go

    def conditional(cls, only):
        def go(*a):
            g = cls(*a)
            g.build_edges_with_condition(yes, only)
            return g

        return go

    def done(g, fn):
        fn(g)
        return g

    search = [1, 65535, 0.0, True, True, False]
    r = {
        "Graph.from_edgelist": (cm.Graph.from_edgelist, [e, 3]),
        "Graph.from_matrix": (cm.Graph.from_matrix, [M]),
        "Graph.from_adjlist": (cm.Graph.from_adjlist, [3, 2, A]),
        "Graph.from_file": (cm.Graph.from_file, [os.path.join(there, "none")]),
        "Graph.to_file": (lambda a: graph().to_file(os.path.join(there, a) if isinstance(a, str) else a), ["x"]),
        "NWGraph.from_edgelist": (cm.NWGraph.from_edgelist, [e, 3, W]),
        "NWGraph.from_matrix": (cm.NWGraph.from_matrix, [M[:3, :3], W]),
        "NWGraph.from_adjlist": (cm.NWGraph.from_adjlist, [3, 2, A, W]),
        "Graph.get_max_clique": (lambda *a: graph().get_max_clique(*a), search),
        "NWGraph.get_max_clique": (lambda *a: weighted().get_max_clique(*a), [1, 65535, True, True]),
        "Graph.all_cliques": (lambda a: some(graph().all_cliques(a)), [2]),
        "NWGraph.all_cliques": (lambda a: some(weighted().all_cliques(a)), [2]),
        "NWGraph.get_clique_weight": (lambda a: weighted().get_clique_weight(a), [[1, 2]]),
        "L2LGraph.get_correspondence": (lambda *a: of().get_correspondence(*a), search + [False]),
        "AlignGraph.get_correspondence": (lambda *a: of(cm.AlignGraph).get_correspondence(*a), search + [False]),
        "IsoGraph.get_correspondence": (lambda *a: of(cm.IsoGraph).get_correspondence(*a), search + [False]),
        "L2LGraph.all_correspondences": (lambda *a: some(of().all_correspondences(*a)), [2, False]),
        "IsoGraph.all_correspondences": (lambda *a: some(of(cm.IsoGraph).all_correspondences(*a)), [2, False]),
        "build_edges_with_condition": (lambda *a: done(of(), lambda g: g.build_edges_with_condition(*a)), [yes, False]),
        "build_edges_with_filter": (lambda *a: done(of(cm.AlignGraph), lambda g: g.build_edges_with_filter(*a)), [P, M, 0.5]),
        "MaskFilter": (lambda *a: done(of(cm.AlignGraph), lambda g: g.build_edges_with_condition(MaskFilter(*a), True)), [P, M, 0.5]),
        "AlignGraph": (built(cm.AlignGraph), [P, P]),
        "IsoGraph": (built(cm.IsoGraph), [graph(), graph()]),
    }
    for c, a in (("L2L", [L, L]), ("A2A", [P, P]), ("A2L", [P, L]), ("L2A", [L, P])):
        cls = getattr(cm, c + "Graph")
        r[c + "Graph"] = (built(cls), a + [d, d, True, True])
        r[c + "Graph, condition"] = (conditional(cls, True), a + [d, d, True, True])
        r[c + "Graph, both"] = (conditional(cls, False), a + [d, d, True, True])
    return r


def sound(ctx, what, g):
    """Whatever graph came out, it is one."""
    n = g.n_vertices
    if n == 0:
        if not is_empty(g):
            ctx.fail("%s: a graph without vertices answers" % what)
        return
    if n > 100:
        return
    m = g.to_matrix()
    e = sorted(map(tuple, g.to_edgelist().tolist()))
    if m.shape != (n, n) or (m != m.T).any() or m.diagonal().any() or len(e) != g.n_edges or int(m.sum()) != 2 * len(e):
        ctx.fail("%s: %d vertices, %d edges, matrix %r, edges %r" % (what, n, g.n_edges, m.tolist(), e))
    if any(not (1 <= a < b <= n and m[a - 1, b - 1]) for a, b in e):
        ctx.fail("%s: edges %r" % (what, e))
    if isinstance(g, lib.cm.Graph):
        c = g.get_max_clique()
        if not c or len(set(c)) != len(c) or not all(m[a - 1, b - 1] for a in c for b in c if a != b):
            ctx.fail("%s: clique %r" % (what, c))


def args(ctx, name, k, i):
    """One argument replaced by an odd value, then one of the later ones as well."""
    fn, right = calls(os.path.dirname(ctx.tmp("x")))[name]
    assert len(right) == CALLS[name]
    vals = odd_args()
    for k2 in range(k, len(right)):
        for j in range(len(vals) if k2 > k else 1):
            a = list(right)
            a[k] = vals[i]
            if k2 > k:
                a[k2] = vals[j]
            ctx.states += 1
            ctx.transitions += 1
            try:
                g = fn(*a)
            except Exception as e:
                ctx.outcome(type(e).__name__)
                continue
            if isinstance(g, (lib.cm.Graph, lib.cm.NWGraph)):
                sound(ctx, "%s%r" % (name, tuple(a)), g)


TABLES = {"build": t_build, "call": t_call}


def failed_rebuilds(ctx):
    """A build that fails leaves the edges built before."""
    cm = lib.cm
    P = [0.0, 1.0, 3.0]
    d = lambda s, i, j: abs(s[i] - s[j])
    for k in range(6):
        g = cm.L2LGraph(P, P, d, d)
        g.epsilon = 0.0
        g.build_edges()
        ref = (g.to_edgelist().tolist(), g.get_correspondence(), g.search_done)
        it = g.all_correspondences(2)
        rest = len(list(g.all_correspondences(2)))
        next(it)
        bad = [
            lambda: (setattr(g, "d1", 5), g.build_edges()),
            lambda: (setattr(g, "d2", lambda *a: "x"), g.build_edges()),
            lambda: g.build_edges_with_condition(5, True),
            lambda: g.build_edges_with_condition(lambda *a: [], False),
            lambda: (setattr(g, "epsilon", None), g.build_edges()),
            lambda: (setattr(g, "S1", []), g.build_edges()),
        ][k]
        must_raise(ctx, "malformed build %d" % k, bad)
        g.S1 = P
        if (g.to_edgelist().tolist(), g.get_correspondence(), g.search_done) != ref:
            ctx.fail("a failed build changed the graph (%d)" % k)
        if len(list(it)) != rest - 1:
            ctx.fail("a failed build disturbed an iterator (%d)" % k)
        ctx.transitions += 8


def run(case, ctx):
    kind = case[0]
    watch = Watch(ctx)
    if kind == "table":
        name, fn = TABLES[case[1]](os.path.dirname(ctx.tmp("x")))[case[2]]
        must_raise(ctx, name, fn)
        if case[2] == 0:
            failed_rebuilds(ctx)
    elif kind == "edges":
        edges(ctx, *case[1:])
    elif kind in ("lists", "lists3"):
        lists(ctx, case[1], case[2], kind == "lists3")
    elif kind == "shapes":
        shapes(ctx, case[1])
    elif kind == "weights":
        weights(ctx, case[1], case[2])
    elif kind == "attr":
        attr(ctx, *case[1:])
    elif kind == "args":
        args(ctx, *case[1:])
    else:
        where(ctx, case[1])
    watch.check(repr(case))
    if kind == "table" and case[1] == "call":
        g = lib.small(3, 7)
        if sorted(g.get_max_clique()) != [1, 2, 3]:
            ctx.fail("a fresh graph is affected")
