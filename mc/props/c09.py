"""Construction and export, run on the real code for every case:
every labelled graph on up to 4 vertices with every order (up to 5 edges: all
permutations) and every direction of its edges, repeated and self edges; every graph
on up to 6 vertices through every input form (edge list,
matrix with either or both triangles and any diagonal, adjacency list) and array type
(integers of all widths, floats, bool, lists, Fortran order, strided, reversed and
read-only views), with all exports compared and fed back; structured graphs (stars,
bipartite, paths, complete, chosen pairs) with vertex numbers around 16, 32, 64, 256,
4096, 65536 in several edge orders.  The same for NWGraph with its weights.  Exports
are compared again after a search.
Oracle: the set of undirected edges.  State = (graph, input form); transition = one
construction or export; trace = one graph with all its input forms."""
import itertools

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c01 import split

ASSUMPTIONS = ["small-scope: all graphs up to 6 vertices; larger ones by family"]
DTYPES = ("uint64", "int64", "int32", "uint32", "int16", "uint16", "int8", "uint8", "float64", "float32")


def blocks(tier):
    b = []
    for n in (13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257):
        b.append(["big", n])
    for n in (258, 300, 511, 512, 513, 1000, 4094, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000):
        b.append(["sparse", n])
    for H in range(0, 64, 4):
        b.append(["far", H])
    for n in (1, 2, 3, 4):
        b += split(n, 64 if n == 4 else 1, "orders")
    for n in (1, 2, 3, 4, 5):
        b += split(n, 64 if n > 3 else 1, "forms")
    b += split(6, 512, "forms")
    if tier != "quick":
        b += split(7, 512, "forms6")
    return b


def cases(block):
    kind = block[0]
    if kind in ("orders", "forms", "forms6"):
        for g in range(block[2], block[3]):
            yield (kind, block[1], g)
    elif kind == "big":
        n = block[1]
        for shape in ("star1", "starn", "starm", "bip", "path", "complete", "matching", "two", "none", "loop"):
            for order in ("asc", "desc", "stride", "swap", "twice"):
                yield ("shape", n, shape, order)
    elif kind == "sparse":
        n = block[1]
        for shape in ("star1", "starn", "starm", "path", "two", "none", "matching", "loop"):
            for order in ("asc", "desc", "stride", "swap", "twice"):
                if n < 5000 or order in ("asc", "stride"):
                    yield ("shape", n, shape, order)
    elif kind == "far":
        for H in range(block[1], block[1] + 4):
            for d in F.far_family(4, [H], (14, 30, 62, 254, 1022, 4094)):
                yield ("far", d)


def shape_edges(n, shape):
    if shape == "star1":
        return [(1, v) for v in range(2, n + 1)]
    if shape == "starn":
        return [(v, n) for v in range(1, n)]
    if shape == "starm":
        m = n // 2
        return [tuple(sorted((v, m))) for v in range(1, n + 1) if v != m]
    if shape == "bip":
        m = n // 2
        return [(a, b) for a in range(1, m + 1) for b in range(m + 1, n + 1)]
    if shape == "path":
        return [(v, v + 1) for v in range(1, n)]
    if shape == "complete":
        return G.complete(range(1, n + 1))
    if shape == "matching":
        return [(v, n + 1 - v) for v in range(1, n // 2 + 1)]
    if shape == "two":
        return sorted({(1, n), (1, 2), (n - 1, n)})
    return []


def ordered(n, edges, order):
    m = len(edges)
    if order == "asc":
        e = list(edges)
    elif order == "desc":
        e = [(b, a) for a, b in reversed(edges)]
    elif order == "stride":
        s = max(1, int(m * 0.618))
        while m and np.gcd(s, m) != 1:
            s += 1
        e = [edges[i * s % m] for i in range(m)]
        e = [(b, a) if (a + b) % 3 else (a, b) for a, b in e]
    elif order == "swap":
        e = [(b, a) if i % 2 else (a, b) for i, (a, b) in enumerate(edges)]
    else:
        e = [(b, a) for a, b in edges] + list(edges) + list(edges[:3])
    return e


def same(ctx, what, g, n, want, w=None, full=True):
    """Does the object report exactly this graph?  want: sorted edges."""
    if g.n_vertices != n or g.n_edges != len(want):
        ctx.fail("%s: %r vertices, %r edges instead of %d, %d" % (what, g.n_vertices, g.n_edges, n, len(want)))
    e = g.to_edgelist()
    if e.shape != (len(want), 2):
        ctx.fail("%s: to_edgelist has shape %r for %d edges" % (what, e.shape, len(want)))
    if len(want) > 300:
        s = np.sort(e.astype(np.int64), axis=1)
        s = s[np.lexsort((s[:, 1], s[:, 0]))]
        ok = np.array_equal(s, np.array(want))
    else:
        ok = sorted(tuple(sorted(map(int, x))) for x in e) == want
    if not ok:
        ctx.fail("%s: to_edgelist gives %r instead of %r" % (what, e[:20], want[:20]))
    ctx.transitions += 2
    if w is not None:
        for v in range(1, n + 1) if n < 300 else (1, 2, n // 2, n - 1, n):
            if g.get_clique_weight([v]) != w[v - 1]:
                ctx.fail("%s: vertex %d has weight %r instead of %r" % (what, v, g.get_clique_weight([v]), w[v - 1]))
    if not full:
        return None, None
    m = a = None
    if n <= 600:
        m = g.to_matrix()
        ref = G.matrix(n, want)
        if m.dtype != np.bool_ or m.shape != (n, n) or not np.array_equal(m, ref):
            ctx.fail("%s: to_matrix is wrong" % what)
    a = g.to_adjlist()
    adj = G.adj_sets(n, want)
    if len(a) != n + 1 or [set(x) for x in a] != adj:
        ctx.fail("%s: to_adjlist gives %r" % (what, list(a)[:10]))
    if n < 300 and hasattr(g, "_vertex_neighbors"):
        for v in range(1, n + 1):
            r = g._vertex_neighbors(v)
            if r != (adj[v] if w is None else (w[v - 1], adj[v])):
                ctx.fail("%s: the neighbours of vertex %d are %r" % (what, v, r))
    ctx.transitions += 2
    return m, a


def feed_back(ctx, what, g, n, want, m, a, w=None):
    """Every export builds the same graph again."""
    extra = () if w is None else (np.array(w, dtype=np.float64),)
    C = lib.cm.Graph if w is None else lib.cm.NWGraph
    same(ctx, what + " -> to_edgelist -> from_edgelist", C.from_edgelist(g.to_edgelist(), n, *extra), n, want, w, False)
    if m is not None:
        same(ctx, what + " -> to_matrix -> from_matrix", C.from_matrix(m, *extra), n, want, w, False)
    if a is not None:
        if w is None:
            h = C.from_adjlist(n, len(want), a)
        else:
            h = C.from_adjlist(n, len(want), a, list(w))
        same(ctx, what + " -> to_adjlist -> from_adjlist", h, n, want, w, False)


def views(arr):
    """Ways to hand over the same array."""
    yield "C order", np.ascontiguousarray(arr)
    yield "Fortran order", np.asfortranarray(arr)
    big = np.zeros((arr.shape[0] * 2 + 1, arr.shape[1] * 2 + 1), dtype=arr.dtype)
    big[: arr.shape[0] * 2 : 2, 1 : 1 + arr.shape[1] * 2 : 2] = arr
    yield "strided view", big[: arr.shape[0] * 2 : 2, 1 : 1 + arr.shape[1] * 2 : 2]
    yield "reversed view", np.ascontiguousarray(arr[::-1, ::-1])[::-1, ::-1]
    ro = arr.copy()
    ro.setflags(write=False)
    yield "read-only", ro


def forms(ctx, n, g, few):
    edges = list(G.edges_of(n, g))
    want = edges
    what = "%d vertices, edges %r" % (n, edges)
    w = [0.5 + 1.25 * v for v in range(n)]
    wa = np.array(w)
    C = lib.cm.Graph
    base = G.edge_array(edges)
    full = True
    lst = [set(x) for x in G.adj_sets(n, edges)]
    mat = G.matrix(n, edges)
    mem = []

    def one(name, h, weights=None, full=False):
        ctx.states += 1
        ctx.transitions += 1
        return same(ctx, "%s (%s)" % (what, name), h, n, want, weights, full)

    h = C.from_edgelist(base, n)
    m, a = one("edge list", h, full=True)
    feed_back(ctx, what, h, n, want, m, a)
    lib.try_max(h)
    list(h.all_cliques(2))
    one("edge list, after a search", h, full=True)
    h = lib.cm.NWGraph.from_edgelist(base, n, wa)
    m, a = one("edge list", h, w, True)
    feed_back(ctx, what, h, n, want, m, a, w)
    lib.try_max(h, lower_bound=0)
    one("edge list, after a search", h, w, True)
    one("matrix", C.from_matrix(mat), full=True)
    one("matrix", lib.cm.NWGraph.from_matrix(mat, wa), w, True)
    one("adjacency list", C.from_adjlist(n, len(edges), lst), full=True)
    one("adjacency list", lib.cm.NWGraph.from_adjlist(n, len(edges), lst, w), w, True)
    if [set(x) for x in G.adj_sets(n, edges)] != lst or not np.array_equal(mat, G.matrix(n, edges)) or not np.array_equal(base, G.edge_array(edges)):
        ctx.fail("%s: a construction changed its input" % what)
    if few:
        return
    for t in DTYPES:
        one("edge list, %s" % t, C.from_edgelist(base.astype(t), n))
        one("matrix, %s" % t, C.from_matrix(mat.astype(t)))
    one("edge list, weights float32", lib.cm.NWGraph.from_edgelist(base, n, wa.astype(np.float32)), w)
    one("matrix, weights in a strided view", lib.cm.NWGraph.from_matrix(mat, np.repeat(wa, 3)[::3]), w)
    one("matrix, weights as list", lib.cm.NWGraph.from_matrix(mat, list(w)), w)
    wi = np.arange(3, 3 + n)
    one("edge list, weights int64", lib.cm.NWGraph.from_edgelist(base, n, wi), [float(x) for x in wi])
    for name, v in views(base):
        one("edge list, %s" % name, C.from_edgelist(v, n))
        one("edge list, %s" % name, lib.cm.NWGraph.from_edgelist(v, n, wa), w)
    for name, v in views(base.astype(np.int32)):
        one("edge list, int32 %s" % name, C.from_edgelist(v, n))
    for name, v in views(mat):
        one("matrix, %s" % name, C.from_matrix(v))
        one("matrix, %s" % name, lib.cm.NWGraph.from_matrix(v, wa), w)
    if edges:
        one("edge list, lists", C.from_edgelist([list(e) for e in edges], n))
    for tri in ("upper", "lower"):
        for diag in (0, 1):
            t = np.triu(mat) if tri == "upper" else np.tril(mat)
            t = t.copy()
            if diag:
                np.fill_diagonal(t, True)
            one("matrix, %s triangle" % tri, C.from_matrix(t))
            one("matrix, %s triangle" % tri, lib.cm.NWGraph.from_matrix(t, wa), w)
    mixed = mat.copy()
    for i in range(n):
        for j in range(n):
            if (i + j) % 2 == (i < j):
                mixed[i, j] = False
    one("matrix, each edge on one side", C.from_matrix(mixed))
    for order in ("asc", "desc", "stride", "swap", "twice"):
        e = ordered(n, edges, order)
        loops = [(v, v) for v in range(1, n + 1, 2)]
        one("edge list %s" % order, C.from_edgelist(G.edge_array(e), n))
        one("edge list %s with self edges" % order, C.from_edgelist(G.edge_array(e + loops), n))
        one("edge list %s with self edges" % order, C.from_edgelist(G.edge_array(loops + e), n))
        one("edge list %s" % order, lib.cm.NWGraph.from_edgelist(G.edge_array(e + loops), n, wa), w)
    ctx.outcome(g)


def orders(ctx, n, g):
    edges = G.edges_of(n, g)
    m = len(edges)
    w = [float(1 << v) for v in range(n)]
    wa = np.array(w)
    perms = itertools.permutations(edges) if m <= 5 else (edges, edges[::-1], edges[3:] + edges[:3])
    for p in perms:
        for flip in range(1 << m) if m <= 4 else (0, (1 << m) - 1, 21 & ((1 << m) - 1)):
            e = [(b, a) if flip >> i & 1 else (a, b) for i, (a, b) in enumerate(p)]
            h = lib.cm.Graph.from_edgelist(G.edge_array(e), n)
            ctx.states += 1
            ctx.transitions += 1
            same(ctx, "%d vertices, edges %r" % (n, e), h, n, list(edges), None, False)
            if flip in (0, 1):
                e += e[:1]
                h = lib.cm.NWGraph.from_edgelist(G.edge_array(e), n, wa)
                ctx.states += 1
                ctx.transitions += 1
                same(ctx, "%d vertices, edges %r" % (n, e), h, n, list(edges), w, False)
    ctx.outcome(g)


def run(case, ctx):
    kind = case[0]
    if kind in ("forms", "forms6"):
        forms(ctx, case[1], case[2], kind == "forms6")
    elif kind == "orders":
        orders(ctx, case[1], case[2])
    else:
        if kind == "far":
            n, edges, _ = F.build(case[1])
            e = edges[::-1]
            what = repr(case[1])
        else:
            _, n, shape, order = case
            edges = shape_edges(n, shape)
            e = ordered(n, edges, order)
            if shape == "loop":
                e = [(v, v) for v in range(1, n + 1)]
            what = "%s on %d vertices, %s" % (shape, n, order)
        want = sorted(set(tuple(sorted(x)) for x in edges))
        w = [0.5 + (v * 7 % 64) for v in range(n)]
        h = lib.cm.Graph.from_edgelist(G.edge_array(e), n)
        m, a = same(ctx, what, h, n, want)
        feed_back(ctx, what, h, n, want, m, a if n < 20000 else None)
        hw = lib.cm.NWGraph.from_edgelist(G.edge_array(e), n, np.array(w))
        same(ctx, what + " (NWGraph)", hw, n, want, w, n < 1000)
        if n < 1000:
            lib.try_max(h, use_dfs=False)
            same(ctx, what + " after a search", h, n, want)
            same(ctx, what + " (matrix)", lib.cm.Graph.from_matrix(G.matrix(n, e)), n, want, None, False)
        ctx.states += 2
        ctx.transitions += 2
        ctx.outcome((n, len(want)))
