"""Calls into the package under test, and how their answers are judged."""
import numpy as np

try:
    import cliquematch as cm
except ImportError:  # the parent process lists blocks and cases without it
    cm = None

from . import graphs as G

DEF_UB = 0xFFFF
_PAIRS = {}


def small(n, g):
    """The Graph with edge mask g."""
    e = G.edges_of(n, g) if n < 7 else None
    if e is None:
        if n not in _PAIRS:
            _PAIRS[n] = np.array(G.pairs(n), dtype=np.uint64)
        p = _PAIRS[n]
        sel = (g >> np.arange(len(p))) & 1
        return cm.Graph.from_edgelist(p[sel == 1], n)
    return cm.Graph.from_edgelist(np.array(e, dtype=np.uint64).reshape(-1, 2), n)


def graph(n, edges):
    return cm.Graph.from_edgelist(G.edge_array(edges), n)


def nwgraph(n, edges, w):
    return cm.NWGraph.from_edgelist(
        G.edge_array(edges), n, np.array(w, dtype=np.float64)
    )


def try_max(g, **kw):
    """get_max_clique, or None if it raised RuntimeError."""
    try:
        return g.get_max_clique(**kw)
    except RuntimeError:
        return None


def small_ok(n, g, c):
    """Is the list c a clique of the small graph?"""
    k = len(c)
    if len(set(c)) != k:
        return False
    ix = G.pair_index(n)
    s = sorted(c)
    if k and (s[0] < 1 or s[-1] > n):
        return False
    for a in range(k):
        for b in range(a + 1, k):
            if not g >> ix[(s[a], s[b])] & 1:
                return False
    return True


def judge_max(ctx, what, valid, om, lb, ub, ans):
    """Judge the answer of an exact search (None: it raised)."""
    m = min(om, ub)
    if ans is None:
        if m > lb or lb <= 1:
            ctx.fail("%s raised RuntimeError; there is a clique of size %d" % (what, m))
        return
    if not valid(ans):
        ctx.fail("%s returned %r, which is not a clique" % (what, ans))
    if m < lb:
        ctx.fail("%s returned %r instead of raising RuntimeError" % (what, ans))
    if len(ans) != m:
        ctx.fail("%s returned %r; the right size is %d" % (what, ans, m))
