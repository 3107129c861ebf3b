"""Exact weighted search, run on the real code for every case:
every labelled graph on up to 4 vertices with every weighting from five weights and
every bound at, just below, just above and far from the best weight; every graph on
5 vertices with every weighting from three weights and the same bounds; every graph on
6 vertices with a table of weightings (equal, increasing, decreasing, one heavy, one
light, powers of two); every graph on 7 vertices with two of them; structured graphs
across machine words with several weightings.
Weights are sums of powers of two, so all sums are exact, except that graphs on up to
5 vertices also get weights that are decimal fractions, tiny or large, where the best
weight is needed to twelve digits.  Oracle: all cliques.
State = (weighted graph, bounds, methods); transition = one call; trace = one
weighted graph with all its searches."""
import itertools

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c01 import split

ASSUMPTIONS = [
    "weights are positive and sums are exact in binary floating point",
    "small-scope: graphs up to 7 vertices, larger ones by family",
]
A5 = (0.25, 1.0, 1.5, 2.0, 7.0)
A3 = (1.0, 2.0, 3.5)
DEC = (0.1, 0.7, 1.1, 1e-9, 1e9)
BIG = 1e18


def tables(n):
    t = [
        [1.0] * n,
        [0.5 + i for i in range(n)],
        [0.5 + n - i for i in range(n)],
        [float(1 << i) for i in range(n)],
        [float(1 << (n - i)) for i in range(n)],
        [1.0 + i % 2 for i in range(n)],
        [1.0 + (i * 7 % 5) for i in range(n)],
        [0.125 * (1 + i * i % 11) for i in range(n)],
    ]
    for p in sorted({0, n // 2, n - 1}):
        for x in (0.25, 2.5, 100.0):
            t.append([x if i == p else 1.0 for i in range(n)])
    return t


def blocks(tier):
    b = []
    for m in (1, 3, 8, 28, 31, 32, 33, 60, 61, 62, 63, 64, 65):
        b.append(["join", m, 3])
    for m in (124, 125, 126, 127, 128):
        b.append(["join", m, 2])
    for s in ((63, 66), (64, 64), (65, 65), (66, 64)):
        for lay in F.LAYOUTS:
            b.append(["bip", s, lay])
    b.append(["bip2", (129, 129), "AB"])
    for H in range(8):
        b.append(["far", H])
    for n in (1, 2, 3):
        b.append(["grid", n, 0, 1 << G.npairs(n)])
    b += [["grid", 4, g, g + 2] for g in range(0, 64, 2)]
    b.append(["dec", 3, 0, 8])
    b += [["dec", 4, g, g + 4] for g in range(0, 64, 4)]
    b += split(5, 64, "dec")
    b += split(5, 64, "w5")
    b += split(6, 64, "w6")
    b += split(5, 256, "w5g")
    b += split(7, 512, "w7" if tier != "quick" else "w7few")
    return b


def cases(block):
    kind = block[0]
    if kind == "grid":
        n = block[1]
        for g in range(block[2], block[3]):
            for w in itertools.product(A5, repeat=n):
                yield ("grid", n, g, w)
    elif kind == "w5":
        for g in range(block[2], block[3]):
            for w in itertools.product(A3, repeat=5):
                yield ("one", 5, g, w)
    elif kind == "dec":
        n = block[1]
        for g in range(block[2], block[3]):
            for w in itertools.product(DEC if n < 5 else DEC[:2], repeat=n):
                yield ("dec", n, g, w)
    elif kind == "w5g":
        for g in range(block[2], block[3]):
            for w in itertools.product(A3, repeat=5):
                yield ("grid", 5, g, w)
    elif kind in ("w6", "w7", "w7few"):
        n = block[1]
        for g in range(block[2], block[3]):
            for w in tables(n) if kind != "w7few" else (tables(n)[1], tables(n)[6]):
                yield ("two" if n == 6 else "one", n, g, tuple(w))
    elif kind == "join":
        m, k = block[1], block[2]
        for H in range(1 << G.npairs(k)):
            for where in ("first", "last", "middle", "spread"):
                for hw in itertools.product((1.0, 1.5, 2.0), repeat=k):
                    yield ("fam", ("join", m, where, k, H), hw)
    elif kind in ("bip", "bip2"):
        if kind == "bip":
            it = F.bip_family([tuple(block[1])], [block[2]], 3, (1, 2, 4, 3, 7))
        else:
            it = F.bip_family([tuple(block[1])], [block[2]], 2, (1,))
        for x, d in enumerate(it):
            # three weightings of the small part, rotated through the positions
            yield ("fam", d, (1.0, 2.0, 4.0)[x % 3 :] + (1.0, 2.0, 4.0)[: x % 3])
    elif kind == "far":
        for d in F.far_family(3, [block[1]]):
            if d[1] < 5000 or (d[3] in (1, 17) and d[1] % 2):
                yield ("fam", d, (1.0, 2.0, 0.5))


def small_vertices(n, edges, d):
    """The vertices of the small graph in a family member, and the others."""
    kind = d[0]
    if kind == "bip":
        _, a, b, lay, pos, k, H = d
        if lay == "AB":
            A = list(range(1, a + 1))
        elif lay == "BA":
            A = list(range(b + 1, n + 1))
        else:
            m = min(a, b)
            A = [2 * i + 1 for i in range(m)] + list(range(2 * m + 1, n + 1))[: a - m]
        return [A[p] for p in pos]
    if kind == "join":
        deg = {}
        _, m, where, k, H = d
        if where == "first":
            return list(range(1, k + 1))
        if where == "last":
            return list(range(m + 1, n + 1))
        if where == "middle":
            return list(range(m // 2 + 1, m // 2 + k + 1))
        return sorted(set(1 + (n - 1) * i // (k - 1) for i in range(k)))
    _, n, off, step, k, H = d
    return [off + i * step for i in range(k)]


def fam_weights(d, hw):
    """(n, edges, w[1..n], best weight) for a family member."""
    n, edges, om = F.build(d)
    w = [1.0] * (n + 1)
    hv = small_vertices(n, edges, d)
    for v, x in zip(hv, hw):
        w[v] = x
    k, H = d[-2], d[-1]
    best_h = max(sum(hw[v - 1] for v in c) for c in G.all_cliques(k, H))
    if d[0] == "join":
        best = d[1] + best_h
    elif d[0] == "bip":
        best = 1.0 + max(best_h, 1.0)
    else:
        best = max(best_h, 1.0 if n > k else 0.0)
    return n, edges, w, best


def judge(ctx, what, wt, valid, best, lb, ub, ans, got_weight, tol=0.0):
    if ans is None:
        if best > lb:
            ctx.fail("%s raised RuntimeError; there is a clique of weight %r" % (what, best))
        return
    if not ans or not valid(ans):
        ctx.fail("%s returned %r, which is not a clique" % (what, ans))
    s = sum(wt[v] for v in ans)
    if best < lb:
        ctx.fail("%s returned %r instead of raising RuntimeError" % (what, ans))
    if s < min(best, ub) - tol * best:
        ctx.fail("%s returned %r of weight %r; the best is %r" % (what, ans, s, best))
    if abs(got_weight - s) > tol * s:
        ctx.fail("get_clique_weight(%r) is %r instead of %r" % (ans, got_weight, s))


def bounds(kind, best, n):
    if kind == "grid":
        return [
            (0, BIG),
            (best - 0.125, BIG),
            (best, BIG),
            (best + 0.125, BIG),
            (best * 0.5, BIG),
            (0, best),
            (0, best - 0.125),
            (0, best * 0.5),
            (0, best + 0.125),
            (best - 0.125, best),
            (best * 0.5, best * 0.75),
        ]
    if kind == "dec":
        return [
            (0, BIG),
            (best * 0.99, BIG),
            (best * 1.01, BIG),
            (0, best * 0.99),
            (best * 0.4, best * 0.6),
        ]
    if kind == "two":
        return [(0, BIG), (best - 0.125, BIG)]
    return [(0, BIG)]


def run(case, ctx):
    # sums of decimal fractions depend on the order of the terms
    tol = 1e-12 if case[0] == "dec" else 0.0
    if case[0] == "fam":
        n, edges, w, best = fam_weights(case[1], case[2])
        adj = G.adj_sets(n, edges)
        valid = lambda c: all(1 <= v <= n for v in c) and G.is_clique(adj, c)
        arr = G.edge_array(edges)
        wa = np.array(w[1:])
        cfg = [(0, BIG, True), (0, BIG, False), (best - 0.25, BIG, False)]
        if n > 3000:
            cfg = cfg[:2]
    else:
        kind, n, g, w0 = case
        w = (0.0,) + tuple(w0)
        best = max(sum(w[v] for v in c) for c in G.all_cliques(n, g))
        valid = lambda c: lib.small_ok(n, g, c)
        arr = G.edge_array(G.edges_of(n, g))
        wa = np.array(w0)
        cfg = [(lb, ub, h) for lb, ub in bounds(kind, best, n) for h in (True, False)]
    for lb, ub, h in cfg:
        gr = lib.cm.NWGraph.from_edgelist(arr, n, wa)
        ans = lib.try_max(gr, lower_bound=lb, upper_bound=ub, use_heuristic=h)
        wt = None
        if ans is not None and all(1 <= v <= n for v in ans):
            wt = gr.get_clique_weight(ans)
        ctx.states += 1
        ctx.transitions += 3
        judge(
            ctx,
            "NWGraph.get_max_clique(%r, %r, use_heuristic=%s)" % (lb, ub, h),
            w, valid, best, lb, ub, ans, wt, tol,
        )
    ctx.outcome((n, wt))
