"""Heuristic-only search of Graph and NWGraph, run on the real code for every case:
every labelled graph on up to 5 vertices with every (lower_bound, upper_bound) pair,
every graph on 6 and 7 vertices with default bounds (6 also with a few others);
weighted: every graph up to 4 vertices with every weighting from four weights and
several bounds, every graph on 5 and 6 vertices with a table of weightings;
structured graphs across machine words.  Oracle: adjacency.
State = (graph, weights, bounds); transition = one call; trace = one graph with
all its searches."""
import itertools

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c01 import split
from .c02 import fam_weights, tables, BIG

ASSUMPTIONS = ["small-scope: graphs up to 7 vertices, larger ones by family"]


def blocks(tier):
    b = []
    for s in ((63, 66), (64, 64), (65, 65), (66, 64)):
        for lay in F.LAYOUTS:
            b.append(["bip", s, lay])
    b.append(["bip2", (129, 129)])
    for m in (1, 3, 8, 15, 28, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 124, 125, 126, 127, 128):
        b.append(["join", m])
    for H in range(8):
        b.append(["far", H])
    b.append(["copies"])
    b.append(["turan"])
    for n in range(1, 6):
        b += split(n, 16 if n == 5 else 1, "u")
    b += split(6, 32, "u6")
    b += split(7, 64, "u7")
    for n in (1, 2, 3):
        b.append(["w", n, 0, 1 << G.npairs(n)])
    b += [["w", 4, g, g + 2] for g in range(0, 64, 2)]
    b += split(5, 32, "wt")
    b += split(6, 64, "wt")
    return b


def cases(block):
    kind = block[0]
    if kind in ("u", "u6", "u7"):
        for g in range(block[2], block[3]):
            yield (kind, block[1], g)
    elif kind == "w":
        n = block[1]
        for g in range(block[2], block[3]):
            for w in itertools.product((0.25, 1.0, 1.5, 7.0), repeat=n):
                yield ("w", n, g, w)
    elif kind == "wt":
        n = block[1]
        for g in range(block[2], block[3]):
            for w in tables(n):
                yield ("wt", n, g, tuple(w))
    elif kind == "bip":
        for d in F.bip_family([tuple(block[1])], [block[2]], 3, (0, 1, 2, 4, 3, 7)):
            yield ("fam", d)
    elif kind == "bip2":
        for d in F.bip_family([tuple(block[1])], ["mix"], 2, (1,)):
            yield ("fam", d)
    elif kind == "join":
        for d in F.join_family([block[1]], 3, range(8)):
            yield ("fam", d)
    elif kind == "far":
        for d in F.far_family(3, [block[1]]):
            if d[1] < 5000 or d[3] in (1, 17):
                yield ("fam", d)
    elif kind == "copies":
        for H in range(64):
            for c in (1, 2, 17, 40):
                yield ("fam", ("copies", 4, H, c))
    elif kind == "turan":
        for k in range(2, 6):
            for s in itertools.product((1, 2, 3, 5), repeat=k):
                yield ("fam", ("turan", s))
        for a in (21, 22, 31, 32, 33, 43):
            yield ("fam", ("turan", (a, a, a)))


def judge_u(ctx, what, valid, lb, ub, ans):
    if ans is None:
        if lb <= 1:
            ctx.fail("%s raised RuntimeError" % what)
        return
    if not ans or not valid(ans):
        ctx.fail("%s returned %r, which is not a clique" % (what, ans))
    if len(ans) < lb or len(ans) > ub:
        ctx.fail("%s returned %r, outside the bounds" % (what, ans))


def judge_w(ctx, what, valid, w, lb, ans):
    if ans is None:
        if lb <= 0:
            ctx.fail("%s raised RuntimeError" % what)
        return
    if not ans or not valid(ans):
        ctx.fail("%s returned %r, which is not a clique" % (what, ans))
    if sum(w[v] for v in ans) < lb:
        ctx.fail("%s returned %r, lighter than lower_bound" % (what, ans))


def run(case, ctx):
    kind = case[0]
    if kind == "fam":
        n, edges, om = F.build(case[1])
        adj = G.adj_sets(n, edges)
        valid = lambda c: all(1 <= v <= n for v in c) and G.is_clique(adj, c)
        arr = G.edge_array(edges)
        for lb, ub in ((1, lib.DEF_UB), (2, max(1, om - 1)), (om, lib.DEF_UB)):
            g = lib.cm.Graph.from_edgelist(arr, n)
            ans = lib.try_max(g, lower_bound=lb, upper_bound=ub, use_dfs=False)
            ctx.states += 1
            ctx.transitions += 2
            judge_u(ctx, "heuristic search (%d, %d)" % (lb, ub), valid, lb, ub, ans)
            ctx.outcome((None if ans is None else len(ans), om))
            if n > 3000:
                break
        for x in (3, 4):
            w = [0.0] + [1.0 + v % x for v in range(1, n + 1)]
            g = lib.cm.NWGraph.from_edgelist(arr, n, np.array(w[1:]))
            ans = lib.try_max(g, lower_bound=0, upper_bound=BIG, use_dfs=False)
            ctx.states += 1
            ctx.transitions += 2
            judge_w(ctx, "weighted heuristic search", valid, w, 0, ans)
            if n > 3000:
                break
        return
    n, g = case[1], case[2]
    valid = lambda c: lib.small_ok(n, g, c)
    if kind in ("u", "u6", "u7"):
        if kind == "u":
            cfg = [(lb, ub) for lb in range(0, n + 2) for ub in list(range(1, n + 2)) + [lib.DEF_UB]]
        elif kind == "u6":
            cfg = [(1, lib.DEF_UB), (3, lib.DEF_UB), (1, 2), (2, 3)]
        else:
            cfg = [(1, lib.DEF_UB)]
        for lb, ub in cfg:
            gr = lib.small(n, g)
            ans = lib.try_max(gr, lower_bound=lb, upper_bound=ub, use_dfs=False)
            ctx.states += 1
            ctx.transitions += 2
            judge_u(
                ctx,
                "heuristic search (%d, %d) on edges %r" % (lb, ub, G.edges_of(n, g)),
                valid, lb, ub, ans,
            )
        ctx.outcome((n, tuple(ans) if ans else None))
        return
    w0 = case[3]
    w = (0.0,) + w0
    tot = sum(w0)
    arr = G.edge_array(G.edges_of(n, g))
    cfg = [(0, BIG)] if kind == "wt" else [(0, BIG), (1, BIG), (tot / 2, BIG), (tot, BIG), (tot + 1, BIG), (0, 1.0), (1.5, tot / 2)]
    for lb, ub in cfg:
        gr = lib.cm.NWGraph.from_edgelist(arr, n, np.array(w0))
        ans = lib.try_max(gr, lower_bound=lb, upper_bound=ub, use_dfs=False)
        ctx.states += 1
        ctx.transitions += 2
        judge_w(ctx, "weighted heuristic search (%r, %r)" % (lb, ub), valid, w, lb, ans)
        if kind == "wt" and ans is not None:
            s = gr.get_clique_weight(ans)
            ctx.transitions += 1
            if s != sum(w[v] for v in ans):
                ctx.fail("get_clique_weight(%r) is %r" % (ans, s))
    ctx.outcome((n, tuple(ans) if ans else None))
