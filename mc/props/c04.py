"""Weighted enumeration, run on the real code for every case:
every labelled graph on up to 4 vertices with every weighting from three or four
weights, every graph on 5 vertices with every weighting from three weights, and every
graph on 6 vertices with a table of weightings; every graph on up to 5 vertices with
some weights so large, or infinite, that adding them to the others loses these; for each, every w that is the
weight of some clique, w between and beyond these weights; structured graphs across
machine words.  Weights are exact in binary.  Oracle: all cliques.
State = (weighted graph, w); transition = one step of an iterator or other call;
trace = one weighted graph with all its enumerations."""
import itertools

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c01 import split
from .c02 import fam_weights, tables

ASSUMPTIONS = [
    "weights are positive and the sums asked for are exact in binary floating point",
    "cliques heavier than w may or may not be yielded; single vertices are not",
]


# next to these the weight of 1 is lost when they are added
BIG = ["2.0**60", "1e300", "inf"]


def blocks(tier):
    b = []
    for m in (1, 3, 6):
        b.append(["join", m, 3])
    for s in ((63, 66), (64, 64), (65, 64)):
        for lay in F.LAYOUTS:
            b.append(["bip", s, lay])
    b.append(["ends"])
    for H in range(1, 8):
        b.append(["far", H])
    for n in (2, 3):
        b.append(["a4", n, 0, 1 << G.npairs(n)])
    b += [["a4", 4, g, g + 2] for g in range(0, 64, 2)]
    b += split(6, 64, "t6")
    for big in BIG:
        for n in (2, 3, 4):
            b.append(["big", n, 0, 1 << G.npairs(n), big])
        b += [x + [big] for x in split(5, 128, "big")]
    b += split(5, 256, "a3")
    if tier != "quick":
        b += split(6, 512, "a2")
    return b


def cases(block):
    kind = block[0]
    if kind in ("a2", "a3", "a4"):
        alpha = {"a2": (1.0, 1.5), "a3": (0.5, 1.0, 2.0), "a4": (0.25, 1.0, 1.5, 2.0)}[kind]
        n = block[1]
        for g in range(block[2], block[3]):
            for w in itertools.product(alpha, repeat=n):
                yield ("all", n, g, w)
    elif kind == "big":
        n = block[1]
        for g in range(block[2], block[3]):
            for w in itertools.product((1.0, "big") if n > 4 else (1.0, 1.5, "big"), repeat=n):
                if "big" in w:
                    yield ("big", n, g, w, block[4])
    elif kind == "t6":
        for g in range(block[2], block[3]):
            for w in tables(6)[1:7]:
                yield ("few", 6, g, tuple(w))
    elif kind == "join":
        m, k = block[1], block[2]
        for H in range(1 << G.npairs(k)):
            for where in ("first", "last", "middle", "spread"):
                for hw in itertools.product((1.0, 1.5, 2.0), repeat=k):
                    yield ("fam", ("join", m, where, k, H), hw, "all")
    elif kind == "bip":
        it = F.bip_family([tuple(block[1])], [block[2]], 3, (1, 2, 4, 3, 7))
        for x, d in enumerate(it):
            yield ("fam", d, (1.0, 2.0, 4.0)[x % 3 :] + (1.0, 2.0, 4.0)[: x % 3], "top")
    elif kind == "ends":
        for m in (8, 10, 12, 14):
            for H in (1, 2, 3, 7):
                for where in ("first", "last", "middle", "spread"):
                    yield ("fam", ("join", m, where, 3, H), (1.0, 2.0, 1.0), "best")
    elif kind == "far":
        for d in F.far_family(3, [block[1]]):
            if d[1] < 5000 or (d[3] in (1, 17) and d[1] % 2):
                yield ("fam", d, (1.0, 2.0, 0.5), "all")


def judge(ctx, what, got, cl, w):
    """cl: weight of every clique of two or more vertices, by sorted tuple."""
    seen = set()
    for c in got:
        c = tuple(sorted(c))
        if c not in cl:
            ctx.fail("%s yielded %r, which is no clique of two or more vertices" % (what, c))
        if cl[c] < w:
            ctx.fail("%s yielded %r of weight %r" % (what, c, cl[c]))
        if c in seen:
            ctx.fail("%s yielded %r twice" % (what, c))
        seen.add(c)
    for c, x in cl.items():
        if x == w and c not in seen:
            ctx.fail("%s did not yield %r" % (what, c))


def drain(it, limit):
    out = []
    for c in it:
        out.append(c)
        if len(out) > limit:
            break
    return out


def run(case, ctx):
    if case[0] == "fam":
        _, d, hw, mode = case
        n, edges, w, best = fam_weights(d, hw)
        if mode == "best":
            k = d[1] + d[3]
            adj = G.adj_sets(n, edges)
            g = lib.nwgraph(n, edges, w[1:])
            got = drain(g.all_cliques(best), 5000)
            ctx.states += 1
            ctx.transitions += len(got) + 2
            seen = set()
            for c in got:
                c = tuple(sorted(c))
                if c in seen or not G.is_clique(adj, c) or sum(w[v] for v in c) < best:
                    ctx.fail("all_cliques(%r) yielded %r on %r" % (best, c, d))
                seen.add(c)
            want = sum(
                1
                for c in G.all_cliques(d[3], d[4])
                if d[1] + sum(hw[v - 1] for v in c) == best
            )
            if len(seen) != want:
                ctx.fail("all_cliques(%r) gave %d cliques instead of %d" % (best, len(seen), want))
            return
        cl = {}
        k = 2
        while True:
            row = G.ref_cliques(n, edges, k)
            if not row:
                break
            for c in row:
                cl[c] = sum(w[v] for v in c)
            k += 1
        ws = sorted(set(cl.values()))
        if mode == "top":
            ws = ws[-3:] + [best + 1]
        arr, wa = G.edge_array(edges), np.array(w[1:])
    elif case[0] == "big":
        _, n, g, w0, big = case
        big = {"2.0**60": 2.0**60, "1e300": 1e300, "inf": float("inf")}[big]
        w0 = [big if x == "big" else x for x in w0]
        cl = {}
        for c in G.all_cliques(n, g):
            if len(c) > 1:
                bigs = sum(1 for v in c if w0[v - 1] == big)
                cl[c] = (bigs, sum(w0[v - 1] for v in c if w0[v - 1] != big))
        ws = sorted(set(x for b, x in cl.values() if b == 0))
        arr, wa = G.edge_array(G.edges_of(n, g)), np.array(w0)
        gr = lib.cm.NWGraph.from_edgelist(arr, n, wa)
        ctx.transitions += 1
        cl = {c: x if b == 0 else float("inf") for c, (b, x) in cl.items()}
        for x in ws:
            got = drain(gr.all_cliques(x), 4 * len(cl) + 5)
            ctx.states += 1
            ctx.transitions += len(got) + 1
            judge(ctx, "NWGraph.all_cliques(%r)" % x, got, cl, x)
            ctx.outcome((n, x, len(got)))
        return
    else:
        kind, n, g, w0 = case
        cl = {}
        for c in G.all_cliques(n, g):
            if len(c) > 1:
                cl[c] = sum(w0[v - 1] for v in c)
        ws = sorted(set(cl.values()))
        if kind == "few":
            ws = ws[-2:] + ws[len(ws) // 2 : len(ws) // 2 + 1]
        else:
            ws = ws + [x + 0.125 for x in ws] + [0.125, 100.0]
        arr, wa = G.edge_array(G.edges_of(n, g)), np.array(w0)
    gr = lib.cm.NWGraph.from_edgelist(arr, n, wa)
    ctx.transitions += 1
    for x in ws:
        got = drain(gr.all_cliques(x), 4 * len(cl) + 5)
        ctx.states += 1
        ctx.transitions += len(got) + 1
        judge(ctx, "NWGraph.all_cliques(%r)" % x, got, cl, x)
        ctx.outcome((n, x, len(got)))
