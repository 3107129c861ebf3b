"""Enumeration, run on the real code for every case:
every labelled graph on up to 7 vertices with every k from 1 to n+1 (up to 6
vertices also after a search, after a heuristic search and after a bounded search
on the same object); structured graphs with cliques across machine words and far
vertex numbers.  Oracle: the list of all k-subsets that are cliques.
State = (graph, k, earlier search); transition = one step of an iterator or other
call; trace = one graph with all its enumerations."""
import itertools

from .. import families as F
from .. import graphs as G
from .. import lib
from .c01 import split

ASSUMPTIONS = ["small-scope: graphs up to 7 vertices, larger ones by family"]


def blocks(tier):
    b = []
    sizes = [(63, 66), (64, 64), (65, 65), (66, 64)]
    for s in sizes:
        for lay in F.LAYOUTS:
            b.append(["bip", s, [lay], 3, [0, 1, 2, 4, 3, 7] if tier == "quick" else list(range(8))])
    b.append(["bip", (129, 129), ["AB"], 2, [1]])
    for m in (1, 2, 4, 7, 10):
        b.append(["join", [m], 4, list(range(64)), "allk"])
    for m in (28, 31, 32, 59, 60, 61, 62, 63, 64, 65, 123, 124, 125, 126, 127, 128):
        b.append(["join", [m], 3, list(range(8)), "ends"])
    for a in range(1, 8):
        b.append(["far", 3, [a]])
    b.append(["copies"])
    for n in range(1, 6):
        b += split(n, 8 if n == 5 else 1, "hist")
    b += split(6, 32, "hist")
    b += split(7, 256, "all")
    return b


def cases(block):
    kind = block[0]
    if kind in ("hist", "all"):
        for g in range(block[2], block[3]):
            yield (kind, block[1], g)
    elif kind == "bip":
        for d in F.bip_family([tuple(block[1])], block[2], block[3], block[4]):
            yield ("fam", d, (2, 3, 4))
    elif kind == "join":
        for d in F.join_family(block[1], block[2], block[3]):
            n = d[1] + d[3]
            om = d[1] + G.omega(d[3], d[4])
            ks = tuple(range(1, n + 2)) if block[4] == "allk" else (2, om - 1, om, om + 1)
            yield ("fam", d, ks)
    elif kind == "far":
        for d in F.far_family(block[1], block[2]):
            if d[1] < 5000:
                yield ("fam", d, (1, 2, 3))
            elif d[3] in (1, 17, 256) and d[1] % 2:
                yield ("fam", d, (2, 3))
    elif kind == "copies":
        for H in range(64):
            for c in (1, 2, 17, 40):
                yield ("fam", ("copies", 4, H, c), (1, 2, 3, 4, 5))


def drain(it, limit):
    out = []
    for c in it:
        out.append(tuple(c))
        if len(out) > limit:
            break
    return out


def judge(ctx, what, got, want):
    s = sorted(tuple(sorted(c)) for c in got)
    if s != want:
        extra = [c for c in s if c not in set(want)][:3]
        miss = [c for c in want if c not in set(s)][:3]
        ctx.fail(
            "%s: %d cliques instead of %d; wrong or repeated %r, missing %r"
            % (what, len(s), len(want), extra or "(repeated)", miss)
        )


PRIOR = {
    "none": None,
    "search": dict(),
    "heuristic": dict(use_dfs=False),
    "bounded": dict(upper_bound=2, use_heuristic=False),
    "failed": dict(lower_bound=50),
}


def run(case, ctx):
    if case[0] == "fam":
        n, edges, om = F.build(case[1])
        arr = G.edge_array(edges)
        g = lib.cm.Graph.from_edgelist(arr, n)
        ctx.transitions += 1
        for k in case[2]:
            if k < 1:
                continue
            want = G.ref_cliques(n, edges, k)
            got = drain(g.all_cliques(k), len(want) + 5)
            ctx.states += 1
            ctx.transitions += len(got) + 1
            judge(ctx, "all_cliques(%d) on %r" % (k, case[1]), got, want)
            ctx.outcome(("f", k, len(got)))
        return
    kind, n, m = case
    ks = range(1, n + 2)
    by_k = {k: G.cliques(n, m, k) for k in ks}
    for name, prior in PRIOR.items():
        if prior is not None and kind != "hist":
            break
        g = lib.small(n, m)
        ctx.transitions += 1
        if prior is not None:
            lib.try_max(g, **prior)
            ctx.transitions += 1
        for k in ks:
            want = by_k[k]
            got = drain(g.all_cliques(k), len(want) + 5)
            ctx.states += 1
            ctx.transitions += len(got) + 1
            if len(got) != len(want) or sorted(tuple(sorted(c)) for c in got) != want:
                judge(
                    ctx,
                    "all_cliques(%d) after %s on %d vertices, edges %r"
                    % (k, name, n, G.edges_of(n, m)),
                    got, want,
                )
        ctx.outcome((n, len(got), name))
