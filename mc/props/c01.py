"""Exact search, run on the real code for every case:
every labelled graph on up to 5 vertices with every (lower_bound, upper_bound)
pair and heuristic on/off; every labelled graph on 6 vertices with the bounds next
to the true size; every labelled graph on 7 vertices with default bounds;
structured graphs whose degrees and cliques straddle machine words (complete
bipartite plus a small graph at every choice of critical positions, complete graph
joined to a small graph, components at far vertex numbers, Turan graphs; a clique that
hides behind vertices of higher degree, at every choice of its vertex numbers).
Oracle: all subsets for small graphs, the known clique number for structured ones.
State = (graph, bounds, methods); transition = one call (construction or judged
search); trace = one graph with all its searches."""
import itertools

from .. import families as F
from .. import graphs as G
from .. import lib

ASSUMPTIONS = [
    "small-scope: graphs up to 7 vertices are complete, larger ones by family",
    "where the answer equals a lower_bound above 1, either outcome is accepted",
]


def split(n, parts, kind):
    N = 1 << G.npairs(n)
    step = max(1, N // parts)
    return [[kind, n, a, min(N, a + step)] for a in range(0, N, step)]


def fam(tier):
    """Lists of family members, cut into blocks."""
    allH3 = range(8)
    out = []
    sizes = [(63, 70), (64, 64), (65, 65), (66, 64)]
    if tier != "quick":
        sizes += [(127, 128), (128, 128), (129, 129), (130, 128), (192, 192)]
    for s in sizes:
        out.append(["bip", s, list(F.LAYOUTS), 3, list(allH3)])
    out.append(["bip", (128, 130), ["AB"], 3, [7]])
    out.append(["bip", (129, 128), ["BA"], 2, [1, 0]])
    for part in range(8):
        out.append(["bip", (257, 257), ["AB"], 2, [1], part])
    for m in (1, 3, 8, 15, 28, 29, 30, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 66, 67):
        out.append(["join", [m], 4, list(range(64))])
    for m in (123, 124, 125, 126, 127, 128, 129, 130, 190, 255, 256):
        out.append(["join", [m], 3, [0, 1, 2, 3, 7]])
    for a in range(8):
        out.append(["far", 3, [a]])
    for d in F.DECOYS:
        out.append(["decoy", d])
    out.append(["copies"])
    out.append(["turan"])
    return out


def blocks(tier):
    b = []
    b += fam(tier)
    for n in range(1, 6):
        b += split(n, 16 if n == 5 else 1, "grid")
    b += split(6, 32, "near")
    b += split(7, 64, "plain7")
    if tier != "quick":
        b += split(7, 64, "near")
        b += split(6, 32, "grid")
        b += [["n8", a] for a in range(0, 1 << 12)]
    return b


def cases(block):
    kind = block[0]
    if kind in ("grid", "near", "plain7"):
        for g in range(block[2], block[3]):
            yield (kind, block[1], g)
    elif kind == "n8":
        # graphs on 8 vertices with a Hamiltonian path 1-2-...-8 fixed
        base = G.mask_of(8, [(i, i + 1) for i in range(1, 8)])
        free = [k for k in range(28) if not base >> k & 1]
        hi = block[1]
        for lo in range(1 << (len(free) - 12)):
            x = hi << (len(free) - 12) | lo
            g = base
            for t, k in enumerate(free):
                if x >> t & 1:
                    g |= 1 << k
            yield ("plain7", 8, g)
    elif kind == "bip":
        ds = list(F.bip_family([tuple(block[1])], block[2], block[3], block[4]))
        for d in ds if len(block) == 5 else ds[block[5]::8]:
            yield ("fam", d)
    elif kind == "join":
        for d in F.join_family(block[1], block[2], block[3]):
            yield ("fam", d)
    elif kind == "far":
        for d in F.far_family(block[1], block[2]):
            yield ("fam", d)
    elif kind == "decoy":
        for d in F.decoy_family([block[1]]):
            yield ("fam", d)
    elif kind == "copies":
        for H in range(64):
            for c in (1, 2, 17, 40, 300):
                yield ("fam", ("copies", 4, H, c))
    elif kind == "turan":
        for k in range(2, 7):
            for s in itertools.product((1, 2, 3, 5), repeat=k):
                yield ("fam", ("turan", s))
        for a in (21, 22, 31, 32, 33, 43):
            yield ("fam", ("turan", (a, a, a)))
        for h in (1, 2, 3, 30, 60, 61, 62, 63, 64):
            for r in (3, 4, 5, 8):
                yield ("fam", ("wheel", h, r))


def configs(kind, om, n):
    if kind == "grid":
        ubs = list(range(1, n + 2)) + [lib.DEF_UB]
        return [(lb, ub) for lb in range(0, n + 2) for ub in ubs]
    if kind == "near":
        return [
            (1, lib.DEF_UB),
            (om - 1, lib.DEF_UB),
            (om, lib.DEF_UB),
            (om + 1, lib.DEF_UB),
            (1, om),
            (1, max(1, om - 1)),
            (om - 1, om),
            (1, 2),
        ]
    return [(1, lib.DEF_UB)]


def run(case, ctx):
    kind = case[0]
    if kind == "fam":
        n, edges, om = F.build(case[1])
        adj = G.adj_sets(n, edges)
        arr = G.edge_array(edges)
        cfg = [
            (1, lib.DEF_UB, True),
            (1, lib.DEF_UB, False),
            (om - 1, lib.DEF_UB, False),
            (om + 1, lib.DEF_UB, True),
            (1, max(1, om - 1), False),
        ]
        # far vertices: one search each way is enough for the large ones
        if n > 3000:
            cfg = cfg[:2]
        for lb, ub, heur in cfg:
            g = lib.cm.Graph.from_edgelist(arr, n)
            ans = lib.try_max(
                g, lower_bound=max(0, lb), upper_bound=ub, use_heuristic=heur
            )
            ctx.states += 1
            ctx.transitions += 2
            lib.judge_max(
                ctx,
                "get_max_clique(%d, %d, use_heuristic=%s) on %r" % (lb, ub, heur, case[1]),
                lambda c: all(1 <= v <= n for v in c) and G.is_clique(adj, c),
                om, max(0, lb), ub, ans,
            )
            ctx.outcome(("f", None if ans is None else len(ans)))
        return
    _, n, g = case
    om = int(G.omega_table(n)[g]) if n <= 7 else G.omega(n, g)
    valid = lambda c: lib.small_ok(n, g, c)
    for lb, ub in configs(kind, om, n):
        for heur in (True, False):
            gr = lib.small(n, g)
            ans = lib.try_max(
                gr, lower_bound=lb, upper_bound=ub, use_heuristic=heur
            )
            ctx.states += 1
            ctx.transitions += 2
            lib.judge_max(
                ctx,
                "get_max_clique(lower_bound=%d, upper_bound=%d, use_heuristic=%s) on %d "
                "vertices, edges %r" % (lb, ub, heur, n, G.edges_of(n, g)),
                valid, om, lb, ub, ans,
            )
    ctx.outcome((n, tuple(ans) if ans else None))
