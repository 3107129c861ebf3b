"""IsoGraph on every pair of labelled graphs of up to 4 vertices each, and every pair
of a graph of 5 vertices with one of up to 3 (both ways); of 5 with 4 the product
graph and one search; all bounds and methods for up to 3 vertices; a time limit that
expires at every look at the clock, then a continued search; other classes of graphs
as input; structured pairs with up to 12 x 9 or 300 x 2 vertices.  Oracle: all injective partial
mappings checked pair by pair.  State = one pair of graphs (and options);
transition = one call; trace = one group of pairs."""
import itertools

from .. import graphs as G
from .. import lib
from .c14 import matchings, timed

ASSUMPTIONS = ["the same as for the searches of a Graph: at a lower bound equal to the best size either outcome is right"]
CLOCK = True


def blocks(tier):
    b = []
    for n1, n2 in itertools.product((1, 2, 3, 4), repeat=2):
        big = n1 + n2 >= 7
        parts = 8 if big else 1
        for p in range(parts):
            b.append(["pairs", n1, n2, p, parts])
    for n in (1, 2, 3):
        for p in range(4):
            b.append(["pairs", 5, n, p, 4])
            b.append(["pairs", n, 5, p, 4])
    for p in range(16):
        b.append(["rule", 5, 4, p, 16])
        b.append(["rule", 4, 5, p, 16])
    if tier == "thorough":
        for p in range(64):
            b.append(["pairs", 5, 4, p, 64])
            b.append(["pairs", 4, 5, p, 64])
            b.append(["rule", 5, 5, p, 64])
    for n1, n2 in itertools.product((1, 2, 3), repeat=2):
        b.append(["flags", n1, n2])
    b += [["timed", 3, n] for n in (2, 3)] + [["timed", 4, 3]]
    b += [["kinds"]] + [["large", i] for i in range(len(LARGE))]
    return b


def cases(block):
    if block[0] in ("pairs", "rule"):
        k, n1, n2, p, parts = block
        for g in range(p, 1 << G.npairs(n1), parts):
            yield (k, n1, n2, g)
    elif block[0] in ("flags", "timed"):
        for g in range(1 << G.npairs(block[1])):
            yield (block[0], block[1], block[2], g)
    else:
        yield tuple(block)


def product(n1, e1, n2, e2):
    """Accepted pairs of matches, 0-based."""
    e1, e2 = set(e1), set(e2)
    return {
        (i, a, j, b)
        for i, j in itertools.combinations(range(n1), 2)
        for a, b in itertools.permutations(range(n2), 2)
        if (min(a, b) + 1, max(a, b) + 1) not in e2 or (i + 1, j + 1) in e1
    }


def edges(n2, acc):
    return {(i * n2 + a + 1, j * n2 + b + 1) for i, a, j, b in acc}


def as_set(ctx, what, r, n1, n2):
    if len(r) != 2 or len(r[0]) != len(r[1]) or any(not 1 <= x <= n1 for x in r[0]) or any(not 1 <= x <= n2 for x in r[1]):
        ctx.fail("%s returned %r for graphs of %d and %d vertices" % (what, r, n1, n2))
    return tuple(sorted((a - 1, b - 1) for a, b in zip(*r)))


def as_dict(ctx, what, r, e1, e2):
    """The matches of the dictionary form, after checking the dictionaries."""
    g1, g2, mapping = r
    inv = {b: a for a, b in mapping.items()}
    near = {b: {c for c in inv if (min(b, c), max(b, c)) in e2} for b in inv}
    if len(inv) != len(mapping) or {b: set(x) for b, x in g2.items()} != near:
        ctx.fail("%s: mapping %r with neighbours %r in G2, not %r" % (what, mapping, g2, near))
    if {a: set(x) for a, x in g1.items()} != {inv[b]: {inv[c] for c in x} for b, x in near.items()}:
        ctx.fail("%s: mapping %r with neighbours %r in G1 for %r" % (what, mapping, g1, g2))
    for a, x in g1.items():
        if any((min(a, c), max(a, c)) not in e1 for c in x):
            ctx.fail("%s: %r are not edges of G1" % (what, g1))
    return tuple(sorted((a - 1, b - 1) for a, b in mapping.items()))


def make(n1, g1, n2, g2):
    g = lib.cm.IsoGraph(lib.small(n1, g1), lib.small(n2, g2))
    g.build_edges()
    return g


def got_edges(g):
    return {tuple(sorted(map(int, e))) for e in g.to_edgelist()}


def check(ctx, g, what, n1, e1, n2, e2, acc):
    by = matchings(n1, n2, acc)
    om = max(k for k in by if by[k])
    c = as_set(ctx, what, g.get_correspondence(), n1, n2)
    d = as_dict(ctx, what, g.get_correspondence(return_indices=False), e1, e2)
    if c not in by[om] or d not in by[om]:
        ctx.fail("%s: get_correspondence gave %r, %r; the best have size %d" % (what, c, d, om))
    for k in range(1, min(n1, n2) + 2):
        want = sorted(by.get(k, []))
        got = sorted(as_set(ctx, what, x, n1, n2) for x in g.all_correspondences(k))
        if got != want:
            ctx.fail("%s: all_correspondences(%d) gave %d mappings, not %d" % (what, k, len(got), len(want)))
        if k >= om - 1:
            got = sorted(as_dict(ctx, what, x, e1, e2) for x in g.all_correspondences(k, False))
            if got != want:
                ctx.fail("%s: all_correspondences(%d, False) gave %d mappings, not %d" % (what, k, len(got), len(want)))
        ctx.transitions += 2
    ctx.states += 1
    ctx.transitions += 3
    ctx.outcome("best size %d" % om)
    return by, om


def run(case, ctx):
    k = case[0]
    if k in ("pairs", "rule"):
        _, n1, n2, g1 = case
        e1 = set(G.edges_of(n1, g1))
        for g2 in range(1 << G.npairs(n2)):
            e2 = set(G.edges_of(n2, g2))
            g = make(n1, g1, n2, g2)
            acc = product(n1, e1, n2, e2)
            what = "IsoGraph(%d vertices %r, %d vertices %r)" % (n1, sorted(e1), n2, sorted(e2))
            if g.n_vertices != n1 * n2 or got_edges(g) != edges(n2, acc) or g.n_edges != len(acc):
                ctx.fail("%s joins the wrong matches" % what)
            if k == "pairs":
                check(ctx, g, what, n1, e1, n2, e2, acc)
            else:
                c = as_set(ctx, what, g.get_correspondence(), n1, n2)
                if any((i, a, j, b) not in acc for (i, a), (j, b) in itertools.combinations(c, 2)):
                    ctx.fail("%s: get_correspondence gave %r" % (what, c))
                ctx.states += 1
                ctx.transitions += 2
    elif k == "flags":
        _, n1, n2, g1 = case
        e1 = set(G.edges_of(n1, g1))
        for g2 in range(1 << G.npairs(n2)):
            e2 = set(G.edges_of(n2, g2))
            acc = product(n1, e1, n2, e2)
            g = make(n1, g1, n2, g2)
            by, om = check(ctx, g, "IsoGraph", n1, e1, n2, e2, acc)
            top = min(n1, n2) + 1
            for lb, ub in itertools.product(range(top + 1), list(range(1, top + 1)) + [lib.DEF_UB]):
                for heur, dfs in ((True, True), (False, True), (True, False)):
                    for dic in (False, True):
                        if dic:
                            g.reset_search()
                        else:
                            g = make(n1, g1, n2, g2)
                        what = "IsoGraph.get_correspondence(%d, %d, %r, %r)" % (lb, ub, heur, dfs)
                        try:
                            r = g.get_correspondence(lb, ub, -1.0, heur, dfs, False, not dic)
                        except RuntimeError:
                            c = None
                        else:
                            c = as_dict(ctx, what, r, e1, e2) if dic else as_set(ctx, what, r, n1, n2)
                        if dfs:
                            lib.judge_max(ctx, what, lambda c: c in by.get(len(c), []), om, lb, ub, c)
                        elif c is not None and (c not in by.get(len(c), []) or len(c) > ub or len(c) < lb):
                            ctx.fail("%s returned %r" % (what, r))
                        ctx.states += 1
                        ctx.transitions += 1
    elif k == "timed":
        _, n1, n2, g1 = case
        e1 = set(G.edges_of(n1, g1))
        for g2 in range(1 << G.npairs(n2)):
            e2 = set(G.edges_of(n2, g2))
            acc = product(n1, e1, n2, e2)
            by = matchings(n1, n2, acc)
            om = max(k for k in by if by[k])
            what = "IsoGraph(%d vertices %r, %d vertices %r)" % (n1, sorted(e1), n2, sorted(e2))
            for form in (lambda g, o: as_set(ctx, what, g.get_correspondence(**o), n1, n2),
                         lambda g, o: as_dict(ctx, what, g.get_correspondence(return_indices=False, **o), e1, e2)):
                timed(ctx, what, lambda: make(n1, g1, n2, g2), form, by, om, sorted(edges(n2, acc)), n1 * n2)
    elif k == "kinds":
        kinds(ctx)
    else:
        large(ctx, case[1])


def kinds(ctx):
    """Other graphs as input, the same graph twice, graphs searched before."""
    cm = lib.cm
    d = lambda s, i, j: abs(s[i] - s[j])

    def l2l():
        g = cm.L2LGraph([0.0, 1.0], [0.0, 1.0, 3.0], d, d)
        g.epsilon = 0.0
        g.build_edges()
        return g

    same = lib.small(4, 0b101011)
    searched = lib.small(4, 0b111011)
    searched.get_max_clique()
    ins = [l2l, lambda: make(2, 1, 2, 0), lambda: same, lambda: searched, lambda: lib.small(3, 5),
           lambda: cm.Graph.from_matrix(G.matrix(3, [(1, 3), (2, 3)]))]
    for a, b in itertools.product(ins, repeat=2):
        A, B = a(), b()
        ref = [got_edges(A), got_edges(B)]
        g = cm.IsoGraph(A, B)
        for _ in range(2):
            g.build_edges()
            acc = product(A.n_vertices, ref[0], B.n_vertices, ref[1])
            if got_edges(g) != edges(B.n_vertices, acc):
                ctx.fail("IsoGraph of a %s and a %s joins the wrong matches" % (type(A).__name__, type(B).__name__))
            check(ctx, g, "IsoGraph", A.n_vertices, ref[0], B.n_vertices, ref[1], acc)
        if [got_edges(A), got_edges(B)] != ref:
            ctx.fail("IsoGraph changed its input")
        # keep only the product
        it = g.all_correspondences(1)
        n = A.n_vertices * B.n_vertices
        del A, B
        if len(list(it)) != n:
            ctx.fail("enumeration after the inputs are gone")


def path(n):
    return n, [(i, i + 1) for i in range(1, n)]


def cycle(n):
    return n, path(n)[1] + [(1, n)]


def full(n):
    return n, G.complete(range(1, n + 1))


def none(n):
    return n, []


def star(n):
    return n, [(1, i) for i in range(2, n + 1)]


# (G1, G2, best size or None to compute it)
LARGE = [
    (full(9), full(7), 7), (full(5), full(12), 5), (full(6), none(9), 6), (none(5), full(9), 1), (none(6), none(7), 6),
    (full(10), cycle(6), 6), (none(4), star(9), 4), (none(9), star(5), 4), (full(8), path(8), 8), (full(3), path(12), 3),
    (path(5), path(4), 4), (cycle(5), cycle(4), None), (cycle(6), path(4), None), (star(6), path(4), None),
    (cycle(5), star(5), None), (path(4), full(4), 2), (cycle(6), full(4), 2), (star(7), full(3), 2), (none(3), path(8), 3),
    (full(2), path(300), 2), (path(300), full(2), 2), (none(2), star(300), 2), (star(300), full(2), 2), (none(3), path(70), 3),
    (none(70), path(3), 2), (path(3), path(70), 3), (full(70), path(3), 3), (path(70), cycle(3), 2), (cycle(257), path(3), 3),
]


def large(ctx, i):
    (n1, e1), (n2, e2), om = LARGE[i]
    g = lib.cm.IsoGraph(lib.graph(n1, e1), lib.graph(n2, e2))
    g.build_edges()
    e2s = {tuple(sorted(e)) for e in e2}
    e1s = {tuple(sorted(e)) for e in e1}
    acc = product(n1, e1s, n2, e2s)
    ed = edges(n2, acc)
    if got_edges(g) != ed or g.n_vertices != n1 * n2:
        ctx.fail("IsoGraph %d of the structured pairs joins the wrong matches" % i)
    if om is None:
        om = G.ref_omega(n1 * n2, sorted(ed))
    c = as_set(ctx, "get_correspondence", g.get_correspondence(), n1, n2)
    d = as_dict(ctx, "get_correspondence", g.get_correspondence(return_indices=False), e1s, e2s)
    for x in (c, d):
        if len(x) != om or any((i, a, j, b) not in acc for (i, a), (j, b) in itertools.combinations(x, 2)):
            ctx.fail("structured pair %d: %r; the best size is %d" % (i, x, om))
    two = [as_set(ctx, "all_correspondences", x, n1, n2) for x in g.all_correspondences(2)]
    if sorted(two) != sorted(((i, a), (j, b)) for i, a, j, b in acc):
        ctx.fail("structured pair %d: %d mappings of two vertices, not %d" % (i, len(two), len(acc)))
    ctx.states += 1
    ctx.transitions += 4
