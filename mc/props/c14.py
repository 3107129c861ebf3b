"""Correspondences of the real code against the cliques of the correspondence graph:
every correspondence graph of 2x2, 2x3, 3x2, 2x4, 4x2 and 3x3 elements (given by the
truth table of a condition), rebuilt one after the other on the same object, with
every pair of bounds, every combination of methods, every size of correspondence,
both output forms, all set types and AlignGraph; a time limit that expires at every look at
the clock, then a continued search; structured graphs of up to 12 x 9 elements; two
enumerations and a search interleaved; every weighted graph whose up to 6 vertices are
pairs of elements; sets of up to 300 points of which one is part of the other.  Oracle: all partial matchings checked
pair by pair.  State = one graph and set of options; transition = one call;
trace = one group of graphs."""
import itertools
import math
import warnings

import numpy as np

from .. import graphs as G
from .. import lib
from . import c13

ASSUMPTIONS = ["the same as for the searches of a Graph: at a lower bound equal to the best size either outcome is right"]
warnings.simplefilter("ignore")
pairs = c13.pairs
CLOCK = True


class Box:
    """A set that is not a list."""

    def __init__(self, n, tag):
        self.n, self.tag = n, tag

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not isinstance(i, int) or not 0 <= i < self.n:
            raise IndexError(i)
        return (self.tag, i)


def sets(c, m, n):
    """S1 and S2 of a class, with all elements different."""
    A = np.array([[10.0 * i, 10.0 * i + 1] for i in range(m)])
    B = np.array([[-10.0 * i - 1, 0.5, i] for i in range(n)])
    L = {"list": lambda k, t: ["%s%d" % (t, i) for i in range(k)], "tuple": lambda k, t: tuple((t, i) for i in range(k)),
         "str": lambda k, t: (t + "abcdefghijklmnopqrstuvwxyz"[: k - 1]), "box": Box, "dict": lambda k, t: {i: t + str(i) for i in range(k)}}
    k1, _, k2 = c.partition(":")
    cls = k1[:3]
    f = L[k2 or "list"]
    S1 = A if cls[0] == "A" else f(m, "P")
    S2 = B if cls[2] == "A" or cls == "Ali" else f(n, "Q")
    return cls, S1, S2


def make(c, m, n):
    cls, S1, S2 = sets(c, m, n)
    if cls == "Ali":
        return lib.cm.AlignGraph(S1, S2[:, ::2] + 0.0)
    z = lambda s, i, j: 0.0
    return getattr(lib.cm, cls + "Graph")(S1, S2, z, z)


CLASSES = ("A2A", "A2L", "L2A", "L2L", "A2L:tuple", "L2A:box", "L2L:str", "L2L:box", "L2L:dict", "L2A:tuple", "Ali")


def blocks(tier):
    b = []
    for c in CLASSES:
        for m, n in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
            b.append(["flags", c, m, n, 0, 1 << len(pairs(m, n))])
    for m, n in ((2, 4), (4, 2)):
        for lo in range(0, 4096, 512):
            b.append(["plain", "L2L", m, n, lo, lo + 512])
    for m, n in ((66, 70), (70, 66), (5, 300), (300, 5), (130, 130), (257, 259), (259, 257)):
        b.append(["wide", m, n, [x for x in range(3, n) if math.gcd(x, n) == 1][0]])
    for m, n in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)):
        b.append(["nw", m, n, 0, 1 << G.npairs(m * n)])
    for m, n in ((2, 3), (3, 2)):
        b += [["nw", m, n, g, g + 1024] for g in range(0, 1 << 15, 1024)]
    for lo in range(0, 1 << 18, 1 << 13):
        b.append(["plain", ("L2L", "A2A", "A2L", "L2A", "Ali")[(lo >> 13) % 5] if tier == "quick" else "L2L", 3, 3, lo, lo + (1 << 13)])
    if tier == "thorough":
        for lo in range(0, 1 << 18, 1 << 12):
            b.append(["flags", "L2L", 3, 3, lo, lo + (1 << 12)])
    for lo in range(0, 1 << 18, 1 << 15):
        b.append(["some", "L2L", 3, 3, lo, lo + (1 << 15)])
    for i in range(len(SIZES)):
        b.append(["large", i])
    b.append(["mix"])
    for c in CLASSES:
        b.append(["timed", c])
    return b


SIZES = [(5, 5), (8, 5), (5, 8), (12, 3), (3, 12), (1, 20), (20, 1), (2, 30), (12, 9)]


def cases(block):
    k = block[0]
    if k in ("flags", "plain"):
        for lo in range(block[4], block[5], 64):
            yield (k,) + tuple(block[1:4]) + (lo, min(lo + 64, block[5]))
    elif k == "some":
        # every 61st table, with all flags
        for lo in range(block[4], block[5], 4096):
            yield ("some",) + tuple(block[1:4]) + (lo, lo + 4096)
    elif k == "large":
        for r in range(7):
            yield ("large", block[1], r)
    else:
        yield tuple(block)


def matchings(m, n, acc):
    """All cliques by size: sets of matches (i, a), pairwise accepted."""
    by = {1: [((i, a),) for i in range(m) for a in range(n)]}
    k = 1
    while by[k]:
        nxt = []
        for c in by[k]:
            i0 = c[-1][0]
            for i in range(i0 + 1, m):
                for a in range(n):
                    if all((j, b, i, a) in acc for j, b in c):
                        nxt.append(c + ((i, a),))
        k += 1
        by[k] = nxt
    return by


def as_set(ctx, what, r, m, n):
    """A correspondence as a sorted tuple of matches; checks its form."""
    if len(r) != 2 or len(r[0]) != len(r[1]):
        ctx.fail("%s returned %r" % (what, r))
    if any(not isinstance(x, int) for s in r for x in s) or any(not 0 <= x < m for x in r[0]) or any(not 0 <= x < n for x in r[1]):
        ctx.fail("%s returned %r for %d x %d elements" % (what, r, m, n))
    return tuple(sorted(zip(r[0], r[1])))


def key(e):
    return e.tobytes() if isinstance(e, np.ndarray) else e


def as_indices(ctx, what, g, el):
    """The matches of a correspondence given by its elements (all of which differ)."""
    if isinstance(el, dict):
        el = (el["S1"], el["S2"])  # AlignGraph; the rest of it is the subject of C19
    if len(el) != 2 or len(el[0]) != len(el[1]):
        ctx.fail("%s returned %r" % (what, el))
    out = []
    for S, part in ((g.S1, el[0]), (g.S2, el[1])):
        where = {key(S[i]): i for i in range(len(S))}
        try:
            out.append([where[key(e)] for e in part])
        except KeyError:
            ctx.fail("%s returned elements %r" % (what, part))
    return tuple(sorted(zip(*out)))


def plain(ctx, g, m, n, acc, first={}):
    by = matchings(m, n, acc)
    om = max(k for k in by if by[k])
    what = "%s with %r" % (type(g).__name__, sorted(acc)[:12])
    for opt in (first, {}):
        r = g.get_correspondence(**opt)
        c = as_set(ctx, what, r, m, n)
        if c not in by[om]:
            ctx.fail("%s: get_correspondence(**%r) gave %r; the best have size %d" % (what, opt, r, om))
    e = g.get_correspondence(return_indices=False)
    if as_indices(ctx, what, g, e) not in by[om]:
        ctx.fail("%s: get_correspondence gave elements %r" % (what, e))
    for k in range(1, min(m, n) + 2):
        got = [as_set(ctx, what, x, m, n) for x in g.all_correspondences(k)]
        if sorted(got) != sorted(by.get(k, [])):
            ctx.fail("%s: all_correspondences(%d) gave %r, not %r" % (what, k, got[:6], by.get(k, [])[:6]))
        ctx.transitions += 1
    ctx.states += 1
    ctx.transitions += 3
    ctx.outcome("best size %d" % om)
    return by, om


def flags(ctx, g, m, n, acc, build):
    by, om = plain(ctx, g, m, n, acc)
    top = min(m, n) + 1
    for k in range(1, top + 1):
        got = [as_indices(ctx, "all_correspondences", g, e) for e in g.all_correspondences(k, False)]
        if sorted(got) != sorted(by.get(k, [])):
            ctx.fail("all_correspondences(%d, False) gave %r" % (k, got))
        ctx.transitions += 1
    for lb, ub in itertools.product(range(0, top + 1), list(range(1, top + 1)) + [lib.DEF_UB]):
        for heur, dfs in ((True, True), (False, True), (True, False)):
            for before in (build, g.reset_search, None):
                if before:
                    before()
                what = "get_correspondence(lower_bound=%d, upper_bound=%d, use_heuristic=%r, use_dfs=%r)" % (lb, ub, heur, dfs)
                try:
                    r = g.get_correspondence(lower_bound=lb, upper_bound=ub, use_heuristic=heur, use_dfs=dfs)
                except RuntimeError:
                    r = None
                c = None if r is None else as_set(ctx, what, r, m, n)
                if dfs:
                    lib.judge_max(ctx, what, lambda c: c in by.get(len(c), []), om, lb, ub, c)
                elif c is not None and (c not in by.get(len(c), []) or len(c) > ub or len(c) < lb):
                    ctx.fail("%s returned %r" % (what, r))
                ctx.states += 1
                ctx.transitions += 1
    g.reset_search()
    r = g.get_correspondence(1, lib.DEF_UB, -1.0, True, True, True, False)
    if len(as_indices(ctx, "get_correspondence", g, r)) != om:
        ctx.fail("continued get_correspondence gave %r" % (r,))
    try:
        g.get_correspondence(use_heuristic=False, use_dfs=False)
    except RuntimeError:
        return
    ctx.fail("get_correspondence with no method returned")


RULES = [
    lambda i, a, j, b: (i < j) == (a < b),
    lambda i, a, j, b: (i + a + j + b) % 2 == 0,
    lambda i, a, j, b: j - i == abs(b - a),
    lambda i, a, j, b: j - i == b - a,
    lambda i, a, j, b: (a - 2 * i) % 5 == (b - 2 * j) % 5,
    lambda i, a, j, b: False,
    lambda i, a, j, b: {a, b} == {0, 1} or i == 0,
]


def large(ctx, s, r):
    m, n = SIZES[s]
    acc = {p for p in pairs(m, n) if RULES[r](*p)}
    e = sorted(c13.edges(n, acc))
    if r in (0, 1, 4) and m * n > 60 or len(e) > 3000:
        return
    om = G.ref_omega(m * n, e)
    for c in CLASSES[:4] + CLASSES[9:]:
        g = make(c, m, n)
        f = c13.Cond(ctx, g, m, n, acc)
        g.build_edges_with_condition(f, True)
        x = g.get_correspondence()
        t = as_set(ctx, c, x, m, n)
        if len(t) != om or any((i, a, j, b) not in acc for (i, a), (j, b) in itertools.combinations(t, 2)):
            ctx.fail("%s, %d x %d elements: %r, best size %d" % (c, m, n, x, om))
        t = as_indices(ctx, c, g, g.get_correspondence(return_indices=False))
        if len(t) != om or any((i, a, j, b) not in acc for (i, a), (j, b) in itertools.combinations(t, 2)):
            ctx.fail("%s, %d x %d elements: elements of %r, best size %d" % (c, m, n, t, om))
        for k in {1, 2, om}:
            ref = {tuple(sorted(((v - 1) // n, (v - 1) % n) for v in q)) for q in G.ref_cliques(m * n, e, k)}
            got = [as_set(ctx, c, y, m, n) for y in g.all_correspondences(k)]
            if set(got) != ref or len(got) != len(ref):
                ctx.fail("%s, %d x %d elements: all_correspondences(%d) gave %d, not %d" % (c, m, n, k, len(got), len(ref)))
            ctx.transitions += 1
        ctx.states += 1
        ctx.transitions += 2


def timed(ctx, what, fresh, call, by, om, edges, nv):
    """A time limit that expires at every look at the clock, then a continued search.
    call(g, options) gives the matches."""

    def go(g, k, limit=5.0, heur=False, cont=False, f=call):
        ctx.clock.mc_arm(k, 100 * 10**9, 0)
        try:
            c = f(g, dict(time_limit=limit, use_heuristic=heur, continue_search=cont))
        finally:
            q = ctx.clock.mc_disarm()
        ctx.transitions += 1
        return c, q

    def ok(g, c, opt, least=1, final=False):
        if c not in by.get(len(c), []) or len(c) < least:
            ctx.fail("%s, %s: %r" % (what, opt, c))
        if final and not g.search_done or g.search_done and len(c) != om:
            ctx.fail("%s, %s: search_done=%r with %r, the best have size %d" % (what, opt, g.search_done, c, om))

    for heur in (False, True):
        g = fresh()
        c, q = go(g, 0, heur=heur)
        ok(g, c, "not expired", om, True)
        cut = [0, 0]
        for k in range(1, q + 1):
            h = lib.graph(nv, edges)
            go(h, k, heur=heur, f=lambda g, o: g.get_max_clique(**o))
            g = fresh()
            c, _ = go(g, k, heur=heur)
            ok(g, c, "expired at %d" % k)
            cut[0] += not h.search_done
            cut[1] += not g.search_done
            d, _ = go(g, 0, heur=heur, cont=True)
            ok(g, d, "expired at %d and continued" % k, len(c), True)
            d, _ = go(g, k, limit=-1.0, heur=heur)
            ok(g, d, "expired at %d, then without limit" % k, om, True)
            g = fresh()
            d, _ = go(g, k, limit=0.0, heur=heur)
            ok(g, d, "limit 0", om, True)
            ctx.states += 2
        if cut[0] and not cut[1]:
            ctx.fail("%s: no time limit cuts the search short" % what)
        ctx.count("interrupted", cut[1])


def timed_tables(ctx, c):
    """All 2 x 3 tables, and the structured ones of 3 x 3 and 3 x 4."""
    todo = [(2, 3, {p for x, p in enumerate(pairs(2, 3)) if t >> x & 1}) for t in range(64)]
    todo += [(m, n, {p for p in pairs(m, n) if f(*p)}) for m, n in ((3, 3), (3, 4), (4, 3)) for f in RULES]
    for m, n, acc in todo:
        by = matchings(m, n, acc)
        om = max(k for k in by if by[k])

        def fresh():
            g = make(c, m, n)
            g.build_edges_with_condition(lambda s1, i, j, s2, a, b: ((i, a, j, b) if i < j else (j, b, i, a)) in acc, True)
            return g

        what = "%s, %d x %d elements, %r" % (c, m, n, sorted(acc)[:9])
        timed(ctx, what, fresh, lambda g, o: as_set(ctx, what, g.get_correspondence(**o), m, n), by, om, sorted(c13.edges(n, acc)), m * n)
        timed(ctx, what, fresh, lambda g, o: as_indices(ctx, what, g, g.get_correspondence(return_indices=False, **o)), by, om,
              sorted(c13.edges(n, acc)), m * n)


def mix(ctx):
    """Two enumerations, a search and a rebuild interleaved in every order."""
    m, n = 3, 4
    for acc in ({p for p in pairs(m, n) if RULES[0](*p)}, set(pairs(m, n)), set(pairs(m, n)[::2])):
        by = matchings(m, n, acc)
        om = max(k for k in by if by[k])
        for k1, k2 in itertools.product((1, 2, 3), repeat=2):
            for word in itertools.product("abs", repeat=5):
                g = make("L2L", m, n)
                g.build_edges_with_condition(c13.Cond(ctx, g, m, n, acc), True)
                its = {"a": g.all_correspondences(k1), "b": g.all_correspondences(k2, False)}
                out = {"a": [], "b": []}
                for w in word + ("r",):
                    if w == "s":
                        if len(g.get_correspondence()[0]) != om:
                            ctx.fail("a search between enumerations is wrong")
                    elif w == "r":
                        g.build_edges_with_condition(lambda *a: False, True)
                    else:
                        out[w] += list(itertools.islice(its[w], 1))
                    ctx.transitions += 1
                for w in "ab":
                    if iter(its[w]) is not its[w] and w == "b":
                        ctx.fail("the iterator is not its own iterator")
                    out[w] += list(its[w])
                    if next(its[w], None) is not None:
                        ctx.fail("an exhausted enumeration goes on")
                a = [as_set(ctx, "all_correspondences", x, m, n) for x in out["a"]]
                b = [tuple(sorted((g.S1.index(x), g.S2.index(y)) for x, y in zip(*e))) for e in out["b"]]
                if sorted(a) != sorted(by.get(k1, [])) or sorted(b) != sorted(by.get(k2, [])):
                    ctx.fail("interleaving %r of sizes %d, %d: %d and %d correspondences" % (word, k1, k2, len(a), len(b)))
                ctx.states += 1


def wide(ctx, m, n, step):
    """Many points, of which S2 has those of S1 in another order and maybe others."""
    k = min(m, n)
    line = lambda i: (7.13 * i + 0.31 * i * i, 3.7 * i - 0.017 * i**3)
    A = [line(i) for i in range(m)]
    if m <= n:
        B = [line(i) for i in range(m)] + [(-1e7 * (i + 1), 3e7 * i * i) for i in range(n - m)]
    else:
        B = [line(i) for i in range(m - n, m)]
    B = [B[(step * i + 1) % n] for i in range(n)]
    want = sorted((i, j) for j in range(n) for i in [A.index(B[j]) if B[j] in A else -1] if i >= 0)
    A, B = np.array(A), np.array(B)
    for cls in ("A2A", "Align"):
        g = getattr(lib.cm, cls + "Graph")(A, B)
        g.epsilon = 1e-7
        g.build_edges()
        for kw in ({}, {"use_heuristic": False}, {"lower_bound": k - 1}):
            p = g.get_correspondence(**kw)
            ctx.transitions += 1
            if sorted(zip(*p)) != want:
                ctx.fail("%sGraph, %d x %d points, %r: %d matches, of which %d are right" % (cls, m, n, kw, len(p[0]), len(set(zip(*p)) & set(want))))
        e = g.get_correspondence(return_indices=False)
        e = (e["S1"], e["S2"]) if cls == "Align" else e
        if sorted(zip(map(tuple, np.asarray(e[0]).tolist()), map(tuple, np.asarray(e[1]).tolist()))) != sorted((tuple(A[i].tolist()), tuple(B[j].tolist())) for i, j in want):
            ctx.fail("%sGraph, %d x %d points: wrong elements" % (cls, m, n))
        every = [sorted(zip(*p)) for p in g.all_correspondences(k)]
        if every != [want]:
            ctx.fail("%sGraph, %d x %d points: %d correspondences of all" % (cls, m, n, len(every)))
        ctx.states += 1
        ctx.transitions += 2


def weighted(ctx, m, n, lo, hi):
    """A weighted graph whose vertices are pairs of elements."""
    N = m * n
    w0 = [1.0, 2.0, 0.5, 4.0, 1.5, 3.0][:N]
    for g in range(lo, hi):
        cl = {c: sum(w0[v - 1] for v in c) for c in G.all_cliques(N, g)}
        best = max(cl.values())
        gr = lib.cm.NWGraph.from_edgelist(G.edge_array(G.edges_of(N, g)), N, np.array(w0))
        if not hasattr(gr, "_get_correspondence"):
            return
        code = lambda p: tuple(sorted(i * n + j + 1 for i, j in zip(*p)))
        for kw in ({}, {"use_heuristic": False}):
            got = gr._get_correspondence(m, n, 0, 1e18, **kw)
            ctx.transitions += 1
            if len(got[0]) != len(got[1]) or cl.get(code(got)) != best or any(not 0 <= j < n for j in got[1]):
                ctx.fail("_get_correspondence of a weighted graph, %d x %d, edges %r: %r" % (m, n, G.edges_of(N, g), got))
        for w in sorted(set(x for c, x in cl.items() if len(c) > 1)):
            got = list(gr._all_correspondences(m, n, w))
            ctx.transitions += len(got) + 1
            want = sorted(tuple(sorted(c)) for c in gr.all_cliques(w))
            if sorted(code(p) for p in got) != want or any(not 0 <= j < n for p in got for j in p[1]):
                ctx.fail("_all_correspondences(%d, %d, %r) of a weighted graph, edges %r: %r" % (m, n, w, G.edges_of(N, g), got))
            if any(c not in want for c, x in cl.items() if x == w and len(c) > 1):
                ctx.fail("_all_correspondences(%d, %d, %r) of a weighted graph, edges %r: %r" % (m, n, w, G.edges_of(N, g), got))
        ctx.states += 1


def run(case, ctx):
    k = case[0]
    if k in ("flags", "plain", "some"):
        _, c, m, n, lo, hi = case
        ps = pairs(m, n)
        g = make(c, m, n)
        for t in range(lo, hi, 61 if k == "some" else 1):
            acc = {p for x, p in enumerate(ps) if t >> x & 1}
            build = lambda: g.build_edges_with_condition(lambda s1, i, j, s2, a, b: ((i, a, j, b) if i < j else (j, b, i, a)) in acc, True)
            build()
            if k == "plain":
                plain(ctx, g, m, n, acc, {"use_heuristic": False} if t % 2 else {})
            else:
                flags(ctx, g, m, n, acc, build)
    elif k == "large":
        large(ctx, *case[1:])
    elif k == "wide":
        wide(ctx, *case[1:])
    elif k == "nw":
        weighted(ctx, *case[1:])
    elif k == "timed":
        timed_tables(ctx, case[1])
    else:
        mix(ctx)
