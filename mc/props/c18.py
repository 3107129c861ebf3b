"""A graph and its renumbered, padded or scaled copies, searched and enumerated by the
real code: every graph of up to 5 vertices under every permutation; one graph of each
isomorphism class of 6 vertices under every permutation and of 7 under all
transpositions, shifts and the reversal; a table of known graphs of 9 to 16 vertices
under all affine renumberings; every graph of up to 4 vertices padded with isolated
vertices or joined by a component (before it, after it, around it), at vertex numbers
and degrees around 16, 32, 64, 128, 256, 4096 and 65536; every weighting of a
table scaled by powers of two from 2^-60 to 2^60.  Oracle: the answers of the copy,
carried back, are those of the original, whose answers come from the independent
reference.  State = one copy; transition = one call; trace = one original with
a group of copies."""
import itertools
import math

import numpy as np

from .. import graphs as G
from .. import lib
from .c02 import BIG, tables

ASSUMPTIONS = ["weights are powers of two times small numbers, so sums are exact", "a clique yielded by weight may be heavier than asked for; only those of exactly that weight are compared"]


def classes(n):
    """One edge mask per isomorphism class."""
    N = 1 << G.npairs(n)
    ix = G.pair_index(n)
    a = np.arange(N, dtype=np.int64)
    gens = []
    for perm in ([2, 1] + list(range(3, n + 1)), list(range(2, n + 1)) + [1]):
        out = np.zeros(N, dtype=np.int64)
        for (i, j), b in ix.items():
            if i < j:
                p = sorted((perm[i - 1], perm[j - 1]))
                out |= ((a >> b) & 1) << ix[p[0], p[1]]
        gens.append(out)
    lab = a.copy()
    while True:
        new = lab
        for g in gens:
            new = np.minimum(new, new[g])
            back = np.empty_like(new)
            back[g] = new
            new = np.minimum(new, back)
        if (new == lab).all():
            return [int(x) for x in np.unique(lab)]
        lab = new


def blocks(tier):
    b = []
    for n in (1, 2, 3, 4):
        b.append(["perm", n, list(range(1 << G.npairs(n)))])
    for lo in range(0, 1024, 64):
        b.append(["perm", 5, list(range(lo, lo + 64))])
    c6 = classes(6)
    for lo in range(0, len(c6), 10):
        b.append(["perm", 6, c6[lo:lo + 10]])
    c7 = classes(7)
    for lo in range(0, len(c7), 66):
        b.append(["some", 7, c7[lo:lo + 66]])
    if tier == "thorough":
        for lo in range(0, len(c7), 4):
            b.append(["perm", 7, c7[lo:lo + 4]])
    for name in KNOWN:
        b.append(["known", name])
    for n in (3, 4):
        for p in range(0, 1 << G.npairs(n), 4):
            b.append(["pad", n, p, p + 4])
    for kind in COMPONENTS:
        for n in (3, 4):
            b.append(["comp", kind, n])
    for n in (1, 2, 3):
        b.append(["scale", n, 0, 1 << G.npairs(n)])
    for lo in range(0, 64, 8):
        b.append(["scale", 4, lo, lo + 8])
    for lo in range(0, 1024, 64):
        b.append(["wperm", 5, lo, lo + 64])
    b.append(["wperm", 4, 0, 64])
    return b


def cases(block):
    k = block[0]
    if k in ("perm", "some"):
        for g in block[2]:
            yield (k, block[1], g)
    elif k in ("pad", "scale", "wperm"):
        for g in range(block[2], block[3]):
            yield (k, block[1], g)
    elif k == "comp":
        for g in range(1 << G.npairs(block[2])):
            yield (k, block[1], block[2], g)
    else:
        yield tuple(block)


def orders(n):
    """Transpositions, shifts and the reversal."""
    idt = list(range(1, n + 1))
    out = [idt[::-1]]
    for i, j in itertools.combinations(range(n), 2):
        p = idt[:]
        p[i], p[j] = p[j], p[i]
        out.append(p)
    for s in range(1, n):
        out.append(idt[s:] + idt[:s])
    return out


def back(clique, inv):
    return tuple(sorted(inv[v] for v in clique))


def compare(ctx, g, inv, sets, om, what, extra=0):
    """sets[k]: the cliques of size k of the original; extra isolated vertices."""
    c = g.get_max_clique()
    if back(c, inv) not in sets[om]:
        ctx.fail("%s: maximum clique %r is %r there, the best have size %d" % (what, c, [inv.get(v) for v in c], om))
    for k in sets:
        got = [back(c, inv) for c in g.all_cliques(k)]
        if len(got) != len(sets[k]) or set(got) != sets[k]:
            ctx.fail("%s: %d cliques of size %d, not %d" % (what, len(got), k, len(sets[k])))
        ctx.transitions += 1
    ctx.states += 1
    ctx.transitions += 2


def clique_sets(n, edges):
    sets, k = {1: {(v,) for v in range(1, n + 1)}}, 1
    while sets[k]:
        k += 1
        sets[k] = set(map(tuple, G.ref_cliques(n, edges, k)))
    return sets, k - 1


def relabel(edges, perm):
    return [(perm[a - 1], perm[b - 1]) for a, b in edges]


def paley(q):
    sq = {x * x % q for x in range(1, q)}
    return q, [(i + 1, j + 1) for i, j in itertools.combinations(range(q), 2) if (j - i) % q in sq]


def circulant(n, steps):
    return n, [(i + 1, j + 1) for i, j in itertools.combinations(range(n), 2) if min(j - i, n - j + i) in steps]


def complement(g):
    n, e = g
    e = {tuple(sorted(x)) for x in e}
    return n, [p for p in G.pairs(n) if p not in e]


def petersen():
    s = list(itertools.combinations(range(5), 2))
    return 10, [(i + 1, j + 1) for i, j in itertools.combinations(range(10), 2) if not set(s[i]) & set(s[j])]


def cube():
    return 16, [(i + 1, j + 1) for i, j in itertools.combinations(range(16), 2) if bin(i ^ j).count("1") == 1]


def grotzsch():
    e = [(i, i % 5 + 1) for i in range(1, 6)]
    e = e + [(a + 5, b) for a, b in e] + [(a, b + 5) for a, b in e] + [(i + 5, 11) for i in range(1, 6)]
    return 11, e


KNOWN = {
    "paley13": lambda: paley(13), "paley9": lambda: circulant(9, {1, 3}), "petersen": petersen, "kneser'": lambda: complement(petersen()),
    "cube": cube, "cube'": lambda: complement(cube()), "grotzsch": grotzsch, "grotzsch'": lambda: complement(grotzsch()),
    "c9'": lambda: complement(circulant(9, {1})), "c13'": lambda: complement(circulant(13, {1})), "c14(1,2)": lambda: circulant(14, {1, 2}),
    "c12(1,2,3)": lambda: circulant(12, {1, 2, 3}), "c16(1,4)": lambda: circulant(16, {1, 4}), "c13(1,5)": lambda: circulant(13, {1, 5}),
    "c10(2,5)'": lambda: complement(circulant(10, {2, 5})), "halves": lambda: (12, G.complete(range(1, 7)) + G.complete(range(6, 13))),
}


def affine(n):
    for a in range(1, n):
        if math.gcd(a, n) == 1:
            for b in range(n):
                yield [(a * x + b) % n + 1 for x in range(n)]
    yield [2 * x + 1 if 2 * x < n else 2 * (n - 1 - x) + 2 for x in range(n)]


NUMBERS = (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097)

# a component with vertex numbers from s on: (edges, size), cliques of size 2 only
COMPONENTS = {
    "edge": lambda s: ([(s, s + 1)], 2),
    "star15": lambda s: ([(s, s + i) for i in range(1, 16)], 16),
    "star64": lambda s: ([(s + 30, s + i) for i in range(65) if i != 30], 65),
    "star128": lambda s: ([(s + 128, s + i) for i in range(128)], 129),
    "path40": lambda s: ([(s + i, s + i + 1) for i in range(39)], 40),
    "bip": lambda s: ([(s + i, s + 33 + j) for i in range(33) for j in range(32)], 65),
    "bip2": lambda s: ([(s + 2 * i, s + 2 * j + 1) for i in range(65) for j in range(65)], 130),
    "cycle257": lambda s: ([(s + i, s + (i + 1) % 257) for i in range(257)], 257),
}


def run(case, ctx):
    k = case[0]
    if k in ("perm", "some"):
        _, n, g = case
        edges = G.edges_of(n, g)
        sets, om = clique_sets(n, edges)
        for p in itertools.permutations(range(1, n + 1)) if k == "perm" else orders(n):
            h = lib.graph(n, relabel(edges, p))
            compare(ctx, h, {p[v - 1]: v for v in range(1, n + 1)}, sets, om, "%d vertices, edges %r, renumbered %r" % (n, edges, p))
        ctx.outcome((n, om, len(sets.get(2, ())), len(sets.get(3, ()))))
    elif k == "known":
        n, edges = KNOWN[case[1]]()
        sets, om = clique_sets(n, edges)
        w = [1.0 + i % 3 for i in range(n)]
        best = G.ref_weight(n, edges, [0.0] + w)
        for p in affine(n):
            e = relabel(edges, p)
            inv = {p[v - 1]: v for v in range(1, n + 1)}
            compare(ctx, lib.graph(n, e), inv, sets, om, "%s renumbered %r" % (case[1], p))
            q = lib.nwgraph(n, e, [w[inv[v] - 1] for v in range(1, n + 1)])
            c = q.get_max_clique(upper_bound=BIG)
            if back(c, inv) not in sets.get(len(c), ()) or sum(w[inv[v] - 1] for v in c) != best:
                ctx.fail("%s with weights renumbered %r: %r, best weight %r" % (case[1], p, c, best))
            ctx.transitions += 1
    elif k == "pad":
        _, n, g = case
        edges = G.edges_of(n, g)
        sets, om = clique_sets(n, edges)
        big = {x: s for x, s in sets.items() if x > 1}
        for at in NUMBERS + (65535, 65536):
            for layout in range(4):
                # all at once; spread; last; one on each side
                pos = [
                    [at + i for i in range(n)],
                    [1 + i * (at // n) for i in range(n)],
                    [at - n + 1 + i for i in range(n)],
                    [1] + [at + i for i in range(n - 1)],
                ][layout]
                total = max(pos) + (0 if layout == 2 else at % 3)
                if total > 10000 and (g % 8 or layout == 1):
                    continue
                inv = dict(zip(pos, range(1, n + 1)))
                h = lib.graph(total, [(pos[a - 1], pos[b - 1]) for a, b in edges])
                what = "%d vertices, edges %r, at %r of %d" % (n, edges, pos, total)
                if om == 1:
                    if len(h.get_max_clique()) != 1:
                        ctx.fail("%s: a clique without edges" % what)
                    continue
                compare(ctx, h, inv, big, om, what)
                if total < 300:
                    if len(list(h.all_cliques(1))) != total:
                        ctx.fail("%s: single vertices" % what)
                    w = np.full(total, 0.25)
                    for p in pos:
                        w[p - 1] = 2.0 + inv[p] % 2
                    q = lib.nwgraph(total, [(pos[a - 1], pos[b - 1]) for a, b in edges], w)
                    c = q.get_max_clique(upper_bound=BIG)
                    best = max(sum(2.0 + v % 2 for v in s) for ss in sets.values() for s in ss)
                    if sum(w[v - 1] for v in c) != best:
                        ctx.fail("%s: weighted clique %r, best %r" % (what, c, best))
                    ctx.transitions += 2
    elif k == "comp":
        _, kind, n, g = case
        edges = G.edges_of(n, g)
        sets, om = clique_sets(n, edges)
        ce, size = COMPONENTS[kind](0)
        for where in range(4):
            # after, before, around, between
            if where == 0:
                pos, cp = list(range(1, n + 1)), list(range(n + 1, n + size + 1))
            elif where == 1:
                pos, cp = list(range(size + 1, size + n + 1)), list(range(1, size + 1))
            elif where == 2:
                m = size // 2
                pos, cp = list(range(m + 1, m + n + 1)), list(range(1, m + 1)) + list(range(m + n + 1, size + n + 1))
            else:
                pos = [1 + i * (size // n + 1) for i in range(n)]
                cp = [v for v in range(1, size + n + 1) if v not in pos]
                pos = [p for p in pos if p <= size + n] + [v for v in range(size + n + 1, size + 2 * n)][: n - len([p for p in pos if p <= size + n])]
                cp = cp[:size]
            total = max(pos + cp)
            e = [(pos[a - 1], pos[b - 1]) for a, b in edges]
            comp = [(cp[a], cp[b]) for a, b in ce]
            # the component's vertices are named beyond the original's
            inv = {p: i + 1 for i, p in enumerate(pos)}
            inv.update({c: n + 1 + i for i, c in enumerate(cp)})
            want = {x: set(s) for x, s in sets.items() if x > 1}
            want.setdefault(2, set()).update(tuple(sorted((n + 1 + a, n + 1 + b))) for a, b in ce)
            want.setdefault(3, set())
            for flip in (False, True):
                h = lib.graph(total, comp + e if flip else e + comp)
                compare(ctx, h, inv, want, max(2, om), "%d vertices, edges %r, next to a %s (%d)" % (n, edges, kind, where))
    elif k == "scale":
        _, n, g = case
        edges = G.edges_of(n, g)
        cl = G.all_cliques(n, g)
        for w in tables(n):
            by = {}
            for c in cl:
                by.setdefault(sum(w[v - 1] for v in c), set()).add(tuple(c))
            best = max(by)
            for e in (-60, -20, -3, -1, 1, 2, 10, 31, 40, 60):
                f = 2.0 ** e
                q = lib.nwgraph(n, edges, [x * f for x in w])
                c = tuple(sorted(q.get_max_clique(lower_bound=0.0, upper_bound=BIG * max(f, 1.0))))
                if c not in by[best] or q.get_clique_weight(list(c)) != best * f:
                    ctx.fail("%d vertices, edges %r, weights %r times 2^%d: %r, best %r" % (n, edges, w, e, c, best))
                q.reset_search()
                c = tuple(sorted(q.get_max_clique(lower_bound=0.0, upper_bound=BIG * max(f, 1.0), use_heuristic=False)))
                if c not in by[best]:
                    ctx.fail("%d vertices, edges %r, weights %r times 2^%d, no heuristic: %r, best %r" % (n, edges, w, e, c, best))
                q.reset_search()
                h = q.get_max_clique(lower_bound=0.0, use_dfs=False, upper_bound=BIG * max(f, 1.0))
                if tuple(sorted(h)) not in cl:
                    ctx.fail("weights times 2^%d: heuristic clique %r" % (e, h))
                for x in sorted(by)[-3:]:
                    got = [tuple(sorted(c)) for c in q.all_cliques(x * f)]
                    here = {c for c in by[x] if len(c) > 1}
                    if len(set(got)) != len(got) or {c for c in got if c in by[x]} - {c for c in by[x] if len(c) == 1} != here:
                        ctx.fail("%d vertices, edges %r, weights %r times 2^%d: cliques of weight %r: %r" % (n, edges, w, e, x, got))
                    ctx.transitions += 1
                ctx.states += 1
                ctx.transitions += 6
    elif k == "wperm":
        _, n, g = case
        edges = G.edges_of(n, g)
        cl = G.all_cliques(n, g)
        for w in tables(n)[2:8:2]:
            by = {}
            for c in cl:
                by.setdefault(sum(w[v - 1] for v in c), set()).add(tuple(c))
            best = max(by)
            for p in itertools.permutations(range(1, n + 1)):
                inv = {p[v - 1]: v for v in range(1, n + 1)}
                q = lib.nwgraph(n, relabel(edges, p), [w[inv[v] - 1] for v in range(1, n + 1)])
                c = back(q.get_max_clique(upper_bound=BIG), inv)
                if c not in by[best]:
                    ctx.fail("%d vertices, edges %r, weights %r renumbered %r: %r, best %r" % (n, edges, w, p, c, best))
                got = [back(c, inv) for c in q.all_cliques(best)]
                here = {c for c in by[best] if len(c) > 1}
                if len(set(got)) != len(got) or {c for c in got if c in by[best] and len(c) > 1} != here:
                    ctx.fail("%d vertices, edges %r, weights %r renumbered %r: cliques of the best weight %r" % (n, edges, w, p, got))
                ctx.states += 1
                ctx.transitions += 2
