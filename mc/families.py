"""Structured larger graphs, named by small tuples, with known answers.

    ("bip", a, b, layout, positions, k, H)
        complete bipartite graph with sides A (a) and B (b), plus the small graph
        H (an int, on k vertices) drawn on the A vertices at `positions`
    ("join", m, where, k, H)
        complete graph on m vertices joined to H, whose vertices are numbered
        first, last, in the middle or spread out
    ("far", n, offset, step, k, H)
        H at vertex numbers offset, offset+step, ... of n vertices, rest isolated
    ("copies", k, H, c)
        c disjoint copies of H, then one complete graph on omega(H)+1 vertices
    ("turan", sizes)
        complete multipartite graph
    ("wheel", hubs, rim)
        complete graph on `hubs` joined to a cycle
    ("decoy", a, b, places, links)
        a small graph at these vertex numbers (counted from 0) and another, of higher
        degrees, at the other ones, with so many edges between them
"""
import functools
import itertools

from . import graphs as G

LAYOUTS = ("AB", "BA", "mix")


def build(desc):
    """(n, edges, omega)"""
    kind = desc[0]
    if kind == "bip":
        _, a, b, layout, pos, k, H = desc
        n = a + b
        if layout == "AB":
            A = list(range(1, a + 1))
            Bs = list(range(a + 1, n + 1))
        elif layout == "BA":
            Bs = list(range(1, b + 1))
            A = list(range(b + 1, n + 1))
        else:
            m = min(a, b)
            A = [2 * i + 1 for i in range(m)] + list(range(2 * m + 1, n + 1))[: a - m]
            Bs = sorted(set(range(1, n + 1)) - set(A))
        edges = [(x, y) for x in A for y in Bs]
        edges += [(A[pos[i - 1]], A[pos[j - 1]]) for i, j in G.edges_of(k, H)]
        return n, edges, 1 + max(1, G.omega(k, H))
    if kind == "join":
        _, m, where, k, H = desc
        n = m + k
        if where == "first":
            hv = list(range(1, k + 1))
        elif where == "last":
            hv = list(range(m + 1, n + 1))
        elif where == "middle":
            hv = list(range(m // 2 + 1, m // 2 + k + 1))
        else:
            hv = sorted(set(1 + (n - 1) * i // (k - 1) for i in range(k)))
        rest = [v for v in range(1, n + 1) if v not in hv]
        edges = G.complete(rest) + [(x, y) for x in rest for y in hv]
        edges += [(hv[i - 1], hv[j - 1]) for i, j in G.edges_of(k, H)]
        return n, edges, m + G.omega(k, H)
    if kind == "far":
        _, n, off, step, k, H = desc
        edges = [
            (off + (i - 1) * step, off + (j - 1) * step) for i, j in G.edges_of(k, H)
        ]
        return n, edges, max(1, G.omega(k, H))
    if kind == "copies":
        _, k, H, c = desc
        edges = []
        for t in range(c):
            edges += [(t * k + i, t * k + j) for i, j in G.edges_of(k, H)]
        w = G.omega(k, H) + 1
        edges += G.complete(range(c * k + 1, c * k + w + 1))
        return c * k + w, edges, w
    if kind == "turan":
        sizes = desc[1]
        part = [p for p, s in enumerate(sizes) for _ in range(s)]
        n = len(part)
        edges = [
            (i + 1, j + 1)
            for i in range(n)
            for j in range(i + 1, n)
            if part[i] != part[j]
        ]
        return n, edges, len(sizes)
    if kind == "wheel":
        _, h, r = desc
        hub = list(range(1, h + 1))
        rim = list(range(h + 1, h + r + 1))
        edges = G.complete(hub) + [(x, y) for x in hub for y in rim]
        edges += [(rim[i], rim[(i + 1) % r]) for i in range(r)]
        return h + r, edges, h + 2 + (r == 3)
    if kind == "decoy":
        _, a, b, places, links = desc
        na, ea = PART[a]
        nb, eb = PART[b]
        n = na + nb
        A = [p + 1 for p in places]
        B = [v for v in range(1, n + 1) if v not in A]
        edges = [(A[i - 1], A[j - 1]) for i, j in ea] + [(B[i - 1], B[j - 1]) for i, j in eb]
        edges += [(A[i % na], B[(i * 2) % nb]) for i in range(links)]
        edges = sorted({(min(e), max(e)) for e in edges})
        return n, edges, G.ref_omega(n, edges)
    raise ValueError(desc)


def _parts():
    tur = lambda *s: (sum(s), build(("turan", s))[1])
    cyc = lambda n: (n, [(i, i % n + 1) for i in range(1, n + 1)])
    return {
        "K2": tur(1, 1), "K3": tur(1, 1, 1), "K4": tur(1, 1, 1, 1), "K5": tur(1, 1, 1, 1, 1),
        "K3,3": tur(3, 3), "K4,4": tur(4, 4), "K2,2,2": tur(2, 2, 2), "K3,3,3": tur(3, 3, 3),
        "K2,2,2,2": tur(2, 2, 2, 2), "C5": cyc(5), "C7": cyc(7),
        "W5": (6, build(("wheel", 1, 5))[1]), "K1,5": tur(1, 5),
    }


# (small graph, decoy): the decoy has larger degrees but no larger clique
DECOYS = (("K2", "K1,5"), ("K2", "C5"), ("K3", "K3,3"), ("K3", "K4,4"), ("K3", "C7"), ("K4", "K2,2,2"),
          ("K4", "W5"), ("K3", "K2,2,2"), ("K4", "K3,3"), ("K5", "K2,2,2,2"), ("K4", "K3,3,3"))


def decoy_family(which, links=(0, 1, 3)):
    for a, b in which:
        n = PART[a][0] + PART[b][0]
        for places in itertools.combinations(range(n), PART[a][0]):
            for l in links:
                yield ("decoy", a, b, places, l)


# graphs on up to 4 vertices, one per isomorphism type and then some labelled ones
SHAPES3 = [0, 1, 2, 4, 3, 5, 6, 7]


def critical(size):
    """Positions around word boundaries, and the ends, of a list of that size."""
    c = {0, 1, size - 2, size - 1}
    for w in range(0, size + 64, 64):
        c |= {w - 2, w - 1, w, w + 1}
    c |= {31, 32}
    return sorted(p for p in c if 0 <= p < size)


def bip_family(sizes, layouts, k, shapes, maxpos=None):
    for a, b in sizes:
        pos = critical(a)
        for ps in itertools.combinations(pos, k):
            for H in shapes:
                for lay in layouts:
                    yield ("bip", a, b, lay, ps, k, H)


def join_family(ms, k, shapes):
    for m in ms:
        for H in shapes:
            for where in ("first", "last", "middle", "spread"):
                yield ("join", m, where, k, H)


def far_family(k, shapes, offsets=None):
    offs = offsets or (14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 255, 256, 257, 4095, 4096,
                       65534, 65535, 65536)
    for off in offs:
        for step in (1, 3, 16, 17, 255, 256):
            for pad in (0, 1, 40):
                n = off + (k - 1) * step + pad
                for H in shapes:
                    yield ("far", n, off, step, k, H)


PART = _parts()
