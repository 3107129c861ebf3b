"""Graphs as Python values, plus slow and obvious reference answers.

A small graph on n vertices is an int: bit p is set if the p-th pair of
pairs(n) is an edge.  Larger graphs are (n, edges) with 1-based edges.
"""
import functools
import itertools

import numpy as np


@functools.lru_cache(None)
def pairs(n):
    return tuple((i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1))


@functools.lru_cache(None)
def pair_index(n):
    return {p: k for k, p in enumerate(pairs(n))}


@functools.lru_cache(1 << 16)
def edges_of(n, g):
    return tuple(p for k, p in enumerate(pairs(n)) if g >> k & 1)


def mask_of(n, edges):
    ix = pair_index(n)
    g = 0
    for a, b in edges:
        if a != b:
            g |= 1 << ix[(a, b) if a < b else (b, a)]
    return g


def npairs(n):
    return n * (n - 1) // 2


@functools.lru_cache(None)
def subset_edges(n):
    """For each size k: list of (vertex tuple, edge mask of the complete graph)."""
    ix = pair_index(n)
    out = []
    for k in range(n + 1):
        row = []
        for s in itertools.combinations(range(1, n + 1), k):
            m = 0
            for p in itertools.combinations(s, 2):
                m |= 1 << ix[p]
            row.append((s, m))
        out.append(row)
    return out


def cliques(n, g, k):
    """All cliques of k vertices, as sorted tuples."""
    if k > n or k < 1:
        return []
    return [s for s, m in subset_edges(n)[k] if g & m == m]


def all_cliques(n, g):
    out = []
    for k in range(1, n + 1):
        c = cliques(n, g, k)
        if not c:
            break
        out += c
    return out


def omega(n, g):
    k = 0
    while k < n and any(g & m == m for _, m in subset_edges(n)[k + 1]):
        k += 1
    return k


@functools.lru_cache(None)
def omega_table(n):
    """omega of every graph on n vertices, as an array."""
    N = 1 << npairs(n)
    g = np.arange(N, dtype=np.int64)
    w = np.full(N, 1 if n else 0, dtype=np.int8)
    for k in range(2, n + 1):
        has = np.zeros(N, dtype=bool)
        for _, m in subset_edges(n)[k]:
            has |= (g & m) == m
        w[has] = k
    return w


def edge_array(edges, dtype=np.uint64):
    return np.array(edges, dtype=dtype).reshape(-1, 2)


def matrix(n, edges):
    m = np.zeros((n, n), dtype=bool)
    for a, b in edges:
        m[a - 1, b - 1] = m[b - 1, a - 1] = True
    return m


def relabel(edges, perm):
    """perm[i] is the new number of vertex i (1-based, perm[0] unused)."""
    return [(perm[a], perm[b]) for a, b in edges]


# -- larger graphs ----------------------------------------------------------
def adj_bits(n, edges):
    adj = [0] * (n + 1)
    for a, b in edges:
        if a != b:
            adj[a] |= 1 << b
            adj[b] |= 1 << a
    return adj


def ref_omega(n, edges):
    """Largest clique size by plain Bron-Kerbosch with pivoting."""
    adj = adj_bits(n, edges)
    best = [1 if n else 0]

    def bk(size, P, X):
        if size + bin(P).count("1") <= best[0]:
            return
        if not P:
            if not X and size > best[0]:
                best[0] = size
            return
        u = max(bits(P | X), key=lambda v: bin(P & adj[v]).count("1"))
        for v in bits(P & ~adj[u]):
            bk(size + 1, P & adj[v], X & adj[v])
            P &= ~(1 << v)
            X |= 1 << v

    verts = 0
    for a, b in edges:
        verts |= (1 << a) | (1 << b)
    import sys

    old = sys.getrecursionlimit()
    sys.setrecursionlimit(10000)
    try:
        bk(0, verts, 0)
    finally:
        sys.setrecursionlimit(old)
    return best[0]


def ref_cliques(n, edges, k):
    """All k-cliques as sorted tuples, by extending with later vertices."""
    adj = adj_bits(n, edges)
    out = []

    def ext(c, P):
        if len(c) == k:
            out.append(tuple(c))
            return
        left = bin(P).count("1")
        for v in bits(P):
            if len(c) + left < k:
                return
            left -= 1
            c.append(v)
            ext(c, P & adj[v] & ~((1 << (v + 1)) - 1))
            c.pop()

    ext([], (1 << (n + 1)) - 2)
    return out


def ref_weight(n, edges, w):
    """Largest clique weight; w[v] for v in 1..n, positive."""
    adj = adj_bits(n, edges)
    best = [max(w[1:])]

    def ext(cur, P, rest):
        if cur > best[0]:
            best[0] = cur
        for v in bits(P):
            if cur + rest <= best[0]:
                return
            Q = P & adj[v] & ~((1 << (v + 1)) - 1)
            ext(cur + w[v], Q, sum(w[u] for u in bits(Q)))
            rest -= w[v]

    verts = 0
    for a, b in edges:
        verts |= (1 << a) | (1 << b)
    ext(0.0, verts, sum(w[u] for u in bits(verts)))
    return best[0]


def bits(x):
    while x:
        b = x & -x
        yield b.bit_length() - 1
        x ^= b


def complete(vs):
    return list(itertools.combinations(vs, 2))


def is_clique(adjset, vs):
    vs = list(vs)
    if len(set(vs)) != len(vs):
        return False
    return all(
        b in adjset[a] for x, a in enumerate(vs) for b in vs[x + 1 :]
    )


def adj_sets(n, edges):
    a = [set() for _ in range(n + 1)]
    for x, y in edges:
        if x != y:
            a[x].add(y)
            a[y].add(x)
    return a
