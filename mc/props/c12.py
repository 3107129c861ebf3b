"""Correspondence graphs from distances, built by the real code: every pair of
distance tables over a small alphabet for sets of up to 4 elements, with every
combination of symmetric and asymmetric metrics, every epsilon at, between and beyond
the differences, for lists; every table of up to 3 elements for the mixed and array
classes; every small set of grid points under the default metric, in one to three
dimensions; every memory layout and element type of an array; structured sets of up
to 20 elements with many ties; every table of up to 3 elements, and structured ones,
some of whose distances are not a number (and so agree with nothing); structured sets
of up to 300 elements with up to 67000 matches.  Oracle: the rule evaluated on every pair of matches
from the tables; every call of a metric is checked.  State = one set of tables and
options; transition = one build; trace = one group of tables."""
import itertools
import math
import warnings

import numpy as np

from .. import lib

ASSUMPTIONS = ["distances and epsilon are such that the comparison is exact in binary arithmetic"]
warnings.simplefilter("ignore")
EPS = (0.0, 0.5, 1.0, 2.0, -1.0, 1e9)
CLASSES = ("A2A", "A2L", "L2A", "L2L")


def ntab(n, sym):
    return n * (n - 1) // 2 if sym else n * (n - 1)


def blocks(tier):
    b = [["points"]]
    for x in range(len(WIDE)):
        for i in (1, 5, 6, 7):
            b.append(["wide", x, i])
    for m, n in itertools.product((1, 2, 3), repeat=2):
        for s1, s2 in itertools.product((True, False), repeat=2):
            k = 3
            big = k ** (ntab(m, s1) + ntab(n, s2))
            parts = 1 if big < 5000 else (8 if big < 100000 else 32)
            for eps in EPS if big < 100000 else (0.0, 1.0):
                for p in range(parts):
                    b.append(["tab", "L2L", m, n, s1, s2, k, eps, p, parts])
    for c in ("A2A", "A2L", "L2A"):
        for m, n in itertools.product((1, 2, 3), repeat=2):
            for s1, s2 in itertools.product((True, False), repeat=2):
                k = 2 if m + n >= 5 else 3
                for eps in (0.0, 1.0):
                    b.append(["tab", c, m, n, s1, s2, k, eps, 0, 1])
    for m, n in ((4, 3), (3, 4), (4, 2), (2, 4), (1, 4), (4, 1)):
        for eps in (0.0, 0.5, 1.0):
            b.append(["tab", "L2L", m, n, True, True, 3, eps, 0, 1])
    for p in range(8):
        b.append(["tab", "L2L", 4, 4, True, True, 2 if tier == "quick" else 3, 0.0, p, 8])
    for p in range(16):
        b.append(["tab", "L2L", 4, 2, False, False, 2, 0.0, p, 16])
        b.append(["tab", "L2L", 2, 4, False, True, 3, 1.0, p, 16])
        b.append(["tab", "L2L", 4, 2, False, True, 2, 0.0, p, 16])
    for i in range(16):
        b.append(["grid", i, 16])
    for d in (1, 3, 4):
        b.append(["dims", d])
    b.append(["layout"])
    for i in range(len(SHAPES)):
        for j in range(len(SHAPES)):
            b.append(["big", i, j])
    b.append(["sizes"])
    for m, n in itertools.product((2, 3), repeat=2):
        for s1, s2 in itertools.product((True, False), repeat=2):
            if ntab(m, s1) + ntab(n, s2) <= 9:
                for eps in (0.0, 1.0):
                    b.append(["nan", m, n, s1, s2, eps])
    for i in range(len(SHAPES)):
        b.append(["bignan", i])
    return b


def cases(block):
    if block[0] == "tab":
        c, m, n, s1, s2, k, eps, p, parts = block[1:]
        tabs = k ** ntab(m, s1)
        for t in range(p, tabs, parts):
            yield ("tab", c, m, n, s1, s2, k, eps, t)
    elif block[0] == "grid":
        for i in range(block[1], len(POINTS) ** 3, block[2]):
            yield ("grid", i)
    elif block[0] == "nan":
        m, n, s1, s2, eps = block[1:]
        for t in range(3 ** ntab(m, s1)):
            yield ("tab", "L2L", m, n, s1, s2, 3, eps, t, True)
    elif block[0] == "bignan":
        for m in SIZES:
            for k in range(2, 6):
                yield ("bignan", block[1], m, k)
    elif block[0] == "big":
        for m in SIZES:
            yield ("big", block[1], block[2], m)
    elif block[0] == "dims":
        for k in range(4):
            yield ("dims", block[1], k)
    else:
        yield tuple(block)


def digits(x, k, n):
    out = []
    for _ in range(n):
        out.append(x % k)
        x //= k
    return out


def table(n, sym, vals):
    """d[i][j] from the list of values; the lower half of a symmetric one is poison."""
    d = [[None] * n for _ in range(n)]
    it = iter(vals)
    for i in range(n):
        for j in range(n):
            if i != j and (not sym or i < j):
                d[i][j] = float(next(it))
    return d


def rule(d1, s1, d2, s2, m, n, eps):
    """The edges, from the statement."""
    near = lambda a, b: abs(a - b) <= eps
    out = set()
    for i, j in itertools.combinations(range(m), 2):
        for a, b in itertools.permutations(range(n), 2):
            # matches (i, a) and (j, b)
            if s1 and s2:
                ok = near(d1[i][j], d2[min(a, b)][max(a, b)])
            elif s1:
                ok = near(d1[i][j], d2[a][b]) or near(d1[i][j], d2[b][a])
            elif s2:
                e = d2[min(a, b)][max(a, b)]
                ok = near(d1[i][j], e) or near(d1[j][i], e)
            else:
                ok = near(d1[i][j], d2[a][b]) or near(d1[j][i], d2[b][a])
            if ok:
                out.add((i * n + a + 1, j * n + b + 1))
    return out


class Metric:
    """A metric given by a table, which checks how it is called."""

    def __init__(self, ctx, d, sym, same, n):
        self.ctx, self.d, self.sym, self.same, self.n = ctx, d, sym, same, n

    def __call__(self, s, i, j):
        if not (0 <= i < self.n and 0 <= j < self.n) or i == j or (self.sym and i > j):
            self.ctx.fail("the metric was called with (%r, %r) of %d elements" % (i, j, self.n))
        if not self.same(s):
            self.ctx.fail("the metric was called with %r" % (s,))
        return self.d[i][j]


def got_edges(g):
    return {tuple(sorted(map(int, e))) for e in g.to_edgelist()}


def judge(ctx, g, m, n, want, what):
    got = got_edges(g)
    ctx.outcome("some edges" if want else "no edge")
    if g.n_vertices != m * n or got != want or g.n_edges != len(want):
        ctx.fail("%s: %d vertices, %d edges %r instead of %r" % (what, g.n_vertices, g.n_edges, sorted(got ^ want)[:6], len(want)))


def make(ctx, c, m, n, d1, s1, d2, s2):
    """An unbuilt correspondence graph of class c over tables."""
    A = np.arange(2.0 * m).reshape(m, 2)
    B = np.arange(3.0 * n).reshape(n, 3) + 100
    L1, L2 = ["p%d" % i for i in range(m)], tuple("q%d" % i for i in range(n))
    if c[0] == "A":
        S1, same1 = A, lambda s: s.shape == A.shape and (s == A).all()
    else:
        S1, same1 = L1, lambda s: s is L1
    if c[2] == "A":
        S2, same2 = B, lambda s: s.shape == B.shape and (s == B).all()
    else:
        S2, same2 = L2, lambda s: s is L2
    cls = getattr(lib.cm, c + "Graph")
    return cls(S1, S2, Metric(ctx, d1, s1, same1, m), Metric(ctx, d2, s2, same2, n), s1, s2)


def numbers(x, k, n, nan):
    return [math.nan if nan and v == k - 1 else v for v in digits(x, k, n)]


def tab(ctx, c, m, n, s1, s2, k, eps, t, nan=False):
    d1 = table(m, s1, numbers(t, k, ntab(m, s1), nan))
    fast = None
    for u in range(k ** ntab(n, s2)):
        d2 = table(n, s2, numbers(u, k, ntab(n, s2), nan))
        if fast is None:
            g = make(ctx, c, m, n, d1, s1, d2, s2)
            fast = g
            g.epsilon = eps
        else:
            g.d2.d = d2
        if g.build_edges() is not True:
            ctx.fail("build_edges did not return True")
        judge(ctx, g, m, n, rule(d1, s1, d2, s2, m, n, eps), "%sGraph %r %r %r %r eps=%r" % (c, d1, s1, d2, s2, eps))
        ctx.states += 1
        ctx.transitions += 1
    # once more on a fresh object
    g = make(ctx, c, m, n, d1, s1, d2, s2)
    if g.epsilon != 1.1:
        ctx.fail("epsilon is %r" % g.epsilon)
    g.epsilon = eps
    g.build_edges()
    judge(ctx, g, m, n, rule(d1, s1, d2, s2, m, n, eps), "fresh %sGraph" % c)
    ctx.transitions += 1


POINTS = [(x, y) for x in (0, 1, 3) for y in (0, -2)]


def euclid(P):
    P = [[float(x) for x in (p if hasattr(p, "__len__") else [p])] for p in P]
    return [[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in P] for p in P]


def grid(ctx, i):
    P = [POINTS[x] for x in digits(i, len(POINTS), 3)]
    d1 = euclid(P)
    A = np.array(P, float)
    for j in range(0, len(POINTS) ** 3):
        Q = [POINTS[x] for x in digits(j, len(POINTS), 3)]
        if j % 5 == 4:
            Q = Q[:2]
        d2 = euclid(Q)
        g = lib.cm.A2AGraph(A, np.array(Q, float))
        for eps in (0.0, 0.5, 1.0, 1.1):
            g.epsilon = eps
            g.build_edges()
            judge(ctx, g, 3, len(Q), rule(d1, True, d2, True, 3, len(Q), eps), "points %r %r eps=%r" % (P, Q, eps))
            ctx.states += 1
            ctx.transitions += 1


def dims(ctx, d, k):
    """Default metric, alone or next to a given one, in d dimensions; also as lists."""
    cm = lib.cm
    vals = [(0,) * d, (1,) * d, tuple(range(d)), (-4,) + (0,) * (d - 1), (0,) * (d - 1) + (3,)]
    for P in itertools.product(vals, repeat=3):
        for Q in itertools.product(vals[:4], repeat=2):
            d1, d2 = euclid(P), euclid(Q)
            A, B = np.array(P, float), np.array(Q, float)
            t = table(2, True, [2])
            u = table(3, True, [1, 2, 3])
            g, want = [
                lambda: (cm.A2AGraph(A, B), (d1, d2)),
                lambda: (cm.A2AGraph(A, B, lambda s, i, j: u[i][j]), (u, d2)),
                lambda: (cm.A2LGraph(A, list(Q), None, lambda s, i, j: t[i][j]), (d1, t)),
                lambda: (cm.A2AGraph(A, B, d2=lambda s, i, j: t[i][j]), (d1, t)),
            ][k]()
            h = cm.L2AGraph(list(P), B, lambda s, i, j: u[i][j])
            for eps in (0.0, 1.0, 0.7):
                g.epsilon = h.epsilon = eps
                g.build_edges()
                h.build_edges()
                judge(ctx, g, 3, 2, rule(want[0], True, want[1], True, 3, 2, eps), "default metric %d, %r %r" % (k, P, Q))
                judge(ctx, h, 3, 2, rule(u, True, d2, True, 3, 2, eps), "L2A with default metric, %r" % (Q,))
                ctx.states += 2
                ctx.transitions += 2


def layouts(P):
    """The same points in every form an array can have."""
    P = np.array(P)
    wide = np.full((2 * len(P), 2 * P.shape[1]), 77.0)
    wide[::2, ::2] = P
    ro = np.array(P, float)
    ro.flags.writeable = False
    out = {
        "float64": np.array(P, float), "fortran": np.asfortranarray(P, float), "strided": wide[::2, ::2],
        "rows": wide[::2, : P.shape[1]] * 0 + P, "reversed": np.array(P[::-1], float)[::-1], "read-only": ro,
        "float32": P.astype(np.float32), "int64": P.astype(np.int64), "int8": P.astype(np.int8),
        "transposed": np.array(P.T, float).T, "list": P.tolist(), "tuples": [tuple(p) for p in P.tolist()],
        "big-endian": P.astype(">f8"), "matrix column": np.array(P, float)[:, [0, 1]], "float16": P.astype(np.float16),
        "object": P.astype(object), "unsigned": P.astype(np.uint64), "view": np.array(P, float)[None][0],
        "negative column stride": np.array(P[:, ::-1], float)[:, ::-1],
    }
    return out


def layout(ctx):
    P = [[0, 0], [3, 4], [6, 0], [0, 1]]
    Q = [[10, 10], [13, 14], [10, 11], [60, 2], [16, 10]]
    for e in (0.0, 1.0, 1.1):
        for (a, A), (b, B) in itertools.product(layouts(P).items(), layouts(Q).items()):
            d1, d2 = euclid(P), euclid(Q)
            want = rule(d1, True, d2, True, 4, 5, e)
            t = lambda s, i, j: float(abs(s[i][0] - s[j][0]) + abs(s[i][1] - s[j][1]))
            t1 = [[t(P, i, j) for j in range(4)] for i in range(4)]
            t2 = [[t(Q, i, j) for j in range(5)] for i in range(5)]
            wt = rule(t1, True, t2, True, 4, 5, e)
            for g, w in (
                (lib.cm.A2AGraph(A, B), want), (lib.cm.A2AGraph(A, B, t, t), wt),
                (lib.cm.A2LGraph(A, Q, t, t), wt), (lib.cm.L2AGraph(P, B, t, t), wt),
                (lib.cm.A2AGraph(A, B, t, t, False, False), wt),
            ):
                g.epsilon = e
                g.build_edges()
                judge(ctx, g, 4, 5, w, "%s and %s arrays" % (a, b))
                ctx.states += 1
                ctx.transitions += 1
    for flat in (np.array([0.0, 1.0, 4.0]), np.arange(6.0)[::2], [0, 1, 4], (5, 6), np.array([3])):
        for other in (np.array([0.0, 1.0, 4.0]), [2.0, 3.0], np.array([[0.0], [1.0]])):
            g = lib.cm.A2AGraph(flat, other)
            g.epsilon = 0.0
            g.build_edges()
            judge(ctx, g, len(flat), len(other), rule(euclid(flat), True, euclid(other), True, len(flat), len(other), 0.0), "flat arrays")
            ctx.states += 1
            ctx.transitions += 1
    # what a metric may return
    for kind in (float, int, np.float64, np.float32, np.int64, lambda v: np.array(v), bool):
        d = [[0, 1, 0], [1, 0, 1], [0, 1, 0]]
        f = lambda s, i, j: kind(d[i][j])
        g = lib.cm.L2LGraph([1, 2, 3], "abc", f, f)
        g.epsilon = 0.0
        g.build_edges()
        judge(ctx, g, 3, 3, rule(d, True, d, True, 3, 3, 0.0), "metric of another number type")
        ctx.states += 1
        ctx.transitions += 1


# tables of larger sets
SHAPES = [
    lambda n, i, j: 1.0,
    lambda n, i, j: float(abs(i - j)),
    lambda n, i, j: float(i + j),
    lambda n, i, j: float((i * j) % 3),
    lambda n, i, j: float(i < j),
    lambda n, i, j: float(n * i + j),
    lambda n, i, j: -float(n * j + i),
    lambda n, i, j: float((i - j) % n) if n else 0.0,
    lambda n, i, j: float(min(i, j) == 0),
]
SIZES = [(5, 5), (6, 7), (7, 3), (2, 12), (12, 2), (9, 9), (20, 3), (3, 20), (1, 30), (30, 1), (10, 13)]


def big(ctx, a, b, size):
    m, n = size
    d1 = [[SHAPES[a](m, i, j) for j in range(m)] for i in range(m)]
    d2 = [[SHAPES[b](n, i, j) for j in range(n)] for i in range(n)]
    for s1, s2 in itertools.product((True, False), repeat=2):
        g = make(ctx, "L2L", m, n, d1, s1, d2, s2)
        for eps in (0.0, 1.0, 2.5, 1000.0):
            g.epsilon = eps
            g.build_edges()
            judge(ctx, g, m, n, rule(d1, s1, d2, s2, m, n, eps), "structured tables %d %d of %r" % (a, b, size))
            ctx.states += 1
            ctx.transitions += 1
    if (a + b) % 3 == 0 and m > 1:
        c = CLASSES[(a + 2 * b) % 4]
        g = make(ctx, c, m, n, d1, True, d2, False)
        g.build_edges()
        judge(ctx, g, m, n, rule(d1, True, d2, False, m, n, 1.1), "structured tables of " + c)
        ctx.transitions += 1


def bignan(ctx, a, size, k):
    """Every k-th distance of the one set, of the other, or of both, is not a number."""
    m, n = size
    for w in (1, 2, 3):
        d1 = [[math.nan if w & 1 and (i * m + j) % k == 0 else SHAPES[a](m, i, j) for j in range(m)] for i in range(m)]
        d2 = [[math.nan if w & 2 and (i * n + j) % k == 1 else SHAPES[a](n, i, j) for j in range(n)] for i in range(n)]
        for s1, s2 in itertools.product((True, False), repeat=2):
            g = make(ctx, "L2L", m, n, d1, s1, d2, s2)
            for eps in (0.0, 2.5, math.inf):
                g.epsilon = eps
                g.build_edges()
                judge(ctx, g, m, n, rule(d1, s1, d2, s2, m, n, eps), "structured tables %d of %r, every %dth no number" % (a, size, k))
                ctx.states += 1
                ctx.transitions += 1


def sizes(ctx):
    """Points on a line, all pairs of sizes up to 12, default metric."""
    for m in range(1, 13):
        for n in range(1, 13):
            P, Q = list(range(m)), list(range(0, 2 * n, 2))
            g = lib.cm.A2AGraph(P, Q)
            for eps in (0.0, 1.0):
                g.epsilon = eps
                g.build_edges()
                judge(ctx, g, m, n, rule(euclid(P), True, euclid(Q), True, m, n, eps), "points on a line")
                ctx.states += 1
                ctx.transitions += 1


WIDE = [(2, 300), (300, 2), (66, 70), (130, 5), (5, 130), (257, 6), (6, 257)]


def keys(n, D1, s1, D2, s2, eps):
    """The rule for arrays of distances; edges as v1 * 2^32 + v2."""
    m = len(D1)
    up = np.triu(np.ones((n, n), bool), 1)
    if s2:
        D2 = np.where(up, D2, D2.T)
    off = up | up.T
    out = []
    for i in range(m):
        for j in range(i + 1, m):
            ok = np.abs(D2 - D1[i, j]) <= eps
            if s1 and not s2:
                ok |= np.abs(D2.T - D1[i, j]) <= eps
            elif s2 and not s1:
                ok |= np.abs(D2 - D1[j, i]) <= eps
            elif not s1:
                ok |= np.abs(D2.T - D1[j, i]) <= eps
            a, b = np.nonzero(ok & off)
            if len(a):
                out.append((i * n + a + 1 << 32) + j * n + b + 1)
    return np.sort(np.concatenate(out)) if out else np.zeros(0, int)


def judge_keys(ctx, g, m, n, want, what):
    e = np.sort(np.asarray(g.to_edgelist()).astype(np.int64), 1)
    got = np.sort((e[:, 0] << 32) + e[:, 1])
    if g.n_vertices != m * n or g.n_edges != len(want) or not np.array_equal(got, want):
        ctx.fail("%s: %d vertices, %d edges instead of %d" % (what, g.n_vertices, g.n_edges, len(want)))
    ctx.states += 1
    ctx.transitions += 1


def wide(ctx, x, shape):
    """Sets of more elements than fit one or two bytes of an index."""
    m, n = WIDE[x]
    f = SHAPES[shape]
    D1 = np.array([[f(m, i, j) for j in range(m)] for i in range(m)])
    D2 = np.array([[f(n, i, j) for j in range(n)] for i in range(n)])
    for s1, s2 in itertools.product((True, False), repeat=2):
        g = make(ctx, "L2L", m, n, D1, s1, D2, s2)
        for eps in (0.0, 1.0):
            want = keys(n, D1, s1, D2, s2, eps)
            if len(want) > 2000000:
                continue
            g.epsilon = eps
            g.build_edges()
            judge_keys(ctx, g, m, n, want, "%d x %d elements, tables %d, %r %r, epsilon %r" % (m, n, shape, s1, s2, eps))


def wide_points(ctx):
    """More than 65536 matches of points on a line."""
    for m, n in ((260, 257), (257, 260), (300, 5)):
        P, Q = np.arange(m) ** 2 * 1.0, (np.arange(n) ** 2 + 3 * np.arange(n)) * 1.0
        D1, D2 = np.abs(P[:, None] - P), np.abs(Q[:, None] - Q)
        g = lib.cm.A2AGraph(P, Q)
        g.epsilon = 0.0
        g.build_edges()
        judge_keys(ctx, g, m, n, keys(n, D1, True, D2, True, 0.0), "%d x %d points" % (m, n))


def run(case, ctx):
    {"wide": wide, "points": wide_points, "tab": tab, "grid": grid, "dims": dims, "layout": layout, "big": big, "sizes": sizes, "bignan": bignan}[case[0]](ctx, *case[1:])
