"""AlignGraph's filter on the real code: every two points of a 3x3 grid as S1 and as S2
with every 2x3 mask; every three and two points of a smaller grid with every
3x2 mask; single-cell masks of every shape up to 4x4; every fraction at, below and
above each possible score of 1 to 5 control points; epsilons that admit other scales;
the mask and points in every memory layout; single cells of masks with up to 66000 rows or
columns; larger sets.  The MaskFilter class runs on
the same inputs.  Oracle: the similarity in exact rational arithmetic; a pair is
left open if a control point comes within 1/500 of a cell border.  State = one set
of arguments; transition = one build; trace = one group of arguments."""
import itertools
import math
import warnings
from fractions import Fraction as Q

import numpy as np

from .. import lib
from . import c12

ASSUMPTIONS = [
    "control points that come within 1/500 of the border of a cell are not judged",
    "coordinates between -1 and 0 truncate to 0, and empty sets of control points are not tried",
]
warnings.simplefilter("ignore")
GRID = [(x, y) for x in (0, 1, 2) for y in (0, 1, 2)]
SMALL = [(0, 0), (1, 0), (0, 2), (2, 1)]
CONTROL = [(0.37, 0.61), (1.21, 0.43), (1.68, 1.34), (0.52, 1.77), (2.29, 0.18)]


def blocks(tier):
    b = []
    for i in range(len(GRID) ** 2):
        b.append(["two", i])
    for i in range(len(SMALL) ** 3):
        b.append(["three", i])
    for k in (1, 2, 3, 4, 5):
        b.append(["fraction", k])
    for r in (1, 2, 3, 4):
        for c in (1, 2, 3, 4):
            b.append(["cell", r, c])
    b += [["layout"], ["scale"], ["many"]]
    for s in ((300, 3), (3, 300), (70, 70), (66000, 1), (1, 66000)):
        b.append(["far", *s])
    if tier == "thorough":
        for i in range(len(GRID) ** 2):
            b.append(["deep", i])
    return b


def cases(block):
    k = block[0]
    if k in ("two", "deep"):
        for j in range(len(GRID) ** 2):
            yield (k, block[1], j)
    elif k == "three":
        for j in range(len(SMALL) ** 2):
            yield (k, block[1], j)
    elif k == "many":
        for i in range(12):
            yield (k, i)
    else:
        yield tuple(block)


def similarity(p, q, r, s):
    """Complex (w, c) with w*r+c=p and w*s+c=q, exact; None if r = s."""
    dx, dy = r[0] - s[0], r[1] - s[1]
    den = dx * dx + dy * dy
    if den == 0:
        return None
    ex, ey = p[0] - q[0], p[1] - q[1]
    wx, wy = Q(ex * dx + ey * dy) / den, Q(ey * dx - ex * dy) / den
    return wx, wy, p[0] - (wx * r[0] - wy * r[1]), p[1] - (wy * r[0] + wx * r[1])


def cell(v):
    """Truncated coordinate, None if too near to a border."""
    f = math.floor(v)
    if min(v - f, f + 1 - v) < Q(1, 500):
        return None
    return f if f >= 0 else (0 if f == -1 else -1)


def landings(p, q, r, s, control):
    """Cells (column, row) of the control points, or None."""
    t = similarity(p, q, r, s)
    if t is None:
        return None
    a, b, c, d = t
    return [(cell(a * x - b * y + c), cell(b * x + a * y + d)) for x, y in control]


def exact(pts):
    return [tuple(Q(float(v)) for v in p) for p in pts]


class Judge:
    """What the filter has to do with one pair of point sets and control points."""

    def __init__(self, S1, S2, control):
        self.m, self.n, self.k = len(S1), len(S2), len(control)
        A, B, C = exact(S1), exact(S2), exact([c[:2] for c in control])
        self.d1, self.d2 = c12.euclid(S1), c12.euclid(S2)
        self.land = {}
        for i, j in itertools.combinations(range(self.m), 2):
            for a, b in itertools.permutations(range(self.n), 2):
                self.land[i, a, j, b] = landings(A[i][:2], A[j][:2], B[a][:2], B[b][:2], C)

    def sets(self, eps, mask, fraction):
        """(edges that must be there, edges that may be)"""
        near = c12.rule(self.d1, True, self.d2, True, self.m, self.n, eps)
        rows, cols = len(mask), len(mask[0])
        must, may = set(), set()
        for (i, a, j, b), land in self.land.items():
            e = (i * self.n + a + 1, j * self.n + b + 1)
            if e not in near:
                continue
            if land is None:
                if fraction <= 0:
                    may.add(e)
                continue
            hit = open_ = 0
            for x, y in land:
                if x is None or y is None:
                    open_ += 1
                elif 0 <= x < cols and 0 <= y < rows and mask[y][x]:
                    hit += 1
            if hit / self.k >= fraction:
                must.add(e)
            elif (hit + open_) / self.k >= fraction:
                may.add(e)
        return must, must | may


def check(ctx, g, j, control, mask, fraction, eps, what, both=True, form=lambda c, m: (c, m)):
    must, may = j.sets(eps, mask, fraction)
    C, M = np.array(control, float), np.array(mask, bool)
    g.epsilon = eps
    g.build_edges_with_filter(*form(C, M), fraction)
    got = c12.got_edges(g)
    if g.n_vertices != j.m * j.n or not must <= got <= may or g.n_edges != len(got):
        ctx.fail("%s: edges %r, not %r (open: %r)" % (what, sorted(got), sorted(must), sorted(may - must)))
    ctx.states += 1
    ctx.transitions += 1
    ctx.outcome("some edges" if must else "no edge")
    if both:
        g.build_edges_with_condition(lib.cm.wrappers.aligngraph.MaskFilter(C, M, fraction), False)
        got = c12.got_edges(g)
        if not must <= got <= may:
            ctx.fail("%s with MaskFilter: edges %r, not %r (open: %r)" % (what, sorted(got), sorted(must), sorted(may - must)))
        ctx.transitions += 1


def masks(rows, cols):
    for t in range(1 << rows * cols):
        yield [[bool(t >> (r * cols + c) & 1) for c in range(cols)] for r in range(rows)]


def align(S1, S2):
    return lib.cm.AlignGraph(np.array(S1, float), np.array(S2, float))


def run(case, ctx):
    k = case[0]
    if k in ("two", "deep"):
        S1 = [GRID[case[1] // 9], GRID[case[1] % 9]]
        S2 = [GRID[case[2] // 9], GRID[case[2] % 9]]
        g = align(S1, S2)
        for control in (CONTROL[:2],) if k == "two" else (CONTROL[:1], CONTROL[1:4], CONTROL):
            j = Judge(S1, S2, control)
            for eps in (0.5,) if k == "two" else (0.0, 1.1, 5.0):
                if not c12.rule(j.d1, True, j.d2, True, 2, 2, eps):
                    check(ctx, g, j, control, [[True] * 3] * 2, 0.5, eps, "AlignGraph(%r, %r)" % (S1, S2))
                    continue
                for t, mask in enumerate(masks(2, 3)):
                    for fr in (0.5, 1.0) if k == "two" else (0.3, 0.6, 0.9):
                        check(ctx, g, j, control, mask, fr, eps, "AlignGraph(%r, %r), mask %r, fraction %r, epsilon %r" % (S1, S2, mask, fr, eps), both=k == "deep" or t % 4 == 3)
    elif k == "three":
        S1 = [SMALL[x] for x in c12.digits(case[1], 4, 3)]
        S2 = [SMALL[x] for x in c12.digits(case[2], 4, 2)]
        for S1, S2 in ((S1, S2), (S2, S1)):
            g, j = align(S1, S2), Judge(S1, S2, CONTROL[1:4])
            for t, mask in enumerate(masks(3, 2)):
                check(ctx, g, j, CONTROL[1:4], mask, 0.4, 1.1, "AlignGraph(%r, %r), mask %r" % (S1, S2, mask), both=t % 8 == 7)
    elif k == "fraction":
        control = CONTROL[: case[1]]
        S1, S2 = [(0, 0), (2, 1), (1, 2)], [(0, 0), (2, 1), (1, 2), (3, 3)]
        g, j = align(S1, S2), Judge(S1, S2, control)
        for mask in masks(2, 3):
            for h in range(case[1] + 1):
                v = h / case[1]
                for fr in (v, np.nextafter(v, 2), np.nextafter(v, -1), v - 0.01, v + 0.01):
                    # the class refuses equal points whatever the fraction, but there are none
                    check(ctx, g, j, control, mask, float(fr), 0.5, "mask %r, fraction %r" % (mask, fr), both=False)
        for fr in (-1.0, 0.0, 1.0, 1.5, 1e9):
            check(ctx, g, j, control, [[True] * 4] * 4, fr, 0.5, "fraction %r" % fr)
    elif k == "cell":
        rows, cols = case[1:]
        S = [(0, 0), (1, 0), (0, 1), (1, 1)]
        for x, y in itertools.product(range(-1, 5), repeat=2):
            control = [(x + 0.5, y + 0.25)]
            g, j = align(S[:2], S), Judge(S[:2], S, control)
            for r, c in itertools.product(range(rows), range(cols)):
                mask = [[(a, b) == (r, c) for b in range(cols)] for a in range(rows)]
                check(ctx, g, j, control, mask, 1.0, 0.5, "%dx%d mask, cell (%d, %d), control %r" % (rows, cols, r, c, control))
    elif k == "far":
        # single cells of masks with many rows or columns
        rows, cols = case[1:]
        S = [(0, 0), (1, 0), (0, 1), (1, 1)]
        at = lambda n: sorted({0, 1, 63, 64, 65, 255, 256, 257, 65535, 65536, n - 2, n - 1} & set(range(n)))
        for r, c in itertools.product(at(rows), at(cols)):
            control = [(c + 0.5, r + 0.25)]
            j = Judge(S[:2], S[:3], control)
            g = align(S[:2], S[:3])
            for dr, dc in ((0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (256, 0), (0, 256), (64, 0), (0, 64)):
                if 0 <= r + dr < rows and 0 <= c + dc < cols:
                    M = np.zeros((rows, cols), bool)
                    M[r + dr, c + dc] = True
                    check(ctx, g, j, control, M, 1.0, 0.5, "%dx%d mask, cell (%d, %d), control %r" % (rows, cols, r + dr, c + dc, control))
    elif k == "layout":
        S1, S2 = [[0, 0], [2, 1], [1, 2]], [[0, 0], [1, 2], [3, 3], [2, 1]]
        j = Judge(S1, S2, CONTROL[:3])
        mask = [[True, False, True, True], [False, True, True, False], [True, True, False, True]]
        for e in (0.5, 1.1):
            for (a, A), (b, B) in itertools.product(c12.layouts(S1).items(), c12.layouts(S2).items()):
                g = lib.cm.AlignGraph(A, B)
                check(ctx, g, j, CONTROL[:3], mask, 0.5, e, "%s and %s arrays" % (a, b))
            for form in (
                lambda c, m: (np.asfortranarray(c), m), lambda c, m: (c, np.asfortranarray(m)), lambda c, m: (c.tolist(), m),
                lambda c, m: (c, m.tolist()), lambda c, m: (c, m.astype(int)), lambda c, m: (c, m.astype(np.uint8) * 255),
                lambda c, m: (c[::-1], m), lambda c, m: (c, np.repeat(m, 2, 1)[:, ::2]), lambda c, m: (c, m.astype(float)),
                lambda c, m: (np.repeat(c, 2, 0)[::2], m), lambda c, m: (np.repeat(c, 3, 0), m),
            ):
                check(ctx, align(S1, S2), j, CONTROL[:3], mask, 0.5, e, "another form of mask or control points", form=form)
            g = align(S1, S2)
            g.epsilon = e
            g.build_edges()
            c12.judge(ctx, g, 3, 4, c12.rule(j.d1, True, j.d2, True, 3, 4, e), "AlignGraph.build_edges")
    elif k == "scale":
        # epsilon admits other scales, and points with a third coordinate
        for S2 in itertools.product(SMALL + [(4, 4)], repeat=2):
            for S1 in itertools.product(SMALL, repeat=2):
                g, j = align(S1, S2), Judge(S1, S2, CONTROL)
                for eps in (2.0, 100.0):
                    for fr in (0.2, 0.6):
                        for mask in ([[True] * 3] * 3, [[True, False, True]] * 2, [[False, True]] * 4):
                            check(ctx, g, j, CONTROL, mask, fr, eps, "AlignGraph(%r, %r), epsilon %r" % (S1, S2, eps))
        S1, S2 = [(0, 0, 5), (2, 1, 6), (1, 2, 5)], [(0, 0, 1), (2, 1, 2), (1, 2, 8)]
        for eps in (0.5, 3.0):
            check(ctx, align(S1, S2), Judge(S1, S2, CONTROL), CONTROL, [[True] * 3, [False, True, True]], 0.4, eps, "three columns")
    else:
        # larger sets: rotated and shifted copies, one mask each
        i = case[1]
        base = [(0, 0), (7, 1), (3, 5), (9, 9), (2, 8), (6, 6), (1, 4)][: 4 + i % 4]
        rot = [(x, y) for x, y in base]
        for _ in range(i % 3):
            rot = [(12 - y, x) for x, y in rot]
        control = [(x + 0.4, y + 0.7) for x in range(0, 9, 3) for y in range(0, 9, 4)]
        mask = [[(r * 3 + c * (i + 2)) % 5 != 0 for c in range(13)] for r in range(11)]
        g, j = align(base, rot[: 3 + i % 5]), Judge(base, rot[: 3 + i % 5], control)
        for eps in (0.0, 0.5, 1.1):
            for fr in (0.25, 0.5, 0.75, 0.8, 1.0):
                check(ctx, g, j, control, mask, fr, eps, "larger sets %d, epsilon %r, fraction %r" % (i, eps, fr))
