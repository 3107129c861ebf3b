"""AlignGraph's rotation and translation from the real code: every sequence of two
to four points of a grid under every angle of a table (all multiples of 15 degrees,
angles just off the axes, Pythagorean ones) and several translations; every two
sequences of two and three points of a smaller grid matched point by point whether
or not one is a rotation of the other (mirror images, collinear, equal points);
every order of the matches; single matches; all output paths; up to 257 points.  Oracle: the closed
form of the best rotation in the plane, and the residual it leaves.  State = two matched
sequences; transition = one call; trace = one group of sequences."""
import itertools
import math
import warnings

import numpy as np

from .. import lib

ASSUMPTIONS = ["numbers are compared within 1e-7", "where every rotation fits equally well, any proper one is accepted"]
warnings.simplefilter("ignore")
GRID = [(x, y) for x in (0, 1, 3) for y in (0, 1, 2)]
SIX = [(0, 0), (1, 0), (3, 0), (0, 2), (1, 2), (-2, 1)]
ANGLES = [math.radians(15 * k) for k in range(-12, 13)] + [math.radians(x) for x in (1e-3, -1e-3, 89.999, 90.001, -89.999, 179.999, -179.999)]
ANGLES += [math.atan2(s * a, t * b) for a, b in ((3, 4), (5, 12)) for s in (1, -1) for t in (1, -1)]
MOVES = [(0, 0), (5, -7), (-0.5, 1000)]
TOL = 1e-7


def blocks(tier):
    b = []
    for i in range(len(GRID)):
        b.append(["exact", 2, i])
        b.append(["exact", 3, i])
        if tier == "thorough":
            b.append(["exact", 4, i])
    b += [["exact4", i] for i in range(0, 126, 14)]
    for i in range(36):
        b.append(["fit3", i])
    b += [["fit2", i] for i in range(6)]
    b += [["orders"], ["single"], ["paths"]] + [["long", i] for i in range(len(ANGLES))]
    b += [["wide", i] for i in range(0, len(ANGLES), 3)]
    return b


def cases(block):
    k = block[0]
    if k == "exact":
        for rest in itertools.product(range(len(GRID)), repeat=block[1] - 1):
            yield ("exact", (block[2],) + rest)
    elif k == "exact4":
        for c in list(itertools.combinations(range(len(GRID)), 4))[block[1]:block[1] + 14]:
            yield ("exact", c)
    elif k == "fit3":
        for z in range(6):
            yield ("fit", (block[1] // 6, block[1] % 6, z))
    elif k == "fit2":
        for z in range(6):
            yield ("fit", (block[1], z))
    else:
        yield tuple(block)


def turn(p, t, move):
    c, s = math.cos(t), math.sin(t)
    return (p[0] * c + p[1] * s + move[0], -p[0] * s + p[1] * c + move[1])


def best(P, Q):
    """(angle or None, least sum of squares) over proper rotations."""
    n = len(P)
    mp = [sum(p[i] for p in P) / n for i in (0, 1)]
    mq = [sum(q[i] for q in Q) / n for i in (0, 1)]
    a = b = s = 0.0
    for p, q in zip(P, Q):
        px, py, qx, qy = p[0] - mp[0], p[1] - mp[1], q[0] - mq[0], q[1] - mq[1]
        a += px * qx + py * qy
        b += qx * py - qy * px
        s += px * px + py * py + qx * qx + qy * qy
    r = math.hypot(a, b)
    return (math.atan2(b, a) if r > 1e-9 * max(1.0, s) else None), s - 2 * r


def judge(ctx, d, P, Q, what, angle=None):
    """d: the answer for matched points P and Q."""
    if set(d) != {"S1", "S2", "theta", "dx", "dy", "rotmat"}:
        ctx.fail("%s: keys %r" % (what, sorted(d)))
    got = sorted(zip(map(tuple, d["S1"].tolist()), map(tuple, d["S2"].tolist())))
    if got != sorted(zip([tuple(map(float, p)) for p in P], [tuple(map(float, q)) for q in Q])):
        ctx.fail("%s: matched points %r" % (what, got))
    R, T = np.array(d["rotmat"]), np.array([d["dx"], d["dy"]], float)
    size = 1.0 + max(abs(x) for p in list(P) + list(Q) for x in p)
    if R.shape != (2, 2) or not np.allclose(R @ R.T, np.eye(2), atol=TOL) or abs(np.linalg.det(R) - 1) > TOL:
        ctx.fail("%s: %r is not a rotation" % (what, R.tolist()))
    t, cost = best(P, Q)
    left = np.asarray(P, float) @ R + T - np.asarray(Q, float)
    if abs(float((left ** 2).sum()) - cost) > TOL * size * size:
        ctx.fail("%s: R=%r, T=%r leaves %r; the best is %r" % (what, R.tolist(), T.tolist(), float((left ** 2).sum()), cost))
    th = float(d["theta"])
    if not -math.pi - TOL <= th <= math.pi + TOL or abs(math.sin(th) - R[1, 0]) > TOL or abs(math.cos(th) - R[0, 0]) > TOL:
        ctx.fail("%s: theta=%r for R=%r" % (what, th, R.tolist()))
    if t is not None and (abs(math.sin(th) - math.sin(t)) > 1e-6 or abs(math.cos(th) - math.cos(t)) > 1e-6):
        ctx.fail("%s: theta=%r, the best is %r" % (what, th, t))
    if angle is not None:
        if len(set(map(tuple, P))) > 1 and (abs(math.sin(th) - math.sin(angle)) > 1e-6 or abs(math.cos(th) - math.cos(angle)) > 1e-6):
            ctx.fail("%s: theta=%r, the points were turned by %r" % (what, th, angle))
        if np.abs(left).max() > TOL * size:
            ctx.fail("%s: S1*R+T misses S2 by %r" % (what, left.tolist()))
    ctx.states += 1
    ctx.transitions += 1


def matched(P, Q, pairs):
    """An AlignGraph of P and Q whose only matches are the pairs of indices."""
    g = lib.cm.AlignGraph(np.array(P, float), np.array(Q, float))
    ok = set(pairs)
    g.build_edges_with_condition(lambda s1, i, j, s2, a, b: (i, a) in ok and (j, b) in ok, True)
    return g


def run(case, ctx):
    k = case[0]
    if k == "exact":
        P = [GRID[i] for i in case[1]]
        n = len(P)
        for t in ANGLES:
            for mv in MOVES if n < 4 else MOVES[1:2]:
                Q = [turn(p, t, mv) for p in P]
                g = matched(P, Q, [(i, i) for i in range(n)])
                judge(ctx, g.get_correspondence(return_indices=False), P, Q, "points %r turned by %r, moved by %r" % (P, t, mv), t)
    elif k == "fit":
        P = [SIX[i] for i in case[1]]
        n = len(P)
        for q in itertools.product(SIX, repeat=n):
            g = matched(P, q, [(i, i) for i in range(n)])
            judge(ctx, g.get_correspondence(return_indices=False), P, q, "points %r and %r" % (P, q))
    elif k == "orders":
        P = [(0, 0), (4, 1), (2, 5), (7, 7)]
        for t in ANGLES[::3]:
            for perm in itertools.permutations(range(4)):
                Q = [None] * 4
                for i, a in enumerate(perm):
                    Q[a] = turn(P[i], t, (3, 2))
                for drop in (None, 0, 3):
                    pairs = [(i, a) for i, a in enumerate(perm) if i != drop]
                    g = matched(P, Q + [(50, 50)], pairs)
                    d = g.get_correspondence(return_indices=False)
                    judge(ctx, d, [P[i] for i, _ in pairs], [Q[a] for _, a in pairs], "order %r" % (perm,), t)
                    ix = g.get_correspondence()
                    if sorted(zip(*ix)) != sorted(pairs):
                        ctx.fail("indices %r of matches %r" % (ix, pairs))
    elif k == "single":
        for p, q in itertools.product(SIX, repeat=2):
            g = matched([p, (9, 9)], [(8, 8), q, (7, 7)], [(0, 1)])
            for d in g.all_correspondences(1, False):
                judge(ctx, d, [tuple(d["S1"][0])], [tuple(d["S2"][0])], "a single match")
                ctx.outcome(round(float(d["theta"]), 6))
    elif k == "paths":
        # every enumeration and argument; distances instead of a condition
        P = [(0, 0), (4, 1), (2, 5)]
        for t in ANGLES:
            Q = [turn(p, t, (-4, 6)) for p in P] + [(100, 100)]
            g = matched(P, Q, [(i, i) for i in range(3)])
            for size in (1, 2, 3):
                ds = list(g.all_correspondences(size, False))
                ix = list(g.all_correspondences(size))
                if len(ds) != len(ix) or (size > 1 and len(ds) != (3 if size == 2 else 1)):
                    ctx.fail("%d enumerated alignments of %d matches" % (len(ds), size))
                for d in ds:
                    judge(ctx, d, [tuple(x) for x in d["S1"]], [tuple(x) for x in d["S2"]], "enumerated")
                if size > 1:
                    for d in ds:
                        if abs(math.sin(float(d["theta"])) - math.sin(t)) > 1e-6 or abs(math.cos(float(d["theta"])) - math.cos(t)) > 1e-6:
                            ctx.fail("enumerated alignment turned by %r, not %r" % (d["theta"], t))
            for kw in (dict(upper_bound=2), dict(use_dfs=False), dict(use_heuristic=False), dict(lower_bound=2), dict(continue_search=True)):
                g.reset_search()
                d = g.get_correspondence(return_indices=False, **kw)
                judge(ctx, d, [tuple(x) for x in d["S1"]], [tuple(x) for x in d["S2"]], "get_correspondence(%r)" % kw)
            h = lib.cm.AlignGraph(np.array(P, float), np.array(Q, float))
            h.epsilon = 1e-6
            h.build_edges()
            judge(ctx, h.get_correspondence(return_indices=False), P, Q[:3], "matches by distance", t)
            f = lib.cm.AlignGraph(P, Q)
            f.epsilon = 1e-6
            f.build_edges_with_filter([(0.5, 0.5)], np.ones((300, 300), bool), 0.0)
            judge(ctx, f.get_correspondence(return_indices=False), P, Q[:3], "matches by distance and filter", t)
    elif k == "wide":
        for n in (66, 130, 257):
            P = [(7.13 * i + 0.31 * i * i, 3.7 * i - 0.017 * i**3) for i in range(n)]
            for t in ANGLES[case[1]:case[1] + 1]:
                Q = [turn(p, t, (5, -7)) for p in P]
                h = lib.cm.AlignGraph(np.array(P, float), np.array(Q[1:] + Q[:1], float))
                h.epsilon = 1e-7
                h.build_edges()
                judge(ctx, h.get_correspondence(return_indices=False), P, Q, "%d points by distance" % n, t)
    else:
        for n in (5, 8, 20):
            P = [((7 * i) % 23 + 0.25 * (i % 3), (11 * i) % 19) for i in range(n)]
            for t in ANGLES[case[1]:case[1] + 1]:
                for mv in MOVES:
                    Q = [turn(p, t, mv) for p in P]
                    g = matched(P, Q, [(i, i) for i in range(n)])
                    judge(ctx, g.get_correspondence(return_indices=False), P, Q, "%d points" % n, t)
                    # shaken
                    Q = [(x + ((i * 5) % 7 - 3) / 50, y + ((i * 3) % 5 - 2) / 40) for i, (x, y) in enumerate(Q)]
                    g = matched(P, Q, [(i, i) for i in range(n)])
                    judge(ctx, g.get_correspondence(return_indices=False), P, Q, "%d points, shaken" % n)
