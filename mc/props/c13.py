"""Condition functions, called by the real code: every truth table of a condition
that does not depend on the order of its two matches, for sets of 2x2, 2x3, 3x2, 2x4,
4x2 and 3x3 elements, alone; every truth table of the smaller ones crossed with
every metric table over a small alphabet, symmetry flags and epsilon; all classes;
an exception of every kind at every single call of the condition or a metric, on an
object that was built before or not; a condition that uses graphs meanwhile; structured
conditions for sets of up to 300 elements.
Oracle: the table and the distance rule evaluated on every pair of matches; every call
is checked.  State = one set of tables, or one failing call; transition = one build;
trace = one group of tables."""
import itertools
import warnings

import numpy as np

from .. import lib
from . import c12

ASSUMPTIONS = ["conditions give the same answer for (i1, i2, j1, j2) and (i2, i1, j2, j1)"] + c12.ASSUMPTIONS
warnings.simplefilter("ignore")
CLASSES = ("A2A", "A2L", "L2A", "L2L", "Align")


def pairs(m, n):
    """All pairs of matches with different elements."""
    return [
        (i, a, j, b)
        for i, j in itertools.combinations(range(m), 2)
        for a, b in itertools.permutations(range(n), 2)
    ]


def blocks(tier):
    b = []
    for c in CLASSES:
        for m, n in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
            b.append(["only", c, m, n, 0, 1 << len(pairs(m, n))])
        b.append(["kinds", c])
        b.append(["reuse", c])
    for m, n in ((2, 4), (4, 2)):
        for lo in range(0, 4096, 512):
            b.append(["only", "L2L", m, n, lo, lo + 512])
    for lo in range(0, 1 << 18, 1 << 12):
        b.append(["only", "L2L", 3, 3, lo, lo + (1 << 12)])
        if tier == "thorough":
            b.append(["only", "A2A", 3, 3, lo, lo + (1 << 12)])
    for c in ("A2A", "A2L", "L2A", "L2L"):
        for m, n in ((2, 2), (2, 3), (3, 2)):
            for s1, s2 in itertools.product((True, False), repeat=2):
                for eps in (0.0, 1.0):
                    if c == "L2L" or m + n < 5 or (s1 and s2):
                        b.append(["both", c, m, n, s1, s2, eps])
    for c in ("A2A", "A2L", "L2A", "L2L"):
        for m, n in ((2, 2), (2, 3), (3, 2), (3, 3)):
            b.append(["fault", c, m, n])
    b.append(["large"])
    for m, n in ((2, 300), (300, 2), (66, 10), (10, 66), (257, 3)):
        for r in range(3):
            b.append(["wide", m, n, r])
    return b


def cases(block):
    k = block[0]
    if k == "only":
        step = 64
        for lo in range(block[4], block[5], step):
            yield ("only",) + tuple(block[1:4]) + (lo, min(lo + step, block[5]))
    elif k == "both":
        _, c, m, n, s1, s2, eps = block
        for t in range(2 ** c12.ntab(m, s1)):
            yield ("both", c, m, n, s1, s2, eps, t)
    elif k == "fault":
        for built in (False, True):
            for only in (None, False, True):
                for e in range(len(EXC)):
                    yield ("fault",) + tuple(block[1:]) + (built, only, e)
    else:
        yield tuple(block)


class Cond:
    """A condition given by a set of accepted pairs of matches; checks its calls."""

    def __init__(self, ctx, g, m, n, acc, kind=bool):
        self.ctx, self.m, self.n, self.acc, self.kind = ctx, m, n, acc, kind
        self.S1, self.S2 = g.S1, g.S2
        self.calls = 0

    def same(self, s, t):
        return s is t or (isinstance(t, np.ndarray) and s.shape == t.shape and (s == t).all())

    def __call__(self, s1, i, j, s2, a, b):
        self.calls += 1
        if not (0 <= i < self.m and 0 <= j < self.m and 0 <= a < self.n and 0 <= b < self.n) or i == j or a == b:
            self.ctx.fail("the condition was called with %r of %d x %d elements" % ((i, j, a, b), self.m, self.n))
        if not self.same(s1, self.S1) or not self.same(s2, self.S2):
            self.ctx.fail("the condition was called with other sets: %r, %r" % (s1, s2))
        return self.kind(((i, a, j, b) if i < j else (j, b, i, a)) in self.acc)


def edges(n, acc):
    return {tuple(sorted((i * n + a + 1, j * n + b + 1))) for i, a, j, b in acc}


def make(ctx, c, m, n, d1=None, s1=True, d2=None, s2=True):
    if c == "Align":
        return lib.cm.AlignGraph(np.arange(2.0 * m).reshape(m, 2), np.arange(2.0 * n).reshape(n, 2) * 3)
    z = lambda k, sym: c12.table(k, sym, [0.0] * c12.ntab(k, sym))
    return c12.make(ctx, c, m, n, d1 or z(m, s1), s1, d2 or z(n, s2), s2)


def only(ctx, c, m, n, lo, hi):
    ps = pairs(m, n)
    g = make(ctx, c, m, n)
    for t in range(lo, hi):
        acc = {p for x, p in enumerate(ps) if t >> x & 1}
        f = Cond(ctx, g, m, n, acc)
        if g.build_edges_with_condition(f, True) is not True:
            ctx.fail("build_edges_with_condition did not return True")
        c12.judge(ctx, g, m, n, edges(n, acc), "%sGraph, condition only, %r" % (c, sorted(acc)))
        ctx.states += 1
        ctx.transitions += 1
    g = make(ctx, c, m, n)
    f = Cond(ctx, g, m, n, acc)
    g.build_edges_with_condition(condition_func=f, use_cfunc_only=True)
    c12.judge(ctx, g, m, n, edges(n, acc), "fresh %sGraph, condition only" % c)


def both(ctx, c, m, n, s1, s2, eps, t):
    ps = pairs(m, n)
    k = 2 if eps == 0.0 else 3
    d1 = c12.table(m, s1, [v * (1 if k == 2 else 2) for v in c12.digits(t, 2, c12.ntab(m, s1))])
    g = make(ctx, c, m, n, d1, s1, None, s2)
    g.epsilon = eps
    for u in range(2 ** c12.ntab(n, s2)):
        d2 = c12.table(n, s2, [v * (1 if k == 2 else 3) for v in c12.digits(u, 2, c12.ntab(n, s2))])
        g.d2.d = d2
        near = c12.rule(d1, s1, d2, s2, m, n, eps)
        for x in range(1 << len(ps)):
            acc = {p for y, p in enumerate(ps) if x >> y & 1}
            f = Cond(ctx, g, m, n, acc)
            g.build_edges_with_condition(f, False)
            c12.judge(ctx, g, m, n, near & edges(n, acc), "%sGraph %r %r %r %r eps=%r with condition %r" % (c, d1, s1, d2, s2, eps, acc))
            ctx.states += 1
            ctx.transitions += 1


class Odd(Exception):
    pass


EXC = [ValueError, KeyError, StopIteration, Odd, KeyboardInterrupt, GeneratorExit, RuntimeError, MemoryError]


def state(g):
    """What an object answers; None if nothing is built."""
    try:
        return (g.n_vertices, g.n_edges, g.search_done, sorted(map(tuple, g.to_edgelist().tolist())), sorted(map(tuple, g.all_cliques(2))))
    except RuntimeError:
        return None


def fault(ctx, c, m, n, built, only_c, e):
    """An exception at the k-th call of the user's functions, for every k."""
    exc = EXC[e]
    d = [[float((i + j) % 2) for j in range(4)] for i in range(4)]
    k = 0
    while True:
        g = make(ctx, c, m, n)
        if built:
            g.d1.d = g.d2.d = d
            g.epsilon = 0.0
            g.build_edges()
            g.get_max_clique()
        before = state(g)
        it = None
        if built and g.n_edges:
            it = g.all_cliques(2)
            total = len(list(g.all_cliques(2)))
            next(it)
        left = [k]
        d1, d2 = g.d1, g.d2

        def counted(f):
            def call(*a):
                if left[0] == 0:
                    left[0] = -1
                    raise exc("call %d" % k)
                left[0] -= 1
                return f(*a)

            return call

        acc = set(pairs(m, n)[::2])
        cond = counted(Cond(ctx, g, m, n, acc))
        g.d1, g.d2 = counted(d1), counted(d2)
        try:
            if only_c is None:
                g.build_edges()
            else:
                g.build_edges_with_condition(cond, only_c)
        except BaseException as x:
            if left[0] != -1 or type(x) is not exc or "call %d" % k not in str(x):
                ctx.fail("%sGraph: call %d raised %r, the caller got %r" % (c, k, exc, x))
            if state(g) != before:
                ctx.fail("%sGraph: a failing function changed the object: %r, %r" % (c, before, state(g)))
            if it is not None and len(list(it)) != total - 1:
                ctx.fail("%sGraph: a failing function disturbed an iterator" % c)
            g.d1, g.d2 = d1, d2
            g.build_edges_with_condition(Cond(ctx, g, m, n, acc), True)
            c12.judge(ctx, g, m, n, edges(n, acc), "%sGraph after a failing function" % c)
            ctx.states += 1
            ctx.transitions += 2
            ctx.outcome(exc.__name__)
            k += 1
            continue
        if left[0] == -1:
            ctx.fail("%sGraph: an exception at call %d was lost" % (c, k))
        break
    if k == 0 and n > 1 and m > 1:
        ctx.fail("no function was called")


def kinds(ctx, c):
    """Kinds of truth values and of callables."""
    m, n = 2, 3
    acc = set(pairs(m, n)[::3])
    for kind in (bool, int, np.bool_, lambda v: np.int64(v), lambda v: float(v), lambda v: True if v else None):
        g = make(ctx, c, m, n)
        try:
            g.build_edges_with_condition(Cond(ctx, g, m, n, acc, kind), True)
        except RuntimeError:
            # a value that is not a bool may be refused
            if kind in (bool, np.bool_):
                raise
            continue
        c12.judge(ctx, g, m, n, edges(n, acc), "truth value of another type")
        ctx.states += 1
        ctx.transitions += 1
    g = make(ctx, c, m, n)
    f = Cond(ctx, g, m, n, acc)
    for call in (f.__call__, lambda *a: f(*a), lambda s1, i, j, s2, a, b: f(s1, i, j, s2, a, b)):
        g.build_edges_with_condition(call, True)
        c12.judge(ctx, g, m, n, edges(n, acc), "another kind of callable")
        ctx.states += 1
        ctx.transitions += 1
    if g.build_edges_with_condition(lambda *a: True, 1) is not True or g.n_edges != len(pairs(m, n)):
        ctx.fail("use_cfunc_only=1")


def reuse(ctx, c):
    """The condition uses graphs, this one included, while edges are built."""
    m, n = 3, 3
    g = make(ctx, c, m, n)
    accs = [set(pairs(m, n)[::k]) for k in (1, 2, 3, 4)]
    g.build_edges_with_condition(Cond(ctx, g, m, n, accs[0]), True)
    for i, acc in enumerate(accs):
        f = Cond(ctx, g, m, n, acc)
        g.reset_search()
        before = state(g)

        def busy(*a):
            h = make(ctx, c, 2, 2)
            h.build_edges_with_condition(lambda *a: True, True)
            if h.n_edges != 2 or len(h.get_max_clique()) != 2:
                ctx.fail("a graph built by a condition function is wrong")
            if state(g) != before:
                ctx.fail("the graph changes while its new edges are computed")
            return f(*a)

        g.build_edges_with_condition(busy, True)
        c12.judge(ctx, g, m, n, edges(n, acc), "condition that uses graphs")
        ctx.states += 1
        ctx.transitions += 1


def large(ctx):
    """Larger sets of different lengths."""
    rules = [
        lambda i, a, j, b: (i < j) == (a < b),
        lambda i, a, j, b: (i + a + j + b) % 2 == 0,
        lambda i, a, j, b: j - i == abs(b - a),
        lambda i, a, j, b: True,
        lambda i, a, j, b: False,
        lambda i, a, j, b: {a, b} == {0, 1} or i == 0,
    ]
    for m, n in ((8, 5), (5, 8), (12, 3), (3, 12), (1, 20), (20, 1), (2, 30)):
        for r in rules:
            acc = {p for p in pairs(m, n) if r(*p)}
            for c in CLASSES:
                g = make(ctx, c, m, n)
                g.build_edges_with_condition(Cond(ctx, g, m, n, acc), True)
                c12.judge(ctx, g, m, n, edges(n, acc), "%d x %d elements" % (m, n))
                ctx.states += 1
                ctx.transitions += 1
                if c != "Align":
                    g.build_edges_with_condition(Cond(ctx, g, m, n, acc), False)
                    c12.judge(ctx, g, m, n, edges(n, acc), "%d x %d elements, equal distances" % (m, n))
                    ctx.transitions += 1
                else:
                    d = [c12.euclid(g.S1), c12.euclid(g.S2)]
                    g.epsilon = 0.5
                    g.build_edges_with_condition(Cond(ctx, g, m, n, acc), False)
                    near = c12.rule(d[0], True, d[1], True, m, n, 0.5)
                    c12.judge(ctx, g, m, n, edges(n, acc) & near, "%d x %d points" % (m, n))
                    ctx.transitions += 1


def wide(ctx, m, n, r):
    """Sets of more elements than fit one byte of an index."""
    f = [
        lambda i, a, j, b: (i * 31 + a * 17) % 97 == (j * 29 + b * 13) % 97,
        lambda i, a, j, b: j - i == abs(b - a),
        lambda i, a, j, b: i >= m - 2 or j >= m - 2 and a > n - 3,
    ][r]
    acc = {p for p in pairs(m, n) if f(*p)}
    for c in ("L2L", "Align"):
        g = make(ctx, c, m, n)
        g.build_edges_with_condition(Cond(ctx, g, m, n, acc), True)
        c12.judge(ctx, g, m, n, edges(n, acc), "%d x %d elements" % (m, n))
        ctx.states += 1
        ctx.transitions += 1
        if c != "Align":
            g.build_edges_with_condition(Cond(ctx, g, m, n, acc), False)
            c12.judge(ctx, g, m, n, edges(n, acc), "%d x %d elements, equal distances" % (m, n))
            ctx.transitions += 1


def run(case, ctx):
    {"wide": wide, "only": only, "both": both, "fault": fault, "kinds": kinds, "reuse": reuse, "large": large}[case[0]](ctx, *case[1:])
