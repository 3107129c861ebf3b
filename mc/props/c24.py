"""What the functions given to a correspondence graph, and other threads, do while it is
built, on the real code: every call of a metric or condition function during every kind
of build, for every class of graph, with every sequence of one or two operations
carried out inside of it on the graph being built, on one built from the same sets or on others
(builds, failing builds, searches, timed and continued ones, enumerations
begun and gone on with, exports, resets, changed attributes); operations inside of a
build inside of a build.  Threads that build, search and enumerate the same or different
graphs, switched by a controlled scheduler in every possible order at every call of a function
and between operations.
Oracle: every operation takes effect when it returns, on the graph last built by then; edges
follow from the tables of distances and conditions, answers from the edges.
State = all objects at one switch; transition = one step between switches; trace =
one set of programs with all the schedules."""
import itertools
import os
import sys
import threading
import warnings

import numpy as np

from .. import graphs as G
from .. import lib
from . import c07, c12, c13

ASSUMPTIONS = [
    "threads can only be switched while a metric or condition function runs, or between operations: the extension holds the interpreter lock otherwise",
    "operations come from a fixed table",
    "the sets keep their lengths while a graph is built",
]
CLOCK = True
warnings.simplefilter("ignore")
CLASSES = ("L2L", "A2A", "A2L", "L2A", "Align")
# builds: from distances, with a condition, from a condition alone
BUILDS = ("bm", "bc", "bo")
OPS = BUILDS + ("bx", "max", "heur", "cutM", "tcont", "reset", "export", "hold", "more", "corr", "eps", "flags", "tab", "sets", "iso")
FEW = ("bm", "bo", "max", "cutM", "tcont", "hold", "more", "eps")
INITS = ("new", "built", "busy")


def blocks(tier):
    b = []
    for x in CLASSES + ("iso",):
        b.append(["both", x])
    for x, y in itertools.combinations_with_replacement(LINES + ("class",), 2):
        b.append(["lines", x, y, 2 if x in LINES[4:6] + ("class",) and y != "iso" else 1])
    for c in CLASSES:
        for build in BUILDS:
            for init in INITS:
                for m, n in ((2, 2), (2, 3), (3, 2)):
                    if c == "L2L" or (m, n) == (2, 2):
                        b.append(["in", c, m, n, build, init])
        for outer, inner in itertools.product(BUILDS, repeat=2):
            b.append(["inin", c, 2, 2, outer, inner])
    for c in CLASSES:
        for x, y in itertools.product(BUILDS, repeat=2):
            for same in (True, False):
                b.append(["two", c, x, y, same])
    for c, d in itertools.permutations(CLASSES, 2):
        b.append(["mixed", c, d])
    for c in CLASSES:
        for build in BUILDS:
            for op in FEW:
                b.append(["ops", c, build, op, 3 if c == "L2L" else 2])
    for build in BUILDS:
        for x in ("bm", "bo"):
            b.append(["three", "L2L", build, x])
    return b


def cases(block):
    kind = block[0]
    if kind == "in":
        for who in (0, 1, 2):
            for op in OPS:
                yield tuple(block) + (who, op)
    elif kind == "inin":
        for op in OPS:
            for who in (0, 1):
                yield tuple(block) + (who, op)
    elif kind == "two":
        _, c, x, y, same = block
        for init in INITS:
            for shape in ((2, 2), (2, 3)) if c == "L2L" and (x, y) in (("bm", "bo"), ("bo", "bm"), ("bm", "bm")) else ((2, 2),):
                yield ("thr", c, c, shape, init, ((0, (x,)), (0 if same else 1, (y,))))
        if (x, y) != ("bc", "bc"):
            for op in ("max", "more", "cutM", "eps", "bx"):
                yield ("thr", c, c, (2, 2), "busy", ((0, (x, op)), (0 if same else 1, (y,))))
    elif kind == "mixed":
        for x, y in (("bm", "bc"), ("bc", "bm"), ("bo", "bo"), ("bc", "bo")):
            yield ("thr", block[1], block[2], (2, 2), "built", ((0, (x,)), (1, (y,))))
    elif kind == "ops":
        _, c, build, op, l = block
        for rest in itertools.product(FEW, repeat=l - 1):
            if op in BUILDS and any(o in BUILDS for o in rest[1:]):
                continue
            for init in ("built", "busy"):
                yield ("thr", c, c, (2, 2), init, ((0, (build,)), (0, (op,) + rest)))
    elif kind == "three":
        _, c, build, x = block
        for y in ("bm", "max", "more", "tcont", "reset", "corr"):
            for who in ((0, 0, 0), (0, 1, 0), (0, 1, 1)):
                yield ("thr", c, c, (2, 2), "busy", ((who[0], (build,)), (who[1], (x,)), (who[2], (y,))))
    else:
        yield tuple(block)


MODELS = {}


def model(ctx, n, edges):
    """What is expected of a graph with these edges."""
    key = (n, frozenset(edges))
    if key not in MODELS:
        if len(MODELS) > 3000:
            MODELS.clear()
        e = sorted(edges)
        om = max(k for k in range(1, 6) if k == 1 or G.ref_cliques(n, e, k))
        MODELS[key] = c07.T(ctx, n, e, om, "edges %r" % (e,))
    t = MODELS[key]
    t.ctx = ctx
    return t


class Metric:
    def __init__(self, w, s, tab, sym, n):
        self.w, self.s, self.tab, self.sym, self.n = w, s, tab, sym, n

    def __call__(self, s, i, j):
        self.w.called()
        if not (0 <= i < self.n and 0 <= j < self.n) or i == j:
            self.w.fail("a metric was called with (%r, %r)" % (i, j))
        if not same(s, self.s):
            self.w.fail("a metric was called with %r instead of %r" % (s, self.s))
        return self.tab[i][j]


def same(s, t):
    return s is t or (isinstance(t, np.ndarray) and isinstance(s, np.ndarray) and s.shape == t.shape and bool((s == t).all()))


class Obj:
    """A correspondence graph with what is known of it."""

    def __init__(self, w, c, m, n, name):
        self.w, self.c, self.m, self.n, self.name = w, c, m, n, name
        self.model, self.seq, self.done, self.its = None, (), False, []
        self.v = [0, 0]
        self.sym = [True, True]
        if c == "Align":
            P = [(0, 0), (4, 0), (4, 3)]
            self.S = [np.array(P[:m], float), np.array(P[:n], float)]
            self.g = lib.cm.AlignGraph(self.S[0], self.S[1])
        else:
            self.S = [self.members(0), self.members(1)]
            self.g = getattr(lib.cm, c + "Graph")(self.S[0], self.S[1], self.metric(0), self.metric(1))
        self.g.epsilon = self.eps = 0.5

    def members(self, side):
        k = (self.m, self.n)[side]
        if self.c[2 * side] == "A":
            return np.arange(2.0 * k).reshape(k, 2) + 100 * self.v[side] + 10 * side
        return ["%s%d%d" % ("pq"[side], i, self.v[side]) for i in range(k)]

    def table(self, side):
        k = (self.m, self.n)[side]
        v = self.v[side]
        return [[float((i + j + (side if i < j else 0) + v) % 2) for j in range(k)] for i in range(k)]

    def metric(self, side):
        return Metric(self.w, self.S[side], self.table(side), self.sym[side], (self.m, self.n)[side])

    def fail(self, msg):
        self.w.fail("%s: %s" % (self.name, msg))

    def near(self):
        if self.c == "Align":
            d = [c12.euclid(s) for s in self.S]
        else:
            d = [f.tab for f in (self.g.d1, self.g.d2)]
        return c12.rule(d[0], self.sym[0], d[1], self.sym[1], self.m, self.n, self.eps)

    def build(self, op):
        S = list(self.S)
        m, n = self.m, self.n
        self.w.builds += 1
        acc = set(c13.pairs(m, n)[(self.w.builds % 2) :: 2] + c13.pairs(m, n)[:1])
        calls = [0]

        def cond(s1, i, j, s2, a, b):
            self.w.called()
            calls[0] += 1
            if not (0 <= i < m and 0 <= j < m and 0 <= a < n and 0 <= b < n) or i == j or a == b:
                self.fail("the condition was called with %r" % ((i, j, a, b),))
            if not same(s1, S[0]) or not same(s2, S[1]):
                self.fail("the condition was called with %r, %r" % (s1, s2))
            if op == "bx" and calls[0] == 2:
                raise KeyError("two")
            return ((i, a, j, b) if i < j else (j, b, i, a)) in acc

        want = c13.edges(n, acc) if op in ("bo", "bx") else self.near() if op == "bm" else self.near() & c13.edges(n, acc)
        try:
            if op == "bm":
                r = self.g.build_edges()
            else:
                r = self.g.build_edges_with_condition(cond, op != "bc")
        except KeyError:
            if op != "bx":
                raise
            self.look()
            return
        if op == "bx":
            self.fail("an exception was lost")
        if r is not True:
            self.fail("a build returned %r" % (r,))
        self.model, self.seq, self.done = model(self.w.ctx, m * n, want), (), False
        self.look()

    def look(self):
        """What can be seen without doing anything."""
        if self.model is None:
            if self.g.n_vertices or self.g.n_edges or self.g.search_done:
                self.fail("%d vertices, %d edges" % (self.g.n_vertices, self.g.n_edges))
        else:
            self.model.export(self.g, self.seq)
            if bool(self.g.search_done) != self.done:
                self.fail("search_done is %r" % self.g.search_done)

    def more(self):
        for it in self.its:
            c = next(it[0], None)
            if c is None:
                if it[1]:
                    self.fail("an enumeration ended without %r" % (sorted(it[1]),))
                continue
            c = tuple(sorted(it[2](c)))
            if c not in it[1]:
                self.fail("an enumeration yielded %r" % (c,))
            it[1].discard(c)

    def act(self, op):
        self.w.ctx.transitions += 1
        g, t = self.g, self.model
        if op[0] == "b":
            self.build(op)
        elif op == "eps":
            self.eps = 1.5 - self.eps
            g.epsilon = self.eps
        elif op == "flags":
            if self.c != "Align":
                self.sym[0] = g.is_d1_symmetric = not self.sym[0]
        elif op in ("tab", "sets"):
            if self.c != "Align":
                side = int(op == "sets")
                self.v[side] = 1 - self.v[side]
                if side:
                    self.S[side] = self.members(side)
                    setattr(g, ("S1", "S2")[side], self.S[side])
                setattr(g, ("d1", "d2")[side], self.metric(side))
        elif op == "more":
            self.more()
        elif t is None:
            if op != "export":
                calls = {"hold": lambda: g.all_cliques(2), "corr": lambda: g.get_correspondence(), "reset": g.reset_search,
                         "iso": lambda: lib.cm.IsoGraph(g, lib.small(2, 1)).build_edges()}
                try:
                    calls.get(op, g.get_max_clique)()
                    self.fail("%s did not raise though nothing is built" % op)
                except RuntimeError:
                    pass
            self.look()
        elif op == "hold":
            n = self.n
            self.its.append((g.all_cliques(2), set(t.by_k[2]), list))
            self.its.append((g.all_correspondences(2), set(t.by_k[2]), lambda c: [i * n + a + 1 for i, a in zip(*c)]))
            self.more()
        elif op == "corr":
            self.seq += ("max",)
            c = g.get_correspondence()
            if len(c[0]) != t.om or len(c[1]) != t.om or not t.valid([i * self.n + a + 1 for i, a in zip(*c)]):
                self.fail("get_correspondence gave %r" % (c,))
            self.done = True
        elif op == "iso":
            h = lib.cm.IsoGraph(g, lib.small(3, 0b001))
            h.build_edges()
            k = t.n * (t.n - 1) // 2
            if h.n_edges != 4 * k + 2 * len(t.edges):
                self.fail("an IsoGraph made from it has %d edges instead of %d" % (h.n_edges, 4 * k + 2 * len(t.edges)))
        else:
            self.seq += (op,)
            r = t.step(g, op, self.seq, self.done)
            now = bool(g.search_done)
            if r is None:
                r = now
            self.done = r
        self.look()

    def rest(self):
        self.look()
        for k in range(40):
            if not any(it[1] for it in self.its):
                break
            self.more()
        self.more()
        if any(it[1] for it in self.its):
            self.fail("an enumeration does not go on")
        for op in ("max", "reset", "heur"):
            self.act(op)


class World:
    """The objects of one run."""

    def __init__(self, ctx, c, d, m, n, init, third):
        self.ctx, self.error, self.builds = ctx, None, 0
        self.called = lambda: None
        self.what = ""
        self.objs = [Obj(self, c, m, n, "first graph"), Obj(self, d, m, n, "second graph")]
        if third:
            self.objs.append(Obj(self, "L2L" if c != "L2L" else "A2A", m, n, "third graph"))
        for o in self.objs:
            if init != "new":
                o.act("bm" if c != "Align" else "bo")
            if init == "busy":
                o.act("cutM")
                o.act("hold")

    def fail(self, msg):
        self.error = self.error or msg
        self.ctx.fail("%s: %s" % (self.what, msg))

    def end(self):
        self.called = lambda: None
        for o in self.objs:
            o.rest()
        if self.error:
            self.ctx.fail("%s: %s" % (self.what, self.error))


def inside(ctx, c, m, n, build, init, who, first):
    """Operations inside of the k-th call, for every k."""
    for second in (None,) + OPS:
        for who2 in (who, 0) if second and who else (who,):
            k = 0
            while True:
                w = World(ctx, c, c, m, n, init, who == 2)
                w.what = "%sGraph of %d x %d, %s; in call %d of %s: graph %d %s, graph %d %s" % (c, m, n, init, k, build, who, first, who2, second)
                left = [k]

                def called():
                    left[0] -= 1
                    if left[0] == -1:
                        w.objs[who].act(first)
                        if second:
                            w.objs[who2].act(second)

                w.called = called
                w.objs[0].act(build)
                w.end()
                ctx.states += 1
                if left[0] >= 0:
                    break
                k += 1
            if k == 0 and (c, build) != ("Align", "bm"):
                ctx.fail("no function was called")
    ctx.outcome((build, init, who, first))


def inside2(ctx, c, m, n, outer, inner, who, op):
    """Operations inside of the l-th call of a build inside of the k-th call of a build."""
    for init in INITS:
        k = 0
        while True:
            l = 0
            while True:
                w = World(ctx, c, c, m, n, init, False)
                w.what = "%sGraph, %s; in call %d of %s, in call %d of %s: graph %d %s" % (c, init, k, outer, l, inner, who, op)
                left = [k]
                low = [l]

                def deep():
                    low[0] -= 1
                    if low[0] == -1:
                        w.called = lambda: None
                        w.objs[who].act(op)

                def called():
                    left[0] -= 1
                    if left[0] == -1:
                        w.called = deep
                        w.objs[0].act(inner)
                        w.called = lambda: None

                w.called = called
                w.objs[0].act(outer)
                w.end()
                ctx.states += 1
                if left[0] >= 0 or low[0] >= 0:
                    break
                l += 1
            if left[0] >= 0:
                break
            k += 1
    ctx.outcome((outer, inner, who, op))


class Threads:
    """Threads of which exactly one runs, until it comes to a switch.  plan gives the
    first choices; what was chosen, and from how many, is kept in trace."""

    def __init__(self, plan, most=None):
        self.plan, self.most = plan, most
        self.trace, self.taken = [], []
        self.over = threading.Lock()
        self.over.acquire()
        self.me = threading.local()
        self.errors = []

    def run(self, progs, files=None):
        self.files = files
        self.go = [threading.Lock() for _ in progs]
        self.live = list(range(len(progs)))
        ts = []
        for i, p in enumerate(progs):
            self.go[i].acquire()
            ts.append(threading.Thread(target=self.body, args=(i, p), daemon=True))
            ts[-1].start()
        self.go[self.pick(None)].release()
        self.over.acquire()
        for x in ts:
            x.join()
        if self.errors:
            raise self.errors[0]

    def pick(self, i):
        """The next thread; staying with the one that runs comes first.  At most
        self.most threads are left while they could go on."""
        to = [i] if i is not None else []
        if self.most is None or i is None or self.most > 0:
            to += [j for j in self.live if j != i]
        k = self.plan[len(self.trace)] if len(self.trace) < len(self.plan) else 0
        self.trace.append((k, len(to)))
        if k and i is not None and self.most is not None:
            self.most -= 1
        if not self.taken or self.taken[-1] != to[k]:
            self.taken.append(to[k])
        return to[k]

    def body(self, i, prog):
        self.me.i = i
        self.go[i].acquire()
        try:
            if self.files:
                sys.settrace(self.enter)
            prog()
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
        self.live.remove(i)
        if self.live:
            self.go[self.pick(None)].release()
        else:
            self.over.release()

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.files) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.switch()
        return self.line

    def switch(self):
        i = self.me.i
        if len(self.live) > 1:
            j = self.pick(i)
            if j != i:
                self.go[j].release()
                self.go[i].acquire()

    def following(self):
        """The plan of the next schedule, depth first; None if this was the last."""
        t = list(self.trace)
        while t and t[-1][0] + 1 == t[-1][1]:
            t.pop()
        if not t:
            return None
        return [k for k, _ in t[:-1]] + [t[-1][0] + 1]


def threads(ctx, c, d, shape, init, progs):
    """All schedules of the programs: depth first, each one run from the start."""
    plan = []
    while plan is not None:
        w = World(ctx, c, d, shape[0], shape[1], init, False)
        t = Threads(plan)

        def program(who, ops):
            def body():
                for i, op in enumerate(ops):
                    if i:
                        t.switch()
                    w.objs[who].act(op)

            return body

        w.called = t.switch
        w.what = "%sGraph, %sGraph, %s, programs %r, schedule %r" % (c, d, init, progs, t.taken)
        t.run([program(who, ops) for who, ops in progs])
        ctx.states += len(t.trace)
        w.what = "%sGraph, %sGraph, %s, programs %r, schedule %r" % (c, d, init, progs, t.taken)
        w.end()
        plan = t.following()
        ctx.count("schedules")
    ctx.outcome((init, progs))


# -- switches at every line of the Python part of the package --------------------
PTS = [(0, 0), (2, 0), (2, 1), (0, 3)]
MASK = np.array([[1, 1, 0, 1], [1, 0, 1, 1], [0, 1, 1, 1], [1, 1, 1, 0]], dtype=bool)
CTL = np.array([(0.4, 0.6), (1.3, 0.4), (1.6, 1.3)])


def some(kind, which):
    """A function of no arguments that uses the package and returns what can be compared."""
    cm = lib.cm
    lo, hi = (0, 3) if which == 0 else (1, 4)
    if kind in ("filter", "class", "points"):
        g = cm.AlignGraph(*[np.array([PTS[i] for i in x], float) for x in (((0, 2), (0, 1)), ((0, 1), (1, 2)))[which]])
        g.epsilon = 5.0
        if kind == "points":
            g.build_edges_with_condition(lambda *a: True, True)
            return lambda: [(k, np.asarray(v).tolist()) for k, v in sorted(g.get_correspondence(return_indices=False).items())]

        def build(f=None):
            if f is None:
                g.build_edges_with_filter(CTL, MASK, 0.5)
            else:
                g.build_edges_with_condition(f, True)
            return sorted(map(tuple, g.to_edgelist().tolist()))

        return build
    if kind == "iso":
        g = cm.IsoGraph(lib.small(3, 0b111 if which else 0b011), lib.small(3, 0b101))

        def iso():
            g.build_edges()
            return repr(g.get_correspondence(return_indices=False)), sorted(map(repr, g.all_correspondences(2, return_indices=False)))

        return iso
    S = {"L": ["abc"[lo:hi], [7, 8]], "A": [np.array(PTS[lo:hi], float), np.array(PTS[1:3], float)]}
    f = lambda s, i, j: float(i + j)
    g = getattr(cm, kind + "Graph")(S[kind[0]][0], S[kind[2]][1], f, f)
    g.epsilon = 1.0

    def search():
        g.build_edges()
        return repr(g.get_correspondence(return_indices=False)), sorted(map(repr, g.all_correspondences(2, return_indices=False)))

    return search


LINES = ("L2L", "A2A", "A2L", "L2A", "points", "filter", "iso")


def both(ctx, x):
    """Two threads that put together answers of one graph."""
    cm = lib.cm
    if x == "iso":
        g = cm.IsoGraph(lib.small(3, 0b111), lib.small(3, 0b101))
    else:
        S = {"L": ["abc", [7, 8, 9]], "A": [np.array(PTS[:3], float), np.array(PTS[1:], float)]}
        f = lambda s, i, j: float(i + j)
        g = cm.AlignGraph(S["A"][0], S["A"][1]) if x == "Align" else getattr(cm, x + "Graph")(S[x[0]][0], S[x[2]][1], f, f)
        g.epsilon = 9.0
    g.build_edges()
    it = [None, None]
    progs = [
        lambda i: repr(g.get_correspondence(return_indices=False)),
        lambda i: repr(next(it[i])),
    ]

    def begin():
        for i in (0, 1):
            # the second begins elsewhere, so that no two answers are the same
            it[i] = g.all_correspondences(2, return_indices=False)
            for _ in range(1 + 2 * i):
                next(it[i])

    for a, b in ((0, 1), (1, 1), (1, 0)):
        begin()
        want = [progs[a](0), progs[b](1)]
        if want[0] == want[1]:
            ctx.fail("the two programs do the same")
        explore(ctx, "one %s graph, %d, %d" % (x, a, b), lambda: begin() or [lambda: progs[a](0), lambda: progs[b](1)], want, 2)


def lines(ctx, x, y, most):
    """Two threads with a graph each; a filter is shared."""
    shared = lambda: lib.cm.wrappers.aligngraph.MaskFilter(CTL, MASK, 0.5)
    take = lambda f, kind, mf: f(mf) if kind == "class" else f()
    want = [take(some(k, i), k, shared()) for i, k in enumerate((x, y))]
    if x == y and want[0] == want[1]:
        ctx.fail("the two programs do the same")

    def progs():
        fs = [some(k, i) for i, k in enumerate((x, y))]
        mf = shared()
        return [lambda: take(fs[0], x, mf), lambda: take(fs[1], y, mf)]

    explore(ctx, "(%s, %s)" % (x, y), progs, want, most)
    ctx.outcome((x, y, most))


def explore(ctx, what, make, want, most):
    """All schedules of two threads switched at lines of the package, with at most so
    many switches away from a thread that could go on."""
    files = os.path.dirname(os.path.abspath(lib.cm.__file__))
    plan = []
    while plan is not None:
        got = [None, None]

        def program(i, f):
            def body():
                got[i] = f()

            return body

        t = Threads(plan, most)
        t.run([program(i, f) for i, f in enumerate(make())], files)
        ctx.states += len(t.trace)
        ctx.transitions += len(t.taken)
        for i in (0, 1):
            if got[i] != want[i]:
                ctx.fail("two threads, %s, schedule %r: thread %d got %r, alone it gets %r" % (what, plan, i, got[i], want[i]))
        plan = t.following()
        ctx.count("schedules")


def run(case, ctx):
    {"in": inside, "inin": inside2, "thr": threads, "lines": lines, "both": both}[case[0]](ctx, *case[1:])
