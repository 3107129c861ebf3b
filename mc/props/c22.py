"""Sequences of operations repeated until they settle, run on the real code for every
case: an object of every kind (Graph and NWGraph from every source, correspondence
graphs, AlignGraph, IsoGraph; small, across machine words and large) is made, every
sequence of 2 (small graphs: 3) operations is applied to it (searches that succeed,
fail, are cut short by a controlled clock or continued; enumerations run to the end, abandoned
or outliving their graph; exports, files, rebuilds; malformed calls of every kind;
conditions and metrics that raise at every call), and everything is dropped; the whole is
repeated.  Every sequence of 2 is also repeated on one object that stays, where each operation
must go on ending as it did.  Oracle: bytes in use on the heap, blocks in use by the interpreter, open
files and references to the objects handed in do not go on growing; weak
references to them die.  State = process after a round; transition = one operation;
trace = one sequence with all its rounds."""
import ctypes
import gc
import itertools
import os
import sys
import warnings
import weakref

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c02 import BIG, tables

ASSUMPTIONS = [
    "memory is what glibc's malloc and the interpreter's allocator count as in use",
    "what stops growing after a few rounds is not a leak",
]
CLOCK = True
warnings.simplefilter("ignore")
ROUNDS = 9
GROW = 5


class Mall(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


try:
    _mall = ctypes.CDLL(None).mallinfo2
    _mall.restype = Mall
except AttributeError:  # pragma: no cover
    _mall = None


def in_use():
    m = _mall()
    return m.uordblks + m.hblkhd


class Thing:
    """Something a list can hold and a weak reference can watch."""

    __slots__ = ("x", "__weakref__")

    def __init__(self, x):
        self.x = x


class Bag(list):
    """A list that a weak reference can watch."""


OPS = ("max", "dfs", "heur", "ub", "fail", "cut", "cont", "none", "enum", "drop", "outlive", "edges", "matrix",
       "lists", "str", "reset", "bad")
GOPS = OPS + ("file", "badfile")
WOPS = tuple(o for o in OPS if o not in ("cut", "cont")) + ("weight", "badweight")
COPS = ("corr", "corrfail", "elements", "enum", "enumel", "drop", "outlive", "edges", "build", "cond", "fault", "reset", "bad")
IOPS = ("corr", "corrfail", "elements", "enum", "enumel", "drop", "outlive", "edges", "build", "reset", "bad")
KINDS = {"edgelist": GOPS, "matrix": GOPS, "adjlist": GOPS, "fromfile": GOPS, "none": GOPS, "nw": WOPS, "nwmatrix": WOPS, "nwlist": WOPS,
         "L2L": COPS, "A2A": COPS, "A2L": COPS, "L2A": COPS, "Align": COPS + ("filter", "badfilter"), "Iso": IOPS, "empty": ("corr", "bad", "build")}
SIZES = ("small", "words", "large")
MAKE = ("zero", "toobig", "shape", "type", "adjzero", "adjcount", "nofile", "nofile2", "notgraph", "cutfile", "matshape", "weights", "wlist",
        "negative", "isoempty", "nolen", "text")


def blocks(tier):
    b = []
    for k in KINDS:
        for s in SIZES:
            if k in ("none", "empty") and s != "small" or k in ("L2L", "A2A", "A2L", "L2A", "Align", "Iso") and s == "large":
                continue
            for op in KINDS[k]:
                b.append(["same", k, s, op])
                b.append(["seq", k, s, op, 3 if s == "small" and k in ("edgelist", "nw", "L2L", "Align", "Iso") else 2])
    for m in MAKE:
        b.append(["make", m])
    for c in ("L2L", "A2A", "A2L", "L2A", "Align"):
        b.append(["refs", c])
    b.append(["refs", "Iso"])
    b.append(["refs", "Graph"])
    b.append(["refs", "NWGraph"])
    if tier != "quick":
        for k in KINDS:
            for op in KINDS[k]:
                b.append(["seq", k, "small", op, 4])
    return b


def cases(block):
    if block[0] == "seq":
        _, k, s, op, l = block
        for op2 in KINDS[k]:
            if l == 2:
                yield ("seq", k, s, (op, op2))
            else:
                for tail in itertools.product(KINDS[k], repeat=l - 2):
                    yield ("seq", k, s, (op, op2) + tail)
    elif block[0] == "same":
        _, k, s, op = block
        for op2 in KINDS[k]:
            yield ("same", k, s, (op, op2))
    else:
        yield tuple(block)


def shape_of(size):
    if size == "small":
        n, g = 6, 0b110110111011101
        return n, list(G.edges_of(n, g))
    if size == "words":
        n, e, _ = F.build(("bip", 65, 66, "mix", (1, 63, 64), 3, 3))
        return n, e
    n = 700
    e = [(v, v + d) for d in (1, 2, 3) for v in range(1, n + 1 - d)]
    return n, e


class World:
    """What the operations of one case work with."""

    def __init__(self, ctx, kind, size):
        self.ctx, self.kind, self.size = ctx, kind, size
        self.n, self.edges = shape_of(size)
        self.arr = G.edge_array(self.edges)
        self.mat = G.matrix(self.n, self.edges) if size != "large" else None
        self.adj = G.adj_sets(self.n, self.edges)
        self.w = [1.0 + v % 5 for v in range(self.n)]
        self.wa = np.array(self.w)
        self.k = 3 if size != "words" else 2
        self.m, self.q = (4, 3) if size == "small" else (9, 8)
        self.file = ctx.tmp("c22.mtx")
        self.bad = ctx.tmp("c22-bad.mtx")
        if kind in ("edgelist", "matrix", "adjlist", "fromfile", "none", "edge"):
            lib.graph(self.n, self.edges).to_file(self.file)
            with open(self.bad, "w") as f:
                f.write("%%MatrixMarket matrix coordinate\n3 3 x\n1 2\n")
        self.g1, self.g2 = lib.small(4, 0b110111), lib.small(3, 0b101)
        if kind == "Iso" and size == "words":
            self.g1, self.g2 = lib.graph(9, [(v, v + 1) for v in range(1, 9)]), lib.graph(8, [(v, v + 1) for v in range(1, 8)])

    def make(self):
        cm = lib.cm
        k = self.kind
        if k in ("edgelist",):
            return cm.Graph.from_edgelist(self.arr, self.n)
        if k == "matrix":
            return cm.Graph.from_matrix(self.mat) if self.mat is not None else cm.Graph.from_edgelist(self.arr.astype(np.int32), self.n)
        if k == "adjlist":
            return cm.Graph.from_adjlist(self.n, len(self.edges), self.adj)
        if k == "fromfile":
            return cm.Graph.from_file(self.file)
        if k == "none":
            return cm.Graph()
        if k == "nw":
            return cm.NWGraph.from_edgelist(self.arr, self.n, self.wa)
        if k == "nwmatrix":
            if self.mat is None:
                return cm.NWGraph.from_edgelist(self.arr.astype(np.int32), self.n, self.wa.astype(np.float32))
            return cm.NWGraph.from_matrix(self.mat, self.wa)
        if k == "nwlist":
            return cm.NWGraph.from_adjlist(self.n, len(self.edges), self.adj, self.w)
        if k == "empty":
            return cm.L2LGraph([], [1], flat, flat)
        if k == "Iso":
            g = cm.IsoGraph(self.g1, self.g2)
            g.build_edges()
            return g
        self.calls = 0
        s1 = pts(self.m) if k in ("A2A", "A2L", "Align") else list(range(self.m))
        s2 = pts(self.q) if k in ("A2A", "L2A", "Align") else list(range(self.q))
        g = cm.AlignGraph(s1, s2) if k == "Align" else getattr(cm, k + "Graph")(s1, s2, dist, dist)
        g.epsilon = 0.5
        g.build_edges()
        return g

    def under_clock(self, f):
        self.ctx.clock.mc_arm(7, 100 * 10**9, 0)
        try:
            return f()
        finally:
            self.ctx.clock.mc_disarm()

    def do(self, g, op):
        """One operation; whatever it raises is part of it."""
        try:
            getattr(self, "op_" + op)(g)
            return None
        except (RuntimeError, TypeError, ValueError, StopIteration, IndexError, KeyError, Boom, OSError) as e:
            return type(e)

    def op_max(self, g):
        g.get_max_clique()

    def op_dfs(self, g):
        g.get_max_clique(use_heuristic=False)

    def op_heur(self, g):
        g.get_max_clique(use_dfs=False)

    def op_ub(self, g):
        g.get_max_clique(upper_bound=2)

    def op_fail(self, g):
        g.get_max_clique(lower_bound=60000)

    def op_cut(self, g):
        self.under_clock(lambda: g.get_max_clique(time_limit=5.0))

    def op_cont(self, g):
        self.under_clock(lambda: g.get_max_clique(time_limit=5.0, continue_search=True))

    def op_none(self, g):
        g.get_max_clique(use_heuristic=False, use_dfs=False)

    def over(self, g):
        return g.all_cliques(self.k if not isinstance(g, lib.cm.NWGraph) else 5.0)

    def op_enum(self, g):
        if isinstance(g, (lib.cm.Graph,)) and hasattr(g, "S1"):
            it = g.all_correspondences(2)
        else:
            it = self.over(g)
        for _ in zip(range(50), it):
            pass

    def op_enumel(self, g):
        for _ in zip(range(20), g.all_correspondences(2, return_indices=False)):
            pass

    def op_drop(self, g):
        if hasattr(g, "S1"):
            next(g.all_correspondences(2))
        it = self.over(g)
        next(it)
        next(it)

    def op_outlive(self, g):
        h = self.make()
        it = h.all_correspondences(2) if hasattr(g, "S1") else self.over(h)
        del h
        next(it)
        next(it)

    def op_edges(self, g):
        g.to_edgelist()

    def op_matrix(self, g):
        g.to_matrix()

    def op_lists(self, g):
        g.to_adjlist()

    def op_str(self, g):
        str(g), repr(g)

    def op_reset(self, g):
        g.reset_search()

    def op_bad(self, g):
        g.get_max_clique("x", 5)

    def op_file(self, g):
        g.to_file(self.file)
        lib.cm.Graph.from_file(self.file)

    def op_badfile(self, g):
        self.do(g, "badread")
        g.to_file(self.file + "/nowhere/x.mtx")

    def op_badread(self, g):
        lib.cm.Graph.from_file(self.bad)

    def op_weight(self, g):
        g.get_clique_weight([1, 2])

    def op_badweight(self, g):
        g.get_clique_weight([0, 10**7])

    def op_corr(self, g):
        g.get_correspondence()

    def op_corrfail(self, g):
        g.get_correspondence(lower_bound=1000)

    def op_elements(self, g):
        g.get_correspondence(return_indices=False)

    def op_build(self, g):
        g.build_edges()

    def op_cond(self, g):
        g.build_edges_with_condition(lambda S1, i, j, S2, a, b: (i + j + a + b) % 2 == 0, True)
        g.build_edges_with_condition(lambda S1, i, j, S2, a, b: (i + j + a + b) % 2 == 0, False)

    def op_fault(self, g):
        """The condition raises once it was called a few times."""
        self.calls += 1
        left = [1 + self.calls % 5]

        def cond(S1, i, j, S2, a, b):
            left[0] -= 1
            if left[0] < 0:
                raise Boom()
            return True

        g.build_edges_with_condition(cond, bool(self.calls % 2))

    def op_filter(self, g):
        g.build_edges_with_filter(CTL, MASK, 0.5)

    def op_badfilter(self, g):
        g.build_edges_with_filter(np.zeros((2, 3)), MASK, 0.5)


class Boom(Exception):
    pass


CTL = np.array([[0.0, 0.0], [1.0, 0.0]])
MASK = np.ones((9, 9), dtype=bool)


def pts(n):
    return np.array([(v % 3, v // 3) for v in range(n)], dtype=float)


def flat(S, i, j):
    return 0.0


def dist(S, i, j):
    return float(abs(i - j) % 3)


def measure(table, r):
    """Into a table that is there already: keeping book must not count."""
    table[r, 0] = in_use()
    table[r, 1] = sys.getallocatedblocks()
    table[r, 2] = len(os.listdir("/proc/self/fd"))


def settle(ctx, what, once):
    """Repeat; nothing may go on growing."""
    was = gc.isenabled()
    gc.disable()
    gc.freeze()
    try:
        seen = np.zeros((ROUNDS, 3), dtype=np.int64)
        for r in range(ROUNDS):
            once()
            measure(seen, r)
        ctx.states += ROUNDS
        for i, name in enumerate(("bytes in use on the heap", "blocks in use by the interpreter", "open files")):
            if not growing(seen[:, i]):
                continue
            # is it still so after many more rounds, cycles of objects taken apart?
            for many in (20, 400) if i < 2 else (20,):
                long = np.zeros((GROW + 2, 3), dtype=np.int64)
                for r in range(GROW + 2):
                    for _ in range(many):
                        once()
                    gc.collect()
                    measure(long, r)
                if not growing(long[:, i], many if i else 16 * many):
                    ctx.count("settled_late")
                    break
            else:
                ctx.fail("%s: %s grow: %r, every %d rounds %r" % (what, name, seen[:, i].tolist(), many, long[:, i].tolist()))
    finally:
        gc.unfreeze()
        if was:
            gc.enable()


def growing(v, by=1):
    return all(b - a >= by for a, b in zip(v[-GROW - 1 :], v[-GROW:]))


def seq(ctx, kind, size, ops):
    w = World(ctx, kind, size)
    w.calls = 0

    def once():
        g = w.make()
        for op in ops:
            w.do(g, op)
        ctx.transitions += len(ops) + 1

    settle(ctx, "%s (%s): %s" % (kind, size, " ".join(ops)), once)
    ctx.outcome((kind, size, ops))


def same(ctx, kind, size, ops):
    """The same on one object that stays."""
    w = World(ctx, kind, size)
    w.calls = 0
    g = w.make()
    how = [[None, 0] for _ in ops]

    def once():
        for h, op in zip(how, ops):
            r = w.do(g, op)
            if h[1] < 2:
                h[0], h[1] = r, h[1] + 1
            elif r is not h[0] and op != "fault":
                ctx.fail("%s (%s), %s again and again: %s first ended with %s and later with %s"
                         % (kind, size, " ".join(ops), op, h[0], r))
        ctx.transitions += len(ops)

    settle(ctx, "one %s (%s): %s" % (kind, size, " ".join(ops)), once)
    for _ in range(40 if size == "small" else 8):
        once()
    ctx.outcome((kind, size, ops, "same"))


def bad_make(ctx, m):
    cm = lib.cm
    e = G.edge_array([(1, 2), (2, 3)])
    big = G.edge_array([(v, v + 1) for v in range(1, 600)])
    files = {}
    for name, text in (("notgraph", "hello\n" * 50), ("cutfile", "%%MatrixMarket\n5 5 9\n1 2\n2"), ("text", "%%M\n4 4 2\n1 9\n2 x\n")):
        files[name] = ctx.tmp("c22-%s" % name)
        with open(files[name], "w") as f:
            f.write(text)
    files["nofile"] = ctx.tmp("c22-missing")
    calls = {
        "zero": lambda: cm.Graph.from_edgelist(np.vstack([big, G.edge_array([(0, 1)])]), 700),
        "toobig": lambda: cm.Graph.from_edgelist(big, 599),
        "shape": lambda: cm.Graph.from_edgelist(np.ones((300, 3), dtype=np.uint64), 5),
        "type": lambda: cm.Graph.from_edgelist("edges", 5),
        "adjzero": lambda: cm.Graph.from_adjlist(3, 1, [{1}, {2}, {1}, set()]),
        "adjcount": lambda: cm.Graph.from_adjlist(3, 7, [set(), {2}, {1}, set()]),
        "nofile": lambda: cm.Graph.from_file(files["nofile"]),
        "nofile2": lambda: cm.Graph.from_edgelist(e, 3).to_file(files["nofile"] + "/x/y"),
        "notgraph": lambda: cm.Graph.from_file(files["notgraph"]),
        "cutfile": lambda: cm.Graph.from_file(files["cutfile"]),
        "text": lambda: cm.Graph.from_file(files["text"]),
        "matshape": lambda: cm.Graph.from_matrix(np.ones((40, 50), dtype=bool)),
        "weights": lambda: cm.NWGraph.from_edgelist(big, 600, np.ones(599)),
        "wlist": lambda: cm.NWGraph.from_adjlist(3, 1, [set(), {2}, {1}, set()], [1.0, 2.0]),
        "negative": lambda: cm.Graph.from_edgelist(e, -1),
        "isoempty": lambda: cm.IsoGraph(cm.Graph(), cm.Graph.from_edgelist(e, 3)).build_edges(),
        "nolen": lambda: cm.L2LGraph(3, 4, flat, flat).build_edges(),
    }

    def once():
        try:
            calls[m]()
        except (RuntimeError, TypeError, ValueError):
            pass
        ctx.transitions += 1

    settle(ctx, m, once)
    ctx.outcome(m)


def refs(ctx, c):
    """Everything handed in is let go of."""
    cm = lib.cm

    def gone(what, ws):
        gc.collect()
        for name, r in ws:
            if r() is not None:
                ctx.fail("%s: %s is still held" % (what, name))
        ctx.states += 1

    class Arr(np.ndarray):
        pass

    def array(x):
        return np.array(x).view(Arr)

    for use in range(8):
        ws = []

        def watch(name, x):
            ws.append((name, weakref.ref(x)))
            return x

        def scene():
            if c in ("Graph", "NWGraph"):
                a = watch("the edge array", array(G.edge_array([(1, 2), (2, 3), (1, 3)])))
                if c == "Graph":
                    g = cm.Graph.from_edgelist(a, 4)
                else:
                    g = cm.NWGraph.from_edgelist(a, 4, watch("the weight array", array([1.0, 2.0, 3.0, 4.0])))
                mk = lambda: g.all_cliques(2)
            elif c == "Iso":
                g = cm.IsoGraph(watch("G1", cm.Graph.from_edgelist(G.edge_array([(1, 2), (2, 3)]), 3)),
                                watch("G2", cm.Graph.from_edgelist(G.edge_array([(1, 2)]), 2)))
                g.build_edges()
                mk = lambda: g.all_correspondences(2, bool(use % 2))
            else:
                s1 = array(pts(3)) if c in ("A2A", "A2L", "Align") else Bag(Thing(i) for i in range(3))
                s2 = array(pts(3)) if c in ("A2A", "L2A", "Align") else Bag(Thing(i) for i in range(3))
                watch("S1", s1), watch("S2", s2)
                f1, f2 = lambda S, i, j: float(i + j), lambda S, i, j: float(i + j)
                cond = lambda S1, i, j, S2, a, b: i != a
                watch("d1", f1), watch("d2", f2), watch("the condition", cond)
                g = cm.AlignGraph(s1, s2) if c == "Align" else getattr(cm, c + "Graph")(s1, s2, f1, f2)
                g.build_edges()
                if use & 4:
                    g.build_edges_with_condition(cond, bool(use & 2))
                mk = lambda: g.all_correspondences(2, bool(use % 2))
            watch("the graph", g)
            it = mk()
            if use >= 2:
                next(it, None)
            if use >= 4:
                for _ in it:
                    pass
            if use % 3 == 0:
                del g
            if use % 3 == 1:
                try:
                    g.get_max_clique(lower_bound=50)
                except RuntimeError:
                    pass
            if hasattr(it, "__weakref__"):
                watch("the iterator", it)
            ctx.transitions += 3

        scene()
        gone("%s, use %d" % (c, use), ws)
    # reference counts after many rounds
    f1 = lambda S, i, j: float(i + j)
    s1, s2 = (pts(3), pts(3)) if c in ("A2A", "Align") else ([1, 2, 3], [4, 5, 6])
    held = (f1, s1, s2, CTL, MASK)

    def once():
        if c in ("A2A", "L2L"):
            g = getattr(cm, c + "Graph")(s1, s2, f1, f1)
        elif c == "Align":
            g = cm.AlignGraph(s1, s2)
            g.build_edges_with_filter(CTL, MASK, 0.5)
        else:
            return
        g.build_edges()
        g.build_edges_with_condition(lambda *a: True, True)
        list(g.all_correspondences(2, return_indices=False))

    once()
    before = [sys.getrefcount(x) for x in held]
    for _ in range(10):
        once()
    gc.collect()
    after = [sys.getrefcount(x) for x in held]
    if any(b > a + 3 for a, b in zip(before, after)):
        ctx.fail("%s: references to what was handed in grow from %r to %r in ten rounds" % (c, before, after))
    ctx.outcome(c)


def run(case, ctx):
    if case[0] == "seq":
        seq(ctx, case[1], case[2], case[3])
    elif case[0] == "same":
        same(ctx, case[1], case[2], case[3])
    elif case[0] == "make":
        bad_make(ctx, case[1])
    else:
        refs(ctx, case[1])
