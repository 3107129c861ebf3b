"""Histories over several objects, run on the real code for every case: two objects
(Graph with Graph, Graph with NWGraph, NWGraph with NWGraph, correspondence graphs of
the same sets, AlignGraph, IsoGraph with the graphs it was made from) and every sequence
of 3 (some: 2 or 4) operations on either, including searches cut short by a controlled clock
and continued while the other object was in use, enumerations begun and gone on with,
of correspondences in either form, exports that are overwritten once received or kept and compared later, and overwriting everything the
objects were made from.  All pairs of graphs with 3 vertices, a table of graphs
with 4 to 6 vertices, graphs whose largest clique is not where the search starts, structured
graphs across machine words and pairs of very different size.
Oracle: each object alone, from clique numbers and clique lists computed independently.
State = all objects after a prefix of a sequence; transition = one operation; trace =
one set of objects with all sequences that start with one operation."""
import copy
import itertools
import warnings

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c02 import fam_weights, tables
from . import c07

ASSUMPTIONS = [
    "operations come from a fixed table",
    "a timed search is continued with the bounds of the search before it",
    "sets and metrics of a correspondence graph are only changed after its edges are built, and keep their length",
]
CLOCK = True
warnings.simplefilter("ignore")
UOPS = ("max", "dfs", "heur", "cutM", "tcont", "enum3", "hold", "more", "export", "ink", "reset")
WOPS = ("max", "heur", "enum", "hold", "more", "weight", "export", "ink", "reset")
FEW = ("max", "cutM", "tcont", "hold", "more", "ink")
TABLE = ((4, 0b110111), (5, 0b0111011001), (5, 0b1111111110), (6, 0b110110111011101), (3, 0), (1, 0))
BIGS = (("bip", 64, 64, "AB", (0, 62, 63), 3, 7), ("bip", 65, 66, "mix", (1, 63, 64), 3, 3), ("far", 310, 255, 17, 4, 63),
        ("join", 12, "last", 3, 2))


def spec(x):
    return c07.tt(x)


def blocks(tier):
    b = []
    small = [("u", n, g) for n, g in TABLE]
    ws = [("w", n, g, t) for (n, g), t in zip(TABLE, (3, 6, 9, 1, 3, 0))]
    big = [("fam", d) for d in BIGS]
    wbig = [("wfam", d) for d in BIGS[:2] + (("far", 310, 255, 17, 3, 7),)]
    dec = [("fam", d) for i in (0, 2) for d in list(F.decoy_family([F.DECOYS[i]], (0, 1)))[:2]]
    sets = [("corr", c, p) for c in ("L2L", "A2A") for p in (0, 1, 2)] + [("align", 0), ("align", 1)]

    def add(l, *objs):
        for i, o in enumerate(objs):
            for op in table(o[0], len(objs)):
                b.append(["run", list(objs), i, op, l])

    for x, y in itertools.combinations_with_replacement(small[:4], 2):
        add(3, x, y)
    for x in small[:2]:
        for y in small[4:]:
            add(3, x, y)
    for x, y in itertools.product(small[1:4], ws[1:4]):
        add(3, x, y)
    for x, y in itertools.combinations_with_replacement(ws[:4], 2):
        add(3, x, y)
    for x in dec:
        add(3, x, small[1])
        add(3, x, dec[0])
    for x, y in itertools.combinations_with_replacement(big, 2):
        add(2, x, y)
    for x in big:
        add(2, x, small[1])
        add(2, x, ws[1])
    for x in wbig:
        add(2, x, small[1])
        add(2, x, ws[1])
        add(2, x, wbig[0])
        add(2, x, big[0])
    for x in sets:
        add(3, x, small[1])
        add(2, x, ws[1])
        for y in sets:
            add(2, x, y)
    for p in range(4):
        add(3, ("iso", p), ("isoside", p, 0), ("isoside", p, 1))
        add(2, ("iso", p), sets[p])
        for q in range(p, 4):
            add(2, ("iso", p), ("iso", q))
    for g in range(8):
        for h in range(g, 8):
            b.append(["three", g, h, 3])
    for x in (small[1], small[3], dec[0]):
        b.append(["deep", x, small[2], 4])
        b.append(["deep", x, ws[2], 4])
    if tier != "quick":
        for x, y in itertools.combinations_with_replacement(small, 2):
            add(4, x, y)
    return b


def table(kind, objs):
    ops = FEW if objs > 2 else WOPS if kind.startswith("w") else UOPS
    return ops + ("holdel",) if kind in ("corr", "align", "iso") else ops


def cases(block):
    if block[0] == "run":
        yield ("run", spec(block[1]), (block[2], block[3]), block[4])
    elif block[0] == "three":
        _, g, h, l = block
        for x, y in itertools.product("uw", repeat=2):
            o = (("u", 3, g) if x == "u" else ("w", 3, g, 6), ("u", 3, h) if y == "u" else ("w", 3, h, 3))
            for i in (0, 1):
                for op in table(o[i][0], 2):
                    yield ("run", o, (i, op), l)
    else:
        for i in (0, 1):
            for op in FEW:
                if op in table(spec(block[1:3])[i][0], 2):
                    yield ("few", spec(block[1:3]), (i, op), block[3])


class Own:
    """Adds to a kind of object of C07 the operations that reach beyond it."""

    grow = 3

    def begin(self):
        self.seq, self.done, self.it, self.left = (), False, None, None
        self.mine, self.given = [], []
        self.g = self.make()

    def keep(self, *arrays):
        self.mine += arrays
        return arrays[0] if len(arrays) == 1 else arrays

    def fail(self, seq, msg):
        self.ctx.fail("%s: object %d (%s): %s" % (" ".join("%d.%s" % a for a in self.trace[0]), self.me, self.what, msg))

    def cliques(self):
        return self.by_k[2], 2

    def over(self, k, indices):
        return self.g.all_cliques(k)

    def decode(self, c):
        return c

    def act(self, op):
        self.seq += (op,)
        if op in ("hold", "holdel"):
            want, k = self.cliques()
            self.left = set(want)
            self.it = self.over(k, op == "hold")
            self.form = op == "hold"
            op = "more"
        if op == "more":
            if self.it is None:
                return
            c = next(self.it, None)
            if c is None:
                if self.left:
                    self.fail(self.seq, "an enumeration ended without %r" % (sorted(self.left)[:5],))
                return
            if not self.form and any(o == "ink" for _, o in self.trace[0]):
                # elements that were overwritten cannot be told apart
                self.left.pop()
                return
            c = tuple(sorted(self.decode(c)))
            if c not in self.left:
                self.fail(self.seq, "an enumeration yielded %r" % (c,))
            self.left.discard(c)
        elif op == "ink":
            for a in self.mine:
                spoil(a, self.grow)
        elif op == "export":
            self.export(self.g, self.seq)
            for f in ("to_edgelist", "to_matrix", "to_adjlist"):
                if f != "to_matrix" or self.n < 100:
                    spoil(getattr(self.g, f)())
            self.export(self.g, self.seq)
            self.collect()
        else:
            r = self.step(self.g, op, self.seq, self.done)
            now = bool(self.g.search_done)
            if r is None:
                r = now
            elif now != r:
                self.fail(self.seq, "search_done is %r" % now)
            self.done = r

    def collect(self, more=False):
        """Keep what is returned, and a copy of it."""
        ops = [f for f in ("to_edgelist", "to_matrix", "to_adjlist") if f != "to_matrix" or self.n < 100]
        got = [(f, getattr(self.g, f)()) for f in ops]
        if more:
            got.append(("get_max_clique", self.g.get_max_clique()))
        if more and hasattr(self.g, "get_correspondence"):
            for i in (True, False):
                got.append(("get_correspondence", self.g.get_correspondence(return_indices=i)))
                got.append(("all_correspondences", list(itertools.islice(self.g.all_correspondences(1, i), 3))))
        self.given += [(f, r, copy.deepcopy(r)) for f, r in got]

    def kept(self):
        for f, r, c in self.given:
            if not alike(r, c):
                self.fail(self.seq, "what %s returned has changed later: %r, was %r" % (f, r, c))

    def rest(self):
        """At the end: all that is left has to be right."""
        while self.it is not None and self.left:
            self.act("more")
        if self.it is not None and next(self.it, None) is not None:
            self.fail(self.seq, "an enumeration does not end")
        if bool(self.g.search_done) != self.done:
            self.fail(self.seq, "search_done is %r" % self.g.search_done)
        self.export(self.g, self.seq)
        for op in ("max", "reset", "heur"):
            self.act(op)


def alike(a, b):
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    return a == b


def spoil(a, grow=3):
    """Overwrite what the object was made from, or has returned."""
    if isinstance(a, np.ndarray):
        if a.flags.writeable:
            a[...] = 1 if a.dtype != np.bool_ else ~a
    elif isinstance(a, set):
        a.clear()
        a.add(1)
    elif isinstance(a, dict):
        for k in list(a):
            a[k] = 9.0
    elif isinstance(a, list):
        for x in a:
            if isinstance(x, (set, list)):
                spoil(x)
        if a and isinstance(a[0], (set, list)):
            a.append(set())
        else:
            a[:] = [0] * (len(a) + grow)


class U(Own, c07.T):
    def make(self):
        return lib.cm.Graph.from_edgelist(self.keep(self.arr.copy()), self.n)


class UM(Own, c07.T):
    def make(self):
        if self.n > 100:
            return U.make(self)
        return lib.cm.Graph.from_matrix(self.keep(G.matrix(self.n, self.edges)))


class UL(Own, c07.T):
    def make(self):
        lst = [set(s) for s in self.lists]
        return lib.cm.Graph.from_adjlist(self.n, len(self.edges), self.keep(lst))


class W(Own, c07.W):
    def __init__(self, *a):
        self.mine = []
        c07.W.__init__(self, *a)

    def cliques(self):
        return self.enum, self.x

    def make(self):
        a, w = self.keep(self.arr.copy(), self.wa.copy())
        return lib.cm.NWGraph.from_edgelist(a, self.n, w)


class Pairs(Own, c07.T):
    """Enumerations give pairs of indices or of elements; these are turned into vertices."""

    grow = 0

    def over(self, k, indices):
        return self.g.all_correspondences(k, return_indices=indices)

    def decode(self, c):
        try:
            return [i * self.k + a + 1 for i, a in self.index_pairs(c)]
        except (TypeError, ValueError, IndexError, KeyError, AttributeError):
            self.fail(self.seq, "an enumeration yielded %r" % (c,))

    def index_pairs(self, c):
        if self.form:
            return list(zip(c[0], c[1]))
        s1, s2 = self.elements
        return [(s1.index(place(x)), s2.index(place(y))) for x, y in zip(c[0], c[1])]


def place(x):
    return tuple(x.tolist()) if isinstance(x, np.ndarray) else x


# partial tables of compatible matches, by the parity of the pattern
def wanted(p, i, j, a, b):
    return (
        (i + 2 * j + a * b) % 3 != 0 if p == 0 else (i != 0 or a != b - 1) if p == 1 else (i + j + a + b) % 2 == 0
    )


class Corr(Pairs):
    """A correspondence graph; the sets and tables are shared with others."""

    m, k = 3, 2

    def __init__(self, ctx, c, p, shared, what):
        self.c, self.p, self.shared = c, p, shared
        e = []
        for i, j in itertools.combinations(range(self.m), 2):
            for a, b in itertools.permutations(range(self.k), 2):
                if wanted(p, i, j, a, b):
                    e.append((i * self.k + a + 1, j * self.k + b + 1))
        n = self.m * self.k
        om = max(len(c) for c in G.all_cliques(n, G.mask_of(n, e)))
        c07.T.__init__(self, ctx, n, e, om, what)

    def make(self):
        if self.c not in self.shared:
            if self.c == "L2L":
                s = (list(range(self.m)), list(range(self.k)))
            else:
                s = (np.arange(2.0 * self.m).reshape(-1, 2) + 100, np.arange(2.0 * self.k).reshape(-1, 2))
            self.shared[self.c] = s
            self.keep(*s)
        s1, s2 = self.shared[self.c]
        C = lib.cm.L2LGraph if self.c == "L2L" else lib.cm.A2AGraph
        flat = lambda S, i, j: 0.0
        self.elements = [[place(x) for x in s] for s in (s1, s2)]
        g = C(s1, s2, flat, flat)
        if self.c == "A2A":
            self.keep(g.S1, g.S2)
        p = self.p

        def cond(S1, i, j, S2, a, b):
            return wanted(p, i, j, a, b) if i < j else wanted(p, j, i, b, a)

        g.build_edges_with_condition(cond, True)
        return g


class Align(Pairs):
    PTS = ((0, 0), (4, 0), (4, 3), (0, 3))
    k = 4

    def index_pairs(self, c):
        if self.form:
            return list(zip(c[0], c[1]))
        return [tuple(self.PTS.index(tuple(int(v) for v in x)) for x in q) for q in zip(c["S1"], c["S2"])]

    def __init__(self, ctx, p, shared, what):
        self.p = p
        P = self.PTS
        d = lambda i, j: float(np.hypot(P[i][0] - P[j][0], P[i][1] - P[j][1]))
        m = len(P)
        # a mask that is all true accepts everything, one that is all false nothing
        e = [
            (i * m + a + 1, j * m + b + 1)
            for i, j in itertools.combinations(range(m), 2)
            for a, b in itertools.permutations(range(m), 2)
            if p == 0 and abs(d(i, j) - d(a, b)) <= 0.5
        ]
        om = max(len(c) for k in range(1, 5) for c in (G.ref_cliques(m * m, e, k) or [()]))
        c07.T.__init__(self, ctx, m * m, e, max(1, om), what)

    def make(self):
        s1, s2 = self.keep(np.array(self.PTS, dtype=float), np.array(self.PTS, dtype=float))
        g = lib.cm.AlignGraph(s1, s2)
        g.epsilon = 0.5
        ctl, mask = self.keep(np.array([[20.0, 20.0]]), np.full((50, 50), self.p == 0))
        if self.p == 0:
            g.build_edges_with_filter(ctl - 20.0, np.ones((50, 50), dtype=bool), 0.0)
        else:
            g.build_edges_with_filter(ctl, mask, 0.5)
        return g


ISO = ((4, 0b110111, 3, 0b101), (3, 0b111, 3, 0b011), (3, 0b011, 4, 0b101101), (4, 0b011110, 3, 0b111))


class Iso(Pairs):
    def __init__(self, ctx, p, shared, what):
        self.shared = shared
        n1, g1, n2, g2 = self.q = ISO[p]
        self.k = n2
        a1, a2 = G.adj_sets(n1, G.edges_of(n1, g1)), G.adj_sets(n2, G.edges_of(n2, g2))
        e = [
            (i * n2 + a + 1, j * n2 + b + 1)
            for i, j in itertools.combinations(range(n1), 2)
            for a, b in itertools.permutations(range(n2), 2)
            if b + 1 not in a2[a + 1] or j + 1 in a1[i + 1]
        ]
        n = n1 * n2
        om = max(k for k in range(1, 6) if k == 1 or G.ref_cliques(n, e, k))
        c07.T.__init__(self, ctx, n, e, om, what)

    def index_pairs(self, c):
        if self.form:
            return [(i - 1, a - 1) for i, a in zip(c[0], c[1])]
        return [(i - 1, a - 1) for i, a in c[2].items()]

    def make(self):
        n1, g1, n2, g2 = self.q
        self.shared[0], self.shared[1] = lib.small(n1, g1), lib.small(n2, g2)
        g = lib.cm.IsoGraph(self.shared[0], self.shared[1])
        g.build_edges()
        return g


class Side(U):
    """One of the graphs an IsoGraph was made from."""

    def make(self):
        if self.side in self.shared:
            return self.shared[self.side]
        return U.make(self)


def subject(ctx, o, shared, me):
    kind = o[0]
    what = repr(o)
    if kind == "u":
        n, g = o[1:]
        C = (U, UM, UL)[(me + g) % 3]
        return C(ctx, n, G.edges_of(n, g), max(1, G.omega(n, g)), what)
    if kind == "w":
        n, g, t = o[1:]
        w = tuple(tables(n)[t])
        best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, g))
        return W(ctx, n, G.edges_of(n, g), w, best, what)
    if kind == "fam":
        n, e, om = F.build(o[1])
        return U(ctx, n, e, om, what)
    if kind == "wfam":
        n, e, w, best = fam_weights(o[1], (1.0, 2.0, 1.5))
        return W(ctx, n, e, w[1:], best, what)
    if kind == "corr":
        return Corr(ctx, o[1], o[2], shared, what)
    if kind == "align":
        return Align(ctx, o[1], shared, what)
    if kind == "iso":
        return Iso(ctx, o[1], shared, what)
    n1, g1, n2, g2 = ISO[o[1]]
    n, g = (n1, g1) if o[2] == 0 else (n2, g2)
    s = Side(ctx, n, G.edges_of(n, g), max(1, G.omega(n, g)), what)
    s.shared, s.side = shared, o[2]
    return s


def run(case, ctx):
    kind, objs, first, length = case
    shared = {}
    subs = []
    trace = [()]
    for me, o in enumerate(objs):
        s = subject(ctx, o, shared, me)
        s.me, s.trace = me, trace
        subs.append(s)
    acts = []
    for i, o in enumerate(objs):
        ops = table(o[0], len(objs))
        acts += [(i, op) for op in ops if kind != "few" or op in FEW]
    # what a fresh object does is found out before anything else is there
    for s in subs:
        shared.clear()
        s.mine = []
        s.fresh_heur()
        if isinstance(s, c07.T):
            s.looks()
    for tail in itertools.product(acts, repeat=length - 1):
        seq = (first,) + tail
        shared.clear()
        trace[0] = ()
        for s in subs:
            s.begin()
        for j, (i, op) in enumerate(seq):
            trace[0] = seq[: j + 1]
            subs[i].act(op)
        for s in subs:
            s.rest()
        for s in subs:
            s.kept()
        ctx.states += length
        ctx.transitions += length + 4 * len(subs)
    # nothing that was returned changes when more is asked for
    for s in subs * 2:
        s.collect(True)
    for s in subs:
        s.kept()
    ctx.outcome((first, tuple(s.om for s in subs)))
