"""Schedules of iterators, run on the real code for every case:
(a) every complete interleaving of the steps of two iterators, up to two steps past
the end, on every labelled graph with up to 4 vertices and all pairs of sizes, and of
three iterators on graphs with up to 3 vertices;
(b) every sequence of 4 (graphs with 4 vertices: 5) actions from {advance one of three
iterators, start a new one in its place, exact, bounded, heuristic and failing
search, reset, export, rebuild, iterate over iter(it)} followed by running all
iterators to the end, on every graph with up to 4 vertices, some with 5, and
structured graphs across machine words;
(c) the same with the graph's last reference dropped at every point;
(d) two iterators of two different graphs (two of a table of graphs with 5 and 6
vertices, weighted or not, and every pair of graphs with 3 vertices): every schedule
with up to three switches from one to the other, and every alternation of k steps each.
For Graph, NWGraph, correspondence graphs (which are rebuilt with another epsilon in
the middle) and IsoGraph.
Oracle: the list of cliques of the graph the iterator was created for.
State = (object, iterators) after a prefix; transition = one action; trace = one
graph with all schedules that begin the same."""
import gc
import itertools

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c02 import BIG, fam_weights, tables

ASSUMPTIONS = [
    "one thread: the extension holds the interpreter lock while a step runs",
    "actions come from a fixed table",
]
ACTS = ("A", "B", "C", "newA", "max", "ub", "heur", "fail", "reset", "export", "rebuild", "iterB")
# (vertices, edges left out of the complete graph, table of weights or None)
PAIR = ((5, (), 1), (5, (3,), 6), (6, (4,), 6), (6, (4,), 3), (6, (0, 9, 14), 1), (6, (4,), None), (5, (2, 7), None))
HARD5 = (1023, 0b0111011001, 0b1011111011, 0b1101110111)


def blocks(tier):
    b = []
    fams = [("bip", 64, 64, "AB", (0, 62, 63), 3, 7), ("bip", 65, 66, "mix", (1, 63, 64), 3, 7),
            ("join", 4, "spread", 3, 3), ("far", 310, 255, 17, 4, 63), ("copies", 3, 7, 3)]
    for d in fams:
        for a in ACTS:
            b.append(["fam", d, a, 3])
    for d in (("bip", 64, 64, "AB", (0, 62, 63), 3, 7), ("bip", 65, 65, "mix", (0, 63, 64), 3, 7)):
        for a in ACTS:
            b.append(["wfam", d, a, 2])
    for g in HARD5:
        for a in ACTS:
            b.append(["u", 5, g, g + 1, a, 4 if g != 1023 else 3])
    for g in range(64):
        b.append(["weave", 4, g, g + 1])
        b.append(["wweave", 4, g, g + 1])
    for n in (1, 2, 3):
        b.append(["weave", n, 0, 1 << G.npairs(n)])
        b.append(["weave3", n, 0, 1 << G.npairs(n)])
        b.append(["wweave", n, 0, 1 << G.npairs(n)])
        for a in ACTS:
            b.append(["u", n, 0, 1 << G.npairs(n), a, 4])
            b.append(["w", n, 0, 1 << G.npairs(n), a, 3])
    for a in ACTS:
        for g in range(0, 64, 16):
            b.append(["w", 4, g, g + 16, a, 3])
    for pat in range(8):
        for a in ACTS:
            b.append(["corr", pat, a, 4])
            b.append(["iso", pat, a, 3])
    for i in range(len(PAIR)):
        for j in range(len(PAIR)):
            b.append(["pair", i, j])
    for g in range(8):
        b.append(["pair3", g])
    for g in range(64):
        b.append(["life", 4, g])
    for a in ACTS:
        for g in range(0, 64, 4):
            b.append(["u", 4, g, g + 4, a, 5])
    if tier != "quick":
        for a in ACTS:
            for g in range(1024):
                b.append(["u", 5, g, g + 1, a, 3])
    return b


def tt(x):
    return tuple(tt(y) for y in x) if isinstance(x, (list, tuple)) else x


def cases(block):
    kind = block[0]
    if kind in ("fam", "wfam"):
        yield (kind, tt(block[1]), (block[2],), block[3])
    elif kind in ("u", "w"):
        _, n, a, z, act, l = block
        for g in range(a, z):
            if kind == "w":
                for t in (1, 6):
                    yield ("w", n, g, t, (act,), l)
            else:
                yield ("u", n, g, 0, (act,), l)
    elif kind in ("weave", "wweave", "weave3"):
        _, n, a, z = block
        for g in range(a, z):
            yield (kind, n, g)
    elif kind in ("corr", "iso"):
        yield (kind, block[1], (block[2],), block[3])
    elif kind == "life":
        yield ("life", block[1], block[2])
    elif kind == "pair":
        yield ("pair", block[1], block[2])
    elif kind == "pair3":
        for h in range(8):
            yield ("pair3", block[1], h)


class It:
    """An iterator, what it has to yield and what it has yielded."""

    def __init__(self, sub, it, want, name):
        self.sub, self.it, self.want, self.name = sub, it, want, name
        self.seen = set()
        self.over = False

    def step(self, seq, it=None):
        try:
            c = next(self.it if it is None else it)
        except StopIteration:
            if not self.over and len(self.seen) != len(self.want):
                self.sub.fail(seq, "%s ended after %d of %d" % (self.name, len(self.seen), len(self.want)))
            self.over = True
            return
        c = self.sub.key(c)
        if self.over:
            self.sub.fail(seq, "%s yielded %r after its end" % (self.name, c))
        if c not in self.want or c in self.seen:
            self.sub.fail(seq, "%s yielded %r%s" % (self.name, c, " again" if c in self.seen else ""))
        self.seen.add(c)

    def finish(self, seq):
        for _ in range(len(self.want) + 2 - len(self.seen)):
            self.step(seq)
        if not self.over:
            self.sub.fail(seq, "%s does not end" % self.name)


class Sub:
    """A graph object under test.  gen() numbers its rebuilds."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        self.wants = {}

    def fail(self, seq, msg):
        self.ctx.fail("%s, after %s: %s" % (self.what, " ".join(map(str, seq)), msg))

    def key(self, c):
        return tuple(sorted(c))

    def start(self, name):
        w = self.want(name)
        return It(self, self.open(name), w, "iterator %s" % name)

    def schedule(self, seq):
        self.fresh()
        its = {}
        for x in "ABC":
            its[x] = self.start(x)
        for i, a in enumerate(seq):
            p = seq[: i + 1]
            if a in its:
                its[a].step(p)
            elif a == "newA":
                its["A"] = self.start("A")
            elif a == "iterB":
                its["B"].step(p, iter(its["B"].it))
            else:
                self.act(a, p)
        for x in "CAB":
            its[x].finish(seq + ("end of " + x,))
        self.check(seq)
        self.ctx.states += len(seq)
        self.ctx.transitions += len(seq) + sum(len(i.seen) + 1 for i in its.values())

    def walk(self, prefix, length):
        for tail in itertools.product(ACTS, repeat=length - len(prefix)):
            self.schedule(tuple(prefix) + tail)
        self.ctx.outcome((self.what, prefix))

    def weave(self, names):
        """All interleavings of all steps of these iterators."""
        lens = [len(self.want(x)) + 2 for x in names]

        def rec(left, seq):
            if not any(left):
                yield tuple(seq)
                return
            for i, x in enumerate(names):
                if left[i]:
                    left[i] -= 1
                    seq.append(x)
                    yield from rec(left, seq)
                    seq.pop()
                    left[i] += 1

        for seq in rec(lens, []):
            self.fresh()
            its = {x: self.start(x) for x in names}
            for i, a in enumerate(seq):
                its[a].step(seq[: i + 1])
            for x in names:
                if not its[x].over:
                    self.fail(seq, "iterator %s did not end" % x)
            self.ctx.states += 1
            self.ctx.transitions += len(seq)
        self.ctx.outcome((self.what, names))


class U(Sub):
    sizes = {"A": 2, "B": 3, "C": 2}

    def __init__(self, ctx, n, edges, om, what):
        Sub.__init__(self, ctx, what)
        self.n, self.edges, self.om = n, edges, om
        self.arr = G.edge_array(edges)
        self.adj = G.adj_sets(n, edges)

    def want(self, name):
        k = self.sizes[name]
        if k not in self.wants:
            self.wants[k] = set(G.ref_cliques(self.n, self.edges, k))
        return self.wants[k]

    def fresh(self):
        self.g = lib.cm.Graph.from_edgelist(self.arr, self.n)

    def open(self, name):
        return self.g.all_cliques(self.sizes[name])

    def act(self, a, seq):
        g = self.g
        if a == "rebuild":
            # another object of the same kind takes its place
            self.fresh()
            return
        if a == "export":
            if g.to_edgelist().shape[0] != len(self.edges):
                self.fail(seq, "to_edgelist changed")
            return
        if a == "reset":
            g.reset_search()
            return
        kw = {
            "max": {},
            "ub": dict(upper_bound=2, use_heuristic=False),
            "heur": dict(use_dfs=False),
            "fail": dict(lower_bound=self.om + 1),
        }[a]
        ans = lib.try_max(g, **kw)
        want = {"max": self.om, "ub": min(2, self.om), "fail": None, "heur": 0}[a]
        if want is None:
            ok = ans is None
        else:
            ok = ans is not None and G.is_clique(self.adj, ans) and (want == 0 or len(ans) == want)
        if not ok:
            self.fail(seq, "%s search gave %r" % (a, ans))

    def check(self, seq):
        self.act("max", seq + ("last search",))


class W(U):
    def __init__(self, ctx, n, edges, w, best, what):
        U.__init__(self, ctx, n, edges, best, what)
        self.w = [0.0] + list(w)
        self.wa = np.array(w, dtype=np.float64)
        cl = []
        k = 2
        while True:
            row = G.ref_cliques(n, edges, k)
            if not row:
                break
            cl += row
            k += 1
        ws = sorted({self.weight(c) for c in cl}) or [1.0, 2.0]
        if len(cl) > 100:
            ws = ws[-2:]
        self.sizes = {"A": ws[0], "B": ws[len(ws) // 2], "C": ws[-1]}
        for x in self.sizes.values():
            # which of the heavier ones are yielded is not laid down: what one
            # iterator gives alone has to contain the exact ones
            self.fresh()
            got = list(itertools.islice(self.g.all_cliques(x), len(cl) + 5))
            self.wants[x] = {self.key(c) for c in got}
            exact = {c for c in cl if self.weight(c) == x}
            if len(got) != len(self.wants[x]) or not exact <= self.wants[x] <= set(cl):
                ctx.fail("%s: all_cliques(%r) alone is wrong" % (what, x))

    def weight(self, c):
        return sum(self.w[v] for v in c)

    def fresh(self):
        self.g = lib.cm.NWGraph.from_edgelist(self.arr, self.n, self.wa)

    def act(self, a, seq):
        if a not in ("max", "ub", "heur", "fail"):
            return U.act(self, a, seq)
        best = self.om
        kw = {
            "max": {},
            "ub": dict(upper_bound=best / 2),
            "heur": dict(use_dfs=False),
            "fail": dict(lower_bound=best + 0.5),
        }[a]
        ans = lib.try_max(self.g, **dict(dict(lower_bound=0, upper_bound=BIG), **kw))
        if a == "fail":
            ok = ans is None
        else:
            ok = ans is not None and G.is_clique(self.adj, ans)
            if a != "heur":
                ok = ok and self.weight(ans) >= min(best, kw.get("upper_bound", BIG))
        if not ok:
            self.fail(seq, "%s search gave %r" % (a, ans))


# distance tables of three and three elements
TABLES = [
    ((1, 2, 3), (1, 2, 3)),
    ((1, 1, 1), (1, 1, 1)),
    ((1, 1, 2), (2, 1, 1)),
    ((0, 2, 4), (1, 3, 5)),
    ((1, 2, 2), (2, 2, 1)),
    ((5, 5, 5), (5, 4, 3)),
    ((1, 2, 4), (4, 2, 1)),
    ((3, 3, 1), (3, 1, 3)),
]


class Corr(Sub):
    sizes = {"A": 2, "B": 3, "C": 2}
    eps = (0.0, 1.0)

    def __init__(self, ctx, pat):
        Sub.__init__(self, ctx, "L2LGraph with distances %r" % (TABLES[pat],))
        t1, t2 = TABLES[pat]
        ix = {(0, 1): 0, (0, 2): 1, (1, 2): 2}
        self.f1 = lambda s, i, j: float(t1[ix[(min(i, j), max(i, j))]])
        self.f2 = lambda s, i, j: float(t2[ix[(min(i, j), max(i, j))]])
        self.t = (t1, t2, ix)
        self.gen = 0
        for e in self.eps:
            edges = []
            for (i1, i2), x in ix.items():
                for (j1, j2), y in ix.items():
                    if abs(t1[x] - t2[y]) <= e:
                        edges.append((i1 * 3 + j1 + 1, i2 * 3 + j2 + 1))
                        edges.append((i1 * 3 + j2 + 1, i2 * 3 + j1 + 1))
            for k in (2, 3):
                self.wants[(e, k)] = {
                    tuple(sorted(((v - 1) // 3, (v - 1) % 3) for v in c))
                    for c in G.ref_cliques(9, edges, k)
                }
            self.wants[(e, "om")] = G.ref_omega(9, edges)

    def key(self, c):
        if len(c[0]) != len(c[1]):
            self.ctx.fail("%s: uneven correspondence %r" % (self.what, c))
        return tuple(sorted(zip(c[0], c[1])))

    def want(self, name):
        return self.wants[(self.eps[self.gen % 2], self.sizes[name])]

    def fresh(self):
        self.gen = 0
        self.g = lib.cm.L2LGraph(list("abc"), list("xyz"), self.f1, self.f2)
        self.g.epsilon = self.eps[0]
        self.g.build_edges()

    def open(self, name):
        return self.g.all_correspondences(self.sizes[name])

    def act(self, a, seq):
        g = self.g
        om = self.wants[(self.eps[self.gen % 2], "om")]
        if a == "rebuild":
            self.gen += 1
            g.epsilon = self.eps[self.gen % 2]
            g.build_edges()
        elif a == "reset":
            g.reset_search()
        elif a == "export":
            g.to_matrix()
        else:
            kw = {
                "max": {},
                "ub": dict(upper_bound=2, use_heuristic=False),
                "heur": dict(use_dfs=False),
                "fail": dict(lower_bound=om + 1),
            }[a]
            try:
                ans = self.key(g.get_correspondence(**kw))
            except RuntimeError:
                ans = None
            want = {"max": om, "ub": min(2, om), "fail": None, "heur": 0}[a]
            if (ans is None) != (want is None) or (want and len(ans) != want):
                self.fail(seq, "%s search gave %r" % (a, ans))

    def check(self, seq):
        self.act("max", seq + ("last search",))


class Iso(Corr):
    """IsoGraph of two graphs; the second one is replaced on a rebuild."""

    def __init__(self, ctx, pat):
        Sub.__init__(self, ctx, "IsoGraph %d" % pat)
        self.gen = 0
        self.G1 = pat
        self.eps = (pat ^ 5, 7 ^ pat)
        adj = lambda g, a, b: bool(g >> G.pair_index(3)[(min(a, b), max(a, b))] & 1)
        self.hold = [lib.small(3, pat), lib.small(3, self.eps[0]), lib.small(3, self.eps[1])]
        for e in self.eps:
            edges = []
            for i1, i2 in itertools.combinations((1, 2, 3), 2):
                for j1, j2 in itertools.permutations((1, 2, 3), 2):
                    if adj(pat, i1, i2) or not adj(e, j1, j2):
                        edges.append(((i1 - 1) * 3 + j1, (i2 - 1) * 3 + j2))
            for k in (2, 3):
                self.wants[(e, k)] = {
                    tuple(sorted(((v - 1) // 3 + 1, (v - 1) % 3 + 1) for v in c))
                    for c in G.ref_cliques(9, edges, k)
                }
            self.wants[(e, "om")] = max(1, G.ref_omega(9, edges))

    def fresh(self):
        self.gen = 0
        self.g = lib.cm.IsoGraph(self.hold[0], self.hold[1])
        self.g.build_edges()

    def act(self, a, seq):
        if a == "rebuild":
            self.gen += 1
            self.g.S2 = self.hold[1 + self.gen % 2]
            self.g.build_edges()
            return
        Corr.act(self, a, seq)


def life(ctx, n, g):
    """The graph's last reference is dropped after every number of steps."""
    edges = G.edges_of(n, g)
    om = max(1, G.omega(n, g))
    for kind in ("u", "w"):
        for k in (1, 2, 3) if kind == "u" else (2,):
            if kind == "u":
                sub = U(ctx, n, edges, om, "%d vertices, edges %r" % (n, edges))
                sub.sizes = {"A": k, "B": 2, "C": 3}
            else:
                w = tables(n)[6]
                best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, g))
                sub = W(ctx, n, edges, w, best, "%d vertices, edges %r, weights %r" % (n, edges, w))
            for steps in range(len(sub.want("A")) + 2):
                sub.fresh()
                a, b = sub.start("A"), sub.start("B")
                for _ in range(steps):
                    a.step(("A",))
                sub.g = None
                gc.collect(0)
                # reuse the memory, if it was given back
                junk = [lib.small(4, x) for x in (63, 0, 21)]
                a.finish(("A",) * steps + ("del graph",))
                a.it = None
                b.finish(("A",) * steps + ("del graph", "del A"))
                ctx.states += 1
                ctx.transitions += steps + 6
    # correspondence iterators, wrapped and not
    for wrap in (True, False):
        for steps in range(4):
            gr = lib.cm.L2LGraph(
                [1.0, 2.0, 4.0], [1.0, 2.0, 4.0],
                lambda s, i, j: abs(s[i] - s[j]), lambda s, i, j: abs(s[i] - s[j]))
            gr.epsilon = 0.0
            gr.build_edges()
            it = gr.all_correspondences(2, wrap)
            got = [next(it) for _ in range(steps)]
            del gr
            gc.collect(0)
            junk = [lib.small(4, x) for x in (63, 0, 21)]
            got += list(it)
            if len(got) != 6:
                ctx.fail("correspondences after del graph: %d instead of 6" % len(got))
            if next(it, None) is not None:
                ctx.fail("correspondence iterator goes on after its end")
            ctx.states += 1
            ctx.transitions += 9


def member(ctx, n, g, t):
    """A graph of n vertices with edge mask g; weighted with table t if given."""
    edges = G.edges_of(n, g)
    what = "%d vertices, edges %r" % (n, edges)
    if t is None:
        return U(ctx, n, edges, max(1, G.omega(n, g)), what)
    w = tables(n)[t]
    best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, g))
    return W(ctx, n, edges, w, best, what + ", weights %r" % (w,))


def schedules(a, b, most):
    """All schedules of a and b steps with up to `most` switches, and the regular ones."""
    seen = set()
    for first in (0, 1):
        n = (a, b) if first == 0 else (b, a)
        # x, y: steps before the first switch, steps of the other before the second
        for x in range(n[0] + 1):
            for y in range(1, n[1] + 1):
                if most < 3 or y == n[1]:
                    mids = [n[0] - x]
                else:
                    mids = range(1, n[0] - x + 1)
                for m in mids:
                    s = (first,) * x + (1 - first,) * y + (first,) * m + (1 - first,) * (n[1] - y)
                    s += (first,) * (n[0] - x - m)
                    seen.add(s)
        for k in range(1, max(a, b) + 1):
            left = list(n)
            s = ()
            while any(left):
                for i in (0, 1):
                    m = min(k, left[i])
                    s += (first ^ i,) * m
                    left[i] -= m
            seen.add(s)
    return sorted(seen)


def pair(ctx, one, two, most):
    """Two iterators of two objects."""
    for x, y in itertools.product("ABC", repeat=2):
        if len(set(one.sizes.values())) < 3 and x == "C" or len(set(two.sizes.values())) < 3 and y == "C":
            continue
        a, b = len(one.want(x)) + 1, len(two.want(y)) + 1
        for s in schedules(a, b, most if a + b <= 24 else 2):
            one.fresh()
            two.fresh()
            its = (one.start(x), two.start(y))
            for i in s:
                its[i].step(s)
            for it in its:
                if not it.over:
                    it.sub.fail(s, "%s did not end" % it.name)
            ctx.states += 1
            ctx.transitions += len(s)
    ctx.outcome((one.what, two.what))


def run(case, ctx):
    kind = case[0]
    if kind in ("pair", "pair3"):
        if kind == "pair":
            subs = []
            for n, out, t in (PAIR[case[1]], PAIR[case[2]]):
                subs.append(member(ctx, n, (1 << G.npairs(n)) - 1 - sum(1 << i for i in out), t))
            pair(ctx, subs[0], subs[1], 3)
        else:
            for t1, t2 in ((None, None), (1, 6), (6, 3)):
                pair(ctx, member(ctx, 3, case[1], t1), member(ctx, 3, case[2], t2), 3)
        return
    if kind == "life":
        life(ctx, case[1], case[2])
    elif kind == "fam":
        n, edges, om = F.build(case[1])
        s = U(ctx, n, edges, om, repr(case[1]))
        if n > 100:
            s.sizes = {"A": 3, "B": 3, "C": 4}
        s.walk(case[2], case[3])
    elif kind == "wfam":
        n, edges, w, best = fam_weights(case[1], (1.0, 2.0, 1.5))
        W(ctx, n, edges, w[1:], best, repr(case[1])).walk(case[2], case[3])
    elif kind == "corr":
        Corr(ctx, case[1]).walk(case[2], case[3])
    elif kind == "iso":
        Iso(ctx, case[1]).walk(case[2], case[3])
    else:
        n, g = case[1], case[2]
        edges = G.edges_of(n, g)
        what = "%d vertices, edges %r" % (n, edges)
        if kind in ("w", "wweave"):
            for t in (case[3],) if kind == "w" else (1, 3, 6):
                w = tables(n)[t]
                best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, g))
                s = W(ctx, n, edges, w, best, what + ", weights %r" % (w,))
                if kind == "w":
                    s.walk(case[4], case[5])
                elif len(s.want("B")) + len(s.want("C")) <= 10:
                    s.weave("BC")
            return
        s = U(ctx, n, edges, max(1, G.omega(n, g)), what)
        if kind == "u":
            s.walk(case[4], case[5])
        elif kind == "weave3":
            for ks in ((2, 2, 2), (1, 2, 3), (2, 3, 2)):
                s.sizes = dict(zip("ABC", ks))
                if sum(len(s.want(x)) for x in "ABC") <= 6:
                    s.weave("ABC")
        else:
            for k1, k2 in itertools.product((1, 2, 3, 4), repeat=2):
                s.sizes = {"A": k1, "B": k2, "C": 2}
                if k1 <= k2 and len(s.want("A")) + len(s.want("B")) <= 9 or (k1, k2) == (2, 2):
                    s.weave("AB")
