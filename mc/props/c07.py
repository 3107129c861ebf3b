"""Histories on one object, run on the real code for every case:
every sequence of 16 operations (exact, heuristic, timed, continued and bounded
searches, searches that must fail, full and abandoned enumerations, exports, resets,
calls with malformed arguments) of length 4 on every labelled graph with up to 4
vertices, of length 3 on every graph with 5 vertices, of length 4 on a table of these, and of length 2 on structured graphs across machine words; every sequence of
length 3 of 14 operations that include searches cut short by a controlled clock early,
midway and late, and timed continuations, on every graph with up to 4 vertices, of
length 2 on the structured graphs, and on graphs whose largest clique hides behind
vertices of higher degree, at every choice of its vertex numbers; the same for NWGraph
with its operations.  After every operation its answer, search_done and the printed
form are compared with what an object without a history does.
Oracle: exact clique number and clique lists; a fresh object for heuristic searches.
State = object after a prefix of a sequence; transition = one operation; trace =
one graph with all sequences that start with one operation."""
import itertools
import re

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c02 import BIG, fam_weights, tables

ASSUMPTIONS = [
    "operations come from a fixed table",
    "a timed search is continued with the bounds of the search before it",
    "small-scope: all graphs up to 5 vertices, larger ones by family",
]
CLOCK = True
HARD5 = (0, 1023, 0b1010101010, 0b0111011001, 0b1110000111, 0b1011111011, 0b1101110111)
OPS = ("max", "dfs", "heur", "ub2", "ub1", "lbfail", "lbtop", "lim", "timed", "cont", "enum2",
       "enum3", "drop", "export", "reset", "bad")
WOPS = ("max", "dfs", "heur", "ublow", "lbfail", "lbtop", "enum", "drop", "weight",
        "export", "reset", "bad")
TOPS = ("max", "heur", "ub2", "lbfail", "timed", "tlb", "tub2", "cutE", "cutM", "cutL", "tcont",
        "enum3", "bad", "reset")
SEARCH = {
    "max": {},
    "dfs": dict(use_heuristic=False),
    "heur": dict(use_dfs=False),
    "ub2": dict(upper_bound=2),
    "ub1": dict(upper_bound=1, use_heuristic=False),
    "timed": dict(time_limit=1e6, use_heuristic=False),
    "cont": dict(continue_search=True),
    "tub2": dict(time_limit=5.0, upper_bound=2, use_heuristic=False),
    "tcont": dict(time_limit=5.0, use_heuristic=False, continue_search=True),
    "cutE": dict(time_limit=5.0, use_heuristic=False),
    "cutM": dict(time_limit=5.0, use_heuristic=False),
    "cutL": dict(time_limit=5.0),
}


def blocks(tier):
    b = []
    fams = [("bip", 64, 64, "AB", (0, 62, 63), 3, 7), ("bip", 65, 66, "mix", (1, 63, 64), 3, 3),
            ("bip", 65, 63, "BA", (0, 1, 64), 3, 7), ("join", 5, "spread", 3, 3),
            ("join", 12, "last", 3, 2), ("far", 310, 255, 17, 4, 63), ("copies", 4, 63, 3)]
    for d in fams:
        for op in OPS:
            b.append(["fam", d, op, 2])
        for op in TOPS:
            b.append(["tfam", d, op, 2])
    for d in (("bip", 64, 64, "AB", (0, 62, 63), 3, 7), ("join", 5, "spread", 3, 3),
              ("bip", 65, 65, "mix", (0, 63, 64), 3, 7), ("far", 310, 255, 17, 3, 7)):
        for op in WOPS:
            b.append(["wfam", d, op, 2])
    for n in (1, 2, 3, 4):
        step = 8 if n == 4 else 64
        b += [["tall", n, g, min(g + step, 1 << G.npairs(n)), 3] for g in range(0, 1 << G.npairs(n), step)]
    for i in (2, 5, 6):
        for op in TOPS:
            b.append(["decoy", i, op, 3 if i == 2 else 2])
    for g in HARD5:
        for op in OPS:
            b.append(["deep", 5, g, op, 4])
        for t in (3, 6, 9):
            for op in WOPS:
                b.append(["wdeep", 5, g, op, t, 3])
    for n, l in ((1, 3), (2, 3), (3, 3)):
        b.append(["all", n, 0, 1 << G.npairs(n), l])
        b.append(["wall", n, 0, 1 << G.npairs(n), 2])
    b += [["all", 4, g, g + 1, 4] for g in range(64)]
    b += [["wall", 4, g, g + 1, 3] for g in range(64)]
    b += [["all", 5, g, g + 4, 3] for g in range(0, 1024, 4)]
    if tier != "quick":
        b += [["all", 5, g, g + 1, 4] for g in range(1024)]
        b += [["wall", 5, g, g + 1, 2] for g in range(1024)]
    return b


def cases(block):
    kind = block[0]
    if kind in ("fam", "wfam", "tfam"):
        for op in {"fam": OPS, "wfam": WOPS, "tfam": TOPS}[kind]:
            yield (kind, tt(block[1]), (block[2], op), block[3])
    elif kind in ("deep",):
        _, n, g, op, l = block
        for op2 in OPS:
            yield ("u", n, g, (op, op2), l)
    elif kind == "wdeep":
        _, n, g, op, t, l = block
        yield ("w", n, g, tuple(tables(n)[t]), (op,), l)
    elif kind == "tall":
        _, n, a, z, l = block
        for g in range(a, z):
            for op in TOPS:
                yield ("t", n, g, (op,), l)
    elif kind == "decoy":
        for d in F.decoy_family([F.DECOYS[block[1]]], (0, 1)):
            yield ("decoy", d, (block[2],), block[3])
    elif kind == "all":
        _, n, a, z, l = block
        for g in range(a, z):
            for op in OPS:
                yield ("u", n, g, (op,), l)
    elif kind == "wall":
        _, n, a, z, l = block
        for g in range(a, z):
            for w in tables(n)[1:12:2]:
                for op in WOPS:
                    yield ("w", n, g, tuple(w), (op,), l)


def tt(x):
    return tuple(tt(y) for y in x) if isinstance(x, (list, tuple)) else x


def drain(it, limit):
    out = []
    for c in it:
        out.append(tuple(sorted(c)))
        if len(out) > limit:
            break
    return sorted(out)


class U:
    """A Graph and what is to be expected of it."""

    ops = OPS

    def __init__(self, ctx, n, edges, om, what):
        self.ctx, self.n, self.om, self.what = ctx, n, om, what
        self.arr = G.edge_array(edges)
        self.adj = G.adj_sets(n, edges)
        self.edges = sorted(tuple(sorted(e)) for e in edges)
        self.lists = [set(s) for s in self.adj]
        self.by_k = {k: sorted(G.ref_cliques(n, edges, k)) for k in (2, 3)}
        self.heur = {}

    def make(self):
        return lib.cm.Graph.from_edgelist(self.arr, self.n)

    def valid(self, c):
        return all(1 <= v <= self.n for v in c) and G.is_clique(self.adj, c)

    def args(self, op):
        if op == "lbfail":
            return dict(lower_bound=self.om + 1)
        if op == "lbtop":
            return dict(lower_bound=max(self.om - 1, 1), use_heuristic=False)
        if op == "lim":
            return dict(upper_bound=self.om + 1, use_heuristic=False)
        if op == "tlb":
            return dict(lower_bound=self.om, time_limit=5.0, use_heuristic=False)
        return SEARCH[op]

    def looks(self):
        """How often a timed search of a fresh object looks at the clock."""
        if "q" not in self.heur:
            self.ctx.clock.mc_arm(0, 0, 0)
            lib.try_max(self.make(), **SEARCH["cutM"])
            self.heur["q"] = self.ctx.clock.mc_disarm()
        return self.heur["q"]

    def timed(self, g, op, seq):
        """A search under the controlled clock."""
        k = 0
        if op.startswith("cut"):
            k = max(3, {"E": 4, "M": self.looks() // 2, "L": self.looks() - 1}[op[3]])
        self.ctx.clock.mc_arm(k, 100 * 10**9, 0)
        try:
            ans = lib.try_max(g, **self.args(op))
        finally:
            self.ctx.clock.mc_disarm()
        if k:
            if not ans or not self.valid(ans) or len(ans) > self.om:
                self.fail(seq, "a search cut short gave %r" % (ans,))
            if g.search_done and len(ans) != self.om:
                self.fail(seq, "a search cut short gave %r, and search_done is True" % (ans,))
        return ans

    def fresh_heur(self):
        if "size" not in self.heur:
            ans = lib.try_max(self.make(), use_dfs=False)
            self.heur["size"] = 0 if ans is None else len(ans)
        return self.heur["size"]

    def fail(self, seq, msg):
        self.ctx.fail("%s, after %s: %s" % (self.what, " ".join(seq), msg))

    def printed(self, seq, g, done):
        m = re.search(r"search_done\s*[=:]\s*(\w+)", str(g))
        if m and m.group(1) not in (("True", "1") if done else ("False", "0")):
            self.fail(seq, "search_done is %r but is printed as %r" % (done, m.group(1)))

    def step(self, g, op, seq, done):
        """Apply op, judge its answer; returns the search_done to expect
        (None: not determined)."""
        n = self.n
        if op in SEARCH or op in ("lbfail", "lbtop", "lim", "tlb"):
            kw = self.args(op)
            lb, ub = kw.get("lower_bound", 1), kw.get("upper_bound", lib.DEF_UB)
            if op in ("tlb", "tub2", "tcont", "cutE", "cutM", "cutL"):
                ans = self.timed(g, op, seq)
                if op.startswith("cut"):
                    return None
                if op == "tcont" and not self.same(seq[:-1]):
                    if not ans or not self.valid(ans):
                        self.fail(seq, "search gave %r" % (ans,))
                    return None
            else:
                ans = lib.try_max(g, **kw)
            if op == "heur":
                if ans is None or not ans or not self.valid(ans):
                    self.fail(seq, "heuristic search gave %r" % (ans,))
                if len(ans) < self.fresh_heur():
                    self.fail(seq, "heuristic search gave %r, a fresh object gives %d vertices" % (ans, self.fresh_heur()))
                return False
            lib.judge_max(
                self.ctx, "%s, after %s: search" % (self.what, " ".join(seq)),
                self.valid, self.om, lb, ub, ans,
            )
            # a search that may stop at its upper bound need not go on to the end
            return True if ub > self.om else None
        if op in ("enum2", "enum3"):
            k = int(op[4])
            got = drain(g.all_cliques(k), len(self.by_k[k]) + 5)
            if got != self.by_k[k]:
                self.fail(seq, "all_cliques(%d) gave %r instead of %r" % (k, got[:30], self.by_k[k][:30]))
            return done
        if op == "drop":
            it = iter(g.all_cliques(2))
            c = next(it, None)
            if (c is None) != (not self.by_k[2]) or (c is not None and tuple(sorted(c)) not in self.by_k[2]):
                self.fail(seq, "all_cliques(2) began with %r" % (c,))
            return done
        if op == "export":
            self.export(g, seq)
            return done
        if op == "reset":
            g.reset_search()
            return False
        try:
            r = g.get_max_clique(use_heuristic=False, use_dfs=False)
            self.fail(seq, "a search with no method returned %r" % (r,))
        except RuntimeError:
            pass
        return done

    def same(self, before):
        """Has the last search, if any since a reset, the default bounds?"""
        for op in reversed(before):
            if op == "reset":
                return True
            if op in SEARCH or op in ("lbfail", "lbtop", "lim", "tlb"):
                if "lower_bound" in self.args(op) or "upper_bound" in self.args(op):
                    return False
                if op != "tcont":
                    return True
        return True

    def export(self, g, seq):
        e = sorted(tuple(sorted(int(y) for y in x)) for x in g.to_edgelist()[:, :2])
        if e != self.edges or g.n_vertices != self.n or g.n_edges != len(self.edges):
            self.fail(seq, "the graph changed: to_edgelist gives %r" % (e[:30],))
        if [set(s) for s in g.to_adjlist()] != self.lists:
            self.fail(seq, "to_adjlist gives %r" % (g.to_adjlist()[:10],))

    def walk(self, prefix, length):
        """All sequences of `length` operations beginning with prefix."""
        ops = self.ops
        for tail in itertools.product(ops, repeat=max(0, length - len(prefix))):
            seq = tuple(prefix) + tail
            g = self.make()
            done = False
            size = None
            for i, op in enumerate(seq):
                done = self.step(g, op, seq[: i + 1], done)
                now = g.search_done
                if done is None:
                    done = now
                elif bool(now) != done:
                    self.fail(seq[: i + 1], "search_done is %r" % (now,))
                self.printed(seq[: i + 1], g, now)
            # whatever happened, an exact search still finds the answer, before and
            # after a reset
            tail = ("max", "reset", "heur", "reset", "cont" if "cont" in ops else "dfs")
            if "tcont" in ops:
                tail = ("tcont", "reset", "tcont", "max", "reset", "heur", "reset", "tcont")
            for j, op in enumerate(tail):
                if op == "tcont":
                    if self.step(g, op, seq + tail[: j + 1], done) is None:
                        continue
                    if not g.search_done:
                        self.fail(seq + tail[: j + 1], "search_done is False")
                    continue
                last = self.step(g, op, seq + (op,), done)
                if op == "reset" and g.search_done:
                    self.fail(seq + (op,), "search_done is True")
            self.after_reset(g, seq)
            self.ctx.states += len(seq)
            self.ctx.transitions += len(seq) + 7
        self.ctx.outcome((prefix, self.om))

    def after_reset(self, g, seq):
        g.reset_search()
        ans = lib.try_max(g, use_dfs=False)
        if ans is None or len(ans) < self.fresh_heur():
            self.fail(seq + ("reset",), "heuristic search gave %r; a fresh object gives %d vertices" % (ans, self.fresh_heur()))


class T(U):
    ops = TOPS


class W(U):
    """An NWGraph and what is to be expected of it."""

    ops = WOPS

    def __init__(self, ctx, n, edges, w, best, what, full=True):
        U.__init__(self, ctx, n, edges, None, what)
        self.w = [0.0] + list(w)
        self.wa = np.array(w, dtype=np.float64)
        self.om = self.best = best
        ws = sorted({self.weight(c) for c in self.by_k[2] + self.by_k[3]})
        self.x = ws[len(ws) // 2] if ws else 1.0
        self.enum = drain(self.make().all_cliques(self.x), 100000)
        self.xs = {c for c in self.by_k[2] + self.by_k[3] if self.weight(c) == self.x}
        if not self.xs <= set(self.enum):
            ctx.fail("%s: all_cliques(%r) misses cliques" % (what, self.x))

    def make(self):
        return lib.cm.NWGraph.from_edgelist(self.arr, self.n, self.wa)

    def weight(self, c):
        return sum(self.w[v] for v in c)

    def fresh_heur(self):
        if "w" not in self.heur:
            ans = lib.try_max(self.make(), lower_bound=0, upper_bound=BIG, use_dfs=False)
            self.heur["w"] = 0 if ans is None else self.weight(ans)
        return self.heur["w"]

    def export(self, g, seq):
        e = g.to_edgelist()
        w = [g.get_clique_weight([v]) for v in range(1, self.n + 1)]
        e = sorted(tuple(sorted(int(y) for y in x)) for x in e[:, :2])
        if e != self.edges or g.n_vertices != self.n or g.n_edges != len(self.edges):
            self.fail(seq, "the graph changed: to_edgelist gives %r" % (e[:30],))
        if w != list(self.wa):
            self.fail(seq, "the weights changed: %r" % (w,))

    def step(self, g, op, seq, done):
        best = self.best
        kw = {
            "max": dict(),
            "dfs": dict(use_heuristic=False),
            "heur": dict(use_dfs=False),
            "ublow": dict(upper_bound=best / 2),
            "lbfail": dict(lower_bound=best + 0.5),
            "lbtop": dict(lower_bound=best - 0.125, use_heuristic=False),
        }.get(op)
        if kw is not None:
            kw = dict(dict(lower_bound=0, upper_bound=BIG), **kw)
            ans = lib.try_max(g, **kw)
            if op == "lbfail":
                if ans is not None:
                    self.fail(seq, "a search for more than the best weight returned %r" % (ans,))
                return True
            if ans is None or not ans or not self.valid(ans):
                self.fail(seq, "search gave %r" % (ans,))
            s = self.weight(ans)
            if op == "heur":
                if s < self.fresh_heur():
                    self.fail(seq, "heuristic search gave weight %r, a fresh object gives %r" % (s, self.fresh_heur()))
                return False
            if s < min(best, kw["upper_bound"]):
                self.fail(seq, "search gave %r of weight %r, the best is %r" % (ans, s, best))
            return True if kw["upper_bound"] > best else None
        if op == "enum":
            got = drain(g.all_cliques(self.x), len(self.enum) + 5)
            if got != self.enum:
                self.fail(seq, "all_cliques(%r) gave %r instead of %r" % (self.x, got[:30], self.enum[:30]))
            return done
        if op == "drop":
            it = iter(g.all_cliques(self.x))
            c = next(it, None)
            if (c is None) != (not self.enum) or (c is not None and tuple(sorted(c)) not in self.enum):
                self.fail(seq, "all_cliques(%r) began with %r" % (self.x, c))
            return done
        if op == "weight":
            c = self.enum[0] if self.enum else (1,)
            s = g.get_clique_weight(list(c))
            if s != self.weight(c):
                self.fail(seq, "get_clique_weight(%r) is %r" % (c, s))
            return done
        return U.step(self, g, op, seq, done)

    def after_reset(self, g, seq):
        g.reset_search()
        ans = lib.try_max(g, lower_bound=0, upper_bound=BIG, use_dfs=False)
        if ans is None or self.weight(ans) < self.fresh_heur():
            self.fail(seq + ("reset",), "heuristic search gave %r; a fresh object gives weight %r" % (ans, self.fresh_heur()))


def run(case, ctx):
    kind = case[0]
    if kind == "fam":
        n, edges, om = F.build(case[1])
        U(ctx, n, edges, om, repr(case[1])).walk(case[2], case[3])
    elif kind == "wfam":
        n, edges, w, best = fam_weights(case[1], (1.0, 2.0, 1.5))
        W(ctx, n, edges, w[1:], best, repr(case[1])).walk(case[2], case[3])
    elif kind in ("decoy", "tfam"):
        n, edges, om = F.build(case[1])
        T(ctx, n, edges, om, repr(case[1])).walk(case[2], case[3])
    elif kind in ("u", "t"):
        _, n, g, prefix, l = case
        (U if kind == "u" else T)(ctx, n, G.edges_of(n, g), max(1, G.omega(n, g)), "%d vertices, edges %r" % (n, G.edges_of(n, g))).walk(prefix, l)
    else:
        _, n, g, w, prefix, l = case
        best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, g))
        W(ctx, n, G.edges_of(n, g), w, best, "%d vertices, edges %r, weights %r" % (n, G.edges_of(n, g), w)).walk(prefix, l)
