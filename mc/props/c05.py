"""Timed search under a clock that the check controls (a preloaded clock that stands
still and jumps past the limit at the k-th query), run on the real code:
for every labelled graph on up to 5 vertices and several bounds, every expiry point
k of the first call, then every expiry point of the continued call (a third
interruption on up to 4 vertices), then continuation with a clock that stands still
until the end; every graph on 6 vertices with every two expiry points and four choices of bounds and
methods; every
graph on 7 vertices, and structured graphs across machine words, with a clock that
never expires, and some structured graphs with every expiry point.  A search that was
cut short at every expiry point is followed by one with other bounds that is not
continued (and, on up to 4 vertices, is itself cut short at every point and continued;
on 6 vertices with fewer bounds), also where the largest clique hides behind vertices of
higher degree, at every choice of its vertex numbers.
Graphs whose full search would take years are searched with many expiry points: the
call has to come back.  For limits from a millisecond to a day, time that stays below the
limit does not matter and time that passes it does, at every look at the clock.
Oracle: exact clique number; adjacency.
State = (graph, arguments, expiry points so far); transition = one call; trace =
one (graph, arguments) with its whole tree of expiry points."""
import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c01 import split

CLOCK = True
ASSUMPTIONS = [
    "time is read through clock_gettime, gettimeofday, time or clock of the C library",
    "the arguments stay the same while a search is continued",
]


# parts of complete multipartite graphs: 3^25 and more cliques of the largest size
LONG = ((3,) * 25, (4,) * 20, (3,) * 40, (2,) * 70, (5,) * 30)


# edge masks of graphs with 6 vertices
SCALE = (0b111111111111111, 0b101101111011101, 0b000011111100011, 0b110110110110110, 0b011111011111101)


def configs(n):
    return ((1, lib.DEF_UB, True), (1, lib.DEF_UB, False), (2, lib.DEF_UB, False),
            (1, 2, False), (1, 3, True), (n, lib.DEF_UB, False))


def blocks(tier):
    b = []
    for s in ((63, 70), (64, 64), (65, 65), (66, 64)):
        b.append(["bip", s])
    b.append(["bip2", (129, 129)])
    for m in (1, 3, 8, 15, 29, 30, 31, 32, 60, 61, 62, 63, 64, 65, 66, 125, 126, 127, 128):
        b.append(["join", m])
    for H in range(8):
        b.append(["far", H])
    b.append(["turan"])
    b.append(["stop"])
    for i in range(len(LONG)):
        b.append(["long", i])
    for m in (3, 8, 29, 60, 61, 62, 63, 64):
        b.append(["expire", m])
    for n in range(1, 6):
        b += split(n, 64 if n == 5 else (8 if n == 4 else 1), "tree")
        b += split(n, 64 if n == 5 else (8 if n == 4 else 1), "other")
    b += split(6, 128, "other")
    for d in F.DECOYS:
        b.append(["decoy", d])
    for g in SCALE:
        b.append(["scale", g])
    b += split(6, 128, "single")
    b += split(7, 64, "still")
    if tier != "quick":
        b += split(6, 512, "tree")
        b += split(7, 512, "single")
    return b


def cases(block):
    kind = block[0]
    if kind == "tree":
        n = block[1]
        for g in range(block[2], block[3]):
            for cfg in configs(n):
                yield ("tree", n, g, cfg)
    elif kind == "other":
        n = block[1]
        for g in range(block[2], block[3]):
            yield ("other", n, g)
    elif kind == "decoy":
        for d in F.decoy_family([block[1]]):
            yield ("decoy", d)
    elif kind == "scale":
        yield ("scale", 6, block[1])
    elif kind == "long":
        yield ("long", LONG[block[1]])
    elif kind == "single":
        n = block[1]
        for g in range(block[2], block[3]):
            yield ("single", n, g, (1, lib.DEF_UB, False))
    elif kind == "still":
        for g in range(block[2], block[3]):
            yield ("still", block[1], g, (1, lib.DEF_UB, bool(g & 1)))
    elif kind == "bip":
        for d in F.bip_family([tuple(block[1])], F.LAYOUTS, 3, (1, 2, 3, 7)):
            yield ("fam", d)
    elif kind == "bip2":
        for d in F.bip_family([tuple(block[1])], ["mix"], 2, (1,)):
            yield ("fam", d)
    elif kind == "join":
        for d in F.join_family([block[1]], 3, range(8)):
            yield ("fam", d)
    elif kind == "far":
        for d in F.far_family(3, [block[1]]):
            if d[1] < 5000 or (d[3] in (1, 17) and d[1] % 2):
                yield ("fam", d)
    elif kind == "turan":
        for s in ((2, 2, 2), (3, 3, 3), (1, 2, 3, 4), (5, 5, 5), (2, 2, 2, 2), (21, 21, 21), (32, 32, 32)):
            yield ("fam", ("turan", s))
    elif kind == "stop":
        for s in ((2,) * 5, (3,) * 4, (3,) * 5, (4,) * 4, (1, 2, 3, 4, 5), (4,) * 5, (30, 30, 30)):
            yield ("stop", ("turan", s))
    elif kind == "expire":
        for H in (0, 1, 2, 3, 7):
            for where in ("first", "last", "spread"):
                yield ("expire", ("join", block[1], where, 3, H))


def other(n, first, second, few=False):
    """Every search cut short at every point, then every other one, not continued."""
    for a in first:
        _, _, q, _ = a.run_path([0])
        for k in range(2, q + 1, 1 + (few and q // 16)):
            for b in second:
                g, _, _, done = a.run_path([k])
                if done:
                    break
                ans, done, q2 = b.call(g, 0, False)
                hist = ["(%d, %d): %d" % (a.lb, a.ub, k), "not continued"]
                b.judge(hist, ans, done, 0, True)
                if n > 4:
                    continue
                for k2 in range(2, q2 + 1):
                    g, _, _, _ = a.run_path([k])
                    ans, done, _ = b.call(g, k2, False)
                    size = b.judge(hist + [k2], ans, done, 0, False)
                    b.finish(hist + [k2], g, size)


def long(ctx, parts):
    """The call has to come back although the search has years to go."""
    n, edges, om = F.build(("turan", parts))
    adj = G.adj_sets(n, edges)
    arr = G.edge_array(edges)
    valid = lambda c: all(1 <= v <= n for v in c) and G.is_clique(adj, c)
    for cfg in ((1, lib.DEF_UB, True), (1, lib.DEF_UB, False), (2, om, True), (om + 1, lib.DEF_UB, False)):
        s = Sub(ctx, lambda: lib.cm.Graph.from_edgelist(arr, n), valid, om, cfg, "multipartite %r" % (parts,))
        for k in list(range(1, 40)) + [2**i for i in range(6, 15)]:
            # three calls, each cut short; all looks from the k-th on show a later
            # time, so that one which only sets the start does not matter
            g = s.make()
            size = 0
            for i, x in enumerate((k, 1, k)):
                ans, done, q = s.call(g, x, i > 0, tick=True)
                size = s.judge([k, 1, k][: i + 1], ans, done, size, False)
                if q == 0:
                    ctx.fail("%s: never looked at the clock" % s.what)
            ctx.states += 1
    ctx.outcome(parts)


def scale(ctx, n, g, sub):
    """Times just below the limit do not matter, those just above do."""
    s = sub((1, lib.DEF_UB, False))
    _, _, q, _ = s.run_path([0])
    for limit in (0.001, 0.25, 1.0, 5.0, 90.0, 86400.0):
        for k in range(1, q + 1):
            gr = s.make()
            ans, done, q2 = s.call(gr, k, False, limit, limit * 0.75)
            s.judge(["limit %r" % limit, k, "not passed"], ans, done, 0, True)
            # the same point with the limit passed has to act as a late one does
            a, b = s.make(), s.make()
            r = s.call(a, k, False, limit, limit * 1.5)
            t = s.call(b, k, False, limit, limit * 50)
            size = s.judge(["limit %r" % limit, k, "passed"], r[0], r[1], 0, False)
            if r != t:
                ctx.fail("%s, limit %r, expiry point %d: %r if passed by half, %r if long passed" % (s.what, limit, k, r, t))
            s.finish(["limit %r" % limit, k, "passed"], a, size)
        ctx.states += 2 * q


class Sub:
    """One graph with one set of arguments."""

    def __init__(self, ctx, make, valid, om, cfg, what):
        self.ctx, self.make, self.valid, self.om = ctx, make, valid, om
        self.lb, self.ub, self.heur = cfg
        self.what = what

    def call(self, g, k, cont, limit=5.0, by=100.0, tick=False):
        """One call whose clock jumps by so many seconds at query k (0: never)."""
        c = self.ctx.clock
        c.mc_arm(k, round(by * 1e9), tick)
        try:
            ans = g.get_max_clique(
                lower_bound=self.lb, upper_bound=self.ub, time_limit=limit,
                use_heuristic=self.heur, use_dfs=True, continue_search=cont,
            )
        except RuntimeError:
            ans = None
        finally:
            q = c.mc_disarm()
        self.ctx.transitions += 1
        return ans, g.search_done, q

    def judge(self, hist, ans, done, prev, final):
        ctx = self.ctx
        what = "%s with bounds (%d, %d), use_heuristic=%s, expiry points %r" % (
            self.what, self.lb, self.ub, self.heur, hist)
        if ans is None:
            if self.lb <= 1:
                ctx.fail("%s raised RuntimeError" % what)
        else:
            if not ans or not self.valid(ans):
                ctx.fail("%s returned %r, which is not a clique" % (what, ans))
            if len(ans) > self.ub or len(ans) < self.lb:
                ctx.fail("%s returned %r, outside the bounds" % (what, ans))
        size = 0 if ans is None else len(ans)
        if size < prev:
            ctx.fail("%s returned %r after a clique of size %d" % (what, ans, prev))
        if final and not done:
            ctx.fail("%s: search_done is False after a search with time left" % what)
        if done or final:
            lib.judge_max(ctx, what + " (search_done)", self.valid, self.om, self.lb, self.ub, ans)
        return size

    def run_path(self, ks):
        """Fresh graph, calls with expiry points ks; judges the last one.
        Returns (graph, size, queries of the last call, done)."""
        g = self.make()
        size = 0
        for i, k in enumerate(ks):
            ans, done, q = self.call(g, k, i > 0)
            size = self.judge(ks[: i + 1], ans, done, size, k == 0)
        self.ctx.states += 1
        if not done:
            self.ctx.count("interrupted")
        return g, size, q, done

    def finish(self, ks, g, size):
        """Continue to the end on the given object."""
        ans, done, q = self.call(g, 0, True)
        size = self.judge(ks + [0], ans, done, size, True)
        ans, done, q = self.call(g, 0, True)
        self.judge(ks + [0, 0], ans, done, size, True)

    def pairs(self, most=10**6):
        """Every expiry point, then every one of the continued search, then the end."""
        _, _, q, _ = self.run_path([0])
        for k in range(2, q + 1 if q <= most else 0):
            k2 = q2 = 2
            while k2 <= q2:
                g = self.make()
                ans, done, _ = self.call(g, k, False)
                if done:
                    break
                size = self.judge([k], ans, done, 0, False)
                ans, done, q2 = self.call(g, k2, True)
                size = self.judge([k, k2], ans, done, size, False)
                ans, done, _ = self.call(g, 0, True)
                self.judge([k, k2, 0], ans, done, size, True)
                self.ctx.states += 1
                k2 += 1

    def tree(self, depth, ks=()):
        """All expiry points up to `depth` interruptions."""
        ks = list(ks)
        g, size, q, done = self.run_path(ks + [0])
        if depth == 0:
            return
        for k in range(2, q + 1):
            g, size, _, done = self.run_path(ks + [k])
            self.finish(ks + [k], g, size)
            if depth > 1:
                self.tree(depth - 1, ks + [k])
        if not ks:
            # a timed-out search that is not continued starts afresh
            for k in range(2, q + 1):
                for limit in (-1.0, 0.0, 5.0):
                    g, size, _, done = self.run_path([k])
                    ans, done, _ = self.call(g, 0, False, limit)
                    self.judge([k, "fresh", limit], ans, done, 0, True)
                # nor does one that is continued after a reset
                g, size, _, done = self.run_path([k])
                g.reset_search()
                if g.search_done:
                    self.ctx.fail("%s: search_done is True after reset_search" % self.what)
                ans, done, _ = self.call(g, 0, True)
                self.judge([k, "reset"], ans, done, 0, True)
            # no limit: the clock does not matter
            g = self.make()
            ans, done, _ = self.call(g, 1, False, -1.0)
            self.judge(["no limit"], ans, done, 0, True)
        self.ctx.outcome((self.om, q))


def run(case, ctx):
    kind = case[0]
    if kind in ("fam", "expire", "stop", "decoy"):
        n, edges, om = F.build(case[1])
        adj = G.adj_sets(n, edges)
        arr = G.edge_array(edges)
        valid = lambda c: all(1 <= v <= n for v in c) and G.is_clique(adj, c)
        make = lambda: lib.cm.Graph.from_edgelist(arr, n)
        if kind == "decoy":
            sub = lambda lb, ub=lib.DEF_UB: Sub(ctx, make, valid, om, (lb, ub, False), repr(case[1]))
            other(n, [sub(om), sub(om + 1), sub(1, 2)], [sub(1)], n > 10)
            sub(1).pairs(50)
            return
        if kind == "fam":
            for cfg in ((1, lib.DEF_UB, True), (1, lib.DEF_UB, False), (max(om - 1, 0), om, False)):
                s = Sub(ctx, make, valid, om, cfg, repr(case[1]))
                s.run_path([0])
                if n > 3000:
                    break
            return
        for cfg in ((1, lib.DEF_UB, True), (1, lib.DEF_UB, False)):
            s = Sub(ctx, make, valid, om, cfg, repr(case[1]))
            g, size, q, done = s.run_path([0])
            if kind == "stop":
                # a full search looks at the clock far more often than a search may
                # that is only unwinding after its time is over
                # (the first few looks may set the start of the search)
                for k in [x for x in range(2, q) if x <= 40 or not x & (x - 1)]:
                    g, size, q2, done = s.run_path([k])
                    if k > 8 and q2 > k + (n + 1) ** 2:
                        ctx.fail("%r: %d looks at the clock after its limit passed" % (case[1], q2 - k))
                    s.finish([k], g, size)
                if q > 2 + (n + 1) ** 2:
                    ctx.count("stop_nontrivial")
                continue
            # every expiry point where there are few, else all of the first and
            # last ones and the ones around powers of two in between
            for k in range(2, q + 1):
                if q > 400 and 60 < k < q - 60 and k & (k - 1) and (k + 1) & k:
                    continue
                g, size, _, done = s.run_path([k])
                s.finish([k], g, size)
            ctx.outcome((om, q))
        return
    if kind == "long":
        long(ctx, case[1])
        return
    n, g = case[1], case[2]
    om = int(G.omega_table(n)[g])
    sub = lambda cfg: Sub(
        ctx, lambda: lib.small(n, g), lambda c: lib.small_ok(n, g, c), om, cfg,
        "%d vertices, edges %r" % (n, G.edges_of(n, g)),
    )
    if kind == "other":
        subs = [sub((lb, lib.DEF_UB, False)) for lb in (2, 3, 4)]
        if n == 6:
            other(n, subs[:2], [sub((1, lib.DEF_UB, False))])
        else:
            other(n, subs + [sub((1, 2, False)), sub((1, 3, True))], [sub(cfg) for cfg in configs(n)])
        return
    if kind == "scale":
        scale(ctx, n, g, sub)
        return
    s = sub(case[3])
    if kind == "still":
        s.run_path([0])
    elif kind == "single":
        s.tree(1)
        s.pairs()
        for cfg in ((1, lib.DEF_UB, True), (2, lib.DEF_UB, False), (1, 3, False)):
            sub(cfg).pairs()
    else:
        s.tree(3 if n <= 4 else 2)
