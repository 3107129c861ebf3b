"""Every way of writing a call, on the real code: for every public function of Graph,
NWGraph, the correspondence graphs, AlignGraph, MaskFilter and IsoGraph, every
combination of the values of a small table for each argument, every number of
arguments given by position with the rest by name, and every subset of those that have their documented default
left out; whole numbers given as Python or numpy numbers of every kind; for constructors
also every subset of arguments set as attributes afterwards.  Searches are run on new objects and on
objects whose search was cut short, under a controlled clock, so that every argument makes a
difference.  Complete graphs of up to 4100 vertices, every share of control points in hundredths, and correspondences of
2 to 40 and of up to 257 elements, with nothing but defaults.
Oracle: the same call with all arguments given by name, which itself is judged where the
answer is determined (sizes, edges, weights).  State = one object and one
assignment of values; transition = one call; trace = one assignment with all its forms."""
import itertools
import os
import warnings

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from .c02 import BIG, tables

ASSUMPTIONS = ["argument values come from a fixed table"]
CLOCK = True
warnings.simplefilter("ignore")
REQ = object()
CORR = ("L2L", "A2A", "A2L", "L2A", "Align", "Iso")
NUMS = ("int", "int64", "uint64", "int32", "uint16", "int8")
SEARCHED = [("u", 5, 0b0111011001), ("u", 6, 0b110110111011101), ("u", 4, 0b111111), ("u", 3, 0), ("d", 2, 0), ("d", 5, 0)]
PTS1 = ((0.0, 0.0), (3.0, 0.0), (3.0, 5.0), (1.0, 4.0))
PTS2 = ((1.0, 1.0), (1.0, 4.0), (6.0, 4.0))


def blocks(tier):
    b = []
    for i in range(len(SEARCHED)):
        for j in range(64):
            b.append(["max", i, j])
        for j in range(16):
            b.append(["wmax", i, j])
    for c in CORR:
        for p in (0, 1, 2):
            for j in range(128):
                b.append(["corr", c, p, j])
            b.append(["all", c, p])
    for c in CORR[:4]:
        for j in range(16):
            b.append(["make", c, j])
    for k in ("edgelist", "matrix", "adjlist", "file", "weight", "cliques", "cond", "filter", "mask", "iso", "align"):
        b.append(["call", k])
    for n in (2, 255, 256, 257, 300, 513):
        b.append(["default", n])
    for n in (1030, 2050, 4100):
        b.append(["full", n])
    b.append(["share"])
    for c in CORR:
        for n in list(range(2, 41)) + ([63, 64, 65, 127, 128, 129, 255, 256, 257] if c != "Iso" else []):
            b.append(["many", c, n])
    return b


def cases(block):
    kind = block[0]
    if kind in ("max", "wmax"):
        for cut in (0, 1) if kind == "max" else (0,):
            yield (kind, block[1], block[2], cut)
    elif kind == "corr":
        for cut in (0, 1):
            yield (kind, block[1], block[2], block[3], cut)
    elif kind == "make":
        for e in (0, 1):
            yield (kind, block[1], block[2], e)
    else:
        yield tuple(block)


def number(x, kind):
    if type(x) is int and kind != "int":
        t = np.dtype(kind).type
        if np.iinfo(t).min <= x <= np.iinfo(t).max:
            return t(x)
    return x


def forms(params, values):
    """Every way to write the call: positional and named arguments."""
    names = [p[0] for p in params]
    for k in range(len(params) + 1):
        rest = range(k, len(params))
        free = [i for i in rest if params[i][1] is not REQ and same(params[i][1], values[i])]
        for out in itertools.chain.from_iterable(itertools.combinations(free, r) for r in range(len(free) + 1)):
            yield values[:k], {names[i]: values[i] for i in rest if i not in out}


def same(a, b):
    return type(a) is type(b) and a is not None and a == b or a is b


def attempt(f, *a, **kw):
    try:
        return ("ok", f(*a, **kw))
    except RuntimeError:
        return ("error", None)


def told(a, kw):
    return "(%s)" % ", ".join([repr(x)[:60] for x in a] + ["%s=%s" % (k, repr(v)[:60]) for k, v in kw.items()])


def try_all(ctx, what, params, values, outcome, judge=None, nums=NUMS[:1]):
    """outcome(args, kwargs) makes the call on a new object and describes the answer."""
    names = [p[0] for p in params]
    full = dict(zip(names, values))
    want = outcome((), full)
    if judge:
        judge(want, full, what + told((), full))
    ctx.states += 1
    ctx.transitions += 1
    for a, kw in forms(params, values):
        got = outcome(a, kw)
        ctx.transitions += 1
        if got != want:
            ctx.fail("%s%s gives %r, %s gives %r" % (what, told(a, kw), got, told((), full), want))
    for k in nums[1:]:
        kw = {x: number(v, k) for x, v in full.items()}
        got = outcome((), kw)
        ctx.transitions += 1
        if got != want:
            ctx.fail("%s%s (%s) gives %r, %s gives %r" % (what, told((), kw), k, got, told((), full), want))
    ctx.outcome((what, repr(want)))


SEARCH = [("lower_bound", 1), ("upper_bound", 0xFFFF), ("time_limit", -1.0), ("use_heuristic", True),
          ("use_dfs", True), ("continue_search", False)]


def choose(j, choices):
    v = []
    for c in choices:
        v.append(c[j % len(c)])
        j //= len(c)
    return tuple(v)


class Timed:
    """Objects under a clock that expires in the middle of a search."""

    def __init__(self, ctx, make):
        self.ctx, self.make = ctx, make
        ctx.clock.mc_arm(0, 0, 0)
        attempt(make().get_max_clique, time_limit=5.0, use_heuristic=False)
        self.looks = ctx.clock.mc_disarm()

    def call(self, f):
        self.ctx.clock.mc_arm(max(3, self.looks // 2), 100 * 10**9, 0)
        try:
            return f()
        finally:
            self.ctx.clock.mc_disarm()

    def new(self, cut):
        g = self.make()
        if cut:
            self.call(lambda: attempt(g.get_max_clique, time_limit=5.0, use_heuristic=False))
        return g


def judge_search(ctx, om):
    def judge(want, kw, what):
        lb, ub = kw["lower_bound"], kw["upper_bound"]
        how, size, done = want[:3]
        if not kw["use_heuristic"] and not kw["use_dfs"]:
            if how == "ok":
                ctx.fail("%s: a search with no method" % what)
            return
        m = min(om, ub)
        if size is not None and not (lb <= size <= m):
            ctx.fail("%s gives %r vertices, the best is %d" % (what, size, om))
        if not kw["use_dfs"] and done and not kw["continue_search"]:
            ctx.fail("%s: search_done is True" % what)
        if kw["use_dfs"] and kw["time_limit"] <= 0:
            if m < lb and how == "ok" or (m > lb or lb <= 1) and size != m:
                ctx.fail("%s gives %r, the right size is %d" % (what, want, m))
            if ub > om and not done:
                ctx.fail("%s: search_done is False" % what)

    return judge


def searched(i):
    kind, n, g = SEARCHED[i]
    if kind == "u":
        return n, list(G.edges_of(n, g)), max(1, G.omega(n, g))
    return F.build(list(F.decoy_family([F.DECOYS[n]], (0, 1)))[0])


def do_max(ctx, i, j, cut):
    n, edges, om = searched(i)
    t = Timed(ctx, lambda: lib.graph(n, edges))
    v = choose(j, ((1, om), (0xFFFF, max(1, om - 1)), (-1.0, 5.0), (True, False), (True, False), (False, True)))

    def outcome(a, kw):
        g = t.new(cut)
        how, c = t.call(lambda: attempt(g.get_max_clique, *a, **kw))
        return how, None if c is None else len(c), bool(g.search_done), t.call(lambda: len(g.get_max_clique()))

    # after a cut search the bounds of a continued one are those of the search before
    j = judge_search(ctx, om) if not cut else None
    try_all(ctx, "%d vertices, edges %r: get_max_clique" % (n, edges), SEARCH, v, outcome, j, NUMS)


def do_wmax(ctx, i, j):
    n, edges, om = searched(i)
    w = [1.0 + v * 5 % 7 for v in range(n)]
    best = G.ref_weight(n, edges, [0.0] + w)
    params = [("lower_bound", 1), ("upper_bound", 0xFFFF), ("use_heuristic", True), ("use_dfs", True)]
    v = choose(j, ((1, best + 0.5), (0xFFFF, best / 2), (True, False), (True, False)))

    def outcome(a, kw):
        g = lib.nwgraph(n, edges, w)
        how, c = attempt(g.get_max_clique, *a, **kw)
        return how, None if c is None else sum(w[x - 1] for x in c), bool(g.search_done)

    def judge(want, kw, what):
        how, s, done = want
        if not kw["use_heuristic"] and not kw["use_dfs"]:
            if how == "ok":
                ctx.fail("%s: a search with no method" % what)
        elif kw["lower_bound"] > best:
            if how == "ok":
                ctx.fail("%s gives weight %r, the best is %r" % (what, s, best))
        elif s is None or s > best or kw["use_dfs"] and s < min(best, kw["upper_bound"]):
            ctx.fail("%s gives weight %r, the best is %r" % (what, s, best))
        if not kw["use_dfs"] and done:
            ctx.fail("%s: search_done is True" % what)

    try_all(ctx, "%d vertices, edges %r, weights %r: get_max_clique" % (n, edges, w), params, v, outcome, judge, NUMS)


def accepts(p, i, j, a, b):
    return ((i + 2 * j + a * b) % 3 != 0, i != 0 or a < b, (i + j + a + b) % 2 == 0)[p]


ISO = ((4, 0b110111, 3, 0b101), (3, 0b011, 4, 0b101101), (4, 0b011110, 3, 0b111))


def corr(c, p):
    """A correspondence graph, as a function, and its edges."""
    m, k = 4, 3
    if c == "Iso":
        m, g1, k, g2 = ISO[p]
        e1, e2 = set(G.edges_of(m, g1)), set(G.edges_of(k, g2))
        ok = lambda i, j, a, b: tuple(sorted((a + 1, b + 1))) not in e2 or (i + 1, j + 1) in e1
    else:
        ok = lambda i, j, a, b: accepts(p, i, j, a, b)
    edges = [
        (i * k + a + 1, j * k + b + 1)
        for i, j in itertools.combinations(range(m), 2)
        for a, b in itertools.permutations(range(k), 2)
        if ok(i, j, a, b)
    ]

    def cond(S1, i, j, S2, a, b):
        return bool(accepts(p, i, j, a, b) if i < j else accepts(p, j, i, b, a))

    def make():
        if c == "Iso":
            g = lib.cm.IsoGraph(lib.small(m, g1), lib.small(k, g2))
            g.build_edges()
            return g
        s1 = np.array(PTS1) if c in ("A2A", "A2L", "Align") else list("pqrs")
        s2 = np.array(PTS2) if c in ("A2A", "L2A", "Align") else list("xyz")
        g = getattr(lib.cm, c + "Graph")(s1, s2)
        g.build_edges_with_condition(cond, True)
        return g

    return make, m * k, edges


def plain(x):
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, dict):
        return ("dict", sorted((k, plain(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return x


def shape(x):
    """The form of an answer and how many matches it has."""
    if isinstance(x, dict):
        return "dict", len(x["S1"])
    if len(x) == 3:
        return "dicts", len(x[2])
    kinds = "indices" if all(isinstance(y, (int, np.integer)) for y in list(x[0]) + list(x[1])) else "elements"
    return kinds, len(x[0])


def do_corr(ctx, c, p, j, cut):
    make, n, edges = corr(c, p)
    om = G.ref_omega(n, edges)
    t = Timed(ctx, make)
    v = choose(j, ((1, om), (0xFFFF, max(1, om - 1)), (-1.0, 5.0), (True, False), (True, False), (False, True), (True, False)))

    def outcome(a, kw):
        g = t.new(cut)
        how, r = t.call(lambda: attempt(g.get_correspondence, *a, **kw))
        form, size = (None, None) if r is None else shape(r)
        return how, size, bool(g.search_done), form

    js = judge_search(ctx, om)

    def judge(want, kw, what):
        if not cut:
            js(want, kw, what)
        if want[1] and (want[3] == "indices") != kw["return_indices"]:
            ctx.fail("%s returned %s" % (what, want[3]))

    params = SEARCH + [("return_indices", True)]
    try_all(ctx, "%sGraph, pattern %d: get_correspondence" % (c, p), params, v, outcome, judge)


def do_all(ctx, c, p):
    make, n, edges = corr(c, p)
    for k in (1, 2, 3):
        want = len(G.ref_cliques(n, edges, k))
        for ri in (True, False):

            def outcome(a, kw):
                return sorted(repr(plain(x)) for x in make().all_correspondences(*a, **kw))

            def judge(got, kw, what):
                if len(got) != want:
                    ctx.fail("%s yields %d, there are %d" % (what, len(got), want))

            try_all(ctx, "%sGraph, pattern %d: all_correspondences" % (c, p), [("size", REQ), ("return_indices", True)],
                    (k, ri), outcome, judge, NUMS)


D1 = {(0, 1): 1.0, (1, 0): 4.0, (0, 2): 3.0, (2, 0): 6.0, (1, 2): 5.0, (2, 1): 2.0, (0, 3): 8.0, (3, 0): 8.0,
      (1, 3): 0.5, (3, 1): 3.0, (2, 3): 1.0, (3, 2): 4.0}
D2 = {(0, 1): 4.0, (1, 0): 1.0, (0, 2): 1.0, (2, 0): 2.0, (1, 2): 3.0, (2, 1): 6.0}


def f1(S, i, j):
    return D1[i, j]


def f2(S, i, j):
    return D2[i, j]


def joined(c, d1, d2, sym1, sym2, eps):
    """The edges of the graph by its rule, or None if a metric is missing."""
    pts = {1: PTS1, 2: PTS2}
    tab = []
    for which, d, t, array in ((1, d1, D1, c[0] == "A"), (2, d2, D2, c[2] == "A")):
        if d is not None:
            tab.append(t)
        elif array:
            P = np.array(pts[which])
            tab.append({(i, j): float(np.sqrt(((P[i] - P[j]) ** 2).sum())) for i in range(len(P)) for j in range(len(P))})
        else:
            return None
    out = []
    for i, j in itertools.combinations(range(4), 2):
        for a, b in itertools.permutations(range(3), 2):
            x = lambda t, u, v, s: t[min(u, v), max(u, v)] if s else t[u, v]
            one = abs(x(tab[0], i, j, sym1) - x(tab[1], a, b, sym2)) <= eps
            two = abs(x(tab[0], j, i, sym1) - x(tab[1], b, a, sym2)) <= eps
            if sym1 and not sym2 or sym2 and not sym1 or not sym1 and not sym2:
                # one agreeing direction is enough
                one = one or two
            if one:
                out.append((i * 3 + a + 1, j * 3 + b + 1))
    return sorted(out)


def edge_set(g):
    return sorted(tuple(sorted(int(y) for y in x)) for x in g.to_edgelist())


def do_make(ctx, c, j, e):
    cls = getattr(lib.cm, c + "Graph")
    s1 = np.array(PTS1) if c[0] == "A" else list("pqrs")
    s2 = np.array(PTS2) if c[2] == "A" else list("xyz")
    params = [("set1", REQ), ("set2", REQ), ("d1", None), ("d2", None), ("is_d1_symmetric", True), ("is_d2_symmetric", True)]
    rest = choose(j, ((None, f1), (None, f2), (True, False), (True, False)))
    v = (s1, s2) + rest
    eps = (None, 0.75)[e]

    def build(g):
        if eps is not None:
            g.epsilon = eps
        how, _ = attempt(g.build_edges)
        return how, edge_set(g) if how == "ok" else None

    def outcome(a, kw):
        return build(cls(*a, **kw))

    want = joined(c, rest[0], rest[1], rest[2], rest[3], 1.1 if eps is None else eps)

    def judge(got, kw, what):
        if got[1] != want:
            ctx.fail("%s then build_edges gives %r instead of %r" % (what, got, want))

    try_all(ctx, "%sGraph" % c, params, v, outcome, judge)
    # the same, set as attributes
    for r in range(5):
        for late in itertools.combinations(range(2, 6), r):
            g = cls(s1, s2, **{params[i][0]: v[i] for i in range(2, 6) if i not in late})
            for i in late:
                setattr(g, params[i][0], v[i])
            got = build(g)
            ctx.transitions += 1
            if got[1] != want:
                ctx.fail("%sGraph with %r set afterwards gives %r instead of %r" % (c, [(params[i][0], v[i]) for i in late], got, want))


def do_call(ctx, k):
    cm = lib.cm
    edges = [(1, 2), (1, 3), (2, 3), (3, 4)]
    n = 5
    w = [1.0, 2.0, 4.0, 8.0, 16.0]

    def same_graph(weights=None):
        def judge(got, kw, what):
            if got != (n, edges, weights):
                ctx.fail("%s gives %r" % (what, got))

        return judge

    def report(g):
        ws = [g.get_clique_weight(clique=[v]) for v in range(1, g.n_vertices + 1)] if isinstance(g, cm.NWGraph) else None
        return g.n_vertices, edge_set(g), ws

    def maker(f):
        return lambda a, kw: report(f(*a, **kw))

    arr = G.edge_array(edges)
    wa = np.array(w)
    if k == "edgelist":
        p = [("edgelist", REQ), ("num_vertices", REQ)]
        try_all(ctx, "Graph.from_edgelist", p, (arr, n), maker(cm.Graph.from_edgelist), same_graph(), NUMS)
        try_all(ctx, "NWGraph.from_edgelist", p + [("weights", REQ)], (arr, n, wa), maker(cm.NWGraph.from_edgelist), same_graph(w), NUMS)
    elif k == "matrix":
        m = G.matrix(n, edges)
        try_all(ctx, "Graph.from_matrix", [("adjmat", REQ)], (m,), maker(cm.Graph.from_matrix), same_graph())
        try_all(ctx, "NWGraph.from_matrix", [("adjmat", REQ), ("weights", REQ)], (m, wa), maker(cm.NWGraph.from_matrix), same_graph(w))
    elif k == "adjlist":
        lst = [set(x) for x in G.adj_sets(n, edges)]
        p = [("num_vertices", REQ), ("num_edges", REQ), ("edges", REQ)]
        try_all(ctx, "Graph.from_adjlist", p, (n, 4, lst), maker(cm.Graph.from_adjlist), same_graph(), NUMS)
        try_all(ctx, "NWGraph.from_adjlist", p + [("weights", REQ)], (n, 4, lst, w), maker(cm.NWGraph.from_adjlist), same_graph(w), NUMS)
    elif k == "file":
        f = ctx.tmp("c21.mtx")
        g = lib.graph(n, edges)

        def write(a, kw):
            if os.path.exists(f):
                os.remove(f)
            g.to_file(*a, **kw)
            return report(cm.Graph.from_file(filename=f))

        try_all(ctx, "to_file", [("filename", REQ)], (f,), write, same_graph())
        try_all(ctx, "from_file", [("filename", REQ)], (f,), maker(cm.Graph.from_file), same_graph())
        os.remove(f)
    elif k == "weight":
        for c in ([1], [1, 2], [1, 2, 3], [3, 4], (3, 4), np.array([1, 2, 3])):
            want = sum(w[v - 1] for v in c)

            def judge(got, kw, what):
                if got != want:
                    ctx.fail("%s gives %r" % (what, got))

            try_all(ctx, "get_clique_weight", [("clique", REQ)], (c,),
                    lambda a, kw: lib.nwgraph(n, edges, w).get_clique_weight(*a, **kw), judge)
    elif k == "cliques":
        for s in (1, 2, 3, 4):
            want = sorted(G.ref_cliques(n, edges, s))

            def judge(got, kw, what):
                if got != want:
                    ctx.fail("%s gives %r" % (what, got))

            try_all(ctx, "all_cliques", [("size", REQ)], (s,),
                    lambda a, kw: sorted(tuple(sorted(c)) for c in lib.graph(n, edges).all_cliques(*a, **kw)), judge, NUMS)
        for s in (3, 3.0, 7, 6, 12, 5.0):
            exact = {c for q in (2, 3) for c in G.ref_cliques(n, edges, q) if sum(w[v - 1] for v in c) == s}

            def judge(got, kw, what):
                if not exact <= set(got) or len(set(got)) != len(got):
                    ctx.fail("%s gives %r" % (what, got))

            try_all(ctx, "NWGraph.all_cliques", [("size", REQ)], (s,),
                    lambda a, kw: sorted(tuple(sorted(c)) for c in lib.nwgraph(n, edges, w).all_cliques(*a, **kw)), judge, NUMS)
    elif k == "cond":
        for c in CORR[:5]:
            for p, only in itertools.product((0, 1, 2), (True, False)):

                def cond(S1, i, j, S2, a, b):
                    return bool(accepts(p, i, j, a, b) if i < j else accepts(p, j, i, b, a))

                def outcome(a, kw):
                    s1 = np.array(PTS1) if c in ("A2A", "A2L", "Align") else list("pqrs")
                    s2 = np.array(PTS2) if c in ("A2A", "L2A", "Align") else list("xyz")
                    cls = getattr(cm, c + "Graph")
                    g = cls(s1, s2) if c == "Align" else cls(s1, s2, f1, f2)
                    g.build_edges_with_condition(*a, **kw)
                    return edge_set(g)

                both = joined("A2A", None, None, True, True, 1.1) if c == "Align" else joined(c, f1, f2, True, True, 1.1)
                want = corr("L2L", p)[2]
                if not only:
                    want = [e for e in want if e in set(both)]

                def judge(got, kw, what):
                    if got != sorted(want):
                        ctx.fail("%s gives %r instead of %r" % (what, got, sorted(want)))

                try_all(ctx, "%sGraph.build_edges_with_condition" % c, [("condition_func", REQ), ("use_cfunc_only", REQ)],
                        (cond, only), outcome, judge)
    elif k in ("filter", "mask"):
        ctl = np.array([[0.0, 0.0], [1.0, 0.0], [2.0, 1.0]])
        mask = np.zeros((5, 7), dtype=bool)
        mask[0:3, 0:5] = True
        for q in (0.2, 0.5, 0.8, 1.0):

            def graph():
                g = cm.AlignGraph(np.array(PTS1), np.array(PTS2))
                g.epsilon = 2.0
                return g

            def by_filter(a, kw):
                g = graph()
                g.build_edges_with_filter(*a, **kw)
                return edge_set(g)

            def by_class(a, kw):
                from cliquematch.wrappers.aligngraph import MaskFilter

                g = graph()
                g.build_edges_with_condition(MaskFilter(*a, **kw), False)
                return edge_set(g)

            if k == "filter":
                p = [("control_points", REQ), ("filter_mask", REQ), ("percentage", REQ)]
                try_all(ctx, "build_edges_with_filter", p, (ctl, mask, q), by_filter)
            else:
                p = [("control_pts", REQ), ("img_mask", REQ), ("percentage", 0.8)]
                try_all(ctx, "MaskFilter", p, (ctl, mask, q), by_class)
    elif k == "iso":
        a1, a2 = lib.small(4, 0b110111), lib.small(3, 0b101)

        def outcome(a, kw):
            g = cm.IsoGraph(*a, **kw)
            g.build_edges()
            return edge_set(g)

        def judge(got, kw, what):
            if got != sorted(corr("Iso", 0)[2]):
                ctx.fail("%s gives %r" % (what, got))

        # the documentation and the code name these two differently
        judge(outcome((a1, a2), {}), {}, "IsoGraph")
        ctx.transitions += 1
    else:

        def outcome(a, kw):
            g = cm.AlignGraph(*a, **kw)
            g.build_edges()
            return edge_set(g)

        def judge(got, kw, what):
            want = joined("A2A", None, None, True, True, 1.1)
            if got != want:
                ctx.fail("%s gives %r instead of %r" % (what, got, want))

        try_all(ctx, "AlignGraph", [("set1", REQ), ("set2", REQ)], (np.array(PTS1), np.array(PTS2)), outcome, judge)


def do_default(ctx, n):
    """Nothing is bounded, timed or left out unless asked for."""
    edges = G.complete(range(1, n + 1))
    g = lib.graph(n, edges)
    c = g.get_max_clique()
    if sorted(c) != list(range(1, n + 1)) or not g.search_done:
        ctx.fail("complete graph on %d vertices: get_max_clique() gives %d vertices" % (n, len(c)))
    for kw in (dict(use_heuristic=False), dict(use_dfs=False), dict(lower_bound=n - 1), dict(upper_bound=n)):
        c = lib.graph(n, edges).get_max_clique(**kw)
        if sorted(c) != list(range(1, n + 1)):
            ctx.fail("complete graph on %d vertices: get_max_clique%s gives %d vertices" % (n, told((), kw), len(c)))
    w = [2.0 + v % 3 for v in range(n)]
    for f in (1.0, 16.0):
        h = lib.nwgraph(n, edges, [x * f for x in w])
        c = h.get_max_clique()
        if sorted(c) != list(range(1, n + 1)):
            ctx.fail("complete graph on %d vertices of weight %r: get_max_clique() gives %d vertices" % (n, sum(w) * f, len(c)))
    ctx.states += 6
    ctx.transitions += 7
    ctx.outcome(n)


def do_full(ctx, n):
    """The same, of a size that takes a matrix."""
    g = lib.cm.Graph.from_matrix(~np.eye(n, dtype=bool))
    for kw in (dict(), dict(use_heuristic=False), dict(use_dfs=False)):
        g.reset_search()
        c = g.get_max_clique(**kw)
        if sorted(c) != list(range(1, n + 1)):
            ctx.fail("complete graph on %d vertices: get_max_clique%s gives %d vertices" % (n, told((), kw), len(c)))
        ctx.transitions += 1
    for n, f in ((100, 1.0), (100, 600.0), (200, 300.0)):
        w = [f + v % 3 for v in range(n)]
        c = lib.nwgraph(n, G.complete(range(1, n + 1)), w).get_max_clique()
        if sorted(c) != list(range(1, n + 1)):
            ctx.fail("complete graph on %d vertices of weight %r: get_max_clique() gives %d vertices" % (n, sum(w), len(c)))
        ctx.transitions += 1
    ctx.states += 1
    ctx.outcome(n)


def do_share(ctx):
    """Every share, in hundredths, of control points on the mask, with the default."""
    MaskFilter = lib.cm.wrappers.aligngraph.MaskFilter
    pts = np.array([[0.0, 0.0], [4.0, 0.0]])
    ctl = np.array([[x + 0.5, 0.5] for x in range(100)])
    mask = np.zeros((2, 100), dtype=bool)
    for k in range(101):
        mask[0, :k] = True
        for q in (None, 0.8, 0.75, 0.9):
            g = lib.cm.AlignGraph(pts, pts)
            f = MaskFilter(ctl, mask) if q is None else MaskFilter(ctl, mask, q)
            g.build_edges_with_condition(f, True)
            # as they are, or turned by half a turn and out of the mask
            want = int(k >= 100 * (q or 0.8))
            if edge_set(g) != [(1, 4)][:want]:
                ctx.fail("MaskFilter with percentage %r, %d of 100 control points on the mask: edges %r" % (q, k, edge_set(g)))
            ctx.transitions += 1
        ctx.states += 1
    ctx.outcome("share")


def apart(n):
    """Whole numbers whose differences are all different."""
    p = next(q for q in itertools.count(max(3, n)) if all(q % d for d in range(2, int(q ** 0.5) + 1)))
    return [2 * p * i + i * i % p for i in range(n)]


def do_many(ctx, c, n):
    """Nothing but defaults, and everything corresponds."""
    cm = lib.cm
    if c == "Iso":
        # all of a graph without edges fits on a complete one, in any order
        full, empty = lib.graph(n, G.complete(range(1, n + 1))), lib.graph(n, [])
        make = lambda: cm.IsoGraph(full, empty)
        kws = (dict(use_dfs=False), dict(use_dfs=False, return_indices=False))
    else:
        x = apart(n)
        arr = np.array([(float(v), 0.0) for v in x])
        s1 = arr if c in ("A2A", "A2L", "Align") else [float(v) for v in x]
        s2 = arr if c in ("A2A", "L2A", "Align") else [float(v) for v in x]

        def dist(S, i, j):
            return float(abs(x[i] - x[j]))

        def make():
            g = cm.AlignGraph(s1, s2) if c == "Align" else getattr(cm, c + "Graph")(s1, s2, dist, dist)
            g.epsilon = 0.25
            return g

        kws = (dict(), dict(use_heuristic=False), dict(use_dfs=False), dict(return_indices=False))
    g = make()
    g.build_edges()
    for kw in kws:
        g.reset_search()
        size = shape(g.get_correspondence(**kw))[1]
        if size != n:
            ctx.fail("%sGraph of twice the same %d elements: get_correspondence%s gives %d matches" % (c, n, told((), kw), size))
        ctx.transitions += 1
    if n > 2:
        size = shape(next(g.all_correspondences(n)))[1]
        if size != n:
            ctx.fail("%sGraph: all_correspondences(%d) yields %d matches" % (c, n, size))
    ctx.states += 1
    ctx.outcome((c, n))


def run(case, ctx):
    kind = case[0]
    if kind == "max":
        do_max(ctx, *case[1:])
    elif kind == "wmax":
        do_wmax(ctx, case[1], case[2])
    elif kind == "corr":
        do_corr(ctx, *case[1:])
    elif kind == "all":
        do_all(ctx, case[1], case[2])
    elif kind == "make":
        do_make(ctx, *case[1:])
    elif kind == "call":
        do_call(ctx, case[1])
    elif kind == "full":
        do_full(ctx, case[1])
    elif kind == "share":
        do_share(ctx)
    elif kind == "many":
        do_many(ctx, case[1], case[2])
    else:
        do_default(ctx, case[1])
