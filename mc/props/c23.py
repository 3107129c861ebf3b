"""Lack of memory at every point, run on the real code for every case: for every object
of a table (graphs with 1 to 6 vertices, graphs across machine words, graphs whose largest
clique is not where the search starts, NWGraphs, correspondence graphs, AlignGraph,
IsoGraph), every operation before and every operation under test, the operation is
repeated on a new object for k = 1, 2, ... with the k-th allocation made during it
failing, until it makes fewer than k; after each failure every operation of the table
is tried on the object.  Construction from every representation is treated the same way.
Oracle: MemoryError or the right answer; then the answers of an object for which the
failed call was not made, from clique numbers and clique lists computed independently; the
memory that is held afterwards is that of a run without failures.
State = object after a failed call; transition = one operation; trace = one object with
one operation before and one under test."""
import gc
import warnings

import numpy as np

from .. import families as F
from .. import graphs as G
from .. import lib
from . import c07
from .c20 import BIGS, TABLE, Pairs, W, spec, subject

ASSUMPTIONS = [
    "operations come from a fixed table",
    "one allocation through operator new fails per history; memory taken by Python itself does not run out",
    "memory does not run out while the binding layer (pybind11) releases an object",
    "an enumeration during which memory ran out is not gone on with",
]
CLOCK = True
FAULT = True
warnings.simplefilter("ignore")
UOPS = ("max", "dfs", "heur", "ub2", "lim", "lbfail", "timed", "cutM", "tcont", "enum3", "hold", "more", "export", "text", "write", "reset")
WOPS = ("max", "dfs", "heur", "ublow", "lbfail", "enum", "hold", "more", "weight", "export", "text", "reset")
POPS = ("max", "heur", "cutM", "tcont", "hold", "holdel", "more", "export", "corr", "build", "rebuild", "reset")
BUFS = ("max", "dfs", "ub2", "lim", "lbfail", "cutM", "tcont", "hold", "more", "text", "reset")
BWFS = ("max", "dfs", "heur", "lbfail", "hold", "more", "reset")
# these return objects of the binding layer, which it leaks if it fails to register them
RETURNS = ("enum", "enum3", "hold", "holdel", "write")
MAKES = ("edgelist", "matrix", "adjlist", "file")


def table(o):
    kind = o[0]
    return {"u": UOPS, "w": WOPS, "wx": WOPS, "fam": BUFS, "wfam": BWFS}.get(kind, POPS)


def blocks(tier):
    small = [("u", n, g) for n, g in TABLE] + [("u", 6, 0b111111111111111)]
    ws = [("w", n, g, t) for (n, g), t in zip(TABLE, (3, 6, 9, 1, 3, 0))]
    # the order by weights is not that by the number of neighbours
    ws += [("wx", 11, tuple((1, v) for v in range(2, 7)) + tuple((v, v + 5) for v in range(2, 7)), (1.0,) + 5 * (3.0,) + 5 * (12.0,))]
    big = [("fam", d) for d in BIGS]
    big += [("fam", d) for i in (0, 2) for d in list(F.decoy_family([F.DECOYS[i]], (0, 1)))[:2]]
    # more vertices to discard at a step than a clique has
    big += [("fam", ("turan", (5, 5))), ("fam", ("turan", (7, 7, 7)))]
    wbig = [("wfam", d) for d in BIGS[:2] + (("far", 310, 255, 17, 3, 7),)]
    sets = [("corr", c, p) for c in ("L2L", "A2A") for p in (0, 1, 2)] + [("align", 0), ("align", 1)]
    sets += [("iso", p) for p in range(4)]
    b = []
    for o in small + ws + big + wbig + sets:
        for first in ("",) + table(o):
            b.append(["op", o, first])
    for n, g in TABLE + ((5, 1023), (6, 0b101010101010101)):
        for m in MAKES:
            b.append(["make", n, g, m])
    if tier != "quick":
        for n in (3, 4, 5):
            for g in range(1 << G.npairs(n)):
                b.append(["op", ("u", n, g), ""])
                b.append(["op", ("w", n, g, 6), ""])
                if n < 5:
                    for first in UOPS:
                        b.append(["op", ("u", n, g), first])
    return b


def cases(block):
    if block[0] == "make":
        yield spec(block)
        return
    o = spec(block[1])
    for op in table(o):
        yield ("op", o, block[2], op)


def act(ctx, s, op):
    g = s.g
    s.trace[0] += ((0, op),)
    if op == "text":
        s.seq += (op,)
        if str(g) != str(g):
            s.fail(s.seq, "printed differently the second time")
    elif op == "write":
        s.seq += (op,)
        p = ctx.tmp("w.mtx")
        g.to_file(p)
        again = lib.cm.Graph.from_file(p)
        s.export(again, s.seq)
    elif op == "corr":
        s.seq += (op,)
        c = g.get_correspondence(return_indices=True)
        form, s.form = getattr(s, "form", True), True
        c = s.decode(c)
        s.form = form
        if len(c) != s.om or not s.valid(c):
            s.fail(s.seq, "get_correspondence gave the vertices %r" % (c,))
        g.get_correspondence(return_indices=False)
        s.done = True
    elif op in ("build", "rebuild"):
        s.seq += (op,)
        if op == "rebuild" and hasattr(g, "build_edges_with_condition"):
            g.build_edges_with_condition(lambda *a: True, op == "build")
        else:
            g.build_edges()
        s.changed = True
    else:
        s.act(op)


def spare(ctx):
    """The binding layer cannot release an object while there is no memory."""
    for base in lib.cm.Graph.__mro__:
        if base.__name__ == "pybind11_object":
            for t in base.__subclasses__():
                if not ctx.memory.mc_spare(t):
                    raise AssertionError("cannot spare %r" % t)


def held(s):
    return s.it, s.left, s.seq, s.done


def wrong(ctx, s, k, op, e):
    ctx.fail("%s: after %s, with allocation %d failing, %s raised %s: %s" % (s.what, " ".join(s.seq) or "nothing", k, op, type(e).__name__, e))


def one(ctx, s, first, op, k, then):
    """first, then op with the k-th allocation failing, then another operation.
    Returns whether the allocation was made."""
    s.trace[0] = ()
    s.changed = False
    s.begin()
    if first:
        act(ctx, s, first)
    if s.changed:
        return False
    it, left, seq, done = held(s)
    failed = False
    seen = 0
    ctx.memory.mc_fail_at(k)
    try:
        try:
            act(ctx, s, op)
        finally:
            seen = ctx.memory.mc_fail_off()
    except MemoryError:
        failed = True
    except (RuntimeError, TypeError, ValueError, SystemError, IndexError, KeyError, AttributeError) as e:
        wrong(ctx, s, k, op, e)
    if seen < k:
        return False
    if failed:
        s.changed = False
        s.trace[0] += ((0, "out-of-memory-%d" % k),)
        # the call has changed the bounds of a search to be continued, or has not
        s.seq = seq + (op,) if s.same(seq) else seq
        s.done = bool(s.g.search_done)
        s.it = None if op in ("hold", "holdel", "more") else it
        s.left = left
    if s.changed:
        return True
    if then:
        try:
            act(ctx, s, then)
        except MemoryError as e:
            wrong(ctx, s, k, op + " " + then, e)
    if not s.changed:
        if s.n > 100:
            s.it = None
        try:
            s.rest()
        except MemoryError as e:
            wrong(ctx, s, k, op + " and the searches after it", e)
    ctx.states += 1
    ctx.transitions += 7
    return True


AGAIN = 40


def often(ctx, s, first, op, k):
    """The same failure many times in a row, on one object."""
    s.trace[0] = ()
    s.changed = False
    s.begin()
    if first:
        act(ctx, s, first)
    if s.changed:
        return
    seq = s.seq
    for i in range(AGAIN):
        ctx.memory.mc_fail_at(k)
        try:
            try:
                act(ctx, s, op)
            finally:
                ctx.memory.mc_fail_off()
        except MemoryError:
            s.it = None
        if s.changed:
            return
    s.trace[0] = (((0, first),) if first else ()) + ((0, "%d times %s, out-of-memory-%d" % (AGAIN, op, k)),)
    s.it, s.left = None, None
    s.seq = seq + (op,) if s.same(seq) else seq
    s.done = bool(s.g.search_done)
    try:
        s.rest()
    except MemoryError as e:
        wrong(ctx, s, k, op, e)
    ctx.states += AGAIN
    ctx.transitions += AGAIN + 3


def balance(ctx, s):
    s.it = s.g = s.left = None
    s.mine = []
    getattr(s, "shared", {}).clear()
    gc.collect()
    return ctx.memory.mc_live()


def run(case, ctx):
    spare(ctx)
    if case[0] == "make":
        return making(case, ctx)
    _, o, first, op = case
    if o[0] == "wx":
        _, n, e, w = o
        best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, G.mask_of(n, e)))
        s = W(ctx, n, e, w, best, repr(o))
    else:
        s = subject(ctx, o, {}, 0)
    s.me, s.trace = 0, [()]
    s.mine = []
    s.fresh_heur()
    if isinstance(s, c07.T):
        s.looks()
    ops = table(o)
    # fills the caches that are kept
    for then in ops:
        one(ctx, s, first, op, 10**9, then)
        one(ctx, s, then, op, 10**9, first)
        s.begin()
        act(ctx, s, then)
        if not s.changed:
            s.rest()
    before = balance(ctx, s)
    k = 1
    while any([one(ctx, s, first, op, k, then) for then in ops]):
        often(ctx, s, first, op, k)
        k += 1
    after = balance(ctx, s)
    if after > before and op not in RETURNS:
        ctx.fail("%r, %s %s: %d allocations are never released after %d failures" % (o, first, op, after - before, (k - 1) * len(ops)))
    ctx.count("failing_allocations", k - 1)
    ctx.outcome((first, op, k))


def making(case, ctx):
    """Construction, as Graph and as NWGraph."""
    _, n, g, how = case
    e = G.edges_of(n, g)
    om = max(1, G.omega(n, g))
    w = tuple(float(1 + (3 * v) % 5) for v in range(n))
    best = max(sum(w[v - 1] for v in c) for c in G.all_cliques(n, g))
    s = c07.T(ctx, n, e, om, "made from %s, %d vertices, edges %r" % (how, n, e))
    r = W(ctx, n, e, w, best, s.what)
    r.me, r.trace = 0, [()]
    wa = np.array(w)
    src = {
        "edgelist": lambda: (G.edge_array(e), n),
        "matrix": lambda: (G.matrix(n, e),),
        "adjlist": lambda: (n, len(e), [set(x) for x in G.adj_sets(n, e)]),
        "file": lambda: (ctx.tmp("m.mtx"),),
    }[how]
    if how == "file":
        with open(ctx.tmp("m.mtx"), "w") as f:
            f.write("%%%%MatrixMarket matrix coordinate pattern symmetric\n%d %d %d\n" % (n, n, len(e)))
            for x, y in e:
                f.write("%d %d\n" % (max(x, y), min(x, y)))
    made = "from_" + how

    def graph():
        return getattr(lib.cm.Graph, made)(*src())

    def weighted():
        return getattr(lib.cm.NWGraph, made)(*src(), wa)

    for make, sub in ((graph, s), (weighted, r)):
        if how == "file" and make is weighted:
            continue
        for _ in range(2):
            x = make()
            sub.export(x, ())
            gc.collect()
            size = ctx.memory.mc_live()
            x = None
        gc.collect()
        before = ctx.memory.mc_live()
        k = 1
        while True:
            x = None
            ctx.memory.mc_fail_at(k)
            try:
                try:
                    x = make()
                finally:
                    seen = ctx.memory.mc_fail_off()
            except MemoryError:
                x = make()
            except (RuntimeError, TypeError, ValueError, SystemError, IndexError, KeyError, AttributeError) as err:
                ctx.fail("%s: with allocation %d failing, raised %s: %s" % (sub.what, k, type(err).__name__, err))
            sub.export(x, ("made",))
            sub.step(x, "max", ("made", "max"), False)
            ctx.states += 1
            ctx.transitions += 2
            if seen < k:
                break
            k += 1
        x = None
        gc.collect()
        after = ctx.memory.mc_live()
        # the object itself, once
        if after > size:
            ctx.fail("%s: %d allocations are never released after %d failures" % (sub.what, after - before, k - 1))
        ctx.count("failing_allocations", k - 1)
        ctx.outcome((how, k))
