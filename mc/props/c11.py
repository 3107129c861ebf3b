"""Graph files, written and read by the real code, in a scratch directory:
the round trip of every graph of up to 5 vertices and of every family member, over
an older longer file too; every number of bytes after which the disk is full, for
every graph of up to 4 vertices; every file of up to 3 lines over all pairs of 3
vertices (repeated, reversed, self edges), crossed with preambles, blank lines, line
ends, separators, trailing values and claimed edge counts; lines of every length
around the powers of two up to 2^17; every truncation of the files of every graph of
up to 4 vertices; every single token replaced by numbers at the edges of the integer
types and by non-numbers; every single byte replaced, removed or inserted.
Oracle: an independent reader of the coordinate format, exact for valid and for
truncated files; for other files an exception or a graph all of whose edges are
neighbouring numbers of the file.  State = one file; transition = one read or write;
trace = one group of files of the same kind."""
import itertools
import os
import re
import resource

from .. import families
from .. import graphs as G
from .. import lib
from .c01 import split

ASSUMPTIONS = [
    "a full disk is imposed with the file size limit of the process",
    "comment lines are those before the header",
    "files claiming more vertices than fit in 6 GB count as files that may be rejected",
]
PREAMBLES = ["", "%\n", "%% c\n% 1 2\n", "#\n%%MatrixMarket matrix coordinate\n# 9 9 9\n", "% 3 3 3" + " " * 3000 + "1 2\n"]
TAILS = ["", " 7", "\t-1.5e3 x", " % 2 3", " " + "0" * 2100]
ENDS = ["\n", "\r\n", "\n\n", "\n \n\t\n"]
SEPS = [" ", "\t", "   ", " \t "]
EXTRA = [0, 1, 7, 10**6]
TOKENS = ["", "0", "1", "2", "3", "4", "5", "-1", "-3", "+2", "x", "1.5", "1e1", "0x2", "nan", ".", "-", "65536",
          str(2**31 - 1), str(2**32), str(2**32 + 1), str(2**61), str(2**63), str(2**64 - 2), str(2**64 - 1),
          str(2**64), str(2**64 + 1), str(2**65 + 2), "9" * 40, "1 2", "1\n2", "% 1", "#", "\x00", "٣"]
BYTES = [0, 1, 9, 10, 13, 32, 35, 37, 43, 44, 45, 46, 48, 49, 52, 57, 65, 101, 120, 127, 128, 255]


def blocks(tier):
    b = []
    for n in (1, 2, 3, 4):
        b.append(["round", n, 0, 1 << G.npairs(n)])
    b += [["round"] + x[1:] for x in split(5, 4, "r")]
    if tier == "thorough":
        b += [["round"] + x[1:] for x in split(6, 16, "r")]
    b.append(["names"])
    for n in (1, 2, 3):
        b.append(["full", n, 0, 1 << G.npairs(n)])
    b += [["full"] + x[1:] for x in split(4, 4, "f")]
    for n in (1, 2, 3, 4):
        b.append(["cut", n, 0, 1 << G.npairs(n)])
    b += [["fam", i, 8] for i in range(8)]
    for p in range(len(PREAMBLES)):
        for t in range(len(TAILS)):
            b.append(["files", p, t])
    for k in range(3, 18):
        b.append(["long", k])
    for base in range(len(BASES)):
        b += [["token", base], ["byte", base], ["drop", base], ["two", base]]
    return b


BASES = [
    "3 3 2\n1 2\n2 3\n",
    "%% c\n4 4 5\n2 1\n3 1\n4 2\n4 3\n1 4\n",
    "2 2 1\n1 2",
    "% 1 2\n5 5 3\n1 2 0.5\n3 5 7\n5 4 1 2 3\n",
    "12 12 4\n1 12\n11 12\n10 11\n1 10\n",
    "0 0 0\n",
    "1 1 0\n",
]


def fams():
    f = list(families.far_family(3, (3, 7)))
    f += [("bip", a, b, lay, (0, 1, 2), 3, 5) for a, b in ((63, 64), (100, 30)) for lay in families.LAYOUTS]
    return f + [("join", 40, w, 3, 2) for w in ("first", "last", "spread")]


def cases(block):
    k = block[0]
    if k in ("round", "full", "cut"):
        step = 16
        for lo in range(block[2], block[3], step):
            yield (k, block[1], lo, min(lo + step, block[3]))
    elif k == "fam":
        for d in fams()[block[1]::block[2]]:
            yield ("fam", d)
    elif k == "files":
        for e in range(len(ENDS)):
            for s in range(len(SEPS)):
                yield ("files", block[1], block[2], e, s)
    elif k == "long":
        for d in range(-3, 4):
            yield ("long", (1 << block[1]) + d)
    elif k == "names":
        yield ("names",)
    else:
        yield tuple(block)


INT = re.compile(r"[0-9]+")


def reference(text):
    """(n, edges) of a valid or truncated file, None without a readable header."""
    lines = text.split("\n")
    while lines and lines[0][:1] in ("%", "#"):
        lines.pop(0)
    words = [(w, i) for i, l in enumerate(lines) for w in l.split()]
    if len(words) < 3:
        return None
    n, m = int(words[0][0]), int(words[2][0])
    edges, seen = set(), 0
    for l in lines[words[2][1] + 1:]:
        w = l.split()
        if not w:
            continue
        if len(w) < 2 or not INT.fullmatch(w[1]) or seen == m:
            break
        seen += 1
        a, b = int(w[0]), int(w[1])
        if a != b and 1 <= a <= n and 1 <= b <= n:
            edges.add((min(a, b), max(a, b)))
    return n, edges


def put(ctx, text, name="g"):
    p = ctx.tmp(name)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


def found(g):
    el = [tuple(map(int, e)) for e in g.to_edgelist()]
    if len({tuple(sorted(e)) for e in el}) != len(el) or g.n_edges != len(el):
        return None
    return {tuple(sorted(e)) for e in el}


def exact(ctx, text, what):
    ctx.states += 1
    ctx.transitions += 1
    ref = reference(text)
    p = put(ctx, text)
    if ref is None or ref[0] == 0:
        try:
            g = lib.cm.Graph.from_file(p)
            g.get_max_clique()
        except Exception:
            return
        ctx.fail("%s: %r gave %s" % (what, text[:200], g))
    g = lib.cm.Graph.from_file(p)
    got = found(g)
    if g.n_vertices != ref[0] or got != ref[1]:
        ctx.fail("%s: %r read as %d vertices, edges %r, not %r" % (what, text[:200], g.n_vertices, got, ref))


def loose(ctx, raw, what):
    ctx.states += 1
    ctx.transitions += 1
    p = put(ctx, raw)
    try:
        g = lib.cm.Graph.from_file(p)
    except Exception as e:
        ctx.outcome(type(e).__name__)
        return
    text = raw.decode("latin-1") if isinstance(raw, bytes) else raw
    nums = [int(x) for x in INT.findall(text)]
    may = set(zip(nums, nums[1:]))
    if g.n_vertices == 0:
        return
    ctx.outcome("graph")
    got = found(g)
    if g.n_vertices not in nums:
        ctx.fail("%s: %r read as a graph of %d vertices" % (what, text[:200], g.n_vertices))
    for a, b in got if got is not None else [(0, 0)]:
        if not (((a, b) in may or (b, a) in may) and 1 <= a < b <= g.n_vertices):
            ctx.fail("%s: %r read with edges %r" % (what, text[:200], got))
    if g.n_vertices <= 5000:
        c = g.get_max_clique()
        if not c or not G.is_clique(G.adj_sets(g.n_vertices, got), c):
            ctx.fail("%s: %r gives clique %r" % (what, text[:200], c))


def round_trip(ctx, n, edges, name="r", older=False):
    g = lib.graph(n, edges)
    p = put(ctx, "% old\n" + "7 7 1\n" * 400, name) if older else ctx.tmp(name)
    g.to_file(p)
    text = open(p, encoding="latin-1", newline="").read()
    want = (n, {tuple(sorted(e)) for e in edges})
    ref = reference(text)
    head = [l for l in text.split("\n") if l[:1] not in "%#" or not l][0].split()
    if ref != want or head != [str(n), str(n), str(len(want[1]))]:
        ctx.fail("to_file of %d vertices, %r wrote %r" % (n, edges, text[:300]))
    h = lib.cm.Graph.from_file(p)
    if h.n_vertices != n or found(h) != want[1]:
        ctx.fail("%d vertices, edges %r came back as %d, %r" % (n, edges, h.n_vertices, found(h)))
    if found(g) != want[1]:
        ctx.fail("to_file changed the graph")
    ctx.states += 1
    ctx.transitions += 3
    os.unlink(p)
    return text


def full_disk(ctx, n, edges):
    """to_file for every size limit: raises, or wrote it all."""
    g = lib.graph(n, edges)
    size = len(round_trip(ctx, n, edges))
    p = ctx.tmp("full")
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    for lim in range(size + 2):
        err = None
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
            try:
                g.to_file(p)
            except Exception as e:
                err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
        got = os.path.getsize(p) if os.path.exists(p) else -1
        if (err is None) != (lim >= size) or (err is None and got != size):
            ctx.fail("to_file with room for %d of %d bytes: %s, %d bytes written" % (lim, size, err or "no error", got))
        if os.path.exists(p):
            if err is not None:
                exact(ctx, open(p).read(), "partly written file")
            os.unlink(p)
        ctx.states += 1
        ctx.transitions += 1
    g.to_file(p)
    if found(lib.cm.Graph.from_file(p)) != {tuple(sorted(e)) for e in edges}:
        ctx.fail("to_file after a failure is wrong")
    os.unlink(p)


def files(ctx, p, t, e, s):
    """Every file of up to 3 edge lines over 3 vertices in one style."""
    pairs = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    full = t < 4 and p < 4
    for m in range(0, 4 if full else 3):
        for ls in itertools.product(pairs, repeat=m):
            for extra in EXTRA if m < 3 else EXTRA[:2]:
                head = SEPS[s].join(("3", "3", str(m + extra)))
                body = "".join("%d%s%d%s%s" % (a, SEPS[s], b, TAILS[t], ENDS[e]) for a, b in ls)
                exact(ctx, PREAMBLES[p] + head + ENDS[e] + body, "file")


def long_lines(ctx, size):
    for n, edges in ((3, [(1, 2), (2, 3)]), (4, [(1, 4), (2, 4), (3, 4)])):
        lines = ["%d %d" % e for e in edges]
        head = "%d %d %d" % (n, n, len(edges))
        fill = lambda l, c: l + " " + c * max(0, size - len(l) - 1)
        for c in (" ", "7", "%", "1 2 "):
            w = lambda l: fill(l, c)[: max(size, len(l))] if c != "1 2 " else (l + " " + "1 3 " * (size // 4 + 1))[: max(size, len(l) + 1)]
            for j in range(len(lines)):
                body = [w(l) if i == j else l for i, l in enumerate(lines)]
                exact(ctx, "\n".join([head] + body) + "\n", "line of %d" % size)
            exact(ctx, "\n".join([head] + [w(l) for l in lines]) + "\n", "lines of %d" % size)
            exact(ctx, "\n".join(["%" + w(""), "#" + w("1"), head] + lines) + "\n", "comment of %d" % size)
            exact(ctx, "\n".join([head] + lines + [w("")[:1] and " " * size]), "blank line of %d" % size)
        exact(ctx, "\n".join([" " * size + head] + lines), "space before the header")
        exact(ctx, "\n" * size + "\n".join([head] + lines), "blank lines before the header")
        exact(ctx, head + "\n" * size + "\n".join(lines), "blank lines")


def run(case, ctx):
    k = case[0]
    if k in ("round", "full", "cut"):
        n = case[1]
        for m in range(case[2], case[3]):
            edges = list(G.edges_of(n, m))
            if k == "round":
                round_trip(ctx, n, edges, older=m % 2 == 1)
                round_trip(ctx, n, [(b, a) for a, b in edges][::-1] + edges[:1])
            elif k == "full":
                full_disk(ctx, n, edges)
            else:
                text = round_trip(ctx, n, edges)
                for deco in (text, text.replace("\n", " 12 2 3\n"), text.replace("\n", "\r\n")):
                    if deco != text:
                        deco = deco.replace("cliquematch 12 2 3", "x")
                        body = deco.split("\n", 2)
                        # nothing may follow the counts
                        deco = "\n".join([body[0], body[1].replace(" 12 2 3", "")] + body[2:])
                    for cut in range(len(deco) + 1):
                        exact(ctx, deco[:cut], "truncated file")
    elif k == "fam":
        n, edges, _ = families.build(case[1])
        round_trip(ctx, n, edges, older=True)
    elif k == "names":
        for name in ("a", "a b", "ä中", "%s%n", "x" * 255, ".h", "a.mtx", "-"):
            round_trip(ctx, 4, [(1, 2), (3, 4), (1, 4)], name)
        here = os.getcwd()
        os.chdir(os.path.dirname(ctx.tmp("x")))
        try:
            g = lib.small(4, 0b101101)
            g.to_file("rel")
            if found(lib.cm.Graph.from_file("rel")) != set(G.edges_of(4, 0b101101)):
                ctx.fail("relative name")
        finally:
            os.chdir(here)
        for obj in others():
            g = obj()
            p = ctx.tmp("o")
            g.to_file(p)
            h = lib.cm.Graph.from_file(p)
            if h.n_vertices != g.n_vertices or found(h) != found(g) or not found(g):
                ctx.fail("%s does not come back from its file" % type(g).__name__)
            ctx.states += 1
            ctx.transitions += 2
    elif k == "files":
        files(ctx, *case[1:])
    elif k == "long":
        long_lines(ctx, case[1])
    else:
        base = BASES[case[1]]
        if k == "token":
            for m in re.finditer(r"\S+", base):
                for t in TOKENS:
                    loose(ctx, base[: m.start()] + t + base[m.end():], "token replaced")
        elif k == "two":
            toks = list(re.finditer(r"\S+", base))[:5]
            short = [t for t in TOKENS if t in ("", "0", "-1", "x", "1.5", "3", "1 2", str(2**32), str(2**61), str(2**64 - 1), "9" * 40)]
            for m1, m2 in itertools.combinations(toks, 2):
                for t1 in short:
                    for t2 in short:
                        loose(ctx, base[: m1.start()] + t1 + base[m1.end(): m2.start()] + t2 + base[m2.end():], "two tokens replaced")
        else:
            raw = base.encode()
            for i in range(len(raw) + 1):
                if k == "drop":
                    loose(ctx, raw[:i] + raw[i + 1:], "byte removed")
                    for j in range(i + 1, len(raw) + 1):
                        loose(ctx, raw[:i] + raw[j:], "bytes removed")
                        loose(ctx, raw[:j] + raw[i:], "bytes repeated")
                else:
                    for b in BYTES:
                        loose(ctx, raw[:i] + bytes([b]) + raw[i + 1:], "byte replaced")
                        loose(ctx, raw[:i] + bytes([b]) + raw[i:], "byte inserted")


def others():
    cm = lib.cm
    d = lambda s, i, j: abs(s[i] - s[j])

    def l2l():
        g = cm.L2LGraph([0.0, 1.0, 3.0], [0.0, 1.0, 3.0, 4.0], d, d)
        g.epsilon = 0.0
        g.build_edges()
        return g

    def iso():
        g = cm.IsoGraph(lib.small(3, 3), lib.small(4, 0b11011))
        g.build_edges()
        return g

    return l2l, iso
