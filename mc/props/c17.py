"""The operation sequences, inputs and clock schedules of the other checks, at reduced
bounds, on the real code compiled with address and undefined-behaviour sanitizers and
a checking standard library.  Oracle: the instrumentation; a report ends the process,
which is the violation.  Besides, all weighted graphs of up to 3 vertices with weights and bounds that are
not positive numbers (NaN, infinite, zero, negative, at the ends of the range).  Answers are not judged here.  State, transition and trace are
those of the check a case comes from."""
import importlib
import itertools

from .. import graphs as G
from .. import lib

FLAVOUR = "asan"
CLOCK = True
ASSUMPTIONS = [
    "what the sanitizers of g++ 13 see is what counts; leaks are not looked for",
    "arguments that ask for more memory than there is are left to C10 and C11",
]


def small(n):
    return lambda b: b[1] <= n


ALL = lambda b: True
PICK = {
    # kind of block: which of them
    "C01": {"join": ALL, "far": lambda b: b[2] in ([3], [7]), "grid": small(4)},
    "C02": {"join": lambda b: b[1] in (1, 3, 31, 32, 61, 63, 64, 127), "bip": lambda b: b[2] != "BA", "bip2": ALL,
            "far": lambda b: b[1] in (3, 7), "grid": small(3)},
    "C03": {"join": lambda b: b[1][0] < 10 or b[1][0] in (31, 61, 63), "copies": ALL, "hist": small(4)},
    "C04": {"join": lambda b: b[1] < 6, "ends": ALL, "a4": small(3)},
    "C05": {"bip": ALL, "bip2": ALL, "join": lambda b: b[1] in (1, 8, 31, 60, 61, 63, 64, 127), "far": lambda b: b[1] in (3, 7),
            "turan": ALL, "stop": ALL, "expire": lambda b: b[1] in (3, 8, 61, 63), "tree": small(4)},
    "C06": {"bip": lambda b: b[2] == "mix", "bip2": ALL, "join": lambda b: b[1] % 2 == 0, "far": lambda b: b[1] in (3, 7),
            "copies": ALL, "turan": ALL, "u": small(4), "w": small(3)},
    "C07": {"fam": ALL, "wfam": ALL, "all": small(3), "wall": small(3)},
    "C08": {"fam": ALL, "wfam": ALL, "weave": small(3), "weave3": small(2), "wweave": small(3), "u": small(3), "w": small(3),
            "corr": lambda b: b[1] in (3, 5), "iso": lambda b: b[1] in (3, 5), "life": lambda b: b[2] % 4 == 3},
    "C09": {"big": small(130), "sparse": small(4097), "far": lambda b: b[1] in (0, 60), "orders": small(3), "forms": small(4)},
    "C10": {"table": ALL, "edges": ALL, "lists": ALL, "shapes": ALL, "weights": ALL, "where": ALL, "attr": ALL,
            "args": lambda b: "from_" in b[1] or "all" in b[1] or b[1] == "build_edges_with_filter"},
    "C11": {"round": small(4), "names": ALL, "full": small(3), "cut": small(3), "long": ALL, "byte": ALL, "drop": ALL},
    "C12": {"tab": lambda b: b[2] + b[3] <= 4, "dims": ALL, "layout": ALL, "big": lambda b: (b[1] + b[2]) % 3 == 0, "sizes": ALL},
    "C13": {"only": lambda b: b[2] * b[3] <= 6, "kinds": ALL, "reuse": ALL, "fault": ALL, "both": lambda b: b[2] * b[3] == 4, "large": ALL},
    "C14": {"flags": lambda b: b[2] * b[3] <= 6, "mix": ALL, "large": ALL, "timed": ALL},
    "C15": {"pairs": lambda b: b[1] + b[2] <= 6, "flags": lambda b: b[1] + b[2] <= 5, "kinds": ALL, "large": ALL, "timed": ALL},
    "C16": {"fraction": ALL, "cell": ALL, "layout": ALL, "scale": ALL, "many": ALL, "two": lambda b: b[1] % 9 == 5},
    "C18": {"comp": ALL, "known": ALL, "pad": small(3), "scale": small(3)},
    "C19": {"paths": ALL, "single": ALL, "orders": ALL},
    "C20": {"run": lambda b: b[4] == 2 and b[2] == 0 and b[1][0][0] != b[1][1][0]},
    "C21": {"make": ALL, "all": ALL, "call": ALL, "many": lambda b: b[2] % 8 == 0, "default": small(130)},
    "C24": {"in": lambda b: b[1] in ("L2L", "A2A") and b[2] * b[3] == 4 and b[5] == "busy", "two": lambda b: b[4] and b[1] in ("L2L", "Align"), "mixed": ALL},
}
NAN, INF = float("nan"), float("inf")
ODD = (1.0, NAN, INF, -INF, 0.0, -1.0, 1e308, 5e-324)
# blocks with fewer members than those of the checks themselves
MORE = [["C01", ["bip", s, [lay], 3, [7, 2]]] for s in ((63, 70), (64, 64), (65, 65), (66, 64)) for lay in ("AB", "mix")]
MORE += [["C01", ["bip", s, ["AB"], 2, [1]]] for s in ((128, 130), (129, 128))]
MORE += [["C03", ["bip", s, ["mix"], 2, [1]]] for s in ((63, 66), (64, 64), (65, 65), (66, 64))]


def mod(prop):
    return importlib.import_module("mc.props." + prop.lower())


def blocks(tier):
    b = list(MORE)
    for n in (1, 2, 3):
        for first in range(len(ODD)):
            b.append(["odd", n, first])
    for prop, kinds in PICK.items():
        for x in mod(prop).blocks("quick"):
            if x[0] in kinds and kinds[x[0]](x):
                b.append([prop, x])
    return b


def odd(ctx, n, bits, w):
    """Weights and bounds that are no positive numbers; any answer will do."""
    edges = G.edges_of(n, bits)
    for op in range(4):
        for x in ODD:
            for y in ODD if op < 2 else ODD[:1]:
                g = lib.nwgraph(n, edges, list(w))
                ctx.states += 1
                ctx.transitions += 1
                try:
                    if op == 0:
                        g.get_max_clique(x, y)
                    elif op == 1:
                        g.get_max_clique(x, y, False)
                    elif op == 2:
                        g.get_max_clique(x, use_dfs=False)
                    else:
                        it = g.all_cliques(x)
                        g.get_max_clique()
                        list(itertools.islice(it, 40))
                    g.get_clique_weight(list(range(1, n + 1)))
                except RuntimeError:
                    pass


def cases(block):
    if block[0] == "odd":
        for bits in range(1 << G.npairs(block[1])):
            for rest in itertools.product(ODD, repeat=block[1] - 1):
                yield ("odd", (block[1], bits, (ODD[block[2]],) + rest))
        return
    for c in mod(block[0]).cases(block[1]):
        yield (block[0], c)


def run(case, ctx):
    if case[0] == "odd":
        odd(ctx, *case[1])
        return
    try:
        mod(case[0]).run(case[1], ctx)
    except Exception:
        # a wrong answer is for the check the case comes from
        ctx.count("left_to_others")
    if ctx.clock:
        ctx.clock.mc_disarm()
