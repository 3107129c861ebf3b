"""Executes blocks of cases in a process of its own."""
import importlib
import itertools
import json
import mmap
import os
import resource
import struct
import sys
import traceback


class CaseFailed(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Ctx:
    def __init__(self, prop, tier, flavour):
        self.prop, self.tier, self.flavour = prop, tier, flavour
        self.scratch = os.path.join(
            os.environ.get("MC_SCRATCH", "/nonexistent"), "p%d" % os.getpid()
        )
        self.clock = None
        if os.environ.get("MC_CLOCK"):
            import ctypes

            self.clock = ctypes.CDLL(os.environ["MC_CLOCK"])
            self.clock.mc_arm.argtypes = [ctypes.c_long, ctypes.c_longlong, ctypes.c_int]
            self.clock.mc_disarm.restype = ctypes.c_long
        self.memory = None
        if os.environ.get("MC_FAULT"):
            import ctypes

            self.memory = ctypes.CDLL(os.environ["MC_FAULT"])
            self.memory.mc_fail_at.argtypes = [ctypes.c_long]
            self.memory.mc_fail_off.restype = ctypes.c_long
            self.memory.mc_live.restype = ctypes.c_long
            self.memory.mc_spare.argtypes = [ctypes.py_object]
        self.clear()

    def clear(self):
        self.states = self.transitions = 0
        self.extra = {}
        self.outcomes = set()

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash(o) & 0xFFFFFFFFFFFF)

    def fail(self, msg, key=None):
        raise CaseFailed(msg, key)

    def tmp(self, name):
        os.makedirs(self.scratch, exist_ok=True)
        return os.path.join(self.scratch, name)


def main():
    prop, tier, flavour, pkg, stfile = sys.argv[1:6]
    out = os.fdopen(os.dup(1), "w")
    err = os.open(os.environ.get("MC_ERR", "/dev/null"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(err if flavour == "asan" else null, 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if flavour != "asan":
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.path.insert(0, pkg)
    import cliquematch

    assert os.path.abspath(cliquematch.__file__).startswith(os.path.abspath(pkg))
    f = open(stfile, "r+b")
    mm = mmap.mmap(f.fileno(), 16)
    mod = importlib.import_module("mc.props." + prop.lower())
    ctx = Ctx(prop, tier, flavour)
    pack = struct.Struct("qq").pack_into
    for line in sys.stdin:
        req = json.loads(line)
        res = {"stats": {}, "violations": [], "outcomes": [], "samples": []}
        try:
            ctx.clear()
            first = req.get("first", 0)
            last = req.get("last")
            it = mod.cases(req["spec"])
            if first or last is not None:
                it = itertools.islice(it, first, None if last is None else last + 1)
            seen = set()
            case = None
            for o, case in enumerate(it, first):
                pack(mm, 0, 1, o)
                seen.add(hash(repr(case)) if not isinstance(case, tuple) else hash(case))
                try:
                    try:
                        mod.run(case, ctx)
                    except CaseFailed:
                        raise
                    except Exception:
                        # nothing the library does here may raise
                        raise CaseFailed("unexpected " + traceback.format_exc())
                except CaseFailed as e:
                    res["violations"].append(
                        {
                            "block": req["spec"],
                            "ordinal": o,
                            "key": e.key,
                            "msg": "case %r\n%s" % (case, e),
                        }
                    )
                    if len(res["violations"]) >= 3:
                        break
            res["stats"] = dict(
                ctx.extra,
                states=ctx.states,
                transitions=ctx.transitions,
                # a trace is one case: everything done to its objects, replayed
                # and judged as a whole
                traces=len(seen),
            )
            res["outcomes"] = sorted(ctx.outcomes)
            if case is not None:
                res["samples"] = [repr(case)[:300]]
        except Exception:
            res = {"error": traceback.format_exc()}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
