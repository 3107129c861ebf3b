"""Runs one check: builds the code, hands blocks of cases to workers, judges
what comes back, and writes the evidence.

A property module (mc/props/cNN.py) gives
    LEVEL, ASSUMPTIONS            for the evidence
    blocks(tier)                  list of blocks; a block is a JSON value
    cases(block)                  the cases of a block, in a fixed order
    run(case, ctx)                executes one case on the real code and calls
                                  ctx.fail(...) if the property does not hold
and optionally FLAVOUR ("plain" or "asan"), CLOCK (preload the clock) and FAULT
(preload the allocator).

A case is the unit that is replayed.  Workers are separate processes, so a
crash or a hang is just another outcome of a case.
"""
import collections
import json
import mmap
import os
import selectors
import shutil
import signal
import struct
import subprocess
import sys
import time

from . import build as B

VERIF = B.VERIF
PY = sys.executable
STALL_S = 100
RERUN_S = 240
MAX_REPORT = 3


def load_known():
    """Known findings: 'finding: property=C05 key=<key> <text>'."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                w = line.split(None, 3)
                prop = w[1].split("=", 1)[1]
                key = w[2].split("=", 1)[1]
                res[(prop, key)] = w[3].strip() if len(w) > 3 else ""
    return res


class Worker:
    def __init__(self, ck, idx):
        self.ck = ck
        self.idx = idx
        self.stfile = os.path.join(ck.rundir, "w%d.st" % idx)
        with open(self.stfile, "wb") as f:
            f.write(b"\0" * 16)
        f = open(self.stfile, "r+b")
        self.mm = mmap.mmap(f.fileno(), 16)
        f.close()
        self.p = None
        self.block = None
        self.start()

    def start(self):
        self.errfile = os.path.join(self.ck.rundir, "w%d.err" % self.idx)
        self.p = spawn(self.ck, self.stfile, self.errfile)
        self.buf = b""

    def send(self, msg):
        self.mm[:] = struct.pack("qq", -1, -1)
        self.p.stdin.write((json.dumps(msg) + "\n").encode())
        self.p.stdin.flush()
        self.t0 = time.time()
        self.last = (None, self.t0)

    def pos(self):
        return struct.unpack("qq", self.mm[:])

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for s in (self.p.stdin, self.p.stdout):
            try:
                s.close()
            except OSError:
                pass


def spawn(ck, stfile, errfile):
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["PYTHONHASHSEED"] = "0"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    # what malloc returns, and what was freed, never looks like zeros
    env["MALLOC_PERTURB_"] = "165"
    env["MC_ERR"] = errfile
    env["MC_SCRATCH"] = os.path.join(ck.rundir, "scratch")
    pre = []
    if ck.flavour == "asan":
        for lib in ("libasan.so", "libubsan.so", "libstdc++.so"):
            r = subprocess.run(
                ["gcc", "-print-file-name=" + lib], stdout=subprocess.PIPE
            )
            pre.append(r.stdout.decode().strip())
        env["ASAN_OPTIONS"] = (
            "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
            "detect_stack_use_after_return=0:quarantine_size_mb=64"
        )
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        env["PYTHONMALLOC"] = "malloc"
    if ck.shim:
        pre.append(ck.shim)
        env["MC_CLOCK"] = ck.shim
    if ck.fault:
        pre.append(ck.fault)
        env["MC_FAULT"] = ck.fault
    if pre:
        env["LD_PRELOAD"] = " ".join(pre)
    return subprocess.Popen(
        [PY, "-W", "ignore", "-m", "mc.worker", ck.prop, ck.tier, ck.flavour,
         ck.pkgdir, stfile],
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL,
        env=env,
        cwd=VERIF,
    )


def tail(path, n=2500):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf8", "replace")[:n]
    except OSError:
        return ""


# what a defect of the code ends a process with, unlike a lack of memory or a kill
FATAL = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL, 99)


class Check:
    def __init__(self, prop, tier, module):
        self.prop, self.tier, self.mod = prop, tier, module
        self.flavour = getattr(module, "FLAVOUR", "plain")
        self.rundir = os.path.join(B.WORK, "run", prop)
        self.shim = self.fault = None
        self.stats = collections.Counter()
        self.samples = []
        self.outcomes = set()
        self.known = load_known()
        self.known_hit = {}

    def prepare(self):
        if os.path.isdir(self.rundir):
            shutil.rmtree(self.rundir)
        os.makedirs(os.path.join(self.rundir, "scratch"))
        self.pkgdir = B.build(
            self.flavour, out=os.path.join(self.rundir, "pkg")
        )
        if getattr(self.mod, "CLOCK", False):
            self.shim = B.build_shim(os.path.join(self.rundir, "libmcclock.so"))
        if getattr(self.mod, "FAULT", False):
            self.fault = B.build_fault(os.path.join(self.rundir, "libmcfault.so"))

    # -- running blocks ----------------------------------------------------
    def explore(self, blocks, deadline):
        """Run all blocks; return the list of violations (dicts)."""
        n = min(getattr(self.mod, "WORKERS", os.cpu_count() or 4), len(blocks))
        todo = collections.deque(range(len(blocks)))
        sel = selectors.DefaultSelector()
        workers = []
        bad = []
        active = 0

        def give(w):
            nonlocal active
            if todo and len(bad) < MAX_REPORT:
                w.block = todo.popleft()
                w.send({"block": w.block, "spec": blocks[w.block]})
                active += 1
            else:
                w.block = None

        for i in range(n):
            w = Worker(self, i)
            workers.append(w)
            sel.register(w.p.stdout, selectors.EVENT_READ, w)
            give(w)
        try:
            while active:
                for key, _ in sel.select(timeout=1.0):
                    w = key.data
                    data = os.read(w.p.stdout.fileno(), 1 << 16)
                    if data:
                        w.buf += data
                        while b"\n" in w.buf:
                            line, w.buf = w.buf.split(b"\n", 1)
                            msg = json.loads(line.decode())
                            if "error" in msg:
                                raise RuntimeError(
                                    "harness error in block %r: %s"
                                    % (blocks[w.block], msg["error"])
                                )
                            self.absorb(msg)
                            if os.environ.get("MC_TIMES"):
                                print("%7.2f %r" % (time.time() - w.t0, blocks[w.block]))
                                sys.stdout.flush()
                            for v in msg["violations"]:
                                v["kind"] = "wrong"
                                if not self.is_known(v):
                                    bad.append(v)
                            active -= 1
                            give(w)
                        continue
                    # the worker died
                    sel.unregister(w.p.stdout)
                    w.p.wait()
                    if w.block is not None:
                        active -= 1
                        b, o = w.pos()
                        if b < 0:
                            raise RuntimeError(
                                "worker ended before its first case: " + tail(w.errfile)
                            )
                        bad.append(
                            {
                                "kind": "crash",
                                "status": w.p.returncode,
                                "block": blocks[w.block],
                                "ordinal": o,
                                "msg": "process ended with status %s\n%s"
                                % (w.p.returncode, tail(w.errfile)),
                            }
                        )
                    w.kill()
                    w.start()
                    sel.register(w.p.stdout, selectors.EVENT_READ, w)
                    give(w)
                now = time.time()
                for w in workers:
                    if w.block is None:
                        continue
                    pos = w.pos()
                    if pos != w.last[0]:
                        w.last = (pos, now)
                    elif now - w.last[1] > STALL_S:
                        sel.unregister(w.p.stdout)
                        w.kill()
                        active -= 1
                        bad.append(
                            {
                                "kind": "hang",
                                "block": blocks[w.block],
                                "ordinal": pos[1],
                                "msg": "no answer within %d s" % STALL_S,
                            }
                        )
                        w.start()
                        sel.register(w.p.stdout, selectors.EVENT_READ, w)
                        give(w)
                if now > deadline:
                    if bad:
                        break
                    raise RuntimeError("time budget of the check exceeded")
        finally:
            for w in workers:
                w.kill()
            sel.close()
        return bad

    def absorb(self, msg):
        for k, v in msg["stats"].items():
            self.stats[k] += v
        self.outcomes.update(msg["outcomes"])
        for s in msg["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)

    def is_known(self, v):
        k = (self.prop, v.get("key") or "")
        if v.get("key") and k in self.known:
            self.known_hit[k] = self.known[k]
            return True
        return False

    # -- confirming --------------------------------------------------------
    def rerun(self, spec, limit):
        """Run a replay spec in a fresh process: (reproduced, text)."""
        st = os.path.join(self.rundir, "re.st")
        with open(st, "wb") as f:
            f.write(b"\0" * 16)
        err = os.path.join(self.rundir, "re.err")
        p = spawn(self, st, err)
        try:
            out, _ = p.communicate((json.dumps(spec) + "\n").encode(), timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return "hang", "no answer within %d s" % limit
        lines = out.decode().strip().splitlines()
        if not lines:
            return "crash", "process ended with status %s\n%s" % (
                p.returncode,
                tail(err),
            )
        msg = json.loads(lines[-1])
        if "error" in msg:
            raise RuntimeError("harness error in replay: " + msg["error"])
        for v in msg["violations"]:
            if not self.is_known(v):
                return "wrong", v["msg"]
        return None, ""

    def confirm(self, v):
        """Find a replay that shows v again; return (spec, text) or None."""
        alone = {
            "block": -1,
            "spec": v["block"],
            "first": v["ordinal"],
            "last": v["ordinal"],
        }
        kind, text = self.rerun(alone, RERUN_S)
        if kind:
            return alone, text
        whole = dict(alone, first=0)
        for _ in range(2):
            kind, text = self.rerun(whole, RERUN_S)
            if kind:
                return whole, text
        if v["kind"] == "wrong" or v.get("status") in FATAL:
            # the real code did give this wrong answer or crash, just not every time
            return whole, v["msg"] + "\n(not seen again in 3 replays)"
        return None

    # -- the whole check ---------------------------------------------------
    def main(self):
        t0 = time.time()
        budget = 840 if self.tier == "quick" else 6 * 3600
        self.prepare()
        self.build_s = time.time() - t0
        blocks = self.mod.blocks(self.tier)
        bad = self.explore(blocks, t0 + budget)
        code = 0
        reported = 0
        for v in bad[:MAX_REPORT]:
            r = self.confirm(v)
            if r is None:
                print("not reproduced (%s): %s" % (v["kind"], v["msg"][:2000]))
                code = code or 2
                continue
            spec, text = r
            path = self.save_replay(spec, text, reported)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print(text[:3000])
            sys.stdout.flush()
            reported += 1
            code = 1
            break
        for (p, _), text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (p, text))
        self.evidence(time.time() - t0, len(bad), len(blocks), complete=not bad)
        shutil.rmtree(os.path.join(self.rundir, "scratch"), ignore_errors=True)
        if code == 0:
            print(
                "OK property=%s states=%d transitions=%d traces=%d outcomes=%d "
                "build=%.1fs wall=%.1fs"
                % (
                    self.prop,
                    self.stats["states"],
                    self.stats["transitions"],
                    self.stats["traces"],
                    len(self.outcomes),
                    self.build_s,
                    time.time() - t0,
                )
            )
        return code

    def save_replay(self, spec, text, i):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, i))
        case = None
        if spec["first"] == spec["last"]:
            for k, c in enumerate(self.mod.cases(spec["spec"])):
                if k == spec["first"]:
                    case = repr(c)
                    break
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.prop,
                    "tier": self.tier,
                    "flavour": self.flavour,
                    "replay": spec,
                    "case": case,
                    "message": text,
                    "how": "cd /verif && %s -m mc replay %s" % (PY, path),
                },
                f,
                indent=1,
            )
        return path

    def evidence(self, wall, nviol, nblocks, complete):
        cov = {
            "states": self.stats["states"],
            "transitions": self.stats["transitions"],
            "traces_validated_against_impl": self.stats["traces"],
            "blocks": nblocks,
            "distinct_outcomes": len(self.outcomes),
            "rule": (self.mod.__doc__ or "").strip(),
            "samples": self.samples or ["none"],
            "exhaustive": bool(complete),
        }
        for k, v in sorted(self.stats.items()):
            if k not in ("states", "transitions", "traces"):
                cov["n_" + k] = v
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": getattr(self.mod, "LEVEL", "model_checking"),
            "coverage": cov,
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": nviol,
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def replay(path):
    with open(path) as f:
        r = json.load(f)
    import importlib

    mod = importlib.import_module("mc.props." + r["property"].lower())
    ck = Check(r["property"], r["tier"], mod)
    ck.prepare()
    kind, text = ck.rerun(r["replay"], 3600)
    if kind:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print(text)
        return 1
    print("the case passes")
    return 0
