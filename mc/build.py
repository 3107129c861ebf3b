"""Build the cliquematch package from a source tree into a scratch directory.

The extension is compiled from whatever .cpp files the tree has at the moment
(the same globs as setup.py), and the Python wrappers are copied next to it, so
every check runs exactly the code in the working tree.
"""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
EIGEN = os.environ.get("EIGEN_DIR", "/usr/include/eigen3")

FLAVOURS = {
    # what setup.py + sysconfig produce here, without -g; variables that the code
    # leaves uninitialised have a fixed odd value instead of an accidental one
    "plain": ["-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
    "asan": [
        "-O1",
        "-g1",
        "-DNDEBUG",
        "-D_GLIBCXX_ASSERTIONS",
        "-D_GLIBCXX_SANITIZE_VECTOR=1",
        "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize=vptr",
        "-fno-sanitize-recover=undefined",
    ],
}


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(VERIF, ".cache", "ccache")
    env["CCACHE_TEMPDIR"] = os.path.join(VERIF, ".cache", "tmp")
    env["CCACHE_MAXSIZE"] = "2G"
    env["CCACHE_NOHASHDIR"] = "1"
    env.pop("LD_PRELOAD", None)
    return env


def _run(cmd, env):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(
            "%s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:])
        )


def build(flavour="plain", repo=None, out=None):
    """Compile; return the directory to put on sys.path."""
    import pybind11

    repo = repo or REPO
    out = out or os.path.join(WORK, flavour)
    if os.path.isdir(out):
        shutil.rmtree(out)
    src = os.path.join(repo, "src", "cliquematch")
    pkg = os.path.join(out, "cliquematch")
    objs = os.path.join(out, "obj")
    os.makedirs(objs)
    os.makedirs(pkg)

    sources = []
    for sub in ("detail", "core", "ext"):
        sources += glob.glob(os.path.join(src, sub, "**", "*.cpp"), recursive=True)
    sources.sort(key=lambda p: ("/detail/" in p, -os.path.getsize(p), p))
    if not sources:
        raise BuildError("no sources under " + src)

    inc = [
        "-I" + src,
        "-I" + EIGEN,
        "-I" + pybind11.get_include(),
        "-I" + sysconfig.get_path("include"),
    ]
    flags = FLAVOURS[flavour] + ["-std=c++11", "-fPIC", "-fvisibility=hidden", "-w"]
    env = _env()
    os.makedirs(env["CCACHE_TEMPDIR"], exist_ok=True)
    cc = ["ccache", "g++"] if shutil.which("ccache") else ["g++"]

    def one(i_s):
        i, s = i_s
        o = os.path.join(objs, "%03d.o" % i)
        _run(cc + flags + inc + ["-c", s, "-o", o], env)
        return o

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objects = list(ex.map(one, enumerate(sources)))
    so = os.path.join(pkg, "core" + sysconfig.get_config_var("EXT_SUFFIX"))
    link = ["g++", "-shared"] + objects + ["-o", so]
    if flavour == "asan":
        link += ["-fsanitize=address,undefined"]
    _run(link, env)
    shutil.rmtree(objs)

    for root, dirs, files in os.walk(src):
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(root, f), src)
                dst = os.path.join(pkg, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(root, f), dst)
    return out


def build_shim(out):
    _run(
        ["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", out,
         os.path.join(VERIF, "mc", "clock.c"), "-ldl"],
        _env(),
    )
    return out


def build_fault(out):
    _run(
        ["g++", "-O2", "-fPIC", "-shared", "-w", "-I" + sysconfig.get_path("include"), "-o", out,
         os.path.join(VERIF, "mc", "fault.cpp")],
        _env(),
    )
    return out


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        print(build(fl))
