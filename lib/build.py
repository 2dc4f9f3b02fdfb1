"""Builds the drivers from /repo's current working tree into /verif/build/<hash>."""
import concurrent.futures as cf
import hashlib, os, re, shutil, subprocess, sysconfig, glob, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/vp/venv/bin/python"
EIGEN = "/usr/include/eigen3"

OPS = {m[0]: int(m[1]) for m in re.findall(r"pure val (OP_\w+|ABSENT): int = (-?\d+)", open(os.path.join(VERIF, "spec/ops.qnt")).read())}

# C++ types by name: C++ type, (kind, scalar, order, fixed size)
TYPES = {}
for _o in (1, 2):
    for _n in (-1, 0, 1, 2, 3, 4, 6, 16):
        for _s, _c, _t in (("", 0, "double"), ("f", 1, "float"), ("l", 2, "long double")):
            TYPES["D" * _o + _s + ("x" if _n < 0 else str(_n))] = ("hj::DDScalar<%d, %s, %d>" % (_o, _t, _n), (0, _c, _o, _n))
for _s, _c, _t in (("", 0, "double"), ("f", 1, "float"), ("l", 2, "long double")):
    TYPES["S" + _s] = ("hj::SScalar<%s>" % _t, (1, _c, 1, -1))

# C++ builds
STD = ["-std=gnu++17", "-w", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "base": ["-O0"],
    "ndebug": ["-O2", "-DNDEBUG"],
    "noeigen": ["-O0", "-DNO_EIGEN", "-DHYPERJET_NO_EIGEN"],
    "noexc": ["-O0", "-DNO_TRY", "-DHYPERJET_NO_EXCEPTIONS"],
    "noexc_ndebug": ["-O1", "-DNO_TRY", "-DHYPERJET_NO_EXCEPTIONS", "-DNDEBUG"],
    "exc": ["-O0", "-DHYPERJET_EXCEPTIONS"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "threads": ["-O1", "-g1", "-fsanitize=thread"],
    "clang": ["-O2"],
    "fast": ["-O3", "-DNDEBUG", "-march=native"],
}
SMALL = ["DD2", "S", "DDx", "D3", "Dx"]
COVERED = {v: SMALL for v in VARIANTS if v != "threads"}    # the types of which every build is examined
COVERED["base"] = ["DDf2", "DDfx", "Df3", "Dfx", "DDl2", "DDlx", "Dl3", "Dlx", "Sf", "Sl", "DD2", "Dx"]
COVERED["ndebug"] = SMALL + ["DDf2", "Sf", "DDl2", "Sl"]
COVERED["asan"] = ["DD3", "DDx", "D3", "Dx", "S", "DD0", "DD1"]
POOL = cf.ThreadPoolExecutor(8)           # compilers
LOCK = threading.Lock()


class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def prune(keep):
    """Disk is limited: keep the newest few build folders."""
    ds = sorted(glob.glob(os.path.join(BUILD, "bin-*")), key=os.path.getmtime, reverse=True)
    for d in ds[14:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def folder(name):
    d = os.path.join(BUILD, name)
    with LOCK:
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        prune(d)
    return d


def put(path, text):
    if not os.path.exists(path):
        with open("%s.%d" % (path, os.getpid()), "w") as f:
            f.write(text)
        os.rename("%s.%d" % (path, os.getpid()), path)


def make(cmd, out, what):
    """Runs a compiler that writes out."""
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        r = sh(cmd + ["-o", tmp])
        if r.returncode:
            raise BuildError(what, r.stdout[:4000])
        os.rename(tmp, out)
    return out


def repo_headers():
    return [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, "include")) for f in fs]


def cpp(variant, types):
    """Returns the path of a C++ driver of a variant that knows these types; compiles what is not there yet."""
    flags = VARIANTS[variant]
    mine = [os.path.join(VERIF, "drivers", f) for f in ("driver.h", "main.cpp")] + [os.path.join(VERIF, "spec/ops.qnt")]
    d = folder("bin-cpp-%s-%s" % (variant, tree_hash(repo_headers() + mine, repr((flags, STD)))))
    put(os.path.join(d, "ops.h"), "#pragma once\nenum : long {\n" + "".join("  %s = %d,\n" % kv for kv in OPS.items()) + "};\n")
    cc = "clang++" if variant == "clang" else "g++"
    inc = ["-I" + os.path.join(VERIF, "drivers"), "-I" + d, "-I" + os.path.join(REPO, "include")]
    if "-DNO_EIGEN" not in flags:
        inc += ["-isystem", EIGEN]
    what = "C++ driver (%s)" % variant
    jobs = []
    # dynamic and wide types take longest to compile
    for t in sorted(set(types), key=lambda t: (t[0] == "S", not t.endswith(("x", "2", "3")), t)):
        src = os.path.join(d, t + ".cpp")
        put(src, '#include "driver.h"\nstatic Register r("%s", run<%s>);\n' % (t, TYPES[t][0]))
        jobs.append((src, os.path.join(d, t + ".o")))
    jobs.append((os.path.join(VERIF, "drivers", "main.cpp"), os.path.join(d, "main.o")))
    objs = [f.result() for f in [POOL.submit(make, [cc] + STD + flags + inc + ["-c", s], o, what) for s, o in jobs]]
    return make([cc] + flags + objs + ["-pthread"], os.path.join(d, "driver-" + hashlib.sha256(repr(sorted(set(types))).encode()).hexdigest()[:12]), what)


PCH = """#include <Eigen/Core>
#include <pybind11/pybind11.h>
#include <pybind11/eigen.h>
#include <pybind11/eval.h>
#include <pybind11/numpy.h>
#include <pybind11/operators.h>
#include <pybind11/stl_bind.h>
#include <pybind11/stl.h>
"""


def python():
    """Returns the folder holding the Python module."""
    srcs = sorted(glob.glob(os.path.join(REPO, "python/src/*")))
    flags = ["-O0", "-std=gnu++17", "-w", "-fPIC", "-fvisibility=hidden", "-D_GLIBCXX_ASSERTIONS", "-DHYPERJET_EXCEPTIONS", '-DHYPERJET_VERSION="0"']
    d = folder("bin-py-" + tree_hash(repo_headers() + srcs + [os.path.join(VERIF, "spec/ops.qnt")], repr(flags)))
    lib = os.path.join(d, "hyperjet" + sysconfig.get_config_var("EXT_SUFFIX"))
    if os.path.exists(lib):
        return d
    what = "Python module"
    put(os.path.join(d, "hj_ops.py"), "".join("%s = %d\n" % kv for kv in OPS.items()))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "python/src"), "-isystem", "/usr/include/python3.12", "-isystem", EIGEN]
    pch = os.path.join(d, "pch.h")
    put(pch, PCH)
    POOL.submit(make, ["g++"] + flags + inc + ["-x", "c++-header", pch], pch + ".gch", what).result()
    jobs = sorted((s for s in srcs if s.endswith(".cpp")), key=lambda s: -os.path.getsize(s))
    objs = [f.result() for f in [POOL.submit(make, ["g++"] + flags + inc + ["-I" + d, "-include", "pch.h", "-c", s], os.path.join(d, os.path.basename(s) + ".o"), what) for s in jobs]]
    make(["g++", "-shared"] + objs, lib, what)
    for o in objs + [pch + ".gch"]:
        if os.path.exists(o):
            os.remove(o)
    return d


if __name__ == "__main__":
    import sys, time
    for v in sys.argv[1:]:
        t = time.time()
        print(python() if v == "python" else cpp(v, COVERED.get(v, SMALL)), "%.1f s" % (time.time() - t))
