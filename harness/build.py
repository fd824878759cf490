"""Build the Python module of /repo (current working tree) outside /repo.

The result is cached under /verif/build/<hash of the sources>, so that several
checks on one tree build once; another tree gets another directory.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/usr/bin/python3"

PCH1 = """#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <string>
#include <regex>
#include <future>
#include <mutex>
#include <iostream>
#include <sstream>
#include <tuple>
#include <memory>
#include <boost/multiprecision/cpp_int.hpp>
"""
PCH2 = PCH1 + """#include <pybind11/operators.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/functional.h>
"""


class BuildError(Exception):
    pass


def _sources():
    fs = []
    for root, dirs, files in os.walk(os.path.join(REPO, "wicked")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cc", ".h", ".hpp", ".py", ".txt", ".cpp", ".hh")):
                fs.append(os.path.join(root, f))
    return fs


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in _sources() + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _pyincludes():
    inc = []
    out = subprocess.run([PY, "-m", "pybind11", "--includes"], capture_output=True, text=True)
    if out.returncode == 0:
        inc = out.stdout.split()
    else:
        inc = ["-I/usr/include/python3.12", "-I" + os.path.join(REPO, "external/pybind11/include")]
    return inc


def _compile(flags, outdir, tag):
    wk = os.path.join(REPO, "wicked")
    cc = shutil.which("clang++") or "clang++"
    inc = _pyincludes()
    base = flags + ["-w", "-std=c++20", "-fPIC", "-fvisibility=hidden", "-DUSE_BOOST_1024_INT"] + inc
    tmp = tempfile.mkdtemp(prefix="vwbuild.")
    try:
        for name, text in (("p1.h", PCH1), ("p2.h", PCH2)):
            with open(os.path.join(tmp, name), "w") as f:
                f.write(text)
        ps = [subprocess.Popen([cc] + base + ["-x", "c++-header", f"{tmp}/{n}.h", "-o", f"{tmp}/{n}.pch"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for n in ("p1", "p2")]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError(o)
        srcs = [f for f in _sources() if f.endswith(".cc")]
        srcs.sort(key=lambda f: (0 if "/api/" in f else 1, -os.path.getsize(f)))
        jobs, running, objs = list(srcs), [], []
        while jobs or running:
            while jobs and len(running) < 8:
                s = jobs.pop(0)
                o = os.path.join(tmp, os.path.relpath(s, wk).replace("/", "_") + ".o")
                pch = "p2" if "/api/" in s else "p1"
                log = open(o + ".log", "w+")
                cmd = [cc] + base + ["-include-pch", f"{tmp}/{pch}.pch", "-I.", "-Ihelpers", "-Ialgebra",
                                     "-Idiagrams", "-c", os.path.relpath(s, wk), "-o", o]
                running.append((subprocess.Popen(cmd, cwd=wk, stdout=log, stderr=log), s, o, log))
                objs.append(o)
            p, s, o, log = running.pop(0)
            rc = p.wait()
            if rc:
                log.seek(0)
                msg = log.read()
                for q in running:
                    q[0].kill()
                    q[0].wait()
                raise BuildError(f"{s}:\n{msg[:4000]}")
            log.close()
        so = os.path.join(outdir, "wicked", "_wicked" + sysconfig.get_config_var("EXT_SUFFIX"))
        os.makedirs(os.path.dirname(so), exist_ok=True)
        link = [cc, "-shared"] + [f for f in flags if "san" in f] + objs + ["-o", so, "-lpthread"]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stdout + r.stderr)
        for f in glob.glob(os.path.join(wk, "*.py")):
            shutil.copy(f, os.path.dirname(so))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(kind="plain"):
    """returns the directory that holds the package `wicked`"""
    flags = {"plain": ["-O1"], "tsan": ["-O1", "-gline-tables-only", "-fsanitize=thread", "-shared-libsan"],
             "asan": ["-O1", "-g", "-fsanitize=address,undefined"]}[kind]
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    key = kind + "-" + tree_hash(kind)
    dst = os.path.join(root, key)
    with open(os.path.join(root, "lock." + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, "ok")):
            old = sorted((d for d in glob.glob(os.path.join(root, kind + "-*"))), key=os.path.getmtime)
            for d in old[:-6]:
                shutil.rmtree(d, ignore_errors=True)
            part = dst + ".part"
            shutil.rmtree(part, ignore_errors=True)
            os.makedirs(part)
            _compile(flags, part, kind)
            open(os.path.join(part, "ok"), "w").close()
            shutil.rmtree(dst, ignore_errors=True)
            os.rename(part, dst)
        else:
            os.utime(dst)
    return dst


if __name__ == "__main__":
    import time
    t = time.time()
    for k in sys.argv[1:] or ["plain"]:
        print(build(k), time.time() - t)
