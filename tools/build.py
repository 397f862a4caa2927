#!/usr/bin/env python3
"""Builds the code under test from /repo's current working tree, outside /repo.

A copy of the tree is made in a cache folder whose name is the hash of the tree's content; the
code generator (scripts.cogapp + src/gen) is run there exactly as the project's makefile runs it,
and every variant is linked into one shared library:

  avx     the flags of the project's own build (x86-64-v3, -O3): AVX kernels
  sse     -march=x86-64: SSE2 kernels
  sisd    both vector paths switched off by the project's own macros
  asan    avx code with AddressSanitizer and UndefinedBehaviorSanitizer
  pre     the generated text checked in inside the .ccog files (what is built without Python)
  tune-X  avx, generated with the argument file X
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
HARNESS = os.path.join(VERIF, "harness")
SKIP_TOP = {".git", "build", "tests", "doc", "examples", "log"}
NPROC = os.cpu_count() or 4


class BuildError(Exception):
    pass


def find_python():
    for p in (os.environ.get("PYTHON"), "/opt/venv/bin/python", "python3"):
        if p and (shutil.which(p) or os.path.exists(p)):
            return p
    return "python3"


PY = find_python()


def repo_files():
    out = []
    for name in sorted(os.listdir(REPO)):
        if name in SKIP_TOP or name.startswith("."):
            continue
        top = os.path.join(REPO, name)
        if os.path.isfile(top):
            out.append(name)
            continue
        for d, dirs, names in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__" and not x.startswith("."))
            for n in sorted(names):
                if n.endswith(".pyc") or n == "getter.json":
                    continue
                out.append(os.path.relpath(os.path.join(d, n), REPO))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    for d, _, names in sorted(os.walk(os.path.join(HARNESS, "mpistub"))):
        for n in sorted(names):
            with open(os.path.join(d, n), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def env():
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS"):
        e.pop(k, None)
    e["PYTHON"] = PY
    e["MTARGET_ARCH"] = "x86-64-v3"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["LANG"] = "C.UTF-8"
    return e


def run(cmd, cwd, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\nfailed (%d):\n%s" % (" ".join(cmd), p.returncode,
                                                  p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.fh = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.fh, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.fh.close()


def pmap(fn, items, workers=NPROC):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


BASEFLAGS = ["-Wall", "-std=c99", "-pedantic", "-D_REENTRANT", "-D_POSIX_C_SOURCE=200112L",
             "-D__EXTENSIONS__", "-DLITTLE_ENDIAN", "-DRELEASE", "-fPIC"]
# -O2 for the paths that only serve as comparison: same semantics, quicker to compile
FLAGS = {
    "avx": ["-march=x86-64-v3", "-O3"],
    "sse": ["-march=x86-64", "-O2"],
    "sisd": ["-march=x86-64-v3", "-O2", "-DreproBLAS_no__AVX__", "-DreproBLAS_no__SSE2__"],
    "asan": ["-march=x86-64-v3", "-O1", "-g", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "cov": ["-march=x86-64-v3", "-O2", "-fsanitize-coverage=trace-pc"],
    "pre": ["-march=x86-64-v3", "-O2"],
    "tune": ["-march=x86-64-v3", "-O2"],
}
LIBDIRS = ("src/binned", "src/binnedBLAS", "src/reproBLAS")


class Tree:
    def __init__(self, log=None):
        self.files = repo_files()
        self.hash = tree_hash(self.files)
        self.dir = os.path.join(CACHE, self.hash)
        self.tree = os.path.join(self.dir, "tree")
        self.lock = Lock(self.dir + ".lock")
        with self.lock:
            self._prepare()

    def _cog(self, src, out, args=None):
        args = args or os.path.join(self.tree, "src/tuned_args.json")
        run([PY, "-W", "ignore", "-m", "scripts.cogapp", "-I" + self.tree + "/include",
             "-I" + self.tree + "/scripts", "-I" + self.tree + "/src/gen",
             "-D", "args=" + args, "-D", "params=" + self.tree + "/src/params.json",
             "-D", "mode=generate", "-o", out, src],
            self.tree, {"PYTHONPATH": self.tree})

    def inc(self, objdir):
        t = self.tree
        return ["-I" + t + "/include", "-I" + t + "/scripts", "-I" + t + "/src/gen"]

    def _prepare(self):
        if os.path.exists(os.path.join(self.dir, "tree.ok")):
            return
        if os.path.isdir(CACHE):     # keep at most a few old trees
            old = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)
                         if os.path.isdir(os.path.join(CACHE, d)) and len(d) == 20)
            for _, d in old[:-6]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        shutil.rmtree(self.dir, ignore_errors=True)
        for f in self.files:
            dst = os.path.join(self.tree, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        # scripts/terminal.py asks "make top" where the tree is; the project's own makefile would also
        # want the folders that were not copied
        with open(os.path.join(self.tree, "Makefile"), "w") as fh:
            fh.write("top:\n\t@echo %s\n" % self.tree)
        # getter.json: needs only the headers
        g = os.path.join(self.dir, "getter")
        os.makedirs(g, exist_ok=True)
        src = os.path.join(self.tree, "scripts/getter.ccog")
        placeholder = os.path.join(self.tree, "scripts/getter.json")
        self._cog(src, g + "/getter.c")
        run(["cc", "-std=c99", "-march=x86-64-v3", "-D_POSIX_C_SOURCE=200112L"] + self.inc(None)
            + ["-o", g + "/getter", g + "/getter.c", "-lm"], self.tree)
        out = run([g + "/getter"], self.tree)
        json.loads(out)
        with open(placeholder, "wb") as fh:
            fh.write(out)
        open(os.path.join(self.dir, "tree.ok"), "w").close()

    # ---- generated sources
    def gen(self, args=None, key="gen", pre=False, only=None):
        """Directory with one .c per .ccog (all library folders); returns {name: path}."""
        out = os.path.join(self.dir, key)
        todo = []
        res = {}
        for d in LIBDIRS:
            for n in sorted(os.listdir(os.path.join(self.tree, d))):
                if n.endswith(".ccog"):
                    o = os.path.join(out, n[:-5] + ".c")
                    res[n[:-5]] = o
                    if not os.path.exists(o):
                        todo.append((os.path.join(self.tree, d, n), o))
        os.makedirs(out, exist_ok=True)

        def one(t):
            tmp = t[1] + ".tmp.c"
            if pre:
                shutil.copyfile(t[0], tmp)
            else:
                self._cog(t[0], tmp, args)
            os.rename(tmp, t[1])
        pmap(one, todo)
        return res

    def lib(self, variant, args=None, flags=None):
        """Path of the shared library of a variant."""
        base = variant.split("-")[0]
        so = os.path.join(self.dir, "lib_%s.so" % variant)
        with self.lock_ctx():
            if os.path.exists(so):
                return so
            if base == "pre":
                gen = self.gen(key="gen_pre", pre=True)
            elif base == "tune":
                gen = self.gen(args=args, key="gen_" + variant)
            else:
                gen = self.gen()
            obj = os.path.join(self.dir, "obj_" + variant)
            os.makedirs(obj, exist_ok=True)
            srcs = list(gen.values())
            for d in LIBDIRS:
                p = os.path.join(self.tree, d)
                srcs += [os.path.join(p, n) for n in sorted(os.listdir(p)) if n.endswith(".c")]
            # big generated files first
            srcs.sort(key=lambda s: -os.path.getsize(s))
            big = [[s] for s in srcs if os.path.getsize(s) > 20000]
            small = [s for s in srcs if os.path.getsize(s) <= 20000]
            jobs = big + [small[i:i + 12] for i in range(0, len(small), 12)]
            fl = BASEFLAGS + (flags or FLAGS[base]) + self.inc(None)

            def cc(group):
                run(["cc"] + fl + ["-c"] + group, obj)
            pmap(cc, jobs)
            names = [os.path.join(obj, os.path.basename(s)[:-2] + ".o") for s in srcs]
            if len(set(names)) != len(names):
                raise BuildError("two sources share a base name")
            link = ["cc", "-shared", "-o", so + ".tmp"] + names + ["-lm"]
            if base == "asan":
                link += ["-fsanitize=address,undefined"]
            run(link, obj)
            os.rename(so + ".tmp", so)
            shutil.rmtree(obj, ignore_errors=True)
            return so

    def tuned(self, name):
        """Library generated with another argument file: default, peters, or randK (admissible arguments
        drawn from the parameter space with seed K; K mod 3 picks the code path)."""
        src = os.path.join(self.tree, "src")
        if name == "default":
            return self.lib("tune-default", args=os.path.join(src, "default_args.json"))
        if name == "peters":
            return self.lib("tune-peters", args=os.path.join(src, "tuned_args_peters_mac.json"))
        k = int(name[4:])
        rng = random.Random(k)
        with open(os.path.join(src, "params.json")) as fh:
            params = json.load(fh)["parameters"]
        args = {}
        for p in sorted(params):
            d = params[p]
            if d["flavor"] == "boolean":
                vals = [False, True]
            elif d["flavor"] == "integer":
                vals = list(range(d["minimum"], d["maximum"] + 1, d["step"]))
            else:
                vals = [d["minimum"]]
                while vals[-1] < d["maximum"]:
                    vals.append(vals[-1] * 2)
            r = rng.random()
            v = vals[0] if r < .25 else vals[-1] if r < .5 else rng.choice(vals)
            # the size of the code is the product of the two
            if "unroll_width" in p and "_fold_" in p and v > 2:
                v = rng.choice(vals[:4])
            args[p] = v
        path = os.path.join(self.dir, "args_%s.json" % name)
        with open(path, "w") as fh:
            json.dump(args, fh)
        fl = [FLAGS["tune"], ["-march=x86-64", "-O2"], FLAGS["sisd"]][k % 3]
        return self.lib("tune-" + name, args=path, flags=fl)

    def mpilib(self, variant="avx", pre=False):
        """binnedMPI compiled against the stand-in mpi.h, linked into one library with binned."""
        so = os.path.join(self.dir, "libmpi_%s%s.so" % (variant, "_pre" if pre else ""))
        with self.lock_ctx():
            if os.path.exists(so):
                return so
            out = os.path.join(self.dir, "gen_mpi" + ("_pre" if pre else ""))
            obj = os.path.join(self.dir, "obj_mpi_" + variant + ("_pre" if pre else ""))
            os.makedirs(out, exist_ok=True)
            os.makedirs(obj, exist_ok=True)
            p = os.path.join(self.tree, "src/binnedMPI")
            srcs = []

            def one(n):
                o = os.path.join(out, n[:-5] + ".c")
                if pre:
                    shutil.copyfile(os.path.join(p, n), o)
                elif not os.path.exists(o):
                    self._cog(os.path.join(p, n), o + ".tmp.c")
                    os.rename(o + ".tmp.c", o)
                return o
            names = sorted(os.listdir(p))
            srcs += pmap(one, [n for n in names if n.endswith(".ccog")])
            srcs += [os.path.join(p, n) for n in names if n.endswith(".c")]
            b = os.path.join(self.tree, "src/binned")
            srcs += [os.path.join(b, n) for n in sorted(os.listdir(b)) if n.endswith(".c")]
            srcs.append(os.path.join(HARNESS, "mpistub", "mpistub.c"))
            # an index past a table of handles is a trap, not silent damage to its neighbour
            fl = BASEFLAGS + FLAGS[variant] + ["-fsanitize=bounds,object-size", "-fsanitize-undefined-trap-on-error",
                                               "-I" + os.path.join(HARNESS, "mpistub"),
                                               "-I" + self.tree + "/src/common"] + self.inc(None)
            jobs = [srcs[i:i + 12] for i in range(0, len(srcs), 12)]
            pmap(lambda g: run(["cc"] + fl + ["-c"] + g, obj), jobs)
            objs = [os.path.join(obj, os.path.basename(s)[:-2] + ".o") for s in srcs]
            link = ["cc", "-shared", "-o", so + ".tmp"] + objs + ["-lm"]
            if variant == "asan":
                link += ["-fsanitize=address,undefined"]
            run(link, obj)
            os.rename(so + ".tmp", so)
            shutil.rmtree(obj, ignore_errors=True)
            return so

    def lock_ctx(self):
        return Lock(os.path.join(self.dir, "build.lock"))

    # ---- harness programs
    def harness(self, name, asan=False):
        srcs = [os.path.join(HARNESS, n) for n in sorted(os.listdir(HARNESS))
                if n.endswith((".h", ".cc"))]
        h = hashlib.sha256()
        for s in srcs:
            if s.endswith(".h") or os.path.basename(s) == name + ".cc" or name in ("mem", "fuzz"):
                with open(s, "rb") as fh:
                    h.update(fh.read())
        tag = h.hexdigest()[:12]
        exe = os.path.join(self.dir, "%s_%s%s" % (name, tag, "_asan" if asan else ""))
        with Lock(os.path.join(self.dir, name + ("_asan" if asan else "") + ".hlock")):
            if os.path.exists(exe):
                return exe
            fl = ["-std=c++17", "-g1", "-march=x86-64-v3", "-ffp-contract=off", "-Wall",
                  "-Wno-unused", "-Wno-sign-compare", "-I" + HARNESS, "-I" + self.tree + "/include",
                  "-I" + os.path.join(HARNESS, "mpistub"), "-I" + self.tree]
            fl += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if asan else ["-O2"]
            run(["g++"] + fl + ["-o", exe + ".tmp", os.path.join(HARNESS, name + ".cc"), "-ldl", "-lm"]
                + (["-rdynamic", "-pthread"] if name == "thr" else []), HARNESS)
            os.rename(exe + ".tmp", exe)
            return exe


if __name__ == "__main__":
    import time
    t0 = time.time()
    t = Tree()
    print(t.dir, time.time() - t0)
    for v in sys.argv[1:]:
        print(v, t.lib(v) if v != "mpi" else t.mpilib(), time.time() - t0)
