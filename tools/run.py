#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C07 [--tier quick|thorough] [--seed N]    decide the property on /repo's working tree
  run.py C07 --replay FILE                         replay a saved counterexample
  run.py setup                                     build everything the checks need

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no answer.
"""
import json
import os
import re
import struct
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build                                    # noqa: E402
from checks import CHECKS                       # noqa: E402

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NSH = 8


def known_findings(prop):
    """Lines 'known: property=<id> key=<text> :: <what fails>'; a failure is listed if its message or
    its case contains the key text.  'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def hypothesis_path():
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if os.path.isdir(os.path.join(p, "hypothesis")):
            return p
    return ""


def prepare(chk, tree):
    """Returns (list of commands' common prefix, env)."""
    env = dict(os.environ)
    env["VERIF_REPO"] = build.REPO
    if chk["kind"] == "cc":
        libs = []
        for v in chk["libs"]:
            if v.startswith("mpi"):
                libs.append(tree.mpilib(pre=v == "mpi-pre"))
            elif v.startswith("tune-"):
                libs.append(tree.tuned(v[5:]))
            else:
                libs.append(tree.lib(v))
        exe = tree.harness(chk["prog"], asan="asan" in chk["libs"])
        env["VERIF_LIBS"] = ":".join(libs)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=255"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=99"
        return [exe], env
    env["VERIF_TREE"] = tree.tree
    env["PYTHONPATH"] = ":".join([tree.tree, os.path.join(VERIF, "pychecks"), hypothesis_path()])
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONWARNINGS"] = "ignore"
    return [build.PY, os.path.join(VERIF, "pychecks", chk["prog"] + ".py")], env


def main():
    args = sys.argv[1:]
    if args and args[0] == "setup":
        return setup()
    prop = args[0]
    opt = dict(zip(args[1::2], args[2::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or "1")
    chk = CHECKS[prop]
    t0 = time.time()
    tree = build.Tree()
    cmd, env = prepare(chk, tree)
    if "--replay" in opt:
        d = json.load(open(opt["--replay"]))
        if "history" in d:
            h = d["history"]
            extra = ["--seed", str(h["seed"]), "--shard", str(h["shard"]), "--nshards", str(h["nshards"]),
                     "--cases", str(h["cases"]), "--out", "/dev/null"]
        else:
            extra = ["--test", d["test"], "--replay", opt["--replay"]]
        return subprocess.run(cmd + ["--prop", prop] + extra, env=env).returncode
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    work = os.path.join(tree.dir, "run_%s_%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    tb = time.time() - t0
    cases = chk["cases"] if tier == "quick" else 10 ** 12
    tlimit = 400 if tier == "quick" else chk.get("thorough_s", 600)
    nsh = chk.get("shards", NSH)
    procs = []
    for s in range(nsh):
        out = os.path.join(work, "o%d" % s)
        log = open(out + ".log", "wb")
        procs.append((s, out, subprocess.Popen(
            cmd + ["--prop", prop, "--seed", str(seed), "--cases", str(cases), "--time", str(tlimit),
                   "--shard", str(s), "--nshards", str(nsh), "--out", out],
            env=env, stdout=log, stderr=subprocess.STDOUT, cwd=work)))
    # the first counterexample found ends the run (unless it is a listed finding)
    hard = 840 - tb if tier == "quick" else 3 * tlimit + 600
    codes = {}
    found = None
    known = known_findings(prop)
    knownhits = []
    while len(codes) < nsh:
        for s, out, p in procs:
            if s in codes or p.poll() is None:
                continue
            codes[s] = p.returncode
            if p.returncode == 1 and os.path.exists(out + ".replay"):
                d = json.load(open(out + ".replay"))
                hit = [k for k in known if k[0] in d["message"] or k[0] in d.get("case", "")]
                if hit:
                    knownhits.append(hit[0])
                elif found is None:
                    found = (s, out, d)
        if found or time.time() - t0 > hard:
            break
        time.sleep(0.05)
    for s, out, p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    logs = {s: open(out + ".log", errors="replace").read() for s, out, p in procs}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration"}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk["rule"], "samples": []}
    per, labels, hashes = {}, {}, set()
    nontriv = 0
    for s, out, p in procs:
        if not os.path.exists(out):
            continue
        d = json.load(open(out))
        cov["evaluations"] += d["evaluations"]
        nontriv += d["nontrivial"]
        cov["samples"] += d["samples"]
        for k, v in d["per_test"].items():
            a = per.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]
        for k, v in d["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if os.path.exists(out + ".hash"):
            b = open(out + ".hash", "rb").read()
            if chk["kind"] == "cc" and len(hashes) < 3 * 10 ** 7:
                hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            else:
                hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
    cov["distinct_nontrivial"] = len(hashes)
    cov["nontrivial_evaluations"] = nontriv
    cov["per_test_evaluated_nontrivial"] = per
    cov["labels"] = labels
    cov["samples"] = cov["samples"][:12]
    ev["coverage"] = cov
    ev["assumptions"] = chk.get("assumptions", [])
    ev["build_s"] = round(tb, 1)
    rc = 0
    if found:
        s, out, d = found
        dst = os.path.join(REPLAYS, "%s-seed%d.json" % (prop, seed))
        with open(dst, "w") as fh:
            json.dump(d, fh, indent=1)
        print(logs[s].strip()[:4000])
        cov["samples"] = (cov["samples"] + [{"test": d["test"], "case": d.get("case", "")[:1500], "failed": d["message"]}])[-12:]
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        ev["violations"] = 1
        rc = 1
    else:
        ev["violations"] = 0
        for k in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
        bad = [s for s in range(nsh) if codes.get(s) not in (0, 1)]
        if bad or (1 in codes.values() and not knownhits):
            for s in bad[:3]:
                print("shard %d ended with %s\n%s" % (s, codes.get(s, "timeout"), logs[s][-2000:]))
            rc = 2
    ev["wall_s"] = round(time.time() - t0, 1)
    if rc != 2:
        with open(os.path.join(EVID, prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.0f s (build %.0f s): %s" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], tb,
        {0: "held", 1: "violated", 2: "no answer"}[rc]))
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    return rc


def setup():
    tree = build.Tree()
    libs, progs = [], []
    for c in CHECKS.values():
        if c["kind"] != "cc":
            continue
        for v in c["libs"]:
            if v not in libs:
                libs.append(v)
        p = (c["prog"], "asan" in c["libs"])
        if p not in progs:
            progs.append(p)
    for v in libs:
        if v.startswith("mpi"):
            tree.mpilib(pre=v == "mpi-pre")
        elif v.startswith("tune-"):
            tree.tuned(v[5:])
        else:
            tree.lib(v)
    build.pmap(lambda p: tree.harness(*p), progs)
    print("built", tree.dir)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print(e)
        print("no answer: the code under test or the harness did not build")
        sys.exit(2)
