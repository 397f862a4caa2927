"""Runner for the Python checks: Hypothesis strategies drive bodies that take one JSON-able case each.

A body raises Violation (or lets any exception of the code under test escape) to report a failure, and calls
rec(nontrivial, label...) once.  The shrunk case is saved and replayed by calling the body with it.
"""
import argparse
import hashlib
import io
import json
import contextlib
import os
import signal
import struct
import sys
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, Verbosity

TESTS = []
EXPLAIN = {}        # test name -> function from a case to something more readable for the samples


class Violation(Exception):
    pass


class HarnessError(BaseException):
    pass


class Hang(Exception):
    pass


def fail(fmt, *a):
    raise Violation(fmt % a if a else fmt)


def check(cond, fmt, *a):
    if not cond:
        fail(fmt, *a)


def test(prop, name, strategy, weight=1):
    def deco(fn):
        TESTS.append((prop, name, strategy, weight, fn))
        return fn
    return deco


class Rec:
    def __init__(self):
        self.nt = False
        self.labels = []

    def __call__(self, nontrivial, *labels):
        self.nt = bool(nontrivial)
        self.labels = list(labels)


def describe(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb if "pychecks" not in f.filename]
    return "%s: %s (%s)" % (type(e).__name__, e, ", ".join(where[-3:]))


def on_alarm(*a):
    raise Hang("did not finish within 30 s")


def run_body(fn, case):
    rec = Rec()
    out = io.StringIO()
    signal.setitimer(signal.ITIMER_REAL, 30)
    try:
        with contextlib.redirect_stdout(out):
            fn(case, rec)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=1000)
    ap.add_argument("--time", type=float, default=1e9)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out", default="/dev/null")
    ap.add_argument("--test", default="")
    ap.add_argument("--replay", default="")
    o = ap.parse_args()
    signal.signal(signal.SIGALRM, on_alarm)
    tests = [t for t in TESTS if t[0] == o.prop and (not o.test or t[1] == o.test)]
    if not tests:
        print("no tests selected")
        return 2
    if o.replay:
        d = json.load(open(o.replay))
        case = json.loads(d["case"])
        print(json.dumps(case, indent=1)[:6000])
        try:
            run_body(tests[0][4], case)
        except Exception as e:
            print("FAILS: " + describe(e))
            return 1
        print("passes")
        return 0
    t0 = time.time()
    per = {t[1]: [0, 0] for t in tests}
    labels, hashes, samples = {}, set(), []
    state = {"cur": None}
    totw = sum(t[3] for t in tests)
    batch = 0
    truncated = False
    want = {t[1]: max(1, o.cases * t[3] // (totw * o.nshards)) for t in tests}
    while any(per[n][0] < want[n] for n in want):
        for prop, name, strat, w, fn in tests:
            left = want[name] - per[name][0]
            if left <= 0:
                continue
            if time.time() - t0 > o.time:
                truncated = True
                break
            failed = []

            def body(case):
                try:
                    rec = run_body(fn, json.loads(json.dumps(case)))
                except HarnessError:
                    raise
                except Exception as e:
                    failed.append((case, describe(e)))
                    raise
                if failed:
                    return
                per[name][0] += 1
                for l in rec.labels:
                    labels[l] = labels.get(l, 0) + 1
                if rec.nt:
                    per[name][1] += 1
                    key = json.dumps([name, case], sort_keys=True)
                    h = hashlib.blake2b(key.encode("utf8", "surrogatepass"), digest_size=8).digest()
                    if h not in hashes:
                        hashes.add(h)
                        if o.shard == 0 and per[name][1] in (3, 30) and len(key) < 3000:
                            samples.append({"test": name, "case": EXPLAIN[name](case) if name in EXPLAIN else case})

            n = min(left, 1000)
            before = per[name][0]
            sd = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d/%d" % (o.seed, prop, name, o.shard, batch)).encode()).digest()[:8], "big")
            run = hseed(sd)(settings(max_examples=n, database=None, deadline=None, verbosity=Verbosity.quiet,
                                     phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                                     suppress_health_check=list(HealthCheck))(given(strat)(body)))
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    run()
            except HarnessError as e:
                print("harness error: %s" % e)
                return 2
            except Exception as e:
                if not failed:
                    traceback.print_exc()
                    return 2
                case, msg = failed[-1]
                try:
                    run_body(fn, json.loads(json.dumps(case)))
                except Exception as e2:
                    msg = describe(e2)
                else:
                    print("harness error: the failing case of %s does not reproduce: %s" % (name, msg))
                    return 2
                with open(o.out + ".replay", "w") as fh:
                    json.dump({"property": prop, "test": name, "message": msg, "case": json.dumps(case)}, fh, indent=1)
                print("FAILED test=%s: %s\n%s" % (name, msg, json.dumps(case)[:3000]))
                return 1
            if per[name][0] == before or (per[name][0] - before < n // 2 and n > 10):
                want[name] = per[name][0]         # the strategy has no more different cases
        batch += 1
        if truncated:
            break
    with open(o.out, "w") as fh:
        json.dump({"evaluations": sum(v[0] for v in per.values()), "nontrivial": sum(v[1] for v in per.values()),
                   "truncated": truncated, "wall": time.time() - t0, "per_test": per, "labels": labels,
                   "samples": samples[:8]}, fh)
    if o.out != "/dev/null":
        with open(o.out + ".hash", "wb") as fh:
            fh.write(b"".join(sorted(hashes)))
    return 0
