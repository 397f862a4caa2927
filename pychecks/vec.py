"""C31: the vector code the generator emits computes each operation lane by lane, in every instruction set.

A case is a list of small programs.  Each is emitted through the vectorization classes, compiled and run; the
results are compared with the same operations on a flat list of lanes.
"""
import math
import os
import random
import struct
import subprocess
import sys
import tempfile

from hypothesis import strategies as st
from pbt import EXPLAIN, check, fail, main, test
sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "src", "gen"))
from utils import CodeBlock                                           # noqa: E402
import dataTypes                                                      # noqa: E402
import vectorizations                                                 # noqa: E402

TYPES = {"d": dataTypes.Double, "z": dataTypes.DoubleComplex, "s": dataTypes.Float, "c": dataTypes.FloatComplex}
VECS = {"SISD": vectorizations.SISD, "SSE": vectorizations.SSE, "AVX": vectorizations.AVX}
BITS = {"SISD": 0, "SSE": 128, "AVX": 256}
REGTYPE = {("SISD", "d"): "double", ("SISD", "s"): "float", ("SSE", "d"): "__m128d", ("SSE", "s"): "__m128",
           ("AVX", "d"): "__m256d", ("AVX", "s"): "__m256"}
HEAD = """#include <immintrin.h>
#include <float.h>
#include <math.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
typedef union int_float_ { int i; float f; } int_float;
typedef union long_double_ { long l; double d; } long_double;
static char *page_end;
static double rd[512]; static float rs[512];
static void *flush_d(const double *v, int n){ return memcpy(page_end - n * sizeof(double), v, n * sizeof(double)); }
static void *flush_s(const float *v, int n){ return memcpy(page_end - n * sizeof(float), v, n * sizeof(float)); }
"""


def lanes_of(vec, ty):
    """lanes per register of the base type"""
    if vec == "SISD":
        return 1
    return BITS[vec] // (64 if ty in "dz" else 32)


def rnd(ty, x):
    if ty in "dz":
        return x
    if x != x or math.isinf(x):
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def draw_program(seed):
    """The program a seed stands for (batches are lists of seeds: one compilation serves many programs)."""
    r = random.Random(seed)
    num = lambda: r.choice([float(r.randint(-9, 9)), r.choice([0.0, -0.0, 0.5, -0.25, 1e20, -1e20, 3e38, 1.5, 2.0 ** -126, 1e-30, 2.0 ** 23 + 1, 2.0 ** 52 + 1]),
                            r.randint(-2 ** 24, 2 ** 24) / 1024.0])
    inc = lambda: r.choice([1, 1, 2, 3, 4, "incX", "incX"])
    off = lambda: r.choice([0, 0, 1, 2, 3, 5, "off", "off"])

    def source():
        k = r.choice(["load"] * 3 + ["partial"] * 3 + ["aligned", "set", "real_imag", "propagate", "zero"])
        return {"load": ["load", off(), inc()], "partial": ["partial", off(), inc(), r.randint(1, 7), r.random() < 0.5], "aligned": ["aligned", r.randint(0, 2)],
                "set": ["set", r.randint(0, 3)], "real_imag": ["real_imag", r.randint(0, 3), r.randint(0, 3)], "propagate": ["propagate", off(), inc()], "zero": ["zero"]}[k]

    def op():
        if r.random() < 0.5:
            return [r.choice(["add", "sub", "mul", "div", "max", "blp"]), r.randint(0, 7), r.randint(0, 7)]
        return [r.choice(["abs", "conj", "nconj", "swap", "evens", "odds"]), r.randint(0, 7)]
    return {"vec": r.choice(sorted(VECS)), "type": r.choice(sorted(TYPES)), "n": r.randint(1, 3), "incX": r.randint(1, 4), "off": r.randint(0, 4),
            "data": [num() for _ in range(r.randint(1, 12))], "sources": [source() for _ in range(r.randint(1, 3))],
            "ops": [op() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))], "into": r.choice(["store", "store", "cons", "max"]),
            "doff": r.randint(0, 3), "dinc": r.randint(1, 3)}


def datum(p, i):
    """element i (of the base type) of the program's data, all different enough"""
    d = p["data"]
    v = d[i % len(d)]
    return rnd(p["type"], v + (i // len(d)) if abs(v) < 1e6 else v)


def emit(p, k):
    """C text of a function writing its lanes to rd/rs, and the lanes expected"""
    ty, vec = p["type"], p["vec"]
    base = 2 if ty in "zc" else 1
    bt = {"d": "d", "z": "d", "s": "s", "c": "s"}[ty]
    cname = {"d": "double", "s": "float"}[bt]
    regt = REGTYPE[vec, bt]
    blk = CodeBlock()
    v = VECS[vec](blk, TYPES[ty])
    per = lanes_of(vec, ty)
    tsize = max(v.type_size, 1)
    n = tsize * p["n"]
    if vec == "SISD":
        n = p["n"]
    nl = n * base
    nreg = nl // per
    cons = p["into"] == "cons"
    val = lambda x: p["incX"] if x == "incX" else p["off"] if x == "off" else x
    regs, model = [], []        # variable names, lanes
    setup = []
    body = blk.sub_block()
    v.code_block = body
    v.data_type.code_block = body
    cnt, nsym = [0], [0]

    def define(exprs):
        names = []
        for e in exprs:
            names.append("r%d" % cnt[0])
            cnt[0] += 1
            body.write("%s %s = %s;" % (regt, names[-1], e))
        return names

    def declare(m):
        names = ["r%d" % (cnt[0] + i) for i in range(m)]
        cnt[0] += m
        body.write("%s %s;" % (regt, ", ".join(names)))
        return names

    def array(count):
        """a C array of count base elements, flush against an unreadable page; its name and values"""
        name = "a%d" % cnt[0]
        cnt[0] += 1
        vals = [datum(p, i + 3 * len(setup)) for i in range(count)]
        setup.append("static const %s %s_[] = {%s}; const %s *%s;" % (cname, name, ", ".join("%r" % x if bt == "d" else "(float)%r" % x for x in vals), "void" if base == 2 else cname, name))
        return name, vals

    plan = []
    for s in p["sources"]:
        kind = s[0]
        if kind == "partial" and (vec == "SISD" or tsize < 2):
            kind, s = "load", ("load", s[1], s[2])
        if kind == "load":
            off, ic = val(s[1]), val(s[2])
            name, vals = array(((off + n - 1) * ic + 1) * base)
            plan.append((name, len(vals)))
            body.write("%s = flush_%s(%s_, %d);" % (name, bt, name, len(vals)))
            r = define(v.load(name, s[1], s[2], n))
            m = [vals[((off + i // base) * ic) * base + i % base] for i in range(nl)]
        elif kind == "aligned":
            off = s[1] * tsize
            name = "a%d" % cnt[0]
            cnt[0] += 1
            vals = [datum(p, i + 3 * len(setup)) for i in range((off + n) * base)]
            setup.append("static const %s %s_[] __attribute__((aligned(32))) = {%s}; const %s *%s = %s_;" % (cname, name, ", ".join("%r" % x if bt == "d" else "(float)%r" % x for x in vals), "void" if base == 2 else cname, name, name))
            r = define(v.load(name, off, 1, n, True))
            m = vals[off * base:off * base + nl]
        elif kind == "partial":
            off, ic = val(s[1]), val(s[2])
            q = 1 + ((s[3] if not s[4] else p["incX"] + p["off"]) - 1) % (tsize - 1)     # one n per program
            name, vals = array(((off + q - 1) * ic + 1) * base)
            body.write("%s = flush_%s(%s_, %d);" % (name, bt, name, len(vals)))
            one = define(v.load_partial(name, s[1], s[2], "(n%d - 1)" % k if s[4] else q))
            if s[4]:
                nsym[0] = q
            m1 = [vals[((off + i // base) * ic) * base + i % base] if i < q * base else 0.0 for i in range(per)]
            r, m = one * nreg, m1 * nreg
        elif kind == "set":
            x = datum(p, s[1])
            r = define(v.set(lit(bt, x))) * nreg
            m = [x] * nl
        elif kind == "real_imag" and base == 2:
            x, y = datum(p, s[1]), datum(p, s[2] + 1)
            one = define(v.set_real_imag(lit(bt, x), lit(bt, y)))
            r, m = one * (nreg // len(one)), [x, y] * n
        elif kind == "propagate":
            off, ic = val(s[1]), val(s[2])
            name, vals = array((off * ic + 1) * base)
            body.write("%s = flush_%s(%s_, %d);" % (name, bt, name, len(vals)))
            r = declare(nreg)
            v.propagate_into(r, name, s[1], s[2])
            m = [vals[off * ic * base + i % base] for i in range(nl)]
        else:
            r = define([v.zero] * nreg)
            m = [0.0] * nl
        regs.append(r)
        model.append(m)
    for o in p["ops"]:
        a, x = regs[o[1] % len(regs)], model[o[1] % len(regs)]
        if len(o) == 3:
            b, y = regs[o[2] % len(regs)], model[o[2] % len(regs)]
        if o[0] == "blp":
            r = declare(nreg)
            v.add_blp_into(r, a, b, nreg)
            m = [arith(ty, "add", s, setbit(ty, t)) for s, t in zip(x, y)]
        elif o[0] in ("add", "sub", "mul", "div", "max"):
            r = define(getattr(v, o[0])(a, b))
            m = [arith(ty, o[0], s, t) for s, t in zip(x, y)]
        elif o[0] == "abs":
            r, m = define(v.abs(a)), [abs(s) for s in x]
        elif o[0] in ("conj", "nconj"):
            r = define(getattr(v, o[0])(a))
            m = [-s if base == 2 and i % 2 == (o[0] == "conj") else s for i, s in enumerate(x)]
        elif vec == "SISD" and nreg % 2:
            continue
        elif o[0] == "swap":
            r, m = define(v.swap_pairwise(a)), [x[i ^ 1] for i in range(nl)]
        elif o[0] == "evens":
            r, m = define(v.rep_evens(a)), [x[i & ~1] for i in range(nl)]
        else:
            r, m = define(v.rep_odds(a)), [x[i | 1] for i in range(nl)]
        regs.append(r)
        model.append(m)
    r, m = regs[-1], model[-1]
    out = "r" + bt
    into = "((void*)%s)" % out if base == 2 else out        # complex data comes in behind a void pointer, as in the library
    do, di = p["doff"], p["dinc"]
    want = {}
    if p["into"] == "max" and not any(x != x for x in m):
        width = nreg if vec != "SISD" else base
        keep = define([r[0]]) if vec != "SISD" else define(r[:base])
        v.max_into(into, do, di, keep)
        used = m[:per] if vec != "SISD" else m[:base]
        for j in range(base):
            want[do * di * base + j] = max(used[j::base])
    elif cons:
        # lanes around a common value, as the accumulators hold them: the sums are exact
        c0 = [3.0 * 2 ** (22 if bt == "s" else 51), -3.0 * 2 ** (22 if bt == "s" else 51)][:base]
        ints = [[int(datum(p, i + 5)) % 1000 if abs(datum(p, i + 5)) < 1e9 else i for i in range(nl)]][0]
        lane = [c0[i % base] + ints[i] for i in range(nl)]
        name = "b%d" % cnt[0]
        setup.append("static const %s %s[] __attribute__((aligned(32))) = {%s};" % (cname, name, ", ".join("%r" % x for x in lane)))
        off, ic = p["off"], p["incX"]
        cvals = [7.0] * ((off * ic + 1) * base)
        cvals[off * ic * base:] = c0
        setup.append("static const %s %sc[] = {%s};" % (cname, name, ", ".join("%r" % x for x in cvals)))
        keep = define(v.load(name, 0, 1, n, True))
        v.consolidate_into(into, do, di, keep, "(const void*)%sc" % name if base == 2 else name + "c", "off", "incX")
        for j in range(base):
            want[do * di * base + j] = c0[j] + sum(ints[j::base])
    else:
        for i, e in enumerate(r):
            st_ = {"SISD": "%s[%d] = %s;" % (out, i * per, e), "SSE": "_mm_storeu_p%s(%s + %d, %s);" % (bt, out, i * per, e),
                   "AVX": "_mm256_storeu_p%s(%s + %d, %s);" % (bt, out, i * per, e)}[vec]
            body.write(st_)
        want = dict(enumerate(m))
    return blk, setup, nsym[0], want, bt


def lit(bt, x):
    return "(%r)" % x if bt == "d" else "((float)%r)" % x


def setbit(ty, x):
    if ty in "dz":
        return struct.unpack("d", struct.pack("Q", struct.unpack("Q", struct.pack("d", x))[0] | 1))[0]
    return struct.unpack("f", struct.pack("I", struct.unpack("I", struct.pack("f", x))[0] | 1))[0]


def arith(ty, o, a, b):
    try:
        if o == "add":
            r = a + b
        elif o == "sub":
            r = a - b
        elif o == "mul":
            r = a * b
        elif o == "max":
            return a if a > b else b
        else:
            if b == 0:
                if a == 0 or a != a:
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1, b)
            r = a / b
    except OverflowError:
        r = math.inf
    return rnd(ty, r)


def run(src, d):
    p = os.path.join(d, "t.c")
    with open(p, "w") as fh:
        fh.write(src)
    r = subprocess.run(["gcc", "-w", "-O0", "-mavx", "-std=gnu99", "-fno-fast-math", "-ffp-contract=off", "-o", p[:-2], p, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        fail("the generated code does not compile:\n%s", r.stdout.decode()[:1500])
    r = subprocess.run([p[:-2]], stdout=subprocess.PIPE, timeout=20)
    return r


seeds = st.integers(0, 2 ** 40)


@test("C31", "lanes", st.one_of(st.lists(seeds, min_size=1, max_size=4), st.lists(seeds, min_size=60, max_size=60), st.lists(seeds, min_size=60, max_size=60)), 6)
def t_lanes(ss, rec):
    ps = [draw_program(s) for s in ss]
    src, wants = HEAD, []
    for k, p in enumerate(ps):
        blk, setup, qs, want, bt = emit(p, k)
        src += "static void f%d(volatile int n_, long incX, long off){ int n%d = n_ + 1; (void)n%d;\n" % (k, k, k) + "\n".join(setup) + "\n" + str(blk) + "}\n"
        wants.append((want, bt, qs))
    src += "int main(void){ int i; char *m = mmap(0, 16384, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); page_end = m + 12288; mprotect(page_end, 4096, PROT_NONE);\n"
    for k, p in enumerate(ps):
        src += "for(i = 0; i < 512; i++){ rd[i] = 12345; rs[i] = 12345; } printf(\"%d \"); fflush(stdout); f%d(%d, %d, %d); for(i = 0; i < 512; i++) if(r%s[i] != 12345) printf(\"%%d %%a \", i, (double)r%s[i]); puts(\"\");\n" % (k, k, wants[k][2], p["incX"], p["off"], wants[k][1], wants[k][1])
    src += "return 0; }\n"
    with tempfile.TemporaryDirectory() as d:
        r = run(src, d)
    lines = r.stdout.decode().split("\n")
    if r.returncode:
        fail("the code of program %s crashes", ps[int(lines[-1].split()[0])] if lines[-1].split() else "?")
    for line in lines:
        w = line.split()
        if not w:
            continue
        k = int(w[0])
        got = {int(w[i]): float.fromhex(w[i + 1]) for i in range(1, len(w), 2)}
        want = {i: x for i, x in wants[k][0].items() if x != 12345}
        check(set(got) == set(want), "%s writes elements %s, expected %s", ps[k], sorted(got), sorted(want))
        for i in want:
            check(got[i] == want[i] or (got[i] != got[i] and want[i] != want[i]), "%s: lane %d is %r, expected %r", ps[k], i, got[i], want[i])
    rec(sum(len(p["ops"]) > 1 for p in ps) > 0, *sorted({p["vec"] + p["type"] for p in ps}))


EXPLAIN["lanes"] = lambda ss: {"seeds": ss[:3], "first programs": [draw_program(s) for s in ss[:3]], "programs": len(ss)}
csr = st.fixed_dictionaries({"vec": st.sampled_from(sorted(VECS)), "type": st.sampled_from(sorted(TYPES)), "round": st.integers(0, 3), "daz": st.booleans(), "ftz": st.booleans(), "flags": st.integers(0, 63)})


@test("C31", "denormal_mode", st.lists(csr, min_size=1, max_size=40), 1)
def t_csr(cs, rec):
    src, start = HEAD, []
    for k, c in enumerate(cs):
        blk = CodeBlock()
        body = blk.sub_block()
        v = VECS[c["vec"]](body, TYPES[c["type"]])
        v.set_SIMD_daz_ftz()
        body.write("mid = _mm_getcsr();")
        v.reset_SIMD_daz_ftz()
        start.append(0x1f80 | c["round"] << 13 | 0x40 * c["daz"] | 0x8000 * c["ftz"] | c["flags"])
        src += "static void f%d(void){ unsigned mid, old = _mm_getcsr(); _mm_setcsr(%du);{\n%s} printf(\"%%u %%u\\n\", mid, _mm_getcsr()); _mm_setcsr(old); }\n" % (k, start[-1], str(blk))
    src += "int main(void){\n" + "".join("f%d();\n" % k for k in range(len(cs))) + "return 0; }\n"
    with tempfile.TemporaryDirectory() as d:
        r = run(src, d)
    check(r.returncode == 0, "the generated code crashes")
    for c, s, l in zip(cs, start, r.stdout.decode().splitlines()):
        mid, after = map(int, l.split())
        if c["vec"] == "SISD":
            check(mid == s, "%s: the control word %x becomes %x", c, s, mid)
        else:
            check(mid & 0x8040 == 0x8040 and (mid ^ s) & ~0x8040 == 0, "%s: with the control word %x the code runs under %x", c, s, mid)
        check(after == s, "%s: the control word %x is left as %x", c, s, after)
    rec(True)


guard = st.fixed_dictionaries({"avx": st.booleans(), "sse": st.booleans(), "noavx": st.booleans(), "nosse": st.booleans(), "type": st.sampled_from(sorted(TYPES))})


@test("C31", "selection", guard, 1)
def t_selection(c, rec):
    blk = CodeBlock()

    def one(vectorization, code_block):
        v = vectorization(code_block, TYPES[c["type"]])
        code_block.write("picked %s %s %d" % (vectorization.name, v.type_name.replace(" ", "_"), v.byte_size))
    vectorizations.iterate_all_vectorizations(one, blk)
    inc = CodeBlock()
    vectorizations.conditionally_include_vectorizations(inc)
    defs = ["-U__AVX__", "-U__SSE2__", "-DreproBLAS_dummy"] + ["-D__AVX__=1"] * c["avx"] + ["-D__SSE2__=1"] * c["sse"] + ["-DreproBLAS_no__AVX__"] * c["noavx"] + ["-DreproBLAS_no__SSE2__"] * c["nosse"]
    text = str(blk) + str(inc).replace("#include", "included")
    r = subprocess.run(["gcc", "-E", "-P", "-xc"] + defs + ["-"], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    check(r.returncode == 0, "the guards do not preprocess: %s", r.stdout.decode()[:500])
    got = r.stdout.decode().split()
    want = "AVX" if c["avx"] and not c["noavx"] else "SSE" if c["sse"] and not c["nosse"] else "SISD"
    bits = {"AVX": 32, "SSE": 16, "SISD": 8 if c["type"] in "dz" else 4}
    check(got[:2] == ["picked", want] and got.count("picked") == 1 and int(got[3]) == bits[want], "with %s the guards pick %s, expected %s", defs, got, want)
    head = {"AVX": ["included", "<immintrin.h>"], "SSE": ["included", "<emmintrin.h>"], "SISD": []}[want]
    check(got[4:] == head, "with %s the guards include %s, expected %s", defs, got[4:], head)
    rec(c["avx"] or c["sse"])


if __name__ == "__main__":
    sys.exit(main())
