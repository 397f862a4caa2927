"""C28: the generator's symbolic helper, index arithmetic, loop control and code blocks."""
import os
import re
import subprocess
import sys
import tempfile

from hypothesis import strategies as st
from pbt import HarnessError, check, fail, main, test
sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "src", "gen"))
from utils import CodeBlock, mix                                      # noqa: E402
import dataTypes                                                      # noqa: E402
import vectorizations                                                 # noqa: E402

SYMS = ["a", "b", "incX", "j", "n"]
TYPES = {"d": dataTypes.Double, "z": dataTypes.DoubleComplex, "s": dataTypes.Float, "c": dataTypes.FloatComplex}
VECS = {"SISD": vectorizations.SISD, "SSE": vectorizations.SSE, "AVX": vectorizations.AVX}

CAST = re.compile(r"\((?:(?:un)?signed |const )*(?:ptrdiff_t|s?size_t|u?int(?:\d+|ptr|max)?_t|(?:long )?long(?: int)?|int|unsigned)\)\s*(?=[\w(])")


def plain(text):
    """without casts to other integer types: the numbers here fit into any"""
    return CAST.sub("", str(text))


leaf = st.one_of(st.sampled_from(SYMS), st.integers(0, 4), st.sampled_from([0, 1, 2, 8, 32, 1024]), st.sampled_from(["0", "1", "2", "12"]))


def node(ch):
    many = st.lists(ch, min_size=1, max_size=4)
    return st.one_of(st.fixed_dictionaries({"op": st.sampled_from(["+", "*"]), "args": many}),
                     st.fixed_dictionaries({"op": st.sampled_from(["+", "*"]), "args": many}),
                     st.fixed_dictionaries({"op": st.sampled_from(["//", "%"]), "args": st.tuples(ch, st.integers(1, 9))}))


tree = st.recursive(leaf, node, max_leaves=14)
# C and Python agree on // and % for non-negative operands, so symbols are non-negative
envs = st.lists(st.fixed_dictionaries({s: st.integers(0, 50) for s in SYMS}), min_size=1, max_size=3)


def build(t, top=True, paren=True):
    if isinstance(t, dict):
        args = [build(a, False) for a in t["args"]]
        return mix(t["op"], *args) if not top or paren else mix(t["op"], *args, paren=False)
    return t


def value(t, env):
    if isinstance(t, dict):
        v = [value(a, env) for a in t["args"]]
        r = v[0]
        for x in v[1:]:
            r = r + x if t["op"] == "+" else r * x if t["op"] == "*" else r // x if t["op"] == "//" else r % x
        return r
    return env[t] if isinstance(t, str) and not t.isdigit() else int(t)


def symbolic(t):
    return any(symbolic(a) for a in t["args"]) if isinstance(t, dict) else isinstance(t, str) and not t.isdigit()


def evaluate(text, env):
    try:
        return eval(plain(text), {}, dict(env))
    except Exception as e:
        fail("%r does not evaluate: %s", text, e)


@test("C28", "mix", st.fixed_dictionaries({"t": tree, "env": envs, "paren": st.booleans()}), 4)
def t_mix(c, rec):
    t = c["t"]
    if not isinstance(t, dict):
        return rec(False)
    got = build(t, True, c["paren"])
    for env in c["env"]:
        check(evaluate(got, env) == value(t, env), "%r built as %r gives %s for %s, expected %s", t, got, evaluate(got, env), env, value(t, env))
        # embedded in a larger expression, unless parentheses were declined
        if c["paren"]:
            check(evaluate("3 * %s * 2" % got, env) == 6 * value(t, env), "%r built as %r is not closed under multiplication", t, got)
    rec(symbolic(t) and len(str(got)) > 5)


sym_or_int = st.one_of(st.sampled_from(SYMS), st.integers(0, 9))


@test("C28", "index", st.fixed_dictionaries({"type": st.sampled_from(sorted(TYPES)), "offset": sym_or_int, "inc": st.one_of(st.sampled_from(SYMS), st.integers(1, 9)),
                                             "i": st.integers(0, 40), "base": st.booleans(), "env": envs}), 2)
def t_index(c, rec):
    ty = TYPES[c["type"]](CodeBlock())
    got = ty.index(c["offset"], c["inc"], c["i"]) if c["base"] else ty.index(c["offset"], c["inc"], c["i"], base_index=False)
    for env in c["env"]:
        val = lambda x: env[x] if isinstance(x, str) else x
        off, inc, i = val(c["offset"]), val(c["inc"]), c["i"]
        if c["type"] in "zc" and c["base"]:
            want = 2 * inc * (off + i // 2) + i % 2
        else:
            want = inc * (off + i)
        check(evaluate(got, env) == want, "index of component %d at offset %s, increment %s: %r = %s, expected %s", i, off, inc, got, evaluate(got, env), want)
    rec(isinstance(c["offset"], str) or isinstance(c["inc"], str))


@test("C28", "increment", st.fixed_dictionaries({"type": st.sampled_from(sorted(TYPES)), "ptrs": st.lists(st.tuples(st.sampled_from(["x", "y", "z"]), st.one_of(st.sampled_from(SYMS), st.integers(1, 5))), min_size=1, max_size=3, unique_by=lambda t: t[0]),
                                                 "i": st.one_of(st.integers(0, 64), st.sampled_from(["(n - j)", "n"])), "env": envs}), 1)
def t_increment(c, rec):
    ty = TYPES[c["type"]](CodeBlock())
    got = ty.data_increment([p for p, _ in c["ptrs"]], [i for _, i in c["ptrs"]], c["i"])
    parts = got.split(", ")
    check(len(parts) == len(c["ptrs"]), "%d increments for %d pointers: %r", len(parts), len(c["ptrs"]), got)
    for env in c["env"]:
        sc = dict(env)
        sc.update(x=1000, y=2000, z=3000)
        before = dict(sc)
        try:
            exec(plain("; ".join(parts)), {}, sc)
        except Exception as e:
            fail("%r does not run: %s", got, e)
        for p, inc in c["ptrs"]:
            n = evaluate(c["i"], env)
            iv = env[inc] if isinstance(inc, str) else inc
            want = before[p] + n * iv * (2 if c["type"] in "zc" else 1)
            check(sc[p] == want, "%r moves %s to %s, expected %s", got, p, sc[p], want)
    rec(True)


# ---- code blocks
WORDS = ["x = 1;", "if(a){", "}", "y += 2;", "", "  z;", "/* c */", "double p;", "double q;", "#define K 3"]
chunk = st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map("\n".join)
op = st.one_of(
    st.tuples(st.just("write"), st.integers(0, 3), chunk), st.tuples(st.just("write"), st.integers(0, 3), chunk),
    st.tuples(st.just("indent"), st.integers(0, 3)), st.tuples(st.just("dedent"), st.integers(0, 3)),
    st.tuples(st.just("include"), st.integers(0, 3), chunk), st.tuples(st.just("new_line"), st.integers(0, 3)),
    st.tuples(st.just("sub"), st.integers(0, 3)), st.tuples(st.just("vars"), st.integers(0, 3), st.lists(st.sampled_from(["p", "q", "r"]), min_size=1, max_size=3)),
    st.tuples(st.just("set"), st.integers(0, 3), st.lists(st.tuples(st.sampled_from(["p", "q", "r"]), st.sampled_from(["1", "f(x)", "q"])), min_size=1, max_size=3)),
    st.tuples(st.just("str"), st.integers(0, 3)))


class Ref:
    def __init__(self, base):
        self.base = self.level = base
        self.items = []
        self.inc = []

    def lines(self):
        out = []
        for c in self.inc:
            out += ["  " * self.base + l for l in c.split("\n")]
        for i in self.items:
            out += i.lines() if isinstance(i, Ref) else [i]
        return out


@test("C28", "codeblock", st.fixed_dictionaries({"base": st.integers(0, 2), "ops": st.lists(op, min_size=1, max_size=14)}), 3)
def t_codeblock(c, rec):
    root, ref = CodeBlock(c["base"]) if c["base"] else CodeBlock(), Ref(c["base"])
    blocks = [(root, ref)]
    kinds = set()
    for o in c["ops"]:
        b, r = blocks[o[1] % len(blocks)]
        kinds.add(o[0])
        if o[0] == "write":
            b.write(o[2])
            r.items += ["  " * r.level + l for l in o[2].split("\n")]
        elif o[0] == "indent":
            b.indent()
            r.level += 1
        elif o[0] == "dedent":
            if r.level > r.base:
                b.dedent()
                r.level -= 1
            else:
                try:
                    b.dedent()
                except AssertionError:
                    pass
                else:
                    fail("dedenting beyond the start of the block was accepted")
        elif o[0] == "include":
            b.include(o[2])
            if o[2] not in r.inc:
                r.inc.append(o[2])
        elif o[0] == "new_line":
            b.new_line()
        elif o[0] == "vars":
            b.define_vars("double", o[2])
            r.items.append("  " * r.level + "double " + ", ".join(o[2]) + ";")
        elif o[0] == "set":
            b.set_equal([p for p, _ in o[2]], [q for _, q in o[2]])
            r.items += ["  " * r.level + "%s = %s;" % (p, q) for p, q in o[2]]
        elif o[0] == "sub":
            s = b.sub_block()
            q = Ref(r.level)
            r.items.append(q)
            blocks.append((s, q))
        else:
            first = str(b)
            check(str(b) == first, "rendering a block changes it:\n%r\n%r", first, str(b))
    got = str(root)
    check(got.endswith("\n"), "the text does not end a line: %r", got)
    nb = [l for l in got.split("\n") if l.strip()]
    want = [l for l in ref.lines() if l.strip()]
    check(nb == want, "rendered %r, expected the lines %r", nb, want)
    check(str(root) == got, "rendering a block changes it:\n%r\n%r", got, str(root))
    rec(len(kinds) > 3 and len(want) > 2, *(["sub-blocks"] if len(blocks) > 1 else []))


# ---- loop control: the generated loops visit every element once, in order, with the pointers in step
loop = st.fixed_dictionaries({"vec": st.sampled_from(sorted(VECS)), "type": st.sampled_from(sorted(TYPES)), "k": st.integers(1, 24),
                              "pow": st.booleans(), "incs": st.lists(st.one_of(st.just("incX"), st.integers(1, 3)), min_size=1, max_size=2)})


def loop_source(c, k):
    blk = CodeBlock()
    v = VECS[c["vec"]](blk, TYPES[c["type"]])
    size = max(v.type_size, 1)
    unroll = size * c["k"]
    if c["pow"]:
        unroll = size * (1 << (c["k"] % 6))
    ptrs = ["x", "y"][:len(c["incs"])]

    def body(u):
        blk.write("seen(i, %s, %s);" % (u, ", ".join(ptrs + ["0"] * (2 - len(ptrs)))))
    blk.write("int i; long x = 0, y = 0; (void)x; (void)y;")
    v.iterate_unrolled("i", "N", ptrs, c["incs"], unroll, 1, body)
    return "static void f%d(int N, long incX){\n%s}\n" % (k, str(blk)), unroll


@test("C28", "loops", st.lists(loop, min_size=12, max_size=12), 1)
def t_loops(cs, rec):
    src = """#include <stddef.h>\n#include <stdint.h>\n#include <stdlib.h>\n#include <stdio.h>
static long px[4096], py[4096]; static int cnt; static int order[4096], ulen[4096];
static void seen(int i, int u, long x, long y){ if(cnt < 4096){ order[cnt] = i; ulen[cnt] = u; px[cnt] = x; py[cnt] = y; } cnt++; }
"""
    unrolls = []
    for k, c in enumerate(cs):
        s, u = loop_source(c, k)
        src += s
        unrolls.append(u)
    src += "int main(void){ int N, k; long inc;\n"
    for k, u in enumerate(unrolls):
        src += "for(inc = 1; inc <= 3; inc += 2) for(N = 0; N <= %d; N++){ cnt = 0; f%d(N, inc); printf(\"%d %%d %%ld %%d\", N, inc, cnt); for(k = 0; k < cnt && k < 4096; k++) printf(\" %%d %%d %%ld %%ld\", order[k], ulen[k], px[k], py[k]); puts(\"\"); }\n" % (min(2 * u + 5, 200), k, k)
    src += "return 0; }\n"
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "t.c")
        with open(p, "w") as fh:
            fh.write(src)
        r = subprocess.run(["cc", "-w", "-O0", "-o", p[:-2], p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            fail("the generated loops do not compile:\n%s\n%s", r.stdout.decode()[:800], src[:3000])
        r = subprocess.run([p[:-2]], stdout=subprocess.PIPE, timeout=20)
        check(r.returncode == 0, "the generated loops crash")
    for line in r.stdout.decode().splitlines():
        w = list(map(int, line.split()))
        c = cs[w[0]]
        n, inc, cnt, rest = w[1], w[2], w[3], w[4:]
        pos = 0
        base = 2 if c["type"] in "zc" else 1
        for j in range(cnt):
            i, u, x, y = rest[4 * j:4 * j + 4]
            check(i == pos and u > 0, "loop %s unrolled by %d, N=%d: step %d is at element %d, expected %d", c, unrolls[w[0]], n, j, i, pos)
            for ptr, q in zip((x, y), c["incs"]):
                want = i * base * (inc if q == "incX" else q)
                check(ptr == want, "loop %s unrolled by %d, N=%d: at element %d a pointer is at %d, expected %d", c, unrolls[w[0]], n, i, ptr, want)
            pos += u
        check(pos == n, "loop %s unrolled by %d, N=%d ends after %d elements", c, unrolls[w[0]], n, pos)
    rec(True)


if __name__ == "__main__":
    sys.exit(main())
