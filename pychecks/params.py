"""C23: the generator's parameter layer."""
import copy
import json
import os
import sys
import tempfile

from hypothesis import strategies as st
from pbt import check, fail, main, test
TREE = os.environ["VERIF_TREE"]
os.chdir(TREE)
sys.path[:0] = [os.path.join(TREE, "src", "gen"), os.path.join(TREE, "src", "common")]
import generate as G                                                  # noqa: E402
from utils import CodeBlock                                           # noqa: E402
import blockSize                                                      # noqa: E402
import scripts.terminal                                               # noqa: E402

name = st.sampled_from(["p", "q", "amax_d_unroll", "block size", "é", "dbdgemm_block_size_X", "r.s", "K"])
tags = st.dictionaries(st.sampled_from(["type", "vec", "fold"]), st.one_of(st.integers(0, 9), st.sampled_from(["d", "AVX"])), max_size=2)
value = st.one_of(st.integers(-20, 200), st.integers(-10 ** 12, 10 ** 12), st.booleans(), st.integers(0, 40).map(lambda k: 2 ** k), st.integers(0, 30).map(lambda k: 2 ** k + 1))


@st.composite
def pdef(draw, nm=None):
    fl = draw(st.sampled_from(["boolean", "integer", "integer", "poweroftwo", "poweroftwo"]))
    d = {"flavor": fl, "name": draw(name) if nm is None else nm, "tags": draw(tags), "default": draw(value)}
    if fl == "integer":
        d["step"] = draw(st.one_of(st.integers(1, 9), st.sampled_from([16, 32, 100])))
        lo = draw(st.integers(-5, 20))
        d["minimum"] = lo * d["step"]
        d["maximum"] = (lo + draw(st.integers(0, 30))) * d["step"]
    elif fl == "poweroftwo":
        lo = draw(st.integers(0, 12))
        d["minimum"] = 2 ** lo
        d["maximum"] = 2 ** (lo + draw(st.integers(0, 14)))
    return d


def make(d):
    if d["flavor"] == "boolean":
        return G.BooleanParameter(d["name"], dict(d["tags"]), d["default"])
    if d["flavor"] == "integer":
        return G.IntegerParameter(d["name"], dict(d["tags"]), d["minimum"], d["maximum"], d["step"], d["default"])
    return G.PowerOfTwoParameter(d["name"], dict(d["tags"]), d["minimum"], d["maximum"], d["default"])


def admissible(d, v):
    if d["flavor"] == "boolean":
        return isinstance(v, bool)
    if not isinstance(v, int) or isinstance(v, bool) or not d["minimum"] <= v <= d["maximum"]:
        return False
    return v % d["step"] == 0 if d["flavor"] == "integer" else v > 0 and v & (v - 1) == 0


def candidates(d):
    """admissible values next to a number, for the nearness check"""
    if d["flavor"] == "integer":
        return range(d["minimum"], d["maximum"] + 1, d["step"])
    v, out = d["minimum"], []
    while v <= d["maximum"]:
        out.append(v)
        v *= 2
    return out


@test("C23", "parse", st.fixed_dictionaries({"d": pdef(), "values": st.lists(value, min_size=1, max_size=6)}), 4)
def t_parse(c, rec):
    d, nt = c["d"], False
    p = make(d)
    check(admissible(d, p.default), "default %r of %r is outside its range", p.default, d)
    for v in c["values"]:
        r = p.parse_value(v)
        check(admissible(d, r), "%r parsed by %r gives %r", v, d, r)
        check(r == p.parse_value(r) and type(p.parse_value(r)) is type(r), "parsing %r again changes it", r)
        if admissible(d, v):
            check(r == v and type(r) is type(v), "admissible value %r of %r became %r", v, d, r)
            nt = nt or v not in (d.get("minimum"), True, False)
        elif d["flavor"] == "boolean":
            check(r == bool(v), "%r became %r", v, r)
        else:
            v = int(v)
            if v >= d["maximum"]:
                check(r == d["maximum"], "%r is beyond the range of %r but became %r", v, d, r)
            elif d["flavor"] == "integer" and v <= d["minimum"] or d["flavor"] == "poweroftwo" and 0 <= v <= d["minimum"]:
                check(r == d["minimum"], "%r is below the range of %r but became %r", v, d, r)
            elif v > 0:
                c2 = candidates(d)
                lo, hi = max(x for x in c2 if x <= v), min(x for x in c2 if x >= v)
                check(r in (lo, hi), "%r became %r, its neighbours are %r and %r (%r)", v, r, lo, hi, d)
                if d["flavor"] == "integer":
                    check(abs(r - v) <= min(v - lo, hi - v), "%r became %r, the nearest of %r and %r is not that", v, r, lo, hi)
            nt = True
    rec(nt, d["flavor"])


def same(a, b):
    fields = ("name", "flavor", "tags", "default", "minimum", "maximum", "step")
    return type(a) is type(b) and all(getattr(a, f, None) == getattr(b, f, None) and type(getattr(a, f, None)) is type(getattr(b, f, None)) for f in fields)


@test("C23", "encode", st.fixed_dictionaries({"d": pdef(), "values": st.lists(value, max_size=4)}), 2)
def t_encode(c, rec):
    p = make(c["d"])
    e = p.encode()
    q = G.Parameter.decode(json.loads(json.dumps(e)))
    check(q is not None and same(p, q), "%r decodes to %r", e, q and vars(q))
    check(q.encode() == e or json.dumps(q.encode()) == json.dumps(e), "encoding of the decoded parameter differs: %r, %r", e, q.encode())
    for v in c["values"]:
        check(p.parse_value(v) == q.parse_value(v), "%r parses to %r before and %r after the round trip", v, p.parse_value(v), q.parse_value(v))
    rec(bool(c["d"]["tags"]), c["d"]["flavor"])


@test("C23", "reject", st.fixed_dictionaries({"d": pdef(), "what": st.integers(0, 5), "k": st.integers(1, 8)}), 1)
def t_reject(c, rec):
    """definitions without admissible values, and incomplete encodings, are refused"""
    d, k = dict(c["d"]), c["k"]
    e = json.loads(json.dumps(make(d).encode()))
    bad = None
    if c["what"] == 0 and d["flavor"] == "integer":
        d["minimum"], d["maximum"] = d["maximum"] + k * d["step"], d["minimum"]
        bad = d
    elif c["what"] == 1 and d["flavor"] == "integer" and k % d["step"]:
        d["maximum"] += k
        bad = d
    elif c["what"] == 2 and d["flavor"] == "integer" and k % d["step"]:
        d["minimum"] -= k
        bad = d
    elif c["what"] == 3 and d["flavor"] == "poweroftwo" and d["minimum"] > 1:
        d["minimum" if k & 1 else "maximum"] += 1
        bad = d
    if bad:
        try:
            make(bad)
        except AssertionError:
            return rec(True, "definition")
        fail("definition %r was accepted", bad)
    miss = [m for m in ("name", "flavor", "default", "minimum", "maximum", "step") if m in e]
    m = miss[k % len(miss)]
    del e[m]
    try:
        G.Parameter.decode(e)
    except (AssertionError, KeyError):
        return rec(True, "encoding")
    fail("encoding without %r was accepted: %r", m, e)


arguments = st.dictionaries(st.one_of(name, st.text(min_size=1, max_size=6)), value, max_size=8)


@test("C23", "argfile", st.fixed_dictionaries({"a": arguments, "bad": st.sampled_from([None, None, None, "list", "int"])}), 2)
def t_argfile(c, rec):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "args.json")
        if c["bad"]:
            obj = [1, 2] if c["bad"] == "list" else 7
            try:
                G.serialize_arguments(obj, f)
            except AssertionError:
                pass
            else:
                fail("%r was saved as arguments", obj)
            with open(f, "w") as fh:
                json.dump(obj, fh)
            try:
                G.deserialize_arguments(f)
            except AssertionError:
                return rec(True, "refused")
            fail("%r was loaded as arguments", obj)
        a = copy.deepcopy(c["a"])
        G.serialize_arguments(a, f)
        check(a == c["a"], "saving changed the arguments")
        r = G.deserialize_arguments(f)
        check(r == a and all(type(r[k]) is type(a[k]) for k in a), "saved %r, loaded %r", a, r)
        first = open(f, "rb").read()
        G.serialize_arguments(dict(reversed(list(a.items()))), f)
        check(open(f, "rb").read() == first, "the file depends on the order of the arguments")
    rec(len(c["a"]) > 1)


class T(G.Target):
    def __init__(self, d):
        super().__init__()
        self.d = d

    def get_parameters(self):
        return [make(p) for p in self.d["parameters"]]

    def get_metrics(self):
        return {a: list(m) for a, m in self.d["metrics"].items()}

    def get_arguments(self):
        return list(self.d["arguments"])

    def write(self, code_block):
        for a in self.get_arguments():
            code_block.write("%s = %r" % (a, self.arguments[a]))


ARGS = ["a%d" % i for i in range(6)]


@st.composite
def targets(draw):
    out, free = [], list(ARGS)
    for _ in range(draw(st.integers(1, 5))):
        own = []
        for _ in range(draw(st.integers(0, 2))):
            if free:
                own.append(free.pop(draw(st.integers(0, len(free) - 1))))
        dup = draw(st.integers(0, 14)) == 0 and len(free) < len(ARGS)
        ps = [draw(pdef(a)) for a in own]
        if dup:
            used = [a for a in ARGS if a not in free]
            ps.append(draw(pdef(draw(st.sampled_from(used)))))
        out.append({"file": draw(st.sampled_from(["src/x.ccog", "src/y.ccog", "src/b/z.ccog"])), "parameters": ps,
                    "arguments": draw(st.lists(st.sampled_from(ARGS), max_size=4, unique=True)),
                    "metrics": draw(st.dictionaries(st.sampled_from(ARGS), st.lists(st.sampled_from(["bench_a", "bench_b", "bench_c"]), max_size=2), max_size=3))})
    return out


def model(ts):
    m = {"forward_dependencies": {}, "backward_dependencies": {}, "forward_metrics": {}, "backward_metrics": {}, "parameters": {}}
    for t in ts:
        fd = m["forward_dependencies"].setdefault(t["file"], set())
        for a in t["arguments"]:
            fd.add(a)
            m["backward_dependencies"].setdefault(a, set()).add(t["file"])
        for a, ms in t["metrics"].items():
            b = m["backward_metrics"].setdefault(a, set())
            for x in ms:
                b.add(x)
                m["forward_metrics"].setdefault(x, set()).add(a)
        for p in t["parameters"]:
            if p["name"] in m["parameters"]:
                return None
            m["parameters"][p["name"]] = p
    return m


def compare(space, m, what):
    for k in m:
        got = getattr(space, k)
        if k == "parameters":
            check(set(got) == set(m[k]), "%s: parameters %r, expected %r", what, sorted(got), sorted(m[k]))
            for n, d in m[k].items():
                check(same(got[n], make(d)), "%s: parameter %r is %r, expected %r", what, n, vars(got[n]), d)
        else:
            check({a: set(b) for a, b in got.items()} == m[k], "%s: %s is %r, expected %r", what, k, got, m[k])


@test("C23", "targets", st.fixed_dictionaries({"ts": targets(), "args": st.dictionaries(st.sampled_from(ARGS), value, max_size=6), "ask": st.sampled_from(ARGS)}), 4)
def t_targets(c, rec):
    ts, m = c["ts"], model(c["ts"])
    with tempfile.TemporaryDirectory() as d:
        pf, af = os.path.join(d, "params.json"), os.path.join(d, "args.json")
        space, refused = G.ParameterSpace(), False
        try:
            for t in ts:
                space.add_target(t["file"], T(t))
        except AssertionError:
            refused = True
        check(refused == (m is None), "duplicate parameter %s: %r", "accepted" if m is None else "reported where there is none", ts)
        # through the file, one run of the generator per target
        frefused = False
        try:
            for t in ts:
                out = G.generate(T(t), os.path.join(scripts.terminal.top, t["file"]), af, pf, "params")
                check(out.strip() == "", "collecting parameters wrote %r", out)
        except AssertionError:
            frefused = True
        check(frefused == refused, "targets are refused in memory: %s, through the file: %s", refused, frefused)
        if m is None:
            return rec(True, "duplicate")
        compare(space, m, "space")
        compare(G.deserialize_parameter_space(pf), m, "space kept in a file")
        G.serialize_parameter_space(space, pf + "2")
        compare(G.deserialize_parameter_space(pf + "2"), m, "saved and loaded space")
        check(json.load(open(pf)) == json.load(open(pf + "2")), "the two files differ")
        rev = G.ParameterSpace()
        for t in reversed(ts):
            rev.add_target(t["file"], T(t))
        check(json.dumps(rev.encode(), sort_keys=True) == json.dumps(space.encode(), sort_keys=True), "the space depends on the order of the targets")
        # values
        check(space.get_default_arguments() == {n: make(p).default for n, p in m["parameters"].items()}, "default arguments %r", space.get_default_arguments())
        a = c["ask"]
        if a in c["args"] and a in m["parameters"]:
            check(space.get_value(a, c["args"]) == make(m["parameters"][a]).parse_value(c["args"][a]), "value of %s", a)
        else:
            try:
                space.get_value(a, c["args"])
            except AssertionError:
                pass
            else:
                fail("a value was found for %r, which has no %s", a, "argument" if a not in c["args"] else "parameter")
        # generation with the arguments of a file
        G.serialize_arguments(c["args"], af)
        for t in ts:
            ok = all(x in c["args"] and x in m["parameters"] for x in t["arguments"])
            try:
                out = G.generate(T(t), os.path.join(scripts.terminal.top, t["file"]), af, pf, "generate")
            except AssertionError:
                check(not ok, "generation refused although every argument is known")
                continue
            check(ok, "generation went on although an argument or parameter is missing")
            want = ["%s = %r" % (x, make(m["parameters"][x]).parse_value(c["args"][x])) for x in t["arguments"]]
            check([l for l in out.split("\n") if l] == want, "generated %r, expected %r", out, want)
    rec(len(ts) > 1 and len(m["parameters"]) > 1)


@test("C23", "blocksize", st.fixed_dictionaries({"name": st.sampled_from(["dbdgemm", "camax", "x"]), "var": st.sampled_from(["X_BLOCK_SIZE", "K"]), "lo": st.integers(0, 8), "n": st.integers(0, 8),
                                                 "default": value, "value": value, "metrics": st.lists(st.sampled_from(["bench_a", "bench_b"]), max_size=2)}), 1)
def t_blocksize(c, rec):
    b = blockSize.BlockSize(c["name"], c["var"], 2 ** c["lo"], 2 ** (c["lo"] + c["n"]), c["default"], c["metrics"])
    arg = "%s_block_size_%s" % (c["name"], c["var"])
    s = G.ParameterSpace()
    s.add_target("f", b)
    check(list(s.parameters) == [arg] and s.forward_dependencies == {"f": {arg}}, "block size registers %r, %r", list(s.parameters), s.forward_dependencies)
    check(s.backward_metrics == {arg: set(c["metrics"])}, "block size registers the metrics %r", s.backward_metrics)
    p = s.parameters[arg]
    d = {"flavor": "poweroftwo", "minimum": 2 ** c["lo"], "maximum": 2 ** (c["lo"] + c["n"])}
    check((p.minimum, p.maximum) == (d["minimum"], d["maximum"]) and admissible(d, p.default), "parameter %r", vars(p))
    b.set_arguments({arg: c["value"]}, s)
    blk = CodeBlock()
    b.write(blk)
    w = str(blk).split()
    check(w[:2] == ["#define", c["var"]] and len(w) == 3 and admissible(d, int(w[2])) and int(w[2]) == p.parse_value(c["value"]), "generated %r", str(blk))
    rec(True)


# ---- the files that are shipped
SPACE = G.deserialize_parameter_space(os.path.join(TREE, "src", "params.json"))
FILES = {n: G.deserialize_arguments(os.path.join(TREE, "src", n)) for n in sorted(os.listdir(os.path.join(TREE, "src"))) if n.endswith("args.json") or n.startswith("tuned_args") and n.endswith(".json")}
NAMES = sorted(SPACE.parameters)


@test("C23", "shipped", st.fixed_dictionaries({"i": st.integers(0, 10 ** 6), "v": value}), 2)
def t_shipped(c, rec):
    n = NAMES[c["i"] % len(NAMES)]
    p = SPACE.parameters[n]
    check(p.name == n, "parameter %r is filed under %r", p.name, n)
    d = {k: getattr(p, k) for k in ("flavor", "minimum", "maximum", "step") if hasattr(p, k)}
    for f, a in FILES.items():
        if n in a:
            check(SPACE.get_value(n, a) == a[n], "%s: %s = %r is not admissible (%r)", f, n, a[n], d)
    check(FILES["tuned_args.json"].get(n) is not None, "tuned_args.json lacks %s", n)
    check(FILES["default_args.json"].get(n) == SPACE.get_default_arguments()[n], "default_args.json has %r for %s, the default is %r", FILES["default_args.json"].get(n), n, SPACE.get_default_arguments()[n])
    check(admissible(d, p.parse_value(c["v"])), "%r parses to %r", c["v"], p.parse_value(c["v"]))
    for f in SPACE.backward_dependencies.get(n, ()):
        check(n in SPACE.forward_dependencies[f], "%s depends on %s only one way", f, n)
        check(os.path.exists(os.path.join(TREE, f)), "%s depends on the missing file %s", n, f)
    for m in SPACE.backward_metrics.get(n, ()):
        check(n in SPACE.forward_metrics[m], "%s and metric %s are linked only one way", n, m)
    rec(True)


if __name__ == "__main__":
    sys.exit(main())
