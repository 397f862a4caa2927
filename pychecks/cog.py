"""C24, C25: the cogapp preprocessor, against a model of documents with generator blocks."""
import atexit
import copy
import hashlib
import io
import json
import os
import re
import shutil
import sys
import tempfile

from hypothesis import strategies as st
from pbt import check, fail, main, test
from white import ref_prefix
from scripts.cogapp.cogapp import Cog

ROOT = tempfile.mkdtemp(prefix="cogpbt-")
atexit.register(shutil.rmtree, ROOT, True)
MARKS = [["[[[cog", "]]]", "[[[end]]]"], ["[[[cog", "]]]", "[[[end]]]"], ["{{gen", "}}", "{{done}}"], ["<cog", "cog>", "</cog>"],
         ["^(", ")^", "^+(end)"], ["$begin$", "$code$", "$end$"], ["@@@cog", "%%%", "!!!"]]
ARG = st.deferred(lambda: TREE)

# ---------------------------------------------------------------- documents
WORD = st.one_of(st.sampled_from(["int x;", "a b", "}", "{", "x", "# note", "// y", "  two", "100%", "\\1", "\\g<0>", "%s", "q (checksum: 12ab)",
                                  "é", "tab\there", "end", "cog", "[[", "]]", "[x]", "x y  z", "0"]),
                 st.text(alphabet="ab1 .;(){}%\\é#\t", max_size=9))
LINE = st.one_of(WORD, WORD.map(lambda s: "    " + s), st.sampled_from(["", "", "  "]))
OUTWORD = st.one_of(WORD, WORD.map(lambda s: "  " + s), st.just("")).map(lambda s: s if s.strip() else "")


@st.composite
def statement(draw):
    k = draw(st.integers(0, 15))
    s = draw(OUTWORD)
    if k < 4:
        return {"k": "outl", "s": s}
    if k == 4:
        return {"k": "out", "s": s}
    if k == 5:
        return {"k": "multi", "ls": draw(st.lists(OUTWORD, min_size=1, max_size=4)), "ind": draw(st.sampled_from(["", "  ", "\t", "      "])),
                "head": draw(st.sampled_from(["none", "empty", "blank", "text"])), "tail": draw(st.sampled_from(["none", "empty", "blank"])),
                "dedent": draw(st.booleans()), "trim": draw(st.booleans()), "l": draw(st.booleans())}
    if k == 6:
        return {"k": "loop", "n": draw(st.integers(0, 3)), "s": s, "deep": draw(st.booleans())}
    if k == 7:
        return {"k": "set", "v": draw(st.integers(0, 2)), "s": s}
    if k < 10:
        return {"k": "get", "v": draw(st.integers(0, 2))}
    if k == 10:
        return {"k": "line"}
    if k == 11:
        return {"k": "file"}
    if k == 12:
        return {"k": "prev"}
    if k == 13:
        return {"k": "doc", "ls": draw(st.lists(OUTWORD, min_size=1, max_size=3))}
    if k == 14:
        return {"k": "blank"}
    return {"k": "define"}


@st.composite
def block(draw):
    b = {"t": "block", "indent": draw(st.sampled_from(["", "", "  ", "\t", "      "])),
         "pre": draw(st.sampled_from(["", "", "// ", "# ", "-- ", "c "])),
         "stale": draw(st.lists(LINE, max_size=3)), "code": draw(st.lists(statement(), max_size=4)),
         "single": draw(st.integers(0, 3)) == 3, "deeper": draw(st.sampled_from(["", "", "  ", "\t", "    "])),
         "head": draw(st.sampled_from(["", "", "/* ", "x ", "<!-- "])), "after": draw(st.sampled_from(["", "", " */", " -->", "  "])),
         "endind": draw(st.sampled_from(["same", "same", "less", "none"])),
         "endhead": draw(st.sampled_from(["", "", "/* ", "y = "])), "endafter": draw(st.sampled_from(["", "", " */", " (checksum)", " -->"])),
         "hash": draw(st.sampled_from(["none", "none", "right", "wrong"]))}
    return b


@st.composite
def doc(draw):
    items = []
    for _ in range(draw(st.integers(0, 5))):
        items.append(draw(st.one_of(block(), block(), LINE.map(lambda s: {"t": "text", "s": s}))))
    return {"marks": draw(st.integers(0, len(MARKS) - 1)), "items": items, "nonl": draw(st.integers(0, 3)) == 3,
            "openend": draw(st.integers(0, 5)) == 5}


def clean(s, m):
    """text that contains no marker, not even together with its neighbours on the line"""
    for k in m:
        while k in s:
            s = s.replace(k, "~")
    return s


def md5(s):
    return hashlib.md5(s.encode("utf8")).hexdigest()


def split_lines(s):
    r = s.split("\n")
    return r


def reindent(s, new):
    ls = s.split("\n")
    old = ref_prefix(ls)
    r = []
    for l in ls:
        if l.strip() == "":
            l = l.replace(old, "", 1) if old else l
        else:
            l = l[len(old):]
        r.append(new + l if l else l)
    return "\n".join(r)


class Marker(Exception):
    pass


def tolerant(fn):
    def body(c, rec):
        try:
            fn(c, rec)
        except Marker:
            rec(False, "output makes up a marker")
    return body


class Doc:
    """A parsed document: pieces are ("text", line) and block dictionaries with their physical lines"""

    def __init__(self, c):
        self.m = MARKS[c["marks"] % len(MARKS)]
        self.pieces = []
        m = self.m
        nl = "\n"
        n = len(c["items"])
        for i, it in enumerate(c["items"]):
            last = i == n - 1
            if it["t"] == "text":
                self.pieces.append({"t": "text", "s": clean(it["s"], m) + nl})
                continue
            b = dict(it)
            ind, pre = b["indent"], b["pre"]
            lines, sem = self.code(b)
            if b["single"]:
                head = ind + clean(b["pre"] + b["head"], m)
                one = [l for l in lines if l.strip()][:1] or [""]
                if len([l for l in lines if l.strip()]) > 1:
                    sem, lines = self.code({"code": b["code"][:1]})[::-1]
                    if len(lines) > 1:
                        lines, sem = ["pass"], []
                    one = lines
                b["sem"] = sem
                b["begin"] = [head + m[0] + " " + one[0].strip() + " " + m[1] + clean(b["after"], m) + nl]
                b["markers"] = [b["begin"][0]]
            else:
                b["sem"] = sem
                head = pre or b["head"]
                if not pre and b["head"]:
                    head = b["head"]
                begin = ind + head + m[0] + (clean(b["after"], m) if b["deeper"] == "" and not lines else "") + nl
                end = ind + pre + m[1] + clean(b["after"], m) + nl
                body = []
                for l in lines:
                    if pre:
                        body.append(ind + pre + b["deeper"] + l)
                    else:
                        body.append(ind + b["deeper"] + l if l else "")
                b["begin"] = [begin] + [x + nl for x in body] + [end]
                b["markers"] = [begin, end]
            eind = {"same": ind, "less": ind[:-1], "none": ""}[b["endind"]]
            b["endline"] = (eind + clean(pre + b["endhead"], m), clean(b["endafter"], m) + nl)
            b["out"] = "".join(clean(s, m) + nl for s in b["stale"])
            b["sum"] = {"none": None, "right": md5(b["out"]), "wrong": md5(b["out"] + "?")}[b["hash"]]
            b["open"] = False
            if last and c["openend"]:
                b["open"] = True
                b["sum"] = None
            self.pieces.append(b)
        self.nonl = False
        if c["nonl"] and self.pieces:
            self.nonl = True
            p = self.pieces[-1]
            if p["t"] == "text":
                if p["s"] == nl:
                    self.nonl = False
                else:
                    p["s"] = p["s"][:-1]
            elif not p["open"]:
                p["endline"] = (p["endline"][0], p["endline"][1][:-1])
            elif p["out"]:
                if p["out"] == nl or p["out"].endswith("\n\n"):
                    self.nonl = False
                else:
                    p["out"] = p["out"][:-1]
            else:
                p["begin"] = p["begin"][:-1] + [p["begin"][-1][:-1]]
                p["markers"] = p["markers"][:-1] + [p["markers"][-1][:-1]]

    def code(self, b):
        """physical code lines (relative) and their meaning"""
        m, lines, sem = self.m, [], []
        for s in b["code"]:
            k = s["k"]
            esc = lambda x: repr(clean(x, m)).replace("\\\\g", "\\\\g")
            if k in ("outl", "out"):
                lines.append("cog.%s(%s)" % (k, esc(s["s"])))
                sem.append(("w", clean(s["s"], m) + ("\n" if k == "outl" else "")))
            elif k == "multi":
                ls = [clean(x, m) for x in s["ls"]]
                ls = [s["ind"] + x if x else x for x in ls]
                head = {"none": [], "empty": [""], "blank": ["   "], "text": [s["ind"] + "t"]}[s["head"]]
                tail = {"none": [], "empty": [""], "blank": [" \t"]}[s["tail"]]
                full = head + ls + tail
                text = "\n".join(full)
                kw = (", dedent=True" if s["dedent"] else "") + (", trimblanklines=True" if s["trim"] else "")
                lines.append("cog.%s(%s%s)" % ("outl" if s["l"] else "out", repr(text), kw))
                if s["trim"] and "\n" in text:
                    if full[0].strip() == "":
                        full = full[1:]
                    if full and full[-1].strip() == "":
                        full = full[:-1]
                    text = "\n".join(full) + "\n"
                if s["dedent"]:
                    text = reindent(text, "")
                sem.append(("w", text + ("\n" if s["l"] else "")))
            elif k == "loop":
                lines.append("for i in range(%d):" % s["n"])
                ind = "\t" if s["deep"] else "    "
                lines.append(ind + "t = %s + str(i)" % esc(s["s"]))
                lines.append(ind + "cog.outl(t)")
                for i in range(s["n"]):
                    sem.append(("w", clean(s["s"], m) + str(i) + "\n"))
            elif k == "set":
                lines.append("v%d = %s" % (s["v"], esc(s["s"])))
                sem.append(("set", s["v"], clean(s["s"], m)))
            elif k == "get":
                lines.append("cog.outl(globals().get('v%d', 'unset'))" % s["v"])
                sem.append(("get", s["v"]))
            elif k == "line":
                lines.append("cog.outl(str(cog.firstLineNum))")
                sem.append(("line",))
            elif k == "file":
                lines.append("cog.outl(cog.inFile[-5:] + ' ' + cog.outFile[-5:])")
                sem.append(("file",))
            elif k == "prev":
                lines.append("cog.out(cog.previous)")
                sem.append(("prev",))
            elif k == "doc":
                ls = [clean(x, m) for x in s["ls"]]
                ls = [l.replace("\\", "/").rstrip() for l in ls]
                if "\t" in "".join(ls):
                    ls = ["plain"]
                lines += ["cog.outl('''"] + ls + ["''')"]
                sem.append(("w", "\n" + "".join(l + "\n" for l in ls) + "\n"))
            elif k == "blank":
                lines.append("")
            else:
                lines.append("cog.outl(globals().get('DEF', 'none'))")
                sem.append(("def",))
        return lines, sem

    def text(self):
        r = []
        for p in self.pieces:
            if p["t"] == "text":
                r.append(p["s"])
            else:
                r += p["begin"]
                r.append(p["out"])
                if not p["open"]:
                    a, z = p["endline"]
                    r.append(a + self.m[2] + (" (checksum: %s)" % p["sum"] if p["sum"] is not None else "") + z)
        return "".join(r)

    def lineno(self, k):
        """number of the first line of piece k"""
        n = 1
        for p in self.pieces[:k]:
            n += p["s"].count("\n") if p["t"] == "text" else sum(x.count("\n") for x in p["begin"]) + p["out"].count("\n") + (not p["open"])
        return n

    def run(self, o):
        """what one run with options o writes, and the document that this is; or the line of the refused block"""
        env = {}
        outs = []
        for k, p in enumerate(self.pieces):
            if p["t"] == "text":
                outs.append(None)
                continue
            if p["open"] and not o["z"]:
                return ("missing", self.lineno(k) + sum(x.count("\n") or 1 for x in p["begin"]) - 1 + len(p["out"].splitlines()))
            if o["c"] and p["sum"] is not None and p["sum"] != md5(p["out"]):
                return ("edited", self.lineno(k) + len(p["begin"]) + p["out"].count("\n"))
            if o["x"]:
                outs.append("")
                continue
            w = ""
            for s in p["sem"]:
                if s[0] == "w":
                    w += s[1]
                elif s[0] == "set":
                    env[s[1]] = s[2]
                elif s[0] == "get":
                    w += env.get(s[1], "unset") + "\n"
                elif s[0] == "line":
                    w += "%d\n" % self.lineno(k)
                elif s[0] == "file":
                    w += o["name"][-5:] + " " + (o["name"] + (".out" if o["mode"] == "o" else ""))[-5:] + "\n"
                elif s[0] == "prev":
                    w += p["out"]
                else:
                    w += (o["D"] if o["D"] is not None else "none") + "\n"
            if w and w[-1] != "\n":
                w += "\n"
            w = reindent(w, ref_prefix([x.rstrip("\n") for x in p["markers"]]))
            if o["s"]:
                w = "\n".join(l + o["s"] if l.strip() else l for l in w.split("\n"))
            if any(k in w for k in self.m):
                raise Marker             # pieces of output that make up a marker together
            outs.append(w)
        if o["d"]:
            r = "".join(p["s"] if p["t"] == "text" else w for p, w in zip(self.pieces, outs))
            return ("ok", r)
        for p, w in zip(self.pieces, outs):
            if p["t"] == "text":
                continue
            if p["open"] and w and not p["begin"][-1].endswith("\n"):
                p["begin"][-1] += "\n"          # the output must not run into the marker line
            if p["open"] and w == "" and p["out"]:
                pass
            p["out"] = w
            p["sum"] = md5(w) if o["c"] and not p["open"] else None
        return ("ok", self.text())


# ---------------------------------------------------------------- running the real thing
@st.composite
def options(draw):
    return {"c": draw(st.booleans()), "x": draw(st.integers(0, 4)) == 4, "z": draw(st.booleans()), "d": draw(st.integers(0, 4)) == 4,
            "U": draw(st.booleans()), "s": draw(st.sampled_from(["", "", "", " //gen", "\\1", "x", " %s"])),
            "D": draw(st.sampled_from([None, None, "val", "a=b", ""])), "mode": draw(st.sampled_from(["r", "r", "o", "stdout", "list"])),
            "enc": draw(st.sampled_from(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16"])), "verb": draw(st.integers(0, 2)),
            "plainruns": draw(st.booleans())}


PLAIN = re.compile(r"[-A-Za-z0-9_=:.,/+@%]+$")


def argv(o, m, mode):
    a = ["-" + f for f in "cxzU" if o[f]]
    if o["d"] and mode != "r":
        a.append("-d")
    if o["s"]:
        a += ["-s", o["s"]]
    if o["D"] is not None:
        a += ["-D", "DEF=" + o["D"]]
    if o["enc"] != "utf-8":
        a += ["-n", o["enc"]]
    if m != MARKS[0]:
        a += ["--markers=" + " ".join(m)]
    a += ["--verbosity=%d" % o["verb"]]
    return a


def write(path, text, enc):
    with open(path, "w", encoding=enc, newline="") as f:
        f.write(text)


def read(path, enc):
    with open(path, "r", encoding=enc, newline="") as f:
        return f.read()


def cog(args):
    """one command; exit status and what it printed"""
    path = sys.path[:]
    c = Cog()
    out, err = io.StringIO(), io.StringIO()
    c.setOutput(stdout=out, stderr=err)
    rc = c.main(["cog"] + args)
    check(sys.path == path, "the module search path changed to %r", sys.path)
    return rc, out.getvalue(), err.getvalue()


def where(path, line):
    return "%s(%d)" % (path, line)


def one_run(d, o, path):
    """run once with options o, compare with the model, and advance the model; returns what happened"""
    o = dict(o, name=os.path.basename(path))
    enc, mode = o["enc"], o["mode"]
    before = d.text()
    write(path, before, enc)
    if mode == "r" or mode == "list":
        o["d"] = False
    args = argv(o, d.m, mode)
    what = " ".join(args) + " (" + mode + ") on\n" + before
    want = d.run(o)
    other = path + ".out"
    if mode == "r":
        rc, out, err = cog(args + ["-r", path])
        got = read(path, enc)
    elif mode == "o":
        rc, out, err = cog(args + ["-o", other, path])
        got = read(other, enc)
        os.unlink(other)
    elif mode == "stdout":
        rc, out, err = cog(args + [path])
        got = out
    else:
        # a list of files, each with its own options; files before and after it must not be affected by them
        lst, side = path + ".list", path + ".side"
        sidetext = "x\n[[[cog cog.outl(globals().get('DEF', 'none')) ]]]\nold\n[[[end]]]\ny\n"
        write(side, sidetext, "utf-8")
        write(path + ".side2", sidetext, "utf-8")
        quote = lambda a: a if o["plainruns"] and PLAIN.match(a) else "'" + a + "'"
        quoted = " ".join(quote(a) for a in args)
        last = side + "2"
        if o["x"]:                    # the last file is named by a list of its own
            write(lst + "2", quote(last) + "\n", "utf-8")
            last = "@" + lst + "2"
        write(lst, "# files\n%s\n\n%s %s # the file\n%s\n" % (quote(side), quote(path), quoted, quote(last)), "utf-8")
        if "'" in "".join(args):
            return "skip"
        rc, out, err = cog(["-r", "@" + lst])
        got = read(path, enc)
        res = sidetext.replace("old", "none")
        a, b = read(side, "utf-8"), read(side + "2", "utf-8")
        for f in (lst, lst + "2", side, side + "2"):
            if os.path.exists(f):
                os.unlink(f)
        check(a == res, "the file listed before became %r", a)
        if want[0] == "ok":
            check(b == res, "the file listed after %s became %r", what, b)
    if want[0] != "ok":
        check(rc == 1, "status %s for a document that must be refused (%s): %s\ngot: %s", rc, want, what, got)
        check(where(path, want[1]) in err, "the error %r does not name line %s of\n%s", err, want[1], what)
        word = "has been edited" if want[0] == "edited" else "Missing"
        check(word in err, "the error for a block that is %s reads %r", want[0], err)
        if mode in ("r", "list"):
            check(got == before, "a refused run changed the file from\n%s\nto\n%s", before, got)
        return want[0]
    check(rc == 0, "status %s, error %s for %s", rc, err, what)
    check(got == want[1], "%s\ngives\n%s\nbut should give\n%s", what, got, want[1])
    if mode in ("r", "list"):
        changed = before != want[1]
        line = [l for l in out.split("\n") if "Cogging %s" % path in l and "side" not in l and "list" not in l]
        shown = o["verb"] >= (1 if changed else 2)
        if mode == "list":
            shown = bool(line)
        check(bool(line) == shown, "at verbosity %d a %schanged file prints %r", o["verb"], "" if changed else "un", out)
        if line:
            check(("(changed)" in line[0]) == changed, "changed is %s but the listing says %r", changed, line[0])
    return "ok"


def encodable(d, enc):
    try:
        d.text().encode(enc)
        return True
    except UnicodeEncodeError:
        return False


def nblocks(d):
    return len([p for p in d.pieces if p["t"] == "block"])


RUNS = st.lists(options(), min_size=1, max_size=4)


@test("C24", "runs", st.fixed_dictionaries({"doc": doc(), "runs": RUNS}), 5)
@tolerant
def t_runs(c, rec):
    """a history of runs with different options: every run matches the model, so text outside is kept byte for byte"""
    d = Doc(c["doc"])
    path = os.path.join(ROOT, "f.txt")
    oks = 0
    labels = set()
    for o in c["runs"]:
        if not encodable(d, o["enc"]):
            o = dict(o, enc="utf-8")
        r = one_run(d, o, path)
        oks += r == "ok"
        labels.add(r)
        labels.add(o["mode"])
        for f in "cxzds":
            if o[f] and r == "ok":
                labels.add("-" + f)
        if r != "ok":
            # drop the checksums and go on
            for p in d.pieces:
                if p["t"] == "block":
                    p["sum"] = None
    rec(oks and nblocks(d), *sorted(labels))


@test("C24", "repeat", st.fixed_dictionaries({"doc": doc(), "o": options()}), 3)
@tolerant
def t_repeat(c, rec):
    """running again changes nothing, and taking the output out and running again restores it"""
    d = Doc(c["doc"])
    for p in d.pieces:
        if p["t"] == "block":
            p["sem"] = [s for s in p["sem"]]
    o = dict(c["o"], d=False, x=False, z=True, enc="utf-8", mode="r")
    if any(s[0] in ("prev", "line") for p in d.pieces if p["t"] == "block" for s in p["sem"]):
        return rec(False)
    path = os.path.join(ROOT, "f.txt")
    for p in d.pieces:
        if p["t"] == "block":
            p["sum"] = None
    before = d.text()
    write(path, before, "utf-8")
    args = argv(o, d.m, "r")
    rc, out, err = cog(args + ["-r", path])
    check(rc == 0, "status %s: %s", rc, err)
    first = read(path, "utf-8")
    rc, out, err = cog(args + ["-r", path])
    check(rc == 0, "second run, status %s: %s on\n%s", rc, err, first)
    second = read(path, "utf-8")
    check(second == first, "running again with %s changes\n%s\nto\n%s", args, first, second)
    rc, out, err = cog(args + ["-x", "-r", path])
    check(rc == 0, "-x, status %s: %s on\n%s", rc, err, second)
    bare = read(path, "utf-8")
    rc, out, err = cog(args + ["-r", path])
    check(rc == 0, "after -x, status %s: %s on\n%s", rc, err, bare)
    third = read(path, "utf-8")
    check(third == first, "-x and running again gives\n%s\ninstead of\n%s", third, first)
    rec(nblocks(d) and first != bare, "-c" if o["c"] else "plain")


SAFE = re.compile(r"[A-Za-z0-9_]+$")


@test("C24", "import", st.fixed_dictionaries({"n": st.integers(1, 3), "use": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=4),
                                              "inc": st.lists(st.integers(0, 2), max_size=2, unique=True), "same": st.booleans()}), 1)
def t_import(c, rec):
    """modules beside the file and on the include path are found; globals are shared in a file and not between files"""
    base = tempfile.mkdtemp(dir=ROOT)
    try:
        uid = os.path.basename(base).replace("-", "_")
        names = []
        for i in range(3):
            os.mkdir(os.path.join(base, "d%d" % i))
            write(os.path.join(base, "d%d" % i, "mod%s_%d.py" % (uid, i)), "VAL = %d\nimport cog\ndef show():\n    cog.outl('shown %d')\n" % (i + 40, i), "utf-8")
        args = []
        for i in c["inc"]:
            args += ["-I", os.path.join(base, "d%d" % i)]
        want, files = [], []
        ok = True
        for k, (home, mod) in enumerate(c["use"]):
            path = os.path.join(base, "d%d" % home, "f%d.txt" % k)
            write(path, "[[[cog\nprint_it = 'g%d' if 'print_it' not in globals() else 'leak'\nimport mod%s_%d as q\ncog.outl(str(q.VAL))\nq.show()\n]]]\n[[[end]]]\n"
                        "[[[cog cog.outl(print_it) ]]]\n[[[end]]]\n" % (k, uid, mod), "utf-8")
            files.append(path)
            found = mod in c["inc"] or mod == home or any(m == mod for h, m in c["use"][:k] if ok)
            ok = ok and found
            want.append("[[[cog\nprint_it = 'g%d' if 'print_it' not in globals() else 'leak'\nimport mod%s_%d as q\ncog.outl(str(q.VAL))\nq.show()\n]]]\n%d\nshown %d\n"
                        "[[[end]]]\n[[[cog cog.outl(print_it) ]]]\ng%d\n[[[end]]]\n" % (k, uid, mod, mod + 40, mod, k) if ok else None)
        mods = sys.modules.copy()
        path = sys.path[:]
        keep = [read(f, "utf-8") for f in files]
        c1 = Cog()
        out, err = io.StringIO(), io.StringIO()
        c1.setOutput(stdout=out, stderr=err)
        rc = c1.main(["cog"] + args + ["-r"] + files)
        check(rc == (0 if ok else 1), "status %s, expected success %s\n%s", rc, ok, err.getvalue())
        for f, w, k in zip(files, want, keep):
            got = read(f, "utf-8")
            check(got == (w if w is not None else k), "%s became\n%s\ninstead of\n%s", f, got, w)
        check(sys.path == path, "the module search path changed to %r", sys.path)
        for m in list(sys.modules):
            if m not in mods:
                del sys.modules[m]
        rec(len(files) > 1, "found" if ok else "missing")
    finally:
        shutil.rmtree(base)


# ---------------------------------------------------------------- C25
EDITS = ["char", "dup", "drop", "add", "blank", "space", "swap", "hash", "unprotect", "text", "gen", "case", "nl"]
EDIT = st.fixed_dictionaries({"k": st.sampled_from(EDITS), "b": st.integers(0, 3), "i": st.integers(0, 40), "s": WORD})


def edit(d, e):
    """one edit by the user; returns whether it touches protected output or a checksum"""
    blocks = [p for p in d.pieces if p["t"] == "block" and not p["open"]]
    m = d.m
    k = e["k"]
    if k == "text":
        s = clean(e["s"], m) + "\n"
        texts = [i for i, p in enumerate(d.pieces) if p["t"] == "text" and p["s"].endswith("\n")]
        if texts:
            d.pieces[texts[e["i"] % len(texts)]]["s"] = s
        else:
            d.pieces.insert(0, {"t": "text", "s": s})
        return False
    if not blocks:
        return False
    b = blocks[e["b"] % len(blocks)]
    ls = b["out"].split("\n")[:-1]
    if k == "gen":
        if b["single"]:
            return False
        pre = b["begin"][1][:len(b["begin"][1]) - len(b["begin"][1].lstrip())] if len(b["begin"]) > 2 else ""
        if len(b["begin"]) == 2 and not b["pre"] and not b["head"]:
            b["begin"].insert(1, b["indent"] + "cog.outl('new')\n")
            b["sem"] = [("w", "new\n")]
        return False
    if k == "unprotect":
        b["sum"] = None
        return False
    if k == "hash":
        if b["sum"] is None:
            return False
        i = e["i"] % len(b["sum"])
        ch = "0123456789abcdef"[(int(b["sum"][i], 16) + 1 + e["b"]) % 16]
        if e["i"] > 35:
            b["sum"] = b["sum"][:i] + b["sum"][i + 1:] or "0"     # a truncated checksum
        else:
            b["sum"] = b["sum"][:i] + ch + b["sum"][i + 1:]
        return True
    i = e["i"] % (len(ls) + 1)
    if k == "add":
        ls.insert(i, clean(e["s"], m))
    elif k == "blank":
        ls.insert(i, "")
    elif ls:
        i = e["i"] % len(ls)
        if k == "dup":
            ls.insert(i, ls[i])
        elif k == "drop":
            del ls[i]
        elif k == "space":
            ls[i] += " "
        elif k == "swap" and len(ls) > 1:
            j = (i + 1) % len(ls)
            ls[i], ls[j] = ls[j], ls[i]
        elif k == "case":
            ls[i] = ls[i].swapcase()
        elif k == "nl" and ls[i].strip():
            ls[i:i + 1] = [ls[i][:len(ls[i]) // 2], ls[i][len(ls[i]) // 2:]]
        elif ls[i]:
            j = e["i"] % len(ls[i])
            ls[i] = clean(ls[i][:j] + ("Z" if ls[i][j] != "Z" else "Y") + ls[i][j + 1:], m)
    b["out"] = clean("".join(l + "\n" for l in ls), m)
    return True


@test("C25", "edits", st.fixed_dictionaries({"doc": doc(), "o": options(), "steps": st.lists(st.lists(EDIT, max_size=2), min_size=1, max_size=4)}), 5)
@tolerant
def t_edits(c, rec):
    """histories of regenerations with checksums and edits in between"""
    d = Doc(c["doc"])
    for p in d.pieces:
        if p["t"] == "block":
            p["sum"] = None
    o = dict(c["o"], c=True, d=False, x=False, z=True)
    if not encodable(d, o["enc"]):
        o["enc"] = "utf-8"
    path = os.path.join(ROOT, "f.txt")
    if one_run(d, o, path) != "ok":
        return rec(False)
    d2 = d.text()
    for p in d.pieces:
        if p["t"] == "block" and not p["open"]:
            check(p["sum"] == md5(p["out"]), "model")
    refused = accepted = 0
    for step in c["steps"]:
        saved = copy.deepcopy(d.pieces)
        for e in step:
            edit(d, e)
        if not encodable(d, o["enc"]):
            return rec(False)
        r = one_run(d, dict(o, mode="r" if o["mode"] == "stdout" else o["mode"]), path)
        if r == "edited":
            refused += 1
            d.pieces = saved          # the user takes the edits back
            r = one_run(d, o, path)
            check(r in ("ok", "skip"), "refused although the edits were taken back: %s", r)
        else:
            accepted += 1
    rec(refused and nblocks(d), *(["refused"] if refused else []), *(["accepted"] if accepted else []))


LINES = st.lists(st.sampled_from(["begin", "end", "out", "text", "code", "single", "inv", "begin", "end", "out", "sum"]), max_size=9)


@test("C25", "structure", st.fixed_dictionaries({"marks": st.integers(0, len(MARKS) - 1), "lines": LINES, "z": st.booleans(), "c": st.booleans(),
                                                 "pre": st.sampled_from(["", "  ", "// "]), "mode": st.sampled_from(["r", "o", "stdout"]), "nl": st.booleans()}), 3)
def t_structure(c, rec):
    """any sequence of marker lines: accepted exactly when well formed, otherwise refused at the right line"""
    m = MARKS[c["marks"] % len(MARKS)]
    d = {"begin": m[0], "end": m[1], "out": m[2], "text": "some text", "code": "cog.outl('hi')", "single": m[0] + " cog.outl('one') " + m[1],
         "inv": m[1] + " " + m[0], "sum": m[2] + " (checksum: %s)" % md5("")}
    state, want = "text", None
    start = 0
    res = []
    out = ""
    for i, k in enumerate(c["lines"]):
        n = i + 1
        # "code" outside a generator is text, "text" inside one is code that does nothing
        kk = "out" if k == "sum" else k
        line = c["pre"] + (d[k] if not (k == "text" and state == "code") else "pass")
        if state == "code":
            line = c["pre"] + {"text": "pass"}.get(k, d[k])
        res.append(line + "\n")
        if state == "text":
            if kk in ("begin", "single", "inv"):
                start = n
                if kk == "inv":
                    want = ("inverted", n)
                    break
                state = "code" if kk == "begin" else "output"
                cur = [] if kk == "begin" else ["one"]
                old = ""
            elif kk in ("end", "out"):
                want = ("Unexpected", n)
                break
        elif state == "code":
            if kk == "end":
                state = "output"
            elif kk in ("begin", "out"):
                want = ("Unexpected", n)
                break
            elif kk in ("single", "inv"):
                state = "unclear"          # both markers on one line inside code: left open
                break
            elif kk == "code":
                cur.append("hi")
        else:
            if kk == "out":
                if k == "sum" and c["c"] and old:
                    want = ("edited", n)
                    break
                state = "text"
            elif kk in ("begin", "end", "single", "inv"):
                want = ("Unexpected", n)
                break
            else:
                old += line + "\n"
    if state == "unclear":
        return rec(False)
    if want is None:
        if state == "code":
            want = ("never ended", start)
        elif state == "output" and not c["z"]:
            want = ("Missing", len(res))
    rest = c["lines"][len(res):]
    text = "".join(res) + "".join(d[k] + "\n" for k in rest)
    if c["nl"] and want is not None and not rest:
        text = text[:-1]
    path = os.path.join(ROOT, "s.txt")
    write(path, text, "utf-8")
    a = ["--markers=" + " ".join(m)] + (["-z"] if c["z"] else []) + (["-c"] if c["c"] else [])
    other = path + ".out"
    rc, outp, err = cog(a + {"r": ["-r"], "o": ["-o", other], "stdout": []}[c["mode"]] + [path])
    got = read(path, "utf-8")
    if c["mode"] == "o":
        os.unlink(other)
    if want is None:
        check(rc == 0, "a well formed document is refused: %s\n%s", err, text)
    else:
        check(rc == 1, "status %s for a document that is wrong at line %d (%s):\n%s\ngives\n%s", rc, want[1], want[0], text, got)
        check(want[0] in err and where(path, want[1]) in err, "the error reads %r but line %d is wrong (%s) in\n%s", err, want[1], want[0], text)
    if want is not None or c["mode"] != "r":
        check(got == text, "the file was changed from\n%s\nto\n%s", text, got)
    rec(want is not None, want[0] if want else "well formed")


@test("C25", "errors", st.fixed_dictionaries({"doc": doc(), "at": st.integers(0, 5), "how": st.sampled_from(["raise", "cog.error", "syntax", "name"]),
                                              "msg": st.sampled_from(["oops", "it went wrong", "100%"]), "c": st.booleans()}), 2)
def t_errors(c, rec):
    """a generator that fails stops the run and leaves the file as it was"""
    d = Doc(dict(c["doc"], nonl=False, openend=False))
    code = {"raise": "raise ValueError(%r)" % c["msg"], "cog.error": "cog.error(%r)" % c["msg"], "syntax": "a b c", "name": "no_such_name"}[c["how"]]
    m = d.m
    for p in d.pieces:
        if p["t"] == "block":
            p["sum"] = None
    at = c["at"] % (len(d.pieces) + 1)
    d.pieces.insert(at, {"t": "text", "s": m[0] + "\n" + code + "\n" + m[1] + "\nkeep\n" + m[2] + "\n"})
    text = d.text()
    path = os.path.join(ROOT, "e.txt")
    write(path, text, "utf-8")
    rc, out, err = cog((["-c"] if c["c"] else []) + ["--markers=" + " ".join(m), "-r", path])
    check(rc == (3 if c["how"] == "cog.error" else 1), "status %s for a failing generator: %s", rc, err)
    if c["how"] in ("raise", "cog.error"):
        check(c["msg"] in err, "the message %r is missing from %r", c["msg"], err)
    if c["how"] == "cog.error":
        check("Traceback" not in err, "cog.error prints a traceback")
    check(read(path, "utf-8") == text, "a failing generator changed the file")
    rec(nblocks(d) > 0, c["how"])


@test("C25", "usage", st.fixed_dictionaries({"bad": st.sampled_from([["-r", "-o", "OUT", "F"], ["-r", "-d", "F"], ["-D", "x", "F"], ["--markers=a b", "F"],
                                                                     ["-q", "F"], [], ["--markers=a", "F"], ["-o", "OUT", "@L"]]),
                                             "extra": st.lists(st.sampled_from(["-c", "-z", "-U", "-e"]), max_size=2)}), 1)
def t_usage(c, rec):
    """contradictory command lines are refused before anything is written"""
    path = os.path.join(ROOT, "u.txt")
    text = "[[[cog cog.outl('x') ]]]\nkeep\n[[[end]]]\n"
    write(path, text, "utf-8")
    write(path + ".l", path + "\n", "utf-8")
    out = path + ".o"
    args = c["extra"] + [{"F": path, "OUT": out, "@L": "@" + path + ".l"}.get(a, a) for a in c["bad"]]
    rc, o, err = cog(args)
    check(rc == 2, "status %s for %s (%s)", rc, args, err)
    said = [l for l in err.splitlines() if l.strip() and "for help" not in l]
    check(said, "nothing says why %s is refused: %r", args, err)
    check(read(path, "utf-8") == text, "%s changed the file", args)
    check(not os.path.exists(out), "%s wrote a file", args)
    rec(True)


# ---------------------------------------------------------------- C33: the command as a whole
FILE = st.fixed_dictionaries({"kind": st.sampled_from(["stale", "stale", "fresh", "nocog", "fail", "edited", "glyph", "blank"]), "ro": st.sampled_from([False, False, False, True]),
                              "n": st.integers(0, 3), "name": st.sampled_from(["a", "b.c", "d e", "sub/x"]), "again": st.integers(0, 5)})


def unprivileged(job):
    """job() in a process that root's exemption from file permissions does not cover; None where that is not possible"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = None
        try:
            os.close(r)
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
            if os.getuid() != 0:
                res = job()
        except BaseException as e:      # noqa
            res = ["crash", repr(e)]
        finally:
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        got = f.read()
    os.waitpid(pid, 0)
    return json.loads(got or '["crash", "no answer"]')


@test("C33", "files", st.fixed_dictionaries({"files": st.lists(FILE, min_size=1, max_size=4), "verb": st.sampled_from([None, 0, 1, 2, 3]), "e": st.booleans(),
                                             "c": st.booleans(), "z": st.booleans(), "w": st.sampled_from([None, None, "chmod u+w '%s'", "true '%s'", "echo hello; chmod u+w '%s'"]),
                                             "mode": st.sampled_from(["r", "r", "r", "stdout"]), "n": st.sampled_from([None, "utf-8", "latin-1", "ascii"]), "list": st.booleans()}), 1)
def t_files(c, rec):
    """which files a command writes, what it refuses, and what it reports"""
    base = tempfile.mkdtemp(prefix="f", dir=ROOT)
    os.chmod(ROOT, 0o711)
    os.mkdir(os.path.join(base, "sub"))
    todo, seen = [], []
    for i, f in enumerate(c["files"]):
        if seen and f["again"] == 0:
            todo.append(seen[f["n"] % len(seen)])
            continue
        path = os.path.join(base, f["name"] + str(i))
        new = "".join("%d\n" % k for k in range(f["n"]))
        if f["kind"] == "blank":
            new = "\n" * f["n"]
        old = {"blank": new + "\n", "stale": "old\n", "fresh": new, "nocog": "", "fail": "old\n", "edited": "typed in\n", "glyph": "old\n"}[f["kind"]]
        if f["kind"] == "glyph":
            f = dict(f, ro=False)
            old, new = "old\n", new + "\u20ac\n"
        code = "[[[cog\nimport cog\nfor k in range(%d): cog.outl(%s)\n%s]]]\n" % (f["n"], "''" if f["kind"] == "blank" else "str(k)", {"fail": "cog.error('bad luck')\n", "glyph": "cog.outl(chr(0x20ac))\n"}.get(f["kind"], ""))
        if f["kind"] == "nocog":
            before = after = "just text\n" * f["n"]
        else:
            ck = lambda t: " (checksum: %s)" % md5(t) if c["c"] else ""
            wrong = " (checksum: %s)" % md5("generated\n")
            before = "x\n" + code + old + "[[[end]]]" + (wrong if f["kind"] == "edited" else ck(old)) + "\ny\n"
            after = "x\n" + code + new + "[[[end]]]" + (ck(new) if f["kind"] != "edited" else wrong) + "\ny\n"
            if c["z"] and f["kind"] != "edited":        # the last block reaches to the end of the file
                before, after = "x\n" + code + old, "x\n" + code + new
        write(path, before, "utf-8")
        os.utime(path, ns=(10**18, 10**18))
        d = dict(f, path=path, before=before, after=after, now=before, stamp=10**18, mode=0o444 if f["ro"] else 0o644)
        os.chmod(path, d["mode"])
        seen.append(d)
        todo.append(d)
    for p in [base, os.path.join(base, "sub")] + [d["path"] for d in seen]:
        os.chown(p, 65534, 65534)
    # the expected course of events
    verb = 2 if c["verb"] is None else c["verb"]
    out, stop, rc = "", None, 0
    for d in todo:
        p = d["path"]
        head = "Cogging " + p if c["mode"] == "r" else ""
        if d["kind"] == "fail" or (d["kind"] == "edited" and c["c"]):
            stop, rc = d, 3 if d["kind"] == "fail" else 1
            break
        new = d["after"] if d["kind"] != "edited" else None
        if new is None:                       # without -c the checksum is only carried along
            new = d["before"].replace("typed in\n", "".join("%d\n" % k for k in range(d["n"])))
            new = new.replace(" (checksum: %s)" % md5("generated\n"), "")
        warn = "Warning: no cog code found in " + p if c["e"] and d["kind"] == "nocog" else ""
        if c["mode"] == "stdout":
            out += new + warn
            continue
        if new == d["now"]:
            out += (head if verb >= 2 else "") + warn
            continue
        if d["kind"] == "glyph" and c["n"] not in (None, "utf-8"):
            stop, rc = d, 1
            break
        if d["mode"] & 0o200 == 0 and (not c["w"] or "chmod" not in c["w"]):
            stop, rc = d, 1
            break
        out += head + "(changed)" if verb >= 1 else ""
        if d["mode"] & 0o200 == 0:
            out += "hello" if "hello" in c["w"] else ""
            d["mode"] |= 0o200
        d["now"], d["stamp"] = new, None
    args = (["--verbosity=%d" % c["verb"]] if c["verb"] is not None else []) + [k for k, on in (("-e", c["e"]), ("-c", c["c"]), ("-z", c["z"]), ("-r", c["mode"] == "r")) if on]
    args += ["-w", c["w"]] if c["w"] else []
    args += ["-n", c["n"]] if c["n"] else []
    names = [d["path"] for d in todo]
    if c["list"]:
        write(os.path.join(base, "list"), "".join('"%s"\n' % n for n in names), "utf-8")
        names = ["@" + os.path.join(base, "list")]
    got = unprivileged(lambda: cog(args + names))
    if got is None:
        return rec(False, "not tried: no unprivileged user")
    what = " ".join(args) + "  files " + ", ".join("%s (%s%s)" % (d["path"], d["kind"], ", read-only" if d["ro"] else "") for d in todo)
    check(got[0] != "crash", "%s: %s", what, got[1])
    squeeze = lambda t: re.sub(r"\s", "", t)
    check(got[0] == rc, "%s: status %s, expected %s\n%s", what, got[0], rc, got[2])
    o = squeeze(got[1])
    if stop is None:
        check(o == squeeze(out), "%s printed\n%s\nexpected (but for blanks)\n%s", what, got[1], out)
        check(got[2] == "", "%s: printed an error: %s", what, got[2])
    else:
        check(o.startswith(squeeze(out)), "%s printed\n%s\nexpected first (but for blanks)\n%s", what, got[1], out)
        rest = o[len(squeeze(out)):]
        k = [i for i, d in enumerate(todo) if d is stop][0]
        for d in todo[k + 1:]:
            if d is not stop and squeeze(d["path"]) != squeeze(stop["path"]):
                check(squeeze(d["path"]) not in rest, "%s goes on after the failure of %s:\n%s", what, stop["path"], got[1])
        say = {"fail": "bad luck", "glyph": c["n"]}.get(stop["kind"], stop["path"])
        check(say in got[2], "%s: the error %r does not say %s", what, got[2], say)
    for d in seen:
        now = read(d["path"], "utf-8")
        check(now == d["now"], "%s: %s (%s) holds\n%s\nexpected\n%s", what, d["path"], d["kind"], now, d["now"])
        s = os.stat(d["path"])
        if d["stamp"] is not None:
            check(s.st_mtime_ns == d["stamp"], "%s: %s (%s) was written although nothing changed", what, d["path"], d["kind"])
        check(s.st_mode & 0o777 == d["mode"], "%s: %s has mode %o, expected %o", what, d["path"], s.st_mode & 0o777, d["mode"])
    left = sorted(n for _, _, ns in os.walk(base) for n in ns)
    want = sorted([os.path.basename(d["path"]) for d in seen] + (["list"] if c["list"] else []))
    check(left == want, "%s leaves the files %s, expected %s", what, left, want)
    shutil.rmtree(base, ignore_errors=True)
    rec(len(todo) > 1, "refused or failed" if stop else "done")


@test("C33", "information", st.fixed_dictionaries({"ask": st.sampled_from(["-h", "-?", "-v"]), "more": st.lists(st.sampled_from(["-r", "-c", "-x", "-e", "-z", "-U"]), max_size=3),
                                                   "at": st.integers(0, 3), "file": st.booleans()}), 1)
def t_information(c, rec):
    """asking for help or the version does nothing else"""
    path = os.path.join(ROOT, "i.txt")
    text = "[[[cog\ncog.outl('x')\n]]]\nkeep\n[[[end]]]\n"
    write(path, text, "utf-8")
    args = c["more"][:]
    args.insert(min(c["at"], len(args)), c["ask"])
    if c["ask"] in ("-h", "-?") and c["file"] and c["at"] == 3:
        args = [a for a in args if a != c["ask"]] + [path, c["ask"]]
    elif c["file"]:
        args.append(path)
    rc, out, err = cog(args)
    check(rc == 0, "status %s for %s", rc, args)
    check(read(path, "utf-8") == text, "%s changed the file", args)
    if c["ask"] == "-v":
        check(re.search(r"\d+\.\d+", out) and not err, "%s printed %r, errors %r", args, out, err)
    else:
        for opt in "cdDeInorsUvwxz":
            check(re.search(r"(?m)^\s*-%s\b" % opt, out + err), "%s: the help does not mention -%s", args, opt)
    rec(len(args) > 1)


if __name__ == "__main__":
    sys.exit(main())
