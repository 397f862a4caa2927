"""C26: the indentation helpers."""
from hypothesis import strategies as st
import sys
from pbt import check, fail, main, test
from scripts.cogapp.whiteutils import commonPrefix, reindentBlock, whitePrefix

WS = st.text(alphabet=" \t", max_size=5)
CORE = st.one_of(st.sampled_from(["a", "ab", "x = 1", "if a:", "/*", "//", "  ", "a b", "a  b ", "#", "é", "a\tb", "\\n", "aa", "  a"]),
                 st.text(alphabet="ab \t/#;", max_size=8))


@st.composite
def block(draw):
    common = draw(st.sampled_from(["", "", "  ", "\t", "    ", " \t", "   ", "\t\t"]))
    lines = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.integers(0, 9))
        if k == 0:
            lines.append("")
        elif k == 1:
            lines.append(draw(WS))
        elif k < 8:
            lines.append(common + draw(WS) + draw(CORE))
        else:
            lines.append(draw(WS) + draw(CORE))
    return {"lines": lines, "bytes": draw(st.booleans()), "aslist": draw(st.booleans()),
            "new": draw(st.sampled_from(["", "", "  ", "\t", "    ", " \t ", "      "])), "end": draw(st.booleans())}


def ref_prefix(lines):
    """longest whitespace string that starts every non-blank line"""
    best = None
    for l in lines:
        if l.strip() == "":
            continue
        w = l[:len(l) - len(l.lstrip())]
        if best is None:
            best = w
        while not w.startswith(best):
            best = best[:-1]
    return best or ""


def conv(c, x):
    return x.encode("utf8") if c["bytes"] else x


def back(x):
    return x.decode("utf8") if isinstance(x, bytes) else x


@test("C26", "whitePrefix", block(), 2)
def t_white(c, rec):
    got = whitePrefix([conv(c, l) for l in c["lines"]])
    want = ref_prefix(c["lines"])
    check(back(got) == want, "whitePrefix gives %r, the common prefix is %r", got, want)
    rec(len([l for l in c["lines"] if l.strip()]) > 1 and want != "", "bytes" if c["bytes"] else "str")


@test("C26", "reindent", block(), 4)
def t_reindent(c, rec):
    lines, new = c["lines"], c["new"]
    text = "\n".join(lines) + ("\n" if c["end"] else "")
    lines = text.split("\n")
    arg = [conv(c, l) for l in lines] if c["aslist"] else conv(c, text)
    if c["bytes"] and c["aslist"]:
        return rec(False)         # a list carries no sign that the result should be bytes
    keep = list(arg) if c["aslist"] else arg
    got = reindentBlock(arg, conv(c, new))
    check(arg == keep, "reindentBlock modified its argument")
    check(isinstance(got, bytes) == c["bytes"], "result has type %s", type(got))
    got = back(got)
    old = ref_prefix(lines)
    out = got.split("\n")
    check(len(out) == len(lines), "%d lines became %d: %r -> %r", len(lines), len(out), text, got)
    for a, b in zip(lines, out):
        if a.strip():
            check(b == new + a[len(old):], "line %r became %r with new indentation %r, old common indentation %r", a, b, new, old)
        else:
            check(b.strip() == "", "blank line %r became %r", a, b)
            if a == "":
                check(b == "", "empty line became %r", b)
    # again with the same indentation: nothing changes on non-blank lines; with the old one: back
    again = back(reindentBlock(conv(c, got), conv(c, new))).split("\n")
    undo = back(reindentBlock(conv(c, got), conv(c, old))).split("\n")
    for a, b, d, e in zip(lines, out, again, undo):
        if a.strip():
            check(d == b, "reindenting again changes %r to %r", b, d)
            check(e == a, "reindenting back gives %r for %r", e, a)
    rec(len([l for l in lines if l.strip()]) > 1 and (old or new), "bytes" if c["bytes"] else "str")


@test("C26", "commonPrefix", block(), 1)
def t_common(c, rec):
    lines = [conv(c, l) for l in c["lines"]]
    got = commonPrefix(lines)
    if not lines:
        check(not got, "prefix %r of nothing", got)
        return rec(False)
    for l in lines:
        check(l.startswith(got) if got else True, "%r is no prefix of %r", got, l)
    n = len(got)
    check(any(len(l) == n for l in lines) or len(set(l[n:n + 1] for l in lines)) > 1, "%r is not the longest common prefix of %r", got, lines)
    rec(n > 0 and len(lines) > 1)


if __name__ == "__main__":
    sys.exit(main())
