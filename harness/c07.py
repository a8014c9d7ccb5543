"""C07 rebuilding reference lines."""
from hx_common import *

W = "kqz"


def joined(lines):
    """line breaks become one space, a hyphen at the end of a line goes with its break"""
    acc = ""
    for t in lines[:25]:
        t = t.strip()
        if acc == "":
            acc = t
        elif acc[-1] == "-":
            acc = acc[:-1] + t
        elif acc[-1] == " ":
            acc = acc + t
        else:
            acc = acc + " " + t
    return acc.rstrip()


def expect(ctx, lines, groups, label, head=("qk", "References"), eol=""):
    lines = [l + eol for l in lines]
    head = [l + eol for l in head]
    want = [joined(g) for g in groups]
    want = [w for w in want if w]
    ctx.observe("lines", lines if len(lines) < 20 else len(lines))
    r = ctx.call(ctx.get(FT), list(head) + list(lines))
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(list(r.value[0]), want), label, detail=[r.value[0], want])


STYLES = {"[]": "[%s]", "{}": "{%s}", "<>": "<%s>", "()": "(%s)", ".": "%s.", "]": "%s]", "}": "%s}", ")": "%s)", ">": "%s>"}


def numbered(ctx, shapes, n, st, digits="0123"):
    """n lines after the first marker; splits where the next number is the first marker of a line"""
    def mk(d):
        return STYLES[st].replace("%s", d)
    lines, groups, cur = [mk("1") + " zq" + ctx.char("e0", "k-")], [], 1
    groups.append([lines[0]])
    for i in range(n):
        s = ctx.choice("s%d" % i, shapes)
        t = "q" + ctx.char("t%d" % i, W)
        end = ctx.char("e%d" % (i + 1), "k-") if s in ("text", "indent") else ""
        d = ctx.char("d%d" % i, digits) if s in ("mark", "mid", "two", "spaced") else None
        before, after = None, None
        if s == "text":
            line = t + end
        elif s == "indent":
            line = "   " + t + " " + end
        elif s == "blank":
            line = "  "
        elif s == "empty":
            line = ""
        elif s == "mark":
            line = mk(d) + " " + t
            before, after = "", line
        elif s == "spaced":
            line = "  " + mk(" " + d + " ") + t
            before, after = "", line
        elif s == "mid":
            before, after = t + " ", mk(d) + " kz"
            line = before + after
        else:
            before, after = t + " ", mk(d) + " " + mk("2") + " kz"
            line = before + after
        lines.append(line)
        if d is not None and eq(d, str(cur + 1)):
            cur = cur + 1
            if before:
                groups[-1].append(before)
            groups.append([after])
        elif line:
            groups[-1].append(line)
    expect(ctx, lines, groups, "text kept in order, split at the next number only")


def h_numbered(ctx):
    numbered(ctx, ("text", "indent", "blank", "mark", "mid", "two", "spaced"), 3, "[]")


def h_numbered4(ctx):
    numbered(ctx, ("text", "mark", "mid", "empty"), 4, "[]")


def h_eol(ctx):
    """lines that keep their line end"""
    lines, groups, cur = ["[1] zq" + ctx.char("e", "k-")], [], 1
    groups.append([lines[0]])
    for i in range(2):
        s = ctx.choice("s%d" % i, ("text", "mark", "mid", "blank"))
        d = ctx.char("d%d" % i, "0123")
        e = ctx.char("e%d" % i, "k-")
        pre = "" if s == "mark" else "q" + ctx.char("t%d" % i, W)
        if s == "blank":
            lines.append("")
            groups[-1].append("")
            continue
        if s == "text":
            lines.append(pre + e)
            groups[-1].append(lines[-1])
            continue
        rest = "[" + d + "] z" + e
        lines.append((pre + " " if pre else "") + rest)
        if eq(d, str(cur + 1)):
            cur = cur + 1
            if pre:
                groups[-1].append(pre + " ")
            groups.append([rest])
        else:
            groups[-1].append(lines[-1])
    expect(ctx, lines, groups, "text kept in order, split at the next number only", eol="\n")


def h_styles(ctx):
    """every marker style"""
    st = ctx.choice("style", tuple(STYLES))
    numbered(ctx, ("text", "mark", "mid"), 2, st)


def h_big(ctx):
    """numbers of several digits"""
    lines, groups = [], []
    for i in range(1, 12):
        lines.append("[%d] zk" % i)
        groups.append([lines[-1]])
    for i in range(2):
        d = ctx.string("d%d" % i, 1, 3, "0123")
        line = "[" + d + "] q" + ctx.char("t%d" % i, W)
        lines.append(line)
        if int(d) == len(groups) + 1:
            groups.append([line])
        else:
            groups[-1].append(line)
    expect(ctx, lines, groups, "numbers of several digits")


def h_other(ctx):
    """markers without number: each one that is the first of its line starts a reference"""
    st = ctx.choice("style", ("key", "sub", "empty", "star"))
    lines, groups = [], []

    def mk(i):
        if st == "key":
            return "[" + ctx.string("k%d" % i, 1, 2, "aBZ") + ctx.choice("y%d" % i, ("", "98", "+98", " 07b")) + "]"
        if st == "sub":
            return "[" + ctx.char("k%d" % i, DIGITS) + "." + ctx.char("m%d" % i, DIGITS) + "]"
        return "[ ]" if st == "empty" else "*"
    lines.append(mk(0) + " zk")
    groups.append([lines[0]])
    for i in (1, 2):
        s = ctx.choice("s%d" % i, ("text", "mark", "mid"))
        t = "q" + ctx.char("t%d" % i, W)
        if s == "text":
            lines.append(t)
            groups[-1].append(t)
        elif s == "mark":
            lines.append(mk(i) + " " + t)
            groups.append([lines[-1]])
        else:
            m = mk(i) + " kz"
            lines.append(t + " " + m)
            groups[-1].append(t + " ")
            groups.append([m])
    expect(ctx, lines, groups, "each marker starts a reference")


def h_before(ctx):
    """text between title and first marker is a reference of its own; blank lines are none"""
    lines = []
    for i in range(3):
        lines.append(ctx.choice("l%d" % i, ("", " ", "text")))
        if lines[i] == "text":
            lines[i] = "q" + ctx.char("t%d" % i, W)
    rest = ["[1] zk", "[2] k" + ctx.char("c", W), ctx.choice("end", (" ", ""))]
    expect(ctx, lines + rest, [[l for l in lines if l], [rest[0]], rest[1:]], "text before the first marker")


def h_long(ctx):
    """of one reference at most 25 lines are kept"""
    n = ctx.choice("n", (23, 24, 25, 26, 40))
    c = ctx.char("c", W)
    hyph = ctx.choice("hyph", (False, True))
    body = ["q%d" % i + ("-" if hyph and i % 2 else "") for i in range(n)]
    body[-1] = "z" + c
    lines = ["[1] kk"] + body + ["[2] zz"] + body[:2]
    expect(ctx, lines, [["[1] kk"] + body, ["[2] zz"] + body[:2]], "at most 25 lines of a reference")


def h_indent(ctx):
    """no markers: unindented lines start a reference unless in lower case or after , & -"""
    lines, groups = ["Qk z"], [["Qk z"]]
    eol = ctx.choice("eol", ("", "\n"))
    blank = "" if eol else ctx.choice("blank", ("", " "))
    for i in range(3):
        e = ctx.char("e%d" % i, "k,&-.")
        lines[-1] = lines[-1] + e + (blank if i == 1 else "")
        groups[-1][-1] = lines[-1]
        pad = ctx.choice("p%d" % i, ("", "  "))
        c = ctx.char("c%d" % i, "Qq1(")
        line = pad + c + "z"
        cont = bool(pad) or eq(c, "q") or e in ",&-"
        lines.append(line)
        if cont:
            groups[-1].append(line)
        else:
            groups.append([line])
    expect(ctx, lines, groups, "unindented lines start references", eol=eol)


def h_blank(ctx):
    """no markers: blank lines separate references when there are more than three groups"""
    n = ctx.choice("n", (2, 3, 4, 5))
    lines, groups = [], []
    multi = False
    for i in range(n):
        m = ctx.choice("m%d" % i, (1, 2)) if i < 3 else 1
        multi = multi or m > 1
        g = []
        for j in range(m):
            g.append(("Q" if j else "Z") + ctx.char("t%d.%d" % (i, j), W))
        lines += g + [ctx.choice("b%d" % i, (" ", "   ")) if i < 2 else "\t"] * (ctx.choice("c", (1, 2)) if i == 0 else 1)
        groups.append(g)
    if not ctx.choice("tail", (False, True)):
        lines = lines[:-1]
    lines = [" "] * ctx.choice("head", (0, 1)) + lines
    if n > 3 and multi:
        expect(ctx, lines, groups, "blank lines separate the references")
    else:
        # every line starts in upper case without indentation
        expect(ctx, lines, [[x] for g in groups for x in g], "unindented lines start references")


HARNESSES = [
    Harness("numbered", h_numbered, "3 lines after [1], each text, indented, blank, with marker at start, in the middle, two "
            "markers, or spaced marker; marker digits, letters and final hyphen symbolic", needs=(FT,)),
    Harness("numbered4", h_numbered4, "4 lines of 4 shapes", needs=(FT,)),
    Harness("eol", h_eol, "2 lines after [1] with line ends kept", needs=(FT,)),
    Harness("styles", h_styles, "9 numbered marker styles, 2 lines", needs=(FT,)),
    Harness("big", h_big, "numbers of 1-3 digits after [11]", needs=(FT,)),
    Harness("other", h_other, "keys, [n.m], [ ] and * as markers", needs=(FT,)),
    Harness("before", h_before, "0-3 lines of text or blanks before the first marker", needs=(FT,)),
    Harness("long", h_long, "references of 24-41 lines", needs=(FT,)),
    Harness("indent", h_indent, "4 lines without markers, first and last character and indentation symbolic, blanks at the end of one", needs=(FT,)),
    Harness("blank", h_blank, "2-5 groups of 1-2 lines separated by blank lines, blank lines before and after them or not", needs=(FT,)),
]
