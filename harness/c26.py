"""C26 references from a string: completeness, and agreement with files."""
from hx_common import *

STR = API + ":extract_references_from_string"
FILE = API + ":extract_references_from_file"
W = "kqz"


def joined(lines):
    acc = ""
    for t in lines:
        t = t.strip()
        if acc == "":
            acc = t
        elif acc[-1] == "-":
            acc = acc[:-1] + t
        else:
            acc = acc + " " + t
    return acc.rstrip()


def source(lines):
    s = lines[0]
    for l in lines[1:]:
        s = s + "\n" + l
    return s


def raws(refs):
    out = []
    for f in refs:
        out = out + [f["raw_ref"][0]] if "raw_ref" in f else out
    return out


def only(ctx, lines, groups, label, kb=None):
    src = source(lines)
    ctx.observe("source", src)
    r = ctx.call(ctx.get(STR), src, override_kbs_files=kb or kbs())
    ctx.observe("refs", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        want = [w for w in [joined(g) for g in groups] if w]
        ctx.check(eq(raws(r.value), want), label, detail=[raws(r.value), want])


STYLES = {"[]": "[%s]", "{}": "{%s}", "<>": "<%s>", "()": "(%s)", ".": "%s.", "]": "%s]", "}": "%s}", ")": "%s)"}


def marked(ctx, n, st, shapes):
    """n lines after the first marker"""
    def mk(d):
        return STYLES[st].replace("%s", d)
    lines, groups, cur = [], [], 1
    around = ctx.choice("blank", (False, True))       # blank lines before and after
    if around:
        lines = ["", "  "]
    lines.append(mk("1") + " zq" + ctx.char("e0", "k-"))
    groups.append([lines[-1]])
    for i in range(n):
        s = ctx.choice("s%d" % i, shapes)
        t = "q" + ctx.char("t%d" % i, W)
        d = ctx.char("d%d" % i, "0123")
        if s == "text":
            line = t + "-"
        elif s == "blank":
            line = ""
        elif s == "mark":
            line = mk(d) + " " + t
        else:
            line = t + " " + mk(d) + " kz"
        lines.append(line)
        if s in ("mark", "mid") and eq(d, str(cur + 1)):
            cur = cur + 1
            if s == "mid":
                groups[-1].append(t)
            groups.append([mk(d) + " " + (t if s == "mark" else "kz")])
        elif s != "blank":
            groups[-1].append(line)
    if around:
        lines.append("")
    only(ctx, lines, groups, "one reference per marker, no text lost")


def h_marked(ctx):
    marked(ctx, 3, "[]", ("text", "blank", "mark", "mid"))


def h_styles(ctx):
    marked(ctx, 2, ctx.choice("style", tuple(STYLES)), ("text", "mark", "mid"))


def h_far(ctx):
    """markers are followed however far apart or near they are, without any reference section title"""
    gap = ctx.choice("gap", (0, 3, 11))
    n = ctx.choice("n", (2, 3, 7))
    lines, groups = [], []
    for i in range(n):
        d = str(i + 1)
        if i == n - 1:
            d = ctx.string("d", 1, 1, "01234567")
        l = "[" + d + "] z" + ctx.char("t%d" % i, W)
        lines.append(l)
        if i < n - 1 or eq(d, str(n)):
            groups.append([l])
        else:
            groups[-1].append(l)
        for j in range(gap):
            lines.append("kq%d" % j)
            groups[-1].append(lines[-1])
    only(ctx, lines, groups, "one reference per marker, no text lost")


def h_chars(ctx):
    """a symbolic string: no character is lost, whatever it looks like"""
    shape = ctx.choice("shape", ("free", "lines"))
    if shape == "free":
        src = ctx.string("s", 0, 4, "Qk \n[1]")
    else:
        src = ctx.choice("a", ("", "[1] zz\n", "References\n", "Zz\n\n", "1. Zk\n")) + ctx.string("s", 2, 2, "Qk \n2.") + \
            ctx.choice("b", ("", "\nAppendix\nkk", "\n[2] zz", "\n\n\nQq"))
    ctx.observe("source", src)
    r = ctx.call(ctx.get(STR), src, override_kbs_files=kbs())
    ctx.observe("refs", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        got = [c for x in raws(r.value) for c in x if c not in " \n"]
        want = [c for c in src if c not in " \n"]
        ctx.check(eq(got, want), "no character lost", detail=[raws(r.value)])
        for x in raws(r.value):
            ctx.check(bool(len(x.strip())), "no empty reference")


def h_breaks(ctx):
    """only a line feed ends a line: a marker after another control or separator character starts nothing"""
    sep = ctx.char("sep", "\n\t \x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\rk")
    two = ctx.choice("two", ("", "\n[2] qq"))
    d = ctx.char("d", "23")
    src = "[1] zz" + sep + "[" + d + "] kk" + two
    ctx.observe("source", src)
    r = ctx.call(ctx.get(STR), src, override_kbs_files=kbs())
    ctx.observe("refs", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        first, own = "[1] zz", "[" + d + "] kk"
        if sep == "\n" and d == "2":
            want = [first, own + " [2] qq"] if two else [first, own]
        else:
            first = first + (" " if sep == "\n" else sep) + own
            want = [first, "[2] qq"] if two else [first]
        ctx.check(eq(raws(r.value), want), "references of the lines", detail=[raws(r.value), want])


def h_options(ctx):
    """the caller's knowledge bases, format, and linker are used, in both modes"""
    whole = ctx.choice("whole", (False, True))
    c = ctx.char("c", "abc")
    v = ctx.string("v", 2, 2, DIGITS)
    seen = []

    def link(el):
        seen.append(el["type"])
        return 7 if el["type"] == "JOURNAL" else None
    line = "[1] Zq" + c + "v Kkq " + v + " (1996) 65"
    src = "kq\nReferences\n" + line + "\n[2] zq\n" if whole else line + "\n[2] zq"
    ctx.observe("source", src)
    kw = {"is_only_references": False} if whole else ctx.choice("kw", ({}, {"is_only_references": True}))
    r = ctx.call(ctx.get(STR), src, override_kbs_files=kbs(journals=(("ZQ" + c.upper() + "V KKQ", "Zqv.K."),)),
                 reference_format="{volume}:{title}", linker_callback=link, **kw)
    ctx.observe("refs", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        want = [{"linemarker": ["1"], "raw_ref": [line], "journal_title": ["Zqv.K."], "journal_volume": [v],
                 "journal_year": ["1996"], "journal_page": ["65"], "journal_reference": [v + ":Zqv.K."],
                 "year": ["1996"], "recid": ["7"]},
                {"linemarker": ["2"], "raw_ref": ["[2] zq"], "misc": ["zq"]}]
        ctx.check(eq(r.value, want), "options of the caller in force", detail=[r.value, want])
        ctx.check("JOURNAL" in seen, "linker called")


def h_agree(ctx):
    """a full text given as string yields what a file with the same content yields"""
    d = scratch(ctx)
    path = d + "/doc.txt"
    lines = []
    for i in range(4):
        k = ctx.choice("k%d" % i, ("text", "title", "mark", "end", "blank"))
        if k == "text":
            lines.append("Z" + ctx.char("t%d" % i, W) + " kz")
        elif k == "title":
            lines.append("References")
        elif k == "mark":
            lines.append("[" + ctx.char("d%d" % i, "12") + "] Phys. Rev. 53 (1996) 6" + ctx.char("p%d" % i, DIGITS))
        elif k == "end":
            lines.append("Appendix")
        else:
            lines.append("")
    text_files(ctx, {path: [l + "\n" for l in lines]})
    a = ctx.call(ctx.get(FILE), path, override_kbs_files=kbs())
    b = ctx.call(ctx.get(STR), source(lines) + "\n", is_only_references=False, override_kbs_files=kbs())
    ctx.observe("source", source(lines))
    ctx.observe("file", a.value if a.ok else a.exc_name)
    ctx.observe("string", b.value if b.ok else b.exc_name)
    ctx.check(a.ok and b.ok, "no exception", detail=[a.exc_name, b.exc_name])
    if a.ok and b.ok:
        ctx.check(eq(a.value, b.value), "string and file agree", detail=[a.value, b.value])


HARNESSES = [
    Harness("marked", h_marked, "3 lines after [1] of 4 shapes, with or without blank lines around"),
    Harness("styles", h_styles, "8 marker styles, 2 lines"),
    Harness("far", h_far, "2-7 markers, 0-11 lines between them"),
    Harness("chars", h_chars, "0-4 characters, or 2 between fixed parts; 7 characters"),
    Harness("breaks", h_breaks, "one of 13 characters, line feed and other separators among them, before a symbolic marker"),
    Harness("options", h_options, "both modes with knowledge bases, format and linker"),
    Harness("agree", h_agree, "documents of 4 lines of 5 kinds"),
]
