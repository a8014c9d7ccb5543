"""C05 where the reference section starts."""
from hx_common import *

def run(ctx, doc, want, eol=""):
    text = [l.render() + eol for l in doc]
    ctx.observe("document", text)
    r = ctx.call(ctx.get(FT), text)
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(list(r.value[0]), want), "references are the lines after the start", detail=[r.value[0], want])


def oracle(doc):
    """references of a document with stand-alone titles"""
    titles = [i for i, l in enumerate(doc) if l.title]
    start, kind = titles[0], None
    for i in titles:
        k = None
        for l in doc[i + 1:i + 6]:
            if l.key:
                k = "key"
                break
            if is_num(l, 1):
                k = "num"
                break
        if k:
            start, kind = i, k
            break
    return rebuild([l for l in doc[start + 1:] if not l.title], kind)


def filler(ctx, i):
    return Line("qk" + ctx.char("f%d" % i, "kqz") + " zq")


def h_titles(ctx):
    """up to three titles (running heads), markers with symbolic number or keys at varying distances"""
    eol = ctx.choice("eol", ("", "\n"))
    T = lambda: Line("References", title=True)  # noqa: E731
    key = ctx.choice("key", (False, True))

    def marked(name):
        if key:
            return Line("qk", num=ctx.string(name + "k", 1, 2, "aBZ"), key=True)
        return Line("qk", num=ctx.char(name + "d", "0129"))
    doc = [Line("qkk zz")] * ctx.choice("before", (0, 2))
    if ctx.choice("decoy", (False, True)):
        doc = doc + [marked("z"), Line("qq kk")]
    doc = doc + [T()]
    gap = ctx.choice("gap", (None, 0, 1, 4, 5))
    if gap is not None:
        mid = [Line("zqq")] * gap
        if gap >= 1 and ctx.choice("mid", (False, True)):
            mid[ctx.choice("midpos", (0, gap - 1))] = marked("m")
        doc = doc + mid + [T()]
    d = ctx.choice("dist", (0, 2, 4, 5))
    doc = doc + [Line("kqz")] * d + [marked("a"), Line("zzq"), marked("b")]
    run(ctx, doc, oracle(doc), eol)


def h_three(ctx):
    """three titles; which of them is followed by a first marker is symbolic"""
    doc = [filler(ctx, 0)]
    for i in range(3):
        doc.append(Line("References", title=True))
        doc += [Line("zqq")] * ctx.choice("g%d" % i, (0, 2, 4, 5))
        doc.append(Line("kq" + ctx.char("t%d" % i, "kz"), num=ctx.char("d%d" % i, "0123")))
    run(ctx, doc, oracle(doc))


TITLES = ("references", "bibliography", "bibliographie", "literaturverzeichnis", "citations", "refs", "reference",
          "R\u00c9F\u00e9rences", "r\u00e9f\u00e9rence", "r\xb4ef\xb4erences", "R\u00c9FS", "publicationsr\u00e9fs")


def h_spelling(ctx):
    """every title spelling, numbered or not, in any case, with a decoy marker before it"""
    t = ctx.choice("title", TITLES)
    style = ctx.choice("case", ("as is", "first", "spaced", "upper"))
    if style == "spaced":
        t = " ".join(t.upper())
    elif style == "upper":
        t = t.upper()
    else:
        c = ctx.char("c", t[0].lower() + t[0].upper())
        t = c + t[1:]
    pre = ctx.choice("pre", ("", "n", "n.", "n.m.", "[n]", "(", "R.", " "))
    n, m = ctx.char("n", DIGITS), ctx.char("m", DIGITS)
    pre = {"": "", "n": n + " ", "n.": n + ". ", "n.m.": n + "." + m + ". ", "[n]": "[" + n + "] ", "(": "( ",
           "R.": ctx.char("r", "AVXI") + ". ", " ": "   "}[pre]
    post = ctx.choice("post", ("", ":", ".", " section"))
    doc = [Line("qk"), Line("zz", num="1"), Line("qq"), Line(pre + t + post, title=True), Line("qkq", num="1"), Line("qkk"),
           Line("zkq", num="2")]
    run(ctx, doc, rebuild(doc[4:], "num"))


def h_same_line(ctx):
    """title on the line of the first marker; the last of several; the rest is split as usual"""
    st = ctx.choice("style", ("[]", "()", "{}", "<>"))
    sp = ctx.choice("space", ("", " ", "  "))
    name = ctx.choice("title", ("References", "REFERENCES", "Bibliography", "bibliographie"))
    pre = ctx.choice("pre", ("", " ", "n. "))
    pre = pre.replace("n", ctx.char("n", DIGITS)) if pre == "n. " else pre
    two = ctx.choice("two", ("no", "alone before", "same line before", "alone after"))
    end = ctx.choice("end", (False, True)) and not pre.strip()
    doc = [Line("qk"), Line("zz", num="1", style=st), Line("qkk")]
    if two == "alone before":
        doc += [Line(name), Line("qkz")]
    elif two == "same line before":
        doc += [Line(name + sp + Line("zzk", num="1", style=st).render()), Line("qkz")]
    first = Line("kq" + ctx.char("c", "kqz"), num="1", style=st)
    rest = [Line("zkq"), Line("qz", num=ctx.char("d", "0123"), style=st), Line("qqz"),
            Line("kqz", num=ctx.char("e", "123"), style=st), Line("zqz")]
    if two == "alone after":
        rest.insert(2, Line(name, title=True))
    if end:
        rest.insert(1, Line("Appendix A"))
    doc += [Line(pre + name + sp + first.render())] + rest
    lines = [first] + [l for l in rest if not l.title]
    if end:
        # section ends before the appendix unless the next number follows
        if not any(is_num(l, 2) for l in rest):
            lines = lines[:2]
    run(ctx, doc, rebuild(lines, "num"))


def no_title(doc):
    for style in ("[]", ".", ""):
        for i in reversed(range(len(doc))):
            if not looks(doc[i], style, 1):
                continue
            zone = doc[i + 1:i + 11]
            if len(zone) < 5 or any(looks(l, style, 2) for l in zone):
                return i, style
    return None, None


def looks(l, style, n):
    """a line numbered n in the sense of the style (a number with a dot also is a bare number)"""
    return is_num(l, n) and (l.style == style or (style == "" and l.style == "."))


def h_no_title(ctx):
    """no title: the last line numbered 1 that is followed by 2 within ten lines, or near the end"""
    st = ctx.choice("style", ("[]", ".", ""))
    pad = ctx.choice("pad", ("", "  "))
    F = Line("qkq zz")
    doc = [F] * ctx.choice("before", (0, 1))
    doc = doc + [Line("zz", num=ctx.char("a", "0123"), style=st)]
    doc = doc + [F] * ctx.choice("gap1", (0, 9, 10))
    doc = doc + [Line("zq", num=ctx.char("b", "0123"), style=st)]
    doc = doc + [F] * ctx.choice("gap2", (0, 8, 9, 10))
    doc = doc + [Line("kq", num=ctx.char("c", "123"), style=st)]
    doc = doc + [F] * ctx.choice("after", (0, 3, 4, 5))
    i, _ = no_title(doc)
    want = [] if i is None else rebuild(doc[i:], "num")
    text = [pad + l.render() for l in doc]
    ctx.observe("document", text)
    r = ctx.call(ctx.get(FT), text)
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(list(r.value[0]), want), "section without title starts at its line 1", detail=[r.value[0], want])


def h_styles(ctx):
    """no title: brackets are looked for before dots, dots before bare numbers"""
    F = Line("qkq zz")
    doc = []
    for i in range(3):
        st = ctx.choice("s%d" % i, ("[]", ".", ""))
        doc.append(Line("z" + ctx.char("t%d" % i, "kz"), num=ctx.char("d%d" % i, "123"), style=st))
        doc.extend([F] * ctx.choice("g%d" % i, (0, 5)))
    i, st = no_title(doc)
    if i is None:
        run(ctx, doc, [])
        return
    if st == "":
        # (a bare number also matches inside brackets: only the start is compared)
        text = [l.render() for l in doc]
        ctx.observe("document", text)
        r = ctx.call(ctx.get(FT), text)
        ctx.observe("result", r.value[0] if r.ok else r.exc_name)
        ctx.check(r.ok, "no exception", detail=r.exc_name)
        if r.ok:
            ctx.check(eq("".join(r.value[0]).replace(" ", ""), "".join([l.render() for l in doc[i:]]).replace(" ", "")),
                      "section without title starts at its line 1")
        return
    out, cur, n = [], [], 0
    for l in doc[i:]:
        if looks(l, st, n + 1):
            n += 1
            if cur:
                out.append(cur)
            cur = []
        cur.append(l.render())
    out.append(cur)
    run(ctx, doc, [" ".join(c) for c in out])


def h_long_numbers(ctx):
    """markers whose number has several digits are no first markers"""
    title = ctx.choice("title", (True, False))
    st = ctx.choice("style", ("[]", "."))
    F = Line("qkq zz")
    doc = [F, Line("References", title=True)] if title else [F]
    for i in range(3):
        doc.append(Line("z" + ctx.char("t%d" % i, "kz"), num=ctx.char("c%d" % i, "12") + ctx.string("d%d" % i, 0, 1, "012"),
                        style=st))
        doc.append(F)
    if title:
        run(ctx, doc, oracle(doc))
    else:
        doc += [F] * 3
        i, _ = no_title(doc)
        run(ctx, doc, [] if i is None else rebuild(doc[i:], "num"))


MARKS = ("[1]", "{1}", "<1>", "(1)", "1.", "1 ", "1]", "1}", "1)", "1>", "[ 1 ]", "[1.1]", "[ ]", "*", "[Qkz]", "[QK98]", "[Q+98a]", "[a:b-c]")


def h_marks(ctx):
    """each kind of first marker; a title without one of them is passed over for one with it"""
    m = ctx.choice("mark", MARKS)
    c = ctx.char("c", "kqz")
    n = ctx.choice("dist", (0, 3, 4, 5))
    gap = ctx.choice("gap", ("kqz", " ", "\n"))
    first = ctx.choice("first", (False, True))
    pre = ["qkk", "References", "zqk", "zqq", "qqk", "zzk", "kkz"] if first else ["qkk"]
    doc = pre + ["References"] + [gap] * n + [m + " z" + c, "zzk"]
    text = "".join([l.strip() for l in (doc[len(pre) + 1:] if n < 5 or not first else doc[2:]) if l != "References"])
    ctx.observe("document", doc)
    r = ctx.call(ctx.get(FT), list(doc))
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq("".join(r.value[0]).replace(" ", ""), text.replace(" ", "")), "section starts at the right title", detail=text)
        if n < 5:
            ctx.check(eq(r.value[0][-1].replace(" ", ""), (m + "z" + c + "zzk").replace(" ", "")),
                      "the marker starts a reference", detail=r.value[0])


def h_running(ctx):
    """the title repeated in the section, also with a page number, is no part of it; other mentions of it are"""
    t = ctx.choice("title", ("References", "REFERENCES", "Bibliography"))
    n = ctx.string("n", 1, 3, DIGITS)
    k = ctx.choice("kind", ("n t", "n. t", "(n) t", "[n] t", "t", "t  ", "qk t", "t qk", "q"))
    line = {"n t": n + " " + t, "n. t": n + ". " + t, "(n) t": "(" + n + ") " + t, "[n] t": "[" + n + "] " + t, "t": t, "t  ": t + "  ",
            "qk t": "qk " + t, "t qk": t + " qk", "q": t[:-1] + "q"}[k]
    eol = ctx.choice("eol", ("", "\n"))
    doc = ["qk", t, "[1] zz", line, "kq"]
    text = "[1] zz" + (" " + line if "q" in k else "") + " kq"
    ctx.observe("document", doc)
    r = ctx.call(ctx.get(FT), [l + eol for l in doc])
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(list(r.value[0]), [text]), "the title is no part of a reference, other text is", detail=[r.value[0], text])


def h_same_line_later(ctx):
    """a title with a marker that is not number 1, after the title with marker 1, starts no section"""
    n = ctx.string("n", 1, 2, "012")
    t = ctx.choice("title", ("References", "REFERENCES", "Bibliography"))
    sp = ctx.choice("space", ("", " "))
    c = ctx.char("c", "kqz")
    doc = ["qk", "zz", t + " [1] kq" + c, "zkq", t + sp + "[" + n + "] qqz", "qqk", "[2] zqz", "[3] zqk"]
    first = "[1] qqz" if n == "1" else "[1] kq" + c
    ctx.observe("document", doc)
    r = ctx.call(ctx.get(FT), list(doc))
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(r.value[0][0].startswith(first), "the section starts at the title with number 1", detail=[r.value[0], first])
        ctx.check(eq(r.value[0][-1], "[3] zqk"), "the last reference is the last one", detail=r.value[0])


HARNESSES = [
    Harness("same_line_later", h_same_line_later, "title with marker 1, later the title with a marker of 1-2 symbolic digits", needs=(FT,)),
    Harness("long_numbers", h_long_numbers, "three markers of 1-2 symbolic digits, with and without title", needs=(FT,)),
    Harness("marks", h_marks, "18 kinds of first marker, 0-5 lines or blank lines after the title, another title before", needs=(FT,)),
    Harness("running", h_running, "title repeated in the section in 9 forms, page number of 1-3 symbolic digits", needs=(FT,)),
    Harness("titles", h_titles, "one or two stand-alone titles, 0-2 lines before, decoy marker before, 0-5 lines between the "
            "titles and 0-5 between title and marker, markers numbered 0,1,2,9 or keyed with 1-2 letters; line ends kept or not",
            needs=(FT,)),
    Harness("three", h_three, "three titles, each followed after 0-5 lines by a marker numbered 0-3", needs=(FT,)),
    Harness("spelling", h_spelling, "12 title spellings in 4 ways of writing, 8 forms of section number with symbolic digits, 4 endings",
            needs=(FT,)),
    Harness("same_line", h_same_line, "title and first marker on one line, 4 marker styles, another title before (alone or with "
            "marker) or after, closing section, two further markers with symbolic number", needs=(FT,)),
    Harness("no_title", h_no_title, "three markers with symbolic number in one of three styles, 0-10 lines between, 0-5 after them",
            needs=(FT,)),
    Harness("styles", h_styles, "three markers of any style with symbolic number, 0 or 5 lines between", needs=(FT,)),
]
