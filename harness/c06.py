"""C06 where the reference section ends."""
from hx_common import *

END = "refextract.references.find:find_end_of_reference_section"


def closing(text):
    l = Line(text)
    l.closing = True
    return l


def digits(text):
    l = Line(text)
    l.digits = True
    return l


def is_digits(l):
    return getattr(l, "digits", False)


def end_of(doc, start, key=False):
    """index after the last line of the section (the rule of the property)"""
    count = 0
    for x in range(start, len(doc)):
        l = doc[x]
        if l.num is not None and not l.key:
            count = int(l.num)
        if getattr(l, "closing", False):
            go_on = False
            for m in doc[x + 1:x + 200]:
                if m.num is not None and m.text and (m.key if key else is_num(m, count + 1)):
                    go_on = True
                    break
            if not go_on:
                return x
        if is_digits(l):
            four = [d for d in doc[x:] if d.text or d.num]
            if len(four) >= 4 and all(is_digits(d) for d in four[:4]):
                return x
    return len(doc)


def run(ctx, doc, start, kind, eol=""):
    text = [l.render() + eol for l in doc]
    stop = end_of(doc, start, kind == "key")
    want = rebuild(doc[start:stop], kind)
    ctx.observe("document", text if len(text) < 40 else text[:9] + ["... %d lines" % len(text)] + text[-5:])
    r = ctx.call(ctx.get(FT), text)
    ctx.observe("result", r.value[0] if r.ok and len(text) < 40 else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(list(r.value[0]), want), "references end where the section ends", detail=[r.value[0], want])


CLOSING = ("Appendix", "Appendices", "Acknowledgements", "Acknowledgment", "Table", "Figures", "List of figures", "Annexes",
           "Discussions", "Remerciements", "Index", "Summary", "Figure 2", "Fig. 3", "Fig 4b", "Table 5", "Tab. 6", "Tab 7",
           "Conclusion", "Appendix B: Qk", "This paper has been produced using qk", "Prepared with AAS LATEX",
           "AAS LATEX macros v5", "This article was processed by the author using Springer-Verlag LATEX")

WHOLE = CLOSING[12:]


def h_titles(ctx):
    """each closing title or keyword, in any case and numbering, ends the section"""
    t = ctx.choice("title", CLOSING)
    case = ctx.choice("case", ("as is", "upper", "spaced"))
    if case == "upper":
        t = t.upper()
    elif case == "spaced" and " " not in t:
        t = " ".join(t)
    pre = "" if t in WHOLE or t.upper() in [x.upper() for x in WHOLE] else \
        ctx.choice("pre", ("", "n ", "n. ", "(n) ", "A. ", "  "))
    pre = pre.replace("n", ctx.char("n", DIGITS)) if "n" in pre else pre
    if t.upper() == "CONCLUSION" or t == "C o n c l u s i o n":
        t, pre = "Conclusion" if case == "spaced" else t, ctx.char("rom", "LVIX") + ctx.choice("dot", ("", ".")) + " "
    doc = [Line("qk"), Line("References"), Line("kk", num="1"), Line("zz"), Line("zk", num="2"),
           closing(pre + t), Line("kqz"), Line("zkq")]
    run(ctx, doc, 2, "num", ctx.choice("eol", ("", "\n")))


def h_continue(ctx):
    """a closing title inside the section: whether the next number follows is symbolic"""
    st = ctx.choice("style", ("[]", "()", "."))
    doc = [Line("qk"), Line("References"), Line("kk", num="1", style=st), Line("zz"),
           Line("zk", num=ctx.char("a", "0123"), style=st),
           closing("Figure " + ctx.char("f", DIGITS) + ": qk")] + [Line("kq")] * ctx.choice("gap", (0, 2))
    doc += [Line("qz", num=ctx.char("b", "01234"), style=st), closing("Tables")]
    doc += [Line("zq", num=ctx.char("c", "01234"), style=st), Line("qq")]
    run(ctx, doc, 2, "num")


def h_distance(ctx):
    """the next number counts up to 199 lines after the closing title"""
    gap = ctx.choice("gap", (0, 50, 197, 198, 199, 200))
    doc = [Line("qk"), Line("References"), Line("kk", num="1"), closing("Acknowledgements")] + [Line("kq")] * gap
    doc += [Line("qz", num=ctx.char("b", "123")), Line("zkz")]
    if ctx.choice("second", (False, True)):
        doc += [closing("Index"), Line("kkz", num="3")]
    text = [l.render() for l in doc]
    stop = end_of(doc, 2)
    r = ctx.call(ctx.get(FT), text)
    ctx.observe("gap", gap)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        # (a reference keeps at most 25 of its lines)
        want = [Line("kk", num="1").render()] + (["Acknowledgements"] if stop > 3 else [])
        ctx.check(r.value[0][0].startswith(" ".join(want)), "section goes on")
        if stop > 4 + gap and is_num(doc[4 + gap], 2):
            tail = ["[2] qz zkz" + (" Index" if stop > 6 + gap else "")] + (["[3] kkz"] if stop > 6 + gap else [])
            ctx.check(eq(list(r.value[0][1:]), tail), "references after the gap", detail=r.value[0][1:])
        else:
            ctx.check(len(r.value[0]) == 1, "nothing after the end", detail=r.value[0][1:])
        if stop == 3:
            ctx.check(eq(list(r.value[0]), ["[1] kk"]), "section ends before the closing title", detail=r.value[0])


def h_keys(ctx):
    """with keys instead of numbers any further key continues the section"""
    gap = ctx.choice("gap", (0, 3))
    doc = [Line("qk"), Line("References"), Line("kk", num=ctx.string("k0", 1, 2, "aBZ"), key=True), Line("zz"), closing("Appendix A")]
    doc += [Line("kq")] * gap
    more = ctx.choice("more", ("none", "key", "number"))
    if more == "key":
        doc += [Line("qz", num=ctx.string("k1", 1, 2, "aBZ"), key=True)]
    elif more == "number":
        doc += [Line("qz", num=ctx.char("d", DIGITS))]
    doc += [Line("zq")]
    run(ctx, doc, 2, "key")


def h_numbers(ctx):
    """four number-laden lines end the section, blank lines between them or not"""
    n = ctx.choice("n", (3, 4, 5))
    doc = [Line("qk"), Line("References"), Line("kk", num="1"), Line("zz", num="2")]
    tail = []
    for i in range(n):
        k = ctx.choice("k%d" % i, ("digits", "spread", "short", "letter", "blank") if i < 3 else ("digits", "letter", "blank"))
        d = ctx.string("d%d" % i, 3, 3, DIGITS)
        tail.append({"digits": digits("12345678" + d), "spread": digits("0.1 - 2.3+4 " + d + " \u00d712.5 \u22126"),
                     "short": Line("1234567" + d), "letter": Line("12345678q" + d), "blank": Line("")}[k])
    doc = doc + tail + [Line("zkq")]
    stop = end_of(doc, 2)
    eol = ctx.choice("eol", ("", "\n"))
    text = [l.render() + eol for l in doc]
    ctx.observe("document", text)
    r = ctx.call(ctx.get(FT), text)
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        want = ["[1] kk", " ".join([l.render() for l in doc[3:stop] if l.text])]
        ctx.check(eq(list(r.value[0]), want), "section ends before four number-laden lines", detail=[r.value[0], want])


def h_start(ctx):
    """an invalid start yields no section, a valid one an end within the document"""
    n = ctx.choice("n", (0, 1, 3))
    doc = ["[%d] qk" % (i + 1) for i in range(n)]
    s = ctx.choice("start", ("int", "none", "text", "float"))
    start = {"int": None, "none": None, "text": "1", "float": 1.5}[s]
    if s == "int":
        start = ctx.int("s", -2, 5)
    r = ctx.call(ctx.get(END), doc, start, None, None)
    ctx.observe("start", start)
    ctx.observe("end", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        if s != "int" or n == 0 or start < 0 or start > n:
            ctx.check(r.value is None, "no section for an invalid start", detail=r.value)
        else:
            ctx.check(r.value == n - 1, "last line", detail=r.value)


def h_one_number(ctx):
    """a line that is only the next number does not continue the section; its number with text does"""
    st = ctx.choice("style", ("[]", ".", "bare"))
    b = ctx.char("b", "23")
    if st == "bare":
        first, nxt = Line("1 kk"), ctx.choice("alone", (b, b + " qz"))
    else:
        first = Line("kk", num="1", style=st)
        nxt = Line("qz", num=b, style=st).render()
    titled = ctx.choice("titled", (True, False))
    mid = ["kqz"] if titled else []
    doc = ["qk"] + (["References"] if titled else []) + [first.render(), "zk", "Summary"] + mid + [nxt, "zq"]
    go = bool(eq(b, "2")) and nxt.endswith("z")
    text = list(doc)
    ctx.observe("document", doc)
    r = ctx.call(ctx.get(FT), text)
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    want = [first.render() + " zk" + (" Summary" + (" kqz" if titled else "") if go else "")] + ([nxt + " zq"] if go else [])
    if r.ok:
        ctx.check(eq(list(r.value[0]), want), "only a numbered text continues the section", detail=[r.value[0], want])


MORE = ("Appendix A:Qk", "Appendix: qk", "Appendix Z : Qk zk", "Appendix", "Appendices:", "Acknowledgment:", "Acknowledgments", "Tables", "Table IV.",
        "Table ii", "Figure A.", "Figure 12", "Fig. 12", "Fig. iv", "Fig.3", "Fig 3", "Tab. 12", "Tab.3", "Tab. vi", "Fig.iv", "Tab.vi", "Fig. A", "Tab. B", "Figure captions",
        "Figure1", "Table1", "figure:", "List of figures:", "Annex", "Index", "Summary of qk", "Discussion", "I. Conclusions and outlook",
        "X conclusion", "Created with AASTEX v5, LATEX", "prepared with the AAS LATEX macros v5.0")
NOT = ("Appendicitis", "zz Appendix", "qk Fig. 3", "qk Table 3", "Conclusion", "C. Conclusions", "Tableau", "Figment", "Fig. qk", "Tabula", "Sumary",
       "Indication", "Discuss", "LATEX macros", "This paper has qk", "qk This paper has been produced using qk")
NOT = tuple([x for x in NOT if x not in ("Tableau",)])


def h_more(ctx):
    """further ways to write a closing title, and lines that are none"""
    t = ctx.choice("title", MORE + NOT)
    is_end = t in MORE
    case = ctx.choice("case", ("as is", "upper", "lower"))
    t = t.upper() if case == "upper" else t.lower() if case == "lower" else t
    pad = ctx.choice("pad", ("", "  "))
    doc = [Line("qk"), Line("References"), Line("kk", num="1"), Line("zz"), Line("z" + ctx.char("c", "kqz"), num="2"),
           closing(pad + t) if is_end else Line(pad + t), Line("kqz"), Line("zkq")]
    text = [l.render() for l in doc]
    ctx.observe("document", text)
    r = ctx.call(ctx.get(FT), list(text))
    ctx.observe("result", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    want = [" ".join(text[2:4]), " ".join([x.strip() for x in (text[4:5] if is_end else text[4:])])]
    if r.ok:
        ctx.check(eq(list(r.value[0]), want), "section ends at a closing title and only there", detail=[r.value[0], want])


def h_long_numbers(ctx):
    """the next number, of several digits, continues the section"""
    n = ctx.choice("n", (8, 9, 10, 19, 99))
    st = ctx.choice("style", ("[]", "."))
    doc = [Line("qk"), Line("References")] + [Line("kk", num=str(i + 1), style=st) for i in range(n)]
    doc.append(closing("Table " + ctx.char("t", "123")))
    doc.append(Line("zq", num=ctx.char("f", "129") + ctx.string("m", 0, 2, "01"), style=st))
    doc.append(Line("qqz"))
    run(ctx, doc, 2, "num")


HARNESSES = [
    Harness("more", h_more, "32 closing titles and 15 lines that are none, 3 cases, indented or not", needs=(FT,)),
    Harness("long_numbers", h_long_numbers, "8-99 references before the closing title, next marker of 1-3 symbolic digits", needs=(FT,)),
    Harness("titles", h_titles, "24 closing titles and keywords, 3 ways of writing, 6 forms of section number", needs=(FT,)),
    Harness("continue", h_continue, "two closing titles, three markers with symbolic number 0-4, 3 marker styles, 0 or 2 lines between",
            needs=(FT,)),
    Harness("distance", h_distance, "0-200 lines between closing title and the next marker, number symbolic", needs=(FT,)),
    Harness("keys", h_keys, "keys of 1-2 letters", needs=(FT,)),
    Harness("numbers", h_numbers, "3-5 lines, each number-laden, too short, with a letter, or blank; digits symbolic", needs=(FT,)),
    Harness("start", h_start, "documents of 0, 1, 3 lines, start -2..5 symbolic or no integer", needs=(END,)),
    Harness("one_number", h_one_number, "next number alone on its line or with text, 3 styles, section with or without a title", needs=(FT,)),
]
