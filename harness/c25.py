"""C25 the year of a reference, and its removal from the text."""
from hx_common import *

KB = kbs(books=(("Q. Qqqq", "Zqv Qzk", "1998;"),))
RN = "DESY-98-"


def expect(ctx, line, expected, kbs=None):
    one(ctx, line, expected, "year and text", kbs=kbs or KB)


def is_year(n):
    """n: four symbolic digits"""
    return bool(n[:2] == "19") or bool(n[:2] == "20")


def trim(s):
    return s.lstrip("])} ,.").rstrip("[({ ,.")


def put(style, num):
    return {"bare": " %s " , "round": " (%s) ", "square": " [%s] ", "wide": " ( %s ) ", "comma": ", %s, ",
            "dash": " %s-", "tight": "(%s)", "word": "z%sz"}[style].replace("%s", num)


GONE = {"bare": " ", "round": "  ", "square": "  ", "wide": "  ", "comma": ",, ", "dash": "-", "tight": "",
        "word": "zz"}


def piece(ctx, n, num, styles):
    """text with a number in it, and the same text with the number taken out"""
    a, b = "qz" + ctx.char(n + "a", "kqz"), ctx.char(n + "b", "kqz") + "zk"
    st = ctx.choice(n + "s", styles)
    return a + put(st, num) + b, a + GONE[st] + b


def h_journal(ctx):
    """the year of the journal reference, whatever other years are in the text"""
    y = ctx.choice("c", ("19", "20")) + ctx.string("y", 2, 2, DIGITS)
    num = ctx.string("n", 4, 4, DIGITS)
    before = ctx.choice("before", (True, False))
    t, cutout = piece(ctx, "t", num, ("bare", "round", "square", "wide", "comma", "word", "dash") if before else
                      ("bare", "round", "comma", "dash"))
    v, p = ctx.string("v", 2, 2, DIGITS), ctx.string("p", 3, 3, DIGITS)
    j = "Phys. Rev. " + v + " (" + y + ") " + p
    line = t + ", " + j if before else j + ", " + t
    misc = cutout if num == y else t
    expect(ctx, line, {"misc": [misc], "journal_title": ["Phys.Rev."], "journal_volume": [v], "journal_year": [y],
                       "journal_page": [p], "journal_reference": ["Phys.Rev. " + v + " (" + y + ") " + p],
                       "year": [y]})


def h_text(ctx):
    """no journal: a four-digit number of this or the last century in the text"""
    num = ctx.string("n", 4, 4, DIGITS)
    before = ctx.choice("before", (True, False))
    t, cutout = piece(ctx, "t", num, ("bare", "round", "square", "wide", "comma", "word", "dash"))
    r = RN + ctx.string("r", 3, 3, DIGITS)
    exp = {"reportnumber": [r]}
    if is_year(num):
        exp["year"] = [num]
        exp["misc"] = [cutout]
    else:
        exp["misc"] = [t]
    expect(ctx, t + ", " + r if before else r + ", " + t, exp)


def h_two(ctx):
    """two numbers in one text, or in two: the first of the last text that has a year"""
    a, b = ctx.string("a", 4, 4, DIGITS), ctx.string("b", 4, 4, DIGITS)
    r = RN + ctx.string("r", 3, 3, DIGITS)
    same = ctx.choice("same", (True, False))
    sa = ctx.choice("sa", ("bare", "round"))
    sb = ctx.choice("sb", ("bare", "round"))

    def text(u, w, year):
        return "qz" + (GONE[sa] if u == year else put(sa, u)) + "kq" + \
            ("" if w is None else (GONE[sb] if w == year else put(sb, w)) + "zk")

    def single(st, u, year):
        return "qz" + (GONE[st] if u == year else put(st, u)) + "kz"
    if same:
        year = a if is_year(a) else b if is_year(b) else ""
        line = text(a, b, "") + ", " + r
        exp = {"misc": [text(a, b, year)], "reportnumber": [r]}
    else:
        year = b if is_year(b) else a if is_year(a) else ""
        line = single(sa, a, "") + ", " + r + ", " + single(sb, b, "")
        exp = {"misc": [single(sa, a, year), single(sb, b, year)], "reportnumber": [r]}
    if year:
        exp["year"] = [year]
    expect(ctx, line, exp)


def h_long(ctx):
    """the digits of longer (or shorter) numbers are neither a year nor touched"""
    num = ctx.string("n", 5, 9, DIGITS) if ctx.choice("long", (True, False)) else ctx.string("m", 1, 3, DIGITS)
    y = ctx.choice("y", ("", "1996"))
    st = ctx.choice("st", ("bare", "round", "comma"))
    t = "qz" + put(st, num) + "kzk"
    exp = {"misc": [t]}
    line = t
    if y:
        line = t + ", Phys. Rev. 53 (1996) 123"
        exp.update({"journal_title": ["Phys.Rev."], "journal_volume": ["53"], "journal_year": [y],
                    "journal_page": ["123"], "journal_reference": ["Phys.Rev. 53 (1996) 123"], "year": [y]})
    expect(ctx, line, exp)


def h_part(ctx):
    """the year of the journal as part of a longer number"""
    y = "19" + ctx.string("y", 2, 2, DIGITS)
    w = ctx.choice("w", ("%s1", "1%s", "12%s34", "%s%s"))
    t = "qz " + w.replace("%s", y) + " kzk"
    j = "Phys. Rev. 53 (" + y + ") 123"
    expect(ctx, t + ", " + j,
           {"misc": [t], "journal_title": ["Phys.Rev."], "journal_volume": ["53"], "journal_year": [y],
            "journal_page": ["123"], "journal_reference": ["Phys.Rev. 53 (" + y + ") 123"], "year": [y]})


def h_book(ctx):
    """a known book has the year of the book"""
    num = ctx.string("n", 4, 4, DIGITS)
    t, cutout = piece(ctx, "t", num, ("bare", "round", "comma"))
    expect(ctx, t + ', "Zqv Qzk"', {"misc": [cutout if num == "1998" else t], "title": ["Zqv Qzk"], "year": ["1998"]})


def h_several(ctx):
    """a book and one or two journals in one reference: the year of the first"""
    y = "19" + ctx.string("y", 2, 2, DIGITS)
    z = "20" + ctx.string("z", 2, 2, DIGITS)
    j = "Phys. Rev. 53 (" + y + ") 123"
    k = "Phys. Lett. 54 (" + z + ") 124"
    b = '"Zqv Qzk"'
    order = ctx.choice("order", ("bj", "jb", "jbk", "bjk"))
    parts = {"b": (b, "1998"), "j": (j, y), "k": (k, z)}
    line = ", ".join([parts[c][0] for c in order])
    r = parse(ctx, [line], kbs=KB)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) >= 1, "no exception")
    if r.ok and r.value[0]:
        ctx.check(eq(r.value[0][0].get("year"), [parts[order[0]][1]]), "the year of the first", detail=r.value[0])


def h_papers(ctx):
    """every paper of a line has its own year"""
    ys = ["19" + ctx.string("y%d" % i, 2, 2, DIGITS) for i in range(3)]
    rs = [RN + ctx.string("r%d" % i, 3, 3, DIGITS) for i in range(2)]
    where = ctx.choice("where", ("journal", "text"))
    j = "Phys. Rev. 53 (" + ys[1] + ") 123"
    jf = {"journal_title": ["Phys.Rev."], "journal_volume": ["53"], "journal_year": [ys[1]],
          "journal_page": ["123"], "journal_reference": ["Phys.Rev. 53 (" + ys[1] + ") 123"], "year": [ys[1]]}
    first = {"reportnumber": [rs[0]], "year": [ys[0]]}
    third = {"reportnumber": [rs[1]], "year": [ys[2]]}
    if where == "journal":
        line, refs = rs[0] + " (" + ys[0] + "); " + j + "; " + rs[1] + " (" + ys[2] + ")", [first, jf, third]
    else:
        line, refs = rs[0] + " (" + ys[0] + "); " + rs[1] + " (" + ys[2] + ")", [first, third]
    r = parse(ctx, [line], kbs=KB)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        got = [{k: v for k, v in x.items() if k != "raw_ref"} for x in r.value[0]]
        ctx.check(eq(got, refs), "every paper has its own year", detail=[got, refs])


HARNESSES = [
    Harness("journal", h_journal, "journal year 19xx or 20xx, a four-digit number before or after in 7 styles"),
    Harness("text", h_text, "one four-digit number in the text, 7 styles, no journal"),
    Harness("two", h_two, "two four-digit numbers in one text or in two"),
    Harness("long", h_long, "a number of 1-3 or 5-9 digits in the text, with or without a journal"),
    Harness("part", h_part, "the journal's year as part of a longer number, 4 forms"),
    Harness("book", h_book, "quoted known book and a four-digit number"),
    Harness("several", h_several, "a book and 1 or 2 journals in 4 orders"),
    Harness("papers", h_papers, "2 or 3 papers in a line, each with a year"),
]
