"""C11 text around recognised items is conserved."""
from hx_common import *

T = "abdgkqz"
P = ".,:"


def word(ctx, n, lo=2, hi=2):
    return ctx.string(n, lo, hi, T)


def pre(ctx, n="pre", words=2):
    """words separated by symbolic punctuation and a space; last separator before the item"""
    out = word(ctx, n + "0")
    k = ctx.choice(n + "n", tuple(range(1, words + 1)))
    for i in range(1, k):
        out = out + sep(ctx, n + "s%d" % i) + word(ctx, n + "%d" % i)
    return out


def sep(ctx, n):
    """space, one or two punctuation marks and space, or brackets around"""
    k = ctx.choice(n, (0, 1, 2))
    if k == 0:
        return " "
    if k == 1:
        return ctx.char(n + "p", P) + " "
    return "(" + ctx.char(n + "p", T) + ") "


def expect(ctx, line, misc, more, kbs=None):
    r = parse(ctx, [line], kbs=kbs)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        refs = r.value[0]
        ctx.check(len(refs) == 1, "one reference")
        if len(refs) == 1:
            f = refs[0]
            for k, v in more.items():
                ctx.check(eq(f.get(k), v), "recognised item in standard form", detail=[k, f.get(k)])
            ctx.check(eq(f.get("misc"), misc), "text around the item", detail=[f.get("misc"), misc])
            ctx.check(len(f) == len(more) + 2, "no other field")


def trim(s):
    return s.lstrip("])} ,.").rstrip("[({ ,.")


J = {"journal_title": ["Phys.Rev."], "journal_reference": None, "journal_year": None}


def h_journal(ctx):
    a = pre(ctx)
    s = sep(ctx, "s")
    b = word(ctx, "post")
    g, t = ctx.choice("g", (("Phys. Rev. ", ", "), ("Phys Rev ", " "), ("Phys.Rev. ", ", "), ("PHYS., REV. ", " "),
                            ("Phys. - Rev., ", ", ")))
    v, p = ctx.string("v", 1, 2, DIGITS), ctx.string("p", 2, 2, DIGITS)
    y = "19" + ctx.string("y", 2, 2, DIGITS)
    expect(ctx, a + s + g + v + " (" + y + ") " + p + t + b, [trim(a + s), trim(b)],
           {"journal_title": ["Phys.Rev."], "journal_volume": [v], "journal_year": [y], "journal_page": [p],
            "journal_reference": ["Phys.Rev. " + v + " (" + y + ") " + p], "year": [y]})


def h_runs(ctx):
    """long runs of punctuation before an item"""
    m = ctx.char("m", "-/+")
    n = ctx.choice("n", (3, 5, 6, 7, 9, 14))
    gap = ctx.choice("gap", ("", " "))
    run = gap.join([m] * n)
    w = word(ctx, "w")
    item, more = ctx.choice("item", (("Phys. Rev. 53 (1996) 65", {
        "journal_title": ["Phys.Rev."], "journal_volume": ["53"], "journal_year": ["1996"], "journal_page": ["65"],
        "journal_reference": ["Phys.Rev. 53 (1996) 65"], "year": ["1996"]}), ("DESY-98-122", {"reportnumber": ["DESY-98-122"]}),
        ("World Scientific", {"publisher": ["World Scientific"]})))
    expect(ctx, "qk " + run + " " + w + " " + item + ", zq", ["qk " + run + " " + w, "zq"], more)


def h_report(ctx):
    a = pre(ctx)
    s = sep(ctx, "s")
    b = word(ctx, "post")
    y, n = ctx.string("y", 2, 2, DIGITS), ctx.string("n", 3, 3, DIGITS)
    g = ctx.choice("g", ("DESY-%s-%s", "DESY %s-%s", "DESY, %s - %s", "(DESY %s %s)", "[DESY-%s-%s]"))
    t = ctx.choice("t", (", ", " "))
    # one opening character before the number belongs to it
    m = trim(a + s)
    expect(ctx, a + s + g % (y, n) + t + b, [m, trim(b)], {"reportnumber": ["DESY-" + y + "-" + n]})


def h_publisher(ctx):
    a = pre(ctx)
    s = sep(ctx, "s")
    b = word(ctx, "post")
    g = ctx.choice("g", ("World Scientific", "World, Scientific", "WORLD. SCIENTIFIC", "World. - Scientific"))
    t = ctx.choice("t", (", ", " ", ". ", ": "))
    expect(ctx, a + s + g + t + b, [trim(a + s), trim(t + b)], {"publisher": ["World Scientific"]})


def h_collab(ctx):
    a = pre(ctx)
    s = sep(ctx, "s")
    b = word(ctx, "post")
    c = ctx.choice("c", ("ATLAS", "CMS"))
    t = ctx.choice("t", (", ", " ", ": "))
    expect(ctx, a + s + c + t + b, [trim(a + s), trim(t + b)], {"collaboration": [c]})


def h_journal_re(ctx):
    """journal of the regular-expression knowledge base"""
    a = pre(ctx)
    s = sep(ctx, "s")
    b = word(ctx, "post")
    v, p = ctx.string("v", 1, 2, DIGITS), ctx.string("p", 2, 2, DIGITS)
    y = "19" + ctx.string("y", 2, 2, DIGITS)
    expect(ctx, a + s + "DAN " + v + " (" + y + ") " + p + ", " + b, [trim(a + s), trim(b)],
           {"journal_title": ["Dokl."], "journal_volume": [v], "journal_year": [y], "journal_page": [p],
            "journal_reference": ["Dokl. " + v + " (" + y + ") " + p], "year": [y]},
           kbs=kbs(journals_re=("DAN---Dokl.",)))


def h_two(ctx):
    """report number and journal in one line, text before, between and after"""
    a = word(ctx, "a")
    s = sep(ctx, "s")
    m = word(ctx, "m")
    s2 = sep(ctx, "s2")
    b = word(ctx, "post")
    y, n = ctx.string("y", 2, 2, DIGITS), ctx.string("n", 3, 3, DIGITS)
    v, p = ctx.string("v", 1, 2, DIGITS), ctx.string("p", 2, 2, DIGITS)
    rep = "DESY. " + y + "-" + n
    jou = "Phys. Rev. " + v + " (1998) " + p
    exp = {"reportnumber": ["DESY-" + y + "-" + n], "journal_title": ["Phys.Rev."], "journal_volume": [v],
           "journal_year": ["1998"], "journal_page": [p], "year": ["1998"],
           "journal_reference": ["Phys.Rev. " + v + " (1998) " + p]}
    if ctx.choice("o", (True, False)):
        line = a + s + rep + ", " + m + s2 + jou + ", " + b
    else:
        line = a + s + jou + ", " + m + s2 + rep + ", " + b
    expect(ctx, line, [trim(a + s), trim(m + s2), trim(b)], exp)


def h_longer_upper(ctx):
    """characters whose upper-case form is longer"""
    c = ctx.char("c", "ßŉǰΐև")
    a = word(ctx, "a") + c
    s = ctx.choice("s", (" ", ", "))
    v, p = ctx.string("v", 1, 2, DIGITS), ctx.string("p", 2, 2, DIGITS)
    b = word(ctx, "b", 1, 2)
    expect(ctx, a + s + "Phys. Rev. " + v + " (1998) " + p + ", " + b, [a, b],
           {"journal_title": ["Phys.Rev."], "journal_volume": [v], "journal_year": ["1998"],
            "journal_page": [p], "journal_reference": ["Phys.Rev. " + v + " (1998) " + p], "year": ["1998"]})


def h_plain(ctx):
    """nothing recognised: the text is kept"""
    a = pre(ctx, "a", 3)
    e = ctx.choice("e", ("", ".", ")"))
    expect(ctx, a + e, [trim(a + e)], {})


B = "words of 2 symbolic letters, 1-2 words before, separators: space, one symbolic mark of .,: or a bracketed letter; "
HARNESSES = [
    Harness("runs", h_runs, "3-14 equal marks in a row, with spaces or not, before 3 kinds of item"),
    Harness("journal", h_journal, B + "5 spellings of the title, digits symbolic"),
    Harness("report", h_report, B + "5 spellings of the number, digits symbolic"),
    Harness("publisher", h_publisher, B + "4 spellings"),
    Harness("collab", h_collab, B + "2 collaborations"),
    Harness("journal_re", h_journal_re, B + "regular-expression journal"),
    Harness("two", h_two, B + "two items in both orders"),
    Harness("longer_upper", h_longer_upper, "one of 5 characters whose upper-case form is longer"),
    Harness("plain", h_plain, B + "no item"),
]
