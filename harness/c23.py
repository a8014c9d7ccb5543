"""C23 quoted titles, ISBNs and known books."""
from hx_common import *

BOOKS = (("Q. Qqqq", "Zzqv, qvzz: Qqv", "1999;"), ("Wk, W.", "Wkq wkq 2", "1950;"), ("Uu", "Uuq - zk", "1999;"))
B = kbs(books=BOOKS)


def ref(**kw):
    d = {"linemarker": ["1"]}
    d.update({k: v for k, v in kw.items() if v is not None})
    return d


def h_quoted(ctx):
    """any text in double quotes is the title, as written"""
    t = ctx.string("t", 1, 4, "aB:(\xe9-/3")
    t = "K" + t + "q"
    before = ctx.choice("before", ("", "kzq "))
    after = ctx.choice("after", ("", "kqk", "Phys. Lett. 5 (2000) 12"))
    line = "[1] A. Qkq, " + before + '"' + t + '"' + (", " + after if after else "")
    want = ref(author=["A. Qkq"], title=[t])
    misc = [x for x in (before.strip(), after if after == "kqk" else "") if x]
    if misc:
        want["misc"] = misc
    if after.startswith("Phys"):
        want.update(journal_title=["Phys.Lett."], journal_volume=["5"], journal_year=["2000"], journal_page=["12"],
                    journal_reference=["Phys.Lett. 5 (2000) 12"], year=["2000"])
    one(ctx, line, want, kbs=B)
    ctx.reach("quoted")


def h_words(ctx):
    """quoted titles of several words"""
    w = [ctx.string("w%d" % i, 1, 2, "aKz") for i in range(2)]
    sep = ctx.choice("sep", (" ", ", ", ": ", " - ", ". ", "; ", " (", "? "))
    t = "Q" + w[0] + sep + w[1] + (")" if sep == " (" else "")
    marks = ctx.choice("marks", (('"', '"'), ("\u201c", "\u201d")))
    one(ctx, "[1] A. Qkq, " + marks[0] + t + marks[1] + ", kqk", ref(author=["A. Qkq"], title=[t], misc=["kqk"]), kbs=B)
    ctx.reach("words")


def h_identifier(ctx):
    """an identifier inside quotes is reported and no text is lost"""
    w = ctx.char("w", LOWER)
    c = ctx.char("c", DIGITS)
    kind = ctx.choice("kind", ("hep", "arxiv", "doi", "url", "isbn", "conf"))
    text, field, val = {
        "hep": ("hep-th/990100" + c, "reportnumber", "hep-th/990100" + c),
        "arxiv": ("arXiv:0901.123" + c, "reportnumber", "arXiv:0901.123" + c),
        "doi": ("doi:10.1234/q" + c, "doi", "doi:10.1234/q" + c),
        "url": ("http://qk.org/q" + c, "url", "http://qk.org/q" + c),
        "isbn": ("ISBN 354012345" + c, "isbn", "354012345" + c),
        "conf": ("ATLAS-CONF-2010-01" + c, "reportnumber", "ATLAS-CONF-2010-01" + c),
    }[kind]
    line = '[1] A. Qkq, "Kq' + w + " " + text + ' zz" kq'
    r = parse(ctx, [line], kbs=B)
    ctx.check(r.ok, "no exception", r.exc_name)
    if not r.ok:
        return
    ctx.observe("refs", r.value[0])
    ctx.check(len(r.value[0]) == 1, "one reference")
    got = r.value[0][0]
    title = got.get("title", [""])[0]
    ctx.check(either(eq(got.get(field), [val]), eq(title, "Kq" + w + " " + text + " zz")), "identifier kept", got)
    texts = " ".join
    whole = ""
    for v in got.get("misc", []) + got.get("title", []):
        whole = whole + v + " "
    ctx.check("<cds" not in whole, "no markup", got)
    ctx.check(("Kq" + w) in whole and "zz" in whole and "kq" in whole, "no text lost", got)
    ctx.reach("identifier")


def h_book_quoted(ctx):
    """a quoted title of a known book, in any case, gives the book"""
    title = "zzqv, qvzz: qqv"
    t = ""
    for i, ch in enumerate(title):
        if ch in "zvq" and i in (0, 3, 6, 12, 14):
            ch = ctx.char("t%d" % i, ch + ch.upper())
        t = t + ch
    w = ctx.char("w", LOWER)
    before = ctx.choice("before", ("", "k"))
    year = ctx.choice("year", ("", ", 1999", " (1999)", " 1998"))
    want = ref(author=["A. Qkq"], title=["Zzqv, qvzz: Qqv"], year=["1999"])
    misc = []
    if before:
        misc.append("k" + w + "k")
        before = "k" + w + "k "
    if year == " 1998":
        misc.append("1998")
    if misc:
        want["misc"] = misc
    one(ctx, "[1] A. Qkq, " + before + '"' + t + '"' + year, want, kbs=B)
    ctx.reach("book")


def h_book_twice(ctx):
    """every citation of a known book gives the title of the knowledge base; of two quoted texts the first decides"""
    lines, wants = [], []
    for i in range(2):
        t = ctx.char("a%d" % i, "zZ") + "zqv, " + ctx.char("b%d" % i, "qQ") + "vzz: qqv"
        w = ctx.choice("w%d" % i, ("", "kq" + ctx.char("c%d" % i, LOWER)))
        lines.append("[%d] A. Qkq, " % (i + 1) + '"' + t + '"' + (', "' + w + '"' if w else "") + ", 1999")
        wants.append({"linemarker": [str(i + 1)], "author": ["A. Qkq"], "title": ["Zzqv, qvzz: Qqv"] + ([w] if w else []), "year": ["1999"]})
    r = parse(ctx, lines, kbs=B)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 2, "two references")
    if r.ok:
        for got, want in zip(r.value[0], wants):
            fields(ctx, got, want, "title of the knowledge base")
    ctx.reach("twice")


SEPS = (" ", ", ", "-", ": ", " / ", ". ", " ")


def h_book_misc(ctx):
    """the title of a known book and its year in a reference where nothing else was recognised"""
    s1, s2 = ctx.choice("s1", SEPS), ctx.choice("s2", SEPS)
    a = ctx.char("a", "zZ")
    b = ctx.char("b", "qQ")
    w, v = ctx.char("w", "abk"), ctx.char("v", "abk")
    end = ctx.choice("end", (" ", ", ", ". "))
    year = ctx.choice("year", ("1999", "1950", "1998"))
    line = "[1] kk" + w + " " + a + "zqv" + s1 + "qvzz" + s2 + b + "qv" + end + "z" + v + ", " + year
    if year == "1999":
        one(ctx, line, ref(misc=["kk" + w + " z" + v], title=["Zzqv, qvzz: Qqv"], year=["1999"]), kbs=B)
        ctx.reach("found")
    else:
        r = parse(ctx, [line], kbs=B)
        ctx.check(r.ok and len(r.value[0]) == 1 and "title" not in r.value[0][0], "other edition not taken", r.value)
        ctx.reach("not found")


def h_book_cut(ctx):
    """exactly the title is cut, whatever surrounds it"""
    pre = ctx.string("pre", 0, 2, "a\xdf\xe9.")
    post = ctx.string("post", 0, 1, "a\xdf\xe9")
    which, title, std, year = ctx.choice("which", ((0, "zzqv qvzz qqv", "Zzqv, qvzz: Qqv", "1999"), (1, "wkq-wkq 2", "Wkq wkq 2", "1950"),
                                                   (2, "uuq zk", "Uuq - zk", "1999")))
    line = "[1] kk" + pre + "k " + title + " zz" + post + " " + year
    one(ctx, line, ref(misc=["kk" + pre + "k zz" + post], title=[std], year=[year]), kbs=B)
    ctx.reach("cut")


def h_known(ctx):
    """a reference with another recognised item is left alone"""
    w = ctx.char("w", LOWER)
    kind = ctx.choice("kind", ("journal", "doi", "isbn"))
    item = {"journal": "Phys. Lett. 5 (1999) 12", "doi": "doi:10.1234/qk", "isbn": "ISBN 3540123456"}[kind]
    r = parse(ctx, ["[1] kk" + w + " zzqv qvzz qqv, 1999, " + item], kbs=B)
    ctx.check(r.ok, "no exception", r.exc_name)
    if r.ok:
        whole = ""
        for x in r.value[0]:
            ctx.check("title" not in x, "no book", x)
            for v in x.get("misc", []):
                whole = whole + v
        ctx.check("zzqv qvzz qqv" in whole, "text kept", r.value[0])
    ctx.reach("known")


def h_no_ascii(ctx):
    """books whose title has no letter or digit that can be compared are never found in the text"""
    w = ctx.char("w", LOWER)
    t = ctx.choice("t", ("\u041f\u0443\u0442\u044c", "\xe9\xe8", "\u2013", "?!"))
    one(ctx, "[1] kk" + w + " kq, 1999", ref(misc=["kk" + w + " kq"], year=["1999"]), kbs=kbs(books=(("Q", t, "1999;"),)))
    ctx.reach("none")


def h_isbn(ctx):
    """ISBNs of 10 and 13 digits, with and without hyphens, are reported as written"""
    d = [ctx.char("d%d" % i, DIGITS) for i in range(4)]
    form = ctx.choice("form", (0, 1, 2, 3, 4, 5, 6))
    isbn = (d[0] + "-" + d[1] + "40-1234" + d[2] + "-" + d[3], d[0] + d[1] + "401234" + d[2] + d[3], d[0] + d[1] + "401234" + d[2] + "X",
            "978-" + d[0] + "-" + d[1] + "40-1234" + d[2] + "-" + d[3], "978" + d[0] + d[1] + "401234" + d[2] + d[3],
            d[0] + d[1] + "401234" + d[2] + "x", "9-7-8-" + d[0] + "-" + d[1] + "-4-0-1-2-3-4-" + d[2] + "-" + d[3])[form]
    pre = ctx.choice("pre", ("ISBN ", "ISBN: ", "ISBN", "ISBN-10: " if form in (0, 1, 2, 5) else "ISBN-13: ", "ISBN-10 " if form in (0, 1, 2, 5) else "ISBN-13 ",
                             "International Standard Book Number ", "ISBN 10: " if form in (0, 1, 2, 5) else "ISBN 13 "))
    end = ctx.choice("end", ("", " kqk", ", kqk"))
    line = "[1] A. Qkq, kz " + pre + isbn + end
    misc = ["kz"] + (["kqk"] if end else [])
    one(ctx, line, ref(author=["A. Qkq"], misc=misc, isbn=[isbn]), kbs=B)
    ctx.reach("isbn")


HARNESSES = [
    Harness("quoted", h_quoted, "title of 3..6 characters of 8 kinds; 2 x 3 surroundings", reach=("quoted",)),
    Harness("words", h_words, "two words of 1..3 letters, 8 separators, 2 kinds of quotes", reach=("words",)),
    Harness("identifier", h_identifier, "6 kinds of identifier inside quotes, symbolic digit and letter", reach=("identifier",)),
    Harness("book-quoted", h_book_quoted, "case of 5 letters; text before or not; 4 years", reach=("book",)),
    Harness("book-twice", h_book_twice, "the same book quoted in two references, case of 2 letters and one more quoted word in each", reach=("twice",)),
    Harness("book-misc", h_book_misc, "7 separators at 2 places, case of 2 letters, 2 symbolic letters, 3 ends, 3 years", reach=("found", "not found")),
    Harness("book-cut", h_book_cut, "3 books, 0..2 characters before, 0..1 after of 'a', sharp s, e acute, '.'", reach=("cut",)),
    Harness("known", h_known, "3 kinds of other item", reach=("known",)),
    Harness("no-ascii", h_no_ascii, "4 titles", reach=("none",)),
    Harness("isbn", h_isbn, "7 forms with 4 symbolic digits, 7 prefixes, 3 ends", reach=("isbn",)),
]
