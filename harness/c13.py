"""C13 splitting of a line into one reference per paper."""
from hx_common import *

KB = kbs()


def journal(ctx, i, title=("Phys. Rev.", "Phys.Rev.")):
    v, p = ctx.string("v%d" % i, 2, 2, DIGITS), ctx.string("p%d" % i, 3, 3, DIGITS)
    y = "19" + ctx.string("y%d" % i, 2, 2, DIGITS)
    return title[0] + " " + v + " (" + y + ") " + p, {
        "journal_title": [title[1]], "journal_volume": [v], "journal_year": [y], "journal_page": [p],
        "journal_reference": [title[1] + " " + v + " (" + y + ") " + p], "year": [y]}


def item(ctx, i, kind):
    if kind == "J":
        return journal(ctx, i)
    if kind == "X":
        n = "hep-th/990" + ctx.char("xm%d" % i, "123456789") + ctx.string("x%d" % i, 3, 3, DIGITS)
        return n, {"reportnumber": [n]}
    if kind == "R":
        n = "DESY-98-" + ctx.string("r%d" % i, 3, 3, DIGITS)
        return n, {"reportnumber": [n]}
    if kind == "U":
        n = "http://a.ch/" + ctx.string("u%d" % i, 2, 2, DIGITS)
        return n, {"url": [n]}
    if kind == "C":
        n = ctx.choice("c%d" % i, ("ATLAS", "CMS"))
        return n, {"collaboration": [n]}
    if kind == "D":
        n = "10.1103/" + ctx.string("d%d" % i, 2, 2, "abk12")
        return "doi:" + n, {"doi": ["doi:" + n]}
    if kind == "H":
        n = "hdl:" + ctx.string("h%d" % i, 2, 2, DIGITS) + "/k" + ctx.char("hh%d" % i, "kqz")
        return n, {"hdl": [n]}
    if kind == "I":
        n = "012345678" + ctx.char("n%d" % i, DIGITS)
        return "ISBN " + n, {"isbn": [n]}
    if kind == "P":
        return "World Scientific", {"publisher": ["World Scientific"]}
    n = "qz" + ctx.string("q%d" % i, 2, 2, "kqz") + " kqz"
    return '"' + n + '"', {"title": [n]}


NAMES = ("A. Bcdef", "G. Hijkl", "M. Nopqr", "S. Tuvwx")


def merge(a, b):
    for k, v in b.items():
        if k == "collaboration" and k in a and v[0] in a[k]:
            continue
        if k in a and k != "year":
            a[k] = a[k] + v
        else:
            a[k] = v


def expect_refs(ctx, line, refs, label, **kw):
    r = parse(ctx, [line], kbs=kw.get("kbs") or KB)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        got = [{k: v for k, v in x.items() if k != "raw_ref"} for x in r.value[0]]
        ctx.check(len(got) == len(refs), "number of papers", detail=[got, refs])
        ctx.check(eq(got, refs), label, detail=[got, refs])
        for x in r.value[0]:
            ctx.check(eq(x["raw_ref"], [line]), "raw line with every paper")


def sequence(ctx, kinds, n, authors):
    """n items; the rule of the property computes the expected papers"""
    line, refs, types, cur, author, last = "", [], set(), None, None, None
    borrowed = False      # current paper starts after a semicolon and has no author of its own
    for i in range(n):
        k = ctx.choice("k%d" % i, kinds)
        semi = i > 0 and ctx.choice("s%d" % i, (False, True))
        # a collaboration name directly before a semicolon is not looked for
        ctx.assume(not (semi and last == "C"))
        last = k
        new = cur is None or semi or (k in types and k not in "RC")
        if new:
            cur, types = {}, set()
            refs.append(cur)
        text, f = item(ctx, i, k)
        if line:
            line = line + ("; " if semi else ", ")
        own = new and authors and (i == 0 or ctx.choice("a%d" % i, (False, True)))
        if own:
            # an author inside a semicolon group that starts without one is taken as its author
            ctx.assume(semi or not borrowed)
        if new:
            borrowed = semi and not own
        if own:
            author = NAMES[i]
            line = line + author + ", "
        if new and author:
            cur["author"] = [author]
        line = line + text
        merge(cur, f)
        types.add(k)
    expect_refs(ctx, line, refs, "items in the paper they belong to")


def h_items2(ctx):
    sequence(ctx, ("J", "X", "R", "U", "Q", "C", "D", "H", "I", "P"), 2, False)


def h_items3(ctx):
    sequence(ctx, ("J", "X", "R", "U"), 3, False)


def h_idents3(ctx):
    sequence(ctx, ("J", "D", "H", "U"), 3, True)


def h_authors(ctx):
    sequence(ctx, ("J", "X", "R"), 3, True)


def h_authors4(ctx):
    sequence(ctx, ("J", "X"), 4, True)


def h_collab(ctx):
    sequence(ctx, ("C", "R", "J"), 3, False)


def h_text(ctx):
    """text between the papers stays with the paper it precedes; text before a semicolon with the previous one"""
    w = "qz" + ctx.char("w", "kqz")
    u = "kz" + ctx.char("u", "kqz")
    a, fa = item(ctx, 0, "J")
    b, fb = item(ctx, 1, "J")
    semi = ctx.choice("semi", (False, True))
    if semi:
        more = ctx.choice("more", ("", ";", "; kq"))       # the first of several semicolons is where the line is split
        fa["misc"] = [w]
        fb["misc"] = [u + more]
        line = a + " " + w + "; " + u + more + " " + b
    else:
        fb["misc"] = [w + ", " + u]
        line = a + ", " + w + ", " + u + " " + b
    expect_refs(ctx, line, [fa, fb], "text in the right paper")


def h_implied(ctx):
    """numeration without journal after a split"""
    s = ctx.choice("s", ("", "D"))
    t = ctx.choice("t", ("", "E"))
    auth = ctx.choice("auth", (False, True))
    refs, line = [], ""
    ser = s
    for i in range(2):
        v = ctx.string("v%d" % i, 1, 3, DIGITS) if i else ctx.string("v%d" % i, 2, 2, DIGITS)
        p = ctx.string("p%d" % i, 3, 3, DIGITS)
        y = "19" + ctx.string("y%d" % i, 2, 2, DIGITS)
        if i == 1 and t:
            ser = t
        x = (ser if i == 0 or t else "") + v
        num = ctx.choice("lay", (x + " (" + y + ") " + p, x + ", " + p + " (" + y + ")")) if i else \
            x + " (" + y + ") " + p
        line = line + ("; " if i else "") + num
        refs.append({"journal_title": ["Phys.Rev."], "journal_volume": [ser + v], "journal_year": [y],
                     "journal_page": [p], "journal_reference": ["Phys.Rev. " + ser + v + " (" + y + ") " + p],
                     "year": [y]})
        if auth:
            refs[-1]["author"] = ["A. Bcdef"]
    line = "Phys. Rev. " + line
    if auth:
        line = "A. Bcdef, " + line
    w = ctx.choice("w", ("", "qz"))
    if w:
        w = w + ctx.char("w0", "kqz")
        line = line + ", " + w
        refs[1]["misc"] = [w]
    expect_refs(ctx, line, refs, "journal and series of the previous paper")


def h_implied_none(ctx):
    """a numeration without journal is completed from the paper before it only, not from an earlier one"""
    v, p, y = ctx.string("v", 2, 3, DIGITS), ctx.string("p", 3, 3, DIGITS), "19" + ctx.string("y", 2, 2, DIGITS)
    kind = ctx.choice("kind", ("report", "text"))
    mid = "hep-th/96010" + ctx.string("n", 2, 2, DIGITS) if kind == "report" else "qz" + ctx.char("w", "kqz")
    r = parse(ctx, ["Phys. Rev. D53 (1996) 654; " + mid + "; " + v + " (" + y + ") " + p])
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        js = [j for ref in r.value[0] for j in ref.get("journal_reference", [])]
        ctx.check(eq(js, ["Phys.Rev. D53 (1996) 654"]), "no journal taken from an earlier paper", r.value[0])


def h_implied_special(ctx):
    """an implied numeration is standardised like any other of that journal"""
    v = [ctx.string("v%d" % i, 2, 2, DIGITS) for i in range(2)]
    p = [ctx.string("p%d" % i, 1, 3, DIGITS) for i in range(2)]
    y = ["20" + ctx.string("y%d" % i, 2, 2, DIGITS) for i in range(2)]
    refs = []
    for i in range(2):
        vv, pp = y[i][2:] + v[i], "0" * (3 - len(p[i])) + p[i]
        refs.append({"journal_title": ["JHEP"], "journal_volume": [vv], "journal_year": [y[i]], "journal_page": [pp],
                     "journal_reference": ["JHEP " + vv + " (" + y[i] + ") " + pp], "year": [y[i]]})
    line = "JHEP " + v[0] + " (" + y[0] + ") " + p[0] + "; " + v[1] + " (" + y[1] + ") " + p[1]
    expect_refs(ctx, line, refs, "standard volume and page of the implied paper")


def h_ibid(ctx):
    """ibid takes the journal of the previous paper, and its own series when given"""
    s = ctx.choice("s", ("", "D"))
    t = ctx.choice("t", ("", "E"))
    w = ctx.choice("w", ("ibid. ", "Ibid. ", "IBID ", "ibidem ", "Ibidem. ", "ibid "))
    sep = ctx.choice("sep", ("; ", ", "))
    v = [ctx.string("v%d" % i, 2, 2, DIGITS) for i in range(2)]
    p = [ctx.string("p%d" % i, 3, 3, DIGITS) for i in range(2)]
    y = ["19" + ctx.string("y%d" % i, 2, 2, DIGITS) for i in range(2)]
    sers = [s, t or s]
    refs = [{"journal_title": ["Phys.Rev."], "journal_volume": [sers[i] + v[i]], "journal_year": [y[i]],
             "journal_page": [p[i]], "journal_reference": ["Phys.Rev. " + sers[i] + v[i] + " (" + y[i] + ") " + p[i]],
             "year": [y[i]]} for i in range(2)]
    line = "Phys. Rev. " + s + v[0] + " (" + y[0] + ") " + p[0] + sep + w + t + v[1] + " (" + y[1] + ") " + p[1]
    expect_refs(ctx, line, refs, "ibid is the previous journal")


def h_ibid_chain(ctx):
    """ibid is the last journal cited with a numeration, not one only mentioned; its last series"""
    n = ctx.choice("n", (2, 3))
    line, refs = "", []
    title, ser = None, ""
    for i in range(n + 1):
        v, p, y = ctx.string("v%d" % i, 2, 2, DIGITS), ctx.string("p%d" % i, 3, 3, DIGITS), "19" + ctx.string("y%d" % i, 2, 2, DIGITS)
        s = ctx.choice("s%d" % i, ("", "AB"[i % 2]))
        if i == 0 or (i == 1 and ctx.choice("new", (False, True))):
            title, ser = ("Phys.Rev.", "Nucl.Phys.")[i], s
            t = ("Phys. Rev. ", "Nucl. Phys. ")[i]
        else:
            t, ser = "ibid. ", s or ser
        f = {"journal_title": [title], "journal_volume": [ser + v], "journal_year": [y], "journal_page": [p],
             "journal_reference": [title + " " + ser + v + " (" + y + ") " + p], "year": [y]}
        line = line + ("; " if i else "") + t + s + v + " (" + y + ") " + p
        refs.append(f)
        if i == 0 and ctx.choice("mention", (False, True)):
            f["misc"] = ["zz in Nucl. Phys"]
            line = line + ", zz in Nucl. Phys."
    expect_refs(ctx, line, refs, "ibid is the last journal cited")


def h_ibid_none(ctx):
    """an ibid without journal before it is text"""
    v = ctx.string("v", 2, 2, DIGITS)
    pre = ctx.choice("pre", ("", "A. Smith, ", "zz in Nucl. Phys., ", "DESY-98-122, "))
    r = parse(ctx, [pre + "ibid. " + v + " (1997) 123"])
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(not any("journal_title" in f for f in r.value[0]), "no journal", detail=r.value[0])
        ctx.check(any("ibid. " + v in x for f in r.value[0] for x in f.get("misc") or []), "text kept", detail=r.value[0])


def h_author_text(ctx):
    """text before an author that two papers share belongs to the first only"""
    w = "qz" + ctx.char("w", "kqz") + ctx.choice("yr", ("", " (1787) kz"))
    a, fa = item(ctx, 0, "J")
    b, fb = item(ctx, 1, ctx.choice("k", ("J", "X")))
    sep = "; " if "reportnumber" in fb or ctx.choice("semi", (False, True)) else ", "
    fa["author"] = fb["author"] = [NAMES[0]]
    fa["misc"] = [w]
    expect_refs(ctx, w + ", " + NAMES[0] + ", " + a + sep + b, [fa, fb], "text in the first paper only")


def h_late_author(ctx):
    """an author after the last item of the line is text"""
    a, fa = item(ctx, 0, "J")
    b, fb = item(ctx, 1, "J")
    n = ctx.choice("n", (1, 2))
    first = ctx.choice("first", (True, False))
    sep = ctx.choice("sep", (", ", "; ")) if n == 2 else ""
    late = "S. Tuv" + ctx.char("l", LOWER)
    line = ("A. Bcdef, " if first else "") + a + (sep + b if n == 2 else "") + ", " + late
    refs = [fa, fb][:n]
    if first:
        for f in refs:
            f["author"] = ["A. Bcdef"]
    refs[-1]["misc"] = [late]
    expect_refs(ctx, line, refs, "author after the last item")


HARNESSES = [
    Harness("ibid_chain", h_ibid_chain, "one or two journals and one to three ibids, each with series or not, another title mentioned after the first"),
    Harness("ibid_none", h_ibid_none, "an ibid first in the line, after authors, a mentioned title or a report number"),
    Harness("late_author", h_late_author, "1-2 journals, optional author before, author at the end"),
    Harness("author_text", h_author_text, "text before a shared author"),
    Harness("items2", h_items2, "2 items of 10 kinds, comma or semicolon, all digits symbolic"),
    Harness("items3", h_items3, "3 items of 4 kinds, comma or semicolon"),
    Harness("idents3", h_idents3, "3 items among journal, DOI, handle, URL, with authors"),
    Harness("authors", h_authors, "3 items of 3 kinds, author before the first and optionally before each new paper"),
    Harness("collab", h_collab, "3 items among collaboration, report number, journal"),
    Harness("text", h_text, "text between two journals"),
    Harness("implied", h_implied, "numeration after semicolon, series given or not, volume 1-3 digits"),
    Harness("implied_none", h_implied_none, "journal; report number or text; numeration with 2-3, 2 and 3 symbolic digits"),
    Harness("implied_special", h_implied_special, "JHEP, volume 2, page 1-3 digits"),
    Harness("ibid", h_ibid, "ibid in 6 spellings"),
    Harness("authors4", h_authors4, "4 items of 2 kinds with authors"),
]
