"""C10 volume / year / page slots."""
from hx_common import *


def expect(title, vol, year, page, **more):
    d = {"journal_title": [title], "journal_volume": [vol], "journal_page": [page]}
    if year:
        d["journal_year"] = [year]
        d["year"] = [year]
    d["journal_reference"] = [title + " " + vol + " (" + year + ") " + page]
    d.update(more)
    return d


def nums(ctx, maxvol=3, maxpage=4):
    v = ctx.string("v", 1, maxvol, DIGITS)
    p = ctx.string("p", 1, maxpage, DIGITS)
    c = ctx.choice("c", ("19", "20"))
    y = c + ctx.string("y", 2, 2, DIGITS)
    return v, y, p


def series(ctx, gaps=("",)):
    """no series, or one symbolic letter (V would be read as 'volume')"""
    if ctx.choice("hasseries", (False, True)):
        gap = ctx.choice("gap", gaps)
        return ctx.char("s", "ABCDEFGH" if gap else UPPER.replace("V", "")), gap
    return "", ""


TITLES = (("Phys. Rev.", "Phys.Rev."), ("Phys. Rev. Lett.", "Phys.Rev.Lett."),
          ("NUCL PHYS", "Nucl.Phys."))


def h_vol_year_page(ctx):
    v, y, p = nums(ctx)
    s, gap = series(ctx, ("", " ", "-"))
    sp = ctx.choice("sp", (" ", ", "))
    line = "Phys. Rev. " + s + gap + v + " (" + y + ")" + sp + p
    one(ctx, line, expect("Phys.Rev.", s + v, y, p))


def h_vol_page_year(ctx):
    v, y, p = nums(ctx)
    s, gap = series(ctx)
    sep = ctx.choice("sep", (", ", " ", ":", ","))
    lay = ctx.choice("lay", (" (%s)", ", %s", ",%s"))
    line = "Phys. Lett. " + s + v + sep + p + lay % y
    one(ctx, line, expect("Phys.Lett.", s + v, y, p))


def h_year_vol_page(ctx):
    v, y, p = nums(ctx)
    s, gap = series(ctx)
    lay = ctx.choice("lay", (" (%s) %s, %s", " (%s), %s, %s", "(%s) %s, %s", "(%s)%s, %s"))
    line = ctx.choice("t", ("Phys. Lett.", "Phys. Lett", "(Phys. Lett.)")) + lay % (y, s + v, p)
    one(ctx, line, expect("Phys.Lett.", s + v, y, p))


def h_range(ctx):
    v, y, p = nums(ctx, 2, 3)
    q = ctx.string("q", 1, 4, DIGITS)
    order = ctx.choice("order", ("vyp", "vpy"))
    if order == "vyp":
        line = "Phys. Lett. B " + v + " (" + y + ") " + p + "-" + q
    else:
        line = "Phys. Lett. B " + v + ", " + p + "-" + q + " (" + y + ")"
    one(ctx, line, expect("Phys.Lett.", "B" + v, y, p + "-" + q))


def h_issue(ctx):
    v, y, p = nums(ctx, 2, 3)
    i = ctx.string("i", 1, 2, DIGITS)
    lay = ctx.choice("lay", ("B%(v)s no. %(i)s (%(y)s) %(p)s", "B%(v)s, no.%(i)s, %(p)s (%(y)s)",
                             "B%(v)s(%(i)s), %(p)s (%(y)s)"))
    line = "Phys. Lett. " + lay % {"v": v, "y": y, "p": p, "i": i}
    one(ctx, line, expect("Phys.Lett.", "B" + v, y, p))


def h_after(ctx):
    """series letter after the volume number"""
    v, y, p = nums(ctx)
    gap = ctx.choice("gap", ("", " "))
    s = ctx.char("s", "ABCDEFGH")
    lay = ctx.choice("lay", (" (%(y)s) %(p)s", ", %(p)s (%(y)s)"))
    line = "Phys. Lett. " + v + gap + s + lay % {"y": y, "p": p}
    one(ctx, line, expect("Phys.Lett.", s + v, y, p))


def h_noyear(ctx):
    v = ctx.string("v", 1, 3, DIGITS)
    p = ctx.string("p", 1, 4, DIGITS)
    s, gap = series(ctx)
    sep = ctx.choice("sep", (", ", " "))
    line = "Phys. Lett. " + s + v + sep + p
    one(ctx, line, expect("Phys.Lett.", s + v, "", p))


def h_letterpage(ctx):
    v, y, p = nums(ctx)
    l = ctx.char("l", UPPER.replace("P", ""))
    lay = ctx.choice("lay", (" (%(y)s) %(p)s", ", %(p)s (%(y)s)"))
    line = "Phys. Rev. " + v + lay % {"y": y, "p": l + p}
    one(ctx, line, expect("Phys.Rev.", v, y, l + p))


def h_context(ctx):
    """the journal inside text"""
    v, y, p = nums(ctx, 2, 3)
    t, std = ctx.choice("t", TITLES)
    pre = ctx.choice("pre", ("", "see "))
    post = ctx.choice("post", (".", ", and more text", " and more text"))
    line = pre + t + " " + v + " (" + y + ") " + p + post
    more = {}
    if pre or len(post) > 1:
        more["misc"] = [x.strip(" ,.") for x in (pre, post) if x.strip(" ,.")]
    one(ctx, line, expect(std, v, y, p, **more))


def h_api(ctx):
    """extract_journal_reference returns the same slots"""
    v, y, p = nums(ctx, 2, 3)
    line = "Phys. Rev. D" + v + ", " + p + " (" + y + ")"
    r = ctx.call(ctx.get(API + ":extract_journal_reference"), line, override_kbs_files=kbs())
    ctx.observe("r", r.value if r.ok else r.exc_name)
    ctx.check(r.ok and r.value is not None, "journal found")
    if r.ok and r.value:
        el = r.value
        ctx.check(eq([el.get("type"), el.get("title"), el.get("volume"), el.get("year"), el.get("page")],
                     ["JOURNAL", "Phys.Rev.", "D" + v, y, p]), "slots", detail=el)


MONTHS = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")


def h_month(ctx):
    """month, short or long, before the year"""
    v, y, p = nums(ctx, 2, 2)
    m = ctx.choice("m", MONTHS)
    m = ctx.choice("form", (m, m[:3], m[:3] + ".", m[:3].lower()))
    sep = ctx.choice("sep", (" ", ", "))
    lay = ctx.choice("lay", ("%(v)s (%(m)s%(s)s%(y)s) %(p)s", "%(v)s, %(p)s (%(m)s%(s)s%(y)s)"))
    one(ctx, "Phys. Rev. " + lay % {"v": v, "y": y, "p": p, "m": m, "s": sep}, expect("Phys.Rev.", v, y, p))


# more ways to write the numeration; # is the series letter
LAYOUTS = ("vol. %(v)s (%(y)s) %(p)s", "Vol %(v)s (%(y)s) %(p)s", "V. %(v)s (%(y)s) %(p)s", "v%(v)s (%(y)s) %(p)s", "No. %(v)s (%(y)s) %(p)s",
           "%(v)s (%(y)s) p. %(p)s", "%(v)s (%(y)s) pp. %(p)s-%(q)s", "%(v)s (%(y)s) pp %(p)s - %(q)s", "%(v)s (%(y)s) P%(p)s",
           "%(v)s-%(y)s-%(p)s", "%(v)s - %(p)s - %(y)s", "%(v)s, %(y)s, %(p)s", "%(v)s %(y)s %(p)s", "%(v)s(%(y)s)%(p)s", "%(v)s, %(p)s(%(y)s)",
           "%(v)s:%(p)s-%(q)s,%(y)s", "#%(v)s:%(p)s,%(y)s", "# %(v)s %(y)sa %(p)s", "# %(v)s (%(y)sb) %(p)s", "%(y)s, %(v)s, %(p)s", "%(y)s %(v)s, %(p)s",
           "(%(y)s) %(v)s, %(p)s-%(q)s", "# %(v)s, no. %(i)s (%(y)s) %(p)s", "%(v)s (%(i)s) (%(y)s) %(p)s", "%(v)s (%(i)s-5) (%(y)s) %(p)s",
           "%(v)s (%(y)s) no. %(i)s, %(p)s", "%(v)s, No %(i)s, %(p)s (%(y)s)", "%(v)s No.%(i)s (%(y)s) %(p)s", "%(v)s, #, %(p)s (%(y)s)",
           "%(v)s, #, (%(y)s) %(p)s", "%(v)s # (%(y)s) %(p)s", "- #%(v)s (%(y)s), %(p)s", ": %(v)s (%(y)s), %(p)s", ", #%(v)s (%(y)s), %(p)s",
           "#%(v)s (%(y)s) %(p)s\u2013%(q)s", "#%(v)s, %(p)s-%(q)s, %(y)s",
           "# %(v)s, n\xb0 %(i)s (%(y)s) %(p)s", "%(v)s, N\xb0%(i)s, %(p)s (%(y)s)")
# ... in which case # may be any of them
LET = "ABCDEFGH"


def h_layouts(ctx):
    """further supported orders, separators and labels"""
    v, p = ctx.string("v", 1, 2, DIGITS), ctx.string("p", 1, 2, DIGITS)
    c = ctx.choice("c", ("19", "20"))
    y = c + ctx.string("y", 2, 2, DIGITS)
    q, i = ctx.string("q", 1, 2, DIGITS), ctx.char("i", "123456789")
    lay = ctx.choice("lay", LAYOUTS)
    s = ctx.char("s", LET) if "#" in lay else ""
    line = "Phys. Rev. " + lay.replace("#", s) % {"v": v, "y": y, "p": p, "q": q, "i": i}
    one(ctx, line, expect("Phys.Rev.", s + v, y, p + "-" + q if "%(q)s" in lay else p))


def h_long(ctx):
    """article numbers of five and more digits, volumes of four and five"""
    v = ctx.choice("v1", ("", "3", "31", "412")) + ctx.string("v", 2, 2, DIGITS)
    p = ctx.choice("p0", ("0", "1")) + ctx.string("p", 4, 4, DIGITS) + ctx.choice("p1", ("", "1", "1234"))
    y = ctx.choice("c", ("19", "20")) + ctx.string("y", 2, 2, DIGITS)
    s, before = ctx.choice("series", (("", True), ("D", True), ("D", False)))
    lay = ctx.choice("lay", (" (%(y)s) %(p)s", ", %(p)s (%(y)s)", ":%(p)s,%(y)s", ", %(p)s, %(y)s", ", %(p)s"))
    line = "Phys. Rev. " + (s + ctx.choice("gap", ("", " ")) + v if before and s else v + s) + lay % {"y": y, "p": p}
    one(ctx, line, expect("Phys.Rev.", s + v, y if "%(y)s" in lay else "", p))


FS = ("#%(v)s [FS %(f)s] (%(y)s) %(p)s", "# %(v)s [FS%(f)s] %(p)s (%(y)s)", "# %(v)s (FS) (%(y)s) %(p)s", "[FS%(f)s] #%(v)s (%(y)s) %(p)s",
      "[PM%(f)s] # %(v)s, %(p)s (%(y)s)", "#%(v)s, [PM%(f)s], %(p)s (%(y)s)", "#%(v)s [fs%(f)s], %(p)s (%(y)s)")


def h_fs(ctx):
    """subtitle of Nuclear Physics between the numbers"""
    v, p = ctx.string("v", 1, 3, DIGITS), ctx.string("p", 1, 3, DIGITS)
    y = ctx.choice("c", ("19", "20")) + ctx.string("y", 2, 2, DIGITS)
    f = ctx.string("f", 1, 2, DIGITS)
    s = ctx.char("s", LET)
    line = "Nucl. Phys. " + ctx.choice("lay", FS).replace("#", s) % {"v": v, "y": y, "p": p, "f": f}
    one(ctx, line, expect("Nucl.Phys.", s + v, y, p))


PAGES = ("R%s", "L%s", "%sc", "%sC", "RA%s", "L%s-L9", "P%s", "p%s", "e%s")


def h_pages(ctx):
    """pages with letters; five digits after P are a page of its own kind"""
    v, y, _ = nums(ctx, 2, 1)
    form = ctx.choice("form", PAGES)
    n = ctx.string("n", 5, 6, DIGITS) if form[0] in "Pp" else ctx.string("n", 1, 3, DIGITS)
    p = form % n
    lay = ctx.choice("lay", ("%(v)s (%(y)s) %(p)s", "%(v)s, %(p)s (%(y)s)", "(%(y)s) %(v)s, %(p)s"))
    one(ctx, "Phys. Rev. " + lay % {"v": v, "y": y, "p": p}, expect("Phys.Rev.", v, y, p))


def h_year_first(ctx):
    """year before the title"""
    v, p = ctx.string("v", 1, 3, DIGITS), ctx.string("p", 1, 4, DIGITS)
    y = ctx.choice("c", ("19", "20")) + ctx.string("y", 2, 2, DIGITS)
    s = ctx.char("s", LET)
    lay, has = ctx.choice("lay", (("%(y)s, Phys. Rev. %(v)s, %(p)s", False), ("%(y)s, Phys. Rev. %(s)s%(v)s, %(p)s", True),
                                  ("%(y)s, Phys. Rev. %(v)s, %(s)s, %(p)s", True), ("zz %(y)s, Phys. Rev. %(v)s %(p)s", False),
                                  ("zz, (%(y)s), Phys. Rev. %(s)s %(v)s, %(p)s", True)))
    if ctx.choice("range", (False, True)):
        ctx.assume(len(p) < 4)       # four digits could be a year
        p = p + "-" + ctx.string("q", 1, 3, DIGITS)
    line = lay % {"v": v, "y": y, "p": p, "s": s}
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        f = r.value[0][0]
        ctx.check(eq([f.get("journal_title"), f.get("journal_volume"), f.get("journal_year"), f.get("journal_page")],
                     [["Phys.Rev."], [(s if has else "") + v], [y], [p]]), "slots", detail=f)


B = "volume 1-3 digits, page 1-4 digits, year 19dd/20dd, all digits symbolic; "
HARNESSES = [
    Harness("vol_year_page", h_vol_year_page, B + "no series or any letter but V, glued, spaced or hyphenated"),
    Harness("vol_page_year", h_vol_page_year, B + "separators , space : and three year layouts"),
    Harness("year_vol_page", h_year_vol_page, B + "4 layouts, 3 ways to write the title"),
    Harness("range", h_range, "volume 1-2, pages 1-3 and 1-4 digits"),
    Harness("issue", h_issue, "volume 1-2, page 1-3, issue 1-2 digits"),
    Harness("series_after", h_after, B + "series after the number"),
    Harness("noyear", h_noyear, B + "no year"),
    Harness("letterpage", h_letterpage, B + "page with one symbolic leading letter"),
    Harness("context", h_context, B + "text before and after"),
    Harness("month", h_month, "12 months in 4 forms, 2 layouts, volume and page 1-2 digits"),
    Harness("layouts", h_layouts, "38 layouts, volume, page and page end 1-2 digits, issue 1 digit, series letter A-H"),
    Harness("long", h_long, "volumes of 2-5 digits with or without series, pages of 5, 6 and 9 digits, 5 layouts"),
    Harness("fs", h_fs, "7 layouts with [FS] or [PM], volume and page 1-3 digits"),
    Harness("pages", h_pages, "9 kinds of pages with letters, 3 layouts"),
    Harness("year_first", h_year_first, "5 layouts with the year before the title, page or page range"),
    Harness("api", h_api, "volume 1-2, page 1-3 digits"),
]
