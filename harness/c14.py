"""C14 standardisation of volumes, pages and report numbers."""
from hx_common import *


def jr(title, vol, year, page):
    d = {"journal_title": [title], "journal_volume": [vol], "journal_page": [page],
         "journal_reference": [title + " " + vol + " (" + year + ") " + page]}
    if year:
        d["journal_year"] = [year]
        d["year"] = [year]
    return d


def year(ctx):
    return ctx.choice("c", ("19", "20")) + ctx.string("y", 2, 2, DIGITS)


UNITS = ("", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX")


def h_roman(ctx):
    t = ctx.choice("tens", (0, 1, 2, 3))
    u = ctx.choice("units", tuple(range(10)))
    ctx.assume(t + u > 0)
    n = "X" * t + UNITS[u]
    if ctx.choice("lower", (False, True)):
        n = n.lower()
    y, p = year(ctx), ctx.string("p", 3, 3, DIGITS)
    one(ctx, "Phys. Lett. " + n + " (" + y + ") " + p, jr("Phys.Lett.", str(10 * t + u), y, p),
        "roman volume becomes the equal arabic number")


def h_roman_series(ctx):
    """the series letter before a roman volume, or of the standard title, is kept"""
    s = ctx.char("s", "ABCDEFGH")
    u = ctx.choice("units", tuple(range(1, 10)))
    n = ctx.choice("tens", ("", "XX")) + UNITS[u]
    v = str(u) if n == UNITS[u] else str(20 + u)
    y, p = year(ctx), ctx.string("p", 3, 3, DIGITS)
    if ctx.choice("kb", (False, True)):
        one(ctx, "Phys. Rev. Q " + n + " (" + y + ") " + p, jr("Phys.Rev.", s + v, y, p), "series letter and arabic number",
            kbs=kbs(journals=(("PHYS REV", "Phys.Rev."), ("PHYS REV Q", "Phys.Rev.;" + s),)))
    else:
        sep = ctx.choice("sep", (" ", "-", ":", ", "))
        one(ctx, "Phys. Lett. " + s + sep + n + " (" + y + ") " + p, jr("Phys.Lett.", s + v, y, p),
            "series letter and arabic number")


def h_label(ctx):
    """labels before the volume"""
    s = ctx.choice("s", ("", "A", "D"))
    lab = ctx.choice("lab", ("vol. ", "Vol. ", "Vol ", "V. ", "v", "No. ", "no. ", "No ", "N\xb0 ", "vol.", ": ")) if not s else \
        ctx.choice("labs", ("%s: ", "%s : ", "%s :", "%s, ", "Vol. %s", "vol. %s ", "V. %s", "No. %s"))
    v, y, p = ctx.string("v", 1, 3, DIGITS), year(ctx), ctx.string("p", 3, 3, DIGITS)
    one(ctx, "Phys. Lett. " + lab.replace("%s", s) + v + " (" + y + ") " + p, jr("Phys.Lett.", s + v, y, p), "label dropped")


def h_series_kb(ctx):
    """the standard title carries the series"""
    s = ctx.char("s", "ABCDEFGH")
    kb = kbs(journals=(("PHYS REV", "Phys.Rev."), ("PHYS REV Q", "Phys.Rev.;" + ctx.choice("gap", ("", " ")) + s),))
    v, y, p = ctx.string("v", 1, 3, DIGITS), year(ctx), ctx.string("p", 1, 4, DIGITS)
    lay = ctx.choice("lay", (" %(v)s (%(y)s) %(p)s", " %(v)s, %(p)s (%(y)s)"))
    text = "Phys. Rev. Q" + lay % {"v": v, "y": y, "p": p}
    if not ctx.choice("again", (False, True)):
        one(ctx, text, jr("Phys.Rev.", s + v, y, p), "series of the standard title moves to the volume", kbs=kb)
        return
    r = parse(ctx, [text + "; ibid. 7 (1999) 8"], kbs=kb)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 2, "two references")
    if r.ok and len(r.value[0]) == 2:
        fields(ctx, r.value[0][0], jr("Phys.Rev.", s + v, y, p), "series of the standard title moves to the volume")
        fields(ctx, r.value[0][1], jr("Phys.Rev.", s + "7", "1999", "8"), "and to that of an ibid")


def h_special(ctx):
    """JHEP-like journals"""
    t, std = ctx.choice("t", (("JHEP", "JHEP"), ("J. High Energy Phys.", "JHEP"), ("JCAP", "JCAP")))
    kb = kbs(journals=JOURNALS + (("JCAP", "JCAP"),))
    y = year(ctx)
    p = ctx.string("p", 1, 4, DIGITS)
    two = ctx.choice("vd", (1, 2, 3, 4))
    v = ctx.string("v", two, two, DIGITS)
    if two == 1:
        w = y[2:] + "0" + v
    elif two == 2:
        w = y[2:] + v
    else:
        w = v
    n = len(p)
    q = "0" * (3 - n) + p
    if n == 4:
        # leading zero of a four digit page is dropped by the number format
        if p[0] == "0":
            q = p[1:]
    lay = ctx.choice("lay", (" %(v)s (%(y)s) %(p)s", " %(v)s, %(p)s (%(y)s)"))
    one(ctx, t + lay % {"v": v, "y": y, "p": p}, jr(std, w, y, q),
        "year before the volume and three digit page", kbs=kb)


def h_special_letterpage(ctx):
    y, v = year(ctx), ctx.string("v", 2, 2, DIGITS)
    p = "A" + ctx.string("p", 1, 2, DIGITS)
    one(ctx, "JHEP " + v + " (" + y + ") " + p, jr("JHEP", y[2:] + v, y, p), "page with letter unchanged")


def h_special_noyear(ctx):
    """a year in place of the page: no journal is reported and no text is lost"""
    y, v = year(ctx), ctx.string("v", 2, 2, DIGITS)
    w = "q" + ctx.string("w", 2, 2, "kqz")
    sep = ctx.choice("sep", (", ", " "))
    line = w + sep + "JHEP " + v + ", " + y
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        f = r.value[0][0]
        ctx.check("journal_title" not in f, "year not taken as page", detail=f)
        ctx.check(eq(f.get("misc"), [w + sep + "JHEP," + v]), "text kept", detail=f)
        ctx.check(eq(f.get("year"), [y]), "year kept", detail=f)


def h_notspecial(ctx):
    """the same numbers in another journal stay as they are"""
    y, v = year(ctx), ctx.string("v", 1, 2, DIGITS)
    p = ctx.string("p", 1, 2, DIGITS)
    one(ctx, "Phys. Lett. " + v + " (" + y + ") " + p, jr("Phys.Lett.", v, y, p), "unchanged")


def h_nuclsuppl(ctx):
    f = ctx.choice("f", ("B%s", "B %s", "%s", "%sB", "A%s", "%sA", "b%s", "%sb"))
    v, y, p = ctx.string("v", 1, 3, DIGITS), year(ctx), ctx.string("p", 1, 4, DIGITS)
    w = "A" + v if "A" in f else v
    one(ctx, "Nucl. Phys. Proc. Suppl. " + f % v + " (" + y + ") " + p,
        jr("Nucl.Phys.Proc.Suppl.", w, y, p), "leading B dropped for this journal only")


def h_nucl(ctx):
    f = ctx.choice("f", ("B%s", "B %s", "%sB", "%sb", "b%s"))
    v, y, p = ctx.string("v", 1, 3, DIGITS), year(ctx), ctx.string("p", 1, 4, DIGITS)
    s = "B"
    one(ctx, "Nucl. Phys. " + f % v + " (" + y + ") " + p,
        jr("Nucl.Phys.", s + v, y, p), "B kept for other journals, letter before the number")


def h_hep(ctx):
    a = ctx.choice("a", ("astro-ph", "hep-th", "hep-ph", "hep-ex", "hep-lat", "math-ph"))
    sep = ctx.choice("sep", ("-", "/", " "))
    d = ctx.choice("yy", ("9", "0"))
    d = d + ctx.char("y1", "1234567" if d == "0" else "3456789") + "0" + ctx.char("m", "123456789") + \
        ctx.string("n", 3, 3, DIGITS)
    one(ctx, a + sep + d, {"reportnumber": [a + "/" + d]}, "slash in the preprint number")


def h_hepkb(ctx):
    """a KB series whose standard form ends up with a dash"""
    a = ctx.choice("a", ("astro-ph", "hep-th", "hep-ph", "hep-ex", "hep-lat", "math-ph", "HEP-XX"))
    kb = kbs(**{"report-numbers": ("*****LANL*****", "<s999>", "QZ---" + a)})
    n = ctx.string("n", 3, 3, DIGITS)
    sep = "-" if a == "HEP-XX" else "/"
    one(ctx, "QZ " + n, {"reportnumber": [a + sep + n]}, "slash in the preprint number", kbs=kb)


def h_dash(ctx):
    """missing hyphen before the digits"""
    name = ctx.string("nm", 2, 3, UPPER)
    kb = kbs(**{"report-numbers": ("*****X*****", "<9999s99>", "<9999s9>", "QZLHCC---Q-" + name)})
    gap = ctx.choice("gap", ("", "-"))
    kb["report-numbers"] = ("*****X*****", "<9999s99>" if not gap else "<s9999s99>", "QZLHCC---Q-" + name)
    y, n = ctx.string("y", 4, 4, DIGITS), ctx.string("n", 2, 2, DIGITS)
    one(ctx, "QZLHCC" + gap + y + "-" + n, {"reportnumber": ["Q-" + name + "-" + y + "-" + n]},
        "hyphen before the digits", kbs=kb)


B = "all digits symbolic; year 19dd/20dd; "
HARNESSES = [
    Harness("roman", h_roman, B + "roman volumes 1..39, upper or lower case"),
    Harness("roman_series", h_roman_series, B + "roman volumes 1-9 and 21-29 with series A..H, 4 separators or from the title"),
    Harness("label", h_label, B + "11 labels of the volume, 8 of series and volume"),
    Harness("series_kb", h_series_kb, B + "standard title with series A..H, volume 1-3, page 1-4 digits; followed by an ibid or not"),
    Harness("special", h_special, B + "JHEP and JCAP, volume 1-4, page 1-4 digits, two layouts"),
    Harness("special_letterpage", h_special_letterpage, B + "page with a letter"),
    Harness("special_noyear", h_special_noyear, "JHEP volume, year without page, text of 3 symbolic letters before"),
    Harness("notspecial", h_notspecial, B + "volume and page 1-2 digits"),
    Harness("nuclsuppl", h_nuclsuppl, B + "volume 1-3, page 1-4 digits, 8 spellings"),
    Harness("nucl", h_nucl, B + "volume 1-3, page 1-4 digits, 5 spellings"),
    Harness("hep", h_hep, "6 archives, 3 separators, YYMMNNN"),
    Harness("hepkb", h_hepkb, "7 series of a knowledge base, 3 digits"),
    Harness("dash", h_dash, "series name with 2-3 symbolic letters, 4+2 digits"),
]
