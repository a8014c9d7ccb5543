"""C09 preprint and report numbers."""
import datetime

from hx_common import *

NOW = datetime.datetime.now().year % 100


def month(ctx, n="m"):
    """valid month"""
    a, b = ctx.choice(n, (("0", "123456789"), ("1", "012")))
    return a + ctx.char(n + "u", b)


def badmonth(ctx, n="m"):
    a, b = ctx.choice(n, (("0", "0"), ("1", "3456789"), (None, DIGITS)))
    a = ctx.char(n + "t", "23456789") if a is None else a
    return a + ctx.char(n + "u", b)


def oldyear(ctx, n="y"):
    a, b = ctx.choice(n, (("9", "123456789"), ("0", "01234567")))
    return a + ctx.char(n + "u", b)


def newyear(ctx, n="y"):
    """07 .. this year"""
    a, b = ctx.choice(n, (("0", "789"), ("1", DIGITS), ("2", DIGITS[:NOW - 19])))
    return a + ctx.char(n + "u", b)


def rep(ctx, line, number, **more):
    d = {"reportnumber": [number]}
    d.update(more)
    one(ctx, line, d, "report number in standard form")


def norep(ctx, line):
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        for f in r.value[0]:
            ctx.check("reportnumber" not in f, "no report number invented", detail=f)


def suffix(ctx):
    k = ctx.choice("cls", ("", "hep", "dot"))
    if k == "":
        return ""
    if k == "hep":
        return " [hep-" + ctx.char("c0", LOWER) + ctx.char("c1", LOWER) + "]"
    return " [astro-ph." + ctx.char("c0", UPPER) + ctx.char("c1", UPPER) + "]"


def version(ctx):
    v = ctx.choice("ver", ("", "v", "vv", "vvv"))
    return v and "v" + ctx.char("vd", "123456789") + ("" if v == "v" else ctx.string("ve", len(v) - 1, len(v) - 1, DIGITS))


def h_arxiv4(ctx):
    pre = ctx.choice("pre", ("arXiv:", "arXiv: ", "arxiv ", "[arXiv:", "ARXIV-"))
    d = newyear(ctx) + month(ctx)
    n = ctx.string("n", 4, 4, DIGITS)
    v, s = version(ctx), suffix(ctx)
    line = pre + d + "." + n + v + s + ("]" if pre[0] == "[" else "")
    rep(ctx, line, "arXiv:" + d + "." + n + s)


def h_arxiv5(ctx):
    pre = ctx.choice("pre", ("arXiv:", "arxiv ", "[arXiv:"))
    a, b = ctx.choice("yy", (("1", "3456789"), ("2", DIGITS)))
    d = a + ctx.char("y1", b) + month(ctx)
    n = ctx.string("n", 5, 5, DIGITS)
    v, s = version(ctx), suffix(ctx)
    line = pre + d + "." + n + v + s + ("]" if pre[0] == "[" else "")
    rep(ctx, line, "arXiv:" + d + "." + n + s)


def h_bare(ctx):
    five = ctx.choice("five", (False, True))
    if five:
        a, b = ctx.choice("yy", (("1", "3456789"), ("2", DIGITS[:NOW - 19])))
        d = a + ctx.char("y1", b) + month(ctx)
    else:
        d = newyear(ctx) + month(ctx)
    n = ctx.string("n", 5 if five else 4, 5 if five else 4, DIGITS)
    v, s = version(ctx), suffix(ctx)
    rep(ctx, d + "." + n + v + s, "arXiv:" + d + "." + n + s)


def h_bare_bad(ctx):
    """not an identifier: impossible month, wrong number of digits, longer number"""
    k = ctx.choice("kind", ("month", "short", "long", "glued", "old5"))
    if k == "month":
        line = newyear(ctx) + badmonth(ctx) + "." + ctx.string("n", 4, 5, DIGITS)
    elif k == "short":
        line = newyear(ctx) + month(ctx) + "." + ctx.string("n", 2, 3, DIGITS)
    elif k == "long":
        line = newyear(ctx) + month(ctx) + "." + ctx.string("n", 6, 6, DIGITS)
    elif k == "glued":
        line = ctx.string("g", 1, 2, DIGITS) + "1" + ctx.char("y1", "01234") + month(ctx) + \
            "." + ctx.string("n", 4, 4, DIGITS)
    else:
        line = "0" + ctx.char("y1", "789") + month(ctx) + "." + ctx.string("n", 5, 5, DIGITS)
    norep(ctx, "text " + line)


# all archives and classes, and the misspellings the table corrects
ALL = ("acc-ph", "astro-ph", "astro-ph.#", "atom-ph", "chao-dyn", "chem-ph", "cond-mat", "cs", "cs.#", "gr-qc", "hep-ex", "hep-lat", "hep-ph", "hep-th",
       "math", "math.#", "math-ph", "nlin", "nlin.#", "nucl-ex", "nucl-th", "physics", "physics.acc-ph", "physics.ao-ph", "physics.atm-clus",
       "physics.atom-ph", "physics.bio-ph", "physics.chem-ph", "physics.class-ph", "physics.comp-ph", "physics.data-an", "physics.ed-ph",
       "physics.flu-dyn", "physics.gen-ph", "physics.geo-ph", "physics.hist-ph", "physics.ins-det", "physics.med-ph", "physics.optics",
       "physics.plasm-ph", "physics.pop-ph", "physics.soc-ph", "physics.space-ph", "q-bio.#", "q-fin.#", "q-alg", "quant-ph", "solv-int", "stat.#",
       "stat-mech", "dg-ga", "funct-an", "alg-geom")
WRONG = (("astro-phy", "astro-ph"), ("hepph", "hep-ph"), ("hepth", "hep-th"), ("plasm-ph", "physics.plasm-ph"), ("quant-phys", "quant-ph"),
         ("hap-ph", "hep-ph"), ("quantph", "quant-ph"), ("stro-ph", "astro-ph"), ("hepex", "hep-ex"), ("math-ag", "math.ag"),
         ("math-dg", "math.dg"), ("nuc-th", "nucl-th"), ("math-ca", "math.ca"), ("nlin-si", "nlin.si"), ("quantum-ph", "quant-ph"),
         ("ep-ph", "hep-ph"), ("ep-th", "hep-th"), ("ep-ex", "hep-ex"), ("hept-h", "hep-th"), ("hepp-h", "hep-ph"), ("asstro-ph", "astro-ph"),
         ("hep-lt", "hep-lat"), ("he-ph", "hep-ph"), ("het-ph", "hep-ph"), ("ucl-th", "nucl-th"), ("nnucl-th", "nucl-th"),
         ("nuclt-th", "nucl-th"), ("atro-ph", "astro-ph"), ("qnant-ph", "quant-ph"), ("astr-ph", "astro-ph"), ("math-qa", "math.qa"),
         ("tro-ph", "astro-ph"), ("hucl-th", "nucl-th"), ("math-gt", "math.gt"), ("math-nt", "math.nt"), ("math-ct", "math.ct"),
         ("math-oa", "math.oa"), ("math-sg", "math.sg"), ("math-ap", "math.ap"), ("quan-ph", "quant-ph"), ("nlin-cd", "nlin.cd"),
         ("math-sp", "math.sp"), ("ast-ph", "astro-ph"), ("asyro-ph", "astro-ph"), ("aastro-ph", "astro-ph"), ("astrop-ph", "astro-ph"),
         ("hept-th", "hep-th"), ("asro-ph", "astro-ph"), ("castro-ph", "astro-ph"), ("hhep-ph", "hep-ph"), ("hhep-ex", "hep-ex"),
         ("nuclth", "nucl-th"), ("physi-cs", "physics"))


def h_archives(ctx):
    """every archive, class and corrected misspelling"""
    a, std = ctx.choice("a", tuple([(x, x) for x in ALL]) + WRONG)
    if a[-1] == "#":
        c = ctx.char("c0", LOWER + UPPER) + ctx.char("c1", LOWER + UPPER)
        a = std = a[:-1] + c
    elif a != std:                        # a misspelling is corrected in any letter case
        a = ctx.choice("case", (a, a.upper(), a[0].upper() + a[1:]))
    sep = ctx.choice("sep", ("/", "|", ""))
    d = "0" + ctx.char("y", "01234567") + month(ctx) + ctx.string("n", 3, 3, DIGITS)
    rep(ctx, "qk, " + a + sep + d + ", zz", std + "/" + d, misc=["qk", "zz"])


def h_prefixes(ctx):
    """ways to write the arXiv prefix and the number"""
    pre, left = ctx.choice("pre", (("arXiv", ""), ("arXiv:", ""), ("arXiv :", ""), ("ARXIV - ", ""), ("e-print arXiv:", "e-print"), ("eprint: arXiv:", "eprint:"),
                                   ("(arXiv:", ""), ("hep-th, arXiv:", "hep-th")))
    d = newyear(ctx)
    m = month(ctx)
    five = ctx.choice("five", (False, True))
    if five:
        ctx.assume(int(d) >= 13)
    n = ctx.string("n", 5 if five else 4, 5 if five else 4, DIGITS)
    s1, s2 = ctx.choice("s", (("", "."), ("-", "."), ("", " "), ("", "-"), ("", " . ")))
    rep(ctx, pre + d + s1 + m + s2 + n + (")" if pre[0] == "(" else ""), "arXiv:" + d + m + "." + n, **({"misc": [left]} if left else {}))


ARCHIVES = ("hep-th", "hep-ph", "hep-ex", "hep-lat", "astro-ph", "gr-qc", "cond-mat", "nucl-th",
            "nucl-ex", "quant-ph", "math-ph", "physics", "math", "nlin")


def h_old(ctx):
    a = ctx.choice("a", ARCHIVES)
    sep = ctx.choice("sep", ("/", " ", "-", ":"))
    d = oldyear(ctx) + month(ctx) + ctx.string("n", 3, 3, DIGITS)
    v = version(ctx) if sep == "/" else ""
    rep(ctx, a + sep + d + v, a + "/" + d)


def h_old_bad(ctx):
    a = ctx.choice("a", ("hep-th", "astro-ph", "gr-qc"))
    k = ctx.choice("kind", ("month", "year", "short", "long", "glued"))
    if k == "month":
        d = oldyear(ctx) + badmonth(ctx) + ctx.string("n", 3, 3, DIGITS)
    elif k == "year":
        x, b = ctx.choice("yy", (("0", "89"), ("1", DIGITS), ("9", "0"), ("8", DIGITS)))
        d = x + ctx.char("y1", b) + month(ctx) + ctx.string("n", 3, 3, DIGITS)
    elif k == "short":
        d = oldyear(ctx) + month(ctx) + ctx.string("n", 1, 2, DIGITS)
    elif k == "long":
        d = oldyear(ctx) + month(ctx) + ctx.string("n", 4, 4, DIGITS)
    else:
        a = ctx.char("g", LOWER.replace("h", "").replace("c", "")) + "x" + a
        d = oldyear(ctx) + month(ctx) + ctx.string("n", 3, 3, DIGITS)
    r = ctx.call(ctx.get(ENG + ":parse_references"), [a + "/" + d],
                 override_kbs_files=kbs(**{"report-numbers": ("*****X*****", "<9999>", "ZZQ---ZZQ")}))
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        for f in r.value[0]:
            ctx.check("reportnumber" not in f, "no report number invented", detail=f)


def h_catchup(ctx):
    """arXiv:9711200 [hep-th] is hep-th/9711200"""
    a = ctx.choice("a", ("hep-th", "gr-qc", "cond-mat"))
    sep = ctx.choice("sep", ("arXiv:", "arXiv "))
    d = oldyear(ctx) + month(ctx) + ctx.string("n", 3, 3, DIGITS)
    rep(ctx, sep + d + " [" + a + "]", a + "/" + d)


def h_atlas(ctx):
    """ATLAS-CONF notes: before 2010 ATL-CONF, later ATLAS-CONF"""
    form = ctx.choice("form", ("ATLAS", "ATL"))
    y, std = ctx.choice("y", (("200", "ATL"), ("20", "ATLAS"), ("99", "ATL")))
    if y == "20":
        y = y + ctx.char("yt", DIGITS[1:])
    y = y if y == "99" else y + ctx.char("yu", DIGITS)
    n = ctx.string("n", 3, 3, DIGITS)
    rep(ctx, form + "-CONF-" + y + "-" + n, std + "-CONF-" + y + "-" + n)


def h_series(ctx):
    cat, std = ctx.choice("cat", (("CERN-TH", "CERN-TH"), ("CERN PH EP", "CERN-PH-EP"),
                                  ("CERNLHCC", "CERN-LHCC")))
    s1 = ctx.choice("s1", ("-", " ", "/", "."))
    s2 = ctx.choice("s2", ("-", " ", "/"))
    y = ctx.choice("y4", (False, True))
    d = (ctx.char("y0", "12") + ctx.string("y", 3, 3, DIGITS)) if y else ctx.string("y", 2, 2, DIGITS)
    n = ctx.string("n", 1, 3, DIGITS)
    rep(ctx, cat + s1 + d + s2 + n, std + "-" + d + "-" + n)


def h_series_text(ctx):
    """inside text and brackets"""
    o, c = ctx.choice("b", (("", ""), ("(", ")"), ("[", "]")))
    d = ctx.string("y", 2, 2, DIGITS)
    n = ctx.string("n", 3, 3, DIGITS)
    t = ctx.choice("t", ("report ", "internal note "))
    u = ctx.choice("u", (", unpublished", " unpublished"))
    rep(ctx, t + o + "DESY-" + d + "-" + n + c + u, "DESY-" + d + "-" + n,
        misc=[t.strip(), "unpublished"])


def h_series_bad(ctx):
    """a word that merely contains the series name, or the series without number"""
    k = ctx.choice("kind", ("prefix", "nonum", "short"))
    d = ctx.string("y", 2, 2, DIGITS)
    n = ctx.string("n", 3, 3, DIGITS)
    if k == "prefix":
        line = "x " + ctx.char("g", UPPER + LOWER + DIGITS) + "DESY-" + d + "-" + n
    elif k == "nonum":
        line = "x DESY-" + ctx.char("g", LOWER.replace("t", "")) + d + "-" + n
    else:
        line = "x DESY-" + d + "-" + n[:2]
    norep(ctx, line)


def h_pos(ctx):
    lay = ctx.choice("lay", ("PoS(%(v)s%(y)s)%(p)s", "PoS %(v)s%(y)s (%(y)s) %(p)s", "POS(%(v)s%(y)s) %(p)s", "PoS (%(y)s) %(v)s%(y)s %(p)s",
                             "PoS %(v)s %(y)s %(p)s (%(y)s)", "PoS %(v)s%(y)s, %(p)s (%(y)s)", "pos(%(v)s %(y)s), %(p)s"))
    y = ctx.choice("c", ("19", "20")) + ctx.string("y", 2, 2, DIGITS)
    v = ctx.choice("v", (ctx.string("v2", 1, 3, UPPER), "LATTICE"))
    p = ctx.string("p", 1, 4, DIGITS)
    line = lay % {"v": v, "y": y, "p": p}
    v = v + y
    one(ctx, line, {"journal_title": ["PoS"], "journal_volume": [v], "journal_year": [y],
                    "journal_page": [p], "journal_reference": ["PoS " + v + " (" + y + ") " + p],
                    "year": [y]})


def h_ends(ctx):
    """any punctuation may follow or precede the number"""
    d = ctx.string("y", 2, 2, DIGITS)
    n = ctx.string("n", 3, 3, DIGITS)
    k = ctx.choice("num", ("DESY", "arXiv", "hep-th"))
    if k == "DESY":
        t = std = "DESY-" + d + "-" + n
    elif k == "arXiv":
        t = std = "arXiv:1" + ctx.char("a", "01234") + month(ctx) + "." + n + d[0]
    else:
        t = std = "hep-th/0" + ctx.char("a", "01234567") + month(ctx) + n
    side = ctx.choice("side", ("before", "after"))
    x = ctx.char("x", "><[]()\" .,:" if side == "after" else "><[]()\" ,:")
    gap = ctx.choice("gap", ("", " "))
    line = "qk " + t + x + gap + "kz" if side == "after" else "qk" + gap + x + t + " kz"
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        ctx.check(eq(r.value[0][0].get("reportnumber"), [std]), "number recognised", detail=r.value[0][0])


SYMBOLS = ("9", "99", "999", "yy", "yyyy", "mm", "a", "yymm")


def h_symbols(ctx):
    """a series whose numeration has a symbol of the table: exactly the numbers it stands for"""
    sym = ctx.choice("sym", SYMBOLS)
    pattern = "<s" + sym + "s9>"
    num, good = "", True
    for part in ("yyyy", "yy", "mm", "9", "a"):
        while sym.startswith(part):
            sym = sym[len(part):]
            n = len(num)
            if part == "yyyy":
                c = ctx.char("c%d" % n, DIGITS)
                good = good and c in "12"
                num = num + c + ctx.string("d%d" % n, 3, 3, DIGITS)
            elif part == "yy":
                num = num + ctx.string("d%d" % n, 2, 2, DIGITS)
            elif part == "mm":
                d = ctx.string("d%d" % n, 2, 2, DIGITS)
                good = good and bool(d >= "01" and d <= "12")
                num = num + d
            elif part == "9":
                num = num + ctx.char("d%d" % n, DIGITS)
            else:
                c = ctx.char("c%d" % n, DIGITS + UPPER)
                good = good and c not in DIGITS
                num = num + c
    k = ctx.char("k", DIGITS)
    line = "qk QKR-" + num + "-" + k + ", zz"
    kb = kbs(**{"report-numbers": ("*****QKR*****", pattern, "QKR---QKR")})
    r = parse(ctx, [line], kbs=kb)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        ctx.check(bool("reportnumber" in r.value[0][0]) == bool(good), "recognised if and only if the number fits", detail=r.value[0][0])


HARNESSES = [
    Harness("ends", h_ends, "3 kinds of number, one of 11 punctuation characters directly before or after, with or without blank"),
    Harness("symbols", h_symbols, "8 combinations of the symbols 9 yy yyyy mm a; all digits and letters symbolic"),
    Harness("arxiv4", h_arxiv4, "arXiv prefix in 5 spellings, YY 07..this year, MM 01..12, 4 digits, "
            "optional version digit, optional class with 2 symbolic letters"),
    Harness("arxiv5", h_arxiv5, "3 prefixes, YY 13..29, MM 01..12, 5 digits, version, class"),
    Harness("bare", h_bare, "no prefix, 4 or 5 digits"),
    Harness("bare_bad", h_bare_bad, "impossible month, 2-3 or 6 digits, preceded by 1-2 digits"),
    Harness("archives", h_archives, "53 archives and classes (class letters symbolic), 53 corrected misspellings, 3 separators, all digits but the decade symbolic"),
    Harness("prefixes", h_prefixes, "8 prefixes, 5 ways to write the number, 4 or 5 digits"),
    Harness("old", h_old, "14 archives, 4 separators, YYMMNNN with all valid digits, version"),
    Harness("old_bad", h_old_bad, "impossible month or year, wrong length, archive glued to a word"),
    Harness("catchup", h_catchup, "7 digits with class in brackets"),
    Harness("atlas", h_atlas, "ATL/ATLAS, years 1999, 2000..2099, 3 digits"),
    Harness("series", h_series, "3 series, separators - space / ., 2 or 4 digit year, 1-3 digits"),
    Harness("series_text", h_series_text, "in text and brackets"),
    Harness("series_bad", h_series_bad, "glued to a word, no number, too short"),
    Harness("pos", h_pos, "7 ways to write it, PoS volumes of 1-3 or 7 letters and year, 1-4 digit page"),
]
