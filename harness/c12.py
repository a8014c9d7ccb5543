"""C12 every line is parsed without failure."""
from hx_common import *

ANY = " \t.,;:-/()[]{}<>\"'&*+=%_@#\\|~^$!?" + "0127" + "aevxAEJVX" + "ßé£“”–\u00a0"
SOME = " .,;:-/()[]<>\"'&*%" + "019" + "avAV" + "ß"
TAGS = ("JOURNAL", "JOURNALibid", "VOL", "YR", "PG", "REPORTNUMBER", "ARXIV", "SER", "QUOTED", "ISBN",
        "PUBLISHER", "COLLABORATION", "AUTHstnd", "AUTHetal", "AUTHincl")


def survives(ctx, line, **kw):
    r = parse(ctx, [line], **kw)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        refs = r.value[0]
        ctx.check(len(refs) >= 1, "at least one reference")
        for f in refs:
            ctx.check(eq(f.get("raw_ref"), [line]), "raw line kept")
    return r


def h_any3(ctx):
    """the whole line is symbolic"""
    survives(ctx, ctx.string("s", 0, 2, ANY))


def h_any_mid(ctx):
    """symbolic characters inside a line"""
    c = ctx.choice("c", (("A. Bcd", "Phys. Rev. 53 (1996) 65"), ("Phys. Rev. D 53", " (1996) 65"),
                         ("[1] ", " DESY-98-123"), ('"abc', ' def" 1990'), ("doi:10.1103/ab", "cd"),
                         ("http://a.ch/", "x"), ("hep-th", "9901001"), ("World", "Scientific"),
                         ("ISBN", "0123456789"), ("Phys. Rev. 5 (1996) 65; ", " 6 (1997) 66"), ("A. Bcd et al", "(ed.)")))
    survives(ctx, c[0] + ctx.string("s", 1, 1, ANY) + c[1])


def h_any_two(ctx):
    """two symbolic characters, at the start and the end of an item"""
    c = ctx.choice("c", ("Phys. Rev. 53 (1996) 65", "DESY-98-123", "World Scientific", "ATLAS", "A. Bcd",
                         "arXiv:1201.1234", "Smith, ibid. 53 (1996) 65"))
    survives(ctx, ctx.char("a", SOME) + c + ctx.char("b", SOME))


def h_markup(ctx):
    """text that looks like the library's own tags, opening, closing or empty"""
    t = ctx.choice("t", TAGS + ("URL", "DOI"))
    k = ctx.choice("k", ("<cds.%s>", "<cds.%s />", "</cds.%s>", "<cds.%s>ab", "<cds.%s>%s</cds.%s>"))
    a = ctx.char("a", "ab1 ")
    tag = k.replace("%s", t) if k.count("%s") < 2 else "<cds." + t + ">" + a + "</cds." + t + ">"
    post = ctx.choice("p", ("", " Phys. Rev. 53 (1996) 65", " http://a.ch/b doi:10.1103/xyz"))
    survives(ctx, a + tag + post)


def h_markup_text(ctx):
    """an opening tag that is never closed costs no other text"""
    t = ctx.choice("t", ("QUOTED", "ISBN", "PUBLISHER", "COLLABORATION", "REPORTNUMBER", "ARXIV"))
    w = ctx.char("w", "bdgkqz") + "kqzgbkqzgbkqzgbkqz" + ctx.char("x", "bdgkqz")
    one(ctx, "qz <cds." + t + ">" + w, {"misc": ["qz " + w]}, "text after the tag is kept")


def h_api_string(ctx):
    """the public entry point"""
    c = ctx.choice("c", ("%s", "[1] A. Bcd%s", "%s Phys. Rev. 53 (1996) 65"))
    s = ctx.char("a", ANY)
    src = c.replace("%s", s)
    r = ctx.call(ctx.get(API + ":extract_references_from_string"), src, is_only_references=True,
                 override_kbs_files=kbs())
    ctx.observe("refs", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok and len(c) > 2:
        ctx.check(len(r.value) >= 1, "at least one reference")


def h_journal_api(ctx):
    c = ctx.choice("c", ("%s", "Phys. Rev. 53%s(1996) 65", "Phys. Rev. 53 (1996)%s"))
    src = c.replace("%s", ctx.string("a", 1, 2, SOME))
    r = ctx.call(ctx.get(API + ":extract_journal_reference"), src, override_kbs_files=kbs())
    ctx.observe("r", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")


def h_any_long(ctx):
    survives(ctx, ctx.string("s", 3, 3, SOME))


def h_any_mid2(ctx):
    c = ctx.choice("c", (("A. Bcd", "Phys. Rev. 53 (1996) 65"), ("Phys. Rev. D 53", " (1996) 65"),
                         ('"abc', ' def" 1990'), ("doi:10.1103/ab", "cd"), ("Phys. Rev. 5 (1996) 65;", " 6 (1997) 66")))
    survives(ctx, c[0] + ctx.string("s", 2, 2, SOME) + c[1])


EXOTIC = "²½①٣Ⅷⅷ〇İıŉﬁǅŁøªµ\u0301\u200b\ufeff\u2028\u0085\u00ad\u3000\ud800\U0001f600\U0001d7d8\x00\x0b\x0c\r\n\x1c\x7f"
PLACES = ("JHEP 05 (1996) %", "JHEP 05 (1996) %5", "JHEP 05 (1996) 1%5", "JHEP 0% (1996) 15", "JHEP %5 (1996) 15", "JHEP 5 (19%6) 15", "JHEP 5, %15",
          "Phys. Rev. %X (1996) 65", "Phys. Rev. X% (1996) 65", "[%] A. Bcd", "[1%] A. Bcd", "%. A. Bcd", "%", "A%", "A. B%d, C. Ef", "%. Bcd and C. Ef",
          "PoS LAT200% (2007) 369", "PoS %LAT2007 (2007) 369", "DESY-98-12%", "DESY %98-123", "arXiv:1201.123%", "hep-th/990100%", "ISBN 012345678%",
          '"ab%cd" 1990', '%"ab%cd" 1990', '"Alpha Bet%"', "doi:10.1103/%", "http://a.ch/%", "hdl:10%/ab", "ATLAS% Coll.", "World% Scientific",
          "Wor%ld Scientific 19%8", "ibid. %53 (1996) 65", "Phys. Rev. 5 (1996) 65; %6 (1997) 66", "ATL-CONF-200%-01", "A. Bcd% et al.", "A. Bcd (ed%s.)")


def h_exotic(ctx):
    """a character from outside the usual ones"""
    c = ctx.char("c", EXOTIC)
    survives(ctx, c.join(ctx.choice("place", PLACES).split("%")))
    ctx.reach("exotic")


def h_many_digits(ctx):
    """numbers of more digits than an integer may have"""
    n = ctx.char("c", "19") * ctx.choice("len", (1000, 4301))
    survives(ctx, ctx.choice("place", ("JHEP 05 (1996) %", "JHEP % (1996) 5", "[%] A. Bcd", "DESY-98-%", "Phys. Rev. 5 (1996) 65; % (1997) 66",
                                       "arXiv:%", "ISBN %")).replace("%", n))
    ctx.reach("long")


def h_any4(ctx):
    survives(ctx, ctx.string("s", 4, 4, SOME))


def h_any_mid3(ctx):
    c = ctx.choice("c", (("A. Bcd", "Phys. Rev. 53 (1996) 65"), ("Phys. Rev. D 53", " (1996) 65"), ('"abc', ' def" 1990'),
                         ("DESY-98-123", "hep-th/9901001"), ("Phys. Rev. 5 (1996) 65;", " 6 (1997) 66")))
    survives(ctx, c[0] + ctx.string("s", 3, 3, SOME) + c[1])


# '#' a symbolic digit, '@' a symbolic letter
ITEMS = ("acc-ph/970101#", "astro-ph/970101#", "astro-ph.@A/060101#", "cond-mat/970101#", "cs.@A/070101#", "gr-qc/970101#", "hep-lat/970101#",
         "math.@G/060101#", "math/970101#", "math-ph/970101#", "nlin.@I/060101#", "nucl-ex/970101#", "physics/970101#", "physics.acc-ph/060101#",
         "q-bio.@C/060101#", "q-alg/970101#", "quant-ph/970101#", "solv-int/970101#", "stat.@P/060101#", "alg-geom/970101#", "HEP-TH/970101#",
         "Math.@g/060101#", "astro-phy/970101#", "hepph/970101#", "plasm-ph/060101#", "math-@g/060101#", "ep-th/970101#", "physi-cs/970101#",
         "hep-th 970101#", "hep-th-970101#", "hep-th|970101#", "arXiv:120#.1234", "arXiv:120#.12345v@", "arXiv:150#.12345v2 [hep-@h]", "120#.1234",
         "arXiv:hep-th/970101#", "arXiv:970101# [hep-@h]", "arXiv:970101#", "PoS LAT200# (2007) 369", "PoS(LAT200#)369", "PoS @AT200# 369", "POS EPS-HEP200#, 012",
         "ATLAS-CONF-201#-012", "ATL-CONF-200#-01", "ATL-PHYS-PUB-201#-01", "DESY 9#-123", "DESY T-9#-123", "CERN-TH/9#-12", "CERN PH EP 200#-12",
         "CERNLHCC 200#-12", "ISBN 012345678#", "ISBN: 978-3-16-148410-#", "ISBN-13 978316148410#", "ISBN 0-306-40615-@", "http://a.ch/b#", "https://a.ch:80/~b#?c=@",
         "ftp://a.ch/b#.pdf", "http://dx.doi.org/10.1000/1#", "doi:10.1000/1#", "DOI 10.1000/@#", "10.1000/1#", "hdl:2128/1#", "http://hdl.handle.net/2128/1#",
         "http://arxiv.org/abs/120#.1234", '<a href="http://a.ch/b#">@b</a>', '"Ab@d efg #"', "\u201cAb@d efg #\u201d", '"Ab@d efg', "'Ab@d efg'",
         "World Scientific 199#", "World Scientific (199#)", "ATLAS Collaboration", "the CMS Coll.", "[ATLAS @ollab.]", "ATLAS and CMS", "A. Bc@d", "A.-B. de Bc@d",
         "Bc@d, A.", "A. Bc@d and C. Def", "A. Bc@d, C. Def, et al.", "Bc@d et al.", "A. Bc@d (ed.)", "eds. A. Bc@d and C. Def", "A. Bc@d (editors)",
         "Phys. Rev. 5# (1996) 65", "Phys. Rev. @ 5# (1996) 65", "Phys. Rev. D5#:65, 1996", "Phys. Rev., vol. 5#, no. 3, p. 65 (1996)", "Phys. Rev. (1996) 5# 65",
         "Phys. Rev. 5#, 65-7# (1996)", "Phys. Rev. 5# (1996)", "Phys. Rev. 5#", "Phys. Rev.", "Phys. Rev. XI# (1996) 65", "Phys. Rev. VI (199#) 65",
         "JHEP 0#(1996)015", "JHEP 040# (2004) 015", "JHEP 0#, 15", "J. High Energy Phys. 0# (2004) 15", "Nucl. Phys. B (Proc. Suppl.) 5# (1996) 65",
         "Nucl. Phys. Proc. Suppl. 5#@ (1996) 65", "Nucl. Phys. B5# [FS1] (1996) 65", "199# Phys. Rev. 53 65", "ibid. 5# (1997) 66", "ibid. @ 5# (1997) 66",
         "Ibid. 5#, 66", "5# (1997) 66", "@5# (1997) 66", "(199#)", "January 199#", "199#", "p. 1#", "vol. 1#", "Ph.D. thesis, Univ. @ 199#", "in preparation",
         "[#] Bcd", "#. Bcd", "(#) Bcd", "[AB#]", "<cds.VOL>#</cds.VOL>", "Zzqv qvzz qqv 17#0", "_#_", "____", "<#>", "@", "#")


def filled(ctx, name, item):
    return item.replace("#", ctx.char(name + "d", DIGITS)).replace("@", ctx.char(name + "l", "aekvzAGLVX"))


def h_items(ctx):
    """every kind of item, alone or after text"""
    t = filled(ctx, "i", ctx.choice("item", ITEMS))
    pre, post = ctx.choice("around", (("", ""), ("[1] A. Bcd, ", ", qkz"), ("qkz (", ")"), ("qkz; ", "; qkz"), ("'", "'")))
    survives(ctx, pre + t + post)
    ctx.reach("items")


KINDS = ("math.@G/060101#", "120#.1234", "PoS LAT200# (2007) 369", "DESY 9#-123", "ISBN 012345678#", "http://a.ch/b#", "doi:10.1000/1#", '"Ab@d efg #"',
         "World Scientific 199#", "ATLAS Collaboration", "A. Bc@d", "A. Bc@d (ed.)", "Phys. Rev. @ 5# (1996) 65", "JHEP 0# (2004) 15", "ibid. 5# (1997) 66",
         "Phys. Rev.", "5# (1997) 66", "qkz @", "199#", "Zzqv qvzz qqv 17#0")


def h_pairs(ctx):
    """every two kinds of items next to one another"""
    a = filled(ctx, "a", ctx.choice("a", KINDS))
    b = filled(ctx, "b", ctx.choice("b", KINDS))
    survives(ctx, a + ctx.choice("sep", ("", " ", "; ", ", and ")) + b)
    ctx.reach("pairs")


HARNESSES = [
    Harness("items", h_items, "%d items of every kind in 5 surroundings; a symbolic digit and letter in each" % len(ITEMS), reach=("items",)),
    Harness("pairs", h_pairs, "%d x %d items with 4 separators; a symbolic digit and letter in each" % (len(KINDS), len(KINDS)), reach=("pairs",)),
    Harness("any", h_any3, "lines of 0-2 symbolic characters over 60 characters"),
    Harness("any_mid", h_any_mid, "one symbolic character inside each of 11 lines"),
    Harness("any_two", h_any_two, "two symbolic characters around each of 7 items"),
    Harness("markup", h_markup, "15+2 tag names, 5 forms, 3 continuations"),
    Harness("markup_text", h_markup_text, "6 tag names, 20 letters of which 2 symbolic"),
    Harness("api_string", h_api_string, "one symbolic character in 3 lines"),
    Harness("journal_api", h_journal_api, "1-2 symbolic characters in 3 lines"),
    Harness("any_long", h_any_long, "lines of 3 symbolic characters"),
    Harness("any_mid2", h_any_mid2, "2 symbolic characters inside each of 5 lines"),
    Harness("exotic", h_exotic, "one of 32 unusual characters (superscript, fraction, other digits, ligatures, control characters, lone surrogate, ...) "
            "at each of 37 places", reach=("exotic",)),
    Harness("many_digits", h_many_digits, "numbers of 1000 and 4301 digits at 7 places", reach=("long",)),
    Harness("any4", h_any4, "lines of 4 symbolic characters", tier="thorough"),
    Harness("any_mid3", h_any_mid3, "3 symbolic characters inside each of 5 lines", tier="thorough"),
]
