"""C16 order, raw text, marker and fields of the references."""
from hx_common import *

MARKS = (
    ("[%s] ", 1), ("[%s]", 1), ("[ %s ] ", 1), ("{%s} ", 1), ("(%s) ", 1), ("%s. ", 1), ("%s.", 1), ("%s ", 1),
    ("%s] ", 1), ("%s} ", 1), ("%s) ", 1), ("  [%s] ", 1),
)


def h_marker_num(ctx):
    """numbered markers in every style"""
    m, _ = ctx.choice("m", MARKS)
    n = ctx.string("n", 1, 3, DIGITS)
    w = "q" + ctx.string("w", 2, 2, "kqz")
    one(ctx, m % n + w, {"linemarker": [n], "misc": [w]}, "marker without brackets and dots")


def h_marker_key(ctx):
    """keys as markers"""
    k = ctx.string("k", 2, 3, "aBx") + ctx.choice("plus", ("", "+")) + ctx.string("n", 0, 4, DIGITS)
    x = ctx.choice("x", ("", "a", "Z"))
    if x and k[-1] in DIGITS:
        k = k + x
    one(ctx, "[" + k + "] qkz", {"linemarker": [k], "misc": ["qkz"]}, "key as marker")


def h_marker_sub(ctx):
    n = ctx.string("n", 1, 2, DIGITS) + "." + ctx.string("k", 1, 2, DIGITS)
    one(ctx, "[" + n + "] qkz", {"linemarker": [n], "misc": ["qkz"]}, "sub-numbered marker")


def h_marker_none(ctx):
    """no marker, empty marker, or something that only resembles one"""
    t, exp = ctx.choice("t", (
        ("qkz", {"misc": ["qkz"]}), ("[] qkz", {"misc": ["qkz"]}), ("[  ] qkz", {"misc": ["qkz"]}),
        ("qkz [%s]", {"misc": ["qkz [%s]"]}), ("q%s. qkz", {"misc": ["q%s. qkz"]}), ("%s.%s qkz", {"misc": ["%s.%s qkz"]}),
        ("[%sab qkz", {"misc": ["[%sab qkz"]})))
    n = ctx.char("n", DIGITS)
    k = t.count("%s")
    exp = {f: [v[0] % ((n,) * k)] for f, v in exp.items()}
    one(ctx, t % ((n,) * k), exp, "text that is no marker stays")


LINES = (
    ("Phys. Rev. %s (1996) 65", lambda n: [{"journal_title": ["Phys.Rev."], "journal_volume": [n], "journal_year": ["1996"],
     "journal_page": ["65"], "journal_reference": ["Phys.Rev. " + n + " (1996) 65"], "year": ["1996"]}]),
    ("qkz %s zqk", lambda n: [{"misc": ["qkz " + n + " zqk"]}]),
    ("hep-th/99010%s; doi:10.1103/ab", lambda n: [{"reportnumber": ["hep-th/99010" + n]}, {"doi": ["doi:10.1103/ab"]}]),
    ("", lambda n: [{}]),
    ("A. Bcdef, qkz%s", lambda n: [{"author": ["A. Bcdef"], "misc": ["qkz" + n]}]),
)


def h_order(ctx):
    """references of several lines, in line order"""
    n = ctx.choice("n", (0, 1, 2, 3))
    lines, exp = [], []
    for i in range(n):
        t, f = LINES[ctx.choice("l%d" % i, tuple(range(len(LINES))) if i < 2 else (0, 3))]
        d = ctx.string("d%d" % i, 2, 2, DIGITS)
        mark = ctx.choice("m%d" % i, ("", "[%d] " % (i + 1)))
        line = mark + (t % d if "%s" in t else t)
        lines.append(line)
        for e in f(d):
            e = dict(e, raw_ref=[line])
            if mark:
                e["linemarker"] = [str(i + 1)]
            exp.append(e)
    given = list(lines)
    r = parse(ctx, given)
    ctx.observe("lines", lines)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        ctx.check(eq(r.value[0], exp), "references in line order, complete", detail=[r.value[0], exp])
        ctx.check(eq(given, lines), "the caller's lines are not changed")


def h_raw(ctx):
    """the raw text is the line as given, before any washing"""
    c = ctx.string("c", 2, 2, " q,.;\t\n[\"'(<\u00e9\u2019")
    line = ctx.choice("pre", ("", "[1] ", " ")) + "qk" + c + "kz"
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.check(r.ok and len(r.value[0]) >= 1, "at least one reference")
    if r.ok:
        for f in r.value[0]:
            ctx.check(eq(f.get("raw_ref"), [line]), "raw text is the unmodified line", detail=f)


FORMATS = ("{title} {volume} ({year}) {page}", "{title},{volume},{page}", "{page}/{year}", "{title}", "")


def h_format(ctx):
    """the caller's reference format"""
    fm = ctx.choice("fm", FORMATS)
    v, p = ctx.string("v", 2, 2, DIGITS), ctx.string("p", 2, 2, DIGITS)
    y = ctx.choice("y", ("", "19"))
    if y:
        y = y + ctx.string("yy", 2, 2, DIGITS)
    line = "Phys. Rev. D" + v + (" (" + y + ") " if y else ", ") + p
    d = {"journal_title": ["Phys.Rev."], "journal_volume": ["D" + v], "journal_page": [p]}
    if y:
        d["journal_year"] = d["year"] = [y]
    if fm:
        d["journal_reference"] = [fm.replace("{title}", "Phys.Rev.").replace("{volume}", "D" + v)
                                  .replace("{year}", y).replace("{page}", p)]
    one(ctx, line, d, "rendered with the caller's format", reference_format=fm)


def h_format_api(ctx):
    """the format given to the string entry point reaches the references"""
    fm = ctx.choice("fm", FORMATS[:3])
    v = ctx.string("v", 2, 2, DIGITS)
    line = "[1] Phys. Rev. D" + v + " (1996) 65"
    fn = ctx.get(API + ":extract_references_from_string")
    r = ctx.call(fn, line, is_only_references=True, override_kbs_files=kbs(), reference_format=fm)
    ctx.observe("line", line)
    ctx.observe("refs", r.value if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value) == 1, "one reference")
    if r.ok and len(r.value) == 1:
        ctx.check(eq(r.value[0].get("journal_reference"), [fm.replace("{title}", "Phys.Rev.").replace(
            "{volume}", "D" + v).replace("{year}", "1996").replace("{page}", "65")]), "caller's format used")


def h_fields(ctx):
    """one item of every kind, each in the field of its kind"""
    a = "A. B" + ctx.string("a", 2, 2, "cdfg")
    w = "q" + ctx.string("w", 2, 2, "kqz")
    d = ctx.string("d", 2, 2, DIGITS)
    doi = "10.1103/" + ctx.string("x", 2, 2, "abc0")
    url = "http://qk.zz/" + ctx.string("u", 2, 2, "abc0")
    parts = [
        (a, "author", a), ("CMS", "collaboration", "CMS"), ("DESY-98-1" + d, "reportnumber", "DESY-98-1" + d),
        ("World Scientific", "publisher", "World Scientific"),
        ("ISBN 978-3-16-148410-" + d[0], "isbn", "978-3-16-148410-" + d[0]),
        ("\"qk" + w + "\"", "title", "qk" + w), ("doi:" + doi, "doi", "doi:" + doi), (url, "url", url)]
    k = ctx.choice("rot", tuple(range(len(parts))))
    some = [parts[k], parts[(k + 3) % len(parts)]]
    if some[1][1] == "author":
        some = [some[1], some[0]]
    line = some[0][0] + ", " + some[1][0]
    exp = {p[1]: [p[2]] for p in some}
    one(ctx, line, exp, "each item in its field")


def h_editors(ctx):
    """editors are put in parentheses"""
    n = ctx.string("n", 2, 3, "cdfg")
    two = ctx.choice("two", ("", " and C. Def"))
    form = ctx.choice("form", ("ed. %s", "eds. %s", "Eds. %s", "edited by %s", "(%s, eds.)", "(%s eds.)"))
    w = ctx.choice("w", ("", "q"))
    line = form % ("A. B" + n + two) + ", Phys. Rev. 53 (1996) 65"
    exp = {"author": ["(A. B" + n + two + " (eds.))"], "journal_title": ["Phys.Rev."], "journal_volume": ["53"],
           "journal_year": ["1996"], "journal_page": ["65"], "journal_reference": ["Phys.Rev. 53 (1996) 65"],
           "year": ["1996"]}
    if w:
        w = w + ctx.string("w2", 2, 2, "kqz")
        line = w + ", " + line
        exp["misc"] = [w]
    one(ctx, line, exp, "editors in parentheses")


OPEN, CLOSE = "[({", "])}"


def h_trim(ctx):
    """text next to an item is given without the brackets, commas and full stops around the item"""
    w = "q" + ctx.char("w", "kqz") + "z"
    d = "DESY-98-1" + ctx.string("d", 2, 2, DIGITS)
    j = ctx.string("j", 0, 2, ",." + OPEN + CLOSE)
    # a bracket that is directly followed by the one of the item may go with it
    ctx.assume(not (len(j) == 2 and bool(j[0] in CLOSE) and bool(j[1] in OPEN)))
    if ctx.choice("before", (True, False)):
        line = w + j + " " + d
        want = (w + j).rstrip(" ,." + OPEN)
    else:
        line = d + " " + j + w
        want = (j + w).lstrip(" ,." + CLOSE)
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        f = r.value[0][0]
        ctx.check(eq([f.get("misc"), f.get("reportnumber")], [[want], [d]]), "text without what dangles", detail=[f, want])


def h_twice(ctx):
    """the same words twice are given twice"""
    w = "q" + ctx.char("w", "kqz") + "z"
    v = "q" + ctx.char("v", "kqz") + "z"
    d = ctx.string("d", 2, 2, DIGITS)
    one(ctx, w + " DESY-98-1" + d + ", " + v + " CERN-TH-98-1" + d,
        {"reportnumber": ["DESY-98-1" + d, "CERN-TH-98-1" + d], "misc": [w, v]}, "every occurrence")


def h_noise(ctx):
    """only commas, full stops and brackets between two items: no text"""
    a = "DESY-98-1" + ctx.string("a", 2, 2, DIGITS)
    b = "CERN-TH-98-1" + ctx.string("b", 2, 2, DIGITS)
    j = ctx.string("j", 0, 3, " ,." + OPEN + CLOSE)
    r = parse(ctx, [a + " " + j + " " + b])
    ctx.observe("line", a + " " + j + " " + b)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        f = dict(r.value[0][0])
        f.pop("raw_ref", None)
        ctx.check(eq(f, {"reportnumber": [a, b]}), "no text made of punctuation", detail=f)


HARNESSES = [
    Harness("twice", h_twice, "two words of 3 letters, equal or not, between two numbers"),
    Harness("noise", h_noise, "0-3 of 9 blanks, commas, full stops and brackets between two numbers"),
    Harness("trim", h_trim, "0-2 of 8 punctuation characters between the text and a report number, before or after"),
    Harness("marker_num", h_marker_num, "12 marker styles, number of 1-3 symbolic digits"),
    Harness("marker_key", h_marker_key, "key of 2-3 letters, optional +, 0-4 digits and letter"),
    Harness("marker_sub", h_marker_sub, "[n.n] with 1-2 digits each"),
    Harness("marker_none", h_marker_none, "7 texts that are no marker"),
    Harness("order", h_order, "0-3 lines of 5 kinds, with or without marker"),
    Harness("raw", h_raw, "2 symbolic characters of 13 inside the line"),
    Harness("format", h_format, "5 formats, year present or not"),
    Harness("format_api", h_format_api, "3 formats through extract_references_from_string"),
    Harness("fields", h_fields, "8 kinds of items, two per line"),
    Harness("editors", h_editors, "6 ways to mark editors, one or two of them"),
]
