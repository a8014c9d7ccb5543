"""C08 DOIs, URLs and handles."""
from hx_common import *

ALNUM = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DOICH = ALNUM + "-_:;()/<>."
DOIEND = ALNUM + "-_:()/<>"
URLCH = ALNUM + "_.?=&%~-"
# the identifier text must not itself be a collaboration name
NOCOLL = kbs(collaborations=(("Zzqvq Zzqvq", "Zzqvq"),))
HDLCH = ALNUM + "-_:./"


def doi(ctx, n="d", lo=1, hi=3):
    """10.xxxx(.sub)/suffix"""
    d = "10." + ctx.string(n + "r", 3, 4, DIGITS)
    if ctx.choice(n + "sub", (False, True)):
        d = d + "." + ctx.char(n + "s", ALNUM)
    return d + "/" + ctx.string(n + "x", lo, hi, DOICH) + ctx.char(n + "e", DOIEND)


PREFIX = ("", "doi:", "DOI: ", "doi ", "(doi): ", "http://dx.doi.org/", "https://doi.org/", "http://doi.org/")


def h_doi(ctx):
    p, post = ctx.choice("p", tuple(zip(PREFIX, ("", ".", ", ", " ", "", ".", ",", ";"))))
    d = doi(ctx, lo=1, hi=2)
    one(ctx, "text " + p + d + post, {"misc": ["text"], "doi": ["doi:" + d]}, "DOI verbatim, once")


def h_doi_start(ctx):
    """DOI at the start of the line (digits of the prefix must not become the marker)"""
    p = ctx.choice("p", ("", "doi:"))
    d = "10." + ctx.string("r", 4, 5, DIGITS) + "/" + ctx.char("x", DOICH) + ctx.char("e", DOIEND)
    one(ctx, p + d + ", text", {"doi": ["doi:" + d], "misc": ["text"]}, "DOI verbatim, once")


def h_doi_long(ctx):
    """registrant of 3 to 7 digits, two subdivisions"""
    d = "10." + ctx.string("r", 3, 7, DIGITS) + ctx.choice("s", ("", ".1", ".1.ab"))
    d = d + "/" + ctx.string("x", 2, 2, ALNUM + "-_()") + "." + ctx.string("z", 2, 2, ALNUM)
    one(ctx, "text doi:" + d, {"misc": ["text"], "doi": ["doi:" + d]}, "DOI verbatim, once")


def h_doi_enc(ctx):
    """url-encoded slash"""
    e = ctx.choice("enc", ("%2f", "%2F"))
    a, b = "10." + ctx.string("r", 4, 4, DIGITS), ctx.string("x", 2, 3, ALNUM)
    one(ctx, "text doi:" + a + e + b, {"misc": ["text"], "doi": ["doi:" + a + "/" + b]}, "DOI decoded")


def many(ctx, line, expected, **kw):
    r = parse(ctx, [line], **kw)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        got = [{k: v for k, v in x.items() if k != "raw_ref"} for x in r.value[0]]
        ctx.check(eq(got, expected), "items in order, each once", detail=[got, expected])


def h_two_dois(ctx):
    a = "10." + ctx.string("r", 4, 4, DIGITS) + "/" + ctx.string("x", 2, 2, ALNUM)
    b = "10." + ctx.string("s", 4, 4, DIGITS) + "/" + ctx.string("z", 2, 2, ALNUM)
    p = ctx.choice("p", ("doi:", "https://doi.org/"))
    sep = ctx.choice("sep", (", ", " ", "; ", ". "))
    many(ctx, p + a + sep + p + b, [{"doi": ["doi:" + a]}, {"doi": ["doi:" + b]}])


def h_nodoi(ctx):
    """too few digits or no suffix: not a DOI"""
    k = ctx.choice("k", ("short", "nosuffix"))
    d = "10." + (ctx.string("r", 1, 2, DIGITS) + "/ab" if k == "short" else ctx.string("r", 4, 4, DIGITS) + "/")
    r = parse(ctx, ["text " + d])
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and all("doi" not in f for f in r.value[0]), "no DOI invented")


def host(ctx):
    return ctx.string("h", 1, 2, ALNUM + "_-") + "." + ctx.string("t", 2, 2, LOWER)


def h_url(ctx):
    s = ctx.choice("s", ("http", "https", "ftp"))
    u = s + "://" + host(ctx)
    u = u + ctx.choice("port", ("", ":80"))
    u = u + ctx.choice("path", ("", "/", "/x"))
    post = ctx.choice("post", ("", ".", ", foo"))
    m = ["text"] + (["foo"] if "foo" in post else [])
    one(ctx, "text " + u + post, {"misc": m, "url": [u]}, "URL verbatim, once")


def h_url_path(ctx):
    u = "http://foo.ch/" + ctx.string("a", 1, 2, URLCH) + "/" + ctx.string("b", 1, 1, URLCH) + ctx.char("e", ALNUM + "_?=&%~-")
    post = ctx.choice("post", ("", ",", ".", ", foo"))
    m = ["text"] + (["foo"] if "foo" in post else [])
    one(ctx, "text " + u + post, {"misc": m, "url": [u]}, "URL verbatim, once")


def h_url_forms(ctx):
    """schemes in either case, ports, and quotes or brackets around"""
    s = ctx.choice("s", ("http", "https", "ftp", "sftp", "HTTP", "Ftp"))
    host = "q" + ctx.char("h", ALNUM + "_-.") + "k.zz"
    port = ctx.choice("port", (0, 1, 2, 5))
    u = s + "://" + host + (":" + ctx.string("p", port, port, DIGITS) if port else "")
    u = u + ctx.choice("tail", ("", "/", "/\u223cab", "/a%20b/"))
    o, c = ctx.choice("b", (("", ""), ('"', '"'), ("'", "'"), ("(", ")"), ("[", "]"), ("{", "}")))
    pre, left = ctx.choice("pre", (("", []), ("zz, ", ["zz"]), ("URL: ", ["URL:"])))
    post, right = ctx.choice("post", (("", []), (", qk", ["qk"])))
    exp = {"url": [u]}
    if left + right:
        exp["misc"] = left + right
    one(ctx, pre + o + u + c + post, exp, "URL verbatim")


def h_two_urls(ctx):
    u = "http://a.ch/" + ctx.string("a", 1, 2, ALNUM)
    w = "https://b.ch/" + ctx.string("b", 1, 2, ALNUM)
    sep = ctx.choice("sep", (", ", " "))
    many(ctx, u + sep + w, [{"url": [u]}, {"url": [w]}])


def h_html(ctx):
    u = "http://a.ch/" + ctx.string("a", 1, 2, ALNUM)
    same = ctx.choice("same", (False, True, "start", "end", "chars"))
    q = ctx.choice("q", ('"', "'"))
    if same == "start":                   # description the beginning or the end of the URL
        d, same = "http://a.ch", False
    elif same == "end":
        d, same = u[7:], False
    elif same == "chars":
        d, same = "q" + ctx.char("dc", "-(&\xe9+@,'!#*:;?%") + "k", False
    else:
        d = u if same else ctx.string("d", 2, 3, LOWER)
    e = {"misc": ["text", "foo"], "url": [u]}
    if not same:
        e["urldesc"] = [d]
    one(ctx, "text <a href=" + q + u + q + ">" + d + "</a>, foo", e, "URL and description")


def h_html_raw(ctx):
    """a marked-up and a plain URL: in the order of the line"""
    u = "http://a.ch/" + ctx.string("a", 1, 2, ALNUM)
    w = "http://b.ch/" + ctx.string("b", 1, 2, ALNUM)
    d = ctx.string("d", 2, 3, LOWER)
    h = '<a href="' + u + '">' + d + "</a>"
    if ctx.choice("first", (True, False)):
        many(ctx, h + ", " + w, [{"url": [u], "urldesc": [d]}, {"url": [w]}])
    else:
        many(ctx, w + ", " + h, [{"url": [w]}, {"url": [u], "urldesc": [d]}])


def h_arxiv_url(ctx):
    n = ctx.choice("old", ("", "hep-th/")) + ctx.string("n", 4, 4, DIGITS) + "." + ctx.string("m", 4, 5, DIGITS)
    one(ctx, "text http://arxiv.org/abs/" + n, {"misc": ["text"], "reportnumber": ["arXiv:" + n]},
        "arXiv number from the URL")


def h_hdl(ctx):
    # (a word after a space following a URL may be taken for a part of it that was broken off)
    p, post = ctx.choice("p", (("hdl:", " foo"), ("hdl:", ", foo"), ("HDL:", "."), ("http://hdl.handle.net/", ", foo"),
                               ("https://hdl.handle.net/", ".")))
    a = ctx.string("a", 2, 4, DIGITS + ("." if p[0] != "h" or p[1] == "d" else "") )
    h = a + "/" + ctx.string("b", 1, 2, ALNUM + "-") + ctx.char("e", ALNUM)
    m = ["text"] + (["foo"] if "foo" in post else [])
    one(ctx, "text " + p + h + post, {"misc": m, "hdl": ["hdl:" + h]}, "handle verbatim, once", kbs=NOCOLL)


def h_hdl_two(ctx):
    a, b = ctx.string("a", 2, 2, DIGITS) + "/" + ctx.string("c", 1, 2, ALNUM), \
        ctx.string("b", 2, 2, DIGITS) + "/" + ctx.string("d", 1, 2, ALNUM)
    sep = ctx.choice("sep", (" ", ", ", "; ", ". "))
    many(ctx, "hdl:" + a + sep + "hdl:" + b, [{"hdl": ["hdl:" + a]}, {"hdl": ["hdl:" + b]}])


def h_hdl_place(ctx):
    """a handle among other items and texts: in the paper it is written in"""
    h = ctx.string("a", 2, 2, DIGITS) + "/" + ctx.string("c", 1, 2, ALNUM)
    v = ctx.string("v", 2, 2, DIGITS)
    w, u = "qz" + ctx.char("w", "kqz"), "kz" + ctx.char("u", "kqz")
    j = {"journal_title": ["Phys.Rev."], "journal_volume": [v], "journal_year": ["1996"], "journal_page": ["65"],
         "journal_reference": ["Phys.Rev. " + v + " (1996) 65"], "year": ["1996"]}
    jt = "Phys. Rev. " + v + " (1996) 65"
    k = ctx.choice("k", ("hj", "jh", "h;j", "j;h", "h;aj"))
    t = ctx.choice("t", ("", "t"))
    ht = (w + " " if t else "") + "hdl:" + h + (", " + u if t else "")
    hf = {"hdl": ["hdl:" + h]}
    if t:
        hf["misc"] = [w, u]
    if k == "hj":
        one(ctx, ht + ", " + jt, dict(hf, **j), "handle in its paper", kbs=NOCOLL)
    elif k == "jh":
        one(ctx, jt + ", " + ht, dict(hf, **j), "handle in its paper", kbs=NOCOLL)
    elif k == "h;j":
        many(ctx, ht + "; " + jt, [hf, j], kbs=NOCOLL)
    elif k == "j;h":
        many(ctx, jt + "; " + ht, [j, hf], kbs=NOCOLL)
    else:
        many(ctx, ht + "; A. Bcdef, " + jt, [hf, dict(j, author=["A. Bcdef"])], kbs=NOCOLL)


def h_mixed(ctx):
    """one of each in any order"""
    d = "10.1103/" + ctx.string("x", 2, 2, ALNUM)
    u = "http://a.ch/" + ctx.string("a", 1, 1, ALNUM)
    h = ctx.string("h", 2, 2, DIGITS) + "/" + ctx.string("c", 1, 1, ALNUM)
    items = {"d": "doi:" + d, "u": u, "h": "hdl:" + h}
    o = ctx.choice("o", ("duh", "dhu", "udh", "uhd", "hdu", "hud"))
    one(ctx, " ".join([items[c] for c in o]), {"doi": ["doi:" + d], "url": [u], "hdl": ["hdl:" + h]},
        "each item once in its field")


B = "all identifier characters symbolic over the characters the identifier allows; "
HARNESSES = [
    Harness("doi", h_doi, B + "8 prefixes, registrant 3-4 digits, optional subdivision, suffix 2-3 characters"),
    Harness("doi_start", h_doi_start, B + "registrant 4-5 digits"),
    Harness("doi_long", h_doi_long, B + "registrant 3-7 digits"),
    Harness("doi_enc", h_doi_enc, B + "encoded slash"),
    Harness("two_dois", h_two_dois, B + "two DOIs"),
    Harness("nodoi", h_nodoi, B + "too short"),
    Harness("url", h_url, B + "host 1-2 + 2 characters, optional port and path"),
    Harness("url_path", h_url_path, B + "two path segments"),
    Harness("url_forms", h_url_forms, "6 schemes, symbolic character in the host, port of 0, 1, 2 or 5 digits, 4 tails, 6 kinds of quotes or brackets, 3x2 contexts"),
    Harness("two_urls", h_two_urls, B + "two URLs"),
    Harness("html", h_html, B + "HTML link, description 2-3 letters, equal to the URL, its beginning or end, or with one of 15 other characters"),
    Harness("html_raw", h_html_raw, B + "HTML link and plain URL in both orders"),
    Harness("arxiv_url", h_arxiv_url, "4.4-5 digits"),
    Harness("hdl", h_hdl, B + "handles, 5 pairs of prefix and continuation"),
    Harness("hdl_two", h_hdl_two, B + "two handles, 4 separators"),
    Harness("hdl_place", h_hdl_place, "handle before or after a journal, comma or semicolon, with or without text around"),
    Harness("mixed", h_mixed, B + "DOI, URL and handle in 6 orders"),
]
