"""C18 washing repairs spacing, quotes and URLs only."""
from hx_common import *

WS = " \t"


def collapse(s):
    """runs of white space of two or more become one space"""
    out, i = "", 0
    while i < len(s):
        if s[i] in WS:
            j = i
            while j < len(s) and s[j] in WS:
                j = j + 1
            out = out + (" " if j - i > 1 else s[i])
            i = j
        else:
            out = out + s[i]
            i = i + 1
    return out


def quotes(s):
    """a comma before the closing quote moves out"""
    out, i = "", 0
    while i < len(s):
        j = -1
        if s[i] == '"':
            j = s.find('"', i + 1)
        if j >= i + 3 and s[j - 1] == ",":
            out = out + '"' + s[i + 1:j - 1] + '",'
            i = j + 1
        else:
            out = out + s[i]
            i = i + 1
    return out


def punctuation(s):
    """no space before , ; . ] nor after ["""
    out = ""
    for i in range(len(s)):
        if s[i] in WS and ((i + 1 < len(s) and s[i + 1] in ",;.]") or (i > 0 and s[i - 1] == "[")):
            continue
        out = out + s[i]
    return out


def h_wash(ctx):
    fn = ctx.get("refextract.references.text:wash_and_repair_reference_line")
    s = ctx.choice("pre", ("qk", "q\"")) + ctx.string("s", 4, 4, "q \t\",") + ctx.choice("post", ("kz", "\"z"))
    r = ctx.call(fn, s)
    ctx.observe("in", s)
    ctx.observe("out", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    ctx.check(r.value == collapse(quotes(s)), "washed line")


def misc_is(ctx, line, exp, label):
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok and len(r.value[0]) == 1, "one reference")
    if r.ok and len(r.value[0]) == 1:
        ctx.check(eq(r.value[0][0].get("misc"), [exp]), label, detail=[r.value[0][0], exp])


def h_misc(ctx):
    """text without any recognised item comes out with repaired spacing, nothing else changed"""
    s = "qk" + ctx.string("s", 3, 3, "q \t,.][") + "kz"
    misc_is(ctx, s, punctuation(collapse(s)), "only spacing is repaired")


def h_spaces(ctx):
    """white space of every amount and kind"""
    s = "qk" + ctx.string("a", 1, 3, WS) + "z" + ctx.string("b", 0, 2, WS) + ctx.choice("p", (",", ".", "]", "(", "-")) + \
        ctx.string("c", 0, 2, " \t") + "kz"
    misc_is(ctx, s, punctuation(collapse(s)), "only spacing is repaired")


def h_chars(ctx):
    """every other character survives"""
    s = "qk" + ctx.string("s", 2, 2, "qQ7()-+=/*&%$#@!?'`~^|{}_\u00e9\u00df\u03b1\u4e2d") + "kz"
    misc_is(ctx, s, s, "characters survive")


def h_hyphens(ctx):
    """hyphen variants become hyphens"""
    c = ctx.char("c", "\u02d7\u0335\u0336\u2212-\ufe63\uff0d")
    misc_is(ctx, "qk" + c + "kz", "qk-kz", "hyphen variants become a hyphen")


def h_undesirable(ctx):
    """control characters and bad encodings vanish, ligatures and quotes are replaced"""
    c, e = ctx.choice("c", (("\u2028", ""), ("\ufeff", ""), ("\u202a", ""), ("\u206f", ""), ("\ufb01", "fi"),
                            ("\ufb03", "ffi"), ("\u2013", "-")))
    w = "q" + ctx.string("w", 2, 2, "kqz")
    misc_is(ctx, w + c + "zk", w + e + "zk", "undesirable characters are replaced")


def h_title(ctx):
    """the comma inside the closing quote does not become part of the title"""
    t = "q" + ctx.string("t", 2, 3, "kqz ,")
    ctx.assume(t[-1] != " " and t[-1] != ",")
    ctx.assume("  " not in t and " ," not in t)
    c = ctx.choice("c", (",", ""))
    line = '"' + t + c + '"' + ctx.choice("end", (" zzk", ", zzk"))
    one(ctx, line, {"title": [t], "misc": ["zzk"]}, "title without the comma")


URL = "http://qk.zz/ab/cd.html"


def h_url(ctx):
    """spaces inside a broken URL are removed"""
    u = ctx.choice("u", ("http://qk.zz/ab/cd.html", "ftp://qk.zz/ab/cd.pdf"))
    x = ctx.string("x", 2, 2, "abz_7")
    u = u.replace("ab", "a" + x)
    n = len(u)
    i = ctx.choice("i", tuple(range(1, 25)))
    ctx.assume(i < n)
    line = u[:i] + " " + u[i:]
    w = ctx.choice("w", ("", "qkz, "))
    e = {"url": [u]}
    if w:
        e["misc"] = ["qkz"]
    one(ctx, w + line, e, "URL without the spaces")


def h_url2(ctx):
    """two gaps"""
    i = ctx.choice("i", tuple(range(1, 12)))
    j = ctx.choice("j", tuple(range(12, len(URL))))
    one(ctx, URL[:i] + " " + URL[i:j] + " " + URL[j:], {"url": [URL]}, "URL without the spaces")


EXT = ("htm", "html", "txt", "php", "asp", "jsp", "py", "pl", "xml", "jpg", "gif", "mov", "swf", "pdf", "ps", "doc", "tex",
       "shtml")


def h_url_ext(ctx):
    """the end of a file name is put together, the text after it left alone"""
    x = ctx.choice("x", EXT)
    f = "c" + ctx.char("c", "abz_7")
    i = ctx.choice("i", tuple(range(0, 5)))
    ctx.assume(i < len(x))
    two = ctx.choice("dirs", ("", "ab/"))
    d = "." if i else ctx.choice("dot", (".", ". "))
    word = ctx.choice("open", ("", "(", "[")) + ctx.char("w", LOWER) + "qkz"
    # nothing but the extension is broken here, and the text after it is no part of it
    one(ctx, "http://qk.zz/" + two + f + d + x[:i] + (" " if i else "") + x[i:] + " " + word + ", zzk",
        {"url": ["http://qk.zz/" + two + f + "." + x], "misc": [word + ", zzk"]}, "file name put together, text after it kept")


def h_url_many(ctx):
    """many gaps in one part of the URL"""
    part = ctx.choice("part", ("host", "dir", "file"))
    n = ctx.choice("n", (2, 3, 4, 6))
    w = "qkzab" + ctx.char("c", "kz7") + "w"
    g = ctx.choice("gap", (" ", "  "))
    broken = g.join(w[:n + 1]) + w[n + 1:]
    d = {"host": "q", "dir": "ab", "file": "cd"}
    plain, spaced = dict(d), dict(d)
    plain[part], spaced[part] = w, broken
    u = "http://%(host)s.zz/%(dir)s/%(file)s.html"
    one(ctx, u % spaced + ", zzk", {"url": [u % plain], "misc": ["zzk"]}, "URL without the spaces")


def h_url_tail(ctx):
    """at the end of the line up to ten characters after the last slash are put together"""
    n = ctx.choice("n", (2, 5, 9, 10, 11, 12))
    t = "a" + ctx.char("c", "bkz7") + "bcdefghijkl"
    t = t[:n]
    i = ctx.choice("i", (0, 1, 5, 9))
    ctx.assume(i < n)
    two = ctx.choice("dirs", ("", "ab/"))
    s = ctx.choice("s", ("http", "ftp"))
    base = s + "://qk.zz/" + two
    if n <= 10:
        e = {"url": [base + t]}
    else:
        e = {"url": [base + t[:i]], "misc": [t[i:]]}
    one(ctx, base + t[:i] + " " + t[i:], e, "end of the line")


def h_washline(ctx):
    fn = ctx.get("refextract.documents.text:wash_line")
    s = "q" + ctx.string("s", 4, 4, "q ,;][") + "z"
    ctx.assume("  " not in s)
    r = ctx.call(fn, s)
    ctx.observe("in", s)
    ctx.observe("out", r.value if r.ok else r.exc_name)
    ctx.check(r.ok and r.value == punctuation(s), "punctuation repaired, nothing else")


HARNESSES = [
    Harness("wash", h_wash, "4 symbolic characters of 5 inside 2x2 contexts",
            needs=("refextract.references.text:wash_and_repair_reference_line",)),
    Harness("misc", h_misc, "3 symbolic characters of 7"),
    Harness("spaces", h_spaces, "1-3, 0-2 and 0-2 white space characters around 5 marks"),
    Harness("chars", h_chars, "2 symbolic characters of 29"),
    Harness("hyphens", h_hyphens, "7 hyphen characters"),
    Harness("undesirable", h_undesirable, "7 characters"),
    Harness("title", h_title, "quoted title of 3-4 characters"),
    Harness("url", h_url, "one space at every position of 2 URLs"),
    Harness("url2", h_url2, "two gaps"),
    Harness("url_ext", h_url_ext, "18 file types, broken at each place, symbolic letter of the word after"),
    Harness("url_many", h_url_many, "2-6 gaps of 1-2 spaces in host, directory or file name"),
    Harness("url_tail", h_url_tail, "2-12 characters after the last slash at the end of the line, broken at 4 places"),
    Harness("washline", h_washline, "4 symbolic characters of 6", needs=("refextract.documents.text:wash_line",)),
]
