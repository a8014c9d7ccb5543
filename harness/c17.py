"""C17 statistics are sums over the lines."""
from hx_common import *

KINDS = ("reportnum", "title", "author", "url", "doi", "misc")


def item(ctx, i, k):
    d = ctx.string("d%s" % i, 2, 2, DIGITS)
    if k == "title":
        return "Phys. Rev. " + d + " (1996) 65"
    if k == "reportnum":
        return "DESY-98-1" + d
    if k == "arxiv":
        return "hep-th/99010" + d
    if k == "url":
        return "http://qk.zz/a" + d
    if k == "doi":
        return "doi:10.1103/a" + d
    if k == "author":
        return "A. B" + ctx.string("n%s" % i, 2, 2, "cdfg")
    return "qkz" + ctx.char("w%s" % i, "kqz")


def check_stats(ctx, lines, exp, **kw):
    r = parse(ctx, lines, **kw)
    ctx.observe("lines", lines)
    ctx.observe("stats", {k: r.value[1].get(k) for k in KINDS} if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        st = r.value[1]
        got = {k: st.get(k) for k in KINDS}
        ctx.check(eq(got, exp), "statistics are the sums", detail=[got, exp])
        ctx.check(st.get("status") == 0, "status")
        ctx.check(st.get("old_stats_str") == "-".join(["0"] + [str(exp[k]) for k in KINDS]), "summary string", detail=st)


def zero():
    return {k: 0 for k in KINDS}


def h_line(ctx):
    """items of one line"""
    n = ctx.choice("n", (0, 1, 2, 3))
    exp = zero()
    parts = []
    for i in range(n):
        kinds = ("title", "reportnum", "url", "doi", "misc")
        if i == 0 and n > 1:
            # a line that is nothing but a name is not taken as author
            kinds = ("author",) + kinds
        k = ctx.choice("k%d" % i, kinds if i < 2 else ("title", "doi", "misc"))
        parts.append((k, item(ctx, i, k)))
        if k != "misc":
            exp[k] = exp[k] + 1
    # a URL is glued to a word that follows it: keep them apart by a semicolon
    line = ""
    for i, (k, t) in enumerate(parts):
        line = line + ("; " if i else "") + t
    if parts and parts[-1][0] == "misc":
        exp["misc"] = 1
    check_stats(ctx, [line], exp)


TEMPLATES = (
    ("Phys. Rev. %s (1996) 65", {"title": 1}),
    ("A. Bcdef, DESY-98-1%s, qkz", {"author": 1, "reportnum": 1, "misc": 1}),
    ("Phys. Rev. %s (1996) 65; JHEP 05 (1998) 012, doi:10.1103/ab", {"title": 2, "doi": 1}),
    ("http://qk.zz/a%s", {"url": 1}),
    ("http://arxiv.org/abs/1201.00%s, doi:10.1103/ab, doi:10.1103/ab", {"url": 1, "doi": 2}),
    ("qk%s", {"misc": 1}),
    ("", {}),
)


def h_lines(ctx):
    """several lines"""
    n = ctx.choice("n", (0, 1, 2, 3))
    exp = zero()
    lines = []
    for i in range(n):
        t, c = TEMPLATES[ctx.choice("t%d" % i, tuple(range(len(TEMPLATES))) if i < 2 else (0, 2, 5))]
        lines.append(t % ctx.string("d%d" % i, 2, 2, DIGITS) if "%s" in t else t)
        for k, v in c.items():
            exp[k] = exp[k] + v
    check_stats(ctx, lines, exp)


def h_titles(ctx):
    """non-standard titles of several lines add up"""
    n = ctx.choice("n", (1, 2, 3))
    names = ("Phys Rev", "Phys Lett", "Nucl Phys")
    lines, exp = [], {}
    for i in range(n):
        line = ""
        for j in range(ctx.choice("m%d" % i, (1, 2))):
            t = names[ctx.choice("t%d.%d" % (i, j), (0, 1) if n > 2 else (0, 1, 2))]
            line = line + ("; " if j else "") + t + " " + ctx.string("d%d.%d" % (i, j), 2, 2, DIGITS) + " (1996) 65"
            exp[t.upper()] = exp.get(t.upper(), 0) + 1
        lines.append(line)
    kb = ctx.get("refextract.references.kbs:get_kbs")(custom_kbs=kbs())
    r = ctx.call(ctx.get(ENG + ":parse_references_elements"), lines, kb, None)
    ctx.observe("lines", lines)
    ctx.check(r.ok, "no exception")
    if r.ok:
        ctx.observe("titles", r.value[2])
        ctx.check(eq(r.value[2], exp), "title counts add up over lines", detail=[r.value[2], exp])
        ctx.check(r.value[1]["title"] == sum(exp.values()), "journal count")


def h_tail(ctx):
    """text of any length after the last item counts once, punctuation alone does not"""
    t = ctx.string("t", 0, 4, " .,;q")
    head, exp = ctx.choice("head", (("Phys. Rev. 53 (1996) 65", {"title": 1}), ("DESY-98-123", {"reportnum": 1}),
                                    ("doi:10.1103/ab", {"doi": 1}), ("", {})))
    want = dict(zero(), **exp)
    want["misc"] = 1 if "q" in t else 0
    check_stats(ctx, [head + " " + t if head else t], want)


HARNESSES = [
    Harness("tail", h_tail, "0-4 characters among blank, punctuation and a letter after 4 kinds of item"),
    Harness("line", h_line, "0-3 items of 6 kinds in one line, digits and letters symbolic"),
    Harness("lines", h_lines, "0-3 lines of 6 kinds"),
    Harness("titles", h_titles, "1-3 lines with 1-2 journals of 3",
            needs=(ENG + ":parse_references_elements", "refextract.references.kbs:get_kbs")),
]
