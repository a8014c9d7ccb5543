"""C27 the journal reference of a line."""
from hx_common import *

JR = API + ":extract_journal_reference"


def journal(ctx, name, titles, vary):
    t, std = ctx.choice(name + "t", titles)
    v = ctx.string(name + "v", 1 if vary else 2, 2, DIGITS)
    p = ctx.string(name + "p", 1 if vary else 2, 3 if vary else 2, DIGITS)
    y = "19" + ctx.string(name + "y", 2, 2, DIGITS)
    lay = ctx.choice(name + "l", ("%(t)s %(v)s (%(y)s) %(p)s",) if not vary else ("%(t)s %(v)s (%(y)s) %(p)s", "%(t)s %(v)s, %(p)s (%(y)s)"))
    return lay % {"t": t, "v": v, "y": y, "p": p}, [std, v, y, p]


def slots(el):
    return None if el is None else [el.get("title"), el.get("volume"), el.get("year"), el.get("page")]


TITLES = (("Phys. Rev.", "Phys.Rev."), ("Nucl. Phys.", "Nucl.Phys."), ("Phys. Rev. Lett.", "Phys.Rev.Lett."))


def h_first(ctx):
    """the first journal of the line, wherever it stands, is the result; none when there is none"""
    pre = ctx.choice("pre", ("", "see ", "A. Smith, ", "[1] ", "A. Smith, qk; B. Jones, ", "doi:10.1000/123 ", "DESY-98-122, ",
                             '"Zkq qzk", ', "qkz; zzq; ", "http://qk.ch/zq ", "Phys. Rev., "))
    n = ctx.choice("n", (0, 1, 2, 3))
    js, texts = [], []
    for i in range(n):
        text, want = journal(ctx, "j%d" % i, TITLES[:1] if i == 2 else TITLES[1:2] if i else TITLES, n == 1)
        texts.append(text)
        js.append(want)
    sep = ctx.choice("sep", ("; ", ", ", " and ") if n == 2 else ("; ",)) if n > 1 else ""
    post = ctx.choice("post", ("", ".", "; qkz zzq", " and qk") if n < 2 else ("", "; qkz zzq"))
    line = pre + sep.join(texts) + post
    r = ctx.call(ctx.get(JR), line, override_kbs_files=kbs())
    ctx.observe("line", line)
    ctx.observe("journal", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        want = js[0] if js else None
        ctx.check(eq(slots(r.value), want), "the first journal of the line", detail=[r.value, want])
        if want:
            ctx.check(eq(r.value.get("type"), "JOURNAL"), "its type is told", detail=r.value)


def piece(ctx, name):
    k = ctx.choice(name, ("text", "author", "journal", "bare title", "ibid", "report", "doi", "quoted", "special", "year", "numbers", "noyear"))
    d = ctx.string(name + "d", 2, 2, DIGITS)
    return {"text": "qkz zq", "author": "A. Smith", "journal": "Phys. Rev. D " + d + " (1996) 65", "bare title": "Phys. Lett.",
            "ibid": "ibid. " + d + " (1997) 7", "report": "DESY-98-1" + d, "doi": "doi:10.1000/1" + d, "quoted": '"Zkq qzk"',
            "special": "JHEP 04" + d + " (2004) 015", "year": "(19" + d + ")", "numbers": d + " (1999) 12", "noyear": "Phys. Lett. " + d + ", 65"}[k]


def h_agree(ctx):
    """the result is the journal of the first reference of the line that has one"""
    line = piece(ctx, "a") + ctx.choice("s1", (", ", "; ")) + piece(ctx, "b") + "; " + piece(ctx, "c")
    r = ctx.call(ctx.get(JR), line, override_kbs_files=kbs())
    q = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("journal", r.value if r.ok else r.exc_name)
    ctx.observe("references", q.value[0] if q.ok else q.exc_name)
    ctx.check(r.ok and q.ok, "no exception", detail=[r.exc_name, q.exc_name])
    if r.ok and q.ok:
        want = None
        for ref in q.value[0]:
            if "journal_title" in ref:
                want = [ref["journal_title"][0], ref["journal_volume"][0], (ref.get("journal_year") or [""])[0], ref["journal_page"][0]]
                break
        ctx.check(eq(slots(r.value), want), "the journal of the first reference that has one", detail=[r.value, want])


def h_kb(ctx):
    """the titles are those of the knowledge base of this call"""
    d = ctx.string("d", 1, 2, DIGITS)
    small_defaults(ctx)
    fn = ctx.get(JR)
    mine = {"QK ZZQ": "Qk.Z."}
    calls = []
    for i in range(3):
        how = ctx.choice("how%d" % i, ("mine", "default", "empty", "kbs"))
        t = ctx.choice("t%d" % i, ("Qk Zzq", "Phys. Lett."))
        line = t + " " + d + " (1996) 65"
        args = {"mine": {"override_kbs_files": {"journals": mine}}, "default": {}, "empty": {"override_kbs_files": {}},
                "kbs": {"override_kbs_files": {"journals": mine, "publishers": [("Qq", "Qq")]}}}[how]
        r = ctx.call(fn, line, **args)
        calls.append([how, line, r.value if r.ok else r.exc_name])
        ctx.check(r.ok, "no exception", detail=r.exc_name)
        if r.ok:
            own = how in ("mine", "kbs")
            want = None
            if own == (t == "Qk Zzq"):
                want = ["Qk.Z." if own else "Phys.Lett.", d, "1996", "65"]
            ctx.observe("calls", calls)
            ctx.check(eq(slots(r.value), want), "titles of the knowledge base of the call", detail=[calls, want])


def h_any(ctx):
    """text without any title of the knowledge base has no journal reference"""
    s = ctx.string("s", 0, 3, "aQ1 (.;")
    line = ctx.choice("pre", ("", "A. Smith ")) + s + ctx.choice("post", ("", " 53 (1996) 65"))
    r = ctx.call(ctx.get(JR), line, override_kbs_files=kbs())
    ctx.observe("line", line)
    ctx.observe("journal", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(r.value is None, "no journal without a title", detail=r.value)


HARNESSES = [
    Harness("first", h_first, "0-3 journals (the first in 2 layouts) with symbolic volume (1-2 digits), year and page (1-3 digits), 11 kinds of "
            "text before, 3 separators, 4 endings", needs=(JR,)),
    Harness("agree", h_agree, "three pieces of 11 kinds with symbolic digits, joined by comma or semicolon and by semicolon; compared with parse_references",
            needs=(JR,)),
    Harness("kb", h_kb, "three calls with own, default, empty or further knowledge bases, two titles", needs=(JR,)),
    Harness("any", h_any, "0-3 symbolic characters, author before, numeration after", needs=(JR,)),
]
