"""C15 one author group, DOI, collaboration and record per reference."""
from hx_common import *


def refs_of(ctx, line, **kw):
    r = parse(ctx, [line], **kw)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    return r.value[0] if r.ok else []


MID = ("Phys. Rev. 53 (1996) 65", "hep-th/9901001", "DESY-98-123", '"qzk zzk"')


def h_authors(ctx):
    """a second author group later in the same reference"""
    a = ctx.char("a", "ABCG") + ". " + "B" + ctx.string("b", 3, 3, "cdfg")
    c = ctx.char("c", "ABCG") + ". " + "H" + ctx.string("d", 3, 3, "cdfg")
    m = ctx.choice("m", MID)
    w = ctx.choice("w", ("", "q" + ctx.string("x", 2, 2, "kqz")))
    t = ctx.choice("t", ("", ", qkz"))
    refs = refs_of(ctx, a + ", " + m + ", " + (w + ", " if w else "") + c + t)
    ctx.check(len(refs) == 1, "one reference")
    if len(refs) == 1:
        f = refs[0]
        ctx.check(eq(f.get("author"), [a]), "first author group only", detail=f)
        misc = f.get("misc") or []
        ctx.check(any(c in x for x in misc), "later authors kept as text", detail=f)
        ctx.check(not w or any(w in x for x in misc), "text before them kept", detail=f)


def h_three_authors(ctx):
    n = ["A. B" + ctx.string("a", 2, 2, "cdfg"), "G. H" + ctx.string("b", 2, 2, "cdfg"),
         "M. N" + ctx.string("c", 2, 2, "cdfg")]
    refs = refs_of(ctx, n[0] + ", Phys. Rev. 53 (1996) 65, " + n[1] + ", DESY-98-123, " + n[2] + ", qkz")
    ctx.check(len(refs) == 1, "one reference")
    if len(refs) == 1:
        f = refs[0]
        ctx.check(eq(f.get("author"), [n[0]]), "first author group only", detail=f)
        text = " | ".join(f.get("misc") or [])
        i, j = text.find(n[1]), text.find(n[2])
        ctx.check(i >= 0 and j > i, "later authors kept as text, in order", detail=f)


def h_collab(ctx):
    """each collaboration listed once, in the order of the line"""
    n = ctx.choice("n", (2, 3))
    names = [ctx.choice("c%d" % i, ("ATLAS", "CMS")) for i in range(n)]
    sep = ctx.choice("s", (", ", ". "))
    exp = []
    for x in names:
        if x not in exp:
            exp.append(x)
    v = ctx.string("v", 2, 2, DIGITS)
    refs = refs_of(ctx, sep.join(names) + ", Phys. Rev. " + v + " (1996) 65")
    ctx.check(len(refs) == 1, "one reference")
    if len(refs) == 1:
        ctx.check(eq(refs[0].get("collaboration"), exp), "each collaboration once", detail=refs[0])
        ctx.check(eq(refs[0].get("journal_volume"), [v]), "journal in the same reference", detail=refs[0])


def h_collab_text(ctx):
    """the text between two mentions of a collaboration is kept"""
    x, y = ctx.choice("c0", ("ATLAS", "CMS")), ctx.choice("c1", ("ATLAS", "CMS"))
    w = "q" + ctx.string("w", 2, 2, "kqz")
    t = ctx.choice("t", ("", ", zzq"))
    refs = refs_of(ctx, x + ", " + w + ", " + y + ", Phys. Rev. 53 (1996) 65" + t)
    ctx.check(len(refs) == 1, "one reference")
    if len(refs) == 1:
        ctx.check(eq(refs[0].get("collaboration"), [x] if x == y else [x, y]), "each once", detail=refs[0])
        ctx.check(eq(refs[0].get("misc"), [w] + (["zzq"] if t else [])), "text kept", detail=refs[0])


def h_doi(ctx):
    """never two DOIs in one reference, none lost"""
    n = ctx.choice("n", (2, 3))
    d = ["10.1103/" + ctx.string("d%d" % i, 2, 2, "abc01") for i in range(n)]
    pre = ctx.choice("pre", ("", "A. Bcdef, ", "Phys. Rev. 53 (1996) 65, "))
    refs = refs_of(ctx, pre + ", ".join(["doi:" + x for x in d]))
    ctx.check(len(refs) == n, "one reference per DOI", detail=refs)
    if len(refs) == n:
        for i in range(n):
            ctx.check(eq(refs[i].get("doi"), ["doi:" + d[i]]), "one DOI each", detail=refs)


KINDS = ("AUTH", "REPORTNUMBER", "JOURNAL", "DOI")


def make_linker(ctx, kinds, seen):
    """linker whose outcome per kind of element is symbolic"""
    out = {}
    for k in kinds:
        o = ctx.choice("o" + k, ("none", "key", "index", "id", "int"))
        out[k] = (o, "1" + ctx.string("id" + k, 2, 2, DIGITS) if o == "id" else 207 if o == "int" else None)

    def linker(el):
        seen.append(el["type"])
        o, v = out.get(el["type"], ("none", None))
        if o == "key":
            raise KeyError("x")
        if o == "index":
            raise IndexError("x")
        return v
    return linker, out


def h_linker(ctx):
    seen = []
    linker, out = make_linker(ctx, KINDS, seen)
    refs = refs_of(ctx, "A. Bcdef, hep-th/9901001, Phys. Rev. 53 (1996) 65, doi:10.1103/abc", linker_callback=linker)
    exp = None
    for k in KINDS:
        if exp is None and out[k][0] in ("id", "int"):
            exp = ["207" if out[k][0] == "int" else out[k][1]]
        ctx.check(k in seen, "every recognised item offered to the linker", detail=[k, seen])
    ctx.check(len(refs) == 1, "one reference")
    if len(refs) == 1:
        ctx.check(eq(refs[0].get("recid"), exp), "first record found and only it", detail=[refs[0], exp])


def h_linker_split(ctx):
    """several papers in a line: each has its own record"""
    ids = []
    for i in range(2):
        ids.append(ctx.choice("o%d" % i, (None, "id", "err")))
    v = [ctx.string("v%d" % i, 2, 2, DIGITS) for i in range(2)]
    ctx.assume(v[0] != v[1])
    k = ctx.choice("k", ("full", "implied", "ibid"))

    def linker(el):
        if el["type"] == "JOURNAL":
            for i in range(2):
                if el["volume"] == v[i]:
                    if ids[i] == "err":
                        return {}["no"]
                    return ids[i] and "7" + v[i]
        return None
    line = "Phys. Rev. " + v[0] + " (1996) 65; " + {"full": "Phys. Rev. ", "implied": "", "ibid": "ibid. "}[k] + \
        v[1] + " (1997) 66"
    refs = refs_of(ctx, line, linker_callback=linker)
    ctx.check(len(refs) == 2, "two references")
    if len(refs) == 2:
        for i in range(2):
            ctx.check(eq(refs[i].get("recid"), ["7" + v[i]] if ids[i] == "id" else None), "own record", detail=refs)


def h_linker_books(ctx):
    """books found in the text of any paper of the line are offered to the linker, too"""
    y = "19" + ctx.string("y", 2, 2, DIGITS)
    pos = ctx.choice("pos", ("alone", "first", "last"))
    o = ctx.choice("o", (None, "id", "err"))

    def linker(el):
        if el["type"] == "BOOK":
            if o == "err":
                raise IndexError("x")
            return o and "7" + el["year"]
        return None
    book, j = "Q. Qqqq, Zzqv qvzz qqv, " + y, "B. Jones, Phys. Rev. 53 (1996) 65"
    line = {"alone": book, "first": book + "; " + j, "last": j + "; " + book}[pos]
    refs = refs_of(ctx, line, linker_callback=linker, kbs=kbs(books=(("Q. Qqqq", "Zzqv qvzz qqv", y + ";"),)))
    ctx.check(len(refs) == (1 if pos == "alone" else 2), "one reference per paper", detail=refs)
    for f in refs:
        ctx.check(eq(f.get("recid"), ["7" + y] if o == "id" and f.get("author") == ["Q. Qqqq"] else None), "the book has its record", detail=refs)


def h_linker_fields(ctx):
    """what the linker is given"""
    v, p = ctx.string("v", 2, 2, DIGITS), ctx.string("p", 3, 3, DIGITS)
    got = []

    def linker(el):
        got.append(dict(el))
        return None
    refs_of(ctx, "JHEP " + v + " (1998) " + p + ", hep-th/9901001", linker_callback=linker)
    j = [e for e in got if e["type"] == "JOURNAL"]
    r = [e for e in got if e["type"] == "REPORTNUMBER"]
    ctx.check(len(j) >= 1 and len(r) >= 1, "items offered")
    for e in j:
        ctx.check(eq([e["title"], e["volume"], e["year"], e["page"]], ["JHEP", "98" + v, "1998", p]),
                  "standardised journal offered", detail=e)
    for e in r:
        ctx.check(eq(e["report_num"], "hep-th/9901001"), "report number offered", detail=e)


def h_none(ctx):
    """no linker, or nothing found: no record field"""
    w = ctx.choice("w", (None, lambda el: None, lambda el: 0, lambda el: ""))
    refs = refs_of(ctx, "A. Bcdef, Phys. Rev. " + ctx.string("v", 2, 2, DIGITS) + " (1996) 65", linker_callback=w)
    ctx.check(all("recid" not in f for f in refs), "no record")


HARNESSES = [
    Harness("linker_books", h_linker_books, "a known book of symbolic year alone, before or after another paper; linker finds it, not, or fails"),
    Harness("authors", h_authors, "two author groups of symbolic letters around 4 kinds of items"),
    Harness("three_authors", h_three_authors, "three author groups"),
    Harness("collab", h_collab, "2-3 collaborations"),
    Harness("collab_text", h_collab_text, "text of 3 symbolic letters between two mentions"),
    Harness("doi", h_doi, "2-3 DOIs with symbolic suffixes"),
    Harness("linker", h_linker, "4 items, 4 outcomes each, symbolic record ids"),
    Harness("linker_split", h_linker_split, "two papers, 3 ways to write the second, 3 outcomes each"),
    Harness("linker_fields", h_linker_fields, "digits symbolic"),
    Harness("none", h_none, "4 linkers that find nothing"),
]
