"""C04 page breaks, headers and footers."""
from hx_common import *

RM = "refextract.documents.text:remove_page_boundary_lines"


def run(ctx, lines, want, label):
    ctx.observe("document", lines)
    r = ctx.call(ctx.get(RM), list(lines))
    ctx.observe("result", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(list(r.value), want), label, detail=[r.value, want])


def heads(ctx, h, page, eol, alt, up):
    """header of a page: a title with page number, a running head, a blank line"""
    n = ctx.char("n%d" % page, DIGITS)
    run_head = "Physics of Qk" if not (alt and page % 2) else "A. Author " + n + " zz"
    lines = ["Title " + n + n, run_head.upper() if up and page == 2 else run_head, " " + eol]
    return [l + (eol if l.strip() else "") for l in lines[:h]]


def feet(ctx, f, page, eol):
    n = ctx.char("m%d" % page, DIGITS)
    lines = ["1" + n + eol, "Preprint Q " + n + eol, " " + eol]
    return list(reversed(lines[:f]))


def build(ctx, breaks, h, f, bodies, eol, brk, alt=False, up=False):
    """pages separated by page breaks; bodies[i]: number of body lines of page i (page 0 before the first break)"""
    lines, want = [], []
    short = False
    strip_h = h if breaks >= 4 else 0
    strip_f = f if breaks >= 3 else 0
    for i in range(breaks + 1):
        hd = heads(ctx, h, i, eol, alt, up) if i > 0 else []
        ft = feet(ctx, f, i, eol)
        # the number of words makes body lines of different pages differ
        body = ["b" + ctx.char("b%d.%d" % (i, j), "k1-") + " w" * (4 * i + j + 3) + eol for j in range(bodies[i])]
        last = i == breaks
        page = hd + body + (ft if not last else [])
        if 0 < i < breaks and len(page) - strip_h - strip_f < 1:
            short = True
        lines += page
        kept = list(page)
        if i > 0 and not last:
            kept = kept[strip_h:]
        if 0 < i < breaks and strip_f:
            kept = kept[:len(kept) - strip_f]
        want += kept
        if not last:
            lines.append(brk + eol)
    # a single page break delimits no page
    if breaks < 2 or short:
        want = list(lines)
    return lines, want


def h_pages(ctx):
    """0-6 page breaks, headers and footers of 0-2 lines"""
    k = ctx.choice("breaks", (0, 1, 2, 3, 4, 5, 6))
    h, f = ctx.choice("h", (0, 1, 2)), ctx.choice("f", (0, 1, 2))
    b = ctx.choice("body", (1, 2))
    eol = ctx.choice("eol", ("", "\n"))
    end = ctx.choice("end", (0, 1))        # lines after the last page break
    lines, want = build(ctx, k, h, f, [b] * k + [end], eol, "\f")
    if end == 0 and k:
        # nothing, not even a header, after the last break
        n = h
        if n:
            lines, want = lines[:len(lines) - n], want[:len(want) - n]
    run(ctx, lines, want, "only page breaks, repeated headers and footers go")


def h_short(ctx):
    """a page without body, or the shortest possible one: nothing is removed if it would be consumed"""
    k = ctx.choice("breaks", (2, 3, 4, 5))
    h, f = ctx.choice("h", (0, 1, 2)), ctx.choice("f", (0, 1))
    p = ctx.choice("page", (0, 1, 2, 3))
    ctx.assume(p <= k)
    bodies = [2] * (k + 1)
    bodies[p] = ctx.choice("body", (0, 1))
    lines, want = build(ctx, k, h, f, bodies, "", ctx.choice("brk", ("\f", " \f", "\f ")))
    run(ctx, lines, want, "a page that would vanish keeps the document unchanged")


def h_alternating(ctx):
    """headers alternate between odd and even pages, one is written in another case"""
    k = ctx.choice("breaks", (5, 6, 7))
    h, f = ctx.choice("h", (1, 2, 3)), ctx.choice("f", (0, 1, 3))
    lines, want = build(ctx, k, h, f, [2] * (k + 1), "\n", "\f", alt=True, up=ctx.choice("up", (False, True)))
    run(ctx, lines, want, "alternating headers go")


def h_none(ctx):
    """a document without page breaks or without text is unchanged"""
    n = ctx.choice("n", (0, 1, 3))
    lines = [ctx.string("l%d" % i, 0, 2, " \nq") for i in range(n)]
    if ctx.choice("blank", (False, True)):
        lines = [" ", "\f", "  ", "\f", " \n", "\f"]
    run(ctx, lines, list(lines), "unchanged")


def h_first_body(ctx):
    """a body line is a header only if it is repeated on all compared pages"""
    k = ctx.choice("breaks", (4, 6))
    a = [ctx.char("a%d" % i, "kq") for i in range(k + 1)]
    lines, want = [], []
    cmp_ = list(range(1, k - 1, 2 if k - 1 > 3 else 1))
    same = all([eq(a[i + 1], a[cmp_[0] + 1]) for i in cmp_])
    for i in range(k + 1):
        first = "x" + a[i]
        body = ["b" + " w" * (i + 3)]
        page = [first] + body
        lines += page
        want += page[1:] if same and 0 < i < k else page
        if i < k:
            lines.append("\f")
    run(ctx, lines, want, "header only if repeated")


def h_similar(ctx):
    """lines count as repeated when nine of ten words agree in first and last letter, or are both numbers"""
    n = ctx.choice("words", (1, 2, 9, 10))
    where = ctx.choice("where", ("head", "foot"))
    k = 4
    ref = ["x" + "a" * i + "y" for i in range(n)]
    other, agree = list(ref), n
    for i in range(min(n, 2)):
        kind = ctx.choice("w%d" % i, ("letters", "number", "both numbers"))
        if kind == "letters":
            a, b = ctx.char("a%d" % i, "xXq"), ctx.char("z%d" % i, "yYq")
            other[i] = a + "qk" + b
            if a == "q" or b == "q":
                agree = agree - 1
        else:
            other[i] = ctx.string("n%d" % i, 1, 2, DIGITS)
            if kind == "both numbers":
                ref[i] = "12"
            else:
                agree = agree - 1
    extra = ctx.choice("extra", (False, True))
    rep = agree * 10 >= 9 * n and not extra
    lines, want = [], []
    for i in range(k + 1):
        line = " ".join(other + (["more"] if extra else []) if i == 2 else ref)
        body = ["b" + " w" * (4 * i + 20)]
        page = [line] + body if where == "head" else body + [line]
        lines += page
        gone = rep and 0 < i < k
        want += body if gone else page
        if i < k:
            lines.append("\f")
    run(ctx, lines, want, "repeated lines are recognised by their words")


LINES = (" ", " \n", "Qk zz", "qk-zz", "7-7", "Qk, zz.", "qk", "77", "Vol. 7-8", "Vol. 9-8")


def words(s):
    out, cur = [], ""
    for c in s + " ":
        if c.isalnum() or c == "-":
            cur = cur + c
        elif cur:
            out.append(cur)
            cur = ""
    return out


def repeated(a, b):
    x, y = words(a), words(b)
    if not a.strip():
        return not b.strip()
    if len(x) != len(y) or not x:
        return False
    n = 0
    for u, v in zip(x, y):
        if (u.isdigit() and v.isdigit()) or (u[0].lower() == v[0].lower() and u[-1].lower() == v[-1].lower()):
            n = n + 1
    return n * 10 >= 9 * len(x)


def h_blank(ctx):
    """blank lines, hyphenated words and words with punctuation in headers and footers"""
    where = ctx.choice("where", ("head", "foot"))
    a, b = ctx.choice("a", LINES), ctx.choice("b", LINES)
    k = ctx.choice("breaks", (4, 5))
    odd = ctx.choice("odd", (2, 3)) if where == "foot" or k == 4 else ctx.choice("odd", (2, 4))
    rep = repeated(a, b) if odd != 2 or where == "foot" else repeated(b, a)
    lines, want = [], []
    inner = ctx.choice("inner", ((), ("Zk kq",), (" ",), (" ", "Zk kq")))
    for i in range(k + 1):
        line = b if i == odd else a
        body = ["b" + " w" * (4 * i + 20)]
        page = [line] + list(inner) + body if where == "head" else body + list(inner) + [line]
        lines += page
        want += body if rep and 0 < i < k else page
        if i < k:
            lines.append("\f")
    run(ctx, lines, want, "repeated lines are recognised")


HARNESSES = [
    Harness("blank", h_blank, "header or footer from 10 lines (blank, hyphenated, numbers), one page with another of them; 0-2 more lines repeated on every page", needs=(RM,)),
    Harness("similar", h_similar, "header or footer of 1-10 words, two of which are symbolic on one page", needs=(RM,)),
    Harness("pages", h_pages, "0-6 page breaks, header and footer of 0-2 lines with symbolic page numbers, 1-2 body lines with "
            "symbolic characters, 0-1 after the last break, line ends kept or not", needs=(RM,)),
    Harness("short", h_short, "2-5 page breaks, one page with 0 or 1 body lines", needs=(RM,)),
    Harness("alternating", h_alternating, "5-7 page breaks, headers that alternate, header 1-3 and footer 0-3 lines", needs=(RM,)),
    Harness("none", h_none, "up to 3 lines of up to 2 characters without page break; blank document with page breaks", needs=(RM,)),
    Harness("first_body", h_first_body, "4 or 6 page breaks, a symbolic first line on every page", needs=(RM,)),
]
