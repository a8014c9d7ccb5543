"""C21 citation keys and links stored in a PDF."""
import os

import pypdf
from pypdf import PdfReader

from hx_common import *

EXT = "refextract.references.pdf:extract_texkeys_and_urls_from_pdf"


def reader(keys, links):
    """PdfReader whose coordinates are the symbolic ones."""
    class Reader(PdfReader):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            for p, page in enumerate(self.pages):
                here = [u for u in links if u.page == p]
                for u, ann in zip(here, page.get("/Annots", [])):
                    rect = ann.get_object()["/Rect"]
                    list.__setitem__(rect, 0, u.left)
                    list.__setitem__(rect, 2, u.left)
                    list.__setitem__(rect, 3, u.top)

        @property
        def named_destinations(self):
            out = super().named_destinations
            for k in keys:
                if k.fit == "/XYZ":
                    if k.left is not None:
                        dict.__setitem__(out[k.name], "/Left", k.left)
                    if k.top is not None:
                        dict.__setitem__(out[k.name], "/Top", k.top)
            return out
    return Reader


def extract(ctx, pages, keys, links, cls=None):
    d = scratch(ctx)
    path = os.path.join(d, "a.pdf")
    with open(path, "wb") as fh:
        fh.write(pdf_document(pages, keys, links, ctx.sym))
    if ctx.sym and cls is None:
        cls = reader(keys, links)
    if cls is not None:
        m = ctx.mod("refextract.references.pdf")
        for mod in (m, pypdf):
            if hasattr(mod, "PdfReader"):
                old = mod.PdfReader
                mod.PdfReader = cls
                ctx.cleanup.append(lambda mod=mod, old=old: setattr(mod, "PdfReader", old))
    return ctx.call(ctx.get(EXT), path)


def before(a, b, columns):
    """a comes before b in reading order (decided on this path)"""
    if a.page != b.page:
        return a.page < b.page
    if columns and (a.left >= WIDTH // 2) != (b.left >= WIDTH // 2):
        return a.left < b.left
    if a.top > b.top:
        return True
    return False


def arrange(keys, links, columns):
    """[(key, urls)] in reading order"""
    order = []
    for k in keys:
        at = len(order)
        while at and before(k, order[at - 1], columns):
            at -= 1
        order.insert(at, k)
    got = [[] for _ in order]
    for u in links:
        n = 0
        while n < len(order) and not before(u, order[n], columns):
            n += 1
        if n and u.kind == "uri":
            got[n - 1].append(u.url)
    return [(k.name[5:], sorted(set(us))) for k, us in zip(order, got)]


def summary(value):
    out = []
    for d in value:
        if set(d) - {"texkey", "urls"}:
            return "unknown keys"
        out.append((str(d["texkey"]), sorted(str(u) for u in d.get("urls", ()))))
    return out


def judge(ctx, o, keys, links, columns):
    ctx.check(o.ok, "no error", o.exc_name)
    if not o.ok:
        return
    want = arrange(keys, links, columns)
    got = summary(o.value)
    ctx.observe("keys", got)
    ctx.check([k for k, _ in got] == [k for k, _ in want], "keys in reading order", (got, want))
    ctx.check(got == want, "links at their key", (got, want))
    ctx.reach("listed")


def distinct(ctx, things):
    """no two positions of the same page are at the same height"""
    for i, a in enumerate(things):
        for b in things[:i]:
            if a.page == b.page:
                ctx.assume(a.top != b.top)


def h_one_column(ctx):
    """keys and links of a one-column list over two pages, symbolic heights"""
    keys = [Key("cite." + n, ctx.choice("p" + n, (0, 1)), 72, ctx.int("y" + n, 10, 780)) for n in "ab"]
    keys.append(Key("cite.c", 1, 90, ctx.int("yc", 10, 780)))
    links = [Link("http://u/" + n, ctx.choice("q" + n, (0, 1)), ctx.choice("x" + n, (100, 400)), ctx.int("z" + n, 10, 780))
             for n in "1"]
    distinct(ctx, keys + links)
    judge(ctx, extract(ctx, 2, keys, links), keys, links, False)


def h_two_links(ctx):
    """several links, also twice to the same address"""
    keys = [Key("cite.a", 0, 72, ctx.int("ya", 10, 780)), Key("cite.b", ctx.choice("pb", (0, 1)), 72, ctx.int("yb", 10, 780))]
    links = [Link("http://u/1", 0, 100, ctx.int("z1", 10, 780)),
             Link(ctx.choice("same", ("http://u/1", "http://u/2")), ctx.choice("q2", (0, 1)), 320, ctx.int("z2", 10, 780))]
    distinct(ctx, keys + links)
    judge(ctx, extract(ctx, 2, keys, links), keys, links, False)


def h_two_columns(ctx):
    """two columns: the left one is read first"""
    left = [Key("cite.a", 0, 72, ctx.int("ya", 10, 780)), Key("cite.b", 0, 72, ctx.int("yb", 10, 780))]
    right = [Key("cite.c", 0, 320, 700), Key("cite.d", 0, 320, 500), Key("cite.e", ctx.choice("pe", (0, 1)), 320, 300)]
    ctx.assume(left[0].top > left[1].top)
    keys = right[:2] + left + right[2:]
    links = [Link("http://u/1", ctx.choice("q", (0, 1)), ctx.choice("x", (72, 200, 320, 500)), ctx.int("z", 10, 780))]
    distinct(ctx, keys + links)
    judge(ctx, extract(ctx, 2, keys, links), keys, links, True)


def h_next_page(ctx):
    """two columns continued on the next page"""
    keys = [Key("cite.a", 0, 72, 600), Key("cite.b", 0, 320, ctx.int("yb", 10, 780)), Key("cite.c", 1, 72, ctx.int("yc", 10, 780)),
            Key("cite.d", 1, 320, 640), Key("cite.e", 1, 320, 300)]
    links = [Link("http://u/1", ctx.choice("q", (0, 1)), ctx.choice("x", (72, 320)), ctx.int("z", 10, 780)),
             Link("http://u/2", ctx.choice("q2", (0, 1)), 330, 222)]
    distinct(ctx, keys + links)
    judge(ctx, extract(ctx, 2, keys, links), keys, links, True)


def h_layout(ctx):
    """the layout has two columns when three keys of the right one are aligned"""
    xs = [ctx.choice("x%d" % i, (60, 299, 300, 330)) for i in range(4)]
    keys = [Key("cite." + n, 0, x, top) for n, x, top in zip("abcd", xs, (600, 700, 400, 500))]
    columns = any(xs.count(x) >= 3 for x in (300, 330))
    links = [Link("http://u/1", 0, ctx.choice("lx", (60, 330)), ctx.int("z", 10, 780))]
    distinct(ctx, keys + links)
    judge(ctx, extract(ctx, 1, keys, links), keys, links, columns)


def h_names(ctx):
    """only destinations of citations count, whatever the key is"""
    name = ctx.choice("key", ("", "a", "a.b", ".", "X:2000a", "b c", "\xe9", "cite.a"))
    other = ctx.choice("other", ("section.1", "Item.3", "cit.a", "xcite.a", "cite", "CITE.a", "page.12"))
    keys = [Key("cite." + name, 0, 72, 500), Key("cite.zz", 0, 72, ctx.int("y", 10, 780))]
    more = [Key(other, 0, 72, ctx.int("w", 10, 780))]
    links = [Link("http://u/1", 0, 72, ctx.int("z", 10, 780))]
    distinct(ctx, keys + more + links)
    judge(ctx, extract(ctx, 1, more + keys, links), keys, links, False)


def h_other_annotations(ctx):
    """annotations that are no link to an address do not matter"""
    keys = [Key("cite.a", 0, 72, 600), Key("cite.b", 0, 72, 400)]
    links = [Link("http://u/0", 0, 72, ctx.int("z", 10, 780), ctx.choice("kind", ("goto", "dest", "note", "uri"))),
             Link("http://u/1", 0, 72, 300)]
    distinct(ctx, keys + links)
    o = extract(ctx, 1, keys, links)
    if links[0].kind in ("dest", "note") and o.ok and o.value == []:
        ctx.reach("no action")
        return
    judge(ctx, o, keys, links, False)


def h_after(ctx):
    """links after the last key: on its page and on the next one"""
    keys = [Key("cite.a", 0, 72, 600), Key("cite.b", ctx.choice("p", (0, 1)), 72, ctx.int("y", 10, 780))]
    links = [Link("http://u/1", ctx.choice("q", (0, 1, 2, 3)), 72, ctx.int("z", 10, 780)), Link("http://u/2", 3, 72, 200)]
    distinct(ctx, keys + links)
    o = extract(ctx, 4, keys, links)
    last = keys[1]
    if keys[1].page == 0:
        if keys[1].top > keys[0].top:
            last = keys[0]
    judge(ctx, o, keys, [u for u in links if u.page <= last.page + 1], False)


def h_missing(ctx):
    """keys without coordinates: no keys rather than wrong ones"""
    fit = ctx.choice("fit", ("/Fit", "/FitH", "left", "top", "both"))
    bad = Key("cite.b", 0, None if fit in ("left", "both") else 72, None if fit in ("top", "both") else ctx.int("y", 10, 780),
              fit if fit[0] == "/" else "/XYZ")
    keys = [Key("cite.a", 0, 72, 600), bad]
    links = [Link("http://u/1", 0, 72, ctx.int("z", 10, 780))]
    o = extract(ctx, 1, keys, links)
    ctx.check(o.ok, "no error", o.exc_name)
    ctx.check(o.ok and o.value == [], "empty list", repr(o.value))
    ctx.reach("missing")


def h_fault(ctx):
    """the PDF library fails at any point"""
    where = ctx.choice("where", ("open", "names", "pages", "page", "annots"))
    kind = ctx.choice("kind", (ValueError, KeyError, RecursionError, TypeError, pypdf.errors.PdfReadError, AttributeError))

    class Bad(PdfReader):
        def __init__(self, *a, **k):
            if where == "open":
                raise kind("fault")
            super().__init__(*a, **k)

        @property
        def named_destinations(self):
            if where == "names":
                raise kind("fault")
            return super().named_destinations

        @property
        def pages(self):
            if where == "pages":
                raise kind("fault")
            return super().pages

        def get_page(self, *a):
            if where == "page":
                raise kind("fault")
            return super().get_page(*a)

        def get_destination_page_number(self, d):
            if where in ("annots", "page"):
                raise kind("fault")
            return super().get_destination_page_number(d)

    keys = [Key("cite.a", 0, 72, 600)]
    links = [Link("http://u/1", 0, 72, 300)]
    o = extract(ctx, 1, keys, links, Bad)
    ctx.check(o.ok, "no error", o.exc_name)
    ctx.check(o.ok and o.value == [], "empty list", repr(o.value))
    ctx.reach("failed")


def h_unreadable(ctx):
    """any small file that is no PDF"""
    d = scratch(ctx)
    path = os.path.join(d, "a.pdf")
    body = ctx.choice("body", (b"", b"%PDF-1.5\n", b"x", b"%PDF-1.4\n%%EOF\n", b"\x00" * 40, b"%PDF-1.4\nxref\n0 1\ntrailer\n<<>>\nstartxref\n9\n%%EOF"))
    with open(path, "wb") as fh:
        fh.write(body)
    o = ctx.call(ctx.get(EXT), path)
    ctx.check(o.ok, "no error", o.exc_name)
    ctx.check(o.ok and o.value == [], "empty list", repr(o.value))
    ctx.reach("unreadable")


def h_far(ctx):
    """a link belongs to the last key before it, however many pages lie between, as long as another key follows"""
    keys = [Key("cite.a", 0, 72, ctx.int("ya", 10, 780)), Key("cite.b", ctx.choice("pb", (2, 4)), 72, ctx.int("yb", 10, 780))]
    links = [Link("http://u/1", ctx.choice("q1", (0, 1, 2, 3)), 100, ctx.int("z1", 10, 780)),
             Link("http://u/2", ctx.choice("q2", (3, 4)), 320, ctx.int("z2", 10, 780))]
    ctx.assume(links[0].page <= links[1].page)
    ctx.assume(keys[1].page >= 4 or links[1].page <= 3)
    distinct(ctx, keys + links)
    judge(ctx, extract(ctx, 5, keys, links), keys, links, False)


H = "heights 10..780 of integer points on pages 600 wide, no two on a page equal"
HARNESSES = [
    Harness("one-column", h_one_column, "3 keys and 1 link on 2 pages, link anywhere in the page width; " + H, reach=("listed",)),
    Harness("two-links", h_two_links, "2 keys, 2 links, equal addresses or not; " + H, reach=("listed",)),
    Harness("two-columns", h_two_columns, "2 keys left, 3 right (the last on either page), 1 link; " + H, reach=("listed",)),
    Harness("next-page", h_next_page, "5 keys in two columns of two pages, 2 links; " + H, reach=("listed",)),
    Harness("layout", h_layout, "4 keys at 4 x positions each, 1 link; " + H, reach=("listed",)),
    Harness("names", h_names, "8 citation keys, 7 other destination names; " + H, reach=("listed",)),
    Harness("other-annotations", h_other_annotations, "4 kinds of annotation; " + H, reach=("listed",)),
    Harness("far", h_far, "2 keys up to 4 pages apart, 2 links on 5 pages; " + H, reach=("listed",)),
    Harness("after", h_after, "2 keys and 2 links on 4 pages; " + H, reach=("listed",)),
    Harness("missing", h_missing, "5 kinds of missing coordinates", reach=("missing",)),
    Harness("fault", h_fault, "5 points of failure x 6 exceptions", reach=("failed",)),
    Harness("unreadable", h_unreadable, "6 files", reach=("unreadable",)),
]
