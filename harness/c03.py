"""C03 extraction from a file."""
import os

from hx_common import *

FILE = API + ":extract_references_from_file"
CONV = "refextract.documents.pdf:convert_PDF_to_plaintext"
NOTEXT = "refextract.references.errors:FullTextNotAvailableError"
UNKNOWN = "refextract.references.errors:UnknownDocumentTypeError"
WORDS = "abqk"


def h_convert(ctx):
    """page breaks in the converted text, symbolic lines"""
    d = scratch(ctx)
    n = ctx.choice("lines", (1, 2))
    lines = []
    for i in range(n):
        t = ctx.string("l%d" % i, 0, 4 if n == 1 else 2, "a\f \xe9")
        lines.append(t if i == n - 1 and ctx.choice("end", (False, True)) else t + "\n")
    layout = ctx.choice("layout", (False, True))
    text = ""
    for l in lines:
        text = text + l
    calls = pdftotext(ctx, d, {"-layout": text, "-raw": text})
    r = ctx.call(ctx.get(CONV), d + "/a.pdf", layout)
    ctx.check(r.ok, "no exception", r.exc_name)
    if not r.ok:
        return
    ctx.observe("lines", list(r.value))
    args = calls()
    ctx.check(len(args) == 1, "one conversion")
    ctx.check(("-layout" in args[0]) == layout and ("-raw" in args[0]) != layout, "order of the text as asked for", args)
    ctx.check(d + "/a.pdf" in args[0], "the file is converted", args)
    want = []
    hard = False
    for l in lines:
        if not len(l):
            continue
        s = l.lstrip(" ")
        if not s.startswith("\f") or len(s.strip("\n")) == 1:
            want.append(l)
        else:
            rest = s[1:].rstrip("\n")
            if rest.startswith("\f") or rest.startswith(" "):
                hard = True
            want += ["\f", rest]
    ctx.reach("hard" if hard else "converted")
    got = list(r.value)
    if not hard:
        ctx.check(len(got) == len(want), "number of lines", (got, want))
        if len(got) == len(want):
            for g, w in zip(got, want):
                ctx.check(either(eq(g, w), eq(g, w + "\n"), eq(g + "\n", w)), "line kept", (got, want))
    a = [c for g in got for c in g if c not in " \f\n"]
    b = [c for c in text if c not in " \f\n"]
    ctx.check(eq(a, b), "no text altered", (got, want))
    for g in got:
        t = g.lstrip(" ")
        if t.startswith("\f"):
            ctx.check(len(t.strip(" \f\n")) == 0, "page break on a line of its own", got)


def refs_of(ctx, n, tag):
    """reference lines with symbolic text"""
    out = []
    for i in range(1, n + 1):
        c = ctx.char("%s%d" % (tag, i), WORDS)
        extra = ", http://www.qk.org/t" if i == 1 else ""
        out.append("[" + str(i) + "] Q" + c + "k kqkq, Phys. Rev. D 5" + str(i) + " (2000) 123" + extra)
    return out


def expect(ctx, lines, **kw):
    r = ctx.call(ctx.get(ENG + ":parse_references"), lines, override_kbs_files=kbs(), **kw)
    return r.value[0]


def compare(ctx, got, base, marks):
    """marks: None or [(key, urls)]"""
    ctx.check(len(got) == len(base), "number of references", (got, base))
    if len(got) != len(base):
        return
    for i, (g, b) in enumerate(zip(got, base)):
        want = dict(b)
        if marks is not None:
            want["texkey"] = [marks[i][0]]
            urls = list(want.get("url", []))
            new = [u for u in marks[i][1] if u not in urls]
            have = [str(u) for u in g.get("url", [])]
            ctx.check(have[:len(urls)] == urls and sorted(have[len(urls):]) == sorted(new),
                      "addresses of the text and of the file, once each", (have, urls, new))
            g = {k: v for k, v in g.items() if k != "url"}
            want.pop("url", None)
        ctx.check(eq({k: v for k, v in g.items()}, want), "reference as parsed, with its key", (g, want))


def pdf_file(d, keys, links):
    path = os.path.join(d, "a.pdf")
    with open(path, "wb") as fh:
        fh.write(pdf_document(1, keys, links))
    return path


def h_pdf(ctx):
    """references found in raw order, in layout order or not at all; keys that match in number or do not"""
    d = scratch(ctx)
    small_defaults(ctx)
    n = ctx.choice("refs", (1, 2, 3))
    found = ctx.choice("found", ("raw", "layout", "both", "none"))
    nokeys = ctx.choice("keys", (0, 1, 2, 3))
    top = ["Qkq zqk", "kq"]
    none = "\n".join(top) + "\n"
    sec = {}
    lines = {}
    for opt in ("-raw", "-layout"):
        lines[opt] = refs_of(ctx, n, opt[1]) if found in (opt[1:], "both") else []
        t = none
        if lines[opt]:
            t = t + "References\n"
            for l in lines[opt]:
                t = t + l + "\n"
        sec[opt] = t
    calls = pdftotext(ctx, d, sec)
    keys = [Key("cite.k" + str(i), 0, 72, 700 - 100 * i) for i in range(nokeys)]
    links = []
    marks = [("k" + str(i), []) for i in range(nokeys)]
    if nokeys:
        urls = ctx.choice("urls", (("http://www.qk.org/t",), ("http://u/2", "http://www.qk.org/t"), ("http://u/2", "http://u/2"), ()))
        at = ctx.choice("at", tuple(range(nokeys)))
        for j, u in enumerate(urls):
            links.append(Link(u, 0, 90, 690 - 100 * at - 10 * j))
        marks[at] = (marks[at][0], sorted(set(urls)))
    path = pdf_file(d, keys, links)
    r = ctx.call(ctx.get(FILE), path, override_kbs_files=kbs())
    ctx.check(r.ok, "no exception", r.exc_name)
    if not r.ok:
        return
    used = lines["-raw"] or lines["-layout"]
    base = expect(ctx, used)
    ctx.observe("refs", r.value)
    compare(ctx, r.value, base, marks if len(base) == nokeys else None)
    opts = [a for c in calls() for a in c if a in ("-raw", "-layout")]
    ctx.check(opts == ["-raw"] if lines["-raw"] else opts == ["-raw", "-layout"], "converted with layout only if need be", opts)
    ctx.reach("matched" if base and len(base) == nokeys else "unmatched" if base else "nothing")


def h_text(ctx):
    """plain text, line by line, options passed on"""
    d = scratch(ctx)
    small_defaults(ctx)
    path = os.path.join(d, "a.txt")
    n = ctx.choice("refs", (0, 1, 2))
    top = "Qk" + ctx.char("t", WORDS) + " kq\n"
    lines = refs_of(ctx, n, "r")
    text = [top]
    if n:
        text.append("References\n")
        text += [l + "\n" for l in lines]
    if ctx.choice("break", (False, True)):
        text.append("\n")
    kw = {}
    seen = []

    def link(el):
        seen.append(el.get("type"))
        return dict(el, recid=99)
    if ctx.choice("opts", (False, True)):
        kw = {"reference_format": "{title};{volume}", "linker_callback": link}
    text_files(ctx, {path: text})
    r = ctx.call(ctx.get(FILE), path, override_kbs_files=kbs(), **kw)
    ctx.check(r.ok, "no exception", r.exc_name)
    if not r.ok:
        return
    ctx.observe("refs", r.value)
    n1 = len(seen)
    compare(ctx, r.value, expect(ctx, lines, **kw), None)
    ctx.check(len(seen) == 2 * n1 and (n1 > 0) == bool(n and kw), "callback used")
    if n and kw:
        ctx.check(all(ref.get("journal_reference") == ["Phys.Rev.;D5%d" % (i + 1)] for i, ref in enumerate(r.value)),
                  "format used", r.value)
    ctx.reach("text")


FILES = {
    "empty": b"", "png": b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR\0\0\0\x01\0\0\0\x01\x08\x02\0\0\0", "gzip": b"\x1f\x8b\x08\0\0\0\0\0\0\x03",
    "html": b"<!DOCTYPE html><html><head><title>q</title></head><body>[1] q</body></html>\n", "zip": b"PK\x03\x04\x14\0\0\0\0\0",
    "binary": bytes(range(256)), "gif": b"GIF89a\x01\0\x01\0\0\0\0;", "ps": b"%!PS-Adobe-3.0\n%%Pages: 1\n",
    "xml": b"<?xml version='1.0'?><a/>\n",
}


def h_types(ctx):
    """missing files and files of other types"""
    d = scratch(ctx)
    kind = ctx.choice("kind", ("missing", "directory", "dangling") + tuple(sorted(FILES)))
    suffix = ctx.choice("suffix", ("", ".pdf", ".txt"))
    path = os.path.join(d, "a" + suffix)
    if kind == "directory":
        os.mkdir(path)
    elif kind == "dangling":
        os.symlink(os.path.join(d, "nowhere"), path)
    elif kind != "missing":
        with open(path, "wb") as fh:
            fh.write(FILES[kind])
    r = ctx.call(ctx.get(FILE), path)
    ctx.check(not r.ok, "refused", repr(r.value))
    err = NOTEXT if kind in ("missing", "directory", "dangling") else UNKNOWN
    ctx.check(not r.ok and type(r.exc).__name__ == err.split(":")[1], "kind of error", r.exc_name)
    ctx.reach("refused")


def h_mime(ctx):
    """the type decides, symbolic type name"""
    import magic
    d = scratch(ctx)
    small_defaults(ctx)
    path = os.path.join(d, "a.bin")
    with open(path, "w") as fh:
        fh.write("Qkq\nReferences\n[1] Qk kq, Phys. Rev. D 51 (2000) 123\n")
    base = ctx.choice("base", ("text/plain", "application/pdf"))
    at = ctx.choice("at", tuple(range(len(base) + 1)))
    c = ctx.char("c", "aptxz/-")
    how = ctx.choice("how", ("replace", "insert", "cut"))
    if how == "replace":
        if at == len(base):
            at -= 1
        mime = base[:at] + c + base[at + 1:]
    elif how == "insert":
        mime = base[:at] + c + base[at:]
    else:
        mime = base[:at]
    calls = pdftotext(ctx, d, {"-raw": "Qkq\nReferences\n[1] Zq kq, Phys. Rev. D 51 (2000) 123\n", "-layout": "q\n"})
    saved = magic.from_file
    magic.from_file = lambda p, mime=False, m=mime: m
    ctx.cleanup.append(lambda: setattr(magic, "from_file", saved))
    r = ctx.call(ctx.get(FILE), path, override_kbs_files=kbs())
    if mime == "text/plain":
        line = "[1] Qk kq, Phys. Rev. D 51 (2000) 123"
    elif mime == "application/pdf":
        line = "[1] Zq kq, Phys. Rev. D 51 (2000) 123"
    else:
        ctx.check(not r.ok and type(r.exc).__name__ == "UnknownDocumentTypeError", "other types refused", r.exc_name or r.value)
        ctx.reach("refused")
        return
    ctx.check(r.ok, "no exception", r.exc_name)
    if r.ok:
        ctx.check(eq(r.value, expect(ctx, [line])), "references of the file", r.value)
    ctx.reach("used")


HARNESSES = [
    Harness("convert", h_convert, "1 line of 0..4 or 2 of 0..2 of 'a', page break, space, e-acute; either order", reach=("converted", "hard")),
    Harness("pdf", h_pdf, "1..3 references with a symbolic letter each, found in raw, layout, both or neither; 0..3 keys; 0..2 links at any of them",
            reach=("matched", "unmatched", "nothing")),
    Harness("text", h_text, "0..2 references with a symbolic letter each; options given or not", reach=("text",)),
    Harness("types", h_types, "12 kinds of file x 3 suffixes", reach=("refused",)),
    Harness("mime", h_mime, "types one character replaced, inserted or cut from the known ones", reach=("refused", "used")),
]
