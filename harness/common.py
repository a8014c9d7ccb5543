"""Shared pieces of the harnesses (executed instrumented and plain)."""
from sx.harness import (Harness, DIGITS, LOWER, UPPER, eq, both, either)  # noqa: F401

# Small complete set of knowledge bases, so that every decision of a run depends on the
# symbolic line and not on the size of the shipped tables.
JOURNALS = (
    ("PHYS REV", "Phys.Rev."),
    ("PHYS REV LETT", "Phys.Rev.Lett."),
    ("PHYS LETT", "Phys.Lett."),
    ("NUCL PHYS", "Nucl.Phys."),
    ("J HIGH ENERGY PHYS", "JHEP"),
    ("NUCL PHYS PROC SUPPL", "Nucl.Phys.Proc.Suppl."),
)
REPNUMS = (
    "*****LANL*****",
    "<s/syymm999>",
    "<syymm999>",
    "",
    "GR QC\t---gr-qc",
    "ARXIVHEP TH\t---hep-th",
    "*****CERN*****",
    "<syys9?9?9>",
    "<syyyys9?9?9>",
    "",
    "CERN TH                ---CERN-TH",
    "CERN PH EP             ---CERN-PH-EP",
    "CERNLHCC               ---CERN-LHCC",
    "*****DESY*****",
    "<syys999>",
    "DESY                   ---DESY",
    "DESY T                 ---DESY-T",
)


def kbs(**over):
    d = {
        "journals": JOURNALS,
        "journals_re": ("ZZQV QVZZ---Zzqv.Q.",),
        "report-numbers": REPNUMS,
        "authors": ("# none",),
        "collaborations": (("ATLAS", "ATLAS"), ("CMS", "CMS")),
        "books": (("Q. Qqqq", "Zzqv qvzz qqv", "1700;"),),
        "publishers": (("World Scientific", "World Scientific"),),
        "special_journals": ("JHEP", "JCAP"),
    }
    d.update(over)
    return d


API = "refextract.references.api"
ENG = "refextract.references.engine"


def parse(ctx, lines, **kw):
    """parse_references with the small KBs."""
    kb = kw.pop("kbs", None) or kbs()
    fn = ctx.get(ENG + ":parse_references")
    return ctx.call(fn, lines, override_kbs_files=kb, **kw)


def fields(ctx, ref, expected, label, raw=None):
    """The reference has exactly the expected fields (raw_ref aside unless given)."""
    got = {k: v for k, v in ref.items() if k != "raw_ref"}
    ctx.check(eq(got, expected), label, detail=[got, expected])
    if raw is not None:
        ctx.check(eq(ref.get("raw_ref"), [raw]), label + ": raw text kept")


def one(ctx, line, expected, label="fields of the reference", **kw):
    """Parse one line, expect one reference with exactly these fields."""
    r = parse(ctx, [line], **kw)
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        refs = r.value[0]
        ctx.check(len(refs) == 1, "one reference for the line")
        if len(refs) == 1:
            fields(ctx, refs[0], expected, label, raw=line)
    return r


CFG = "refextract.references.config:CFG_REFEXTRACT_KBS"
KCFG = "refextract.references.kbs:CFG_REFEXTRACT_KBS"


def small_defaults(ctx):
    """the shipped tables replaced by small ones (restored afterwards)"""
    for name in (CFG, KCFG):
        d = ctx.get(name)
        saved = dict(d)
        d.update(kbs())

        def restore(d=d, saved=saved):
            d.clear()
            d.update(saved)
        ctx.cleanup.append(restore)


# documents (C05-C07)
FT = "refextract.references.text:extract_references_from_fulltext"


class Line:
    """a line of the document: optional marker (number or key) and text"""

    def __init__(self, text, num=None, key=False, style="[]", title=False):
        self.text, self.num, self.key, self.style, self.title = text, num, key, style, title

    def mark(self):
        if self.num is None:
            return ""
        return {"[]": "[" + self.num + "]", ".": self.num + ".", "()": "(" + self.num + ")", "{}": "{" + self.num + "}",
                "<>": "<" + self.num + ">", "": self.num}[self.style]

    def render(self):
        m = self.mark()
        return m + " " + self.text if m else self.text


def is_num(line, n):
    return line.num is not None and not line.key and bool(eq(line.num, str(n)))


def rebuild(lines, kind):
    """kind None: every line that does not start in lower case starts a reference; 'key': every key does;
    'num': the markers 1, 2, ... do"""
    out, cur, n = [], [], 0
    for l in lines:
        new = (kind is None and l.num is not None) or (kind == "key" and l.key) or (kind == "num" and is_num(l, n + 1))
        if new:
            n += 1
            if cur:
                out.append(cur)
            cur = []
        cur.append(l.render())
    if cur:
        out.append(cur)
    return [" ".join(c) for c in out]


# downloads (C02, C20)
class Response:
    """a streamed response; `fail` = (number of chunks, exception) breaks the transfer"""

    def __init__(self, status=200, chunks=(), fail=None):
        import requests
        self.status_code, self.chunks, self.fail = status, chunks, fail
        self.ok = status < 400
        self._error = requests.exceptions.HTTPError

    def raise_for_status(self):
        if self.status_code >= 400:
            raise self._error("%d" % self.status_code)

    def iter_content(self, chunk_size=1, **k):
        for i, c in enumerate(self.chunks):
            if self.fail and self.fail[0] == i:
                raise self.fail[1]
            yield c
        if self.fail and self.fail[0] >= len(self.chunks):
            raise self.fail[1]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def network(ctx, answer):
    """every HTTP request is answered by answer(url, headers)"""
    import requests
    S = requests.sessions.Session
    saved = S.request

    def request(self, method, url, *a, **k):
        return answer(url, k.get("headers"))
    S.request = request
    ctx.cleanup.append(lambda: setattr(S, "request", saved))


def scratch(ctx):
    """a scratch directory, also used for temporary files, removed at the end"""
    import shutil
    import tempfile
    d = tempfile.mkdtemp()
    saved = tempfile.tempdir
    tempfile.tempdir = d

    def undo():
        tempfile.tempdir = saved
        shutil.rmtree(d, ignore_errors=True)
    ctx.cleanup.append(undo)
    return d


# PDF files (C03, C21)
WIDTH = 600


class Key:
    """A named destination."""

    def __init__(self, name, page, left, top, fit="/XYZ"):
        self.name, self.page, self.left, self.top, self.fit = name, page, left, top, fit


class Link:
    def __init__(self, url, page, left, top, kind="uri"):
        self.url, self.page, self.left, self.top, self.kind = url, page, left, top, kind


def pdf_document(pages, keys, links, symbolic=False):
    """A PDF file; coordinates that are symbolic are put in by `reader`."""
    import io
    from pypdf import PdfWriter
    from pypdf.generic import ArrayObject, DictionaryObject, FloatObject, NameObject, NullObject, TextStringObject

    def num(x):
        return NullObject() if x is None else FloatObject(1 if symbolic else x)

    w = PdfWriter()
    refs = [w.add_blank_page(WIDTH, 800) for _ in range(pages)]
    names = ArrayObject()
    for k in keys:
        dest = [refs[k.page].indirect_reference, NameObject(k.fit)]
        if k.fit == "/XYZ":
            dest += [num(k.left), num(k.top), NullObject()]
        elif k.fit == "/FitH":
            dest += [num(k.top)]
        names.extend([TextStringObject(k.name), ArrayObject(dest)])
    w._root_object[NameObject("/Names")] = DictionaryObject(
        {NameObject("/Dests"): DictionaryObject({NameObject("/Names"): names})})
    for p in range(pages):
        here = [u for u in links if u.page == p]
        if not here:
            continue
        annots = ArrayObject()
        for u in here:
            d = DictionaryObject({
                NameObject("/Type"): NameObject("/Annot"),
                NameObject("/Subtype"): NameObject("/Text" if u.kind == "note" else "/Link"),
                NameObject("/Rect"): ArrayObject([num(u.left), num(5), num(u.left), num(u.top)]),
            })
            if u.kind == "uri":
                d[NameObject("/A")] = DictionaryObject(
                    {NameObject("/S"): NameObject("/URI"), NameObject("/URI"): TextStringObject(u.url)})
            elif u.kind == "goto":
                d[NameObject("/A")] = DictionaryObject(
                    {NameObject("/S"): NameObject("/GoTo"), NameObject("/D"): TextStringObject("cite.a")})
            elif u.kind == "dest":
                d[NameObject("/Dest")] = TextStringObject("cite.a")
            annots.append(w._add_object(d))
        refs[p][NameObject("/Annots")] = annots
    out = io.BytesIO()
    w.write(out)
    return out.getvalue()


class Bytes:
    """output of a program, as symbolic text"""

    def __init__(self, text):
        self.text = text

    def decode(self, *a, **k):
        return self.text

    def __len__(self):
        return len(self.text)

    def __bool__(self):
        return len(self.text) > 0

    def splitlines(self, keepends=False):
        return [Bytes(t) for t in cut(self.text, keepends)]

    def split(self, sep=None):
        return [Bytes(t) for t in self.text.split(sep.decode("ascii"))]


def cut(text, keepends=True):
    """lines of the text, cut at newlines only"""
    out = []
    while len(text):
        at = text.find("\n")
        n = len(text) if at < 0 else at + 1
        out.append(text[:n] if keepends or at < 0 else text[:at])
        text = text[n:]
    return out


def pdftotext(ctx, directory, output):
    """the converter prints output[option] for every PDF; returns the list of its command lines"""
    import os
    import subprocess
    calls = []
    tool = os.path.join(directory, "pdftotext")
    texts = {}
    for opt, text in output.items():
        if not ctx.sym:
            with open(os.path.join(directory, "out" + opt), "w", encoding="utf-8", newline="") as fh:
                fh.write(text)
        texts[opt] = text
    with open(tool, "w") as fh:
        fh.write('#!/bin/sh\nfor a in "$@"; do echo "$a" >> %s/args; done; echo . >> %s/args\n'
                 'for a in "$@"; do case "$a" in -layout|-raw) exec cat "%s/out$a";; esac; done\nexec cat "%s/out"\n'
                 % ((directory,) * 4))
    os.chmod(tool, 0o755)
    for name in ("refextract.documents.pdf", "refextract.references.config"):
        mod = ctx.mod(name)
        saved = mod.CFG_PATH_PDFTOTEXT
        mod.CFG_PATH_PDFTOTEXT = tool
        ctx.cleanup.append(lambda mod=mod, saved=saved: setattr(mod, "CFG_PATH_PDFTOTEXT", saved))
    if not ctx.sym:
        def read():
            out = [[]]
            if os.path.exists(directory + "/args"):
                with open(directory + "/args") as fh:
                    for l in fh.read().split("\n"):
                        if l == ".":
                            out.append([])
                        else:
                            out[-1].append(l)
            return [c for c in out if c and c != [""]]
        return read

    class Pipe:
        def __init__(self, text):
            self.text = text

        def __iter__(self):
            return iter([Bytes(t) for t in cut(self.text)])

        def read(self, *a):
            return Bytes(self.text)

        def readlines(self):
            return [Bytes(t) for t in cut(self.text)]

        def close(self):
            pass

    class Popen:
        returncode = 0

        def __init__(self, cmd, *a, **k):
            if cmd[0] != tool:
                raise FileNotFoundError(cmd[0])
            calls.append(list(cmd[1:]))
            opts = [c for c in cmd if c in texts]
            self.stdout = Pipe(texts[opts[0] if opts else ""])
            self.stderr = Pipe("")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def communicate(self, *a, **k):
            return self.stdout.read(), None

        def wait(self, *a, **k):
            return 0

        poll = wait

        def kill(self):
            pass

        terminate = kill
    saved = subprocess.Popen
    subprocess.Popen = Popen
    ctx.cleanup.append(lambda: setattr(subprocess, "Popen", saved))
    return lambda: calls


def text_files(ctx, files):
    """text files {path: lines} of symbolic lines; other files are left alone"""
    import pathlib
    if not ctx.sym:
        for path, lines in files.items():
            with open(path, "w", encoding="utf-8", newline="") as fh:
                fh.write("".join(lines))
        return
    for path, lines in files.items():
        with open(path, "w") as fh:
            fh.write("placeholder\n")

    class File:
        def __init__(self, lines):
            self.lines = list(lines)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def readlines(self):
            return list(self.lines)

        def __iter__(self):
            return iter(self.lines)

        def read(self):
            out = ""
            for l in self.lines:
                out = out + l
            return out

        def close(self):
            pass

    def fake(path, mode="r", *a, **k):
        if path in files and "b" not in mode and "+" not in mode:
            return File(files[path])
        return pathlib.Path(path).open(mode, *a, **k)
    ctx.intercept({open: fake})
