"""C01 clean-up of PDF files."""
import mmap
import os
import os.path
import shutil
import tempfile

from hx_common import *

CLEAN = ENG + ":clean_pdf_file"
BODY = ENG + ":get_plaintext_document_body"


class Disk:
    """a file of symbolic bytes (as latin-1 text) and the operations on it"""

    def __init__(self, content):
        self.content = content


def stand_ins(disk):
    """open, mmap and the size functions over the symbolic file"""
    def txt(b):
        return b.decode("latin-1") if isinstance(b, bytes) else b

    class Map:
        def __init__(self, *a, **k):
            if len(disk.content) == 0:
                raise ValueError("cannot mmap an empty file")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __len__(self):
            return len(disk.content)

        def __getitem__(self, i):
            return disk.content[i]

        def find(self, sub, *a):
            return disk.content.find(txt(sub), *a)

        def rfind(self, sub, *a):
            return disk.content.rfind(txt(sub), *a)

        def size(self):
            return len(disk.content)

        def move(self, dest, src, count):
            c = disk.content
            if dest < 0 or src < 0 or count < 0 or dest + count > len(c) or src + count > len(c):
                raise ValueError("source, destination, or count out of range")
            disk.content = c[:dest] + c[src:src + count] + c[dest + count:]

        def resize(self, n):
            if n == 0:
                raise ValueError("cannot resize to nothing")
            disk.content = disk.content[:n] + "\0" * (n - len(disk.content))

        def flush(self, *a):
            pass

        def close(self):
            pass

    class File:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def fileno(self):
            return 3

        def close(self):
            pass

        def flush(self):
            pass

        def truncate(self, n):
            disk.content = disk.content[:n] + "\0" * (n - len(disk.content))

    return {open: lambda *a, **k: File(), mmap.mmap: Map, os.path.getsize: lambda p: len(disk.content)}


def clean(ctx, content):
    """content of the file after the clean-up"""
    if ctx.sym:
        disk = Disk(content)
        ctx.intercept(stand_ins(disk))
        r = ctx.call(ctx.get(CLEAN), "scratch.pdf")
        return r, disk.content
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "f.pdf")
        with open(p, "wb") as fh:
            fh.write(content.encode("latin-1"))
        r = ctx.call(ctx.get(CLEAN), p)
        with open(p, "rb") as fh:
            return r, fh.read().decode("latin-1")
    finally:
        shutil.rmtree(d)


def expected(s):
    a = s.find("%PDF-")
    if a == -1:
        return s
    rest = s[a:]
    e = rest.rfind("%%EOF")
    return rest if e == -1 else rest[:e + 5]


def check(ctx, s):
    want = expected(s)
    r, got = clean(ctx, s)
    ctx.observe("before", s)
    ctx.observe("after", got)
    ctx.check(r.ok, "no failure", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(got, want), "exactly the bytes of the document", detail=[got, want])


def piece(ctx, i, kinds):
    k = ctx.choice("k%d" % i, kinds)
    if k == "head":
        return "%PDF" + ctx.char("h%d" % i, "-%x")
    if k == "end":
        return "%%EO" + ctx.char("e%d" % i, "F%x")
    if k == "junk":
        return ctx.string("j%d" % i, 1, 2, "%Px\n\xe9")
    return ""


def h_pieces(ctx):
    """up to four pieces: headers, end markers (or nearly so) and junk in any order"""
    s = ""
    for i in range(4):
        s = s + piece(ctx, i, ("head", "end", "junk", "none"))
    check(ctx, s)


def h_bytes(ctx):
    """a header at a symbolic place among symbolic bytes"""
    s = ctx.string("a", 0, 3, "%P\n")
    if ctx.choice("head", (True, False)):
        s = s + "%PDF-"
    s = s + ctx.string("b", 0, 3, "%E\n")
    if ctx.choice("end", (True, False)):
        s = s + "%%EOF"
    s = s + ctx.string("c", 0, 2, "%F\n")
    check(ctx, s)


def h_read(ctx):
    """the clean-up takes place, on the real file, whenever a document is read"""
    pre, post = ctx.choice("pre", ("", "x", "%PD\n")), ctx.choice("post", ("", "\n", "junk"))
    core = ctx.choice("core", ("%PDF-1.4\nqk\n%%EOF", "%PDF-1.4 %%EOF qk\n%%EOF", "qk\nzz\n", "%PDF-1.4 %PDF-1.5 qk%%EOF"))
    s = pre + core + post
    d = tempfile.mkdtemp()
    ctx.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    p = os.path.join(d, "f.pdf")
    with open(p, "wb") as fh:
        fh.write(s.encode("latin-1"))
    ctx.call(ctx.get(BODY), p)
    with open(p, "rb") as fh:
        got = fh.read().decode("latin-1")
    ctx.observe("before", s)
    ctx.observe("after", got)
    ctx.check(got == expected(s), "cleaned before it is read", detail=got)


ASSUMPTIONS = ["In the symbolic runs the file and its memory map are stand-ins over a symbolic byte string with the documented "
               "behaviour of open, mmap (find, rfind, move, resize, size) and os.path.getsize; every path is re-run on a real file"]

HARNESSES = [
    Harness("pieces", h_pieces, "0-4 pieces, each a (nearly) header or end marker with a symbolic character or 1-2 symbolic bytes",
            needs=(CLEAN,)),
    Harness("bytes", h_bytes, "optional header and end marker with up to 3 symbolic bytes before, between and after", needs=(CLEAN,)),
    Harness("read", h_read, "12 real files", needs=(BODY,)),
]
