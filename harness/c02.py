"""C02 extraction from a URL."""
import os

import requests

from hx_common import *

URL = API + ":extract_references_from_url"
FILE = API + ":extract_references_from_file"
ERR = "refextract.references.errors:FullTextNotAvailableError"


class Boom(Exception):
    pass


FAULTS = {
    "connection": requests.exceptions.ConnectionError, "timeout": requests.exceptions.ReadTimeout,
    "chunked": requests.exceptions.ChunkedEncodingError, "os": OSError, "other": Boom, "http": requests.exceptions.HTTPError,
    "value": ValueError, "key": KeyError,
}


def h_transfer(ctx):
    """symbolic body chunks; the transfer or the extraction may fail at any point"""
    d = scratch(ctx)
    n = ctx.choice("chunks", (0, 1, 2, 3))
    raw = [ctx.string("c%d" % i, 0, 2 if i == 0 else 1, "%P\n\xe9") for i in range(n)]
    where = ctx.choice("fault", ("none", "connect", "status", "body", "extract"))
    kind = ctx.choice("kind", ("connection", "chunked", "os", "other")) if where in ("connect", "body") else \
        ctx.choice("kind", ("value", "other", "os", "key")) if where == "extract" else None
    fault = FAULTS[kind]("fault") if kind else None
    status = 200
    if where == "status":
        status = ctx.choice("status", (400, 401, 404, 410, 500, 503))
    at = ctx.choice("at", tuple(range(n + 1))) if where == "body" else None
    seen = {"headers": [], "files": [], "kwargs": []}
    more = ctx.choice("opts", (False, True))
    headers = {"User-Agent": "qk"} if more else None
    opts = {}
    if more:
        opts = {"recid": 7, "reference_format": "{title}", "linker_callback": len, "override_kbs_files": {"books": ()}}
    result = [{"misc": ["qk"]}]

    def answer(url, hd):
        seen["headers"].append((url, hd))
        if where == "connect":
            raise fault
        chunks = raw if ctx.sym else [c.encode("latin-1") for c in raw]
        return Response(status, chunks, (at, fault) if where == "body" else None)

    written = {}

    class File:
        def __init__(self, path):
            written[path] = ""
            self.path = path

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write(self, b):
            written[self.path] = written[self.path] + b
            return len(b)

        def close(self):
            pass

        def flush(self):
            pass

    def extract(path, *a, **k):
        if ctx.sym:
            seen["files"].append(written.get(path, "nothing written"))
        else:
            with open(path, "rb") as fh:
                seen["files"].append(fh.read().decode("latin-1"))
        seen["exists"] = os.path.exists(path)
        seen["kwargs"].append(dict(k))
        if where == "extract":
            raise fault
        return result

    network(ctx, answer)
    mod = ctx.get(API)
    saved = mod.extract_references_from_file
    mod.extract_references_from_file = extract
    ctx.cleanup.append(lambda: setattr(mod, "extract_references_from_file", saved))
    if ctx.sym:
        ctx.intercept({open: lambda path, *a, **k: File(path)})
    url = "http://qk.zz/" + (ctx.choice("name", ("a.pdf", "", "b" * 300 + ".pdf", "a?x=y&z")) if n == 1 else "a.pdf")
    r = ctx.call(ctx.get(URL), url, headers, 1, **opts)
    ctx.observe("case", [where, kind, status, at, raw])
    ctx.observe("exc", r.exc_name)
    ctx.observe("left", os.listdir(d))
    ctx.check(os.listdir(d) == [], "no temporary file is left", detail=os.listdir(d))
    ctx.check(eq(seen["headers"], [(url, headers)]), "one request with the caller's headers", detail=seen["headers"])
    body = "".join(raw) if raw else ""
    if where == "none":
        ctx.check(r.ok and r.value is result, "result of the extraction returned", detail=r.exc_name)
        ctx.check(eq(seen["files"], [body]), "file holds the body", detail=[seen["files"], body])
        ctx.check(eq(seen["kwargs"], [opts]), "options handed over", detail=seen["kwargs"])
    elif where == "status":
        ctx.check(type(r.exc).__name__ == "FullTextNotAvailableError", "HTTP error mapped", detail=r.exc_name)
        ctx.check(seen["files"] == [], "no extraction after an error")
    else:
        ctx.check(r.exc is fault, "failure propagates unchanged", detail=r.exc_name)
        if where == "extract":
            ctx.check(eq(seen["files"], [body]), "file holds the body", detail=[seen["files"], body])
        else:
            ctx.check(seen["files"] == [], "no extraction of a partial body")


def h_real(ctx):
    """the whole way with real files: a text document in pieces of any size"""
    small_defaults(ctx)
    d = scratch(ctx)
    v = ctx.choice("v", ("53", "7"))
    doc = ("qk\nReferences\n[1] Phys. Rev. %s (1996) 65\n[2] hep-th/9901234\n" % v).encode()
    size = ctx.choice("size", (1, 7, 40, 1000))
    chunks = [doc[i:i + size] for i in range(0, len(doc), size)]
    chunks.insert(ctx.choice("empty", (0, 1)), b"")
    what = ctx.choice("what", ("good", "cut", "404", "pdf junk", "binary", "linker", "kb"))
    opts = {"reference_format": "{title}/{volume}"}
    fault = requests.exceptions.ConnectionError("cut")
    resp = Response(404 if what == "404" else 200, chunks, (len(chunks) // 2, fault) if what == "cut" else None)
    if what == "pdf junk":
        resp = Response(200, [b"x%PDF-", b"junk %%EOF"])
    elif what == "binary":
        resp = Response(200, [b"\x00\x01\x02\xff" * 20])
    elif what == "linker":
        def link(el):
            raise fault
        opts["linker_callback"] = link
    elif what == "kb":
        opts["override_kbs_files"] = {"journals": (("one",),)}
    network(ctx, lambda url, headers: resp)
    r = ctx.call(ctx.get(URL), "http://qk.zz/a.pdf", **opts)
    ctx.observe("case", what)
    ctx.observe("exc", r.exc_name)
    ctx.check(os.listdir(d) == [], "no temporary file is left", detail=os.listdir(d))
    if what == "good":
        ctx.check(r.ok, "no exception", detail=r.exc_name)
        if r.ok:
            got = [{k: x for k, x in f.items() if k in ("journal_reference", "reportnumber", "linemarker")} for f in r.value]
            ctx.check(eq(got, [{"linemarker": ["1"], "journal_reference": ["Phys.Rev./" + v]},
                               {"linemarker": ["2"], "reportnumber": ["hep-th/9901234"]}]), "all references", detail=got)
    elif what in ("cut", "linker"):
        ctx.check(r.exc is fault, "failure propagates unchanged", detail=r.exc_name)
    elif what in ("404", "binary"):
        ctx.check(r.exc_name == ("FullTextNotAvailableError" if what == "404" else "UnknownDocumentTypeError"), "error kind",
                  detail=r.exc_name)
    elif what == "kb":
        ctx.check(not r.ok, "malformed knowledge base rejected")


ASSUMPTIONS = ["the network is replaced at requests.Session.request; in the symbolic runs of 'transfer' the file the body is "
               "written to is a stand-in over symbolic bytes, each path is re-run with a real file"]
HARNESSES = [
    Harness("transfer", h_transfer, "0-3 chunks of 0-2 (later ones 0-1) symbolic bytes, failure at connect, status, before or after any chunk, or in "
            "the extraction, with 4 kinds of exception or 6 status codes; headers and options given or not; 4 URL shapes",
            needs=(URL, FILE)),
    Harness("real", h_real, "a text document in chunks of 1-1000 bytes, 7 outcomes, real files", needs=(URL, CFG, KCFG)),
]
