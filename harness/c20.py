"""C20 batch wrappers: one result per input, never raising."""
import requests

from hx_common import *

EX = "refextract.extract"
KINDS = ("journal", "text", "empty", "two", "none", "number", "bytes")


def item(ctx, i, kinds=KINDS):
    """an input and the expected result"""
    k = ctx.choice("k%d" % i, kinds)
    d = ctx.string("d%d" % i, 2, 2, DIGITS)

    def j(v):
        return {"journal_title": ["Phys.Rev."], "journal_volume": [v], "journal_year": ["1996"], "journal_page": ["65"],
                "journal_reference": ["Phys.Rev.," + v + ",65"], "year": ["1996"]}
    if k == "journal":
        t = "[%d] Phys. Rev. " % (i + 1) + d + " (1996) 65"
        return t, dict(j(d), linemarker=[str(i + 1)], raw_ref=[t])
    if k == "text":
        t = "qk" + ctx.char("w%d" % i, "kqz") + " zzq"
        return t, {"raw_ref": [t], "misc": [t]}
    if k == "empty":
        return "", {"raw_ref": [""]}
    if k == "two":
        t = "Phys. Rev. " + d + " (1996) 65; DESY-98-123"
        return t, dict(j(d), raw_ref=[t])
    t = {"none": None, "number": 7, "bytes": b"[1] Phys. Rev. 53 (1996) 65"}[k]
    return t, {"raw_ref": [t]}


BAD = (("QKZ",),)


def h_list(ctx):
    small_defaults(ctx)
    n = ctx.choice("n", (0, 1, 2, 3))
    items = [item(ctx, i, KINDS if i < 2 else ("journal", "empty", "none")) for i in range(n)]
    inputs = [x for x, _ in items]
    bad = n < 3 and ctx.choice("bad", (False, True))
    r = ctx.call(ctx.get(EX + ":extract_references_from_list"), inputs, BAD if bad else JOURNALS)
    exp = [{"raw_ref": [x]} if bad else e for x, e in items]
    if bad:
        # nothing to extract from an empty text, so nothing fails either
        exp = [{"raw_ref": [x]} for x in inputs]
    ctx.observe("inputs", inputs)
    ctx.observe("result", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "does not raise", detail=r.exc_name)
    if r.ok:
        ctx.check(eq(r.value, {"extracted_references": exp}), "one result per input, in order", detail=[r.value, exp])


PUB = ("journal", "text", "missing", "blank", "null")


def pub(ctx, i, kinds=PUB):
    k = ctx.choice("k%d" % i, kinds)
    if k == "journal":
        v = ctx.string("d%d" % i, 2, 2, DIGITS)
        return {"pubinfo_freetext": "Phys. Rev. " + v + " (1996) 65"}, {
            "title": "Phys.Rev.", "volume": v, "year": "1996", "page": "65"}
    if k == "text":
        return {"pubinfo_freetext": "qk" + ctx.char("w%d" % i, "kqz")}, {}
    if k == "missing":
        return {"other": 1}, {}
    return {"pubinfo_freetext": "" if k == "blank" else None}, {}


def h_journal_info(ctx):
    small_defaults(ctx)
    n = ctx.choice("n", (0, 1, 2, 3))
    items = [pub(ctx, i, PUB if i < 2 else ("journal", "text", "missing")) for i in range(n)]
    r = ctx.call(ctx.get(EX + ":extract_journal_info"), [x for x, _ in items], JOURNALS)
    ctx.observe("inputs", [x for x, _ in items])
    ctx.observe("result", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "does not raise", detail=r.exc_name)
    if r.ok:
        out = r.value and r.value.get("extracted_publication_infos")
        ctx.check(out is not None and len(out) == n, "one mapping per input", detail=r.value)
        if out is not None and len(out) == n:
            for o, (_, e) in zip(out, items):
                if e:
                    ctx.check(eq({k: o.get(k) for k in e}, e), "journal of this input", detail=[o, e])
                else:
                    ctx.check(eq(o, {}), "empty mapping where no journal is found", detail=o)


def h_journal_info_fail(ctx):
    """failures: malformed knowledge base or input"""
    small_defaults(ctx)
    bad = ctx.choice("bad", ("kb", "item", "type", "none"))
    infos = [pub(ctx, 0, ("journal",))[0]]
    if bad == "item":
        infos.insert(ctx.choice("pos", (0, 1)), {"pubinfo_freetext": 7})
    if bad == "type":
        infos.insert(ctx.choice("pos", (0, 1)), "text")
    r = ctx.call(ctx.get(EX + ":extract_journal_info"), None if bad == "none" else infos, BAD if bad == "kb" else JOURNALS)
    ctx.observe("result", r.value if r.ok else r.exc_name)
    ctx.check(r.ok and r.value is None, "None after a failure", detail=r.exc_name)


def h_text(ctx):
    small_defaults(ctx)
    bad = ctx.choice("bad", ("", "kb", "none", "number"))
    v, w = ctx.string("v", 2, 2, DIGITS), ctx.string("w", 2, 2, DIGITS)
    sep = ctx.choice("sep", ("\n", "\n\n", "\n \n"))
    text = "[1] Phys. Rev. " + v + " (1996) 65" + sep + "[2] JHEP " + w + " (1998) 123"
    arg = {"none": None, "number": 5}.get(bad, text)
    r = ctx.call(ctx.get(EX + ":extract_references_from_text"), arg, BAD if bad == "kb" else JOURNALS)
    ctx.observe("text", text)
    ctx.observe("result", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "does not raise", detail=r.exc_name)
    if r.ok and bad:
        ctx.check(r.value is None, "None after a failure", detail=r.value)
    elif r.ok:
        refs = r.value["extracted_references"]
        ctx.check(eq([f.get("journal_reference") for f in refs], [["Phys.Rev.," + v + ",65"], ["JHEP,98" + w + ",123"]]),
                  "all references in the text format", detail=refs)
        ctx.check(eq([f.get("linemarker") for f in refs], [["1"], ["2"]]), "markers")


def h_url(ctx):
    small_defaults(ctx)
    bad = ctx.choice("bad", ("", "kb", "404", "500", "network", "binary", "url"))
    body = b"Qk\n\nReferences\n\n[1] Phys. Rev. 53 (1996) 65\n[2] JHEP 05 (1998) 123\n"
    if bad == "binary":
        body = b"\x00\x01\x02\xff" * 50

    def answer(url, headers):
        if bad == "network":
            raise requests.exceptions.ConnectionError("down")
        return Response({"404": 404, "500": 500}.get(bad, 200), [body[:30], body[30:]])
    network(ctx, answer)
    scratch(ctx)
    r = ctx.call(ctx.get(EX + ":extract_references_from_file_url"), None if bad == "url" else "http://qk.zz/a.pdf",
                 BAD if bad == "kb" else JOURNALS)
    ctx.observe("result", r.value if r.ok else r.exc_name)
    ctx.check(r.ok, "does not raise", detail=r.exc_name)
    if r.ok and bad:
        ctx.check(r.value is None, "None after a failure", detail=r.value)
    elif r.ok:
        refs = r.value["extracted_references"]
        ctx.check(eq([f.get("journal_reference") for f in refs], [["Phys.Rev.,53,65"], ["JHEP,9805,123"]]),
                  "all references of the document", detail=refs)


N = (CFG, KCFG)
HARNESSES = [
    Harness("list", h_list, "0-3 inputs of 7 kinds, knowledge base good or malformed", needs=N),
    Harness("journal_info", h_journal_info, "0-3 inputs of 5 kinds", needs=N),
    Harness("journal_info_fail", h_journal_info_fail, "4 kinds of failure", needs=N),
    Harness("text", h_text, "two references, 3 separators, 4 outcomes", needs=N),
    Harness("url", h_url, "7 outcomes of download and extraction", needs=N),
]
