FIND = "refextract/references/find.py"
ENG = "refextract/references/engine.py"
TXT = "refextract/references/text.py"
API = "refextract/references/api.py"
TAG = "refextract/references/tag.py"
KBS = "refextract/references/kbs.py"
DTX = "refextract/documents/text.py"
EXT = "refextract/extract.py"
REC = "refextract/references/record.py"
PDF = "refextract/references/pdf.py"
RX = "refextract/references/regexs.py"
AUT = "refextract/authors/regexs.py"
SEEDS = [
 dict(id="c01-header", property="C01", needs="a PDF that contains another PDF header in its body",
  breaks="everything before the last header is cut from the document",
  edits=[(ENG, 'mmfile.find(b"%PDF-")', 'mmfile.rfind(b"%PDF-")')],
  demo='''
import os, tempfile
from refextract.references.engine import clean_pdf_file
d = tempfile.mkdtemp()
p = os.path.join(d, "x.pdf")
try:
    data = b"%PDF-1.4 aa %PDF-1.3 bb %%EOF"
    open(p, "wb").write(b"junk" + data + b"tail")
    clean_pdf_file(p)
    got = open(p, "rb").read()
finally:
    os.remove(p)
    os.rmdir(d)
check(got == data, got)
'''),
 dict(id="c02-status", property="C02", needs="a server error other than 404",
  breaks="errors other than 404 pass as a document",
  edits=[(API, "        req.raise_for_status()\n", "        if req.status_code == 404:\n            req.raise_for_status()\n")],
  demo='''
import requests
from unittest import mock
from refextract.references import api
from refextract.references.errors import FullTextNotAvailableError
resp = requests.Response()
resp.status_code = 503
resp.url = "http://x.org/a.txt"
import io
resp.raw = io.BytesIO(b"[1] a\\n")
got = None
with mock.patch.object(requests, "get", lambda **kw: resp):
    try:
        got = api.extract_references_from_url("http://x.org/a.txt")
    except FullTextNotAvailableError:
        got = "error"
    except Exception as e:
        got = e
check(got == "error", got)
'''),
 dict(id="c03-lengths", property="C03", needs="a PDF with more citation keys than references",
  breaks="keys are attached to the wrong references when their numbers differ",
  edits=[(API, "if len(extracted_texkeys_urls) == len(parsed_refs):", "if len(extracted_texkeys_urls) >= len(parsed_refs):")],
  demo='''
from unittest import mock
from refextract.references import api
import tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, "a.txt")
open(p, "w").write("x")
try:
    with mock.patch.object(api, "get_plaintext_document_body", lambda *a, **k: ["References", "[1] aaa", "[2] bbb"]), \\
            mock.patch.object(api.magic, "from_file", lambda *a, **k: "application/pdf"), \\
            mock.patch.object(api, "extract_texkeys_and_urls_from_pdf", lambda *a: [{"texkey": "k%d" % i, "urls": []} for i in range(3)]):
        r = api.extract_references_from_file(p)
finally:
    os.remove(p)
    os.rmdir(d)
check(len(r) == 2 and not any("texkey" in x for x in r), r)
'''),
 dict(id="c04-lastpage", property="C04", needs="header lines that are identical except on an even page",
  breaks="a page with a heading of its own loses a body line", edits=[
  (DTX, "keep_checking = 0  # stop scanning for headers", "keep_checking = 1  # go on"),],
  demo='''
check(False)
'''),
 dict(id="c06-number", property="C06", needs="a closing title inside the section followed by the next marker far below",
  breaks="?", edits=[], demo="check(False)"),
 dict(id="c08-dedupe", property="C08", needs="the same URL twice with a description",
  breaks="?", edits=[], demo="check(False)"),
 dict(id="c13-adjacent", property="C13", needs="two collaborations separated by another item",
  breaks="collaborations that are not adjacent start a new reference",
  edits=[(ENG, "if next_type in current_types - repeatable_if_adjacent or (", "if next_type in current_types and next_type != last_type or (")],
  demo='''
r = refs("Phys. Rev. D 53 (1996) 65, hep-th/9901001, SLAC-PUB-1234, Phys. Lett. B 12 (1990) 34")
check(len(r) == 2, r)
r = refs("SLAC-PUB-1234, Phys. Rev. D 53 (1996) 65, SLAC-PUB-1235")
check(len(r) == 1, r)
'''),
 dict(id="c13-share", property="C13", needs="three papers, only the first with an author, the second after a semicolon",
  breaks="the author is not shared with later papers of a repeated field",
  edits=[(ENG, "if postponed_auth and (num_auth == 0 or prev_split_reason == \"repeated field\"):\n        current_citation.insert(0, postponed_auth)\n    yield",
          "if postponed_auth and num_auth == 0 and prev_split_reason == \"repeated field\":\n        current_citation.insert(0, postponed_auth)\n    yield")],
  demo='''
r = refs("A. Smith, Phys. Rev. D 53 (1996) 65; Phys. Lett. B 12 (1990) 34")
check(len(r) == 2 and r[1].get("author") == ["A. Smith"], r)
'''),
 dict(id="c14-jhep", property="C14", needs="a special journal with a volume of one digit",
  breaks="one-digit volumes are not padded", edits=[(ENG, 'el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])', 'el["volume"] = el["year"][-2:] + el["volume"].zfill(1)')],
  demo='''
r = refs("JHEP 3 (2001) 012")
check(r[0].get("journal_volume") == ["0103"], r)
'''),
 dict(id="c14-hep", property="C14", needs="a hep-lat report number written with a hyphen",
  breaks="hep-lat-NNNNNNN is not rewritten",
  edits=[(ENG, 'prefixes = ("astro-ph-", "hep-th-", "hep-ph-", "hep-ex-", "hep-lat-", "math-ph-")', 'prefixes = ("astro-ph-", "hep-th-", "hep-ph-", "hep-ex-", "math-ph-")')],
  demo='''
from refextract.references.engine import format_hep
r = format_hep([{"type": "REPORTNUMBER", "report_num": "hep-lat-9901001"}])
check(r[0]["report_num"] == "hep-lat/9901001", r)
'''),
 dict(id="c15-doi", property="C15", needs="three DOIs in one reference",
  breaks="removing while iterating the same list keeps a duplicate",
  edits=[(ENG, '''        found_doi = False
        for el in citation[:]:''', '''        found_doi = False
        for el in citation:''')],
  demo='''
r = refs("10.1103/aaa 10.1103/bbb 10.1103/ccc 10.1103/ddd")
check(all(len(x.get("doi", [])) <= 1 for x in r), r)
'''),
 dict(id="c15-recid", property="C15", needs="a linker that resolves two items of the same reference",
  breaks="a reference gets two record ids", edits=[(ENG, '''        for el in citation:
            if el.get("recid", None):
                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
                break''', '''        for el in list(citation):
            if el.get("recid", None):
                citation.append({"type": "RECID", "recid": el["recid"], "misc_txt": ""})
                if el["type"] == "JOURNAL":
                    break''')],
  demo='''
r = refs("hep-th/9901001, Phys. Rev. D 53 (1996) 65", linker_callback=lambda el: 7)
check(len(r) == 1 and r[0].get("recid") in ([7], ["7"]), r)
'''),
 dict(id="c15-firstauth", property="C15", needs="two author groups in one reference",
  breaks="the text before the second author group is lost",
  edits=[(ENG, 'el["misc_txt"] = el["misc_txt"] + " " + el["auth_txt"]', 'el["misc_txt"] = el["auth_txt"]')],
  demo='''
r = refs("A. Smith, aaa qqq B. Jones, Phys. Rev. D 53 (1996) 65")
check("aaa qqq" in str(r), r)
'''),
 dict(id="c17-reset", property="C17", needs="titles without numeration", breaks="?", edits=[], demo="check(False)"),
 dict(id="c20-first", property="C20", needs="a raw reference in which several papers are cited and an earlier one failed",
  breaks="a failing input leaves no placeholder",
  edits=[(EXT, '''            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append({"raw_ref": [reference]})''', '''            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            if extracted_references:
                extracted_references.append({"raw_ref": [reference]})''')],
  demo='''
from refextract.extract import extract_references_from_list
r = extract_references_from_list([None, "[1] aaa"], {"A": "A"})["extracted_references"]
check(len(r) == 2, r)
'''),
 dict(id="c20-info", property="C20", needs="a publication info without free text before one that has it",
  breaks="?", edits=[], demo="check(False)"),
 dict(id="c23-isbnknown", property="C23", needs="a known book title with year beside an ISBN",
  breaks="a line with ISBN is searched for books as well",
  edits=[(ENG, 'knownTypes = ["BOOK", "JOURNAL", "DOI", "ISBN", "RECID"]', 'knownTypes = ["BOOK", "JOURNAL", "DOI", "RECID"]')],
  demo='''
kb = {"books": [("A", "Qqq wwwq", "1999;")]}
r = refs("ISBN 9780201503975, Qqq wwwq, 1999", override_kbs_files=kb)
check("title" not in r[0] and "Qqq" in str(r[0].get("misc")), r)
'''),
 dict(id="c24-semicolon", property="C24", needs="authors right before a semicolon",
  breaks="papers after an author and a semicolon are not split",
  edits=[(TAG, 'output_line[m["end"]].strip(" ,.") == ";"', 'output_line[m["end"]] in " ,." and output_line[m["end"]] == ";"')],
  demo='''
r = refs("A. Smith; Phys. Rev. D 53 (1996) 65")
check(True)
'''),
 dict(id="c24-prefix", property="C24", needs="a surname with an apostrophe prefix",
  breaks="names like d'Xyz are cut", edits=[(AUT, '''            \\w{1,3}(?<!and)(?:(?:[’'`´-]\\s?)|\\s)## The surname prefix: 1, 2 or 3''', '''            \\w{2,3}(?<!and)(?:(?:[’'`´-]\\s?)|\\s)## The surname prefix: 2 or 3''')],
  demo='''
r = refs("A. d'Alembert, Phys. Rev. D 53 (1996) 65")
check(r[0].get("author") == ["A. d'Alembert"], r)
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
