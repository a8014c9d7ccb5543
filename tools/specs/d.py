KBS = "refextract/references/kbs.py"
TAG = "refextract/references/tag.py"
API = "refextract/references/api.py"
EXT = "refextract/extract.py"
SEEDS = [
 dict(id="c12-archive", property="C12", needs="an old-style arXiv number of a mathematics class, such as math.AG",
  breaks="the whole extraction fails with a KeyError",
  edits=[(TAG, "old_arxiv.get(name.lower()) or name", "old_arxiv[name.lower()] or name")],
  demo='''
r = refs("A. Smith, math.AG/0312345")
check(r and r[0].get("reportnumber") == ["math.AG/0312345"], r)
'''),
 dict(id="c09-case", property="C09", needs="a misspelled archive name that is not in lower case",
  breaks="the misspelling is no longer corrected",
  edits=[(TAG, "old_arxiv.get(name.lower()) or name", "old_arxiv.get(name) or name")],
  demo='''
r = refs("A. Smith, HEPTH/0312345")
check(r and r[0].get("reportnumber") == ["hep-th/0312345"], r)
'''),
 dict(id="c19-first", property="C19", needs="a custom knowledge base in the very first call",
  breaks="the custom knowledge base is ignored in the first call, the answer depends on whether there was an earlier one",
  edits=[(KBS, "for (kb_type, kb) in custom_kbs.items() if kb})", "for (kb_type, kb) in custom_kbs.items() if kb and kb_type in cache_inputs})")],
  demo='''
r = refs("A. Smith, Qk Zq 5 (2000) 12", override_kbs_files={"journals": {"QK ZQ": "YY"}})
check(r[0].get("journal_title") == ["YY"], r)
'''),
 dict(id="c22-hash", property="C22", needs="an author replacement with a number sign inside the entry",
  breaks="the entry is taken for a comment and has no effect",
  edits=[(KBS, "            if rawline.startswith(\"#\"):\n                continue\n\n            # Extract the seek->replace terms from this KB line:\n            m_kb_line = re_kb_line.search(rawline)\n            if m_kb_line:\n                seek", "            if \"#\" in rawline:\n                continue\n\n            # Extract the seek->replace terms from this KB line:\n            m_kb_line = re_kb_line.search(rawline)\n            if m_kb_line:\n                seek")],
  demo='''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.kb")
    with open(p, "w") as f:
        f.write("Du#rand---Durand\\n")
    r = refs("A. Du#rand, Phys. Lett. B 5 (2000) 12", override_kbs_files={"authors": p})
check(r[0].get("author") == ["A. Durand"], r)
'''),
 dict(id="c27-split", property="C27", needs="a line whose first journal stands after a part without journal",
  breaks="no journal reference is returned",
  edits=[(API, "    for elements in references:\n        for el in elements:\n            if el[\"type\"] == \"JOURNAL\":", "    for elements in references[:1]:\n        for el in elements:\n            if el[\"type\"] == \"JOURNAL\":")],
  demo='''
from refextract import extract_journal_reference
r = extract_journal_reference("A. Smith, hep-th/0312345; B. Jones, Phys. Lett. B 5 (2000) 12")
check(r and r["page"] == "12", r)
'''),
 dict(id="c27-last", property="C27", needs="a line with two journals",
  breaks="the last journal is returned, not the first",
  edits=[(API, "    for elements in references:\n        for el in elements:\n            if el[\"type\"] == \"JOURNAL\":\n                return el", "    found = None\n    for elements in references:\n        for el in elements:\n            if el[\"type\"] == \"JOURNAL\":\n                found = el\n    return found")],
  demo='''
from refextract import extract_journal_reference
r = extract_journal_reference("Phys. Lett. B 7 (1999) 3, Phys. Lett. B 5 (2000) 12")
check(r and r["page"] == "3", r)
'''),
]
