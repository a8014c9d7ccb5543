FIND = "refextract/references/find.py"
ENG = "refextract/references/engine.py"
TXT = "refextract/references/text.py"
SEEDS = [
 dict(id="c05-window", property="C05", needs="two titles; the marker of the first reference exactly five lines after the first of them",
  breaks="a running head later in the document is taken as start of the section, so the first references are lost",
  edits=[(FIND, "docbody[index : index + 6], title", "docbody[index : index + 5], title")],
  demo='''
doc = ["intro", "References", "aa", "bb", "cc", "dd", "[Ab] first", "[Bc] second", "References", "[Cd] third"]
r = extract_references_from_fulltext(list(doc))[0]
check(any("first" in x for x in r) and len(r) == 4, r)
'''),
 dict(id="c07-hyphen", property="C07", needs="unmarked references, one ending a line in a hyphen with the next line starting in upper case",
  breaks="a reference broken at a hyphen before an upper-case word is split in two",
  edits=[(TXT, 're.compile(r"[,&-]$")', 're.compile(r"[,&]$")')],
  demo='''
r = extract_references_from_fulltext(["x", "References", "A. Smith, Anti-", "Desitter space", "B. Jones, Other"])[0]
check(r == ["A. Smith, AntiDesitter space", "B. Jones, Other"], r)
'''),
 dict(id="c13-semicolon", property="C13", needs="two semicolons before a recognised item",
  breaks="text of the second citation is put into the first one",
  edits=[(ENG, 'misc, el["misc_txt"] = el["misc_txt"].split(";", 1)', 'misc, el["misc_txt"] = el["misc_txt"].rsplit(";", 1)')],
  demo='''
r = refs("Phys. Rev. D 53 (1996) 65; see aaa; Phys. Lett. B 12 (1990) 34")
check(len(r) == 2 and "see aaa" not in str(r[0]) and "see aaa" in str(r[1]), r)
'''),
 dict(id="c14-roman", property="C14", needs="a roman volume with a subtractive pair after a larger symbol (XIV)",
  breaks="such a roman volume is converted to a wrong number",
  edits=[(ENG, "        p = n\n", "        p = max(p, n)\n")],
  demo='''
r = refs("Phys. Rev. XIV (1996) 65")
check(r[0].get("journal_volume") == ["14"], r)
'''),
 dict(id="c15-lookup", property="C15", needs="a linker that raises IndexError for one item",
  breaks="a lookup failure of the linker aborts the parsing",
  edits=[(ENG, "except (IndexError, KeyError):", "except KeyError:")],
  demo='''
def link(el):
    return [][0]
try:
    r = refs("Phys. Rev. D 53 (1996) 65", linker_callback=link)
except IndexError:
    r = None
check(r is not None and "recid" not in r[0], r)
'''),
 dict(id="c17-misc", property="C17", needs="a line that ends in text of one or two characters after the last item",
  breaks="short miscellaneous texts at line ends are neither counted nor reported",
  edits=[(ENG, 'len(cur_misc_txt.strip(" .;,")) > 0', 'len(cur_misc_txt.strip(" .;,")) > 2')],
  demo='''
s = parse_references(["Phys. Rev. D 53 (1996) 65 qk"])[1]
check(s["misc"] == 1, s)
'''),
]
