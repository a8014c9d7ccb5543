FIND = "refextract/references/find.py"
ENG = "refextract/references/engine.py"
TXT = "refextract/references/text.py"
DTXT = "refextract/documents/text.py"
KBS = "refextract/references/kbs.py"
TAG = "refextract/references/tag.py"
RX = "refextract/references/regexs.py"
PDF = "refextract/references/pdf.py"
REC = "refextract/references/record.py"
API = "refextract/references/api.py"
EXT = "refextract/extract.py"
ARX = "refextract/authors/regexs.py"
SEEDS = [
 dict(id="c04-footer", property="C04", needs="lines before the page breaks that agree on every page but the last",
  breaks="text above the last page break is removed as footer although it is none",
  edits=[(DTXT, "while (cur_break < num_breaks) and keep_checking:", "while (cur_break < num_breaks - 1) and keep_checking:")],
  demo='''
from refextract.documents.text import remove_page_boundary_lines
doc = ["a\\n", "b\\n", "foot\\n", "\\f\\n", "c\\n", "d\\n", "foot\\n", "\\f\\n", "e\\n", "f\\n", "foot\\n", "\\f\\n", "g\\n", "h\\n", "important text\\n", "\\f\\n", "i\\n"]
r = remove_page_boundary_lines(list(doc))
check("important text\\n" in r, r)
'''),
 dict(id="c06-window", property="C06", needs="a section-title look-alike between references more than 150 lines apart",
  breaks="the section ends too early, later references are lost",
  edits=[(FIND, "while y < x + 200 and", "while y < x + 150 and")],
  demo='''
doc = ["intro", "References", "[1] first", "Appendix"] + ["word"] * 180 + ["[2] second"]
r = extract_references_from_fulltext(list(doc))[0]
check(any("second" in x for x in r), r)
'''),
 dict(id="c08-url", property="C08", needs="a URL followed by a comma",
  breaks="the comma after a URL is absorbed into the URL",
  edits=[(TAG, 'matched_url[-1] in (".", ",")', 'matched_url[-1] == "."')],
  demo='''
r = refs("see http://www.kk.org/qq?a=1, yes")
check(r[0].get("url") == ["http://www.kk.org/qq?a=1"], r)
'''),
 dict(id="c08-html", property="C08", needs="an HTML link and a raw URL before it in one line",
  breaks="URLs come out in another order than that of the line",
  edits=[(TAG, "    found_url_positions = sorted(found_url_urlstring.keys())\n", "    found_url_positions = list(found_url_urlstring)\n")],
  demo='''
r = refs('see http://aa.org/b and <a href="http://cc.org/d">desc</a>')
check([u for x in r for u in x.get("url", [])] == ["http://aa.org/b", "http://cc.org/d"], r)
'''),
 dict(id="c09-month", property="C09", needs="a report number of the yymm style with month 12",
  breaks="report numbers of December are not recognised",
  edits=[(KBS, '("mm", r"(0[1-9]|1[0-2])")', '("mm", r"(0[1-9]|1[01])")')],
  demo='''
kb = ["*****QKR*****", "<syymm999>", "QKR TH---QKR-TH"]
r = refs("A. Smith, QKR-TH-9812345", override_kbs_files={"report-numbers": kb})
check(r[0].get("reportnumber") == ["QKR-TH-9812345"], r)
'''),
 dict(id="c11-extras", property="C11", needs="punctuation and several spaces inside a report number, in front of more text",
  breaks="the end of a report number with two gaps inside leaks into the text",
  edits=[(TAG, """            # An institutional preprint report-number is being replaced.
            # Account for multi-spaces that may have been stripped from it
            # before its recognition:
            spare_replacement_index += removed_spaces[space]
            extras += removed_spaces[space]""", """            # An institutional preprint report-number is being replaced.
            # Account for multi-spaces that may have been stripped from it
            # before its recognition:
            spare_replacement_index += removed_spaces[space]
            extras = removed_spaces[space]""")],
  demo='''
r = refs("see DESY. - 98. - 123 yqk")
check(r[0].get("reportnumber") == ["DESY-98-123"] and r[0]["misc"][-1] == "yqk", r)
'''),
 dict(id="c12-pos", property="C12", needs="a non-ASCII decimal digit as number of a marker",
  breaks="parsing fails for a section numbered with non-ASCII digits",
  edits=[(TXT, """            except ValueError:
                # If the mark""", """            except UnicodeError:
                # If the mark""")],
  demo='''
'''),
 dict(id="c16-misc", property="C16", needs="text that ends in an opening bracket before a recognised item",
  breaks="a stray bracket stays in the text fields",
  edits=[(REC, 'rstrip("[({ ,.")', 'rstrip("[( ,.")')],
  demo='''
r = refs("see aa {Phys. Rev. D 53 (1996) 65}")
check(r[0]["misc"] == ["see aa"], r)
'''),
 dict(id="c18-spaces", property="C18", needs="a tab or no-break space run in a reference",
  breaks="white space other than blanks is left in the line",
  edits=[(DTXT, 're_multiple_space = re.compile(r"\\s{2,}", re.UNICODE)', 're_multiple_space = re.compile(r" {2,}", re.UNICODE)')],
  demo='''
from refextract.references.text import wash_and_repair_reference_line as w
check(w("ab \\t cd") == "ab cd", w("ab \\t cd"))
'''),
 dict(id="c19-cache", property="C19", needs="a call with an override after which the same knowledge base is used without override, twice",
  breaks="the override of an earlier call stays in force",
  edits=[(KBS, "        if kb != cache_inputs.get(kb_type):\n", "        if kb_type not in cache or (custom_kbs and kb != cache_inputs.get(kb_type)):\n")],
  demo='''
kb = [("QKQ JOURNAL", "Qkq.J.")]
a = refs("A. Smith, Phys. Rev. D 53 (1996) 65", override_kbs_files={"journals": kb})
b = refs("A. Smith, Phys. Rev. D 53 (1996) 65")
check("journal_title" not in a[0] and b[0].get("journal_title") == ["Phys. Rev."], (a, b))
'''),
 dict(id="c20-empty", property="C20", needs="an entry with an empty free text among others",
  breaks="the result of an empty entry is left out, later results shift",
  edits=[(EXT, """                extracted_publication_infos.append({})
                continue""", """                continue""")],
  demo='''
from refextract.extract import extract_journal_info as x
r = x([{"pubinfo_freetext": ""}, {"pubinfo_freetext": "Phys. Rev. D 53 (1996) 65"}], {"PHYS REV": "Phys.Rev."})
check(len(r["extracted_publication_infos"]) == 2, r)
'''),
 dict(id="c20-first", property="C20", needs="a raw reference for which nothing is extracted",
  breaks="the failed reference is dropped, later results shift",
  edits=[(EXT, """            else:
                extracted_references.append({"raw_ref": [reference]})
        except""", """        except""")],
  demo='''
from refextract.extract import extract_references_from_list as x
r = x(["", "Phys. Rev. D 53 (1996) 65"], {"PHYS REV": "Phys.Rev."})
check(len(r["extracted_references"]) == 2, r)
'''),
 dict(id="c21-cutoff", property="C21", needs="exactly three aligned keys in the right column",
  breaks="such a bibliography is read as one column, keys are mixed",
  edits=[(PDF, "if xpos_count[xpos] >= cutoff:", "if xpos_count[xpos] > cutoff:")],
  demo='''
from refextract.references import pdf
class B: lower_right = (600, 0)
class P: cropbox = B()
class D:
    def __init__(s, l, t): s.left, s.top = l, t
class F:
    pages = [P()]
    def get_destination_page_number(s, d): return 0
ds = [("a", D(50, 700)), ("b", D(320, 700)), ("c", D(320, 600)), ("d", D(320, 500))]
check(pdf._destinations_in_two_columns(F(), ds))
'''),
 dict(id="c22-words", property="C22", needs="a knowledge base in which a title of more words is shorter than one of fewer words it is contained in",
  breaks="the shorter of two overlapping titles wins",
  edits=[(KBS, "    seek_phrases.sort(key=len, reverse=True)\n", "    seek_phrases.sort(key=lambda t: len(t.split()), reverse=True)\n")],
  demo='''
kb = [("A QK", "Aqk"), ("BETAQK", "Bqk"), ("QKQKQK", "Long"), ("QK A", "Q.A.")]
r = refs("see QKQKQK-A 5 (2000) 12", override_kbs_files={"journals": [("QKQKQK A", "Long"), ("QKQKQK", "Short")]})
check(r[0].get("journal_title") == ["Long"], r)
r = refs("see QKQKQKQK LETT 5 (2000) 12", override_kbs_files={"journals": [("A LETT B", "x"), ("QKQKQKQK LETT", "Long"), ("LETT", "Short"), ("B C D QK", "Y")]})
check(r[0].get("journal_title") == ["Long"], r)
'''),
 dict(id="c25-first", property="C25", needs="two years in one piece of text",
  breaks="the last instead of the first year is reported",
  edits=[(ENG, "                m = re_year_in_misc_txt.search(el[\"misc_txt\"])\n                if m:\n                    year = m.group(0)",
               "                m = re_year_in_misc_txt.findall(el[\"misc_txt\"])\n                if m:\n                    year = m[-1] if isinstance(m[-1], str) else m[-1][0]")],
  demo='''
r = refs("kq 1998, aa 2001 bb")
check(r[0].get("year") == ["1998"], r)
'''),
 dict(id="c25-book", property="C25", needs="a reference with a book and a journal of other years",
  breaks="year of the misc text instead of that of the journal",
  edits=[(ENG, "                year = el[\"year\"]\n                break\n", "                year = el[\"year\"]\n")],
  demo='''
r = refs('"Kqz qzk" Phys. Rev. D 53 (1996) 65', override_kbs_files={"books": [("Qq", "Kqz qzk", "1988;")]})
check(r[0].get("year") == ["1988"], r)
'''),
 dict(id="c26-lines", property="C26", needs="a form feed or another line separator of Unicode inside a string of references",
  breaks="the reference is split there",
  edits=[(API, 'docbody = source.split("\\n")', 'docbody = source.splitlines()')],
  demo='''
from refextract import extract_references_from_string as x
r = x("A. Smith, aa\\x0bBb cc\\nB. Jones, dd")
check(len(r) == 2, r)
'''),
 dict(id="c10-issue", property="C10", needs="a numeration with page range and the year in front",
  breaks="the end page is lost",
  edits=[(TAG, """                "page_end": info["page_end"],
                "len": len(info["aftertitle"]),""", """                "page_end": None,
                "len": len(info["aftertitle"]),""")],
  demo='''
r = refs("1996, Phys. Rev. 53, 65-72")
check(r[0].get("journal_page") == ["65-72"], r)
'''),
]
