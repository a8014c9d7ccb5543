#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


ENG = "refextract/references/engine.py"
TAG = "refextract/references/tag.py"
RX = "refextract/references/regexs.py"
TXT = "refextract/references/text.py"
FIND = "refextract/references/find.py"
REC = "refextract/references/record.py"
API = "refextract/references/api.py"
DTXT = "refextract/documents/text.py"
DPDF = "refextract/documents/pdf.py"
RPDF = "refextract/references/pdf.py"
KBS = "refextract/references/kbs.py"
EXT = "refextract/extract.py"
AUT = "refextract/authors/regexs.py"

prop("C01", "Cleaning a PDF keeps exactly the bytes of the PDF document",
     "Before a document is read, junk around a PDF is cut off in place: exactly the bytes from the "
     "first '%PDF-' marker through the last '%%EOF' marker remain, or through the end of the file when "
     "no end marker follows that header. A file without a '%PDF-' marker keeps every byte. No file "
     "content makes the clean-up fail.",
     ["inputs"], "every byte content of the input file",
     "The test suite only opens well-formed PDF fixtures; the position, absence and order of the two "
     "markers is never varied.",
     [ENG], [("clean_pdf_file", ENG)], ["content of the file after extraction starts"])
prop("C02", "URL extraction: body intact, temp file always removed, errors mapped",
     "Extracting from a URL hands the extractor a temporary file whose content is the response body, "
     "its chunks in order, together with all options of the caller, and returns what extraction "
     "returns. The temporary file is gone afterwards on every outcome: success, HTTP error, network "
     "failure before or during the transfer, or failure of the extraction. An HTTP error becomes the "
     "full-text-not-available error and any other failure propagates unchanged.",
     ["inputs", "fault_sequences"], "every sequence of body chunks and every point at which the "
     "transfer or the extraction fails",
     "Tests download one good file; no test makes the transfer fail half-way and looks at the "
     "temporary directory.",
     [API], [("extract_references_from_url", API)], ["temporary directory", "return value", "exception"])
prop("C03", "File extraction dispatches on type and attaches PDF keys by position",
     "A missing path raises full-text-not-available and a file that is neither PDF nor plain text "
     "raises unknown-document-type; plain text is used line by line; a PDF is converted in raw order "
     "and re-converted with layout only when the first conversion yields no reference. Citation keys "
     "and link URLs stored in a PDF are added to the parsed references position by position, URLs "
     "without duplicates, only when there are exactly as many as parsed references; otherwise the "
     "parsed references are returned unchanged. In the converted text a page break that leads a line "
     "of text becomes a line of its own and no other text is altered.",
     ["inputs", "configurations"], "every document type, every conversion output and every list of keys "
     "and URLs in the PDF",
     "Tests run a few PDFs in which the counts happen to match or not; the decision table over type, "
     "empty first conversion, count mismatch and duplicate URLs is not covered.",
     [API, ENG, DPDF], [("extract_references_from_file", API), ("get_plaintext_document_body", ENG),
                        ("convert_PDF_to_plaintext", DPDF)], ["references returned", "exception"])
prop("C04", "Page clean-up removes only page breaks and repeated headers and footers",
     "In a document with several page breaks, the lines repeated at the top of the pages and those repeated "
     "at the bottom are removed together with the page breaks, and every other line is kept unchanged and in "
     "order. Headers are looked for with four page breaks or more and removed after every break but the last, "
     "footers with three or more and before every break but the first. Lines count as repeated when nine of "
     "ten words agree (in first and last letter, or both being numbers), blank ones when all are blank; with more than four "
     "breaks headers need to agree on every second page only. A document without text, with at most one page break, or "
     "with a page that header and footer would consume is returned unchanged.",
     ["inputs"], "every number of pages, header and footer height and line content",
     "Tests check one or two documents; off-by-one errors on the first or last break, or for a header "
     "or footer height that the fixtures lack, go unseen.",
     [DTXT], [("remove_page_boundary_lines", DTXT), ("strip_headers_footers_pagebreaks", DTXT)],
     ["list of lines after clean-up"])
prop("C05", "The reference section starts at the right line",
     "The reference section starts at the line that carries a reference-section title. Where several "
     "lines carry it (running heads), it is the first of them that is followed within five lines by the "
     "first reference marker (numbered 1, or a key), or the first of all if none is. The title itself is "
     "not part of any reference, whether it stands alone or on the line of the first marker. With no "
     "title, the section starts at the last line numbered 1 whose successor numbered 2 appears within the "
     "next ten lines or which lies within the last five lines of the document, looking for [1] first, "
     "then 1., then a bare 1. No text before the start is part of a reference.",
     ["inputs"], "every document: position and spelling of titles, numbering style, distance between "
     "the first two markers",
     "Tests pin a handful of documents; the interplay of several titles, decoy markers and distances "
     "is combinatorial.",
     [FIND, TXT, RX], [("get_reference_section_beginning", FIND), ("find_reference_section", FIND),
                       ("find_reference_section_no_title_generic", FIND), ("get_reference_lines", TXT)],
     ["section start", "reference lines"])
prop("C06", "The reference section ends exactly where the references end",
     "The section ends on the line before the first line that is the title of a following section (such "
     "as appendix, acknowledgements, figures or tables) or a closing keyword, provided that no line "
     "carrying the next reference number (beside that number, some text) is found among the 199 lines after it, "
     "and before the first of four number-laden lines (more than ten digits each, blank lines between "
     "them not counted); otherwise it ends at the last line of the document. An invalid start (no "
     "number, outside the document) yields no section.",
     ["inputs"], "every document tail: kind and position of the closing line, position of the next "
     "reference number",
     "A handful of documents; the boundary distances and the combinations with continuing numbers are "
     "untested.",
     [FIND, RX], [("find_end_of_reference_section", FIND)], ["section end"])
prop("C07", "Rebuilding reference lines conserves text and splits only at markers",
     "Joining broken lines into references keeps all characters of the section in order: line breaks "
     "become one space, a hyphen at the end of a line is dropped with the break, and only lines beyond "
     "the 25th of one reference are cut. With numbered markers a new reference starts exactly at each "
     "marker whose number is one more than the current one, also in mid-line where it is the first marker "
     "of its line, and any other number stays inside the current reference. Blank lines or indentation "
     "alone never make a reference. Without markers, references are split at blank lines when "
     "these separate more than three groups, else at unindented lines that neither start in lower "
     "case nor follow a line ending in comma, ampersand or hyphen.",
     ["inputs"], "every sequence of section lines: marker numbers, indentation, hyphenation, blanks",
     "Tests cover some samples; any combination of skipped numbers, mid-line markers, hyphenation and "
     "long references is possible in real papers.",
     [TXT, DTXT], [("rebuild_reference_lines", TXT), ("join_lines", DTXT)], ["rebuilt reference lines"])
prop("C08", "DOIs, URLs and handles are captured verbatim, each exactly once, in order",
     "Every DOI in a line (after doi:, a doi.org URL, or bare 10.xxxx/) appears exactly once, character "
     "for character, in the DOI field of the reference, and every http, https or ftp URL and every "
     "handle likewise in its own field, in the order of the line. An http://arxiv.org/abs URL becomes the "
     "arXiv number, a handle URL becomes the handle, and an HTML link yields its URL and its description "
     "when they differ. A comma, full stop, semicolon or space after the identifier is not absorbed, unless "
     "the text after a space can be read as the continuation of a URL broken by spaces. (A URL consists of "
     "letters, digits and . _ - ? = & % ~ /; any other character ends it. Identifiers "
     "inside which another item, such as a collaboration name, can be recognised are not covered.)",
     ["inputs"], "every identifier text and surrounding context",
     "Tests use a few well-known DOIs and URLs; identifiers are arbitrary strings.",
     [TAG, RX, ENG, REC], [("identify_and_tag_DOI", TAG), ("identify_and_tag_URLs", TAG),
                           ("look_for_hdl", ENG), ("arxiv_urls_to_report_numbers", ENG)],
     ["doi, url, urldesc, hdl, reportnumber fields"])
prop("C09", "Preprint and report numbers are recognised and standardised without loss",
     "An arXiv identifier of the new or old style, an ATLAS conference note, a PoS volume, or a number of "
     "a known report series is recognised whatever its digits, and is written in its standard form with "
     "exactly the digits of the line: arXiv:YYMM.NNNN(N) with the class if given, archive/YYMMNNN, "
     "the series name joined by hyphens to the number. A number fits a pattern of the series table "
     "exactly if each symbol (9 a digit, a a letter, mm a month, yy and yyyy a year) is met; digits that do not form such a number are not "
     "reported as one.",
     ["inputs"], "every digit and suffix of the identifier, every separator used in the line",
     "Tests check a sample of numbers; a wrong digit, month or separator class shows only for others.",
     [TAG, RX, KBS, ENG], [("tag_arxiv", TAG), ("tag_arxiv_more", TAG), ("tag_atlas_conf", TAG),
                           ("identify_report_numbers", TAG), ("format_report_number", ENG)],
     ["reportnumber field"])
prop("C10", "Volume, year and page of a journal reference land in the right fields",
     "For a known journal title followed by numeration in any supported order - volume (year) page, "
     "volume, page (year), (year) volume, page, with an optional series letter, issue or page range - "
     "the volume with its series letter, the year and the page or page range are reported each in its "
     "own field with exactly the digits of the line, whatever those digits are.",
     ["inputs"], "every digit string of volume, year and page and every supported layout",
     "Tests fix the digits; slot confusion depends on lengths and values of the numbers.",
     [TAG, RX, ENG], [("find_numeration", TAG), ("add_tagged_journal", TAG),
                      ("parse_tagged_reference_line", ENG)],
     ["journal_title, journal_volume, journal_year, journal_page"])
prop("C11", "Recognising an item never damages the text around it",
     "When a journal title, report number, publisher or collaboration is recognised in a line, the "
     "characters around it remain, complete and in order, in the miscellaneous text, however many extra "
     "spaces or punctuation marks stand before, inside or after the item. The recognised item is "
     "reported in its standard form and none of its characters leak into the text around it. (A 'the' or "
     "'and' before a collaboration counts as part of it.)",
     ["inputs"], "every text around the item and every amount of spacing and punctuation",
     "Tests use regularly spaced lines; index shifts appear only for particular spacings and lengths.",
     [TAG, DTXT, ENG], [("process_reference_line", TAG), ("account_for_stripped_whitespace", TAG),
                        ("remove_and_record_multiple_spaces_in_line", DTXT)], ["misc field"])
prop("C12", "Any text is parsed without failure into at least one reference",
     "Parsing any reference line, whatever characters it contains - including text that looks like the "
     "library's own mark-up, unbalanced brackets or quotes, or characters whose upper-case form is "
     "longer - never fails and yields at least one reference that carries the raw line.",
     ["inputs"], "every string given as a reference line",
     "Tests feed sensible references; crashes come from odd characters at odd places.",
     [ENG, TAG, REC], [("parse_references", ENG), ("parse_reference_line", ENG),
                       ("parse_tagged_reference_line", ENG)], ["return value", "exception"])
prop("C13", "A line citing several papers is split into one reference per paper",
     "A semicolon before a recognised item (the first of several), or a second DOI, URL, arXiv number, journal or title, starts "
     "a new reference, while adjacent report numbers and collaborations stay together; all items appear "
     "once, in the order of the line, in the reference they belong to. Authors stated before a "
     "repeated item are carried to the references that lack authors (an author stated later in a "
     "semicolon group that starts without one is taken as the author of that group), and a numeration without journal "
     "after a split takes journal and series of the previous reference; 'ibid.' stands for the last journal of the line "
     "that has a numeration, in its series unless another is given, and for none when there is no such journal.",
     ["inputs"], "every sequence of recognised items and separators in a line",
     "Tests contain a few multi-paper lines; the splitter is a state machine over item sequences.",
     [ENG, TAG], [("split_citations_iter", ENG), ("split_needed", ENG), ("postpone_last_auth", ENG),
                  ("look_for_implied_ibids", ENG)], ["references returned for one line"])
prop("C14", "Journal volumes and report numbers are standardised correctly",
     "Roman volumes (written with X, V and I) become the equal arabic number, a letter after the volume number moves before it, a "
     "series written in the journal's standard title moves to the volume, JHEP-like journals get a "
     "two-digit year before a one- or two-digit volume and pages of at least three digits, and "
     "Nucl.Phys.Proc.Suppl. loses a leading B. Report numbers missing the hyphen before their digits "
     "get one and hep-th- style numbers get a slash. Values that need no change stay as they are.",
     ["inputs"], "every volume, year, page and report number value",
     "Tests check a few values per rule.",
     [ENG], [("format_volume", ENG), ("roman2arabic", ENG), ("handle_special_journals", ENG),
             ("mangle_volume", ENG), ("format_report_number", ENG), ("format_hep", ENG),
             ("remove_b_for_nucl_phys", ENG), ("split_volume_from_journal", ENG)],
     ["journal_volume, journal_page, reportnumber fields"])
prop("C15", "One author group, DOI and record id per reference, no duplicates",
     "In one reference, only the first author group stays an author and later ones go to the "
     "miscellaneous text, no reference has two DOIs (a second DOI starts its own reference), and a "
     "collaboration named twice is listed once. "
     "With a linker callback every recognised item is offered to it, a lookup failure (missing key or "
     "index) counts as no record, and the first record found - and only it - is reported, as text.",
     ["inputs", "histories"], "every sequence of items and every outcome of the linker per item",
     "Tests use one linker that always answers the same.",
     [ENG, REC], [("remove_duplicated_authors", ENG), ("remove_duplicated_dois", ENG),
                  ("remove_duplicated_collaborations", ENG), ("associate_recids", ENG),
                  ("add_recid_elements", ENG)], ["author, doi, collaboration, recid, misc fields"])
prop("C16", "References come out in line order with raw text, marker and all fields",
     "The references of a list of lines come out in the order of the lines, at least one per line, each "
     "with the unmodified line as raw text and the line's marker stripped of brackets and dots. Every "
     "recognised item appears in the field of its kind, empty values produce no field, a journal "
     "reference is also rendered with the caller's format, and editors are put in parentheses. The text "
     "around an item is given without the commas, full stops and brackets that dangle next to the item.",
     ["inputs", "configurations"], "every list of lines, marker style and reference format",
     "Tests check a few outputs as a whole.",
     [ENG, REC], [("parse_references", ENG), ("build_references", REC),
                  ("build_reference_fields", REC), ("remove_reference_line_marker", ENG)],
     ["reference dictionaries"])
prop("C17", "Statistics are the sums over all lines",
     "The statistics returned with the references equal the sum over all lines of the DOIs, URLs, "
     "report numbers, journal titles and author groups recognised in them, and of the miscellaneous "
     "texts left at line ends; the count of non-standard journal titles accumulates over lines.",
     ["inputs"], "every list of lines",
     "The tests never parse several lines with the same journal and look at the totals.",
     [ENG, TAG], [("parse_references_elements", ENG), ("parse_tagged_reference_line", ENG),
                  ("sum_2_dictionaries", TAG)], ["stats dictionary"])
prop("C18", "Washing a line only repairs spacing, quotes and URLs",
     "Before parsing, a line is washed: spaces inside a broken http or ftp URL are removed, runs of "
     "white space become one space, a comma inside closing quotes moves out, and undesirable "
     "characters are replaced; every other character survives in order. Punctuation repair removes "
     "only the space before comma, semicolon, period and closing bracket and after an opening one.",
     ["inputs"], "every line",
     "Tests cover single examples of each repair.",
     [TXT, DTXT], [("wash_and_repair_reference_line", TXT), ("repair_broken_urls", DTXT),
                   ("wash_line", DTXT)], ["fields of the parsed reference"])
prop("C19", "The knowledge bases in use are always those of the current call",
     "Whatever calls came before, with whatever overrides, in whatever order, and whether they failed or "
     "not, a call recognises items with exactly the knowledge bases it names: its overrides where "
     "given, the shipped ones elsewhere. In particular a failing load never leaves data behind that a "
     "later call uses silently, and parsing does not change the knowledge bases. (Files named by a path "
     "are taken not to change while the process runs.)",
     ["histories", "configurations"], "every history of calls with every combination of overrides, "
     "including failing ones",
     "Tests run with fixed overrides per process; the module-level cache is exercised by at most two "
     "calls.",
     [KBS, TAG], [("get_kbs", KBS), ("load_kbs", KBS), ("tag_reference_line", TAG)],
     ["references recognised"])
prop("C20", "Batch wrappers keep one result per input and never raise",
     "Extracting a list of raw references returns exactly one result per input in the same order: the "
     "first parsed reference, or the raw input alone when nothing is extracted or extraction fails. "
     "Extracting publication info returns one mapping per input in the same order, or none at all (None) "
     "after a failure, and the text and URL wrappers return either the extracted references or None after "
     "a failure; none of them raises.",
     ["inputs", "fault_sequences"], "every list of inputs and every pattern of failures in them",
     "Tests call each wrapper once with good data.",
     [EXT], [("extract_references_from_list", EXT), ("extract_journal_info", EXT),
             ("extract_references_from_text", EXT), ("extract_references_from_file_url", EXT)],
     ["returned dictionary"])
prop("C21", "PDF citation keys are in reading order and links go to their reference",
     "The citation keys stored in a PDF are listed in reading order: by page, then from top to bottom, "
     "column by column when at least three keys of a right column are aligned. Every link that lies "
     "between a key and the next one in reading order is attributed to that key and to no other, links "
     "before the first key, or later than the page after the last key, to none. Missing coordinates, an "
     "annotation without an action or an unreadable PDF yield an empty list, never an error.",
     ["inputs"], "every placement of keys and links on pages and columns",
     "Tests use a few real PDFs; positions are continuous values.",
     [RPDF], [("extract_texkeys_and_urls_from_pdf", RPDF), ("_match_urls_with_reference", RPDF),
              ("_destinations_in_two_columns", RPDF)], ["list of keys with URLs"])
prop("C22", "Knowledge bases are read completely and prefer the longest title",
     "Every entry of a knowledge base - journals, journal expressions, report series, collaborations, "
     "publishers, books, special journals, author replacements; given as a path, as lines or as pairs - "
     "is recognised afterwards in the spelling given and reported in its standard form, journals also in "
     "their standard spelling, whatever blanks surround the terms; report numbers only with the "
     "numerations of their own institute. Comments are ignored, and a line of a file of pairs that is no pair is "
     "rejected. When one title (or publisher) contains another, the longer one wins, independently of the order of the "
     "entries.",
     ["inputs", "configurations"], "every content and order of a knowledge base",
     "Tests load the shipped tables only.",
     [KBS], [("build_journals_kb", KBS), ("build_reportnum_kb", KBS), ("build_publishers_kb", KBS),
             ("build_collaborations_kb", KBS), ("build_books_kb", KBS)], ["references recognised"])
prop("C23", "Quoted titles, ISBNs and known books are recognised",
     "A text in double quotes in which no identifier is recognised is reported as title, and an ISBN as "
     "ISBN, exactly as written; identifiers inside quotes are still recognised and no internal markup "
     "shows. The first quoted title of a line that is a known book is reported with the book's standard "
     "title and year, and the text around it is kept. In a reference with no other recognised item, a "
     "known book title followed by its year is found whatever punctuation or case it is written in, and "
     "exactly that text is cut from the miscellaneous text.",
     ["inputs"], "every title text, ISBN and surrounding text",
     "Tests contain one or two books.",
     [ENG, TAG, RX], [("look_for_books", ENG), ("search_for_book_in_misc", ENG), ("tag_quoted_text", TAG),
                      ("tag_isbn", TAG)], ["title, isbn, year, misc fields"])
prop("C24", "Author groups are reported complete and as written",
     "Authors written as initials and surname, or surname and initials, joined by commas, the last one also by 'and' or "
     "'&', with or without 'et al.', and one or two surnames directly before 'et al.', are reported as one author group with every "
     "letter of every name, in order (the words Phys, Paper, Energy and the like are never taken for surnames); editors are marked as "
     "such, no author text is lost from the line, and no internal markup shows in a name.",
     ["inputs"], "every initial and surname, number of authors and separator",
     "Tests contain given names; the author pattern is a large regular expression.",
     [TAG, AUT], [("identify_and_tag_authors", TAG), ("get_author_regexps", AUT)],
     ["author field"])

prop("C25", "Every reference carries its own year, and no other number suffers",
     "The year of a reference is that of its (first) journal reference or known book; without one it is the first "
     "four-digit year (19xx or 20xx, not part of a longer number) of the last piece of text that has any; a reference "
     "without any has no year. That year, with the brackets directly around it, is taken out of the "
     "miscellaneous text wherever it stands, and nothing else: other years, longer numbers that contain "
     "its digits and the words around it are kept. In a line of several papers each has its own year.",
     ["inputs"], "every year and every number in the text around, in and without brackets",
     "Tests contain a handful of years; which digits are taken for a year depends on the digits around.",
     [ENG, RX], [("add_year_elements", ENG), ("remove_year", RX), ("re_year_in_misc_txt", RX)],
     ["year and misc fields"])

prop("C26", "A string of references is used completely; a full text agrees with a file",
     "Extraction from a string that is said to hold only references uses all of it: one reference per "
     "marker, numbered on from 1 (or per unindented line or blank-line group when there is no marker), in order, "
     "with no character lost other than line breaks and the hyphens before them, also when the string "
     "contains a section title; only a line feed breaks a line. A string said to be a full text yields exactly the references that a text file of the "
     "same content yields (hyphens before a blank line aside). Knowledge bases, format and "
     "linker of the caller are in force in both cases.",
     ["inputs"], "every string",
     "Tests pass a few strings with well-formed markers.",
     [API, TXT, FIND], [("extract_references_from_string", API), ("rebuild_reference_lines", TXT),
                        ("find_numeration_in_body", FIND)],
     ["returned references"])

prop("C27", "The journal reference of a line is its first journal, or none",
     "extract_journal_reference gives, for every line, the first journal that a reference of this line has when the "
     "line is extracted: with the same standard title, volume, year and page, whatever marker, authors, identifiers, "
     "titles or text stand before it and whatever follows; it gives nothing exactly when no reference of the line has a "
     "journal, also when a title of the knowledge base occurs without numeration, and it never fails. Titles are those "
     "of the knowledge bases of this call.",
     ["inputs", "histories"], "every line and every sequence of calls with different knowledge bases",
     "Tests extract the journal of a few well-formed lines.",
     [API, ENG], [("extract_journal_reference", API), ("parse_reference_line", ENG)],
     ["returned journal element"])

NOTES = {}
NA = {}

LEVEL_NOTE = ("Bounded: z3 decides the assertion for every value of the symbolic variables within the "
              "bounds listed in the evidence, path by path over the real functions re-read from /repo, and "
              "a z3 coverage query shows that the paths cover the whole bounded input space. Trusted: the "
              "symbolic interpreter (sx/), cross-checked on one concrete run of the plain code per path; "
              "library code outside the repository runs concretely or is modelled as DESIGN.md says.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": "/opt/venv/bin/python -W ignore run.py %s --tier quick" % i,
                "thorough_cmd": "/opt/venv/bin/python -W ignore run.py %s --tier thorough" % i,
                "technique": "symbolic execution of the real Python code with z3 deciding every path",
                "level": "model_checking",
                "level_note": NOTES.get(i, LEVEL_NOTE)})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -W ignore selftest/setup_check.py",
         "checks": checks, "not_applicable": na,
         "notes": "Python symbolic execution engine in sx/; harnesses in harness/; see DESIGN.md"}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
