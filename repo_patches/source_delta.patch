From 6ecf183ae3902fb8d390a26b64ea2676996ce793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:46 +0000
Subject: [PATCH 01/56] fix: add up title counts instead of overwriting them

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..d3df2ad 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1065,7 +1065,7 @@ def sum_2_dictionaries(dicta, dictb):
     """
     dict_out = dicta.copy()
     for key in dictb:
-        if "key" in dict_out:
+        if key in dict_out:
             # Add the sum for key in dictb to that of dict_out:
             dict_out[key] += dictb[key]
         else:
-- 
2.43.0


From c251727a76b67bd508e81ceb6c3c19f0249a638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 02/56] fix: keep the text after an opening tag that is never
 closed

---
 refextract/references/engine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..a87f63e 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1360,10 +1360,9 @@ def map_tag_to_subfield(tag_type, line, cur_misc_txt, dest):
     idx_closing_tag = line.find(closing_tag)
     # Sanity check - did we find a closing tag?
     if idx_closing_tag == -1:
-        # no closing </cds.TAG> tag found - strip the opening tag and move past this
-        # recognised reportnumber as it is unreliable:
+        # no closing </cds.TAG> tag found - the opening tag is already gone from
+        # the line, ignore this recognised item as it is unreliable:
         identified_citation_element = None
-        line = line[len("<cds.%s>" % tag_type) :]
     else:
         tag_content = line[:idx_closing_tag]
         identified_citation_element = {
-- 
2.43.0


From 65eb9ac5c784b3d7247f0f2d2fe1c462b5c5f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:18 +0000
Subject: [PATCH 03/56] fix: do not fail on a line that literally contains a
 URL or DOI tag

---
 refextract/references/engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index a87f63e..71d78aa 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1140,6 +1140,14 @@ def parse_tagged_reference_line(line_marker, line, identified_dois, identified_u
                 count_reportnum += 1
                 cur_misc_txt = ""
 
+        elif tag_type in ("URL", "DOI") and not (
+            identified_urls if tag_type == "URL" else identified_dois
+        ):
+            # The line literally contains the tag, nothing was identified here -
+            # get rid of the solitary tag
+            processed_line = processed_line[tag_match_end:]
+            identified_citation_element = None
+
         elif tag_type == "URL":
             # This tag is an identified URL:
 
-- 
2.43.0


From c4647cbd813d5b2d413f48980bf8a5cfaf27adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:18 +0000
Subject: [PATCH 04/56] fix: do not modify the cached journals knowledge base
 while tagging a line

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index d3df2ad..3c27501 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,7 +120,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
+    standardised_titles = dict(kbs["journals"][1])
     standardised_titles.update(kbs["journals_re"])
     journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
-- 
2.43.0


From e60297744702f78696950dae3049efbabad87af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 05/56] fix: do not reuse the previous knowledge base after a
 failing load

---
 refextract/references/kbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..4a4574d 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -65,8 +65,8 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
 
     for kb_type, kb in kbs.items():
         if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
             cache[kb_type] = load_kb_by_type(kb_type, kb)
+            cache_inputs[kb_type] = kb
     return cache
 
 
-- 
2.43.0


From fdb84503fa87668cda045b3abbb6a130d871b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 06/56] fix: reload a knowledge base that was modified in place
 since the last call

---
 refextract/references/kbs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 4a4574d..d5b924f 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -22,6 +22,7 @@
 # or submit itself to any jurisdiction.
 
 import contextlib
+import copy
 import csv
 import re
 
@@ -66,7 +67,10 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     for kb_type, kb in kbs.items():
         if kb != cache_inputs.get(kb_type):
             cache[kb_type] = load_kb_by_type(kb_type, kb)
-            cache_inputs[kb_type] = kb
+            # remember mutable inputs by value, the caller may modify them later
+            cache_inputs[kb_type] = (
+                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
+            )
     return cache
 
 
-- 
2.43.0


From 22315f465a7ce69f14a613bf3c02c72faad48a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 07/56] fix: do not let a later call replace the knowledge
 bases in use by an earlier one

---
 refextract/references/kbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index d5b924f..6fc2d40 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -71,7 +71,8 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
             cache_inputs[kb_type] = (
                 copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
             )
-    return cache
+    # the next call may replace entries of the cache while these are in use
+    return cache.copy()
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From 75bdb065fed0911e11e44f03f495bcde4da93dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:25 +0000
Subject: [PATCH 08/56] fix: do not destroy PDF files without end marker, nor
 fail on empty files

---
 refextract/references/engine.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 71d78aa..a63a6eb 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -25,6 +25,7 @@
 
 import logging
 import mmap
+import os
 import re
 from datetime import datetime
 
@@ -1456,6 +1457,10 @@ def clean_pdf_file(filename):
     """
     strip leading and/or trailing junk from a PDF file
     """
+    if os.path.getsize(filename) == 0:
+        # an empty file cannot be mapped
+        LOGGER.debug("not a PDF file")
+        return
     with (
         open(filename, "r+b") as file,
         mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
@@ -1465,16 +1470,20 @@ def clean_pdf_file(filename):
             # no PDF marker found
             LOGGER.debug("not a PDF file")
             return
-        end = mmfile.rfind(b"%%EOF")
-        offset = len(b"%%EOF")
+        end = mmfile.rfind(b"%%EOF", start)
+        if end == -1:
+            # no end marker after the header, keep the rest of the file
+            end = mmfile.size()
+        else:
+            end += len(b"%%EOF")
         if start > 0:
             LOGGER.debug("moving and truncating")
-            mmfile.move(0, start, end + offset - start)
-            mmfile.resize(end + offset - start)
+            mmfile.move(0, start, end - start)
+            mmfile.resize(end - start)
             mmfile.flush()
-        elif end > 0 and end + offset != mmfile.size():
+        elif end != mmfile.size():
             LOGGER.debug("truncating only")
-            mmfile.resize(end + offset - start)
+            mmfile.resize(end)
             mmfile.flush()
 
 
-- 
2.43.0


From 934986c3f013ff8f0b25a1aa118d8653c5f38f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:25 +0000
Subject: [PATCH 09/56] fix: account for stripped spaces and punctuation inside
 a publisher name

---
 refextract/references/tag.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 3c27501..88f06d7 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -275,6 +275,7 @@ def process_reference_line(
                 replacement_types,
                 pprint_repnum_len,
                 journals_matches,
+                publishers_matches,
                 replacement_index,
             )
 
@@ -765,6 +766,7 @@ def account_for_stripped_whitespace(
     replacement_types,
     len_reportnums,
     journals_matches,
+    publishers_matches,
     replacement_index,
 ):
     """To build a processed (MARC XML) reference line in which the
@@ -802,6 +804,8 @@ def account_for_stripped_whitespace(
      NUMBERs matched at the various indices in the line.
     @param len_titles: (dictionary) - the lengths of the various
      TITLEs matched at the various indices in the line.
+    @param publishers_matches: (dictionary) - the publishers matched at
+     the various indices in the line.
     @param replacement_index: (integer) - the index in the working line
      of the identified TITLE or REPORT-NUMBER citation.
     @return: (tuple) containing 2 elements:
@@ -841,6 +845,16 @@ def account_for_stripped_whitespace(
             # before its recognition:
             spare_replacement_index += removed_spaces[space]
             extras += removed_spaces[space]
+        elif (
+            space >= spare_replacement_index
+            and replacement_types[replacement_index] == "publisher"
+            and space
+            < (spare_replacement_index + len(publishers_matches[replacement_index]))
+        ):
+            # A publisher is being replaced. Account for multi-spaces that may
+            # have been stripped from it before its recognition:
+            spare_replacement_index += removed_spaces[space]
+            extras += removed_spaces[space]
 
     # return the new values for replacement indices with stripped
     # whitespace accounted for:
-- 
2.43.0


From 4e1afcef76f6bd6ec405e8e3f6eba562166e389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:37 +0000
Subject: [PATCH 10/56] fix: find the position of journals matched by regular
 expression after stripped spaces

---
 refextract/references/tag.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 88f06d7..066171d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -138,6 +138,11 @@ def tag_reference_line(line, kbs, record_titles_count):
     removed_spaces, working_line2 = remove_and_record_multiple_spaces_in_line(
         working_line2
     )
+    # The positions found so far are those before the removal of the spaces
+    journals_matches = {
+        index - sum(removed_spaces[pos] for pos in removed_spaces if pos < index): title
+        for index, title in journals_matches.items()
+    }
 
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
-- 
2.43.0


From d22ffd06053bee75df3d0c82fa09d6bb8c42e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:37 +0000
Subject: [PATCH 11/56] fix: keep positions when the upper-case form of a
 character is longer

---
 refextract/references/tag.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 066171d..8e94bc0 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -127,8 +127,12 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
 
-    # Transform the line to upper-case, now making a new working line:
-    working_line2 = working_line2.upper()
+    # Transform the line to upper-case, now making a new working line
+    # (characters whose upper-case form is longer are kept, as the positions
+    # found in this line are used in the original one):
+    working_line2 = "".join(
+        char.upper() if len(char.upper()) == 1 else char for char in working_line2
+    )
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
-- 
2.43.0


From 73177351136db23e1f93e127e22b507a66677bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:39 +0000
Subject: [PATCH 12/56] fix: keep a lower-case series letter written after the
 volume number

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c8c4d31..a835755 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -465,7 +465,7 @@ re_ibid = re.compile(r"(-|\b)?IBID(EM)?\.?", re.UNICODE)
 
 re_series_from_numeration = re.compile(r"^([A-Za-z])\s*[,\s:-]?\s*\d+", re.UNICODE)
 re_series_from_numeration_after_volume = re.compile(
-    r"^\d+\s*[,\s:-]?\s*([A-Z])", re.UNICODE
+    r"^\d+\s*[,\s:-]?\s*([A-Za-z])", re.UNICODE
 )
 
 # Obtain the series character from the standardised title text
-- 
2.43.0


From 98828692d291d3f537a18e72a5f1705521400a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:37 +0000
Subject: [PATCH 13/56] fix: standardise volume and page of implied ibids like
 those of other journals

---
 refextract/references/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index a63a6eb..4161b17 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -663,6 +663,11 @@ def parse_reference_line(ref_line, kbs, bad_titles_count=None, linker_callback=N
 
     # Look for implied ibids
     look_for_implied_ibids(splitted_citations)
+    # They need the same standardisation as the other journals
+    for citation in splitted_citations:
+        format_volume(citation)
+        handle_special_journals(citation, kbs)
+        remove_b_for_nucl_phys(citation)
     # Find year
     add_year_elements(splitted_citations)
     # Look for books in misc field
-- 
2.43.0


From 5323844fddcf2bee32335b74142b16fcdffc4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 14/56] fix: keep the text before a special journal that lacks
 its year

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 4161b17..96478d2 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -156,7 +156,7 @@ def handle_special_journals(citation_elements, kbs):
                 # actually a year, so we skip this reference
                 if el["year"] == "" and re.match(r"(19|20)\d{2}$", el["page"]):
                     el["type"] = "MISC"
-                    el["misc_txt"] = "%s,%s,%s" % (
+                    el["misc_txt"] += "%s,%s,%s" % (
                         el["title"],
                         el["volume"],
                         el["page"],
-- 
2.43.0


From 0c662e0bdd54b35e484dd18dce4dccde735296f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:05 +0000
Subject: [PATCH 15/56] fix: keep the text before a collaboration that is named
 again

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96478d2..4dc42d3 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -543,7 +543,7 @@ def remove_duplicated_collaborations(splitted_citations):
         for el in citation[:]:
             if el["type"] == "COLLABORATION":
                 if el["collaboration"] in collabs:
-                    citation.remove(el)
+                    el["type"] = "MISC"
                 else:
                     collabs.append(el["collaboration"])
 
-- 
2.43.0


From 91f6b83f381cb0136c577958d34de9fafcec45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:38 +0000
Subject: [PATCH 16/56] fix: do not repeat the text before an author in the
 next reference

---
 refextract/references/engine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 4dc42d3..986b061 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -316,11 +316,12 @@ def postpone_last_auth(current_citation, num_auth):
     if num_auth == 0:
         return None
 
-    func = current_citation.__getitem__ if num_auth == 1 else current_citation.pop
-
     for idx, el in enumerate(reversed(current_citation), 1):
         if el["type"] == "AUTH":
-            return func(-idx)
+            if num_auth == 1:
+                # the author is shared, but the text before it is not
+                return dict(el, misc_txt="")
+            return current_citation.pop(-idx)
 
 
 def split_citations_iter(citation_elements):
-- 
2.43.0


From 7b52266c98696283f2c770741bf44b903092911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:50 +0000
Subject: [PATCH 17/56] fix: download from URLs whose last part is longer than
 a file name may be

---
 refextract/references/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 26af485..ad25faa 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -81,7 +81,7 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
     """
     # Get temporary filepath to download to
     filename, filepath = mkstemp(
-        suffix="_{0}".format(os.path.basename(url)),
+        suffix="_{0}".format(os.path.basename(url)[-50:]),
     )
     os.close(filename)
 
-- 
2.43.0


From 1f25ec9f8da31caed30daa96758c9182fa25af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:10 +0000
Subject: [PATCH 18/56] fix: do not make a reference out of blank lines or
 indentation

---
 refextract/references/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 80b3690..de6cf8b 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -299,7 +299,8 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
         # Append last line
         rebuilt_references.append(prepare_ref(working_ref))
 
-    return rebuilt_references
+    # Blank lines alone do not make a reference
+    return [ref for ref in rebuilt_references if ref]
 
 
 def wash_and_repair_reference_line(line):
-- 
2.43.0


From 9747f8c62ab1855a3c8a4a61f91af771ae91aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 19/56] fix: end the reference section at a closing keyword

---
 refextract/references/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 29d2b3a..ebea9ce 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -413,7 +413,7 @@ def find_end_of_reference_section(
             # didn't match a section title - try looking for keywords that
             # suggest the end of a reference section:
             end_match = regex_match_list(docbody[x].strip(), kw_patterns)
-        else:
+        if end_match:
             # Is it really the end of the reference section? Check within the next
             # 5 lines for other reference numeration markers:
             y = x + 1
-- 
2.43.0


From acb935df659bb14ff3956a631852a2c36d25be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 20/56] fix: end the reference section before number-laden
 lines, blank ones between them or not

---
 refextract/references/find.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index ebea9ce..2c4e040 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -474,8 +474,9 @@ def find_end_of_reference_section(
                         # documents that are double-line spaced:
                         digit_lines += 1
                     y = y + 1
-                if num_digit_lines == digit_lines:
+                if num_digit_lines == 4:
                     section_ended = True
+        if not section_ended:
             x += 1
     return x - 1
 
-- 
2.43.0


From 55420061ed6d31c3e0f3de291ef5541fc3f4197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:40 +0000
Subject: [PATCH 21/56] fix: split references whose first marker is on the line
 of the section title

---
 refextract/references/find.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 2c4e040..1c97228 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -161,6 +161,9 @@ def find_numeration_in_title(docbody, title):
     except IndexError:
         return ref_details, found_title
 
+    # The title may be numbered, e.g. '8. References [1]'
+    first_line = first_line[first_line.find(title) :]
+
     # Need to escape to avoid problems like 'References['
     title = re.escape(title)
 
@@ -168,7 +171,8 @@ def find_numeration_in_title(docbody, title):
     mk_with_title_match = regex_match_list(first_line, mk_with_title_ptns)
     if mk_with_title_match:
         mk = mk_with_title_match.group("mark")
-        mk_ptn = mk_with_title_match.re.pattern
+        # Only the first marker is preceded by the title
+        mk_ptn = mk_with_title_match.re.pattern.replace(title, "(?:%s)?" % title, 1)
         m_num = re_num.search(mk)
         if m_num and m_num.group(0) == "1":
             # Mark found
-- 
2.43.0


From ec8c3e016f275e4b4e3cc67cb3f606709da3c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:57 +0000
Subject: [PATCH 22/56] fix: do not take the number of the reference section
 for a reference marker

---
 refextract/references/find.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 1c97228..be821c5 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -212,7 +212,8 @@ def find_numeration(docbody, title):
     """
     ref_details, found_title = find_numeration_in_title(docbody, title)
     if not ref_details:
-        ref_details, found_title = find_numeration_in_body(docbody)
+        # A number on the line of the title is that of the section
+        ref_details, found_title = find_numeration_in_body(docbody[1:])
 
     return ref_details, found_title
 
-- 
2.43.0


From 350c10f1a380d442a0b0b84b77992f1bd78d14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:57 +0000
Subject: [PATCH 23/56] fix: drop running heads whose title was first found
 with a space after it

---
 refextract/references/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index de6cf8b..e905660 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -159,7 +159,7 @@ def match_pagination(ref_line):
 
 def strip_footer(ref_lines, section_title):
     """Remove footer title from references lines"""
-    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title)
+    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title.strip())
     re_footer = re.compile(pattern, re.UNICODE)
     return [line for line in ref_lines if not re_footer.match(line)]
 
-- 
2.43.0


From fd9d313cfd40faf038563b7008f00ba183a50895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:59 +0000
Subject: [PATCH 24/56] fix: attribute the links of a PDF to the reference they
 follow in reading order

---
 refextract/references/pdf.py | 85 +++++++-----------------------------
 1 file changed, 15 insertions(+), 70 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..c6d37a3 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -119,79 +119,24 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
 def _match_urls_with_reference(
     urls_to_match, reference, next_reference=None, two_column_layout=False
 ):
-    ref_page_number, ref_column, ref_y, _ = reference[1]
-    if next_reference:
-        next_ref_page_number, next_ref_col, next_ref_y, _ = next_reference[1]
+    def reading_order(position):
+        page, column, ypos, _ = position
+        return (page, column, ypos) if two_column_layout else (page, ypos)
+
+    ref_order = reading_order(reference[1])
     urls_for_reference = set()
-    for url_index, url in enumerate(urls_to_match):
-        url_page_number, url_col, url_y, _ = url[1]
-        is_url_under_texkey = ref_y <= url_y
-        is_url_in_same_col = ref_column == url_col
-        is_url_in_next_col = url_col > ref_column
-        is_reference_on_same_page_as_url = ref_page_number == url_page_number
-        is_reference_on_previous_page_than_url = ref_page_number + 1 == url_page_number
-        if not next_reference:
-            if (
-                (
-                    is_reference_on_same_page_as_url
-                    and (is_url_in_same_col or is_url_in_next_col)
-                )
-                or is_reference_on_previous_page_than_url
-            ) and is_url_under_texkey:
-                urls_for_reference.add(url[0])
-            continue
-        is_url_between_texkeys = (
-            is_reference_on_same_page_as_url or is_reference_on_previous_page_than_url
-        ) and (ref_y <= url_y <= next_ref_y)
-        is_next_reference_on_the_same_page = next_ref_page_number == url_page_number
-        is_last_reference_in_page = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number > url_page_number)
-            and is_url_under_texkey
-        )
-        is_last_reference_in_page_two_col_layout = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and is_url_under_texkey
-            and (next_ref_col > url_col)
-            and next_ref_y < url_y
-            and ref_y <= url_y
-            and (is_url_in_same_col or is_url_in_next_col)
-        )
-        is_in_new_column = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and ref_y > url_y
-            and (next_ref_col > ref_column)
-            and (next_ref_y > url_y)
-        )
-        is_url_for_other_reference_in_new_column = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number == url_page_number)
-            and (next_ref_col == ref_column < url_col)
-            and (next_ref_y > url_y)
-        )
-        is_url_unrelated_to_references = ref_page_number > url_page_number
-        is_url_for_next_reference = url_y >= next_ref_y
-        if is_url_between_texkeys:
-            if not two_column_layout or (two_column_layout and url_col == ref_column):
-                urls_for_reference.add(url[0])
-                continue
-        elif (
-            is_last_reference_in_page
-            or is_last_reference_in_page_two_col_layout
-            or is_in_new_column
-        ):
-            urls_for_reference.add(url[0])
-            continue
-        elif is_url_unrelated_to_references:
+    for url_index, (url, url_position) in enumerate(urls_to_match):
+        url_order = reading_order(url_position)
+        if url_order < ref_order:
+            # before the first reference
             continue
-        elif is_url_for_next_reference or is_url_for_other_reference_in_new_column:
-            urls_to_match = urls_to_match[url_index:]
+        if next_reference and url_order >= reading_order(next_reference[1]):
+            return urls_for_reference, urls_to_match[url_index:]
+        if not next_reference and url_order[0] > ref_order[0] + 1:
+            # too far after the last reference
             break
-    if not next_reference:
-        urls_to_match = []
-    return urls_for_reference, urls_to_match
+        urls_for_reference.add(url)
+    return urls_for_reference, []
 
 
 def _destinations_in_two_columns(pdf, destinations, cutoff=3):
-- 
2.43.0


From 216c7b24366a963b061fbf76ac3e383e02a1b6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 25/56] fix: ignore the spaces around the terms of a knowledge
 base line

---
 refextract/references/kbs.py    | 2 +-
 refextract/references/regexs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 6fc2d40..11e2193 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -353,7 +353,7 @@ def build_reportnum_kb(fpath):
                     current_institute_preprint_classifications.append(
                         (
                             m_preprint_classification.group(1),
-                            m_preprint_classification.group(2),
+                            m_preprint_classification.group(2).strip(),
                         )
                     )
                 continue
diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index a835755..e123ba9 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -313,7 +313,7 @@ re_isbn = re.compile(
 
 # Pattern to recognise a correct knowledge base line:
 re_kb_line = re.compile(
-    r"^\s*(?P<seek>[^\s].*)\s*---\s*(?P<repl>[^\s].*)\s*$", re.UNICODE
+    r"^\s*(?P<seek>\S(?:.*\S)?)\s*---\s*(?P<repl>\S(?:.*\S)?)\s*$", re.UNICODE
 )
 
 # Pattern to recognise references in PDF named destinations
-- 
2.43.0


From 8757f8fbf6bd45c5b3d63bbd0d2a8e7dbdc218fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 26/56] fix: recognise journals whose non-standard title has
 punctuation

---
 refextract/references/kbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 11e2193..22da7d4 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -525,9 +525,10 @@ def build_journals_kb(knowledgebase):
     # by the KB:
     repl_terms = {}
     for seek_phrase, repl in knowledgebase:
-        # We match on a simplified line, thus dots are replaced
+        # We match on a simplified line, thus punctuation is replaced
         # with spaces
-        seek_phrase = seek_phrase.replace(".", " ").upper()
+        seek_phrase = re_punctuation.sub(" ", seek_phrase.upper())
+        seek_phrase = re_group_captured_multiple_space.sub(" ", seek_phrase).strip()
 
         # good KB line
         # Add the 'replacement term' into the dictionary of
-- 
2.43.0


From 28fd3f0a499ff371a543f2140d180da130d25397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 27/56] fix: recognise every spelling of a collaboration

---
 refextract/references/kbs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 22da7d4..df3d0af 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -568,13 +568,13 @@ def build_journals_kb(knowledgebase):
 
 def build_collaborations_kb(knowledgebase):
     kb = {}
-    for pattern, collab in knowledgebase:
+    for seek, _collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
         suffix = r"(?=$|[><\]\)\"\s.,:])"
-        pattern = pattern.replace(" ", r"\s")
+        pattern = seek.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-        kb[collab] = re.compile(re_pattern, re.I | re.U)
+        kb[seek] = re.compile(re_pattern, re.I | re.U)
 
     return kb
-- 
2.43.0


From 1b4cd79036231c38eb4520c11b7f4d379393c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:58 +0000
Subject: [PATCH 28/56] fix: ignore trailing spaces in the report numbers
 knowledge base

---
 refextract/references/kbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index df3d0af..f0f176e 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -324,6 +324,7 @@ def build_reportnum_kb(fpath):
             if rawline.startswith("#"):
                 continue
 
+            rawline = rawline.rstrip()
             kb_line_num += 1
             m_institute_name = re_institute_name.search(rawline)
             if m_institute_name:
-- 
2.43.0


From 718c6fe0437a08291b7da7fbc8cbda0b430b6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:48 +0000
Subject: [PATCH 29/56] fix: keep the text before the quoted title of a known
 book

---
 refextract/references/engine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 986b061..f036ab6 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -233,13 +233,12 @@ def look_for_books(citation_elements, kbs):
             line = kbs["books"][normalized_title]
             el = {
                 "type": "BOOK",
-                "misc_txt": "",
+                "misc_txt": title["misc_txt"],
                 "authors": line[0],
                 "title": line[1],
                 "year": line[2].strip(";"),
             }
-            citation_elements.append(el)
-            citation_elements.remove(title)
+            citation_elements[citation_elements.index(title)] = el
 
     return citation_elements
 
-- 
2.43.0


From 8d26a428d883f42c92891f61348a504a927f10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:48 +0000
Subject: [PATCH 30/56] fix: do not fail on known books without a year

---
 refextract/references/kbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index f0f176e..f71fb20 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -408,7 +408,8 @@ def build_books_kb(fpath):
     with file_resolving(fpath, reader=csv.reader) as fh:
         books = {}
         for line in fh:
-            books[line[1].upper()] = line
+            # the year is optional
+            books[line[1].upper()] = [*line, ""][: max(len(line), 3)]
 
     return books
 
-- 
2.43.0


From 110601d5a52e8344680b9f2f9fe5ae1e392f5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:18 +0000
Subject: [PATCH 31/56] fix: cut the right text of a book when the upper-case
 form of a character is longer

---
 refextract/references/engine.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index f036ab6..49a8d6c 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -783,9 +783,8 @@ def get_possible_author_names(citation):
 
 
 def find_substring_ignore_special_chars(s, substr):
-    s = s.upper()
     substr = substr.upper()
-    clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
+    clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s.upper())
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
     startIndex = clean_s.find(clean_substr)
     if startIndex != -1:
@@ -793,8 +792,8 @@ def find_substring_ignore_special_chars(s, substr):
         real_index = 0
         re_alphanum = re.compile("[A-Z0-9]")
         for char in s:
-            if re_alphanum.match(char):
-                i += 1
+            # the upper-case form may have several characters
+            i += len(re_alphanum.findall(char.upper()))
             if i > startIndex:
                 break
             real_index += 1
@@ -807,12 +806,12 @@ def find_substring_ignore_special_chars(s, substr):
 def cut_substring_with_special_chars(s, sub, startIndex):
     counter = 0
     subPosition = 0
-    s_Upper = s.upper()
     sub = sub.upper()
     clean_sub = re.sub("[^A-Z0-9]", "", sub)
-    for char in s_Upper[startIndex:]:
-        if char == clean_sub[subPosition]:
-            subPosition += 1
+    for char in s[startIndex:]:
+        for char_upper in char.upper():
+            if clean_sub.startswith(char_upper, subPosition):
+                subPosition += 1
         counter += 1
         # end of substrin reached?
         if subPosition >= len(clean_sub):
-- 
2.43.0


From 2edda84e61196d6efcd6ff3bcd2856359776a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:18 +0000
Subject: [PATCH 32/56] fix: do not take a book title without ASCII letters and
 digits for found everywhere

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 49a8d6c..e059ca0 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -786,7 +786,7 @@ def find_substring_ignore_special_chars(s, substr):
     substr = substr.upper()
     clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s.upper())
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
-    startIndex = clean_s.find(clean_substr)
+    startIndex = clean_s.find(clean_substr) if clean_substr else -1
     if startIndex != -1:
         i = 0
         real_index = 0
-- 
2.43.0


From b7516b7f4351b8273fd78a72debd641c76179fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:22 +0000
Subject: [PATCH 33/56] fix: standardise journals matched by a regular
 expression that is no literal text

---
 refextract/references/tag.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8e94bc0..8479872 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,9 +120,11 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
+    journals_matches, journals_re_titles = identifiy_journals_re(
+        working_line1, kbs["journals_re"]
+    )
     standardised_titles = dict(kbs["journals"][1])
-    standardised_titles.update(kbs["journals_re"])
-    journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    standardised_titles.update(journals_re_titles)
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -451,11 +453,13 @@ def tag_atlas_conf(line):
 
 def identifiy_journals_re(line, kb_journals):
     matches = {}
-    for pattern, _dummy_journal in kb_journals:
+    standardised_titles = {}
+    for pattern, journal in kb_journals:
         match = re.search(pattern, line)
         if match:
             matches[match.start()] = match.group(0)
-    return matches
+            standardised_titles[match.group(0)] = journal
+    return matches, standardised_titles
 
 
 def find_numeration_more(line):
-- 
2.43.0


From 42e616d4a70bfaa35124f9d9a53939f921067440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:07 +0000
Subject: [PATCH 34/56] fix: do not leak tags into, nor lose identifiers
 inside, quoted text

---
 refextract/references/tag.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8479872..cefd555 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -96,12 +96,6 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Clean the line once more:
     working_line1 = wash_line(working_line1)
 
-    # We identify quoted text
-    # This is useful for books matching
-    # This is also used by the author tagger to remove quoted
-    # text which is a sign of a title and not an author
-    working_line1 = tag_quoted_text(working_line1)
-
     # Identify ISBN (for books)
     working_line1 = tag_isbn(working_line1)
 
@@ -116,6 +110,12 @@ def tag_reference_line(line, kbs, record_titles_count):
     # and a 2 years digit format to convert
     working_line1 = tag_atlas_conf(working_line1)
 
+    # We identify quoted text
+    # This is useful for books matching
+    # This is also used by the author tagger to remove quoted
+    # text which is a sign of a title and not an author
+    working_line1 = tag_quoted_text(working_line1)
+
     # Identify journals with regular expression
     # Some journals need to match exact regexps because they can
     # conflict with other elements
@@ -359,8 +359,16 @@ def tag_quoted_text(line):
     We use titles for pretty display of references that we could not
     associate we record.
     We also use titles for recognising books.
+    Text in which something else was recognised is left alone, as tags cannot
+    be nested.
     """
-    return re_quoted.sub(r"<cds.QUOTED>\g<title></cds.QUOTED>", line)
+
+    def tagger(match):
+        if "<cds." in match.group("title"):
+            return match.group(0)
+        return "<cds.QUOTED>%s</cds.QUOTED>" % match.group("title")
+
+    return re_quoted.sub(tagger, line)
 
 
 def tag_arxiv(line):
-- 
2.43.0


From 8c01983a5c92ec150e936077fbe5e6e688d15d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:27 +0000
Subject: [PATCH 35/56] fix: recognise ISBNs introduced by "International
 Standard Book Number"

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index e123ba9..2aad74d 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -305,7 +305,7 @@ re_quoted = re.compile(r'"(?P<title>[^"]+)"', re.UNICODE)
 # Pattern to recognise an ISBN for a book:
 re_isbn = re.compile(
     r"""
-    (?:ISBN[-– ]*(?:|10|13)|International Standard Book Number)
+    (?:ISBN[-– ]*(?:|10|13)|International\s+Standard\s+Book\s+Number)
     [:\s]*
     (?P<code>[-\-–0-9Xx]{10,25})""",
     re.VERBOSE | re.UNICODE,
-- 
2.43.0


From 3d437f56ac66e7b2b636fe8997c0aa6491c57361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:43 +0000
Subject: [PATCH 36/56] fix: use the positions of transliterated authors in the
 transliterated line

---
 refextract/references/tag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index cefd555..ca4ceec 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -941,6 +941,7 @@ def identify_and_tag_authors(line, authors_kb):
 
     if len(matched_authors_unidecode) > len(matched_authors):
         output_line = unidecode(output_line)
+        line = unidecoded_line
         matched_authors = matched_authors_unidecode
 
     # If there is at least one matched author group
-- 
2.43.0


From 89df45686bf7970b3dd5e58582128c27252fe7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:00 +0000
Subject: [PATCH 37/56] fix: do not take the end of a name for "et al."

---
 refextract/authors/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/authors/regexs.py b/refextract/authors/regexs.py
index c1a92ca..c972118 100644
--- a/refextract/authors/regexs.py
+++ b/refextract/authors/regexs.py
@@ -368,7 +368,7 @@ def make_auth_regex_str(etal, initial_surname_author=None, surname_initial_autho
 
 
 # Standard et al ('and others') pattern for author recognition
-re_etal = r"""[Ee][Tt](?:(?:(?:,|\.)\s*)|(?:(?:,|\.)?\s+))[Aa][Ll][,\.]?[,\.]?"""
+re_etal = r"""\b[Ee][Tt](?:(?:(?:,|\.)\s*)|(?:(?:,|\.)?\s+))[Aa][Ll]\b[,\.]?[,\.]?"""
 
 # Finding an et. al, before author names indicates a bad match!!!
 # I.e. could be a title match... ignore it
-- 
2.43.0


From 999b6afc1e0f3e7b30a561cae7bc3278927fdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 38/56] fix: do not tag a collaboration inside an author

---
 refextract/references/tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index ca4ceec..4b1ac6b 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -887,7 +887,9 @@ def strip_tags(line):
     # author content can be checked for underscores later on
     # Note that we don't have embedded tags this is why
     # we can do this
-    re_tag = re.compile(r"<cds\.[A-Z]+>[^<]*</cds\.[A-Z]+>|<cds\.[A-Z]+ />", re.UNICODE)
+    re_tag = re.compile(
+        r"<cds\.[A-Za-z]+>[^<]*</cds\.[A-Za-z]+>|<cds\.[A-Z]+ />", re.UNICODE
+    )
     for m in re_tag.finditer(line):
         chars_count = m.end() - m.start()
         line = re_tag.sub("_" * chars_count, line, count=1)
-- 
2.43.0


From c92cb685152bac80a3810eed1264d17f7c3adde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 39/56] fix: recognise editors introduced by (eds.) and a space

---
 refextract/authors/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/authors/regexs.py b/refextract/authors/regexs.py
index c972118..6733a3a 100644
--- a/refextract/authors/regexs.py
+++ b/refextract/authors/regexs.py
@@ -284,7 +284,7 @@ def make_auth_regex_str(etal, initial_surname_author=None, surname_initial_autho
       ## 'eds?. by, ' | 'ed. by: ' | 'ed by '  | 'ed. by '| 'ed by: '
       |(?:(?:[Ee][Dd]s?|[Ee]dited|[Ee]ditions?)(?:(?:\.\s?)|(?:\.?\s))by(?:\s|([:,]\s)))
        ## '( eds?. )'  | '(ed.)'    | '(ed )'   | '( ed )' | '(ed)'
-      |(?:\(\s?([Ee][Dd]s?|[Ee]dited|[Ee]ditors?)(?:(?:\.\s?)|(?:\.?\s))?\)))
+      |(?:\(\s?([Ee][Dd]s?|[Ee]dited|[Ee]ditors?)(?:(?:\.\s?)|(?:\.?\s))?\)\s?))
      )?
 
    ## **** (1) , one or two surnames which MUST end with 'et al' (e.g. Amaldi et al.,)
-- 
2.43.0


From 51b3f77461aaeca58f5e9f89b177289ad5d4ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 40/56] fix: arXiv versions of two or three digits belong to
 the identifier

---
 refextract/references/regexs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 2aad74d..12145eb 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -92,7 +92,7 @@ re_pos = compute_pos_patterns(re_pos_patterns)
 re_arxiv = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>\d{2})-?(?P<month>\d{2})
-    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
     \s*(?P<suffix>\[[A-Z.-]+\])? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -100,7 +100,7 @@ re_arxiv = re.compile(
 re_arxiv_5digits = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>(1[3-9]|[2-8][0-9]))-?(?P<month>(0[1-9]|1[0-2]))
-    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
     \s*(?P<suffix>\[[A-Z.-]+\])? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -282,7 +282,7 @@ re_new_arxiv = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
     \s*(?P<suffix>\[[A-Z.-]+\])? """
     % {"arxiv_years": arxiv_years},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
@@ -293,7 +293,7 @@ re_new_arxiv_5digits = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
     \s*(?P<suffix>\[[A-Z.-]+\])? """
     % {"arxiv_years": arxiv_years_5digits},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
-- 
2.43.0


From 5510ead23030e1f642be11b871ceea64a9e367e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:54 +0000
Subject: [PATCH 41/56] fix: ep-th is a misspelling of hep-th

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 12145eb..5853c15 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -199,7 +199,7 @@ old_arxiv = {
     r"nlin-si": "nlin.si",
     r"quantum-ph": "quant-ph",
     r"ep-ph": "hep-ph",
-    r"ep-th": "hep-ph",
+    r"ep-th": "hep-th",
     r"ep-ex": "hep-ex",
     r"hept-h": "hep-th",
     r"hepp-h": "hep-ph",
-- 
2.43.0


From 088788f65342e981042f836fe8f347fe116cde6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:38 +0000
Subject: [PATCH 42/56] fix: recognise arXiv archives inside longer class names
 as a whole

---
 refextract/references/regexs.py | 25 ++++++++++---------------
 refextract/references/tag.py    | 13 ++++++++-----
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 5853c15..09216b8 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -245,21 +245,16 @@ old_arxiv = {
 }
 
 
-def compute_arxiv_re(report_pattern, report_number):
-    if report_number is None:
-        report_number = r"\g<name>"
-    report_re = re.compile(
-        r"(?<!<cds\.REPORTNUMBER>)(?<!\w)"
-        + "(?P<name>"
-        + report_pattern
-        + ")"
-        + old_arxiv_numbers,
-        re.U | re.I,
-    )
-    return report_re, report_number
-
-
-RE_OLD_ARXIV = [compute_arxiv_re(*i) for i in old_arxiv.items()]
+# A single pattern, so that an archive (e.g. acc-ph) is not recognised
+# inside a longer one (e.g. physics.acc-ph)
+RE_OLD_ARXIV = re.compile(
+    r"(?<!<cds\.REPORTNUMBER>)(?<!\w)"
+    + "(?P<name>"
+    + "|".join(old_arxiv)
+    + ")"
+    + old_arxiv_numbers,
+    re.U | re.I,
+)
 
 
 def compute_years(start_year=1991):
diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 4b1ac6b..6e70139 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -50,6 +50,7 @@ from refextract.references.regexs import (
     RE_ATLAS_CONF_POST_2010,
     RE_ATLAS_CONF_PRE_2010,
     RE_OLD_ARXIV,
+    old_arxiv,
     re_arxiv,
     re_arxiv_5digits,
     re_correct_numeration_2nd_try_ptn1,
@@ -406,12 +407,14 @@ def tag_arxiv_more(line):
     * hep-th/1234567
     * arXiv:1022111 [hep-ph] which transforms to hep-ph/1022111
     """
-    line = RE_ARXIV_CATCHUP.sub(r"\g<suffix>/\g<year>\g<month>\g<num>", line)
 
-    for report_re, report_repl in RE_OLD_ARXIV:
-        report_number = report_repl + r"/\g<num>"
-        line = report_re.sub("<cds.ARXIV>" + report_number + "</cds.ARXIV>", line)
-    return line
+    def tagger(match):
+        name = match.group("name")
+        standard_name = old_arxiv.get(name.lower()) or name
+        return "<cds.ARXIV>" + standard_name + "/" + match.group("num") + "</cds.ARXIV>"
+
+    line = RE_ARXIV_CATCHUP.sub(r"\g<suffix>/\g<year>\g<month>\g<num>", line)
+    return RE_OLD_ARXIV.sub(tagger, line)
 
 
 def tag_pos_volume(line):
-- 
2.43.0


From 6d5c7b1182fc04a26f5880296b7e4af591f6c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:06 +0000
Subject: [PATCH 43/56] fix: keep the series between volume and page when the
 year precedes the title

---
 refextract/references/tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 6e70139..ab3ac1c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -486,7 +486,9 @@ def find_numeration_more(line):
         match = pattern.search(line)
         if match:
             info = match.groupdict()
-            series = extract_series_from_volume(info["vol"])
+            series = info.get("series", None)
+            if not series:
+                series = extract_series_from_volume(info["vol"])
             if not info["vol_num"]:
                 info["vol_num"] = info["vol_num_alt"]
             if not info["vol_num"]:
-- 
2.43.0


From f5eea09023f9bb762341e6fd30ab308bba4c4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:34 +0000
Subject: [PATCH 44/56] fix: recognise every occurrence of a journal expression
 in a line

---
 refextract/references/tag.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index ab3ac1c..edb20d4 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -466,8 +466,7 @@ def identifiy_journals_re(line, kb_journals):
     matches = {}
     standardised_titles = {}
     for pattern, journal in kb_journals:
-        match = re.search(pattern, line)
-        if match:
+        for match in re.finditer(pattern, line):
             matches[match.start()] = match.group(0)
             standardised_titles[match.group(0)] = journal
     return matches, standardised_titles
-- 
2.43.0


From 6c1311cbd4022326c4a81991eb924583edcc446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:52 +0000
Subject: [PATCH 45/56] fix: removing the year from the text leaves longer
 numbers and words apart

---
 refextract/references/regexs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 09216b8..a52be1b 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1101,5 +1101,9 @@ def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
-    s = re.sub(r"\s*%s\s*" % year_pattern, "", s)
-    return s
+    # neither touch the digits of longer numbers nor join the words around
+    return re.sub(
+        r"(\s*)(?<!\d)%s(?!\d)(\s*)" % year_pattern,
+        lambda m: " " if m.group(1) and m.group(2) else "",
+        s,
+    )
-- 
2.43.0


From 62b566d831cdaf28c80ab0804e2970dbe671852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 46/56] fix: do not double the semicolon after an author group

---
 refextract/references/tag.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index edb20d4..1138970 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1027,15 +1027,6 @@ def identify_and_tag_authors(line, authors_kb):
                 else:
                     dump_in_misc = True
 
-            add_to_misc = ""
-            # If a semi-colon was found at the end of this author group, keep it in misc
-            # so that it can be looked at for splitting heurisitics
-            if (
-                len(output_line) > m["end"]
-                and output_line[m["end"]].strip(" ,.") == ";"
-            ):
-                add_to_misc = ";"
-
             # Standardize eds. notation
             tmp_output_line = re.sub(
                 re_ed_notation, "(ed.)", output_line[start:end], flags=re.IGNORECASE
@@ -1058,7 +1049,6 @@ def identify_and_tag_authors(line, authors_kb):
                     + "<cds.AUTHetal>"
                     + tmp_output_line
                     + CFG_REFEXTRACT_MARKER_CLOSING_AUTHOR_ETAL
-                    + add_to_misc
                     + output_line[end:]
                 )
             elif not (m["ed_start"] or m["ed_end"] or dump_in_misc):
@@ -1068,7 +1058,6 @@ def identify_and_tag_authors(line, authors_kb):
                     + "<cds.AUTHstnd>"
                     + tmp_output_line
                     + CFG_REFEXTRACT_MARKER_CLOSING_AUTHOR_STND
-                    + add_to_misc
                     + output_line[end:]
                 )
             # Apply the 'include in $h' method to author groups marked as
@@ -1088,7 +1077,6 @@ def identify_and_tag_authors(line, authors_kb):
                     + tmp_output_line.strip(",:;- [](")
                     + ed_notation
                     + CFG_REFEXTRACT_MARKER_CLOSING_AUTHOR_INCL
-                    + add_to_misc
                     + output_line[end:]
                 )
 
-- 
2.43.0


From 467b6e9e01606f13f96cee774eb9aec6c3bc90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 47/56] fix: a DOI does not include the semicolon that follows
 it

---
 refextract/references/regexs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index a52be1b..8eb6944 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -823,7 +823,8 @@ re_doi = re.compile(
     (\.\w+)*                           # subdivisions separated by . (optional)
     (/|%2f)                            # / (possibly urlencoded)
     [\w\-_:;\(\)/\.<>]+                # any character
-    [\w\-_:;\(\)/<>])                  # any character excluding a full stop
+    [\w\-_:\(\)/<>])                   # any character excluding a full stop
+                                       # or semicolon
     """,
     re.VERBOSE + re.IGNORECASE,
 )
-- 
2.43.0


From f7b54b02beb60cb75f951997f298613cdb29e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 48/56] fix: a handle does not include the punctuation that
 follows it

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 8eb6944..960d157 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -833,7 +833,7 @@ re_doi = re.compile(
 re_hdl = re.compile(
     r"""([hH][dD][lL]:
                           |https?://hdl\.handle\.net/)
-                         (?P<hdl_id>\S+/\S+)""",
+                         (?P<hdl_id>\S+/\S*[^\s.,;])""",
     re.UNICODE | re.VERBOSE,
 )
 
-- 
2.43.0


From d21f5dc043c3e7eaab3f12bf5f5e299d45169d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 49/56] fix: place a handle where it stands in the reference

---
 refextract/references/engine.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index e059ca0..5f513d1 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -572,16 +572,22 @@ def look_for_hdl(citation_elements):
     When finding an hdl, creates a new HDL element.
     @param citation_elements: (list) elements to process
     """
-    for el in list(citation_elements):
-        matched_hdl = re_hdl.finditer(el["misc_txt"])
-        for match in reversed(list(matched_hdl)):
-            hdl_el = {
-                "type": "HDL",
-                "hdl_id": match.group("hdl_id"),
-                "misc_txt": el["misc_txt"][match.end() :],
-            }
-            el["misc_txt"] = el["misc_txt"][0 : match.start()]
-            citation_elements.insert(citation_elements.index(el) + 1, hdl_el)
+    for index, el in reversed(list(enumerate(citation_elements))):
+        misc_txt = el["misc_txt"]
+        end = 0
+        hdl_els = []
+        for match in re_hdl.finditer(misc_txt):
+            hdl_els.append(
+                {
+                    "type": "HDL",
+                    "hdl_id": match.group("hdl_id"),
+                    "misc_txt": misc_txt[end : match.start()],
+                }
+            )
+            end = match.end()
+        # The misc text precedes its element, and so do the handles found in it
+        el["misc_txt"] = misc_txt[end:]
+        citation_elements[index:index] = hdl_els
 
 
 def look_for_hdl_urls(citation_elements):
-- 
2.43.0


From 3257459931cc43aa47c42d64ac4e53a6f70d2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 50/56] fix: URL repair leaves the word after a file extension
 apart

---
 refextract/documents/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/documents/text.py b/refextract/documents/text.py
index 7184fa4..914bfbf 100644
--- a/refextract/documents/text.py
+++ b/refextract/documents/text.py
@@ -55,7 +55,7 @@ def get_url_repair_patterns():
         r"h\s*t\s*m\s*l",  # html
         r"t\s*x\s*t",  # txt
         r"p\s*h\s*p",  # php
-        r"a\s*s\s*p\s*",  # asp
+        r"a\s*s\s*p",  # asp
         r"j\s*s\s*p",  # jsp
         r"p\s*y",  # py (python)
         r"p\s*l",  # pl (perl)
@@ -82,7 +82,7 @@ def get_url_repair_patterns():
     pattern_list = [re.compile(p, re.I | re.UNICODE) for p in pattern_list]
 
     # some possible endings for URLs:
-    p = r"((http|ftp):\/\/([\w\d\_\.\-])+\/(([\w\d\_\.\-])+?\/)*([\w\d\_\-]+\.%s))"
+    p = r"((http|ftp):\/\/([\w\d\_\.\-])+\/(([\w\d\_\.\-])+?\/)*([\w\d\_\-]+\.%s(?!\w)))"
     for extension in file_types_list:
         p_url = re.compile(p % extension, re.I | re.UNICODE)
         pattern_list.append(p_url)
-- 
2.43.0


From 0cefdac532b4d1ce3dc8a0167acc3dc37025fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 51/56] fix: keep the series letter before a roman volume

---
 refextract/references/engine.py | 9 ++++++---
 refextract/references/regexs.py | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 5f513d1..f6488bc 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -134,11 +134,14 @@ def format_volume(citation_elements):
 
     When the volume number is expressed in roman numbers (CXXII),
     they are converted to their equivalent in arabic numbers (42)
+    The series letter before the number is kept (A7 for AVII)
     """
-    re_roman = re.compile(re_roman_numbers + "$", re.UNICODE)
+    re_roman = re.compile("([A-HJ-UWYZ]?)(" + re_roman_numbers + ")$", re.UNICODE)
     for el in citation_elements:
-        if el["type"] == "JOURNAL" and re_roman.match(el["volume"]):
-            el["volume"] = str(roman2arabic(el["volume"].upper()))
+        match = el["type"] == "JOURNAL" and re_roman.match(el["volume"])
+        if match:
+            series, number = match.groups()
+            el["volume"] = series + str(roman2arabic(number.upper()))
     return citation_elements
 
 
diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 960d157..d1aa1e2 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -458,7 +458,9 @@ re_tagged_numeration_near_line_start = re.compile(
 
 re_ibid = re.compile(r"(-|\b)?IBID(EM)?\.?", re.UNICODE)
 
-re_series_from_numeration = re.compile(r"^([A-Za-z])\s*[,\s:-]?\s*\d+", re.UNICODE)
+re_series_from_numeration = re.compile(
+    r"^([A-Za-z])\s*(?:[,\s:-]?\s*\d+|[,\s:-]\s*[XxVvIi]+$)", re.UNICODE
+)
 re_series_from_numeration_after_volume = re.compile(
     r"^\d+\s*[,\s:-]?\s*([A-Za-z])", re.UNICODE
 )
-- 
2.43.0


From 010da8da505dbbdc7964dc1a2a7b78313da0c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:45 +0000
Subject: [PATCH 52/56] fix: of publishers whose names contain one another only
 the longest counts

---
 refextract/references/tag.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 1138970..8a85549 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1347,10 +1347,19 @@ def identify_publishers(line, kb_publishers):
     matches_repl = {}  # standardised report numbers matched
     # at given locations in line
 
-    for abbrev, info in kb_publishers.items():
+    # The longest name first, as names may contain one another
+    for abbrev, info in sorted(
+        kb_publishers.items(), key=lambda item: len(item[0]), reverse=True
+    ):
         for match in info["pattern"].finditer(line):
             # record the matched non-standard version of the publisher:
             matches_repl[match.start(0)] = abbrev
+            # Replace matched text in line with underscores:
+            line = (
+                line[: match.start()]
+                + "_" * (match.end() - match.start())
+                + line[match.end() :]
+            )
 
     return matches_repl
 
-- 
2.43.0


From dfd439c5e7c70f83dd453324eeb071104f190875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:45 +0000
Subject: [PATCH 53/56] fix: length of a journal found by an expression that
 covers punctuation

---
 refextract/references/tag.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8a85549..8573b7e 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -33,6 +33,7 @@ from refextract.authors.regexs import (
     re_etal,
 )
 from refextract.documents.text import (
+    re_group_captured_multiple_space,
     remove_and_record_multiple_spaces_in_line,
     wash_line,
 )
@@ -467,8 +468,11 @@ def identifiy_journals_re(line, kb_journals):
     standardised_titles = {}
     for pattern, journal in kb_journals:
         for match in re.finditer(pattern, line):
-            matches[match.start()] = match.group(0)
-            standardised_titles[match.group(0)] = journal
+            # As the other titles, without punctuation and multiple spaces
+            title = re_punctuation.sub(" ", match.group(0))
+            title = re_group_captured_multiple_space.sub(" ", title).rstrip()
+            matches[match.start()] = title
+            standardised_titles[title] = journal
     return matches, standardised_titles
 
 
-- 
2.43.0


From 1ed682f416050fa05d27242f0719e635c7c9afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:45 +0000
Subject: [PATCH 54/56] fix: of overlapping journal titles the longest counts,
 also with expressions

---
 refextract/references/tag.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8573b7e..0fb4e92 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -161,7 +161,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     journals_matches_more, working_line2, line_titles_count = identify_journals(
         working_line2, kbs["journals"]
     )
-    journals_matches.update(journals_matches_more)
+    journals_matches = merge_journals_matches(journals_matches, journals_matches_more)
 
     # Add the count of 'bad titles' found in this line to the total
     # for the reference section:
@@ -476,6 +476,22 @@ def identifiy_journals_re(line, kb_journals):
     return matches, standardised_titles
 
 
+def merge_journals_matches(matches, more_matches):
+    """Merge matched titles, of those which overlap the longest one is kept"""
+    merged = {}
+    for index, title in sorted(
+        [*more_matches.items(), *matches.items()],
+        key=lambda match: len(match[1]),
+        reverse=True,
+    ):
+        if all(
+            index + len(title) <= other or other + len(merged[other]) <= index
+            for other in merged
+        ):
+            merged[index] = title
+    return merged
+
+
 def find_numeration_more(line):
     """Look for other numeration in line."""
     # First, attempt to use marked-up titles
-- 
2.43.0


From c6627a24b0d7d25520b14c938ea5deef546be31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:52 +0000
Subject: [PATCH 55/56] fix: page of a special journal with a superscript digit
 or very many digits

---
 refextract/references/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index f6488bc..7538c54 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -165,9 +165,9 @@ def handle_special_journals(citation_elements, kbs):
                         el["page"],
                     )
                 el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])
-            if el["page"].isdigit():
+            if el["page"].isdecimal():
                 # JHEP and JCAP have always pages 3 digits long
-                el["page"] = "%03d" % int(el["page"])
+                el["page"] = el["page"].lstrip("0").zfill(3)
 
     return citation_elements
 
-- 
2.43.0


From 7caeb1c2f57b27324091979cba65f9f87d89d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 56/56] fix: keep the closing bracket of an editor notation
 after the authors

---
 refextract/references/tag.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 0fb4e92..46dc46d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1057,8 +1057,12 @@ def identify_and_tag_authors(line, authors_kb):
             )
             # Strip
             tmp_output_line = tmp_output_line.lstrip(".").strip(",:;- [](")
-            if not tmp_output_line.endswith("(ed.)"):
-                tmp_output_line = tmp_output_line.strip(")")
+            # Keep the closing bracket of e.g. "(ed.)" or "(Editor)"
+            tmp_output_line = tmp_output_line.lstrip(")")
+            while tmp_output_line.endswith(")") and (
+                tmp_output_line.count("(") < tmp_output_line.count(")")
+            ):
+                tmp_output_line = tmp_output_line[:-1]
 
             # ONLY wrap author data with tags IF there is no evidence that it is an
             # ed. author. (i.e. The author is not referred to as an editor)
-- 
2.43.0

