From 313a028841a9f9bbc4ab92954ad5859ef5aea199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 01/29] fix: add up totals when merging two dictionaries of
 counts

The membership test used the literal "key", so the totals of the second
dictionary replaced those of the first instead of being added.
---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..d3df2ad 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1065,7 +1065,7 @@ def sum_2_dictionaries(dicta, dictb):
     """
     dict_out = dicta.copy()
     for key in dictb:
-        if "key" in dict_out:
+        if key in dict_out:
             # Add the sum for key in dictb to that of dict_out:
             dict_out[key] += dictb[key]
         else:
-- 
2.43.0


From 0989769f15dcb6de41e8e75d13bdf654776b7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:14 +0000
Subject: [PATCH 02/29] fix: do not fail on pages of special journals with
 superscript digits

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..d29c15b 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -161,7 +161,7 @@ def handle_special_journals(citation_elements, kbs):
                         el["page"],
                     )
                 el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])
-            if el["page"].isdigit():
+            if el["page"].isdecimal():
                 # JHEP and JCAP have always pages 3 digits long
                 el["page"] = "%03d" % int(el["page"])
 
-- 
2.43.0


From 209af5bd2797dd88810c4b66d377cfa8e01fd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:14 +0000
Subject: [PATCH 03/29] fix: do not drop the rest of a volume when moving its
 letter to the front

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index d29c15b..c479649 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -279,7 +279,7 @@ def mangle_volume(citation_elements):
 
     e.g. transforms 100B to B100
     """
-    volume_re = re.compile(r"(\d+)([A-Z])", re.U | re.I)
+    volume_re = re.compile(r"(\d+)([A-Z])$", re.U | re.I)
     for el in citation_elements:
         if el["type"] == "JOURNAL":
             matches = volume_re.match(el["volume"])
-- 
2.43.0


From ac926cd2762a5ac13a410a0c3d51e474e45d4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:57 +0000
Subject: [PATCH 04/29] fix: keep handles next to their own element when
 elements are equal

---
 refextract/references/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index c479649..22e935f 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -571,7 +571,7 @@ def look_for_hdl(citation_elements):
     When finding an hdl, creates a new HDL element.
     @param citation_elements: (list) elements to process
     """
-    for el in list(citation_elements):
+    for idx, el in reversed(list(enumerate(citation_elements))):
         matched_hdl = re_hdl.finditer(el["misc_txt"])
         for match in reversed(list(matched_hdl)):
             hdl_el = {
@@ -580,7 +580,7 @@ def look_for_hdl(citation_elements):
                 "misc_txt": el["misc_txt"][match.end() :],
             }
             el["misc_txt"] = el["misc_txt"][0 : match.start()]
-            citation_elements.insert(citation_elements.index(el) + 1, hdl_el)
+            citation_elements.insert(idx + 1, hdl_el)
 
 
 def look_for_hdl_urls(citation_elements):
-- 
2.43.0


From 17ca08f573a45690222ace477cbc9c82e7709b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:16 +0000
Subject: [PATCH 05/29] fix: do not lose an author when the next citation has
 its own

---
 refextract/references/engine.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 22e935f..6fe02a2 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -336,6 +336,9 @@ def split_citations_iter(citation_elements):
     num_auth = 0
     postponed_auth = None
     prev_split_reason = None
+    # held back until it is known whether its last author is carried over
+    previous_citation = None
+    complete_previous_citation = None
 
     for el in citation_elements:
         split_reason = split_needed(el, current_types, last_type)
@@ -348,8 +351,13 @@ def split_citations_iter(citation_elements):
             ):
                 current_citation.insert(0, postponed_auth)
                 num_auth += 1
+            else:
+                previous_citation = complete_previous_citation
+            if previous_citation is not None:
+                yield previous_citation
+            previous_citation = current_citation
+            complete_previous_citation = current_citation[:]
             postponed_auth = postpone_last_auth(current_citation, num_auth)
-            yield current_citation
 
             current_citation = []
             current_types = set()
@@ -371,6 +379,10 @@ def split_citations_iter(citation_elements):
 
     if postponed_auth and (num_auth == 0 or prev_split_reason == "repeated field"):
         current_citation.insert(0, postponed_auth)
+    else:
+        previous_citation = complete_previous_citation
+    if previous_citation is not None:
+        yield previous_citation
     yield current_citation
 
 
-- 
2.43.0


From 7b6a8042537e7bc8b3e5f50ec601c98579e1f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 06/29] fix: never work with knowledge bases of another or
 failed call

---
 refextract/references/kbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..12bd78e 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -65,9 +65,10 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
 
     for kb_type, kb in kbs.items():
         if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
             cache[kb_type] = load_kb_by_type(kb_type, kb)
-    return cache
+            # only remembered once loaded, and as it was when it was loaded
+            cache_inputs[kb_type] = kb.copy() if hasattr(kb, "copy") else kb
+    return cache.copy()
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From b5c1941abb3669bd3b767d5de118429b97931256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 07/29] fix: do not change the loaded journal titles when
 tagging a line

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index d3df2ad..3c27501 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,7 +120,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
+    standardised_titles = dict(kbs["journals"][1])
     standardised_titles.update(kbs["journals_re"])
     journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
-- 
2.43.0


From 63d9ec8e084b1d3f6b4be6545c1b817f64114560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 08/29] fix: leave files that are no complete PDF alone when
 cleaning PDFs

---
 refextract/references/engine.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 6fe02a2..b00bf67 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -25,6 +25,7 @@
 
 import logging
 import mmap
+import os
 import re
 from datetime import datetime
 
@@ -1461,6 +1462,10 @@ def clean_pdf_file(filename):
     """
     strip leading and/or trailing junk from a PDF file
     """
+    if os.path.getsize(filename) == 0:
+        # an empty file cannot be mapped
+        LOGGER.debug("not a PDF file")
+        return
     with (
         open(filename, "r+b") as file,
         mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
@@ -1471,6 +1476,10 @@ def clean_pdf_file(filename):
             LOGGER.debug("not a PDF file")
             return
         end = mmfile.rfind(b"%%EOF")
+        if end < start:
+            # no end marker found after the PDF marker
+            LOGGER.debug("not a complete PDF file")
+            return
         offset = len(b"%%EOF")
         if start > 0:
             LOGGER.debug("moving and truncating")
-- 
2.43.0


From 00813b534c1f5a50ec5a6aa75162ff9aeb23ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:25 +0000
Subject: [PATCH 09/29] fix: locate journals found by regular expression in the
 right line

---
 refextract/references/tag.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 3c27501..2b086de 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -121,8 +121,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # conflict with other elements
     # e.g. DAN is also a common first name
     standardised_titles = dict(kbs["journals"][1])
-    standardised_titles.update(kbs["journals_re"])
-    journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_re_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -139,6 +138,17 @@ def tag_reference_line(line, kbs, record_titles_count):
         working_line2
     )
 
+    # Journals found with regular expressions were found in the first working
+    # line, record them as they are in the second one:
+    journals_matches = {}
+    for start, (text, journal) in journals_re_matches.items():
+        first, last = (
+            pos - sum(min(n, max(0, pos - i - 1)) for i, n in removed_spaces.items())
+            for pos in (start, start + len(text))
+        )
+        journals_matches[first] = working_line2[first:last]
+        standardised_titles[working_line2[first:last]] = journal
+
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
         identify_report_numbers(working_line2, kbs["report-numbers"])
@@ -441,10 +451,10 @@ def tag_atlas_conf(line):
 
 def identifiy_journals_re(line, kb_journals):
     matches = {}
-    for pattern, _dummy_journal in kb_journals:
+    for pattern, journal in kb_journals:
         match = re.search(pattern, line)
         if match:
-            matches[match.start()] = match.group(0)
+            matches[match.start()] = (match.group(0), journal)
     return matches
 
 
-- 
2.43.0


From fe09787b40bbb909f96ff0a508818f14e66f744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 10/29] fix: keep positions in a line when making it upper-case

---
 refextract/documents/text.py | 10 ++++++++++
 refextract/references/kbs.py |  9 ++++++---
 refextract/references/tag.py |  3 ++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/refextract/documents/text.py b/refextract/documents/text.py
index 7184fa4..f534b30 100644
--- a/refextract/documents/text.py
+++ b/refextract/documents/text.py
@@ -140,6 +140,16 @@ def repair_broken_urls(line):
     return line
 
 
+def upper_same_length(line):
+    """Transform a line to upper-case, leaving characters alone that would
+    become several characters (e.g. the German sharp s), so that every
+    character keeps its position in the line.
+    @param line: (string) the line to transform.
+    @return: (string) the line in upper-case, as long as it was.
+    """
+    return "".join(c.upper() if len(c.upper()) == 1 else c for c in line)
+
+
 def remove_and_record_multiple_spaces_in_line(line):
     """For a given string, locate all ocurrences of multiple spaces
     together in the line, record the number of spaces found at each
diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 12bd78e..214b24b 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -25,7 +25,10 @@ import contextlib
 import csv
 import re
 
-from refextract.documents.text import re_group_captured_multiple_space
+from refextract.documents.text import (
+    re_group_captured_multiple_space,
+    upper_same_length,
+)
 from refextract.references.config import CFG_REFEXTRACT_KBS
 from refextract.references.regexs import (
     re_extract_char_class,
@@ -523,7 +526,7 @@ def build_journals_kb(knowledgebase):
     for seek_phrase, repl in knowledgebase:
         # We match on a simplified line, thus dots are replaced
         # with spaces
-        seek_phrase = seek_phrase.replace(".", " ").upper()
+        seek_phrase = upper_same_length(seek_phrase.replace(".", " "))
 
         # good KB line
         # Add the 'replacement term' into the dictionary of
@@ -541,7 +544,7 @@ def build_journals_kb(knowledgebase):
     # Now, for every 'replacement term' found in the KB, if it is
     # not already in the KB as a "search term", add it:
     for repl_term in repl_terms:
-        raw_repl_phrase = repl_term.upper()
+        raw_repl_phrase = upper_same_length(repl_term)
         raw_repl_phrase = re_punctuation.sub(" ", raw_repl_phrase)
         raw_repl_phrase = re_group_captured_multiple_space.sub(" ", raw_repl_phrase)
         raw_repl_phrase = raw_repl_phrase.strip()
diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 2b086de..b6458a1 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -34,6 +34,7 @@ from refextract.authors.regexs import (
 )
 from refextract.documents.text import (
     remove_and_record_multiple_spaces_in_line,
+    upper_same_length,
     wash_line,
 )
 from refextract.references.config import (
@@ -127,7 +128,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     working_line2 = strip_tags(working_line1)
 
     # Transform the line to upper-case, now making a new working line:
-    working_line2 = working_line2.upper()
+    working_line2 = upper_same_length(working_line2)
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
-- 
2.43.0


From 3df52279d246e8f31808a194ad4ec9abc44bfb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:05 +0000
Subject: [PATCH 11/29] fix: keep all patterns of a collaboration

---
 refextract/references/kbs.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 214b24b..8dc95c3 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -565,14 +565,19 @@ def build_journals_kb(knowledgebase):
 
 
 def build_collaborations_kb(knowledgebase):
-    kb = {}
+    patterns = {}
     for pattern, collab in knowledgebase:
-        prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
-        suffix = r"(?=$|[><\]\)\"\s.,:])"
         pattern = pattern.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
-        re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
+        # a collaboration may be known by several patterns
+        patterns.setdefault(collab, []).append(pattern)
+
+    kb = {}
+    prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
+    suffix = r"(?=$|[><\]\)\"\s.,:])"
+    for collab, alternatives in patterns.items():
+        re_pattern = "%s(%s)%s" % (prefix, "|".join(alternatives), suffix)
         kb[collab] = re.compile(re_pattern, re.I | re.U)
 
     return kb
-- 
2.43.0


From 3533a6e99d617ba9112e0da5b2915fbfe2e80bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:46 +0000
Subject: [PATCH 12/29] fix: simplify journal search phrases as the lines they
 are searched in

---
 refextract/references/kbs.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 8dc95c3..5060ab4 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -485,6 +485,14 @@ def load_kb_from_file(path, builder):
         return builder(lazy_parser(fh))
 
 
+def simplify_title(title):
+    """Write a title as it appears in the simplified lines we match on:
+    upper case, punctuation replaced with spaces, no repeated spaces.
+    """
+    title = re_punctuation.sub(" ", upper_same_length(title))
+    return re_group_captured_multiple_space.sub(" ", title).strip()
+
+
 def build_journals_kb(knowledgebase):
     """Given the path to a knowledge base file, read in the contents
     of that file into a dictionary of search->replace word phrases.
@@ -524,9 +532,9 @@ def build_journals_kb(knowledgebase):
     # by the KB:
     repl_terms = {}
     for seek_phrase, repl in knowledgebase:
-        # We match on a simplified line, thus dots are replaced
-        # with spaces
-        seek_phrase = upper_same_length(seek_phrase.replace(".", " "))
+        # We match on a simplified line, thus the phrase is simplified
+        # in the same way
+        seek_phrase = simplify_title(seek_phrase)
 
         # good KB line
         # Add the 'replacement term' into the dictionary of
@@ -544,10 +552,7 @@ def build_journals_kb(knowledgebase):
     # Now, for every 'replacement term' found in the KB, if it is
     # not already in the KB as a "search term", add it:
     for repl_term in repl_terms:
-        raw_repl_phrase = upper_same_length(repl_term)
-        raw_repl_phrase = re_punctuation.sub(" ", raw_repl_phrase)
-        raw_repl_phrase = re_group_captured_multiple_space.sub(" ", raw_repl_phrase)
-        raw_repl_phrase = raw_repl_phrase.strip()
+        raw_repl_phrase = simplify_title(repl_term)
         if raw_repl_phrase not in kb:
             # The replace-phrase was not in the KB as a seek phrase
             # It should be added.
-- 
2.43.0


From 3670e6bbd3b69f0869928bc7cbe2005f5c6952a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:46 +0000
Subject: [PATCH 13/29] fix: trim padded knowledge-base terms

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c8c4d31..adf1b97 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -313,7 +313,7 @@ re_isbn = re.compile(
 
 # Pattern to recognise a correct knowledge base line:
 re_kb_line = re.compile(
-    r"^\s*(?P<seek>[^\s].*)\s*---\s*(?P<repl>[^\s].*)\s*$", re.UNICODE
+    r"^\s*(?P<seek>\S(?:.*\S)?)\s*---\s*(?P<repl>\S(?:.*\S)?)\s*$", re.UNICODE
 )
 
 # Pattern to recognise references in PDF named destinations
-- 
2.43.0


From b8e2892458c8dbb8658dc8768493277f40247213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:12 +0000
Subject: [PATCH 14/29] fix: keep the mark before a report number

---
 refextract/references/tag.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index b6458a1..5797ddc 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -512,13 +512,11 @@ def add_tagged_report_number(
     # include the tagged & standardised REPORT-NUMBER
 
     # Fill rebuilt_line with the contents of the reading_line up to the point
-    # of the institutional REPORT-NUMBER. However, stop 1 character before the
-    # replacement index of this REPORT-NUMBER to allow for removal of braces,
-    # if necessary:
-    if (true_replacement_index - startpos - 1) >= 0:
-        rebuilt_line += reading_line[startpos : true_replacement_index - 1]
-    else:
-        rebuilt_line += reading_line[startpos:true_replacement_index]
+    # of the institutional REPORT-NUMBER. However, leave out a brace or space
+    # just before it:
+    rebuilt_line += reading_line[startpos:true_replacement_index]
+    if rebuilt_line[-1:] in ("[", "(", " "):
+        rebuilt_line = rebuilt_line[:-1]
 
     # Add the tagged REPORT-NUMBER into the rebuilt-line segment:
     rebuilt_line += "<cds.REPORTNUMBER>%(reportnum)s</cds.REPORTNUMBER>" % {
-- 
2.43.0


From 241195469abab55195ab4a2e72e3a83423ba88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:10 +0000
Subject: [PATCH 15/29] fix: account for white space stripped inside a
 publisher

---
 refextract/references/tag.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 5797ddc..377792d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -286,6 +286,7 @@ def process_reference_line(
                 replacement_types,
                 pprint_repnum_len,
                 journals_matches,
+                publishers_matches,
                 replacement_index,
             )
 
@@ -774,6 +775,7 @@ def account_for_stripped_whitespace(
     replacement_types,
     len_reportnums,
     journals_matches,
+    publishers_matches,
     replacement_index,
 ):
     """To build a processed (MARC XML) reference line in which the
@@ -850,6 +852,15 @@ def account_for_stripped_whitespace(
             # before its recognition:
             spare_replacement_index += removed_spaces[space]
             extras += removed_spaces[space]
+        elif (
+            space >= spare_replacement_index
+            and replacement_types[replacement_index] == "publisher"
+            and space
+            < (spare_replacement_index + len(publishers_matches[replacement_index]))
+        ):
+            # Likewise for a publisher:
+            spare_replacement_index += removed_spaces[space]
+            extras += removed_spaces[space]
 
     # return the new values for replacement indices with stripped
     # whitespace accounted for:
-- 
2.43.0


From 3ac2e0e6b960b56eaf0753487d7051a251c259f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:14 +0000
Subject: [PATCH 16/29] fix: do not use a part of a line for two items

---
 refextract/references/tag.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 377792d..384b8b7 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -117,15 +117,15 @@ def tag_reference_line(line, kbs, record_titles_count):
     # and a 2 years digit format to convert
     working_line1 = tag_atlas_conf(working_line1)
 
+    # Remove identified tags
+    working_line2 = strip_tags(working_line1)
+
     # Identify journals with regular expression
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
     standardised_titles = dict(kbs["journals"][1])
-    journals_re_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
-
-    # Remove identified tags
-    working_line2 = strip_tags(working_line1)
+    journals_re_matches = identifiy_journals_re(working_line2, kbs["journals_re"])
 
     # Transform the line to upper-case, now making a new working line:
     working_line2 = upper_same_length(working_line2)
@@ -139,8 +139,8 @@ def tag_reference_line(line, kbs, record_titles_count):
         working_line2
     )
 
-    # Journals found with regular expressions were found in the first working
-    # line, record them as they are in the second one:
+    # Journals found with regular expressions were found before removing the
+    # spaces, record them as they are in the second one:
     journals_matches = {}
     for start, (text, journal) in journals_re_matches.items():
         first, last = (
@@ -290,6 +290,10 @@ def process_reference_line(
                 replacement_index,
             )
 
+            if true_replacement_index < startpos:
+                # this lies in a part of the line that was used already
+                continue
+
             if replacement_types[replacement_index] == "journal":
                 # Add a tagged periodical TITLE into the line:
                 rebuilt_chunk, startpos, previous_match = add_tagged_journal(
@@ -1337,10 +1341,17 @@ def identify_publishers(line, kb_publishers):
     matches_repl = {}  # standardised report numbers matched
     # at given locations in line
 
-    for abbrev, info in kb_publishers.items():
-        for match in info["pattern"].finditer(line):
+    # longest first, so that a publisher is not found inside of another one
+    for abbrev in sorted(kb_publishers, key=len, reverse=True):
+        for match in kb_publishers[abbrev]["pattern"].finditer(line):
             # record the matched non-standard version of the publisher:
             matches_repl[match.start(0)] = abbrev
+            # and replace it in the line by underscores:
+            line = (
+                line[: match.start(0)]
+                + "_" * len(match.group(0))
+                + line[match.end(0) :]
+            )
 
     return matches_repl
 
-- 
2.43.0


From c4ead767553998ea703831d60f0fff2261250c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:42 +0000
Subject: [PATCH 17/29] fix: keep the character after a journal reference
 without year

---
 refextract/references/tag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 384b8b7..76f6f99 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -679,6 +679,9 @@ def add_tagged_journal(
             # Now look for more funky numeration
             # With possibly some elements before the journal title
             numerotation_info = find_numeration_more(numeration_line)
+            if numerotation_info:
+                # The space before the numeration is not part of the line
+                numerotation_info["len"] -= 1
 
         if not numerotation_info:
             startpos = old_startpos
-- 
2.43.0


From d4fd42e9af8d24e7c023821e4a64c46bf4230930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:47 +0000
Subject: [PATCH 18/29] fix: recognise the references that follow a title and
 marker on one line

The marker pattern of a reference section whose title is on the line of
its first reference contained the title, so that no other reference of
the section matched it and all of them became one reference.
---
 refextract/references/find.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 29d2b3a..4cc78f2 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -168,7 +168,8 @@ def find_numeration_in_title(docbody, title):
     mk_with_title_match = regex_match_list(first_line, mk_with_title_ptns)
     if mk_with_title_match:
         mk = mk_with_title_match.group("mark")
-        mk_ptn = mk_with_title_match.re.pattern
+        # The references that follow have the same marker, but no title
+        mk_ptn = mk_with_title_match.re.pattern.replace(title, "", 1)
         m_num = re_num.search(mk)
         if m_num and m_num.group(0) == "1":
             # Mark found
-- 
2.43.0


From 89b8c7f3aab707d74c0f1e3903c486b824ebfb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:47 +0000
Subject: [PATCH 19/29] fix: do not fail on numbers too long to be the number
 of a reference

A marker of more than 4300 digits left marknum unset, or set to the
number of an earlier line.
---
 refextract/references/text.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 80b3690..55b131f 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -245,11 +245,9 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
             except IndexError:
                 marknum = None
             except ValueError:
-                # If the mark is a unicode character category [Nd],
-                # it is not always convertible to int by int()
-                # We can't use its numerical value, but we still accept it
-                # as numeration
-                pass
+                # The number is too long for int(): it can't be the number of
+                # the next reference
+                marknum = -1
 
             new_line_detected = False
             if marknum is None or current_ref + 1 == marknum:
-- 
2.43.0


From 1ab43c227b1524e6a4fbeb2b3dd1f6a57d625746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 20/29] fix: keep the text after a tag that is not closed

---
 refextract/references/engine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index b00bf67..35f4bd6 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1373,10 +1373,9 @@ def map_tag_to_subfield(tag_type, line, cur_misc_txt, dest):
     idx_closing_tag = line.find(closing_tag)
     # Sanity check - did we find a closing tag?
     if idx_closing_tag == -1:
-        # no closing </cds.TAG> tag found - strip the opening tag and move past this
-        # recognised reportnumber as it is unreliable:
+        # no closing </cds.TAG> tag found - the opening tag is already stripped, move
+        # past this recognised item as it is unreliable:
         identified_citation_element = None
-        line = line[len("<cds.%s>" % tag_type) :]
     else:
         tag_content = line[:idx_closing_tag]
         identified_citation_element = {
-- 
2.43.0


From 7e8bca8b070996900b9477a03a56b5abae60dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 21/29] fix: do not fail on a URL or DOI tag in the original
 line

---
 refextract/references/engine.py | 68 +++++++++++++++++----------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 35f4bd6..3c7a8fb 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1156,52 +1156,56 @@ def parse_tagged_reference_line(line_marker, line, identified_dois, identified_u
         elif tag_type == "URL":
             # This tag is an identified URL:
 
-            # From the "identified_urls" list, get this URL and its
-            # description string:
-            url_string = identified_urls[0][0]
-            url_desc = identified_urls[0][1]
-
             # Now move past this "<cds.URL />"tag in the line:
             processed_line = processed_line[tag_match_end:]
 
-            # Delete the information for this URL from the start of the list
-            # of identified URLs:
-            identified_urls[0:1] = []
+            # The tag may have been in the original line, standing for no URL
+            if identified_urls:
+                # From the "identified_urls" list, get this URL and its
+                # description string:
+                url_string = identified_urls[0][0]
+                url_desc = identified_urls[0][1]
 
-            # Save the current misc text
-            identified_citation_element = {
-                "type": "URL",
-                "misc_txt": "%s" % cur_misc_txt,
-                "url_string": "%s" % url_string,
-                "url_desc": "%s" % url_desc,
-            }
+                # Delete the information for this URL from the start of the list
+                # of identified URLs:
+                identified_urls[0:1] = []
+
+                # Save the current misc text
+                identified_citation_element = {
+                    "type": "URL",
+                    "misc_txt": "%s" % cur_misc_txt,
+                    "url_string": "%s" % url_string,
+                    "url_desc": "%s" % url_desc,
+                }
 
-            count_url += 1
-            cur_misc_txt = ""
+                count_url += 1
+                cur_misc_txt = ""
 
         elif tag_type == "DOI":
             # This tag is an identified DOI:
 
-            # From the "identified_dois" list, get this DOI and its
-            # description string:
-            doi_string = identified_dois[0]
-
             # Now move past this "<cds.CDS />"tag in the line:
             processed_line = processed_line[tag_match_end:]
 
-            # Remove DOI from the list of DOI strings
-            identified_dois[0:1] = []
+            # The tag may have been in the original line, standing for no DOI
+            if identified_dois:
+                # From the "identified_dois" list, get this DOI and its
+                # description string:
+                doi_string = identified_dois[0]
 
-            # SAVE the current misc text
-            identified_citation_element = {
-                "type": "DOI",
-                "misc_txt": "%s" % cur_misc_txt,
-                "doi_string": "%s" % doi_string,
-            }
+                # Remove DOI from the list of DOI strings
+                identified_dois[0:1] = []
+
+                # SAVE the current misc text
+                identified_citation_element = {
+                    "type": "DOI",
+                    "misc_txt": "%s" % cur_misc_txt,
+                    "doi_string": "%s" % doi_string,
+                }
 
-            # Increment the stats counters:
-            count_doi += 1
-            cur_misc_txt = ""
+                # Increment the stats counters:
+                count_doi += 1
+                cur_misc_txt = ""
 
         elif tag_type.find("AUTH") != -1:
             # This tag is an identified Author:
-- 
2.43.0


From 3248dbd24d48c2512cdff65b3cb74e1aaf186fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 22/29] fix: keep the text after a URL that is followed by a
 linked URL

---
 refextract/references/tag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 76f6f99..51bf06f 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1418,9 +1418,9 @@ def identify_and_tag_URLs(line):
         found_url_full_matchlen[startposn] = matchlen
         found_url_urlstring[startposn] = m_tagged_url.group("url")
         found_url_urldescr[startposn] = m_tagged_url.group("desc")
-        # temporarily replace the URL match with underscores so that
-        # it won't be re-found
-        line = line[0:startposn] + "_" * matchlen + line[endposn:]
+        # temporarily replace the URL match with characters that are not part of
+        # a URL so that it won't be re-found
+        line = line[0:startposn] + "<" * matchlen + line[endposn:]
 
     # Attempt to identify and tag all RAW (i.e. not
     # HTML-marked-up) URLs in the line:
-- 
2.43.0


From bff0f9e4a70feaca99521f1813e95f824cef6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 23/29] fix: use the decoded name of a PDF destination

---
 refextract/references/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..3dbb79a 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -68,7 +68,7 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
             )
             match = re_reference_in_dest.match(destination_key)
             if match:
-                refs.append(destination)
+                refs.append((destination_key, destination[1]))
         two_column_layout = False
         try:
             if _destinations_in_two_columns(pdf, refs):
-- 
2.43.0


From d46278d30d7cb00905c2d6d6d94ec798719096f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:21 +0000
Subject: [PATCH 24/29] fix: do not fail on PDF destination names that are not
 UTF-8

---
 refextract/references/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 3dbb79a..d186db5 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -62,7 +62,7 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
         refs = []
         for destination in destinations.items():
             destination_key = (
-                destination[0].decode("utf-8")
+                destination[0].decode("utf-8", "replace")
                 if isinstance(destination[0], ByteStringObject)
                 else destination[0]
             )
-- 
2.43.0


From a753427d3b24c39b67c0e973d4e702bbc640c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:39 +0000
Subject: [PATCH 25/29] fix: do not give a URL on the next page to a reference
 that another one follows on its page

---
 refextract/references/pdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index d186db5..de27554 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -141,7 +141,11 @@ def _match_urls_with_reference(
                 urls_for_reference.add(url[0])
             continue
         is_url_between_texkeys = (
-            is_reference_on_same_page_as_url or is_reference_on_previous_page_than_url
+            is_reference_on_same_page_as_url
+            or (
+                is_reference_on_previous_page_than_url
+                and ref_page_number < next_ref_page_number
+            )
         ) and (ref_y <= url_y <= next_ref_y)
         is_next_reference_on_the_same_page = next_ref_page_number == url_page_number
         is_last_reference_in_page = (
-- 
2.43.0


From 08090f277d422d55554f8baa912e88b1202235cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:17 +0000
Subject: [PATCH 26/29] fix: do not lose the URLs of a reference after one
 above it on its page

---
 refextract/references/pdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index de27554..e8056d6 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -175,7 +175,11 @@ def _match_urls_with_reference(
             and (next_ref_col == ref_column < url_col)
             and (next_ref_y > url_y)
         )
-        is_url_unrelated_to_references = ref_page_number > url_page_number
+        is_url_unrelated_to_references = ref_page_number > url_page_number or (
+            is_reference_on_same_page_as_url
+            and is_url_in_same_col
+            and not is_url_under_texkey
+        )
         is_url_for_next_reference = url_y >= next_ref_y
         if is_url_between_texkeys:
             if not two_column_layout or (two_column_layout and url_col == ref_column):
-- 
2.43.0


From a16454347639d6b7559d3915e5c66869b70ce6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:25 +0000
Subject: [PATCH 27/29] fix: do not lose URLs on a later page than the next
 reference

---
 refextract/references/pdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index e8056d6..ffda128 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -180,7 +180,9 @@ def _match_urls_with_reference(
             and is_url_in_same_col
             and not is_url_under_texkey
         )
-        is_url_for_next_reference = url_y >= next_ref_y
+        is_url_for_next_reference = (
+            url_page_number > next_ref_page_number or url_y >= next_ref_y
+        )
         if is_url_between_texkeys:
             if not two_column_layout or (two_column_layout and url_col == ref_column):
                 urls_for_reference.add(url[0])
-- 
2.43.0


From 65a41383e61f156efc9a7456957d9f18a162c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 28/29] fix: do not cut a year out of a longer number

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index adf1b97..2ea2218 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1106,5 +1106,5 @@ def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
-    s = re.sub(r"\s*%s\s*" % year_pattern, "", s)
+    s = re.sub(r"\s*(?<!\d)%s(?!\d)\s*" % year_pattern, "", s)
     return s
-- 
2.43.0


From 9f1781110b2a18e473b0fc5fb18f5e7a47732a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:18 +0000
Subject: [PATCH 29/29] fix: find and cut book titles where upper case changes
 the length, and skip titles without letters

---
 refextract/references/engine.py | 35 ++++++++++++++-------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 3c7a8fb..1b6d8cc 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -790,23 +790,18 @@ def get_possible_author_names(citation):
 
 
 def find_substring_ignore_special_chars(s, substr):
-    s = s.upper()
-    substr = substr.upper()
-    clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
-    clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
+    # a character may have several in upper case: remember where each is from
+    chars = [
+        (char, index)
+        for index, original in enumerate(s)
+        for char in original.upper()
+        if re.match("[A-Z0-9]", char)
+    ]
+    clean_s = "".join(char for char, _ in chars)
+    clean_substr = re.sub("[^A-Z0-9]", "", substr.upper())
     startIndex = clean_s.find(clean_substr)
-    if startIndex != -1:
-        i = 0
-        real_index = 0
-        re_alphanum = re.compile("[A-Z0-9]")
-        for char in s:
-            if re_alphanum.match(char):
-                i += 1
-            if i > startIndex:
-                break
-            real_index += 1
-
-        return real_index
+    if clean_substr and startIndex != -1:
+        return chars[startIndex][1]
     else:
         return -1
 
@@ -814,12 +809,12 @@ def find_substring_ignore_special_chars(s, substr):
 def cut_substring_with_special_chars(s, sub, startIndex):
     counter = 0
     subPosition = 0
-    s_Upper = s.upper()
     sub = sub.upper()
     clean_sub = re.sub("[^A-Z0-9]", "", sub)
-    for char in s_Upper[startIndex:]:
-        if char == clean_sub[subPosition]:
-            subPosition += 1
+    for original in s[startIndex:]:
+        for char in original.upper():
+            if clean_sub.startswith(char, subPosition):
+                subPosition += 1
         counter += 1
         # end of substrin reached?
         if subPosition >= len(clean_sub):
-- 
2.43.0

