import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.split(': ',1)[1],where=m.split(': ',1)[0]) for m in mech])))
R="refextract/references/"
p("C01","Batch extraction returns exactly one entry per raw reference",
"For every list of raw reference strings and whatever the parser does on each of them (one result, several, none, or any error), the batch-list service returns exactly one entry per input string, in input order: the first parsed reference, or an entry holding only the unchanged raw string when parsing gave nothing or failed. A failure on one string never changes, drops or duplicates the entry of another, and no parser error escapes to the caller.",
["inputs","fault_sequences"],"all lists of raw references, all outcomes (results or exceptions) of parsing each of them",
"The tests run two or three well-formed lists; they never combine parser failures, empty results and multiple results at arbitrary positions.",
["refextract/extract.py"],["refextract/extract.py: extract_references_from_list (loop with per-item try/except)"])
p("C02","Service wrappers never raise and keep results aligned with their input",
"The publication-info service returns one entry per supplied publication info, in order, with an empty entry when nothing was recognised; the text and URL services return exactly the references the extractor produced, in the same order. Any error during extraction, at whichever item it happens, yields an absent result instead of an exception or a partial list. The caller's journal titles and the compact title,volume,page citation format are handed to the extractor on every call.",
["inputs","fault_sequences"],"all inputs and all points at which extraction can fail",
"Tests exercise one success and one failure each; alignment for arbitrary lists and failure positions is not sampled.",
["refextract/extract.py",R+"api.py"],["refextract/extract.py: extract_journal_info, extract_references_from_text, extract_references_from_file_url"])
p("C03","URL extraction always removes its temporary file and parses what was served",
"Extraction from a URL downloads into one temporary file, parses exactly the bytes that were served and returns the references of that file unchanged, with the caller's options passed on. Whatever happens on the way (HTTP error, connection failure part-way through, disk write error, parse error), the temporary file is gone when the call ends. An HTTP error status is reported as full text not available; every other failure reaches the caller as itself.",
["fault_sequences","inputs"],"every URL, every chunking of the body, and a failure at any step of download, write, parse",
"Tests mock one happy download and one 404; no test fails at each intermediate step and looks for a leftover file.",
[R+"api.py"],[R+"api.py: extract_references_from_url (mkstemp, try/except/finally)"])
p("C04","File extraction attaches PDF links only to the reference they belong to",
"Extraction from a missing file reports full text not available; otherwise the references come from the plain-text body, and from the layout-preserving body only when the first yields no reference lines. For a PDF, citation keys and URLs found in the document are attached only when there is exactly one per parsed reference, the n-th to the n-th; otherwise, and for any other document, the parsed references are returned unchanged. Attaching never removes or alters information already parsed: existing URLs stay, new ones follow, duplicates are dropped, and the citation key is the only other field set.",
["inputs"],"all documents, all lists of parsed references and all lists of PDF annotations of any lengths",
"The tests use a few sample PDFs in which the counts happen to agree or not; they cannot cover all pairs of lists nor show that no other field changes.",
[R+"api.py",R+"record.py"],[R+"api.py: extract_references_from_file",R+"record.py: update_reference_with_urls, add_subfield"])
p("C05","Every reported reference carries the raw text and marker of its own line",
"For every sequence of reference lines, each reported reference carries the complete raw text of the line it was found in and that line's marker without brackets or punctuation (no marker when the line has none). References are reported in line order, and every citation found in a line gives exactly one reported reference. Nothing found in one line is ever reported under another line's text or marker.",
["inputs"],"all sequences of reference lines and all numbers of citations per line",
"Tests compare a few hand-written inputs; they do not quantify over number of lines, citations per line, or markers.",
[R+"engine.py",R+"record.py"],[R+"engine.py: parse_references, parse_references_elements, parse_reference_line, remove_reference_line_marker",R+"record.py: build_references, build_reference_fields, format_marker"])
p("C06","Reported fields are exactly the recognised pieces of the citation",
"Each recognised piece of a citation (journal, report number, DOI, handle, URL and its description, author group, quoted or book title, ISBN, publisher, year, collaboration, record id, leftover text) appears in the reported reference under its own field, with the text that was recognised and in the order of recognition. DOIs and handles carry their doi:/hdl: prefix, included author groups are parenthesised, and the journal citation is rendered with the caller's format. No field is reported empty and no field appears without a recognised piece behind it.",
["inputs"],"all sequences of recognised elements of every type, with all combinations of present and empty values",
"Tests cover typical references; not every element type, ordering, repetition and empty value.",
[R+"record.py"],[R+"record.py: build_reference_fields, add_subfield, add_journal_subfield, create_reference_field"])
p("C07","Splitting a line into citations neither loses nor duplicates recognised items",
"When a reference line is split into several citations, every recognised item other than author groups ends up in exactly one citation and the order of items is kept; a semicolon that causes a split is the only character dropped. An author group is never lost: it stays in its citation, or the last one of a citation is carried over to the front of the next. No citation contains two items of the same non-repeatable kind (report numbers other than arXiv numbers, collaborations, author groups and leftover text may repeat). Removing repetitions inside a citation keeps its first DOI and one of each collaboration, turns a second author group into leftover text that keeps its wording, and changes nothing else.",
["inputs"],"all sequences of recognised elements of a line, of any length and mixture",
"Tests give single example lines; the split heuristics depend on arbitrary interleavings of element kinds, semicolons and author groups.",
[R+"engine.py"],[R+"engine.py: split_citations_iter, split_needed, postpone_last_auth, remove_duplicated_authors, remove_duplicated_dois, remove_duplicated_collaborations"])
p("C08","DOIs and URLs in a line are each recognised once and reported in order",
"For every reference line, each DOI and each URL recognised in it is replaced by exactly one placeholder and reported exactly once, in the order in which they occur, with the URL's description where the line links one. The rest of the line is left exactly as it was (quotes around a URL and a full stop at its end go with its placeholder). Any number of them on a line is handled, whatever text surrounds them.",
["inputs"],"all lines, with any number of recognised DOIs, plain and linked URLs at any positions",
"Tests have at most a couple of DOIs or URLs per line; index arithmetic over many replacements is not exercised.",
[R+"tag.py"],[R+"tag.py: identify_and_tag_DOI, identify_and_tag_URLs"])
p("C09","Interpreting a marked-up line keeps every piece of its text",
"Turning a marked-up reference line into elements terminates for every line and neither loses nor reorders text: the text around and inside the marks, taken in order, is the text of the line. Each placeholder consumes exactly the next recognised DOI or URL, each mark gives one element of its kind, and a mark that is not closed or cannot be interpreted leaves its text as leftover text.",
["inputs"],"all marked-up lines, including unclosed, nested and adjacent marks",
"Tests only feed lines produced from typical references, in which every mark is closed and well placed.",
[R+"engine.py"],[R+"engine.py: parse_tagged_reference_line, map_tag_to_subfield, convert_unusable_tag_to_misc"])
p("C10","Knowledge bases in effect are always the ones requested",
"Whatever calls came before, in whatever order, with whichever knowledge-base overrides and even if earlier loads failed, a call works with exactly the knowledge bases it asked for: the caller's override for each kind that has one, the shipped one for every other kind. A kind is reloaded only when its source differs from the one last loaded successfully. Processing lines never modifies the loaded knowledge bases.",
["histories","fault_sequences","configurations"],"all histories of calls with arbitrary overrides and load failures",
"Tests call with a fresh or a single configuration; cache state after long or failing histories is not explored.",
[R+"kbs.py",R+"tag.py"],[R+"kbs.py: get_kbs (cache, cache_inputs), load_kb_by_type",R+"tag.py: tag_reference_line"])
p("C11","Knowledge-base loaders keep every entry and reject malformed lines",
"Every well-formed entry of a knowledge base is searchable after loading and standardises to the replacement given by the last entry for it; every replacement title is itself searchable; search phrases are tried longest first. Comments are ignored, and a malformed line of a title, publisher or collaboration knowledge base is reported as an error instead of being dropped. Lookup tables are closed: everything that can be found can be standardised.",
["inputs","configurations"],"all knowledge-base contents, from file, dictionary or iterable",
"Tests load the shipped files and a couple of tiny overrides.",
[R+"kbs.py"],[R+"kbs.py: build_journals_kb, build_collaborations_kb, build_publishers_kb, build_special_journals_kb, build_books_kb, build_authors_kb, build_journals_re_kb, load_kb, load_kb_from_file, build_reportnum_kb"])
p("C12","PDF cleaning keeps exactly the document and never damages another file",
"After cleaning, a PDF file holds exactly the bytes from its first header mark through its last end mark. A file without both marks in that order is left byte-for-byte unchanged. No content makes cleaning fail or change any byte inside the kept range.",
["inputs"],"all file contents: any bytes before, between and after the marks, marks repeated, missing or reversed, empty file",
"The one test cleans one sample file.",
[R+"engine.py"],[R+"engine.py: clean_pdf_file, get_plaintext_document_body"])
p("C13","Removing page breaks, headers and footers removes nothing else",
"From every document, only page-break marks and lines that belong to a page's recognised header or footer block are removed; all other lines stay, unmodified and in order. A document with fewer than three pages, or pages without text, loses no text. Cleaning terminates and never fails, whatever the page structure.",
["inputs"],"all documents as sequences of lines with any placement of page breaks and repeated first/last lines",
"Tests contain a few fixed documents; index arithmetic over arbitrary page structures is not covered.",
["refextract/documents/text.py"],["refextract/documents/text.py: strip_headers_footers_pagebreaks, get_page_break_positions, get_number_header_lines, get_number_footer_lines, strip_headers, strip_footers, strip_page_breaks, document_contains_text"])
p("C14","The reference section is one contiguous range of the document",
"For every document, the reference section found starts at a line that introduces or numbers references, ends at or after its start and inside the document, and the lines handed on are the document's own lines of that range in order. If no section can be found the result is empty, with no error. Of several titles of the same kind, one that numbered references follow is never given up for one without. The section ends before the first title of another section that no further reference in sequence follows, or at an axis of numbers, and otherwise with the document.",
["inputs"],"all documents as sequences of lines",
"Tests use a few sample texts; range arithmetic over all documents is not covered.",
[R+"find.py",R+"text.py",R+"engine.py"],[R+"find.py: get_reference_section_beginning, find_reference_section, find_numeration, find_end_of_reference_section",R+"text.py: extract_references_from_fulltext, get_reference_lines"])
p("C15","Rebuilding broken reference lines keeps all text in order",
"Joining broken lines back into references keeps every character of the section apart from white space and the hyphens of words split across lines, in the original order; only a reference of more than 25 lines is cut, after its 25th. With a numbering style, a new reference starts exactly at a line whose number continues the sequence; without one, at blank lines if these separate the references, or at lines that are not indented and do not continue the sentence before. No input makes rebuilding fail.",
["inputs"],"all sequences of section lines and all numbering styles",
"Tests rebuild a few short lists; sequences with gaps, repeated or huge numbers and long references are not covered.",
[R+"text.py",R+"engine.py"],[R+"text.py: rebuild_reference_lines, _create_regex_pattern_add_optional_spaces_to_word_characters, wash_and_repair_reference_line, join_lines"])
p("C16","Positions found in the simplified line point at the right place in the original",
"Collapsing runs of white space records, for every removed character, where it was, so that every position found in the collapsed line is mapped back to the position of the same character in the original. The simplified working copies of a line have the same length as the original while items are being located. What is cut out of the original line is therefore exactly the recognised item.",
["inputs"],"all lines and all recorded positions",
"Tests look at final output for a few lines with single extra spaces.",
[R+"tag.py",R+"text.py"],[R+"text.py: remove_and_record_multiple_spaces_in_line",R+"tag.py: account_for_stripped_whitespace, identify_ibids, identify_report_numbers, identifiy_journals"])
p("C17","Statistics are the exact sums over all processed lines",
"For every sequence of lines, each statistic reported (journal titles, report numbers, author groups, URLs, DOIs, leftover texts) is the sum of that statistic over the lines, every line counted exactly once, and the counts of recognised title phrases add up over the lines in the same way. Merging two sets of counts keeps every key of both, adds the shared ones and changes neither input. The compact summary string shows the same numbers.",
["inputs","histories"],"all sequences of lines and all pairs of count tables",
"Tests look at statistics of single-line inputs only, where a sum and an overwrite agree.",
[R+"tag.py",R+"engine.py"],[R+"tag.py: sum_2_dictionaries",R+"engine.py: build_stats, parse_references_elements, parse_references"])
p("C18","Normalisation rewrites only what its rule names",
"Roman volumes become their arabic value, a trailing volume letter moves to the front, a series letter in the journal title moves to the volume, special journals get a two-digit year prefix and three-digit pages, report numbers get their missing dash or slash, arXiv and handle links become report numbers and handles, a handle inside leftover text becomes an element right behind the text before it, and a quoted title of a known book becomes that book; nothing else changes. Elements of other kinds, other fields and the order of elements are untouched by every rule. No element makes a rule fail.",
["inputs"],"all sequences of recognised elements with arbitrary field values",
"Tests check one example per rule.",
[R+"engine.py"],[R+"engine.py: format_volume, roman2arabic, handle_special_journals, format_report_number, format_hep, format_author_ed, look_for_books, split_volume_from_journal, remove_b_for_nucl_phys, mangle_volume, arxiv_urls_to_report_numbers, look_for_hdl, look_for_hdl_urls"])
p("C19","PDF citation keys and URLs are reported once per reference, in reading order",
"For every PDF, the list of citation keys with their URLs contains one entry per reference destination of the document, in reading order (page, then column in a two-column document, then height), whatever the order and type of the destination names. Only URL links of the document are reported, never further from the reference than the next page. In a document whose references and URLs stand in one column, a URL goes to the reference it stands in (the last one at or above it in reading order) and to no other, and is never lost when it is on that reference's page; the same URL may occur in several references. A document whose links or positions cannot be read gives an empty list, never an error.",
["inputs","fault_sequences"],"all sets of destinations and links at arbitrary positions, and unreadable documents",
"Tests use a handful of sample PDFs.",
[R+"pdf.py"],[R+"pdf.py: extract_texkeys_and_urls_from_pdf, _match_urls_with_reference, _destinations_in_two_columns, extract_urls"])
p("C20","Record ids are attached exactly as the linking callback returns them",
"When the caller supplies a linking callback, each linking pass calls it exactly once for each element, in order, whatever state it keeps; the last pass covers every element of every citation of the line, including those added after splitting. A citation reports the first non-empty record id its elements got, once; a lookup failure (IndexError or KeyError) gives none and any other error reaches the caller. Without a callback no record id is ever reported, and linking changes nothing else in what is reported.",
["inputs","fault_sequences"],"all sequences of elements and all callback behaviours, including failures at any call",
"Tests use one callback on one line.",
[R+"engine.py"],[R+"engine.py: associate_recids, add_recid_elements, parse_reference_line",R+"record.py: build_reference_fields"])
p("C21","Years, implied journals and books come from leftover text, nothing else is lost",
"For every list of citations of a line: a citation gets exactly one year, that of its first journal or dated book, or else one from its leftover text (1900 to 2099, standing alone; the first of the last text that has any), and none otherwise. That year is taken out of the leftover texts, with the brackets and white space around it; no word and no other number is. A citation without a journal right after one with a journal gets, for each leftover text that begins with a volume and page, a journal with the title of the last journal before (and its series, unless the text names one), and just these are cut from the text. A citation not recognised as anything else gets the first book of its year whose title one of its texts contains, case and punctuation aside; the title is cut out of that text and no other letter or digit is. No input makes this fail, and other elements, their fields and their order stay as they are.",
["inputs"],"all lists of citations with arbitrary elements and texts, and all book knowledge bases",
"Tests have one example of an implied journal and a few years.",
[R+"engine.py",R+"regexs.py"],[R+"engine.py: add_year_elements, look_for_implied_ibids, look_for_undetected_books, search_for_book_in_misc, find_substring_ignore_special_chars, cut_substring_with_special_chars",R+"regexs.py: remove_year"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import sys; sys.path.insert(0,'.')
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
print(len(P))
