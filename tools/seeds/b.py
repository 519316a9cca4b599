import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
A = "refextract/references/api.py"; E = "refextract/references/engine.py"; R = "refextract/references/record.py"
FILE = '''
import refextract.references.api as api
def run(refs, links, mime="application/pdf"):
    api.os.path.isfile, keep = (lambda p: True), api.os.path.isfile
    try:
        api.get_plaintext_document_body = lambda p, keep_layout=False: ["x"]
        api.extract_references_from_fulltext = lambda b: (["l"], None, None)
        api.parse_references = lambda *a, **k: (refs, {})
        api.extract_texkeys_and_urls_from_pdf = lambda p: links
        api.magic.from_file = lambda p, mime=True: "application/pdf"
        return api.extract_references_from_file("x.pdf")
    finally:
        api.os.path.isfile = keep
'''
seed("c04-more-links-than-refs", "C04", [(A, "if len(extracted_texkeys_urls) == len(parsed_refs):", "if len(extracted_texkeys_urls) >= len(parsed_refs):")],
 "a PDF with more reference destinations than parsed references", "citation keys and URLs are attached to the wrong references", FILE + '''
r = run([{"raw_ref": ["a"]}], [{"texkey": "A"}, {"texkey": "B"}])
assert r == [{"raw_ref": ["a"]}], r
''')
seed("c04-replaces-urls", "C04", [(A, '''                update_reference_with_urls(ref, ref_texkey_urls.get("urls", []))
''', '''                urls = ref_texkey_urls.get("urls", [])
                if any(url in ref.get("url", []) for url in urls):
                    ref["url"] = []
                update_reference_with_urls(ref, urls)
''')], "a PDF link that repeats one of several URLs already parsed for the reference", "URLs that were parsed from the text are lost", FILE + '''
r = run([{"raw_ref": ["a"], "url": ["u1", "u2"]}], [{"texkey": "A", "urls": ["u2", "u3"]}])
assert r == [{"raw_ref": ["a"], "url": ["u1", "u2", "u3"], "texkey": ["A"]}], r
''')
seed("c05-cached-lines", "C05", [(E, '''    # process references line-by-line:
    for ref_line in ref_sect:
        clean_line = wash_and_repair_reference_line(ref_line)
''', '''    # process references line-by-line:
    seen = {}
    for ref_line in ref_sect:
        clean_line = wash_and_repair_reference_line(ref_line)
        if clean_line in seen:
            # already processed, no need to do it again
            citations.append(seen[clean_line])
            counts = sum_2_dictionaries(counts, seen_counts[clean_line])
            continue
'''), (E, '''    bad_titles_count = {}

    # Cleanup the reference lines
''', '''    bad_titles_count = {}
    seen_counts = {}

    # Cleanup the reference lines
'''), (E, '''        citations.append(
            {
                "elements": citation_elements,
                "line_marker": line_marker,
                "raw_ref": ref_line,
            }
        )
''', '''        citations.append(
            {
                "elements": citation_elements,
                "line_marker": line_marker,
                "raw_ref": ref_line,
            }
        )
        seen[clean_line] = citations[-1]
        seen_counts[clean_line] = this_counts
''')], "two lines of a section that differ only in what washing repairs", "the second reference carries the raw text of the first line", '''
from refextract.references.engine import parse_references
a, b = "[1] J. Smith, Phys. Rev. D 12 (1999) 34", "[1]  J. Smith,  Phys. Rev. D 12 (1999) 34"
r, _ = parse_references([a, b])
assert [x["raw_ref"] for x in r] == [[a], [b]], r
''')
seed("c05-marker-inner-strip", "C05", [(R, '''    return line_marker.strip("[](){}. ")
''', '''    for char in "[](){}. ":
        line_marker = line_marker.replace(char, "")
    return line_marker
''')], "a marker with a dot or bracket inside, such as 1.2", "the marker reported is not the marker of the line", '''
from refextract.references.record import build_references
r = build_references([{"elements": [[{"type": "MISC", "misc_txt": "x"}]], "line_marker": "[1.2]", "raw_ref": "[1.2] x"}], "{title}")
assert r[0]["linemarker"] == ["1.2"], r
''')
seed("c06-misc-once", "C06", [(R, '''            misc_txt = misc_txt.lstrip("])} ,.").rstrip("[({ ,.")
            add_subfield(current_field, "misc", misc_txt)
''', '''            misc_txt = misc_txt.lstrip("])} ,.").rstrip("[({ ,.")
            if misc_txt not in current_field.get("misc", ()):
                add_subfield(current_field, "misc", misc_txt)
''')], "the same leftover text twice in a citation", "the second leftover text is not reported", '''
from refextract.references.record import build_references
r = build_references([{"elements": [[{"type": "DOI", "doi_string": "1", "misc_txt": "see"}, {"type": "MISC", "misc_txt": "see"}]], "line_marker": "[1]", "raw_ref": "x"}], "{title}")
assert r[0]["misc"] == ["see", "see"], r
''')
seed("c17-repeat-not-counted", "C17", [(E, '''        counts = sum_2_dictionaries(counts, this_counts)

''', '''        if not citations or citations[-1]["raw_ref"] != ref_line:
            counts = sum_2_dictionaries(counts, this_counts)

''')], "two identical adjacent lines", "the second line is not counted", '''
from refextract.references.engine import parse_references_elements, get_kbs
kbs = get_kbs()
a = "[1] J. Smith, Phys. Rev. D 12 (1999) 34"
c1 = parse_references_elements([a], kbs)[1]
c2 = parse_references_elements([a, a], kbs)[1]
assert c2 == {k: 2 * v for k, v in c1.items()}, (c1, c2)
''')
seed("c20-skip-linked", "C20", [(E, '''    for el in citation_elements:
        try:
            el["recid"] = linker_callback(el)
''', '''    for el in citation_elements:
        if el.get("recid"):
            # linked in an earlier pass
            continue
        try:
            el["recid"] = linker_callback(el)
''')], "a callback whose answer for an element changes between the passes", "the last pass does not cover every element, a stale id is reported", '''
from refextract.references.engine import associate_recids
n = []
els = [{"type": "MISC", "misc_txt": "a"}, {"type": "MISC", "misc_txt": "b"}]
f = lambda el: (n.append(1), len(n))[1]
associate_recids(els, f); associate_recids(els, f)
assert [e["recid"] for e in els] == [3, 4], els
''')
seed("c20-empty-recid", "C20", [(E, '''            if el.get("recid", None):
''', '''            if el.get("recid", None) is not None:
''')], "a callback that answers with an empty value other than None", "an empty record id hides the first real one", '''
from refextract.references.engine import add_recid_elements
c = [[{"type": "MISC", "misc_txt": "a", "recid": ""}, {"type": "MISC", "misc_txt": "b", "recid": 7}]]
add_recid_elements(c)
assert c[0][-1].get("recid") == 7 and c[0][-1]["type"] == "RECID", c
''')
