import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
T = "refextract/references/engine.py"
seed("c09-mark-closed-last", "C09", [(T, '''    idx_closing_tag = line.find(closing_tag)
    # Sanity''', '''    find = line.rfind if dest == "ISBN" else line.find
    idx_closing_tag = find(closing_tag)
    # Sanity''')], "two ISBNs in one line", "everything between them becomes the content of the first, the second and the marks in between disappear", '''
from refextract.references.engine import parse_tagged_reference_line as f
els, _, _ = f("[1]", 'A, <cds.ISBN>One</cds.ISBN>, <cds.ARXIV>hep-th/9901001</cds.ARXIV>, <cds.ISBN>Two</cds.ISBN>', [], [])
assert [e.get("ISBN") or e.get("report_num") for e in els] == ["One", "hep-th/9901001", "Two"], els
''')
seed("c09-unusable-early-close", "C09", [(T, '''    # extract the tagged information:
    idx_closing_tag = line.find(closing_tag, tag_match_end)
''', '''    # extract the tagged information:
    idx_closing_tag = line.find(closing_tag)
''')], "the end of such a mark left in the line before the mark itself", "text is repeated and reading never gets past the mark, or marks remain in the text", '''
from refextract.references.engine import convert_unusable_tag_to_misc as f
line = "a </cds.YR> b <cds.YR>(1999)</cds.YR> c"
assert f(line, "a </cds.YR> b ", line.index("(1999)"), "</cds.YR>") == ("a </cds.YR> b (1999)", " c"), f(line, "", 19, "</cds.YR>")
''')
seed("c09-text-before-second-author", "C09", [(T, '''                # Increment the stats counters:
                count_auth_group += 1
                cur_misc_txt = ""
''', '''                # Increment the stats counters:
                count_auth_group += 1
                if not (auth_type == "incl" and count_auth_group > 1):
                    cur_misc_txt = ""
''')], "a line whose second group of authors is an included one, with text before it", "the text between two groups of authors is repeated in the next element", '''
from refextract.references.engine import parse_tagged_reference_line as f
els, _, _ = f("[1]", "<cds.AUTHstnd>A. Bcd</cds.AUTHstnd> one <cds.AUTHincl>E. Fgh</cds.AUTHincl> two <cds.ARXIV>hep-th/9901001</cds.ARXIV>", [], [])
assert [e["misc_txt"] for e in els] == ["", " one ", " two "], els
''')
seed("c09-url-taken-late", "C09", [(T, '''                identified_urls[0:1] = []

                # Save the current misc text
''', '''                if url_string:
                    identified_urls[:] = [u for u in identified_urls if u[0] != url_string]

                # Save the current misc text
''')], "the same URL twice in one line", "the second placeholder takes the next URL or none at all", '''
from refextract.references.engine import parse_tagged_reference_line as f
els, _, _ = f("[1]", "a <cds.URL /> b <cds.URL /> c <cds.URL />", [], [("http://x.org", "x"), ("http://x.org", "again"), ("http://y.org", "y")])
assert [e["url_desc"] for e in els] == ["x", "again", "y"], els
''')
