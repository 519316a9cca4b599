import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
F = "refextract/references/find.py"
X = "refextract/references/text.py"
seed("c14-line-after-title", "C14", [(F, '''            y = x + 1
            line_found = False
''', '''            y = x + 2
            line_found = False
''')],
 "a line that looks like a section title inside a reference whose successor is the very next line and the last one", "the section ends there and the last reference is lost", '''
from refextract.references.text import extract_references_from_fulltext as f
doc = ["text", "References", "[1] A. Author, a report,", "Figure 3 of it", "[2] B. Other, last"]
got = f(list(doc))[0]
assert got == ["[1] A. Author, a report, Figure 3 of it", "[2] B. Other, last"], got
''')
seed("c14-largest-number", "C14", [(F, '''                current_reference_count = int(num_match.group("marknum"))
''', '''                current_reference_count = max(
                    current_reference_count, int(num_match.group("marknum"))
                )
''')],
 "a line of a reference that starts with a large number in brackets, and later a line like a section title inside a reference", "the references behind it are lost", '''
from refextract.references.find import find_end_of_reference_section as f
p = r"\\s*(?P<mark>\\[\\s*(?P<marknum>\\d+)\\s*\\])"
doc = ["[1] A. Author, Nucl. Phys.", "[1998] 12", "[2] B", "Table 2 in", "[3] C", "[4] D"]
assert f(doc, 0, "[1]", p) == 5, f(doc, 0, "[1]", p)
''')
seed("c14-single-line-section", "C14", [(X, '''    if ref_sect_end_line is not None:
        ref_lines''', '''    if ref_sect_end_line:
        ref_lines''')],
 "a section that ends in the first line of the document", "everything behind it is taken for references", '''
from refextract.references.text import extract_references_from_fulltext as f
doc = ["[1] A. Author, Phys. Rev. D 12 (1999) 345", "Appendix A", "some text", "more"]
got = f(list(doc))[0]
assert got == ["[1] A. Author, Phys. Rev. D 12 (1999) 345"], got
''')
seed("c14-earlier-unnumbered", "C14", [(F, '''                        and "marker" in ref_details
                        and ref_details["marker"]
                        and not temp_ref_details["marker"]
                    ):
                        continue
''', '''                        and "marker" in ref_details
                        and ref_details["title_marker_same_line"]
                        and not temp_ref_details["marker"]
                    ):
                        continue
''')],
 "two titles of the same kind, the earlier one (a table of contents) not followed by numbers", "the section starts at the earlier title", '''
from refextract.references.find import get_reference_section_beginning as f
doc = ["Contents", "Introduction", "References", "Text of", "the paper", "goes on", "and on", "and on", "References", "[1] A", "[2] B"]
assert f(doc)["start_line"] == 8, f(doc)
''')
