import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
T = "refextract/documents/text.py"
seed("c13-last-page-only", "C13", [(T, '''    page_lens.sort()
    if (len(page_lens) > 0) and (num_head_lines + num_foot_lines + 1 < page_lens[0]):
''', '''    page_lens.sort()
    if (len(page_lens) > 0) and (num_head_lines + num_foot_lines < page_lens[0]):
''')],
 "a page whose length is exactly header, footer and page break: nothing between", "a document that was left alone because a page consists of header and footer only loses those lines", '''
from refextract.documents.text import strip_headers_footers_pagebreaks as f
doc = ["a", "\\f", "h", "f", "\\f", "h", "x", "f", "\\f", "z"]
assert f(list(doc), [1, 4, 8], 1, 1) == doc
''')
seed("c13-median-page", "C13", [(T, '''    page_lens.sort()
    if (len(page_lens) > 0) and (num_head_lines + num_foot_lines + 1 < page_lens[0]):
''', '''    page_lens.sort()
    if (len(page_lens) > 0) and (
        num_head_lines + num_foot_lines + 1 < page_lens[len(page_lens) // 4]
    ):
''')],
 "a document of five or more breaks with one page shorter than header and footer together", "lines of the text around the short page are removed", '''
from refextract.documents.text import remove_page_boundary_lines as f
head = lambda n: ["Journal of Things %d" % n, "Section on Stuff"]
doc = ["t1", "t2", "t3"]
for n in range(2, 8):
    doc += ["\\f"] + (head(n) + ["text %s of it %s" % ("abcdefgh"[n], "zyxwvuts"[n] * n), "more %s" % ("klmnopqr"[n] * 3), "z" * n] if n != 4 else ["Journal of Things 4"])
got = f(list(doc))
lost = [x for x in doc if x not in got and not x.isspace() and not x.startswith(("Journal", "Section"))]
assert not lost and got == doc, (lost, got)
''')
seed("c13-footer-of-first-page", "C13", [(T, '''    num_breaks = len(page_break_posns)
    num_footer_lines = 0
    empty_line = 0
    keep_checking = 1
''', '''    num_breaks = len(page_break_posns) - 1
    num_footer_lines = 0
    empty_line = 0
    keep_checking = 1
''')],
 "the last page of four or more has another footer than the others", "its last lines are taken for a footer and removed", '''
from refextract.documents.text import remove_page_boundary_lines as f
doc = ["intro", "words here", "Page 1", "\\f", "body", "other stuff too", "Page 2", "\\f", "third", "one more line of it", "Page 3", "\\f", "last", "this is the end", "Conclusion: all is well", "\\f", "colophon"]
got = f(list(doc))
assert "Conclusion: all is well" in got, got
''')
seed("c13-stale-blank", "C13", [(T, '''            if keep_checking:
                # Line is a header line: check next
                num_header_lines = num_header_lines + 1
            empty_line = 0
''', '''            if keep_checking:
                # Line is a header line: check next
                num_header_lines = num_header_lines + 1
''')],
 "pages starting with a blank line followed by text on one page and lines without words on the pages compared with it", "the text behind the blank line is taken for a header and removed", '''
from refextract.documents.text import remove_page_boundary_lines as f
doc = ["intro"]
for n, first in enumerate(["A theorem holds", "A theorem holds", "* * *", "* * *", "= = ="]):
    doc += ["\\f", " ", first] + ["%s%d%s" % ("abcde"[n] * 3, n, "vwxyz"[n]) + " w" * n, "end %s" % ("pqrst"[n])+ " w" * n, "rest"+ " x" * n]
got = f(list(doc))
assert "A theorem holds" in got, got
''')
