"""Cleaning a document of page breaks, headers and footers."""
import re
from refextract.documents import text as _t

PAGE_BREAK = re.compile(r"^\s*\f\s*$", re.UNICODE)


def contains_text(docbody):
    for line in docbody:
        if not line.isspace():
            return 1
    return 0


def page_breaks(docbody):
    """the places of the lines that hold nothing but a page-break mark"""
    out = []
    for i in range(len(docbody)):
        if PAGE_BREAK.match(docbody[i]):
            out.append(i)
    return out


def clean(docbody):
    """a document without text stays as it is; everything is measured in the document itself"""
    if not _t.document_contains_text(docbody):
        return docbody
    breaks = _t.get_page_break_positions(docbody)
    head = _t.get_number_header_lines(docbody, breaks)
    foot = _t.get_number_footer_lines(docbody, breaks)
    return _t.strip_headers_footers_pagebreaks(docbody, breaks, head, foot)
