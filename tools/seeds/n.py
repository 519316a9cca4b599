import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
T = "refextract/references/pdf.py"
MATCH = '''
from refextract.references.pdf import _match_urls_with_reference as m
def attribute(refs, urls):
    out = []
    for i, r in enumerate(refs):
        taken, urls = m(urls, r, refs[i + 1]) if i + 1 < len(refs) else m(urls, r)
        out.append(sorted(taken))
    return out
'''
FAKE = '''
import os, tempfile
from unittest import mock
from refextract.references import pdf as P
class Dest:
    def __init__(self, page, left, top): self.page, self.left, self.top = page, left, top
class Page:
    class cropbox: lower_right = (600, 0)
    def __init__(self, links): self.links = links
    def get_object(self): return {"/Annots": self.links}
class Link(dict):
    def get_object(self): return self
def link(url, x, y): return Link({"/A": {"/URI": url}, "/Rect": [x, y - 10, x + 50, y]})
class Reader:
    def __init__(self, names, pages): self.named_destinations, self.pages = names, [Page(l) for l in pages]
    def get_destination_page_number(self, d): return d.page
    def get_page(self, n): return self.pages[n]
def run(names, pages):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.pdf"); open(p, "wb").close()
        with mock.patch.object(P, "PdfReader", lambda *a, **k: Reader(names, pages)):
            return P.extract_texkeys_and_urls_from_pdf(p)
'''
seed("c19-small-print", "C19", [(T, '''                    return (page, ypos, xpos)
''', '''                    return (page, ypos // 12, xpos)
''')], "a single-column document in small print whose references are not all indented alike", "references nine points apart are reported in the order of their indentation", FAKE + '''
got = run({"cite.A": Dest(0, 70, 706), "cite.B": Dest(0, 50, 697), "cite.C": Dest(0, 70, 500)}, [[]])
assert [e["texkey"] for e in got] == ["A", "B", "C"], got
''')
seed("c19-rest-after-search", "C19", [(T, '''            urls_to_match = urls_to_match[url_index:]
            break
    if not next_reference:''', '''            urls_to_match = urls_to_match[max(url_index, len(urls_for_reference)) :]
            break
        else:
            urls_for_reference.discard(url[0])
    if not next_reference:''')], "a URL at the top of the next page that also occurs in the last reference of a page", "the reference loses its own URL", MATCH + '''
got = attribute([("a", (0, 0, -300, 50)), ("b", (1, 0, -500, 50))], [("http://x.org", (0, 0, -290, 60)), ("http://x.org", (1, 0, -700, 60))])
assert got == [["http://x.org"], []], got
''')
seed("c19-page-between", "C19", [(T, '''            and (next_ref_page_number > url_page_number)
''', '''            and (next_ref_page_number == url_page_number + 1)
''')], "a page without references between two references, and a URL below the height of the second", "the last reference before that page loses its URLs", MATCH + '''
got = attribute([("a", (0, 0, -300, 50)), ("b", (2, 0, -700, 50))], [("u", (0, 0, -290, 60)), ("v", (2, 0, -650, 60))])
assert got == [["u"], ["v"]], got
''')
