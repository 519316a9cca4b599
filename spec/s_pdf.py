"""References and URLs of a PDF: positions are (page, column, height counted downwards, x)."""


def one_column(urls_to_match, reference, next_reference, two_column_layout):
    """everything stands in one column; urls in reading order"""
    return not two_column_layout and (next_reference is None or (next_reference[1][1] == reference[1][1] and before(reference[1], next_reference[1])))


def before(a, b):
    return a[0] < b[0] or (a[0] == b[0] and a[2] <= b[2])


def takes(ref, following, url):
    """the URL stands in this reference"""
    if url[0] == ref[0]:
        return ref[2] <= url[2] and (following is None or following[0] > ref[0] or url[2] <= following[2])
    # continued on the next page
    return url[0] == ref[0] + 1 and ref[2] <= url[2] and (following is None or (following[0] > ref[0] and url[2] <= following[2]))


def beyond(ref, following, url):
    """the URL can only belong to a later reference"""
    return before(ref, url) and (url[0] > following[0] or url[2] >= following[2])


def attribute(urls_to_match, reference, next_reference, two_column_layout):
    taken = set()
    for i, url in enumerate(urls_to_match):
        if takes(reference[1], next_reference and next_reference[1], url[1]):
            taken.add(url[0])
        elif next_reference and beyond(reference[1], next_reference[1], url[1]):
            return taken, urls_to_match[i:]
    return taken, urls_to_match if next_reference else []


def in_order(ref, following, url, later):
    return before(ref, following) and before(url, later)


def only_its_own(ref, following, url, later):
    """a URL that is taken stands between the reference and the next one"""
    return not takes(ref, following, url) or (before(ref, url) and before(url, following))


def all_on_the_page(ref, following, url, later):
    """a URL on the reference's page that stands between them is taken"""
    return not (url[0] == ref[0] and before(ref, url) and before(url, following)) or takes(ref, following, url)


def ends_in_time(ref, following, url, later):
    """nothing after the URL that ends the search is the reference's"""
    return takes(ref, following, url) or not beyond(ref, following, url) or not takes(ref, following, later) or later[2] == following[2]


def keeps_the_rest(ref, following, url, later):
    """a URL that is passed over is not one of a later reference"""
    return takes(ref, following, url) or beyond(ref, following, url) or not before(ref, url) or before(url, following)


from pypdf import PdfReader
from refextract.references.pdf import _destination_position, _destinations_in_two_columns, _match_urls_with_reference, _uri_position, extract_urls
from refextract.references.regexs import re_reference_in_dest


def report(pdf_file):
    """one entry per reference, in reading order; nothing if the document cannot be read"""
    with open(pdf_file, "rb") as stream:
        try:
            pdf = PdfReader(stream, strict=False)
            names = pdf.named_destinations
            links = extract_urls(pdf)
        except Exception:
            return []
        references = []
        for name, destination in names.items():
            if re_reference_in_dest.match(name):
                references.append((name, destination))
        try:
            two = _destinations_in_two_columns(pdf, references)
            placed = [(name, _destination_position(pdf, destination)) for name, destination in references]
            urls = [(link["/A"]["/URI"], _uri_position(pdf, link)) for link in links]
            if two:
                placed.sort(key=lambda r: r[1])
                urls.sort(key=lambda r: r[1])
            else:
                placed.sort(key=lambda r: (r[1][0], r[1][2], r[1][3]))
                urls.sort(key=lambda r: (r[1][0], r[1][2], r[1][3]))
            entries = []
            for i in range(len(placed)):
                following = None
                if i + 1 < len(placed):
                    following = placed[i + 1]
                taken, urls = _match_urls_with_reference(urls, placed[i], following, two)
                entry = {"texkey": re_reference_in_dest.match(placed[i][0]).group(1)}
                if taken:
                    entry["urls"] = taken
                entries.append(entry)
            return entries
        except Exception:
            return []
