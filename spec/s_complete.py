"""Years, implied journals and books that leftover text gives away (C21)."""
from refextract.references.regexs import re_year_in_misc_txt, remove_year
from refextract.references.tag import extract_series_from_volume, find_numeration


def add_year_elements(splitted_citations):
    for citation in splitted_citations:
        year = None
        for el in citation:
            if el["type"] == "JOURNAL" or (el["type"] == "BOOK" and "year" in el):
                year = el["year"]
                break
        if not year:
            for el in citation:
                m = re_year_in_misc_txt.search(el["misc_txt"])
                if m:
                    year = m.group(0)
        if year:
            citation.append({"type": "YEAR", "year": year, "misc_txt": ""})
            for el in citation:
                if year in el["misc_txt"]:
                    el["misc_txt"] = remove_year(el["misc_txt"], year)
    return splitted_citations


def implied(journal, n):
    series = n["series"] or extract_series_from_volume(journal["volume"])
    return {
        "type": "JOURNAL",
        "misc_txt": "",
        "title": journal["title"],
        "volume": series + n["volume"] if series else n["volume"],
        "year": n["year"],
        "page": n["page"],
        "page_end": n["page_end"],
        "is_ibid": True,
        "extra_ibids": [],
    }


def look_for_implied_ibids(splitted_citations):
    before = None
    for citation in splitted_citations:
        has = False
        for el in citation:
            if el["type"] == "JOURNAL":
                has = True
        if before and not has:
            for el in citation:
                if el["type"] == "MISC":
                    n = find_numeration(el["misc_txt"])
                    if n:
                        citation.append(implied(before, n))
                        el["misc_txt"] = el["misc_txt"][n["len"]:]
        before = None
        for el in citation:
            if el["type"] == "JOURNAL":
                before = el
    return splitted_citations


def year_from_citation(citation):
    for el in citation:
        if el["type"] == "YEAR":
            return el["year"]
    return None


KNOWN = ("BOOK", "JOURNAL", "DOI", "ISBN", "RECID")


def is_unknown_citation(citation):
    for el in citation:
        if el["type"] in KNOWN:
            return False
    return True


def search_for_book_in_misc(citation, kbs):
    """the first book (in the order of the texts, then of the knowledge base) of the citation's year whose title a text has"""
    from refextract.references.engine import cut_substring_with_special_chars, find_substring_ignore_special_chars
    year = None
    for el in citation:
        if el["type"] == "YEAR":
            year = el["year"]
            break
    for el in citation:
        for title in kbs["books"]:
            at = find_substring_ignore_special_chars(el["misc_txt"], title)
            if at != -1:
                authors, full, date = kbs["books"][title.upper()]
                if year == date.strip(";"):
                    citation.append({"type": "BOOK", "misc_txt": "", "authors": authors, "title": full, "year": date.strip(";")})
                    el["misc_txt"] = remove_year(cut_substring_with_special_chars(el["misc_txt"], title, at), date.strip(";"))
                    return True
    return False
