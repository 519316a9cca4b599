"""C20: linking."""


def associate_recids(citation_elements, linker_callback):
    for el in citation_elements:
        found = None
        try:
            found = linker_callback(el)
        except (IndexError, KeyError):
            found = None
        el["recid"] = found
    return citation_elements


def first_recid(citation):
    for el in citation:
        if el.get("recid"):
            return el["recid"]
    return None


def add_recid_elements(splitted_citations):
    for citation in splitted_citations:
        recid = first_recid(citation)
        if recid:
            citation.append({"type": "RECID", "recid": recid, "misc_txt": ""})
