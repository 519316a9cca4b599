"""How a line is split into citations and what the removal of repetitions may change (C07)."""

REPEATABLE = ("REPORTNUMBER", "COLLABORATION")


def kind(el):
    return "ARXIV" if el.get("is_arxiv") else el["type"]


def split_needed(next_el, current_types, last_type):
    k = kind(next_el)
    if ";" in next_el["misc_txt"]:
        return "semicolon"
    if k not in REPEATABLE and (k in current_types or k == last_type):
        return "repeated field"
    return None


def split(elements):
    """first the plain pieces, each with the reason for the split behind it; then the authors are carried over"""
    pieces, reasons, cur, seen = [], [], [], []
    for el in elements:
        why = split_needed(el, seen, None)
        if why:
            if why == "semicolon":
                i = el["misc_txt"].index(";")
                cur.append({"type": "MISC", "misc_txt": el["misc_txt"][:i]})
                el["misc_txt"] = el["misc_txt"][i + 1:]
            pieces.append(cur)
            reasons.append(why)
            cur, seen = [], []
        cur.append(el)
        if el["type"] not in ("MISC", "AUTH"):
            seen.append(kind(el))
    pieces.append(cur)
    # an author group goes to the front of the next citation if that one has none, or if the one
    # before ended at a repeated field; it stays as well when it is the only one
    for i in range(1, len(pieces)):
        prev, cur = pieces[i - 1], pieces[i]
        auths = [el for el in prev if el["type"] == "AUTH"]
        own = [el for el in cur if el["type"] == "AUTH"]
        if auths and (not own or reasons[i - 1] == "repeated field"):
            if len(auths) > 1:
                last = max(j for j in range(len(prev)) if prev[j]["type"] == "AUTH")
                del prev[last]
            cur.insert(0, auths[-1])
    return pieces


def remove_duplicated_authors(splitted_citations):
    for citation in splitted_citations:
        found = False
        for el in citation:
            if el["type"] == "AUTH":
                if found:
                    el["type"] = "MISC"
                    el["misc_txt"] = el["misc_txt"] + " " + el["auth_txt"]
                found = True
    return splitted_citations


def remove_duplicated_dois(splitted_citations):
    """of several DOIs the first stays (of equal elements it does not matter which one goes)"""
    for citation in splitted_citations:
        found = False
        for el in list(citation):
            if el["type"] == "DOI":
                if found:
                    citation.remove(el)
                found = True
    return splitted_citations


def remove_duplicated_collaborations(splitted_citations):
    for citation in splitted_citations:
        names = []
        for el in list(citation):
            if el["type"] == "COLLABORATION":
                if el["collaboration"] in names:
                    citation.remove(el)
                else:
                    names.append(el["collaboration"])
    return splitted_citations


def postpone_last_auth(current_citation, num_auth):
    """the last author group; taken out when it is not the only one"""
    if num_auth == 0:
        return None
    n = len(current_citation)
    for back in range(1, n + 1):
        el = current_citation[n - back]
        if el["type"] == "AUTH":
            if num_auth == 1:
                return el
            return current_citation.pop(n - back)
    return None
