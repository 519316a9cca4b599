"""Marks in a reference line: recognised DOIs and URLs, and what a marked-up line says."""


def lemmas():
    """place of the lemmas about texts"""
    return None


from refextract.references.regexs import re_numeration_no_ibid_txt, re_recognised_numeration_title_plus_series, re_tagged_citation

CONTENT = {"QUOTED": "title", "ISBN": "ISBN", "PUBLISHER": "publisher", "COLLABORATION": "collaboration"}


def volume(m):
    if m.group("series"):
        return m.group("series") + m.group("vol")
    return m.group("vol")


def subfield(tag_type, line, cur_misc_txt, dest):
    """what the mark encloses becomes an element with the text before it; without end of the mark the text stays"""
    close = "</cds." + tag_type + ">"
    at = line.find(close)
    if at == -1:
        return None, line, cur_misc_txt
    return {"type": tag_type, "misc_txt": cur_misc_txt, dest: line[:at]}, line[at + len(close):], ""


def unusable(line, misc_text, tag_match_end, closing_tag):
    """what the mark encloses is text"""
    at = line.find(closing_tag, tag_match_end)
    if at == -1:
        return misc_text, line[tag_match_end:]
    return misc_text + line[tag_match_end:at], line[at + len(closing_tag):]


def interpret(line_marker, line, identified_dois, identified_urls):
    rest, text, found = line, "", []
    misc = title = reports = urls = dois = authors = 0
    for _ in range(len(line) + 1):
        m = re_tagged_citation.search(rest)
        if m is None:
            break
        end = m.end()
        kind = m.group(1)
        text += rest[0:m.start()]
        element = None
        if kind in ("JOURNAL", "JOURNALibid"):
            close = "</cds.JOURNAL>"
            if m.group("ibid"):
                close = "</cds.JOURNALibid>"
            at = rest.find(close, end)
            if at == -1:
                rest = rest[end:]
            else:
                name = rest[end:at]
                rest = rest[at + len(close):]
                n = re_recognised_numeration_title_plus_series.search(rest)
                if n:
                    title += 1
                    element = {"type": "JOURNAL", "misc_txt": text, "title": name, "volume": volume(n), "year": n.group("yr") or "", "page": n.group("pg"), "is_ibid": bool(m.group("ibid")), "extra_ibids": []}
                    text = ""
                    rest = rest[n.end():]
                    for _ in range(len(rest) + 1):
                        n = re_numeration_no_ibid_txt.match(rest)
                        if n is None:
                            break
                        element["extra_ibids"].append({"type": "JOURNAL", "misc_txt": "", "title": name, "volume": volume(n), "year": n.group("yr"), "page": n.group("pg")})
                        rest = rest[n.end():]
                        title += 1
                        name = ""
                else:
                    text += name
        elif kind in ("REPORTNUMBER", "ARXIV", "AUTHstnd", "AUTHetal", "AUTHincl"):
            close = "</cds." + kind + ">"
            at = rest.find(close, end)
            if at == -1:
                rest = rest[end:]
            else:
                if kind == "REPORTNUMBER":
                    element = {"type": "REPORTNUMBER", "misc_txt": text, "report_num": rest[end:at]}
                    reports += 1
                elif kind == "ARXIV":
                    element = {"type": "REPORTNUMBER", "misc_txt": text, "report_num": rest[end:at], "is_arxiv": True}
                    reports += 1
                else:
                    element = {"type": "AUTH", "misc_txt": text, "auth_txt": rest[end:at], "auth_type": kind[4:]}
                    authors += 1
                text = ""
                rest = rest[at + len(close):]
        elif kind == "URL":
            rest = rest[end:]
            if identified_urls:
                url = identified_urls.pop(0)
                element = {"type": "URL", "misc_txt": text, "url_string": url[0], "url_desc": url[1]}
                urls += 1
                text = ""
        elif kind == "DOI":
            rest = rest[end:]
            if identified_dois:
                element = {"type": "DOI", "misc_txt": text, "doi_string": identified_dois.pop(0)}
                dois += 1
                text = ""
        elif kind in ("SER", "VOL", "YR", "PG"):
            text, rest = unusable(rest, text, end, "</cds." + kind + ">")
        else:
            element, rest, text = subfield(kind, rest[end:], text, CONTENT[kind])
        if element:
            found.append(element)
    text += rest
    if len(text.strip(" .;,")) > 0:
        misc = 1
        found.append({"type": "MISC", "misc_txt": text})
    return found, line_marker, {"misc": misc, "title": title, "reportnum": reports, "url": urls, "doi": dois, "auth_group": authors}
