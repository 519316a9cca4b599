"""What each normalisation rule may change, element by element (C18)."""
import re

from refextract.references.regexs import re_hdl

VALUE = {"I": 1, "V": 5, "X": 10}
ARXIV = "http://arxiv.org/abs/"


def roman2arabic(num):
    """a numeral in front of a larger one (at least five times as large, as in IV, IX) is subtracted"""
    total = 0
    before = 0
    for c in num:
        v = VALUE[c]
        total += v
        if 2 * before < v:
            total -= 2 * before
        before = v
    return total


def format_volume(citation_elements):
    for el in citation_elements:
        if el["type"] == "JOURNAL" and re.compile("[XxVvIi]+$", re.UNICODE).match(el["volume"]):
            el["volume"] = str(roman2arabic(el["volume"].upper()))


def special(el):
    volume, page, year = el["volume"], el["page"], el["year"]
    if re.match(r"\d{1,2}$", volume):
        if year == "" and re.match(r"(19|20)\d{2}$", page):
            el["type"] = "MISC"
            el["misc_txt"] = el["title"] + "," + volume + "," + page
        el["volume"] = year[-2:] + "%02d" % int(volume)
    if page.isdecimal():
        el["page"] = "%03d" % int(page)


def handle_special_journals(citation_elements, kbs):
    for el in citation_elements:
        if el["type"] == "JOURNAL" and el["title"] in kbs["special_journals"]:
            special(el)


def format_report_number(citation_elements):
    for el in citation_elements:
        if el["type"] == "REPORTNUMBER":
            m = re.match(r"^(?P<name>[A-Z-]+)(?P<nums>[\d-]+)$", el["report_num"])
            if m and not m.group("name").endswith("-"):
                el["report_num"] = m.group("name") + "-" + m.group("nums")


def hep(number):
    for p in ("astro-ph-", "hep-th-", "hep-ph-", "hep-ex-", "hep-lat-", "math-ph-"):
        if number.startswith(p):
            return number[:len(p) - 1] + "/" + number[len(p):]
    return number


def format_hep(citation_elements):
    for el in citation_elements:
        if el["type"] == "REPORTNUMBER":
            el["report_num"] = hep(el["report_num"])


def format_author_ed(citation_elements):
    for el in citation_elements:
        if el["type"] == "AUTH":
            el["auth_txt"] = el["auth_txt"].replace("(ed. )", "(ed.)").replace("(eds. )", "(eds.)")


def split_volume_from_journal(citation_elements):
    for el in citation_elements:
        if el["type"] == "JOURNAL" and ";" in el["title"]:
            i = el["title"].rfind(";")
            series = el["title"][i + 1:]
            el["title"] = el["title"][:i]
            el["volume"] = series + el["volume"]


def remove_b_for_nucl_phys(citation_elements):
    for el in citation_elements:
        if el["type"] == "JOURNAL" and el["title"] == "Nucl.Phys.Proc.Suppl." and "volume" in el:
            if el["volume"][:1] in ("b", "B"):
                el["volume"] = el["volume"][1:]


def mangle_volume(citation_elements):
    for el in citation_elements:
        if el["type"] == "JOURNAL":
            m = re.compile(r"(\d+)([A-Z])$", re.U | re.I).match(el["volume"])
            if m:
                el["volume"] = m.group(2) + m.group(1)


def arxiv_urls_to_report_numbers(citation_elements):
    for el in citation_elements:
        if el["type"] == "URL" and el["url_string"].startswith(ARXIV):
            el["type"] = "REPORTNUMBER"
            el["report_num"] = el["url_string"].replace(ARXIV, "arXiv:")


def look_for_hdl_urls(citation_elements):
    for el in citation_elements:
        if el["type"] == "URL":
            m = re_hdl.match(el["url_string"])
            if m:
                el["type"] = "HDL"
                el["hdl_id"] = m.group("hdl_id")
                del el["url_desc"]
                del el["url_string"]


def find_quoted(citation_elements):
    for i, el in enumerate(citation_elements):
        if el["type"] == "QUOTED":
            return i
    return -1


def look_for_books(citation_elements, kbs):
    i = find_quoted(citation_elements)
    if i >= 0:
        title = citation_elements[i]["title"].upper()
        if title in kbs["books"]:
            line = kbs["books"][title]
            citation_elements.append({"type": "BOOK", "misc_txt": "", "authors": line[0], "title": line[1], "year": line[2].strip(";")})
            citation_elements.remove(citation_elements[i])
