"""C05, C17: lines -> citations -> references."""
from refextract.references.engine import build_references, parse_reference_line, build_stats, get_kbs
from refextract.references.record import build_reference_fields
from refextract.references.text import wash_and_repair_reference_line, extract_references_from_fulltext, rebuild_reference_lines
from refextract.references.find import find_numeration_in_body, get_reference_section_beginning
from refextract.references.regexs import get_reference_line_numeration_marker_patterns
from refextract.references.engine import parse_references_elements as real_elements
from refextract.references.engine import parse_references as real_parse

NAMES = ["misc", "title", "reportnum", "url", "doi", "auth_group"]


def add_counts(total, counts):
    """the sum of two sets of counts: every key of both"""
    out = dict(total)
    for key in counts:
        if key in out:
            out[key] = out[key] + counts[key]
        else:
            out[key] = counts[key]
    return out


def parse_references_elements(ref_sect, kbs, linker_callback=None):
    citations = []
    total = {"misc": 0, "title": 0, "reportnum": 0, "url": 0, "doi": 0, "auth_group": 0}
    bad = {}
    for line in ref_sect:
        found = parse_reference_line(wash_and_repair_reference_line(line), kbs, bad, linker_callback)
        citations.append({"raw_ref": line, "line_marker": found[1], "elements": found[0]})
        total = add_counts(total, found[2])
        bad = found[3]
    return citations, total, bad


def build_all(citations, reference_format=False):
    out = []
    for c in citations:
        for elements in c["elements"]:
            for r in build_reference_fields(elements, c["line_marker"], c["raw_ref"], reference_format):
                out.append(r)
    return out


def parse_references(reference_lines, recid=None, override_kbs_files=None, reference_format="{title} {volume} ({year}) {page}", linker_callback=None):
    found = real_elements(reference_lines, get_kbs(custom_kbs=override_kbs_files), linker_callback)
    refs = build_references(found[0], reference_format)
    return refs, build_stats(found[1])


def format_marker(line_marker):
    return line_marker.strip("[](){}. ")


def remove_reference_line_marker(line):
    rest = line.lstrip()
    for p in get_reference_line_numeration_marker_patterns():
        m = p.match(rest)
        if m:
            return m.group("mark"), rest[m.end():].lstrip()
    return " ", rest


def extract_references_from_string(source, is_only_references=True, recid=None, reference_format="{title} {volume} ({year}) {page}", linker_callback=None, override_kbs_files=None):
    body = source.split("\n")
    if is_only_references:
        info = get_reference_section_beginning(body)
        if not info:
            info = find_numeration_in_body(body)[0]
        lines = rebuild_reference_lines(body, info["marker_pattern"])
    else:
        lines = extract_references_from_fulltext(body)[0]
    return real_parse(lines, recid=recid, reference_format=reference_format, linker_callback=linker_callback, override_kbs_files=override_kbs_files)[0]


def extract_journal_reference(line, override_kbs_files=None):
    for elements in parse_reference_line(line, get_kbs(custom_kbs=override_kbs_files))[0]:
        for el in elements:
            if el["type"] == "JOURNAL":
                return el
    return None


def sum_2_dictionaries(dicta, dictb):
    return add_counts(dicta, dictb)


def now_text():
    """primitive: the current date and time as text"""


def build_stats_spec(counts):
    s = {"status": 0, "reportnum": counts["reportnum"], "title": counts["title"], "author": counts["auth_group"],
         "url": counts["url"], "doi": counts["doi"], "misc": counts["misc"], "date": now_text()}
    s["old_stats_str"] = "0-%s-%s-%s-%s-%s-%s" % (s["reportnum"], s["title"], s["author"], s["url"], s["doi"], s["misc"])
    return s


def sums(ref_sect, kbs, linker_callback=None):
    """each statistic is the sum over the lines; stated without dictionaries"""
    misc, title, rep, url, doi, auth = 0, 0, 0, 0, 0, 0
    bad = {}
    for line in ref_sect:
        found = parse_reference_line(wash_and_repair_reference_line(line), kbs, bad, linker_callback)
        c, bad = found[2], found[3]
        misc += c["misc"]
        title += c["title"]
        rep += c["reportnum"]
        url += c["url"]
        doi += c["doi"]
        auth += c["auth_group"]
    return {"misc": misc, "title": title, "reportnum": rep, "url": url, "doi": doi, "auth_group": auth}


def post_every_key(dicta, dictb, key, result):
    if key in dicta and key in dictb:
        return result[key] == dicta[key] + dictb[key]
    if key in dicta:
        return result[key] == dicta[key]
    if key in dictb:
        return result[key] == dictb[key]
    return key not in result
