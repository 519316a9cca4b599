"""What is recorded about places in a line, and how a line is put together again."""
from refextract.documents.text import re_group_captured_multiple_space
from refextract.references.regexs import re_ibid, re_multiple_hyphens
from refextract.references import tag as _tag


def upper(line):
    out = []
    for c in line:
        u = c.upper()
        out.append(u if len(u) == 1 else c)
    return "".join(out)


def removed(line):
    out = {}
    for m in re_group_captured_multiple_space.finditer(line):
        out[m.start()] = len(m.group(0)) - 1
    return out, re_group_captured_multiple_space.sub(" ", line)


def add_tagged_publisher(reading_line, matched_publisher, startpos, true_replacement_index, extras, kb_publishers):
    """the text up to the publisher, the publisher; the line continues behind it"""
    text = reading_line[startpos:true_replacement_index] + "<cds.PUBLISHER>" + kb_publishers[matched_publisher]["repl"] + "</cds.PUBLISHER>"
    return text, true_replacement_index + len(matched_publisher) + extras


def add_tagged_report_number(reading_line, len_reportnum, reportnum, startpos, true_replacement_index, extras):
    """the text up to the number without a brace or space before it, the number; the line continues behind it and its closing brace"""
    text = reading_line[startpos:true_replacement_index]
    if text.endswith("[") or text.endswith("(") or text.endswith(" "):
        text = text[:-1]
    end = true_replacement_index + len_reportnum + extras
    if end < len(reading_line) and reading_line[end] in ("]", ")"):
        return text + "<cds.REPORTNUMBER>" + reportnum + "</cds.REPORTNUMBER>", end + 1
    return text + "<cds.REPORTNUMBER>" + reportnum + "</cds.REPORTNUMBER>", end


def get_replacement_types(titles, reportnumbers, publishers):
    """a publisher goes before a report number, a report number before a title at the same place"""
    out = {}
    for i in titles:
        out[i] = "journal"
    for i in reportnumbers:
        out[i] = "reportnumber"
    for i in publishers:
        out[i] = "publisher"
    return out


def number_places(reading_line, len_reportnum, reportnum, startpos, true_replacement_index, extras):
    return 0 <= startpos and startpos <= true_replacement_index and len_reportnum >= 0 and extras >= 0


def publisher_places(reading_line, matched_publisher, startpos, true_replacement_index, extras, kb_publishers):
    return 0 <= startpos and startpos <= true_replacement_index and extras >= 0


def journal_places(reading_line, journal_info, previous_match, startpos, true_replacement_index, extras, standardised_titles):
    return 0 <= startpos and startpos <= true_replacement_index and extras >= 0 and true_replacement_index <= len(reading_line)


def ibids(line):
    """where which ibid is, and the line with underscores instead"""
    out = {}
    for m in re_ibid.finditer(line):
        out[m.start()] = m.group(0)
        line = line[:m.start()] + "_" * len(m.group(0)) + line[m.end():]
    return out, line


def behind_punctuation(line, pos):
    """the first place from pos on that is not one of . : - ) (the end of the line at last)"""
    return pos if pos >= len(line) or line[pos] not in ".:-)" else behind_punctuation(line, pos + 1)


def add_tagged_journal(reading_line, journal_info, previous_match, startpos, true_replacement_index, extras, standardised_titles):
    """the text up to the title, the title, its numeration; the line continues behind the numeration.
    Without numeration nothing is used."""
    text = reading_line[startpos:true_replacement_index]
    end = true_replacement_index + len(journal_info) + extras
    series = None
    if journal_info.upper().find("IBID") != -1:
        if not previous_match:
            return "", startpos, previous_match
        found = previous_match
        text = text + _tag.add_tagged_journal_in_place_of_IBID(previous_match)
        series = previous_match["series"]
    else:
        title = standardised_titles[journal_info]
        if ";" in title:
            title, series = title.rsplit(";", 1)
            series = series.strip()
        found = {"title": title, "series": series}
        text = text + "<cds.JOURNAL>" + title + "</cds.JOURNAL>"
    end = behind_punctuation(reading_line, end)
    info = _tag.find_numeration(reading_line[end:])
    if not info:
        info = _tag.find_numeration_more(text + " " + reading_line[end:])
        if not info:
            return "", startpos, previous_match
        info["len"] = info["len"] - 1
    if series and not info["series"]:
        info["series"] = series
    found["series"] = info["series"]
    return text + _tag.create_numeration_tag(info), end + info["len"], found


def publishers(line, kb_publishers):
    """where which publisher is: longer names first, none inside of another"""
    out = {}
    for name in sorted(kb_publishers, key=len, reverse=True):
        for m in kb_publishers[name]["pattern"].finditer(line):
            out[m.start()] = name
            line = line[:m.start()] + "_" * len(m.group(0)) + line[m.end():]
    return out


def journals(line, kb_journals):
    """where which title is, the line with underscores instead, how often each was found"""
    out, count = {}, {}
    for title in kb_journals[2]:
        for m in kb_journals[0][title].finditer(line):
            count[title] = count.get(title, 0) + 1
            out[m.start()] = title
            line = line[:m.start()] + "_" * len(title) + line[m.start() + len(title):]
    return out, line, count


def reports(line, kb_reports):
    """where a report number is and how long, its standard form, the line with underscores instead"""
    patterns, standard = kb_reports
    line = line.replace("/", " ")
    length, text = {}, {}
    for kind in sorted(standard.keys(), key=lambda x: (len(x[1]), x), reverse=True):
        for m in patterns[kind].finditer(line):
            number = re_multiple_hyphens.sub("-", m.group("numn").replace(" ", "-"))
            number = number.replace("/-", "/").replace("-/", "/").replace("-/-", "/")
            length[m.start(1)] = len(m.group(1))
            text[m.start(1)] = standard[kind] + number
            line = line[:m.start(1)] + "_" * len(m.group(1)) + line[m.end(1):]
    return length, text, line


def process(working_line, journals_matches, pprint_repnum_len, pprint_repnum_matchtext, publishers_matches, removed_spaces, standardised_titles, kbs):
    """the found items in the order of their places, each where it is in the original line;
    the text between them and behind the last is the original's, every part of it used once"""
    if len(journals_matches) == 0 and len(pprint_repnum_len) == 0 and len(publishers_matches) == 0:
        out = working_line
    else:
        kinds = _tag.get_replacement_types(sorted(journals_matches.keys()), sorted(pprint_repnum_matchtext.keys()), sorted(publishers_matches.keys()))
        runs = sorted(removed_spaces.keys())
        out = ""
        done = 0
        previous = {}
        for i in sorted(kinds.keys()):
            place, extras = _tag.account_for_stripped_whitespace(runs, removed_spaces, kinds, pprint_repnum_len, journals_matches, publishers_matches, i)
            if place >= done:
                if kinds[i] == "journal":
                    piece, done, previous = _tag.add_tagged_journal(working_line, journals_matches[i], previous, done, place, extras, standardised_titles)
                    out = out + piece
                elif kinds[i] == "reportnumber":
                    piece, done = _tag.add_tagged_report_number(working_line, pprint_repnum_len[i], pprint_repnum_matchtext[i], done, place, extras)
                    out = out + piece
                elif kinds[i] == "publisher":
                    piece, done = _tag.add_tagged_publisher(working_line, publishers_matches[i], done, place, extras, kbs["publishers"])
                    out = out + piece
        out = _tag.wash_volume_tag(out + working_line[done:])
    out = _tag.identify_and_tag_authors(out, kbs["authors"])
    return _tag.identify_and_tag_collaborations(out, kbs["collaborations"]).replace("\n", "")
