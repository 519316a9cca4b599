"""The reference section: where it starts, where it ends, which lines are handed on."""
import re
from refextract.documents.text import remove_page_boundary_lines
from refextract.references import find as _f
from refextract.references import regexs as _r
from refextract.references import text as _t

NEITHER = "+-. \u00d7\u2212"


def first_match(line, patterns):
    """the match of the first pattern that matches"""
    for p in patterns:
        m = p.match(line)
        if m is not None:
            return m
    return None


def in_body(docbody):
    """the first line that is numbered 1, or has a mark without number"""
    patterns = _r.get_reference_line_numeration_marker_patterns()
    for line in docbody:
        if not line.isspace():
            m = _r.regex_match_list(line, patterns)
            if m:
                try:
                    other = m.group("marknum") != "1"
                except IndexError:
                    other = False
                if not other:
                    return {"marker": m.group("mark"), "marker_pattern": m.re.pattern, "title_marker_same_line": False}, False
    return {"marker": None, "marker_pattern": None, "title_marker_same_line": False}, False


def in_title(docbody, title):
    """the mark behind the title; sure when it is number 1.  The pattern is that of the references that follow, which have no title."""
    if len(docbody) == 0:
        return None, False
    title = re.escape(title)
    m = _r.regex_match_list(docbody[0], _r.get_reference_line_numeration_marker_patterns(title))
    if not m:
        return None, False
    n = _r.re_num.search(m.group("mark"))
    sure = False
    if n:
        sure = n.group(0) == "1"
    return {"marker": m.group("mark"), "marker_pattern": m.re.pattern.replace(title, "", 1), "title_marker_same_line": True}, sure


def numeration(docbody, title):
    found = _f.find_numeration_in_title(docbody, title)
    if found[0]:
        return found
    return _f.find_numeration_in_body(docbody)


def with_title(docbody):
    """the candidates of the surest title, from the end: one with numbered references is not given up for one without"""
    for pattern in _r.get_reference_section_title_patterns():
        best = None
        for back in range(len(docbody)):
            index = len(docbody) - 1 - back
            m = pattern.match(docbody[index])
            if m:
                title = m.group("title")
                found, sure = _f.find_numeration(docbody[index:index + 6], title)
                if found:
                    if best is None or found["marker"] or not best["marker"]:
                        best = found
                        best["start_line"] = index
                        best["title_string"] = title
                if sure:
                    break
        if best:
            return best
    return None


def without_title(docbody, marker_patterns):
    """the last line numbered 1 that is followed by a line numbered 2 soon, or by few lines"""
    for back in range(len(docbody)):
        m = _r.regex_match_list(docbody[len(docbody) - 1 - back].strip(), marker_patterns)
        if m:
            if m.group("marknum") == "1":
                zone = docbody[len(docbody) - back:len(docbody) - back + 10]
                two = len(zone) < 5
                if not two:
                    for line in zone:
                        n = _r.regex_match_list(line.strip(), marker_patterns)
                        if n:
                            if n.group("marknum") == "2":
                                two = True
                                break
                if two:
                    return {"start_line": len(docbody) - 1 - back, "title_string": None, "marker": m.group("mark").strip(), "marker_pattern": m.re.pattern, "title_marker_same_line": False}
    return None


def by_brackets(docbody):
    return _f.find_reference_section_no_title_generic(docbody, [_r.re_reference_line_bracket_markers])


def by_dots(docbody):
    return _f.find_reference_section_no_title_generic(docbody, [_r.re_reference_line_dot_markers])


def by_numbers(docbody):
    return _f.find_reference_section_no_title_generic(docbody, [_r.re_reference_line_number_markers])


def beginning(fulltext):
    """a title is surest, then numbers in brackets, with dots, alone"""
    found, how = _f.find_reference_section(fulltext), 1
    if found is None:
        found, how = _f.find_reference_section_no_title_via_brackets(fulltext), 2
    if found is None:
        found, how = _f.find_reference_section_no_title_via_dots(fulltext), 3
    if found is None:
        found, how = _f.find_reference_section_no_title_via_numbers(fulltext), 4
    if found is not None:
        found["how_found_start"] = how
    return found


def digits_only(line):
    for c in (" ", ".", "-", "+", "\u00d7", "\u2212"):
        line = line.replace(c, "")
    return line.strip()


def continues(docbody, x, count, marks):
    """a reference with the next number, or with a mark without number, in the next lines"""
    for i in range(min(199, len(docbody) - x - 1)):
        m = _r.regex_match_list(docbody[x + 1 + i].strip(), marks)
        if m:
            if not m.group(0).isdigit():
                try:
                    if int(m.group("marknum")) == count + 1:
                        return True
                except ValueError:
                    pass
                except IndexError:
                    return True
    return False


def axis(docbody, x):
    """four lines of digits, blank lines not counted"""
    if not (len(digits_only(docbody[x])) > 10 and digits_only(docbody[x]).isdigit()):
        return False
    lines, wanted = 1, 4
    for i in range(len(docbody) - x - 1):
        if not 1 + i < wanted:
            break
        d = digits_only(docbody[x + 1 + i])
        if len(d) > 10 and d.isdigit():
            lines += 1
        elif len(d) == 0:
            wanted += 1
    return lines == wanted


def end(docbody, ref_start_line, ref_line_marker, ref_line_marker_ptn):
    """the line before the first title of another section that no further reference follows, or a line of an axis, or the last line"""
    if type(ref_start_line) is not int or ref_start_line < 0 or ref_start_line > len(docbody) or len(docbody) < 1:
        return None
    titles = _r.get_post_reference_section_title_patterns()
    words = _r.get_post_reference_section_keyword_patterns()
    if ref_line_marker is None or ref_line_marker_ptn is None:
        marks = _r.get_reference_line_numeration_marker_patterns()
    else:
        marks = [re.compile(ref_line_marker_ptn, re.I | re.UNICODE)]
    count = 0
    for i in range(len(docbody) - ref_start_line):
        x = ref_start_line + i
        line = docbody[x].strip()
        m = _r.regex_match_list(line, marks)
        if m:
            try:
                count = int(m.group("marknum"))
            except (ValueError, IndexError):
                pass
        if _r.regex_match_list(line, titles):
            if not continues(docbody, x, count, marks):
                return x - 1
        if axis(docbody, x):
            return x
    return len(docbody) - 1


def lines(docbody, ref_sect_start_line, ref_sect_end_line, ref_sect_title, ref_line_marker_ptn, title_marker_same_line):
    """the lines of the range: without the title line, or with the title taken out of it, and without repetitions of the title as page header"""
    start = ref_sect_start_line
    if title_marker_same_line:
        at = docbody[start].find(ref_sect_title)
        if at != -1:
            docbody[start] = docbody[start][at + len(ref_sect_title):]
    elif ref_sect_title is not None:
        start = start + 1
    if ref_sect_end_line is None:
        section = docbody[start:]
    else:
        section = docbody[start:ref_sect_end_line + 1]
    if ref_sect_title:
        section = _t.strip_footer(section, ref_sect_title)
    return _t.rebuild_reference_lines(section, ref_line_marker_ptn)


def without_footer(ref_lines, section_title):
    footer = re.compile(r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title), re.UNICODE)
    out = []
    for line in ref_lines:
        if not footer.match(line):
            out.append(line)
    return out


def section(fulltext):
    body = remove_page_boundary_lines(fulltext)
    start = _f.get_reference_section_beginning(body)
    if start is None:
        return [], 4, 0
    last = _f.find_end_of_reference_section(body, start["start_line"], start["marker"], start["marker_pattern"])
    if last is None:
        return [], 5, 0
    return _t.get_reference_lines(body, start["start_line"], last, start["title_string"], start["marker_pattern"], start["title_marker_same_line"]), 0, 0
