"""Joining broken lines back into references."""
import re
from refextract.documents.text import join_lines
from refextract.references import text as _t
from refextract.references.config import CFG_REFEXTRACT_MAX_LINES

LOWER = re.compile(r"[a-z]")
GOES_ON = re.compile(r"[,&-]$")


def join(line1, line2):
    """a hyphen at the end joins, anything else is separated by a blank"""
    if line1 == "":
        return line2
    if line1[-1] == "-":
        return line1[:-1] + line2
    if line1[-1] == " ":
        return line1 + line2
    return line1 + " " + line2


def joined(lines):
    """one reference from its lines, the first 25"""
    out = ""
    for line in lines[:CFG_REFEXTRACT_MAX_LINES]:
        out = join_lines(out, line.strip())
    return out.rstrip()


def rebuilt(ref_sectn, ref_line_marker_ptn):
    indented = False
    pattern = ref_line_marker_ptn
    if not pattern:
        if _t.test_for_blank_lines_separating_reference_lines(ref_sectn):
            pattern = r"^\s*$"
        else:
            indented = True
            pattern = r"^[^\s]"
    mark = re.compile(pattern, re.I | re.UNICODE)
    refs, lines, last = [], [], 0
    for line in ref_sectn:
        m = mark.search(line)
        if m:
            try:
                number = int(m.group("marknum"))
            except IndexError:
                number = None
            except ValueError:
                number = -1
            new = number is None or last + 1 == number
            if indented:
                if LOWER.match(line.strip()):
                    new = False
                if lines:
                    if GOES_ON.search(lines[-1].strip()):
                        new = False
            if new:
                if line[:m.start()]:
                    lines.append(line[:m.start()])
                if lines:
                    refs.append(joined(lines))
                last = number
                lines = []
                if line[m.start():]:
                    lines.append(line[m.start():])
            else:
                lines.append(line)
        elif line:
            lines.append(line)
    if lines:
        refs.append(joined(lines))
    return refs


def blanks(ref_sect):
    """as many blocks of blank lines inside as blocks of text (more than three of these, one of several lines)"""
    texts, spaces, several, before = 0, 0, 0, None
    for i in range(len(ref_sect)):
        blank = ref_sect[i].isspace()
        if not blank:
            if before is False:
                several = 1
            else:
                texts += 1
        elif before is not True:
            spaces += 1
        before = blank
    if before is True:
        spaces -= 1
    if texts > 3 and (spaces == texts or spaces == texts - 1) and several:
        return 1
    return 0
