"""What the loaders of knowledge bases build."""
import re

from refextract.documents.text import re_group_captured_multiple_space, upper_same_length
from refextract.references.regexs import re_kb_line, re_punctuation


def phrase(seek):
    """a search phrase as it is looked up: upper case, no punctuation, single blanks"""
    return re_group_captured_multiple_space.sub(" ", re_punctuation.sub(" ", upper_same_length(seek))).strip()


def title_phrase(repl):
    """the search phrase of a standard title: upper case, no punctuation, single blanks"""
    return re_group_captured_multiple_space.sub(" ", re_punctuation.sub(" ", upper_same_length(repl))).strip()


def special_journals(fpath):
    out = set()
    for line in fpath:
        if not line.startswith("#") and line.strip():
            out.add(line.strip())
    return out


def authors(fpath):
    out = []
    for line in fpath:
        if not line.startswith("#"):
            m = re_kb_line.search(line)
            if m:
                out.append((m.group("seek"), m.group("repl")))
    return out


def journals_re(fpath):
    out = []
    for line in fpath:
        if not line.startswith("#"):
            m = re_kb_line.search(line)
            if not m:
                raise AttributeError
            out.append((m.group("seek"), m.group("repl")))
    return out


def books(fpath):
    out = {}
    for row in fpath:
        out[row[1].upper()] = row
    return out


def publishers(fpath):
    out = {}
    for seek, repl in fpath:
        out[seek] = {"pattern": re.compile(r"(\b|^)%s(\b|$)" % seek, re.I | re.U), "repl": repl}
    return out


def entries(lines):
    """entries of a title, publisher or collaboration knowledge base"""
    out = []
    for line in lines:
        if not line.startswith("#"):
            m = re_kb_line.search(line.rstrip("\n"))
            if not m:
                raise ValueError
            out.append((m.group("seek"), m.group("repl")))
    return out


def load_kb_from_file(path, builder):
    with open(path, encoding="utf-8") as lines:
        return builder(entries(lines))


def collaborations(knowledgebase):
    """one pattern per collaboration: any of the patterns of its entries"""
    alternatives = {}
    for pattern, collab in knowledgebase:
        p = pattern.replace(" ", r"\s").replace("Collaboration", r"(?:\s*coll(?:aborations?|\.)?)?")
        alternatives.setdefault(collab, []).append(p)
    out = {}
    for collab in alternatives:
        out[collab] = re.compile(r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?" + "(" + "|".join(alternatives[collab]) + ")" + r"(?=$|[><\]\)\"\s.,:])", re.I | re.U)
    return out


def load_kb(path, builder):
    return builder(path)
