import itertools
import re
from harness.lib import *

D, X = "refextract.documents.text:", "refextract.references.text:"
LIMIT = 25
NUMBERED = {"bracket": (r"\s*(?P<mark>\[\s*(?P<marknum>\d+)\s*\])", "[%d] "), "dot": (r"\s*(?P<mark>(?P<marknum>\d+)\s*\.(?!\d))", "%d. "), "paren": (r"(?P<mark>(?P<left>)\s*(?P<marknum>\d+)\s*(?P<right>))", "%d ")}
UNNUMBERED = {"letters": r"\s*(?P<mark>\[\s*[a-zA-Z:-]+\+?\s?(\d{1,4}[A-Za-z:-]?)?\s*\])", "star": r"\s*(?P<mark>\*)", "empty": r"\s*(?P<mark>\[\s*\])"}


def groups(section, pattern, separated):
    """the lines of each reference, as pieces"""
    out, cur, number = [], [], 0
    style = pattern
    if not pattern:
        style = r"^\s*$" if separated else r"^[^\s]"
    rx = re.compile(style, re.I)
    for line in section:
        m = rx.search(line)
        start = None
        if m:
            if "marknum" in rx.groupindex:
                digits = m.group("marknum")
                value = int(digits) if len(digits) < 4000 else -1
                if value == number + 1:
                    start, number = m.start(), value
            else:
                start = m.start()
            if start is not None and not pattern and not separated:
                if re.match("[a-z]", line.strip()) or cur and cur[-1].strip()[-1:] in (",", "&", "-") and cur[-1].strip():
                    start = None
        if start is None:
            if line:
                cur.append(line)
            continue
        if line[:start]:
            cur.append(line[:start])
        if cur:
            out.append(cur)
        cur = [line[start:]] if line[start:] else []
    if cur:
        out.append(cur)
    return out


def joined(lines):
    text = ""
    for line in lines[:LIMIT]:
        line = line.strip()
        if text.endswith("-"):
            text = text[:-1] + line
        elif text and not text.endswith(" "):
            text += " " + line
        else:
            text += line
    return text.rstrip()


def separated_by_blanks(section):
    kinds = [(k, len(list(g))) for k, g in itertools.groupby(section, lambda x: x.isspace())]
    texts = [n for k, n in kinds if not k]
    blanks = len(kinds) - len(texts)
    if kinds and kinds[-1][0]:
        blanks -= 1
    return len(texts) > 3 and blanks in (len(texts), len(texts) - 1) and max(texts) > 1


def squeeze(x):
    return re.sub(r"[\s-]", "", x)


def run(rep):
    join, build, blank = rep.get(D + "join_lines"), rep.get(X + "rebuild_reference_lines"), rep.get(X + "test_for_blank_lines_separating_reference_lines")
    rng = rep.rng
    if join:
        pool = ["", "-", " ", "a", "a-", "a ", "--", "ab-c", "\u00ad", "a\t", "- ", "\u2010"]
        for a, b in itertools.product(pool, repeat=2):
            w = b if a == "" else a[:-1] + b if a[-1] == "-" else a + b if a[-1] == " " else a + " " + b
            rep.same("join", outcome(join, a, b), ("return", w), key="join", first=a, second=b)
    if blank:
        for n in range(0, rep.n(11, 13) + 1):
            for bits in range(1 << n):
                sec = [" " if bits >> i & 1 else "x" for i in range(n)]
                rep.same("blank-separated", outcome(lambda: bool(blank(sec))), ("return", separated_by_blanks(sec)), key="blank", section=sec)
        for _ in range(rep.n(500, 5000)):
            sec = [rng.choice(["x", "x", "", " ", "\n", "\t "]) for _ in range(rng.randrange(30))]
            rep.same("blank-separated", outcome(lambda: bool(blank(sec))), ("return", separated_by_blanks(sec)), key="blank", section=sec)
    if not build:
        return

    def one(section, pattern, key):
        sep = separated_by_blanks(section)
        g = groups(section, pattern, sep)
        o = outcome(build, list(section), pattern)
        rep.same("rebuilt", o, ("return", [joined(x) for x in g]), key=key, section=section, pattern=pattern)
        if o[0] == "return" and all(len(x) <= LIMIT for x in g):
            rep.same("text-kept", squeeze("".join(o[1])), squeeze("".join(section)), key=key, section=section, pattern=pattern)
    for name, (p, mk) in NUMBERED.items():
        pool = [mk % 1 + "a", mk % 2 + "b-", "c " + mk % 2, "d", "", mk % 3 + "e"]
        for n in range(0, rep.n(4, 5) + 1):
            for sec in itertools.product(pool, repeat=n):
                one(list(sec), p, "numbered " + name)
    for name, p in list(UNNUMBERED.items()) + [("none", None), ("blank", "")]:
        pool = ["[Ab] a", "* b", "[] c-", " d", "e,", "F", "", " "]
        for n in range(0, rep.n(4, 5) + 1):
            for sec in itertools.product(pool, repeat=n):
                one(list(sec), p, "unnumbered " + name)
        if rep.out_of_time():
            return
    big = "[" + "9" * 4400 + "] big"
    for sec in ([big], ["[1] a", big], ["[1] a", "b", big, "[2] c"], [big, "[1] a"]):
        one(sec, NUMBERED["bracket"][0], "huge number")
    words = ["alpha", "beta-", "gamma,", "Delta &", " indented", "Zeta", "", " ", "\t", "2 of 3", "1998", "x-\u00e9", "[7]", "\u0661. arabic", "- bullet", "[0] zero", "10.1000/xyz"]
    styles = [v[0] for v in NUMBERED.values()] + list(UNNUMBERED.values()) + [None, None]
    for _ in range(rep.n(3000, 40000)):
        sec, n = [], 1
        mk = rng.choice([v[1] for v in NUMBERED.values()])
        for _ in range(rng.choice([0, 1, 3, 6, 10])):
            sec.append(rng.choice(["", "", "tail ", " "]) + mk % n + rng.choice(words))
            sec += [rng.choice(words) for _ in range(rng.choice([0, 0, 1, 2, 3, 24, 25, 26]))]
            n += rng.choice([1, 1, 1, 1, 0, 2, -1])
            if rng.random() < .3:
                sec.append(rng.choice(["", " ", "\n"]))
        one(sec, rng.choice(styles), "random")
        if rep.out_of_time():
            break
    from refextract.references.find import get_reference_section_beginning
    from refextract.references.text import extract_references_from_fulltext
    for title in ("References ", "References", "REFERENCES", "Bibliography "):
        for mk in ("[%d]", "(%d)", "%d."):
            if mk == "%d." and title.endswith(" "):
                continue
            for n in (1, 2, 5, 12):
                refs = [mk % (i + 1) + " A. Author, item %s" % "abcdefghijklm"[i] for i in range(n)]
                doc = ["intro text", "more"] + ([title + refs[0]] + refs[1:] if title.endswith(" ") else [title] + refs)
                rep.same("one-per-number", outcome(lambda: extract_references_from_fulltext(list(doc))[0]), ("return", refs), key="section", document=doc)
