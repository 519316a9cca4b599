import itertools
import re
from harness.lib import *

M = "refextract.documents.text:"
BREAK = re.compile(r"\A\s*\f\s*\Z")
WORD = re.compile("[A-Za-z0-9-]+")


def is_break(line):
    return "\f" in line and not line.strip()


def breaks_of(doc):
    return [i for i, line in enumerate(doc) if is_break(line)]


def alike(a, b):
    """two lines of words: nearly every word starts and ends the same, or both are numbers"""
    if len(a) != len(b) or not a:
        return False
    same = 0
    for x, y in zip(a, b):
        if (x.isdigit() and y.isdigit()) or (x[0].lower() == y[0].lower() and x[-1].lower() == y[-1].lower()):
            same += 1
    return same * 10 >= 9 * len(a)


def repeated(first, other):
    a, b = WORD.findall(first), WORD.findall(other)
    if first.isspace():
        return not b
    return alike(a, b)


def headers(doc, br):
    """how many lines behind each break are repeated on the pages"""
    last = len(br) - 1
    if last <= 2:
        return 0
    step = 2 if last > 3 else 1
    n = 0
    while br[1] + n + 1 != br[2]:
        others = [br[c] + n + 1 for c in range(1 + step, last, step)]
        if any(o >= len(doc) or not repeated(doc[br[1] + n + 1], doc[o]) for o in others):
            break
        n += 1
    return n


def footers(doc, br):
    if len(br) <= 2:
        return 0
    n = 0
    while br[1] - n - 1 >= 0 and all(repeated(doc[br[1] - n - 1], doc[b - n - 1]) for b in br[2:]):
        n += 1
    return n


def removal(doc, br, head, foot):
    """the lines that are page breaks, headers behind all but the last break, and footers before all but the first"""
    gaps = [b - a for a, b in zip(br, br[1:])]
    if not gaps or head + foot + 1 >= min(gaps):
        return set()
    out = set(br)
    for j, b in enumerate(br):
        if j < len(br) - 1:
            out |= set(range(b + 1, b + head + 1))
        if j > 0:
            out |= set(range(b - foot, b))
    return out


def run(rep):
    get_breaks, head_f, foot_f = rep.get(M + "get_page_break_positions"), rep.get(M + "get_number_header_lines"), rep.get(M + "get_number_footer_lines")
    strip, clean, similar, has_text = (rep.get(M + x) for x in ("strip_headers_footers_pagebreaks", "remove_page_boundary_lines", "check_boundary_lines_similar", "document_contains_text"))

    def stripping(doc, br, h, f, key):
        if strip:
            keep = removal(doc, br, h, f)
            rep.same("strip", outcome(strip, list(doc), list(br), h, f), ("return", [x for i, x in enumerate(doc) if i not in keep]), key=key, document=doc, breaks=br, header=h, footer=f)

    def whole(doc, key):
        br = breaks_of(doc)
        if get_breaks:
            rep.same("page-breaks", outcome(get_breaks, list(doc)), ("return", br), key=key, document=doc)
        h, f = headers(doc, br), footers(doc, br)
        if head_f:
            rep.same("header-lines", outcome(head_f, list(doc), list(br)), ("return", h), key=key, document=doc)
        if foot_f:
            rep.same("footer-lines", outcome(foot_f, list(doc), list(br)), ("return", f), key=key, document=doc)
        text = any(not x.isspace() for x in doc)
        if has_text:
            rep.same("has-text", bool(has_text(list(doc))), text, key=key, document=doc)
        if clean:
            gone = removal(doc, br, h, f) if text else set()
            rep.same("clean", outcome(clean, list(doc)), ("return", [x for i, x in enumerate(doc) if i not in gone]), key=key, document=doc, breaks=br, header=h, footer=f)

    rng = rep.rng
    # places only: every set of breaks among up to 10 lines, every header and footer size
    for n in range(0, rep.n(9, 11) + 1):
        for mask in range(1 << n):
            br = [i for i in range(n) if mask >> i & 1]
            doc = ["\f" if i in br else "l%d" % i for i in range(n)]
            for h, f in itertools.product(range(4), repeat=2) if n < 8 else ((0, 0), (1, 1), (2, 0), (0, 2), (1, 0)):
                stripping(doc, br, h, f, "places")
    for _ in range(rep.n(3000, 40000)):
        br, at = [], rng.randrange(4)
        h, f = rng.randrange(6), rng.randrange(6)
        for _ in range(rng.randrange(9)):
            br.append(at)
            at += rng.choice([1, h + f + 1, h + f + 2, h + f + 2, h + f + 3, 9, 15])
        doc = ["l%d" % i for i in range(at + rng.randrange(4))]
        for b in br:
            if b < len(doc):
                doc[b] = "\f"
        br = [b for b in br if b < len(doc)]
        stripping(doc, br, h, f, "long")
    # documents: every sequence of a few kinds of lines
    kinds = ["\f", "a b", " ", "7"]
    for n in range(0, rep.n(7, 9) + 1):
        for doc in itertools.product(kinds, repeat=n):
            whole(list(doc), "documents")
    if similar:
        words = ["ab", "aXb", "12", "3", "c-", "AB", "²"]
        for n in range(0, 3):
            for a in itertools.product(words, repeat=n):
                for b in itertools.product(words, repeat=n):
                    rep.same("similar", bool(similar(list(a), list(b))), alike(a, b), key="similar", first=a, second=b)
        for n in range(8, 25):
            for bad in range(0, n + 1):
                rep.same("similar", bool(similar(["aa"] * n, ["aa"] * (n - bad) + ["zz"] * bad)), n > 0 and (n - bad) * 10 >= 9 * n, key="similar", words=n, different=bad)
        rep.same("similar", bool(similar(["a"], ["a", "b"])), False, key="similar", first="a", second="a b")
    heads = ["Journal of Things 12", "JOURNAL of Things 7", "\n", "- 3 -", "***", "", "A. Author et al.", "\u00a0 ", "Title 1 2 3 4 5 6 7 8 9"]
    for _ in range(rep.n(4000, 40000)):
        head = [rng.choice(heads) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        foot = [rng.choice(heads) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        doc = []
        for pg in range(rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 9])):
            if pg or rng.random() < .2:
                doc.append(rng.choice(["\f", "\f\n", " \f ", "\n\f"]))
            vary = lambda x: re.sub(r"\d+", lambda m: str(rng.randrange(100)), x) if rng.random() < .95 else "Body text"
            body = ["line %d of page %d %s" % (i, pg, rng.choice("abcdef") * rng.randrange(4)) + rstr(rng, 4, "ab 1\f\n") for i in range(rng.choice([0, 1, 2, 3, 6]))]
            doc += [vary(x) for x in head] + body + [vary(x) for x in foot]
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            if doc:
                i = rng.randrange(len(doc))
                doc[i] = rng.choice(["\f", "", " ", doc[i][::-1], "\fx", "x\f"])
        whole(doc, "random")
        if rep.out_of_time():
            break
    # two pages and pages without text lose no text
    if clean:
        for _ in range(rep.n(200, 2000)):
            page = [rng.choice(heads + ["text %d" % i]) for i in range(rng.randrange(5))]
            doc = page + rng.choice([[], ["\f"]]) + page
            rep.same("two-pages", clean(list(doc)), doc, key="two pages", document=doc)
            doc = [rng.choice([" ", "\f", "\n", "\t"]) for _ in range(rng.randrange(9))]
            rep.same("no-text", clean(list(doc)), doc, key="no text", document=doc)
