import itertools
import re
from harness.lib import *

F, X = "refextract.references.find:", "refextract.references.text:"
TITLES = ["references", "r\u00c9f\u00e9rences", "r\u00c9f\u00c9rences", "r\xb4ef\xb4erences", "bibliography", "bibliographie", "literaturverzeichnis", "citations", "refs", "publicationsr\u00e9fs", "r\u00c9fs", "reference", "r\u00e9f\u00e9rence", "r\u00c9f\u00c9rence"]
spaced = lambda w: r"\s*" + r"\s*".join(re.escape(c) for c in w) + r"\s*" if w else ""


def mark(line):
    """(text of the mark, its number or None, style) of a line that starts like a reference"""
    s = line.lstrip()
    for style, rx in enumerate([r"\[\s*(\d+)\s*\]", r"\[\s*[a-zA-Z:-]+\+?\s?(?:\d{1,4}[A-Za-z:-]?)?\s*\]", r"\{\s*(\d+)\s*\}", r"<\s*(\d+)\s*>", r"\(\s*(\d+)\s*\)", r"(\d+)\s*\.(?!\d)", r"(\d+)\s+", r"(\d+)\s*\]", r"(\d+)\s*\}", r"(\d+)\s*\)", r"(\d+)\s*>",
                                r"\[\s*\d+\.\d+\s*\]", r"\[\s*\]", r"\*"]):
        m = re.match(rx, s, re.I)
        if m:
            return m.group(0), (m.group(1) if m.re.groups else None), style
    return None


def run(rep):
    begin, end, lines, whole = rep.get(F + "get_reference_section_beginning"), rep.get(F + "find_end_of_reference_section"), rep.get(X + "get_reference_lines"), rep.get(X + "extract_references_from_fulltext")
    body, intitle, titled, plain = rep.get(F + "find_numeration_in_body"), rep.get(F + "find_numeration_in_title"), rep.get(F + "find_reference_section"), rep.get(F + "find_reference_section_no_title_generic")
    from refextract.references import regexs
    rng = rep.rng
    if body:
        numbering(rep, body)
    if plain:
        untitled(rep, plain, regexs)
    if titled:
        titles(rep, titled)
    if intitle:
        in_title(rep, intitle)
    if end:
        ends(rep, end)
    if lines:
        handed_on(rep, lines)
    if whole and begin and end:
        documents(rep, whole, begin, end)


def same_details(rep, check, got, want, **info):
    rep.same(check, got, want, **info)


def numbering(rep, body):
    pool = ["", " ", "[1] a", "[2] b", "text", "[Abc99] c", "1. d", "(1)", " [ 1 ] e", "* f", "3) g", "1 ", "12", "[1.1] h", "[0001]"]
    def want(doc):
        for line in doc:
            m = mark(line) if not line.isspace() else None
            if m and m[1] in (None, "1"):
                return m[0]
        return None
    for n in range(0, 4):
        for doc in itertools.product(pool, repeat=n):
            o = outcome(body, list(doc))
            ok = o[0] == "return" and isinstance(o[1], tuple)
            rep.expect("body-no-error", ok, key="body", document=doc, outcome=repr(o)[:200])
            if ok:
                rep.same("first-number", o[1][0]["marker"], want(doc), key="body", document=doc)
                p = o[1][0]["marker_pattern"]
                rep.expect("pattern-with-marker", (p is None) == (o[1][0]["marker"] is None) and (p is None or any(re.match(p, x, re.I) for x in doc)), key="body", document=doc, pattern=p)


def in_title(rep, f):
    for title in ["References", "R E F S ", "Bibliography[", "Refs.", "Literaturverzeichnis *"]:
        for rest, mk, sure in [("[1] A", "[1]", True), ("[2] A", "[2]", False), ("(1) B", "(1)", True), ("1. C", "1.", True), ("[ab] D", "[ab]", False), ("", None, False), ("word", None, False), ("[12] E", "[12]", False), ("[1.1] F", "[1.1]", True)]:
            got = f([" " + title + rest, "[1] x"], title)
            rep.same("title-number", (got[0] and got[0]["marker"], bool(got[1])), (mk, sure), key="title", line=title + rest)
            if got[0]:
                nxt = {"[": "[7] next", "(": "(7) next", "1": "7. next"}[mk[0]] if mk != "[ab]" else "[cd] next"
                if mk != "[1.1]":
                    rep.expect("pattern-finds-next", re.match(got[0]["marker_pattern"], nxt, re.I) is not None and got[0]["title_marker_same_line"], key="title", line=title + rest, next=nxt, pattern=got[0]["marker_pattern"])
    rep.same("title-number", f([], "References"), (None, False), key="title", line="no lines")


def untitled(rep, plain, regexs):
    kinds = ["[1] a", "[2] b", "text", "[11]", " [1]"]
    for name, fmt in (("bracket", "[%s] x"), ("dot", "%s. x"), ("number", "%s x")):
        pats = [getattr(regexs, "re_reference_line_%s_markers" % name, None)]
        if pats[0] is None:
            continue
        num = {"bracket": r"\[\s*(\d+)\s*\]", "dot": r"\s*(\d+)\s*\.", "number": r"\s*(\d+)\s*"}[name]

        def number(line):
            m = re.match(num, line.strip())
            return m and m.group(1)

        def want(doc):
            for i in reversed(range(len(doc))):
                if number(doc[i]) == "1":
                    after = doc[i + 1:i + 11]
                    if len(after) < 5 or any(number(x) == "2" for x in after):
                        return i
            return None
        def one(doc, key):
            o = outcome(plain, list(doc), pats)
            got = o[1]["start_line"] if o[0] == "return" and o[1] else o[1] if o[0] == "return" else o
            rep.same("untitled-start", got, want(doc), key=key, document=doc, style=name)
            if o[0] == "return" and o[1]:
                rep.expect("untitled-details", o[1]["title_string"] is None and o[1]["marker"] == o[1]["marker"].strip() and "1" in o[1]["marker"] and not o[1]["title_marker_same_line"], key=key, document=doc, details=repr(o[1]))
        ks = [fmt % "1", fmt % "2", "text", fmt % "11"]
        for n in range(0, rep.n(6, 7) + 1):
            for doc in itertools.product(ks, repeat=n):
                one(list(doc), "untitled")
        for _ in range(rep.n(500, 5000)):
            doc = [rep.rng.choice(ks + ["text", "more", ""] * 3) for _ in range(rep.rng.randrange(40))]
            one(doc, "untitled long")


def titles(rep, titled):
    """the first kind of title with a candidate counts; from the end, a numbered candidate is not given up for one without numbers; a title with number 1 on its line ends the search"""
    def match(kind, line):
        n, w = divmod(kind, 2)[0], divmod(kind, 2)[1]
        head = r"^(\d){1,3}\s*" if w else r"^\s*([\[\-\{\(])?\s*((\w|\d){1,5}([\.\-\,](\w|\d){1,5})?\s*[\.\-\}\)\]]\s*)?"
        m = re.match(head + "(?P<title>" + spaced(TITLES[n]) + r"(\s*s\s*e\s*c\s*t\s*i\s*o\s*n\s*)?)\.?([\)\}\]])?($|\s*[\[\{\(\<]\s*[1a-z]\s*[\}\)\>\]]|\:$)", line, re.I)
        return m and m.group("title")

    def details(doc, i, title):
        m = mark(doc[i].lstrip()[len(title.lstrip()):]) if doc[i].lstrip().startswith(title.lstrip()) and not doc[i].lstrip()[len(title.lstrip()):][:1].isspace() else None
        if m:
            return m[0], re.search(r"(\d+)", m[0]) is not None and re.search(r"(\d+)", m[0]).group(0) == "1"
        for line in doc[i:i + 6]:
            m = mark(line) if not line.isspace() else None
            if m and m[1] in (None, "1"):
                return m[0], False
        return None, False

    def want(doc):
        for kind in range(2 * len(TITLES)):
            best = None
            for i in reversed(range(len(doc))):
                t = match(kind, doc[i])
                if t:
                    mk, sure = details(doc, i, t)
                    if best is None or mk or not best[1]:
                        best = (i, mk, t)
                    if sure:
                        break
            if best:
                return best
        return None
    pool = ["References", "REFERENCES:", "[1] a", "[2] b", "text", "References[1] z", "Bibliography", "3 References", "Reference", "R e f e r e n c e s", "IV. References", "references are here", "References (a)", "[Ab12] q", " "]

    def one(doc, key):
        o = outcome(titled, list(doc))
        got = (o[1]["start_line"], o[1]["marker"], o[1]["title_string"]) if o[0] == "return" and o[1] else o[1] if o[0] == "return" else o
        rep.same("titled-start", got, want(doc), key=key, document=doc)
    for n in range(0, 4):
        for doc in itertools.product(pool, repeat=n):
            one(list(doc), "titled")
            if rep.out_of_time():
                return
    for _ in range(rep.n(600, 6000)):
        one([rep.rng.choice(pool + ["text", "more", ""] * 4) for _ in range(rep.rng.randrange(20))], "titled long")


END = ["appendix", "appendices", "acknowledgement", "acknowledgment", "table", "figure", "annex", "discussion", "remercie", "index", "summary"]


def strip_digits(line):
    return re.sub("[ .\\-+\u00d7\u2212]", "", line).strip()


def ends(rep, end):
    from refextract.references import regexs
    tp = regexs.get_post_reference_section_title_patterns()
    any_mark = regexs.get_reference_line_numeration_marker_patterns()
    ptn = r"\s*(?P<mark>\[\s*(?P<marknum>\d+)\s*\])"
    letters = r"\s*(?P<mark>\[\s*[a-zA-Z:-]+\+?\s?(\d{1,4}[A-Za-z:-]?)?\s*\])"

    def want(doc, start, marker, p):
        if not 0 <= start <= len(doc) or not doc:
            return None
        pats = [re.compile(p, re.I)] if p is not None and marker is not None else any_mark

        def num(line):
            """(matched text, number or None)"""
            for q in pats:
                m = q.match(line.strip())
                if m:
                    n = m.groupdict().get("marknum")
                    try:
                        return m.group(0), None if n is None else int(n)
                    except ValueError:
                        return m.group(0), -5
            return None
        count = 0
        for x in range(start, len(doc)):
            m = num(doc[x])
            if m and m[1] is not None and m[1] != -5:
                count = m[1]
            if any(t.match(doc[x].strip()) for t in tp):
                follows = False
                for y in range(x + 1, min(x + 200, len(doc))):
                    m = num(doc[y])
                    if m and not m[0].isdigit() and (m[1] is None or m[1] == count + 1):
                        follows = True
                if not follows:
                    return x - 1
            d = strip_digits(doc[x])
            if len(d) > 10 and d.isdigit():
                wanted, got, y = 4, 1, x + 1
                while y < x + wanted and y < len(doc):
                    e = strip_digits(doc[y])
                    got += len(e) > 10 and e.isdigit()
                    wanted += not e
                    y += 1
                if got == wanted:
                    return x
        return len(doc) - 1

    def one(doc, start, marker, p, key):
        rep.same("end", outcome(end, list(doc), start, marker, p), ("return", want(doc, start, marker, p)), key=key, document=doc, start=start, pattern=p)
    pool = ["[1] a", "[2] b", "Appendix A", "text", "1234567 89012345", " ", "7", "[3] c"]
    for n in range(0, rep.n(5, 6) + 1):
        for doc in itertools.product(pool, repeat=n):
            one(doc, 0, "[1]", ptn, "end small")
            if n < 4:
                for s in (-1, 1, 2, n, n + 1):
                    one(doc, s, None, None, "end start")
        if rep.out_of_time():
            return
    pool2 = ["[%d] x" % i for i in range(1, 6)] + ["[Ab01] y", "Acknowledgements", "Fig. 1", "Table 2", "3", "1.5 2.5 3.5 -4.5 6.66 7.77", "12345678901", "\u22121234567890 1", "", "text", "Summary", "[" + "9" * 4400 + "]", "[\u0661] arabic"] + ["filler"] * 4
    for _ in range(rep.n(1500, 20000)):
        doc = [rep.rng.choice(pool2) for _ in range(rep.rng.randrange(25))]
        if rep.rng.random() < .15:
            doc += ["filler"] * rep.rng.choice([193, 196, 197, 198, 199, 200, 203]) + ["[%d] x" % rep.rng.randrange(1, 6)] + ["Index"]
        p = rep.rng.choice([ptn, letters, None])
        one(doc, rep.rng.choice([0, 0, 1, rep.rng.randrange(len(doc) + 2)]), rep.rng.choice(["[1]", None]), p, "end random")


def handed_on(rep, lines):
    # with this pattern every line is a reference of its own
    body = ["text", "References [1] a", "[2] b", "3 References", "References", "(12). References ", "see References there", "last"]
    for start in range(len(body)):
        for last in [None] + list(range(start - 1, len(body))):
            for title in (None, "References", "References "):
                for on_line in (True, False):
                    if on_line and title is None:
                        continue
                    doc = list(body)
                    o = outcome(lines, doc, start, last, title, "^", on_line)
                    sec = list(body)
                    s = start
                    if on_line:
                        a, mid, b = sec[s].partition(title)
                        if mid:
                            sec[s] = b
                    elif title is not None:
                        s += 1
                    sec = sec[s:] if last is None else sec[s:last + 1]
                    if title:
                        sec = [x for x in sec if not re.match(r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(title), x)]
                    rep.same("handed-on", o, ("return", [x.strip() for x in sec if x]), key="lines", start=start, last=last, title=title, same_line=on_line)


def documents(rep, whole, begin, end):
    """end to end: what is handed on is, in order, text of the lines of one range of the document"""
    rng = rep.rng
    words = ["alpha", "beta", "gamma", "delta", "zeta"]
    squeeze = lambda x: re.sub(r"[\s-]", "", x)
    for i in range(rep.n(300, 4000)):
        if rep.out_of_time():
            return
        doc = ["%s %s %d" % (rng.choice(words), rng.choice(words), j) for j in range(rng.randrange(12))]
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            style = rng.choice(["[%d] ", "%d. ", "(%d) ", "%d "])
            t = rng.choice(["References", "REFERENCES", "Bibliography", "7 References", "", "References "])
            refs = [style % (n + 1) + "%s, item %d" % (rng.choice(words), n) for n in range(rng.randrange(1, 9))]
            if t.endswith(" "):
                refs[0] = t + refs[0]
            elif t:
                doc.append(t)
            doc += refs
            doc += rng.choice([[], ["Appendix B", "stuff"], ["Acknowledgements", "thanks"], ["plain tail"] * 3])
        keep = list(doc)
        o = outcome(whole, list(doc))
        rep.expect("document-no-error", o[0] == "return", key="documents", document=keep, outcome=repr(o)[:300])
        if o[0] != "return":
            continue
        refs = o[1][0]
        d = begin(list(doc))
        if d is None:
            rep.same("nothing-found", refs, [], key="documents", document=keep)
            continue
        last = end(list(doc), d["start_line"], d["marker"], d["marker_pattern"])
        rep.expect("range", last is not None and 0 <= d["start_line"] and d["start_line"] - 1 <= last < len(doc), key="documents", document=keep, start=d["start_line"], last=last)
        t = d["title_string"]
        own = doc[d["start_line"]:last + 1]
        if len(own) < 25:
            if t:
                own = [own[0][own[0].index(t) + len(t):]] + own[1:] if own and t in own[0] and d["title_marker_same_line"] else own[1:]
                own = [x for x in own if not re.match(r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(t), x)]
            rep.same("text-of-range", squeeze("".join(refs)), squeeze("".join(own)), key="documents", document=keep, start=d["start_line"], last=last)
