import re
import spec.s_place as sp
from harness.lib import *
from harness.corpus import *

G = "refextract.references.tag:"
T = "refextract.documents.text:"
ALPHA = "ab  \t1Aß.-,/ŉ"


def collapse(line):
    """(collapsed line, for each place in it the place of that character in the original)"""
    out, at, i = "", [], 0
    while i < len(line):
        j = i
        while j < len(line) and line[j].isspace():
            j += 1
        out += " " if j - i >= 2 else line[i]
        at.append(i)
        i = j if j - i >= 2 else i + 1
    return out, at + [len(line)]


def spaces(rep, rng):
    f = rep.get(T + "remove_and_record_multiple_spaces_in_line")
    acc = rep.get(G + "account_for_stripped_whitespace")
    if not f:
        return
    for n in range(rep.n(700, 12000)):
        line = rstr(rng, 14 if n % 3 else 60, "abc    \t ")
        o = outcome(f, line)
        want, at = collapse(line)
        if not rep.expect("collapse-returns", o[0] == "return", key="collapse-returns", line=line, got=repr(o)):
            continue
        removed, got = o[1]
        if not rep.same("collapsed", got, want, key="collapsed", line=line) or not acc:
            continue
        keys = sorted(removed)
        for _ in range(4):
            p = rng.randrange(len(want) + 1)
            q = rng.randrange(p, len(want) + 1)
            if p < len(want) and want[p] == " ":
                continue
            kind = rng.choice(["journal", "reportnumber", "publisher"])
            other = {p + 1: "x", 0: "yy"}
            d = dict(len_reportnums={0: 3, p: 1}, journals_matches=dict(other), publishers_matches=dict(other))
            for k, name, v in (("journal", "journals_matches", want[p:q]), ("publisher", "publishers_matches", want[p:q]), ("reportnumber", "len_reportnums", q - p)):
                if k == kind:
                    d[name][p] = v
            o = outcome(acc, keys, dict(removed), {p: kind}, d["len_reportnums"], d["journals_matches"], d["publishers_matches"], p)
            info = dict(line=line, place=p, item=want[p:q], kind=kind)
            if rep.expect("place-returns", o[0] == "return", key="place-returns", got=repr(o), **info):
                t, e = o[1]
                rep.same("place", (t, t + (q - p) + e), (at[p], at[q]), key="place", **info)


def same_length(rep, rng, kbs):
    up, strip = rep.get(T + "upper_same_length"), rep.get(G + "strip_tags")
    for n in range(rep.n(400, 6000)):
        line = rstr(rng, 20, ALPHA + "xyz")
        if up:
            o = outcome(up, line)
            rep.same("upper", o, ("return", "".join(c.upper() if len(c.upper()) == 1 else c for c in line)), key="upper", line=line)
        if strip:
            line, want = "", ""
            for _ in range(rng.randrange(6)):
                x = rng.choice(["", rstr(rng, 6), "<cds.X", "</cds.ISBN>", "<b>", "_"])
                line, want = line + x, want + x
                x = rng.choice(["<cds.QUOTED>%s</cds.QUOTED>" % rstr(rng, 6), "<cds.DOI />", "<cds.URL />", "<cds.ISBN>123</cds.ISBN>"])
                line, want = line + x, want + "_" * len(x)
            want = want if "<cds" not in want else None
            o = outcome(strip, line)
            if want is not None:
                rep.same("strip-tags", o, ("return", want), key="strip-tags", line=line)
            rep.expect("strip-tags-length", o[0] == "return" and len(o[1]) == len(line), key="strip-tags-length", line=line, got=repr(o)[:300])
    pub, jou, rpt, ibi = (rep.get(G + x) for x in ("identify_publishers", "identify_journals", "identify_report_numbers", "identify_ibids"))
    for line in BASE + lines(rng, rep.n(60, 1000)):
        s = collapse(re.sub(r"[.,;'()\-]", " ", sp.upper(line)))[0]
        for f, spec, kb, i in ((pub, sp.publishers, kbs["publishers"], None), (jou, sp.journals, kbs["journals"], 1), (rpt, sp.reports, kbs["report-numbers"], 2), (ibi, sp.ibids, None, 1)):
            if f is None or rep.out_of_time():
                continue
            args = (s,) if kb is None else (s, kb)
            o, w = outcome(f, *args), outcome(spec, *args)
            if rep.same("identified", o, w, key="identified:" + spec.__name__, line=s) and i is not None:
                rep.expect("as-long", len(o[1][i]) == len(s), key="as-long:" + spec.__name__, line=s, got=o[1][i])


FILL = ["alpha", "beta", "straße", "gamma", "ŉdelta", "xyz", "omega", "kappa", "lambda", "théorie"]
GAP = [" ", "  ", ", ", "; ", " - ", "  .  ", ". ", "   ", ", , ", " : ", "\t ", " / "]
ITEMS = {
    "journal": [["Phys", "Rev", "D 12 (1999) 345"], ["Nucl", "Phys", "B 12 (1999) 345"], ["Phys", "Lett", "B 716 (2012) 1"], ["Phys", "Rev", "Lett", "13 (1964) 321"], ["JHEP", "01 (2003) 005"], ["DAN", "12 (1999) 34"], ["ibid", "B 12 (1999) 34"], ["Ibid.", "13 (1998) 77"]],
    "report": [["CERN-TH-99-123"], ["FERMILAB-Pub-99-123-E"], ["SLAC-PUB-1234"], ["DESY 98-001"]],
    "publisher": [["North", "Holland"], ["Kluwer", "Academic"], ["Springer"], ["World", "Scientific"], ["Elsevier"]],
}
INNER = [" ", " ", ". ", "  ", " .  ", ".", " - "]


def letters(s):
    return "".join(c for c in s if c.isalnum())


def whole(rep, rng, kbs):
    f = rep.get(G + "tag_reference_line")
    if not f:
        return
    for n in range(rep.n(350, 5000)):
        if rep.out_of_time():
            break
        line, fill = "", []
        for _ in range(rng.randrange(1, 5)):
            w = [rng.choice(FILL) for _ in range(rng.randrange(1, 3))]
            fill += w
            line += rng.choice(GAP).join(w) + rng.choice(GAP)
            kind = rng.choice(sorted(ITEMS))
            words = rng.choice(ITEMS[kind])
            inner = rng.choice(INNER) if kind != "publisher" else rng.choice([" ", " - ", "  ", "-", " -- "])
            if kind == "report" or words[0] == "DAN":
                inner = " "
            x = words[0]
            for wd in words[1:]:
                x += (inner if not wd[0].isdigit() and " " not in wd else " ") + wd
            line += x + rng.choice(GAP[:6])
        w = rng.choice(FILL)
        fill.append(w)
        line += w
        o = outcome(f, line, kbs, {})
        if not rep.expect("tag-returns", o[0] == "return", key="tag-returns", line=line, got=repr(o)):
            continue
        tagged = o[1][0]
        rest = re.sub(r"<cds\.(\w+)>.*?</cds\.\1>", " ", tagged)
        rep.expect("marks-closed", "cds." not in rest, key="marks-closed", line=line, tagged=tagged)
        # only what was recognised is cut out: the words between stay, complete, and nothing else does
        rep.same("words-stay", re.findall("|".join(FILL), tagged), fill, key="words-stay", line=line, tagged=tagged)
        for x in re.findall(r"\w+", rest):
            known = any(x in y for y in fill) or any(x in re.split(r"\W+", z) for k in ITEMS for it in ITEMS[k] for w_ in it for z in w_.split())
            rep.expect("nothing-cut-in-two", known, key="nothing-cut-in-two", line=line, tagged=tagged, word=x)
        rep.sample(dict(line=line, tagged=tagged))


EXACT = [
    # (line, field, values) found by hand: what surrounds an item, or was simplified inside of it, stays or goes as a whole
    ('"Some title"FERMILAB-Pub-99-123-E', "title", ["Some title"]),
    ("Phys. Rev. D 12, 345http://foo.org/bar", "url", ["http://foo.org/bar"]),
    ("J. Smith, Some book, North - Holland, 1999", "publisher", ["North-Holland"]),
    ("J. Smith, Some book, Kluwer Academic, 1999", "publisher", None),
    ('"DAN 12 (1999) 34"', None, None),
    ("Straße und Maß, Phys. Rev. D 12 (1999) 345, ß", "misc", ["Straße und Maß", "ß"]),
    ("ßßßßßß Nucl. Phys. B 12 (1999) 345 ßß FERMILAB-Pub-99-123-E ß", "reportnumber", ["FERMILAB-Pub-99-123-E"]),
    ("foo   bar ,  ,  ,  Phys .  Rev .  D  12  (1999)  345 . . . CERN - TH - 99 - 123", "journal_page", ["345"]),
]


def strings(o):
    if isinstance(o, dict):
        for v in o.values():
            yield from strings(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from strings(v)
    elif isinstance(o, str):
        yield o


def ends(rep, rng):
    f = rep.get("refextract.references.api:extract_references_from_string")
    if not f:
        return
    for line, field, want in EXACT:
        o = outcome(f, line, is_only_references=True)
        if not rep.expect("extract-returns", o[0] == "return", key="extract-returns", line=line, got=repr(o)[:300]):
            continue
        got = [x for r in o[1] for x in r.get(field, [])] if field else None
        if want is not None:
            rep.expect("exact", got == want, key="exact:" + line[:20], line=line, got=repr(o[1])[:900], want=want)
        if "Kluwer" in line:
            rep.same("one-reference", len(o[1]), 1, key="one-reference", line=line, refs=repr(o[1])[:600])
    for line in [e[0] for e in EXACT] + [x for x in BASE if "<cds" not in x] + lines(rng, rep.n(60, 1500)):
        if rep.out_of_time():
            break
        if "<cds" in line:
            continue
        o = outcome(f, line, is_only_references=True)
        if rep.expect("extract-returns", o[0] == "return", key="extract-returns", line=line, got=repr(o)[:300]):
            rep.expect("no-marks-reported", not any("cds." in s for s in strings(o[1])), key="no-marks-reported", line=line, got=repr(o[1])[:900])


def run(rep):
    rng = rep.rng
    from refextract.references.kbs import get_kbs
    kbs = get_kbs()
    spaces(rep, rng)
    ends(rep, rng)
    same_length(rep, rng, kbs)
    whole(rep, rng, kbs)
