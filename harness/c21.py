import copy
import itertools
import re
from harness.lib import *
import spec.s_complete as sp

E = "refextract.references.engine:"
TEXTS = ["", "in 1999", "(1999)", "[ 2001 ]", "CERN 1999-12", "11999", "19990 and 1999", "2001, 1999", "1899", "no year", "x (2001) y 1999", "\u0661\u0669\u0669\u0669", "19992001", "year1987b"]
NUMS = ["12 (1999) 34", "B 12 (1999) 34", "12, 34 (1999)", "D12 (1999) 34-40", "12 (1999) 34 and more", "see 12 (1999) 34", "", "12", "A 5 (2001) L7;"]
KINDS = ["MISC", "MISC", "AUTH", "JOURNAL", "BOOK", "REPORTNUMBER", "DOI", "URL", "YEAR", "ISBN", "QUOTED"]


def make(rng, kind, text, i):
    e = {"type": kind, "misc_txt": text, "id": i}
    if kind == "JOURNAL":
        e.update(title=rng.choice(["T", "Phys. Rev."]), volume=rng.choice(["B12", "12", "D 3", ""]), page="2", year=rng.choice(["1999", "2001", "", None]))
    if kind == "BOOK":
        if rng.random() < .7:
            e.update(year=rng.choice(["1999", "2001", "", None]))
        e.update(title="Bk", authors="X")
    if kind == "YEAR":
        e.update(year=rng.choice(["1999", "1950"]))
    if kind == "AUTH":
        e.update(auth_txt="A. Bcd", auth_type="stnd")
    return e


def citations(rng, texts):
    i = itertools.count()
    return [[make(rng, rng.choice(KINDS), rng.choice(texts), next(i)) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))] for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]


def digits(t):
    return re.findall(r"\d+", t)


def years(rep, rng, f):
    for _ in range(rep.n(6000, 60000)):
        cits = citations(rng, TEXTS)
        got = copy.deepcopy(cits)
        o = outcome(f, got)
        if not rep.expect("years-returns", o[0] == "return", key="years", citations=repr(cits)[:900], got=repr(o)[:300]):
            continue
        rep.same("years", got, sp.add_year_elements(copy.deepcopy(cits)), key="years", citations=repr(cits)[:900])
        if not rep.expect("years-shape", len(got) == len(cits) and all(len(g) in (len(c), len(c) + 1) for g, c in zip(got, cits)), key="years", citations=repr(cits)[:900], got=repr(got)[:900]):
            continue
        for c, g in zip(cits, got):
            info = dict(citation=repr(c)[:900], result=repr(g)[:900])
            # the statement itself
            dated = [e for e in c if e["type"] == "JOURNAL" or e["type"] == "BOOK" and "year" in e]
            in_text = [re.findall(r"(?<!\d)(?:19|20)\d\d(?!\d)", e["misc_txt"]) for e in c]
            in_text = [y[0] for y in in_text if y]
            want = (dated[0]["year"] if dated else None) or (in_text[-1] if in_text else None)
            rep.expect("year", (len(g) > len(c)) == bool(want) and (not want or {k: v for k, v in g[-1].items()} == {"type": "YEAR", "year": want, "misc_txt": ""}), key="year", want=want, **info)
            for a, b in zip(c, g):
                rep.expect("year-only", {k: v for k, v in a.items() if k != "misc_txt"} == {k: v for k, v in b.items() if k != "misc_txt"}, key="year-only", **info)
                rest = [d for d in digits(a["misc_txt"]) if d != want]
                rep.expect("other-numbers-stay", "".join(digits(b["misc_txt"])) == "".join(rest), key="numbers", want=want, text=a["misc_txt"], left=b["misc_txt"])
                letters = lambda t: re.sub(r"[\W\d_]", "", t)
                rep.expect("words-stay", letters(a["misc_txt"]) == letters(b["misc_txt"]), key="words", text=a["misc_txt"], left=b["misc_txt"])


def ibids(rep, rng, f):
    for _ in range(rep.n(4000, 40000)):
        cits = citations(rng, NUMS)
        got = copy.deepcopy(cits)
        o = outcome(f, got)
        if not rep.expect("ibids-returns", o[0] == "return", key="ibids", citations=repr(cits)[:900], got=repr(o)[:300]):
            continue
        info = dict(citations=repr(cits)[:1200], got=repr(got)[:1200])
        rep.same("ibids", got, sp.look_for_implied_ibids(copy.deepcopy(cits)), key="ibids", citations=repr(cits)[:900])
        before = None
        for c, g in zip(cits, got):
            new = g[len(c):]
            own = any(e["type"] == "JOURNAL" for e in c)
            rep.expect("ibid-needs-journal-before", not new or before is not None and not own, key="before", **info)
            rep.expect("ibid-title", all(e["title"] == before["title"] and e["type"] == "JOURNAL" and e["is_ibid"] is True for e in new if before), key="title", **info)
            cut = [a["misc_txt"] for a, b in zip(c, g) if a["misc_txt"] != b["misc_txt"]]
            rep.expect("ibid-one-each", len(cut) == len(new) and all(a["type"] == "MISC" for a, b in zip(c, g) if a != b), key="each", **info)
            rep.expect("ibid-suffix", all(a["misc_txt"].endswith(b["misc_txt"]) for a, b in zip(c, g)), key="suffix", **info)
            before = None
            for e in g:
                if e["type"] == "JOURNAL":
                    before = e
    # known forms
    for text, vol, page, year, rest in [("12 (1999) 34", "12", "34", "1999", ""), ("B 12 (1999) 34 and more", "B12", "34", "1999", " and more")]:
        for jvol, series in (("77", ""), ("B77", "B")):
            c = [[{"type": "JOURNAL", "misc_txt": "", "title": "T", "volume": jvol, "page": "1", "year": "1998"}], [{"type": "MISC", "misc_txt": text}]]
            o = outcome(f, c)
            v = vol if vol[0].isalpha() else series + vol
            rep.expect("ibid-known", o[0] == "return" and len(c[1]) == 2 and (c[1][1]["volume"], c[1][1]["page"], c[1][1]["year"]) == (v, page, year) and c[1][0]["misc_txt"].strip() == rest.strip(), key="known", text=text, journal_volume=jvol, got=repr(c)[:600])


BOOKS = {"FIELD THEORY": ["Smith", "Field Theory", "1999"], "THE QUANTUM WORLD": ["Meyer", "The Quantum World", "2001;"], "\u0424\u0418\u0417\u0418\u041a\u0410": ["Landau", "\u0424\u0438\u0437\u0438\u043a\u0430", "1999"], "STRASSE 7": ["Gro\u00df", "Stra\u00dfe 7", "1999"], "A-B": ["Xylo", "A-B", "2001"], "C": ["Yolanda", "C", "1950"]}
BTEXT = ["Smith, Field Theory, CERN", "the quantum  world", "stra\u00dfe 7, Berlin", "\u00df\u00df Field - Theory (Bonn) \u00df", "a b x", "nothing", "", "field", "FieldTheory", "see Field Theory.", "\u0444\u0438\u0437\u0438\u043a\u0430 12", "\ufb01eld theory"]


def clean(t):
    return "".join(x for x in t.upper() if re.match("[A-Z0-9]", x))


def books(rep, rng, f):
    for _ in range(rep.n(4000, 40000)):
        cits = citations(rng, BTEXT)
        for c in cits:
            if rng.random() < .6:
                c[:] = [e for e in c if e["type"] not in ("JOURNAL", "BOOK", "DOI", "ISBN")]
            if rng.random() < .7:
                c.append({"type": "YEAR", "misc_txt": "", "year": rng.choice(["1999", "2001", "1950"])})
        got = copy.deepcopy(cits)
        o = outcome(f, got, {"books": copy.deepcopy(BOOKS)})
        if not rep.expect("books-returns", o[0] == "return", key="books", citations=repr(cits)[:900], got=repr(o)[:300]):
            continue
        for c, g in zip(cits, got):
            info = dict(citation=repr(c)[:900], result=repr(g)[:900])
            known = any(e["type"] in ("BOOK", "JOURNAL", "DOI", "ISBN", "RECID") for e in c)
            year = next((e["year"] for e in c if e["type"] == "YEAR"), None)
            hits = [] if known else [(e, b) for e in c for b in BOOKS if clean(b) and clean(b) in clean(e["misc_txt"]) and BOOKS[b][2].strip(";") == year]
            if not rep.expect("book-found", len(g) == len(c) + bool(hits), key="found", **info):
                continue
            cut = None
            if hits:
                cut, b = hits[0]
                rep.same("book", g[-1], {"type": "BOOK", "misc_txt": "", "authors": BOOKS[b][0], "title": BOOKS[b][1], "year": BOOKS[b][2].strip(";")}, key="book", **info)
            for a, z in zip(c, g):
                if a is cut:
                    rep.expect("book-other-fields", dict(a, misc_txt="") == dict(z, misc_txt=""), key="fields", **info)
                    rep.expect("book-cut", isinstance(z["misc_txt"], str) and clean(z["misc_txt"]) == clean(a["misc_txt"]).replace(clean(b), "", 1), key="cut", title=b, **info)
                else:
                    rep.same("book-rest", z, a, key="rest", **info)


def run(rep):
    rng = rep.rng
    for name, g in (("add_year_elements", years), ("look_for_implied_ibids", ibids), ("look_for_undetected_books", books)):
        f = rep.get(E + name)
        if f:
            g(rep, rng, f)
    end_to_end(rep)


def end_to_end(rep):
    f = rep.get("refextract.references.api:extract_references_from_string")
    if not f:
        return
    for line, field, want in [
        ("[1] J. Smith, Phys. Rev. D 12 (1999) 345; D 13 (2000) 77", "journal_reference", ["Phys. Rev. D 12 (1999) 345"]),
        ("[1] J. Smith, private note 1999", "year", ["1999"]),
        ("[1] J. Smith, internal note 1999, number 1999012", "misc", None),
    ]:
        o = outcome(f, line, is_only_references=True, _limit=60)
        if rep.expect("e2e-returns", o[0] == "return", key="e2e", line=line, got=repr(o)[:300]):
            got = [x for r in o[1] for x in r.get(field, [])]
            if field == "misc":
                rep.expect("e2e-number", "1999012" in " ".join(got), key="e2e-number", line=line, got=repr(o[1])[:600])
            elif field == "year":
                rep.expect("e2e-year", got == want, key="e2e-year", line=line, got=repr(o[1])[:600])
            else:
                rep.expect("e2e-journal", got[:1] == want, key="e2e-journal", line=line, got=repr(o[1])[:600])
