import itertools
from harness.lib import *
import spec.s_record as sp

KEYS = {"JOURNAL": ("title", "volume", "year", "page"), "REPORTNUMBER": ("report_num",), "URL": ("url_string", "url_desc"), "DOI": ("doi_string",),
        "HDL": ("hdl_id",), "AUTH": ("auth_txt", "auth_type"), "QUOTED": ("title",), "ISBN": ("ISBN",), "BOOK": ("title",), "PUBLISHER": ("publisher",),
        "YEAR": ("year",), "COLLABORATION": ("collaboration",), "RECID": ("recid",), "MISC": (), "OTHER": ()}
MISC = ["", " ", "text", "., ", "]) text, [", "(a)", "; b", "..a..", "[see", "\u00e9", "x]", "}{", "and ref. [3]", "0", ";", " ;", "]x[", "((y))", "-"]
VAL = ["", " ", "x", "Phys. Rev.", "B", "12", "0", "\u00e9\u4e00", "a;b", "(2000)", "{title}", "%s", "http://a", "incl", "etal", "None", "  pad ", "doi:10.1/x", "hdl:1/2", "(x)"]


def el(rng, kind):
    e = {"type": kind, "misc_txt": rng.choice(MISC)}
    for k in KEYS[kind]:
        e[k] = rng.choice(VAL)
    if kind == "AUTH":
        e["auth_type"] = rng.choice(["incl", "stnd", "etal"])
    if kind == "RECID":
        e["recid"] = rng.choice([0, 1, 123, "7", "", None])
    if kind == "URL" and rng.random() < .5:
        e["url_desc"] = e["url_string"]
    if rng.random() < .3:
        e.setdefault(rng.choice(["is_ibid", "extra_ibids", "title", "publisher", "year"]), rng.choice(["zz", True, []]))
    return e


FMT = ["{title} {volume} ({year}) {page}", "{title},{volume},{page}", "{page}|{title}", "", "const", "{title}"]


def run(rep):
    rng = rep.rng
    real = rep.get("refextract.references.record:build_reference_fields")
    kinds = list(KEYS)
    if real:
        for kind in kinds:
            for m in MISC:
                for _ in range(rep.n(4, 20)):
                    e = el(rng, kind)
                    e["misc_txt"] = m
                    one(rep, real, ([e], rng.choice(["[1]", ""]), "raw", rng.choice(FMT)), "single:" + kind)
        for a, b in itertools.product(kinds, repeat=2):
            for _ in range(rep.n(3, 12)):
                one(rep, real, ([el(rng, a), el(rng, b)], "[2]", "raw " + a, rng.choice(FMT)), "pair")
        for _ in range(rep.n(1500, 20000)):
            n = rng.choice([0, 1, 3, 5, 12])
            one(rep, real, ([el(rng, rng.choice(kinds)) for _ in range(n)], rng.choice(["", "[1]", "(3)", "1.", " ", "[]", "{a}", "[12a] "]), rstr(rng), rng.choice(FMT)), "random")
    for n in ("add_subfield", "add_journal_subfield", "create_reference_field"):
        f = rep.get("refextract.references.record:" + n)
        if not f:
            continue
        for _ in range(rep.n(200, 2000)):
            field = {k: [rng.choice(VAL)] for k in rng.sample(["misc", "journal_title", "journal_year", "url", "linemarker"], rng.randrange(4))}
            if n == "add_subfield":
                compare(rep, n, f, getattr(sp, n), (field, rng.choice(["misc", "url", "x"]), rng.choice(VAL + [None])), frame=(0,), key=n)
            elif n == "add_journal_subfield":
                compare(rep, n, f, getattr(sp, n), (field, el(rng, "JOURNAL"), rng.choice(FMT)), frame=(0, 1), key=n)
            else:
                compare(rep, n, f, getattr(sp, n), (rng.choice(["", "[1]", "(2)", " [3] ", "4.", "., ", "{[()]}", "[a,]", ",", "[1],", "[Foo90] ", "\u00e9", rstr(rng)]),), key=n)
    pipeline(rep)


def one(rep, real, args, key):
    _, got = compare(rep, "fields", real, sp.build_reference_fields, args, frame=(0,), key=key)
    if got[0] != "return":
        return
    # independent postconditions
    f = got[1][0] if len(got[1]) == 1 else {}
    rep.expect("one-field", len(got[1]) == 1, key=key, got=repr(got)[:500])
    rep.expect("no-empty-field", all(isinstance(v, list) and v and (k == "raw_ref" or all(v)) for k, v in f.items()), key=key, got=repr(f)[:600], args=repr(args)[:600])
    els, fmt = args[0], args[3]
    count = {}

    def c(code, val):
        if val:
            count.setdefault(code, []).append(val)
    for e in els:
        t = e["type"]
        if t == "JOURNAL":
            for k in ("title", "volume", "year", "page"):
                c("journal_" + k, e.get(k))
            c("journal_reference", fmt.format(**e))
        for code, key2, kk, pre in (("REPORTNUMBER", "reportnumber", "report_num", ""), ("DOI", "doi", "doi_string", "doi:"), ("HDL", "hdl", "hdl_id", "hdl:"), ("QUOTED", "title", "title", ""),
                                    ("BOOK", "title", "title", ""), ("ISBN", "isbn", "ISBN", ""), ("PUBLISHER", "publisher", "publisher", ""), ("YEAR", "year", "year", ""),
                                    ("COLLABORATION", "collaboration", "collaboration", ""), ("URL", "url", "url_string", "")):
            if t == code:
                c(key2, pre + e[kk])
        if t == "URL" and e["url_desc"] != e["url_string"]:
            c("urldesc", e["url_desc"])
        if t == "AUTH":
            c("author", "(%s)" % e["auth_txt"] if e["auth_type"] == "incl" else e["auth_txt"])
        if t == "RECID":
            c("recid", str(e["recid"]))
    rest = {k: v for k, v in f.items() if k not in ("misc", "linemarker", "raw_ref")}
    rep.same("pieces", rest, count, key=key, args=repr(args)[:600])


LINES = ["[1] J. Smith and A. Jones, Phys. Rev. D 12 (1990) 123, arXiv:hep-th/9901001, doi:10.1103/PhysRevD.12.123.",
         "[2] A. Writer, \"A quoted title\", Nucl. Phys. B 3 (1991) 45; ibid. 5 (1993) 67 http://example.org/x",
         "[3] ATLAS Collaboration, Phys. Lett. B 716 (2012) 1, hdl:10.1016/2012.08",
         "[4] C. Kittel, Introduction to Solid State Physics, Wiley, 1996, ISBN 0-471-11181-3",
         "[5] E. Witten, JHEP 9807 (1998) 006 (with B. Other), CERN-TH/98-12 (1998)",
         "plain text only", "[6] ", "[7] <a href=\"http://u.org/1\">desc here</a> Phys. Rev. Lett. 1 (1950) 2", "[8] (H. Nobody) J. Phys. A 4, 22, 1999; Z. Phys. C 1 (1980) 2; hep-ph/0101010"]


def pipeline(rep):
    """the elements the engine builds have the keys of their kind (assumption of the proof), and what is built is what is reported"""
    import refextract.references.record as rec
    eng = rep.get("refextract.references.engine:parse_references")
    real = rep.get("refextract.references.record:build_reference_fields")
    if not eng or not real:
        return
    seen = []

    def wrap(els, marker, raw, fmt):
        r = real(els, marker, raw, fmt)
        seen.append(([dict(e) for e in els], marker, raw, fmt, [dict(x) for x in r]))
        return r
    for fmt in FMT[:3]:
        del seen[:]
        with patched((rec, "build_reference_fields", wrap)):
            o = outcome(eng, list(LINES), reference_format=fmt, _limit=60)
        if not rep.expect("pipeline", o[0] == "return", key="pipeline", got=repr(o)[:500]):
            continue
        for els, marker, raw, f, r in seen:
            rep.same("pipeline-format", f, fmt, key="fmt")
            for e in els:
                rep.expect("element-keys", all(k in e for k in KEYS.get(e["type"], ())) and "misc_txt" in e, key=e["type"], element=repr(e)[:400])
        rep.same("pipeline-result", o[1][0], [x for s in seen for x in s[4]], key="result") if seen else None
