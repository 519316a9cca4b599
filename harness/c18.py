import copy
import itertools
import re
from harness.lib import *
import spec.s_norm as sp

E = "refextract.references.engine:"
TYPES = ["JOURNAL", "REPORTNUMBER", "AUTH", "URL", "QUOTED", "MISC", "DOI", "BOOK", "COLLABORATION"]
VOL = ["", "1", "01", "12", "100", "100B", "B100", "b12", "B", "12b", "xii", "XIV", "XXXIX", "IV", "iX", "7", "99", "A12-13", "12-13", "5A6", "3\u00e9", "\u0661\u0662", "0", "00", "1997"]
PAGE = ["", "1", "12", "123", "1234", "1999", "2005", "1850", "012", "L12", "\u00b234", "\u0663", "0001", "19991"]
YEAR = ["", "1999", "2005", "98", "7"]
TITLE = ["JHEP", "JCAP", "Phys.Rev.", "Phys.Rev.;D", "Nucl.Phys.Proc.Suppl.", "A;B;C", ";", "Nucl.Phys.;", "nucl.phys.proc.suppl."]
REP = ["CERN-LHCC2003-01", "CERN-LHCC-2003-01", "SLAC-PUB-1", "ABC1", "ABC-1", "A-B12-", "abc1", "hep-th-9711200", "hep-th/9711200", "hep-ph-1", "astro-ph-9", "math-ph-",
       "hep-lat-hep-th-1", "xhep-th-1", "hep-ex-", "", "ABC", "123", "ABC12x", "math-ph-hep-th-2", "arXiv:1234.5678"]
AUTH = ["A. B", "A. B (ed. )", "A (eds. ) and B (ed. )", "(ed. )(ed. )", "(ed.)", "", "(Ed. )"]
URLS = ["http://arxiv.org/abs/hep-th/9711200", "http://arxiv.org/abs/", "https://arxiv.org/abs/1", "http://x.org/?u=http://arxiv.org/abs/1", "http://arxiv.org/abs/http://arxiv.org/abs/2",
        "http://hdl.handle.net/2027.42/1", "https://hdl.handle.net/1/2", "hdl:1/2", "http://hdl.handle.net/1", "http://www.hdl.handle.net/1/2", ""]
MISC = ["", "see", "hdl:2027.42/97915", "a HDL:1/2 b hdl:3/4 c", "hdl:1", "http://hdl.handle.net/5/6, and", "hdl:7/8 "]
BOOKS = {"SOME BOOK": ("Auth", "Some book", "1999;"), "": ("n", "e", ""), "STRASSE": ("x", "Stra\u00dfe", ";;2001;")}


def pick(rng, xs):
    """a listed value, or two of them run together"""
    a = rng.choice(xs)
    return a + rng.choice(["", "-", ";", " "]) + rng.choice(xs) if rng.random() < .25 else a


def element(rng):
    t = rng.choice(TYPES)
    e = {"type": t, "misc_txt": pick(rng, MISC), "i": rng.randrange(1000)}
    if t == "JOURNAL":
        e.update(title=pick(rng, TITLE), volume=pick(rng, VOL), page=pick(rng, PAGE), year=rng.choice(YEAR), is_ibid=False, page_end=rng.choice([None, "13"]))
    elif t == "REPORTNUMBER":
        e.update(report_num=pick(rng, REP))
    elif t == "AUTH":
        e.update(auth_txt=pick(rng, AUTH), auth_type="stnd")
    elif t == "URL":
        u = pick(rng, URLS)
        e.update(url_string=u, url_desc=rng.choice([u, "desc"]))
    elif t == "QUOTED":
        e.update(title=rng.choice(["Some Book", "some book", "Other", "", "stra\u00dfe", "STRASSE"]))
    elif t == "BOOK":
        e.update(title="T", volume="XII", year="x", authors="(ed. )")
    elif t == "DOI":
        e.update(doi_string="10.1/hep-th-1")
    elif t == "COLLABORATION":
        e.update(collaboration="C")
    if rng.random() < .3:
        # fields of another kind must stay as they are
        for k, v in (("volume", "XII"), ("report_num", "hep-th-1"), ("auth_txt", "(ed. )"), ("title", "a;b"), ("page", "1")):
            if k not in e and rng.random() < .3:
                e[k] = v
    return e


RULES = ["format_volume", "format_report_number", "format_hep", "format_author_ed", "split_volume_from_journal", "remove_b_for_nucl_phys", "mangle_volume",
         "arxiv_urls_to_report_numbers", "look_for_hdl_urls", "look_for_hdl"]


def hdl_spec(els):
    """each handle in the text in front of an element becomes an element right behind the text before it"""
    out = []
    for el in els:
        txt = el["misc_txt"]
        ms = list(re.finditer(r"([hH][dD][lL]:|https?://hdl\.handle\.net/)(?P<h>\S+/\S+)", txt))
        el["misc_txt"] = txt[:ms[0].start()] if ms else txt
        out.append(el)
        for i, m in enumerate(ms):
            out.append({"type": "HDL", "hdl_id": m.group("h"), "misc_txt": txt[m.end():ms[i + 1].start() if i + 1 < len(ms) else None]})
    els[:] = out


def expand(n):
    s = ""
    for v, r in ((10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")):
        while n >= v:
            s, n = s + r, n - v
    return s


def run(rep):
    rng = rep.rng
    f = rep.get(E + "roman2arabic")
    if f:
        for n in range(1, 90):
            rep.same("roman", outcome(f, expand(n)), ("return", n), key="roman", numeral=expand(n))
    fv = rep.get(E + "format_volume")
    if fv:
        for n in range(1, 90):
            for s in (expand(n), expand(n).lower(), expand(n).capitalize()):
                els = [{"type": "JOURNAL", "volume": s, "title": "T", "misc_txt": ""}]
                o = outcome(fv, els)
                rep.same("roman-volume", (o[0], els), ("return", [{"type": "JOURNAL", "volume": str(n), "title": "T", "misc_txt": ""}]), key="roman-volume", numeral=s)
    kbs = {"special_journals": {"JHEP": True, "JCAP": True}, "books": BOOKS}
    fs = [(n, rep.get(E + n)) for n in RULES]
    special, books = rep.get(E + "handle_special_journals"), rep.get(E + "look_for_books")
    fs = [(n, f) for n, f in fs if f]
    for _ in range(rep.n(4000, 40000)):
        els = [element(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if len(els) > 1 and rng.random() < .2:
            els.append(copy.deepcopy(els[0]))
        for name, f in fs:
            s = hdl_spec if name == "look_for_hdl" else getattr(sp, name)
            ok(rep, name, f, s, (els,))
        if special:
            ok(rep, "handle_special_journals", special, sp.handle_special_journals, (els, kbs))
        if books:
            ok(rep, "look_for_books", books, sp.look_for_books, (els, kbs))
        if rep.out_of_time():
            break
    # every combination for the special journals
    if special:
        for t, v, p, y in itertools.product(["JHEP", "Phys.Rev."], VOL, PAGE, YEAR):
            ok(rep, "special-all", special, sp.handle_special_journals, ([{"type": "JOURNAL", "title": t, "volume": v, "page": p, "year": y, "misc_txt": "m"}], kbs))
    end_to_end(rep)


def ok(rep, name, f, s, args):
    a, b = copy.deepcopy(args), copy.deepcopy(args)
    o, w = outcome(f, *a), outcome(s, *b)
    rep.same(name, (o[0] if o[0] == "return" else o, a[0]), (w[0] if w[0] == "return" else w, b[0]), key=name, elements=repr(args[0])[:600])


def end_to_end(rep):
    pr = rep.get("refextract.references.engine:parse_references")
    if not pr:
        return
    def j(line, **k):
        o = outcome(pr, [line], **k, reference_format="{title},{volume},{page}", _limit=60)
        return o[1][0][0].get("journal_reference") if o[0] == "return" and o[1][0] else o
    for n in (1, 4, 9, 14, 19, 24, 29, 38):
        rep.same("e2e-roman", j("[1] A. Author, Phys. Rev. %s (1999) 34" % expand(n)), j("[1] A. Author, Phys. Rev. %d (1999) 34" % n), key="e2e-roman", numeral=expand(n))
    for v in (12, 100, 45):
        rep.same("e2e-letter", j("[1] A. Author, Phys. Lett. %dB (1981) 117" % v), j("[1] A. Author, Phys. Lett. B%d (1981) 117" % v), key="e2e-letter", volume=v)
    for m, y, p in ((1, "2003", "1"), (12, "1999", "23"), (5, "2010", "123")):
        rep.same("e2e-jhep", j("[1] A. Author, JHEP %02d (%s) %s" % (m, y, p), override_kbs_files={"journals": {"JHEP": "JHEP"}}), ["JHEP,%s%02d,%03d" % (y[-2:], m, int(p))], key="e2e-jhep")
    for c in ("hep-th", "hep-ph", "astro-ph", "hep-lat", "hep-ex"):
        o = outcome(pr, ["[1] A. Author, %s-9711200" % c], _limit=60)
        rep.expect("e2e-hep", o[0] == "return" and any("%s/9711200" % c in x for r in o[1][0] for x in r.get("reportnumber", [])), key="e2e-hep", got=repr(o)[:400])
