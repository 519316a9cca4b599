import copy
import re
from harness.lib import *
from harness.corpus import lines as mklines
import spec.s_marks as sp

E = "refextract.references.engine:"
KINDS = ["JOURNAL", "JOURNALibid", "VOL", "YR", "PG", "REPORTNUMBER", "ARXIV", "SER", "QUOTED", "ISBN", "PUBLISHER", "COLLABORATION", "AUTHstnd", "AUTHetal", "AUTHincl"]
TEXTS = ["", " ", "A. Author", "Phys. Rev.", ", ", ".; ", "D", "12", "hep-th/9901001", " and ", "\u00dfx\u2212", "%s % \\1 {0}", "9783161484100", "<cds.", "</cds", "<b>", " see also ", "J. High Energy Phys.", "et al.", "(1999)", "CERN-TH-99-1", ";", " ibid. "]
NUM = [" <cds.VOL>%s</cds.VOL> <cds.YR>(%s)</cds.YR> <cds.PG>%s</cds.PG>", " <cds.VOL>%s</cds.VOL>%.0s <cds.PG>%s</cds.PG>", ", <cds.SER>D</cds.SER> <cds.VOL>%s</cds.VOL> <cds.YR>(%s)</cds.YR> <cds.PG>%s</cds.PG>",
       ". : <cds.SER>III</cds.SER> : <cds.VOL>%s</cds.VOL>  <cds.YR>(%s)</cds.YR>  <cds.PG>%s</cds.PG>", " Ser. <cds.SER>A</cds.SER> <cds.VOL>%s</cds.VOL>%.0s <cds.PG>%s</cds.PG>"]
MORE = ["; <cds.VOL>%s</cds.VOL> <cds.YR>(%s)</cds.YR> <cds.PG>%s</cds.PG>", " and B <cds.VOL>%s</cds.VOL> <cds.YR>(%s)</cds.YR> <cds.PG>%s</cds.PG>", " ; C : <cds.VOL>%s</cds.VOL> <cds.YR>(%s)</cds.YR> <cds.PG>%s</cds.PG>"]
URLS = [("http://a.org/x", "http://a.org/x"), ("https://b.org", "a text"), ("ftp://c.ch/%20", ""), ("http://a.org/x", "other")]
DOIS = ["10.1103/PhysRevD.1.2", "10.1007/ab", "10.1103/PhysRevD.1.2", "10.1/%s"]


def piece(rng, depth=0):
    r = rng.random()
    if r < 0.2:
        return rng.choice(["<cds.URL />", "<cds.DOI />"])
    k = rng.choice(KINDS)
    if r < 0.4:
        k = "JOURNALibid" if rng.random() < 0.3 else "JOURNAL"
    inner = rng.choice(TEXTS)
    if depth < 2 and rng.random() < 0.12:
        inner += piece(rng, depth + 1) + rng.choice(TEXTS)
    open_, close = "<cds.%s>" % k, "</cds.%s>" % k
    q = rng.random()
    if q < 0.08:
        close = ""
    elif q < 0.12:
        close = "</cds.%s>" % rng.choice(KINDS)
    elif q < 0.15:
        open_ = rng.choice(["", "<cds.%s >" % k, "<cds." + k])
    s = open_ + inner + close
    if k.startswith("JOURNAL") and rng.random() < 0.75:
        nums = lambda: (rng.choice(["1", "12", "3-4", "123"]), rng.choice(["1999", "2010"]), rng.choice(["1", "L55", "345c", "7"]))
        s += rng.choice(["", "", "", " x "]) + rng.choice(NUM) % nums()
        while rng.random() < 0.3:
            s += rng.choice(MORE) % nums()
    return s


def run(rep):
    rng = rep.rng
    f = rep.get(E + "parse_tagged_reference_line")
    g = rep.get(E + "map_tag_to_subfield")
    h = rep.get(E + "convert_unusable_tag_to_misc")
    if f:
        cases = [t for t in TEXTS]
        for k in KINDS + ["URL", "DOI"]:
            for t in ("", "text", " a <cds.VOL>1</cds.VOL> b"):
                for a in ("", "before "):
                    cases += [a + "<cds.%s>%s</cds.%s> after" % (k, t, k), a + "<cds.%s>%s after" % (k, t), a + "%s</cds.%s> after" % (t, k), a + "<cds.%s />%s" % (k, t), a + "<cds.%s>%s</cds.%s>" % (k, t, k) * 2, "<cds.%s>%s" % (k, a) * 3 + "</cds.%s>" % k]
        for n in NUM:
            for m in [""] + MORE:
                for i in ("", "ibid"):
                    for s in ("", " and more", ". "):
                        cases.append("X, <cds.JOURNAL%s>Phys. Rev.</cds.JOURNAL%s>" % (i, i) + n % ("1", "1999", "2") + (m and m % ("3", "2001", "4")) + s)
        for c in cases:
            for u in (0, 1, 3):
                one(rep, f, c, DOIS[:u], URLS[:u])
        for _ in range(rep.n(6000, 80000)):
            if rep.out_of_time():
                break
            parts = []
            for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6, 10])):
                parts += [rng.choice(TEXTS), piece(rng)]
            line = "".join(parts) + rng.choice(TEXTS)
            if rng.random() < 0.03:
                at = rng.randrange(len(line) + 1)
                line = line[:at] + line[at + rng.choice([1, 2, 5]):]
            one(rep, f, line, [rng.choice(DOIS) for _ in range(rng.choice([0, 1, 2, 5]))], [rng.choice(URLS) for _ in range(rng.choice([0, 1, 2, 5]))])
        for line in mklines(rng, rep.n(200, 2000)):
            one(rep, f, line, [], [])
            whole(rep, f, line)
    for _ in range(rep.n(1500, 20000)):
        k = rng.choice(KINDS + ["", "DOI"])
        line = "".join(rng.choice(TEXTS) + rng.choice(["", "</cds.%s>" % k, "<cds.%s>" % k, "</cds.VOL>"]) for _ in range(rng.choice([1, 2, 3])))
        text = rng.choice(TEXTS)
        if g:
            rep.same("enclosed-text", outcome(g, k, line, text, "dest"), outcome(sp.subfield, k, line, text, "dest"), key="subfield", tag_type=k, line=line, cur_misc_txt=text)
        if h:
            at = rng.randrange(len(line) + 2)
            rep.same("unusable-mark", outcome(h, line, text, at, "</cds.%s>" % k), outcome(sp.unusable, line, text, at, "</cds.%s>" % k), key="unusable", line=line, misc_text=text, tag_match_end=at, closing_tag="</cds.%s>" % k)


MARK = re.compile(r"</cds\.(?:%s)>|<cds\.(?:%s)(?:\s/)?>" % (("|".join(KINDS + ["URL", "DOI"]),) * 2))
ORDER = ("title", "ISBN", "publisher", "collaboration", "volume", "year", "page", "report_num", "auth_txt")


def words(t):
    return "".join(c for c in MARK.sub("", t) if c.isalnum())


def one(rep, f, line, dois, urls):
    d1, u1, d2, u2 = list(dois), list(urls), list(dois), list(urls)
    got = outcome(f, "[1]", line, d1, u1)
    want = outcome(sp.interpret, "[1]", line, d2, u2)
    rep.same("meaning", (got, d1, u1), (want, d2, u2), key="meaning", line=line, identified_dois=dois, identified_urls=urls)
    if got[0] != "return" or "Ser." in line or "and" in line:
        return
    elements = got[1][0]
    text = ""
    for e in elements:
        text += e["misc_txt"]
        for k in ORDER:
            text += e.get(k) or ""
        for x in e.get("extra_ibids") or []:
            text += "".join(x.get(k) or "" for k in ("volume", "year", "page"))
    rep.expect("text", words(text) == words(line), key="text", line=line, text=text)
    rep.expect("placeholders", [e["doi_string"] for e in elements if e["type"] == "DOI"] + d1 == dois and [(e["url_string"], e["url_desc"]) for e in elements if e["type"] == "URL"] + u1 == urls, key="placeholders", line=line, identified_dois=dois, identified_urls=urls)


def whole(rep, f, line):
    """lines as the extractor marks them up"""
    from refextract.references.engine import get_kbs
    from refextract.references.tag import tag_reference_line, identify_and_tag_DOI, identify_and_tag_URLs
    try:
        kbs = get_kbs()
        l2, dois = identify_and_tag_DOI(line)
        l3, urls = identify_and_tag_URLs(l2)
        tagged = tag_reference_line(l3, kbs, {})[0]
    except Exception:
        return
    d1, u1, d2, u2 = list(dois), list(urls), list(dois), list(urls)
    rep.same("meaning", (outcome(f, "", tagged, d1, u1), d1, u1), (outcome(sp.interpret, "", tagged, d2, u2), d2, u2), key="tagged-line", line=tagged, identified_dois=dois, identified_urls=urls)
