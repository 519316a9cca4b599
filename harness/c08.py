import itertools
from urllib.parse import unquote
from harness.lib import *
from harness.corpus import lines as mklines

G = "refextract.references.tag:"
DOIS = [("10.1103/PhysRevD.1.2",) * 2, ("DOI:10.1007/s100520050001",) + ("10.1007/s100520050001",), ("doi: 10.1016/0550-3213(94)90179-1", "10.1016/0550-3213(94)90179-1"), ("(doi) 10.1234/a_b:c;d/e", "10.1234/a_b:c;d/e"),
        ("http://dx.doi.org/10.1088/1126-6708/2005/06/001", "10.1088/1126-6708/2005/06/001"), ("https://doi.org/10.1234.56.x/zz", "10.1234.56.x/zz"), ("10.1103%2FPhysRevLett.1", "10.1103/PhysRevLett.1"), ("doi:10.1103%2fab", "10.1103/ab"),
        ("10.1234567/ab", "10.1234567/ab")]
URLS = ["http://arxiv.org", "https://inspirehep.net/literature/12_3?x=1&y=%20~z", "ftp://ftp.cern.ch/pub/file.ps", "http://localhost:8080/a/b/", "https://a-b.c.org/d.e", "HTTP://X.ORG/Y"]
URLFORMS = ([(u, u, u) for u in URLS] + [(u + ".", u, u) for u in URLS if not u.endswith("/")] + [('"%s"' % u, u, u) for u in URLS[:3]] + [("'%s" % u, u, u) for u in URLS[:2]]
            + [('<a href="%s">%s</a>' % (u, d), u, d) for u, d in zip(URLS, ["the text", "x", " a, b. ", "http://other.org/p", "(2001)", "10"])] + [("<A  HREF = '%s' >%s</a>" % (URLS[0], "D"), URLS[0], "D")])
GLUE = [" ", ", ", " and ", "\t", " Phys. Rev. D 12 (1999) 345; ", " \u00df\u2212 ", "  ", " see <b> ", " % _ ___ ", " [2] ", " \\1 ", " <cds "]


def run(rep):
    rng = rep.rng
    f = rep.get(G + "identify_and_tag_DOI")
    g = rep.get(G + "identify_and_tag_URLs")
    for fn, forms, tag in ((f, [(t, n) for t, n in DOIS], "<cds.DOI />"), (g, [(t, (u, d)) for t, u, d in URLFORMS], "<cds.URL />")):
        if not fn:
            continue
        for n in (0, 1, 2):
            for combo in itertools.product(forms, repeat=n):
                for glue in (GLUE if n < 2 else rng.sample(GLUE, 3)):
                    one(rep, fn, combo, [glue] * (n + 1), tag)
                    if n:
                        one(rep, fn, combo, [""] + [glue] * (n - 1) + [""], tag)
        for _ in range(rep.n(1500, 20000)):
            combo = [rng.choice(forms) for _ in range(rng.choice([1, 2, 3, 4, 6, 12]))]
            if rng.random() < 0.3:
                combo = combo[:1] * 3 + combo
            one(rep, fn, combo, [rng.choice(GLUE) for _ in range(len(combo) + 1)], tag)
    if f:
        from refextract.references.regexs import re_doi
        for line in texts(rep):
            want, out, pos = [], "", 0
            for m in re_doi.finditer(line):
                d = m.group("doi")
                want.append(unquote(d) if "%2f" in d.lower() else d)
                out += line[pos:m.start()] + "<cds.DOI />"
                pos = m.end()
            rep.same("any-line", outcome(f, line), ("return", (out + line[pos:], want)), key="doi-any", line=line)
    if g:
        from refextract.references.regexs import re_html_tagged_url, re_raw_url
        for line in texts(rep):
            spans = [(m.start(), m.end(), m.group("url"), m.group("desc")) for m in re_html_tagged_url.finditer(line)]
            free = list(line)
            for b, e, _, _ in spans:
                free[b:e] = "\n" * (e - b)
            for m in re_raw_url.finditer("".join(free)):
                u = m.group("url")
                u = u[:-1] if u.endswith((".", ",")) else u
                spans.append((m.start(), m.end(), u, u))
            spans.sort()
            out, pos = "", 0
            for b, e, _, _ in spans:
                out += line[pos:b] + "<cds.URL />"
                pos = e
            rep.same("any-line", outcome(g, line), ("return", (out + line[pos:], [(u, d) for _, _, u, d in spans])), key="url-any", line=line)
    if f and g:
        both(rep, f, g)


def texts(rep):
    rng = rep.rng
    for line in mklines(rng, rep.n(200, 2000)):
        yield line
    bits = [t for t, _ in DOIS] + [t for t, _, _ in URLFORMS] + GLUE + ["10.", "/", "http", "://", "<a href=\"", "\">", "</a>", "x", ".", ")", ";", "_", "doi", "%2f", "", "9"]
    for _ in range(rep.n(3000, 40000)):
        if rep.out_of_time():
            return
        yield "".join(rng.choice(bits) for _ in range(rng.choice([1, 2, 3, 5, 8])))


def one(rep, fn, combo, glue, tag):
    line = glue[0] + "".join(t + s for (t, _), s in zip(combo, glue[1:]))
    want = glue[0] + "".join(tag + s for _, s in zip(combo, glue[1:]))
    rep.same("known-forms", outcome(fn, line), ("return", (want, [n for _, n in combo])), key=tag, line=line)


def both(rep, f, g):
    """DOIs first, then URLs, as for a reference"""
    rng = rep.rng
    forms = [("D", t, n) for t, n in DOIS] + [("U", t, (u, d)) for t, u, d in URLFORMS]
    for _ in range(rep.n(500, 5000)):
        combo = [rng.choice(forms) for _ in range(rng.choice([1, 2, 4, 7]))]
        glue = [rng.choice(GLUE) for _ in range(len(combo) + 1)]
        line = glue[0] + "".join(t + s for (_, t, _), s in zip(combo, glue[1:]))
        want = glue[0] + "".join(("<cds.DOI />" if k == "D" else "<cds.URL />") + s for (k, _, _), s in zip(combo, glue[1:]))

        def go(line):
            a, dois = f(line)
            b, urls = g(a)
            return b, dois, urls
        rep.same("together", outcome(go, line), ("return", (want, [n for k, _, n in combo if k == "D"], [n for k, _, n in combo if k == "U"])), key="both", line=line)
