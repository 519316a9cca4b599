import os
import tempfile
from harness.lib import *
from harness.pdfs import build

P = "refextract.references.pdf:"
NAMES = ["cite.Weinberg:1967tq", "cite.0@Aad:2012tfa", "cite.{x}", "cite.", "cite.bib1", "cite.a b", "cite.cite.x", "cite.\u00e9t\u00e9", "cite.B.B"]
OTHERS = ["section.1", "Item.3", "xcite.A", "page.1", "equation.2.1", "Cite.B"]


def page_key(p):
    return (p[0], p[2], p[3])


def run(rep):
    rng = rep.rng
    f = rep.get(P + "extract_texkeys_and_urls_from_pdf")
    m = rep.get(P + "_match_urls_with_reference")
    if m:
        for _ in range(rep.n(12000, 150000)):
            layout(rep, m, rng)
    if f:
        d = tempfile.mkdtemp(prefix="verif_c19_")
        path = os.path.join(d, "doc.pdf")
        try:
            for i in range(rep.n(700, 8000)):
                if rep.out_of_time():
                    break
                document(rep, f, rng, path, i)
            unreadable(rep, f, rng, path)
            byte_names(rep, f, rng, path)
        finally:
            if os.path.exists(path):
                os.remove(path)
            os.rmdir(d)


def positions(rng, n, columns, pages):
    """different heights in every column, so that the reading order is unique"""
    out, used = [], set()
    while len(out) < n:
        p, c, y = rng.randrange(pages), rng.choice(columns), rng.randrange(12)
        if (p, y) in used:
            continue
        used.add((p, y))
        out.append((p, c, y))
    return out


def ideal(refs, u, key):
    """last reference at or before the URL"""
    prev = [r for r in refs if key(r[1]) <= key(u)]
    return prev[-1] if prev else None


def layout(rep, m, rng):
    two = rng.random() < 0.3
    pages = rng.choice([1, 1, 2, 3, 4])
    cols = [0, 1] if two else [rng.choice([0, 0, 1])]
    nr, nu = rng.choice([1, 2, 3, 4]), rng.choice([0, 1, 2, 3, 4])
    ps = [(p, c, -12 + y, 10 + 300 * c) for p, c, y in positions(rng, nr + nu, cols, pages)]
    key = (lambda p: p) if two else page_key
    refs = sorted([("r%d" % i, p) for i, p in enumerate(ps[:nr])], key=lambda r: key(r[1]))
    urls = sorted([("u%d" % (i if rng.random() < 0.85 else 0), p) for i, p in enumerate(ps[nr:])], key=lambda r: key(r[1]))
    rest, got = list(urls), []
    for i, r in enumerate(refs):
        o = outcome(m, rest, r, refs[i + 1], two_column_layout=two) if i + 1 < nr else outcome(m, rest, r, two_column_layout=two)
        if o[0] != "return" or len(o[1]) != 2:
            rep.fail("attribution", "outcome", refs=refs, urls=urls, got=o)
            return
        taken, left = o[1]
        left = list(left)
        rep.expect("rest", left == rest[len(rest) - len(left):], key="suffix", refs=refs, urls=urls, reference=r, rest=rest, got=left)
        rest = left
        got.append((r, set(taken)))
    judge(rep, "attribution", refs, urls, got, two, key)


def judge(rep, check, refs, urls, got, two, key):
    where = {}
    for n, p in urls:
        where.setdefault(n, []).append(p)
    for r, taken in got:
        rep.expect(check, all(n in where for n in taken), key="unknown URL", refs=refs, urls=urls, reference=r, taken=sorted(taken))
        rep.expect(check, all(any(p[0] in (r[1][0], r[1][0] + 1) for p in where.get(n, [])) for n in taken), key="page", refs=refs, urls=urls, reference=r, taken=sorted(taken))
        if two:
            continue
        for n in taken:
            rep.expect(check, any((ideal(refs, p, key) or (None,))[0] == r[0] for p in where.get(n, [])), key="other reference", refs=refs, urls=urls, reference=r, url=n)
        for n, p in urls:
            i = ideal(refs, p, key)
            if i is not None and i[0] == r[0] and p[0] == r[1][0]:
                rep.expect(check, n in taken, key="lost", refs=refs, urls=urls, reference=r, url=n)


def document(rep, f, rng, path, i):
    two = rng.random() < 0.3
    width = rng.choice([600, 612, 595.28])
    pages = rng.choice([1, 1, 2, 3])
    names = rng.sample(NAMES, rng.randrange(1, len(NAMES) + 1))
    if two:
        names += ["cite.second%d" % k for k in range(3)]
    nu = rng.choice([0, 1, 2, 4])
    at = positions(rng, len(names) + nu, [0, 1] if two else [0], pages if len(names) + nu < 11 * pages else 3)
    if two:
        at = [(p, 1 if names[k].startswith("cite.second") else c, y) if k < len(names) else (p, c, y) for k, (p, c, y) in enumerate(at)]
    pages = max(p for p, _, _ in at) + 1
    step = rng.choice([50, 50, 12, 9, 3.5, 0.4])
    x = lambda c: 350.0 if c else rng.choice([50.0, 50.0, 61.5])
    refs, dests = [], []
    for n, (p, c, y) in zip(names, at):
        xx, yy = x(c), 750.0 - step * y
        dests.append((n, p, xx, yy))
        refs.append((n[5:], (p, c, -yy, xx)))
    dests += [(n, rng.randrange(pages), 40 + rng.randrange(500), 50 + rng.randrange(600)) for n in rng.sample(OTHERS, rng.randrange(3))]
    if rng.random() < 0.2:
        dests.append((b"\xff\xfe", 0, 5, 5))
    links = [[] for _ in range(pages)]
    urls = []
    for k, (p, c, y) in enumerate(at[len(names):]):
        xx, yy = x(c) + 10, 750.0 - step * y
        u = "http://x.org/%d" % (k if rng.random() < 0.8 else 0)
        links[p].append((rng.choice(["uri", "uri", "uri-indirect"]), u, (xx, yy - 9, xx + 90, yy)))
        urls.append((u, (p, c, -yy, xx)))
    for l in links:
        for _ in range(rng.choice([0, 0, 1, 2])):
            l.append(("goto", rng.choice(names), (70, 10 + rng.randrange(700), 90, 760)))
        rng.shuffle(l)
    with open(path, "wb") as fh:
        fh.write(build([(width, l) for l in links], dests))
    key = (lambda p: p) if two else page_key
    refs.sort(key=lambda r: key(r[1]))
    o = outcome(f, path)
    info = dict(destinations=repr(dests), links=repr(links))
    if not rep.expect("document", o[0] == "return" and isinstance(o[1], list), key="outcome", got=o, **info):
        return
    rep.same("document-keys", [e.get("texkey") for e in o[1]], [n for n, _ in refs], key="keys", **info)
    if [e.get("texkey") for e in o[1]] == [n for n, _ in refs]:
        rep.expect("document", all(e.get("urls", {1}) for e in o[1]), key="empty urls", **info)
        judge(rep, "document-urls", refs, urls, [(r, set(e.get("urls", ()))) for r, e in zip(refs, o[1])], two, key)


def unreadable(rep, f, rng, path):
    good = build([(600, [("uri", "http://a.org", (60, 680, 80, 690))])], [("cite.B", 0, 50, 500), ("cite.A", 0, 50, 700)])
    bad = [b"", b"%PDF-1.4\n", b"no pdf", good[:200], good[50:], good.replace(b"/Kids", b"/Kidz"), good.replace(b"/Rect", b"/Tcer"), good.replace(b"/XYZ 50 700 null", b"/Fit"), good.replace(b"/Parent", b"/Parrot"), good.replace(b"/URI <", b"/URX <"),
           build([(600, [])], [("cite.A", 0, None, 700)]), build([(600, [])], [("cite.A", 0, 50, None), ("cite.B", 0, 50, 50)]), build([(600, [("note", "x", (1, 1, 2, 2))])], [("cite.A", 0, 50, 700)]), build([(600, [])], []), build([(600, [])], [("section.1", 0, 1, 1)])]
    for _ in range(rep.n(150, 1500)):
        a = rng.randrange(len(good))
        bad.append(good[:a] + bytes([rng.randrange(256)]) + good[a + rng.choice([0, 1, 1, 20]):])
    for b in bad:
        with open(path, "wb") as fh:
            fh.write(b)
        o = outcome(f, path)
        rep.expect("unreadable", o[0] == "return" and isinstance(o[1], list) and all(isinstance(e, dict) and "texkey" in e for e in o[1]), key="outcome", content=repr(b), got=o)
    for b, n in ((bad[10], "no left"), (bad[11], "no top"), (bad[13], "nothing"), (bad[14], "no references")):
        with open(path, "wb") as fh:
            fh.write(b)
        rep.same("unreadable", outcome(f, path), ("return", []), key=n, content=repr(b))


class Dest:
    def __init__(self, page, left, top):
        self.page, self.left, self.top = page, left, top


class Page:
    class cropbox:
        lower_right = (600, 0)

    def __init__(self, links):
        self.links = links

    def get_object(self):
        return {"/Annots": self.links}


class Reader:
    """what pypdf gives for names it cannot decode: they stay bytes"""
    def __init__(self, names, pages):
        self.named_destinations, self.pages = names, [Page([]) for _ in range(pages)]

    def get_destination_page_number(self, d):
        return d.page

    def get_page(self, n):
        return self.pages[n]


def byte_names(rep, f, rng, path):
    import refextract.references.pdf as m
    from pypdf.generic import ByteStringObject
    if not hasattr(m, "PdfReader"):
        return
    with open(path, "wb") as fh:
        fh.write(b"%PDF-1.4")
    for _ in range(rep.n(300, 3000)):
        names, want, pages = {}, [], rng.randrange(1, 4)
        for k in range(rng.randrange(1, 7)):
            key, raw = rng.choice([("A%d" % k, b"A%d" % k), ("\ufffd%d" % k, b"\xff%d" % k), ("\u00e9%d" % k, "\u00e9%d".encode() % k)])
            ref, p = rng.random() < 0.7, rng.randrange(pages)
            pre = "cite." if ref else rng.choice(["section.", "xcite."])
            name = ByteStringObject(pre.encode() + raw) if rng.random() < 0.6 else pre + key
            names[name] = Dest(p, 50.0, 700.0 - 37 * ((k * 5) % 7))
            if ref:
                want.append(((p, -names[name].top), key))
        with patched((m, "PdfReader", lambda *a, **k: Reader(names, pages))):
            o = outcome(f, path)
        rep.same("byte-names", [e.get("texkey") for e in o[1]] if o[0] == "return" else o, [k for _, k in sorted(want)], key="byte-names", names=repr(list(names)))
