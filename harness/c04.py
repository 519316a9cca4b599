import copy
import glob
import itertools
import os
import shutil
import tempfile
from harness.lib import *
import spec.s_file as sp


def run(rep):
    import magic
    import refextract.references.api as api
    import refextract.references.engine as eng
    d = tempfile.mkdtemp(prefix="verif_c04_")
    try:
        stubbed(rep, api, magic, d)
        for n, v in (("update_reference_with_urls", None),):
            upd = rep.get("refextract.references.record:" + n)
            if upd:
                for _ in range(rep.n(300, 3000)):
                    ref = rref(rep.rng)
                    urls = [rep.rng.choice(["", "http://a", "http://b", "u"]) for _ in range(rep.rng.randrange(5))]
                    compare(rep, "update", upd, sp.add_urls_frame, (ref, urls), frame=(0,), key="update")
        real_pdfs(rep, api, d)
        real_text(rep, api, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rref(rng):
    r = {"raw_ref": [rstr(rng)], "linemarker": [str(rng.randrange(9))]}
    if rng.random() < .5:
        r["url"] = [rng.choice(["http://a", "http://b", "http://c"]) for _ in range(rng.randrange(1, 4))]
    if rng.random() < .3:
        r["misc"] = ["m", "m"]
    if rng.random() < .2:
        r["texkey"] = ["Old:1999ab"]
    if rng.random() < .3:
        r["author"] = ["A. B", "A. B"]
    if rng.random() < .2:
        r["doi"] = ["doi:10.1/x"]
    if rng.random() < .1:
        r["url"] = []
    return r


def rlink(rng):
    r = {"texkey": rng.choice(["Foo:2001ab", "Bar:1999cd", "k"])}
    if rng.random() < .6:
        xs = [rng.choice(["http://a", "http://b", "http://d", "http://e"]) for _ in range(rng.randrange(1, 4))]
        r["urls"] = set(xs) if rng.random() < .5 else xs
    return r


def stubbed(rep, api, magic, d):
    rng = rep.rng
    path = os.path.join(d, "x.pdf")
    open(path, "w").write("x")
    bodies = {False: ["plain"], True: ["layout"]}

    def once(lines_plain, lines_layout, refs, links, mime, key, kw=None, p=path, fail=None):
        calls = []

        def body(fpath, keep_layout=False):
            calls.append(("body", fpath, keep_layout))
            if fail == ("body", keep_layout):
                raise ValueError("body")
            return bodies[bool(keep_layout)]

        def fulltext(b):
            if fail == "fulltext":
                raise KeyError("x")
            calls.append(("fulltext", tuple(b)))
            return (list(lines_layout if b == ["layout"] else lines_plain), 1, 2)

        def parse(lines, recid=None, reference_format="{title} {volume} ({year}) {page}", linker_callback=None, override_kbs_files=None):
            calls.append(("parse", tuple(lines), recid, reference_format, linker_callback, repr(override_kbs_files)))
            if fail == "parse":
                raise RuntimeError("x")
            return (copy.deepcopy(refs), {"s": 1})

        def texkeys(f):
            if fail == "links":
                raise ValueError("links")
            return copy.deepcopy(links)

        def from_file(f, mime=False):
            return from_file.m
        from_file.m = mime
        old = magic.from_file
        magic.from_file = from_file
        stubs = [(api, "get_plaintext_document_body", body), (api, "extract_references_from_fulltext", fulltext),
                 (api, "parse_references", parse), (api, "extract_texkeys_and_urls_from_pdf", texkeys)]
        try:
            ok, got = compare(rep, "file", api.extract_references_from_file, sp.extract_references_from_file, (p,), kw=kw, stubs=stubs, key=key,
                              show=repr(dict(plain=lines_plain, layout=lines_layout, refs=refs, links=links, mime=mime, kw=kw, fail=fail))[:1200])
            h = [c for c in calls if c[0] == "parse"]
            if len(h) == 2:
                rep.same("file:parse-arguments", h[0], h[1], key=key)
        finally:
            magic.from_file = old
        return got

    for mime in ("application/pdf", "text/plain", "application/pdfx", ""):
        for lp, ll in itertools.product([[], ["a"], ["a", "b"]], repeat=2):
            for nref, nlink in itertools.product(range(4), range(4)):
                refs = [rref(rng) for _ in range(nref)]
                links = [rlink(rng) for _ in range(nlink)]
                once(lp, ll, refs, links, mime, "grid")
    for _ in range(rep.n(300, 5000)):
        n = rng.choice([1, 2, 3, 7, 30])
        m = n if rng.random() < .7 else rng.choice([n + 1, max(0, n - 1), 2 * n, 0])
        once(["a"], [], [rref(rng) for _ in range(n)], [rlink(rng) for _ in range(m)], "application/pdf", "random",
             kw=rng.choice([{}, {"recid": 3}, {"reference_format": "{title}", "override_kbs_files": {"journals": {}}}, {"linker_callback": len}]))
    for fail in (("body", False), ("body", True), "fulltext", "parse", "links"):
        for lp in ([], ["a"]):
            once(lp, ["z"], [rref(rng)], [rlink(rng)], "application/pdf", "fail", fail=fail)
    once(["a"], [], [], [], "text/plain", "missing", p=os.path.join(d, "nope.pdf"))
    got = once(["a"], [], [], [], "text/plain", "directory", p=d)
    rep.expect("missing", got[:2] == ("raise", "FullTextNotAvailableError"), key="dir", got=repr(got))


def real_pdfs(rep, api, d):
    """sample documents: attaching links keeps everything that was parsed"""
    from harness.lib import resolve
    repo = os.path.dirname(os.path.dirname(os.path.abspath(__import__("refextract").__file__)))
    fs = sorted(glob.glob(os.path.join(repo, "tests", "**", "*.pdf"), recursive=True), key=os.path.getsize)
    for f in fs[: rep.n(4, 12)]:
        p = os.path.join(d, "doc.pdf")
        shutil.copy(f, p)
        with patched((api, "extract_texkeys_and_urls_from_pdf", lambda q: [])):
            plain = outcome(api.extract_references_from_file, p, _limit=120)
        links = outcome(resolve("refextract.references.pdf:extract_texkeys_and_urls_from_pdf"), p)
        got = outcome(api.extract_references_from_file, p, _limit=120)
        if plain[0] != "return" or links[0] != "return":
            rep.skipped.append(f)
            continue
        want = copy.deepcopy(plain[1])
        if len(links[1]) == len(want):
            for r, l in zip(want, links[1]):
                urls = r.get("url", []) + sorted(l.get("urls", []))
                if urls:
                    r["url"] = list(dict.fromkeys(urls))
                r["texkey"] = [l["texkey"]]
        if got[0] == "return":
            n = [len(r.get("url", [])) for r in plain[1]]
            for rs in (want, got[1]):
                for r, k in zip(rs, n):
                    if len(r.get("url", [])) > k:
                        r["url"] = r["url"][:k] + sorted(r["url"][k:])
        rep.same("sample-pdf", got, ("return", want), key=os.path.basename(f))


def real_text(rep, api, d):
    p = os.path.join(d, "t.txt")
    with open(p, "w") as fh:
        fh.write("Title\n\nbody text\n\nReferences\n\n[1] J. Smith, Phys. Rev. D 12 (1990) 123. http://example.org/a\n\n[2] B. Other, Nucl. Phys. B 3 (1991) 45.\n")
    called, N = [], [0]
    o = outcome(api.extract_references_from_file, p)
    N[0] = len(o[1]) if o[0] == "return" else 0
    with patched((api, "extract_texkeys_and_urls_from_pdf", lambda q: called.append(q) or [{"texkey": "a"}] * N[0])):
        o = outcome(api.extract_references_from_file, p)
    rep.expect("text-file", o[0] == "return" and len(o[1]) >= 2 and all("texkey" not in r for r in o[1]), key="text", got=repr(o)[:600])
