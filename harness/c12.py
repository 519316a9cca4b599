import glob
import itertools
import os
import shutil
import tempfile
from harness.lib import *

H, T = b"%PDF-", b"%%EOF"


def want(data):
    s, e = data.find(H), data.rfind(T)
    return data[s:e + len(T)] if 0 <= s <= e else data


def first_diff(a, b):
    return next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


def run(rep):
    d = tempfile.mkdtemp(prefix="verif_c12_")
    try:
        cleaning(rep, d)
        bodies(rep, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cleaning(rep, d):
    f = rep.get("refextract.references.engine:clean_pdf_file")
    if not f:
        return
    path, other = os.path.join(d, "doc.pdf"), os.path.join(d, "doc.pdf.bak")
    with open(other, "wb") as fh:
        fh.write(b"%PDF-other")

    def one(data, key):
        with open(path, "wb") as fh:
            fh.write(data)
        o = outcome(f, path)
        with open(path, "rb") as fh:
            got = fh.read()
        w = want(data)
        rep.expect("never-fails", o[0] == "return", key=key, file=repr(data[:300]), size=len(data), outcome=repr(o)[:200])
        rep.expect("kept-bytes", got == w, key=key, file=repr(data[:300]), size=len(data), got=repr(got[:200]), want=repr(w[:200]), at=first_diff(got, w), got_size=len(got), want_size=len(w))
        rep.expect("other-files", sorted(os.listdir(d)) == ["doc.pdf", "doc.pdf.bak"], key=key, files=sorted(os.listdir(d)))
    toks = [H, T, b"%", b"\n", b"x\x00"]
    for n in range(0, rep.n(6, 7) + 1):
        for c in itertools.product(toks, repeat=n):
            one(b"".join(c), "tokens")
    for c in itertools.product([b"%PDF", b"-", b"%%EO", b"F", b"%", b"\r\n", T, H], repeat=4):
        one(b"".join(c), "partial marks")
    rng = rep.rng
    for _ in range(rep.n(500, 6000)):
        parts = []
        for _ in range(rng.randrange(8)):
            k = rng.randrange(6)
            parts.append(H + b"1.%d" % rng.randrange(9) if k == 0 else T + b"\n" if k in (1, 2) else bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 100]))) if k < 5
                         else bytes([rng.randrange(256)]) * rng.choice([4091, 4095, 4096, 4097, 8190, 70000, 65536]))
        one(b"".join(parts), "random")
    for junk in (0, 1, 5, 1023, 1024, 1025, 4095, 4096, 4097, 10 ** 6):
        for body in (0, 1, 1024, 4096, 5000, 300000):
            for tail in (0, 1, 6, 1024, 1025, 4096, 100000):
                one(b"j" * junk + H + b"b" * body + T + b"\n" * tail, "sizes")
                one(b"j" * junk + H + b"b" * body + T + b"\xff" * tail + T, "two ends")
    rep.sample("%d files" % rep.evaluations)


def bodies(rep, d):
    """junk around a real document does not reach its text; other documents keep their bytes"""
    g = rep.get("refextract.references.engine:get_plaintext_document_body")
    if not g:
        return
    import refextract
    repo = os.path.dirname(os.path.dirname(os.path.abspath(refextract.__file__)))
    pdfs = sorted(glob.glob(os.path.join(repo, "tests", "data", "*.pdf")), key=os.path.getsize)[:rep.n(2, 6)]
    path = os.path.join(d, "a.pdf")

    def body(data):
        with open(path, "wb") as fh:
            fh.write(data)
        o = outcome(g, path)
        with open(path, "rb") as fh:
            return o, fh.read()
    for p in pdfs:
        with open(p, "rb") as fh:
            data = want(fh.read())
        o, left = body(data)
        rep.expect("document-kept", left == data, key="pdf", file=os.path.basename(p))
        for pre, post in ((b"junk\n", b""), (b"", b"\n" * 3000), (b"HTTP/1.1 200\r\n\r\n", b"\x00\x01 trailing")):
            o2, left = body(pre + data + post)
            rep.expect("document-kept", left == data, key="junk", file=os.path.basename(p), pre=repr(pre), post=repr(post[:30]), got_size=len(left), want_size=len(data))
            rep.same("text-unchanged-by-junk", o2, o, key="junk", file=os.path.basename(p))
    for text in (b"plain text\nReferences\n[1] A. B\n", b"the mark %PDF- alone\n", b"%%EOF first, then %PDF- later\n", b"only %%EOF\n", "\u00e9t\u00e9\n".encode()):
        o, left = body(text)
        rep.expect("other-documents-unchanged", left == text, key="text", text=repr(text), got=repr(left))
        if H not in text:
            rep.expect("text-read", o == ("return", text.decode().splitlines(True)), key="text", text=repr(text), got=repr(o)[:300])
