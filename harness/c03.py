import builtins
import http.server
import os
import shutil
import tempfile
import threading
from harness.lib import *


class Boom(Exception):
    pass


def run(rep):
    import requests
    import refextract.references.api as api
    from refextract.references.errors import FullTextNotAvailableError
    d = tempfile.mkdtemp(prefix="verif_c03_")
    old = tempfile.tempdir
    oldenv = {k: os.environ.get(k) for k in ("http_proxy", "https_proxy", "no_proxy")}
    os.environ["no_proxy"] = "*"
    tempfile.tempdir = d
    try:
        stubbed(rep, api, requests, FullTextNotAvailableError, d)
        served(rep, api, FullTextNotAvailableError, d)
    finally:
        tempfile.tempdir = old
        for k, v in oldenv.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


def left(d):
    xs = os.listdir(d)
    for x in xs:
        os.unlink(os.path.join(d, x))
    return xs


REFS = [{"raw_ref": ["x"]}, {"raw_ref": ["y"], "doi": ["doi:10.1/2"]}]


def parser(log, fail=None):
    def f(path, *a, **k):
        with open(path, "rb") as fh:
            log.append((fh.read(), a, k))
        if fail is not None:
            raise fail
        return REFS
    return f


def stubbed(rep, api, requests, FTNA, d):
    E = requests.exceptions
    excs = [E.HTTPError("404"), E.ConnectionError("c"), E.Timeout("t"), E.ChunkedEncodingError("i"), OSError(5, "io"), ValueError("v"),
            RuntimeError("r"), Boom("b"), MemoryError("m"), FTNA("inner"), KeyError("k"), E.InvalidURL("u"), StopIteration("s"), UnicodeDecodeError("utf8", b"x", 0, 1, "r")]

    class Resp:
        ok = True
        status_code = 200
        headers = {}

        def __init__(self, chunks, fail_at=None, exc=None, status_exc=None):
            self.chunks, self.fail_at, self.exc, self.status_exc = chunks, fail_at, exc, status_exc

        def raise_for_status(self):
            if self.status_exc:
                raise self.status_exc

        def iter_content(self, chunk_size=1, decode_unicode=False):
            for i, c in enumerate(self.chunks):
                if i == self.fail_at:
                    raise self.exc
                yield c
            if self.fail_at is not None and self.fail_at >= len(self.chunks):
                raise self.exc

        @property
        def content(self):
            return b"".join(self.iter_content())

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def once(key, get, want_body, pfail=None, want=None, wfail=None, kw=None, url="http://host.invalid/dir/doc.pdf"):
        log = []
        kw = kw or {}
        ps = [(api, "extract_references_from_file", parser(log, pfail))]
        oldget = requests.get
        requests.get = get
        had = "open" in vars(api)
        if wfail is not None:
            n, exc = wfail
            cnt = [0]

            class F:
                def __init__(self, f):
                    self.f = f

                def write(self, b):
                    cnt[0] += 1
                    if cnt[0] > n:
                        raise exc
                    return self.f.write(b)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self.f.close()
                    return False

                def __getattr__(self, x):
                    return getattr(self.f, x)

            def fopen(p, mode="r", *a, **k):
                if n < 0:
                    raise exc
                return F(builtins.open(p, mode, *a, **k)) if "w" in mode or "a" in mode else builtins.open(p, mode, *a, **k)
            api.open = fopen
        try:
            with patched(*ps):
                o = outcome(api.extract_references_from_url, url, **kw)
        finally:
            requests.get = oldget
            if wfail is not None and not had:
                del api.open
        files = left(d)
        rep.expect("temp-file-removed", not files, key=key, left=files, case=key, outcome=repr(o)[:200])
        exc = pfail
        if want is None:
            rep.same("result", o, ("return", REFS), key=key)
        else:
            if isinstance(want, requests.exceptions.HTTPError):
                good = o[:2] == ("raise", "FullTextNotAvailableError")
            elif isinstance(want, StopIteration):
                good = o[0] == "raise"        # generators turn it into RuntimeError
            else:
                good = o[:2] == ("raise", type(want).__name__)
            rep.expect("error-reported", good, key=key, got=repr(o)[:200], want=repr(want))
        if want is None or pfail is not None:
            rep.same("parsed-bytes", [x[0] for x in log], [want_body], key=key)
            opts = {k: v for k, v in kw.items() if k not in ("headers", "chunk_size")}
            rep.same("options", [x[2] for x in log], [opts], key=key)

    chunks_pool = [[], [b"one"], [b"a", b"b", b"c"], [b"", b"x", b""], [b"%PDF-1.4\n", b"\x00\xff\r\n", b"%%EOF\n"], [b"\r\n  ", b"  \n"], [bytes(range(256))] * 9,
                   [b"z" * 1024] * 40]
    rng = rep.rng
    for _ in range(rep.n(20, 200)):
        chunks_pool.append([bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 64]))) for _ in range(rng.randrange(12))])
    for ci, ch in enumerate(chunks_pool):
        body = b"".join(ch)
        for kw in ({}, {"recid": 7}, {"reference_format": "{title},{volume},{page}", "linker_callback": len, "override_kbs_files": {"journals": {}}, "recid": None},
                   {"headers": {"A": "b"}, "chunk_size": 7}):
            seen = {}

            def get(*a, **k):
                seen.update(k)
                seen["url"] = k.get("url", a[0] if a else None)
                return Resp(ch)
            once("ok", get, body, kw=kw)
            rep.same("requested-url", seen.get("url"), "http://host.invalid/dir/doc.pdf", key="url")
            rep.same("requested-headers", seen.get("headers"), kw.get("headers"), key="headers")
    ch = [b"a", b"b", b"c"]
    for e in excs:
        def bad(*a, **k):
            raise e
        once("get", bad, b"", want=e)
        once("status", lambda *a, **k: Resp(ch, status_exc=e), b"", want=e)
        for i in range(4):
            once("chunk%d" % i, lambda *a, **k: Resp(ch, fail_at=i, exc=e), b"", want=e)
        once("chunk-empty", lambda *a, **k: Resp([], fail_at=0, exc=e), b"", want=e)
        once("parse", lambda *a, **k: Resp(ch), b"abc", pfail=e, want=e)
        if isinstance(e, (OSError, MemoryError)) and not isinstance(e, E.RequestException):
            for i in range(-1, 3):
                once("write%d" % i, lambda *a, **k: Resp(ch), b"", wfail=(i, e), want=e)
    for url in ("http://h.invalid/", "http://h.invalid", "http://h.invalid/a.pdf?x=1&y=2", "http://h.invalid/%20a b.pdf", "http://h.invalid/é.pdf", "file.pdf"):
        seen = {}
        log = []
        with patched((api, "extract_references_from_file", parser(log))):
            oldget = requests.get
            requests.get = lambda *a, **k: Resp([b"q"])
            try:
                o = outcome(api.extract_references_from_url, url)
            finally:
                requests.get = oldget
        rep.same("odd-url", o, ("return", REFS), key="url", url=url)
        rep.expect("temp-file-removed", not left(d), key="odd-url", url=url)


TEXT = b"Some text\n\nReferences\n\n[1] J. Smith, Phys. Rev. D 12 (1990) 123.\n\n[2] B. Other, Nucl. Phys. B 3 (1991) 45. doi:10.1000/xyz\n"


def served(rep, api, FTNA, d):
    """real HTTP over loopback"""
    rng = rep.rng
    bodies = {"/t.txt": TEXT, "/empty": b"", "/bin": bytes(rng.randrange(256) for _ in range(5000)), "/big": b"0123456789abcdef" * 20000}

    class H(http.server.BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"

        def log_message(self, *a):
            pass

        def do_GET(self):
            p = self.path.split("?")[0]
            if p.startswith("/status"):
                self.send_response(int(p[7:]))
                self.send_header("Content-Length", "3")
                self.end_headers()
                self.wfile.write(b"err")
            elif p == "/trunc":
                self.send_response(200)
                self.send_header("Content-Length", "5000")
                self.end_headers()
                self.wfile.write(b"x" * 3000)
                self.wfile.flush()
                self.close_connection = True
            else:
                b = bodies[p]
                self.send_response(200)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)
    try:
        srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    except OSError:
        rep.skipped.append("loopback server")
        return
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    base = "http://127.0.0.1:%d" % srv.server_port
    try:
        for p, b in bodies.items():
            for cs in (1024, 100, 7 if len(b) < 6000 else 4096):
                log = []
                with patched((api, "extract_references_from_file", parser(log))):
                    o = outcome(api.extract_references_from_url, base + p, chunk_size=cs)
                rep.same("http-result", o, ("return", REFS), key="http", path=p)
                rep.same("http-bytes", [x[0] for x in log], [b], key="http", path=p, chunk_size=cs)
                rep.expect("temp-file-removed", not left(d), key="http", path=p)
        for st in (400, 401, 403, 404, 410, 429, 500, 502, 503):
            o = outcome(api.extract_references_from_url, base + "/status%d" % st)
            rep.expect("http-status", o[:2] == ("raise", "FullTextNotAvailableError"), key="status", status=st, got=repr(o))
            rep.expect("temp-file-removed", not left(d), key="http-status", status=st)
        o = outcome(api.extract_references_from_url, base + "/trunc")
        rep.expect("http-truncated", o[0] == "raise" and o[1] != "FullTextNotAvailableError", key="trunc", got=repr(o)[:300])
        rep.expect("temp-file-removed", not left(d), key="trunc")
        o = outcome(api.extract_references_from_url, "http://127.0.0.1:9/none.pdf")
        rep.expect("http-refused", o[0] == "raise" and o[1] != "FullTextNotAvailableError", key="refused", got=repr(o)[:300])
        rep.expect("temp-file-removed", not left(d), key="refused")
        # end to end: same references as from a local copy
        p = os.path.join(d, "local.txt")
        with open(p, "wb") as fh:
            fh.write(TEXT)
        a = outcome(api.extract_references_from_file, p)
        os.unlink(p)
        b = outcome(api.extract_references_from_url, base + "/t.txt")
        rep.expect("end-to-end", a[0] == "return" and len(a[1]) >= 1 and a == b, key="e2e", file=repr(a)[:500], url=repr(b)[:500])
        rep.expect("temp-file-removed", not left(d), key="e2e")
        o = outcome(api.extract_references_from_url, base + "/bin")
        rep.expect("unknown-type", o[0] == "raise" and o[1] == "UnknownDocumentTypeError", key="bin", got=repr(o)[:300])
        rep.expect("temp-file-removed", not left(d), key="bin")
    finally:
        srv.shutdown()
        srv.server_close()
