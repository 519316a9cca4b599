import requests
import z3
from pyver import world
from pyver.world import may_fail, fs, uf, FS0
from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_url as sp


class Req(ModelObj):
    def __init__(self, term):
        ModelObj.__init__(self, Req)
        self.t = term

    def term(self):
        return self.t

    def m_raise_for_status(self, I):
        may_fail(I, "raise_for_status", None, self.t)

    def m_close(self, I):
        return None

    def cm_enter(self, I):
        return self

    def cm_exit(self, I, exc):
        return False

    def m_iter_content(self, I, chunk_size=1, decode_unicode=False):
        cs = I.to_u(chunk_size)
        n = uf("nchunks", U, U, Int)(self.t, cs)
        I.path.assume(n >= 0)
        ch = uf("chunk", U, U, Int, Str)

        def stop(I):
            may_fail(I, "iter_content", None, self.t, cs)
        return VSeq(n, lambda i: Sym("bytes", ch(self.t, cs, i)), "iter_content", on_stop=stop)


def m_get(I, url=None, params=None, **kw):
    stream = kw.pop("stream", False)     # affects memory use only, not what is served
    u = [I.to_u(url), I.to_u(kw.pop("headers", None)), I.to_u(DictV(known=dict(kw)))]
    may_fail(I, "requests.get", None, *u)
    return Req(uf("response", U, U, U, U)(*u))


def parse(I, content, kw):
    u = [I.to_u(content), I.to_u(DictV(known={k: v for k, v in kw.items()}))]
    may_fail(I, "parse_file", None, *u)
    return I.from_u(uf("parse_file", U, U, U)(*u), TAny)


def m_file(I, path, **kw):
    c = I.dict_get(fs(I), path)
    if c is ABSENT:
        I.raise_(sp.FullTextNotAvailableError, "missing")
    return parse(I, c, kw)


def inv(I, comps, entry, n, fr):
    for c in comps:
        if c.ty is not None and c.ty.name == "dictobj":
            for path in I.ghost.get("tmp", []):
                key = I.key_term(Sym("str", path))
                for f in I.path.folds:
                    for (fl, fsub), fn in f.fns.items():
                        if fn.range() == Str:
                            yield ("content %s" % fl, lambda k, c=c, key=key, fn=fn: I.arr(c.get()) == z3.Store(FS0, key, U.ubytes(fn(k))))


def final(I, out, a):
    yield "no-file-left-or-changed", I.arr(fs(I)) == FS0


MODELS = dict(world.MODELS)
MODELS.update({
    requests.get: m_get,
    "refextract.references.api:extract_references_from_file": m_file,
    sp.tmp_available: lambda I: may_fail(I, "mkstemp", OSError),
    sp.tmp_open: lambda I: may_fail(I, "open_w", OSError),
    sp.tmp_write: lambda I, b, c: (may_fail(I, "write", OSError, b, c), I.models.binop(I, __import__("ast").Add(), b, c))[1],
    sp.parse_bytes: lambda I, b, **kw: parse(I, b, kw),
})
CONTRACTS = [
    Contract("refextract.references.api:extract_references_from_url", spec=sp.extract_references_from_url,
             args=dict(url=TStr, headers=TAny, chunk_size=TAny, recid=TAny, reference_format=TAny, linker_callback=TAny, override_kbs_files=TAny),
             models=MODELS, setup=world.setup, final=final, invariants=[("file", inv)]),
]
ASSUMPTIONS = ["mkstemp returns a path that did not exist; removing an existing file of one's own succeeds; closing a fresh descriptor succeeds",
               "the references of a file are a function of its content and the options (extract_references_from_file, C04), not of its name",
               "the response is a function of url, headers and options; its body is a finite sequence of byte chunks after which reading may fail",
               "failures considered: any exception from the HTTP library at get/status/any chunk, OSError from creating, opening or writing the file, any exception from parsing"]
