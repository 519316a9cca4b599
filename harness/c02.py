import itertools
from harness.lib import *
from harness.c01 import KINDS, Boom, both, make_parser
import spec.s_extract as sp


def run(rep):
    import refextract.references.api as api
    import refextract.extract as ex
    kb = {"PHYS REV": "Phys. Rev."}

    # journal info: stand-in recogniser
    def jstub(plan, log):
        cnt = itertools.count()

        def f(line, override_kbs_files=None):
            i = next(cnt)
            log.append((line, override_kbs_files))
            k = plan[i % len(plan)] if plan else "one"
            if k in ("one", "many"):
                return {"title": line, "n": i}
            if k == "none":
                return None
            if k == "empty":
                return {}
            raise {"value": ValueError, "key": KeyError, "runtime": RuntimeError, "rec": RecursionError, "stop": StopIteration, "assert": AssertionError, "unicode": Boom}[k]("p")
        return f

    def jcase(infos, plan, kbd):
        import copy
        l1, l2 = [], []
        real = getattr(ex, "extract_journal_info", None)
        if real is None:
            return
        with patched((api, "extract_journal_reference", jstub(plan, l1))):
            got = outcome(real, copy.deepcopy(infos), kbd)
        old = sp.extract_journal_reference
        sp.extract_journal_reference = jstub(plan, l2)
        try:
            want = outcome(sp.extract_journal_info, copy.deepcopy(infos), kbd)
        finally:
            sp.extract_journal_reference = old
        if rep.same("journal-info", got, want, key="result", infos=infos, plan=list(plan)):
            rep.same("journal-info:calls", l1, l2, key="calls", infos=infos, plan=list(plan))

    kinds = ("one", "none", "empty", "value", "key", "rec")
    pubs = ({"pubinfo_freetext": "a"}, {"pubinfo_freetext": ""}, {}, {"pubinfo_freetext": None}, {"other": 1})
    for n in range(0, 4):
        for infos in itertools.product(pubs, repeat=n):
            for plan in itertools.product(kinds, repeat=min(n, 2)):
                jcase([dict(x) for x in infos], plan, kb)
    for _ in range(rep.n(300, 3000)):
        n = rep.rng.choice([1, 2, 5, 11, 60])
        jcase([{"pubinfo_freetext": rep.rng.choice(["", rstr(rep.rng), "x", None])} for _ in range(n)],
              [rep.rng.choice(("one", "one", "one", "one", "one", "none", "empty", "value")) for _ in range(n)], rep.rng.choice([kb, {}, None]))
    for k in KINDS:
        for t in ("", "text", "a\nb", "\u00e9"):
            for kbd in (kb, {}, None):
                both(rep, "extract_references_from_text", (t, kbd), "extract_references_from_string", [k], "text", sp.extract_references_from_text)

    def ustub(k, log):
        def f(url, headers=None, chunk_size=1024, **kwargs):
            log.append((url, headers, chunk_size, kwargs))
            return make_parser([k], [])(url)
        return f
    for k in KINDS:
        for u in ("http://x/y.pdf", "", "u"):
            l1, l2 = [], []
            with patched((api, "extract_references_from_url", ustub(k, l1))):
                got = outcome(ex.extract_references_from_file_url, u, kb)
            old = sp.extract_references_from_url
            sp.extract_references_from_url = ustub(k, l2)
            try:
                want = outcome(sp.extract_references_from_file_url, u, kb)
            finally:
                sp.extract_references_from_url = old
            rep.same("url", got, want, key="result", url=u, kind=k)
            rep.same("url:calls", l1, l2, key="calls", url=u, kind=k)
    # with the real extractor
    for line in ("Phys. Rev. D 12 (1990) 123", "nothing", "Nucl.Phys. B1 (1999) 2, Phys.Lett. B3 (2000) 4", "JHEP 0412 (2015) 034"):
        want = outcome(api.extract_journal_reference, line, override_kbs_files={"journals": {}})
        got = outcome(ex.extract_journal_info, [{"pubinfo_freetext": line}], {})
        if want[0] == "return":
            rep.same("journal-real", got, ("return", {"extracted_publication_infos": [want[1] or {}]}), key=line)
    rep.sample(pubs)
