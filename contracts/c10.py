import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf

K = "refextract.references.kbs:"
KAP = z3.String("any_kind")          # an arbitrary kind: what is proved for it holds for all
KEY = Key.kstr(KAP)
CFG = z3.Const("shipped", ArrU)
load = lambda kb: uf("load!val", U, U, U)(U.ustr(KAP), kb)
POS = uf("dict!pos", ArrU, Key, Int)


def sel(a):
    return z3.Select(a, KEY)


def setup(I):
    I.ghost["witness_keys"] = [KEY]
    d = DictV(base=CFG, ty=TMap(TAny))
    I.ghost["cfg"] = d
    I.engine.global_override.setdefault("refextract.references.kbs", {})["CFG_REFEXTRACT_KBS"] = d
    I.path.assume(sel(CFG) != U.none)      # every shipped kind has a source
    I.path.assume(coherent(z3.Const("arg_cache", U), z3.Const("arg_cache_inputs", U)))


def coherent(c, i):
    c, i = U.dval(c), U.dval(i)
    return z3.Implies(sel(i) != U.absent, sel(c) == load(sel(i)))


def wanted(I):
    """the source asked for: the override if there is one, the shipped one otherwise"""
    cu = z3.Const("arg_custom_kbs", U)
    o = z3.If(cu == U.none, U.absent, sel(U.dval(cu)))
    return z3.If(z3.And(o != U.absent, I.truth(Sym("any", o))), o, sel(CFG))


def inv(I, comps, entry, n, fr):
    roots = I.ghost.get("roots", {})
    cache, inputs = roots.get("cache"), roots.get("cache_inputs")
    objs = {id(c.obj): c for c in comps if c.set is None}
    A = lambda o: I.arr(o)
    if id(cache) in objs and id(inputs) in objs:
        yield "coherent", lambda k: z3.Implies(sel(A(inputs)) != U.absent, sel(A(cache)) == load(sel(A(inputs))))
        for f in [fr]:
            for name, d in f.vars.items():
                if isinstance(d, DictV) and d is not cache and d is not inputs and d.parent is None and d.base is not None:
                    yield "done " + name, lambda k, d=d: z3.Implies(z3.And(sel(A(d)) != U.absent, POS(A(d), KEY) < k), z3.And(sel(A(inputs)) == sel(A(d)), sel(A(cache)) == load(sel(A(d)))))
        return
    cu = roots.get("custom_kbs")
    if isinstance(cu, DictV):
        for c in comps:
            if c.set is None and isinstance(c.obj, DictV):
                o = sel(A(cu))
                want = z3.If(z3.And(o != U.absent, I.truth(Sym("any", o))), o, U.absent)
                yield "taken", lambda k, c=c, want=want: sel(A(c.obj)) == z3.If(POS(A(cu), KEY) < k, want, U.absent)
                yield "untaken", lambda k, c=c, o=o: z3.Implies(o == U.absent, sel(A(c.obj)) == U.absent)


def final(I, out, a):
    c, i = I.arr(a["cache"]), I.arr(a["cache_inputs"])
    yield "remembered-source-is-the-loaded-one", z3.Implies(sel(i) != U.absent, sel(c) == load(sel(i)))
    if out[0] == "return":
        r = out[1]
        yield "result-is-a-dictionary", z3.BoolVal(isinstance(r, DictV))
        if isinstance(r, DictV):
            yield "requested-knowledge-base", z3.Implies(wanted(I) != U.absent, sel(I.arr(r)) == load(wanted(I)))


class Load(Abstract):
    """callee with a precondition: only called when the source differs from the one remembered"""

    def apply(self, I, name, bound):
        t, kb = bound[0][1], bound[1][1]
        i = I.sel(I.arr(I.ghost["roots"]["cache_inputs"]), I.key_term(t))
        I.engine.prove(I, "get_kbs/pre:load-only-when-the-source-differs", I.to_u(kb) != i)
        return Abstract.apply(self, I, name, bound)


G = "refextract.references.tag:"
TEXT = Abstract(ret=TStr)
FOUND = Abstract(ret=TMap(TAny))
KBS = TRec({"journals": TTup(TMap(TAny), TMap(TAny), TList(TStr)), "journals_re": TList(TTup(TStr, TStr)), "report-numbers": TAny, "publishers": TAny}, {}, extra=TAny)


def unchanged(I, out, a):
    yield "knowledge-bases-unchanged", I.arr(a["kbs"]) == U.dval(z3.Const("arg_kbs", U))


CONTRACTS = [
    Contract(G + "tag_reference_line", args=dict(line=TStr, kbs=KBS, record_titles_count=TMap(TInt)), final=unchanged,
             abstract={"refextract.documents.text:wash_line": TEXT, "refextract.documents.text:upper_same_length": TEXT, "refextract.documents.text:remove_and_record_multiple_spaces_in_line": Abstract(ret=TTup(TMap(TInt, TInt), TStr)),
                       G + "tag_pos_volume": TEXT, G + "tag_quoted_text": TEXT, G + "tag_isbn": TEXT, G + "tag_arxiv": TEXT, G + "tag_arxiv_more": TEXT, G + "tag_atlas_conf": TEXT,
                       G + "identifiy_journals_re": Abstract(ret=TMap(TTup(TStr, TStr), TInt)), G + "strip_tags": TEXT, G + "identify_report_numbers": Abstract(ret=TTup(TMap(TInt, TInt), TMap(TStr, TInt), TStr)), G + "identify_journals": Abstract(ret=TTup(TMap(TAny, TInt), TStr, TAny)),
                       G + "sum_2_dictionaries": FOUND, G + "identify_ibids": Abstract(ret=TTup(TMap(TAny, TInt), TStr)), G + "identify_publishers": Abstract(ret=TMap(TStr, TInt)), G + "process_reference_line": TEXT}),
    Contract(K + "get_kbs", args=dict(custom_kbs=TOpt(TMap(TAny)), cache=TMap(TAny), cache_inputs=TMap(TAny)), abstract={K + "load_kb_by_type": Load(name="load")},
             setup=setup, final=final, invariants=[("kbs", inv)]),
]
ASSUMPTIONS = ["a knowledge base is a function of its kind and its source (load_kb_by_type, C11)"]
BOUNDED = [dict(contract="helpers leave the knowledge bases alone", target=G + "process_reference_line", status="bounded", reason="knowledge bases compared before and after processing the corpus of lines")]
