from datetime import datetime
import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf
import spec.s_lines as sp
from contracts.c05 import E, X, COUNTS, LINE

G = "refextract.references.tag:"


class Now(ModelObj):
    def m_strftime(self, I, fmt):
        return Sym("str", uf("now", Str, Str)(I.prim(fmt, "str")))


def inv(I, comps, entry, n, fr):
    """any dictionary of the code equals the six sums of the specification so far"""
    names = {"misc": "misc", "title": "title", "reportnum": "rep", "url": "url", "doi": "doi", "auth_group": "auth"}
    for f in I.path.folds:
        fns = {l[2:]: fn for (l, sub), fn in f.fns.items()}
        if not all(v in fns for v in names.values()):
            continue

        def want(k):
            a = EMPTY_ARR
            for key in sorted(names):
                a = z3.Store(a, I.key_term(key), U.uint(fns[names[key]](k)))
            return a
        for c in comps:
            for sub, srt in I.comp_sorts(c):
                if srt in (U, ArrU):
                    def g(k, c=c, sub=sub, srt=srt):
                        t = dict(I.comp_terms(c)).get(sub)
                        return None if t is None else t == (U.udict(want(k)) if srt == U else want(k))
                    yield "sums %s%s" % (c.label, sub), g


CONTRACTS = [
    Contract(G + "sum_2_dictionaries", spec=sp.sum_2_dictionaries, args=dict(dicta=TMap(TInt), dictb=TMap(TInt)), frame=("dicta", "dictb")),
    Contract(E + "parse_references_elements", name="parse_references_elements(sums)", spec=sp.sums, args=dict(ref_sect=TList(TStr), kbs=TAny, linker_callback=TAny),
             abstract={E + "parse_reference_line": LINE, X + "wash_and_repair_reference_line": Abstract(ret=TStr)}, select=lambda r: r[1], invariants=[("sums", inv)]),
    Contract(E + "build_stats", spec=sp.build_stats_spec, args=dict(counts=COUNTS),
             models={"name:datetime.datetime.now": lambda I, *a: Now(Now), sp.now_text: lambda I: Sym("str", uf("now", Str, Str)(SV("%Y-%m-%d %H:%M:%S")))}),
]
ASSUMPTIONS = ["washing and parsing of one line are deterministic functions of their arguments", "the date reported is whatever the clock says"]
