import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_norm as sp

E = "refextract.references.engine:"
EL = TRec({"type": TStr, "misc_txt": TStr}, {"title": TStr, "volume": TStr, "year": TStr, "page": TStr, "report_num": TStr, "auth_txt": TStr, "url_string": TStr, "url_desc": TStr}, extra=TAny)


def rule(name, **kw):
    args = dict(citation_elements=TList(EL))
    args.update(kw.pop("args", {}))
    return Contract(E + name, spec=getattr(sp, name), args=args, frame=("citation_elements",), select=lambda r: None, **kw)


CONTRACTS = [
    rule("format_volume", abstract={}),
    rule("handle_special_journals", args=dict(citation_elements=TList(TRec({"type": TStr, "misc_txt": TStr, "title": TStr, "volume": TStr, "year": TStr, "page": TStr}, {}, extra=TAny)), kbs=TRec({"special_journals": TMap(TAny)}, {}, extra=TAny))),
    rule("format_report_number"), rule("format_hep"), rule("format_author_ed"), rule("split_volume_from_journal"),
    rule("remove_b_for_nucl_phys"), rule("mangle_volume"), rule("arxiv_urls_to_report_numbers"), rule("look_for_hdl_urls"),
    rule("look_for_books", args=dict(kbs=TRec({"books": TMap(TTup(TStr, TStr, TStr))}, {}, extra=TAny))),
]
ASSUMPTIONS = []


def roman_chars(I):
    """precondition: the text consists of the characters I, V, X"""
    t = z3.String("arg_num")
    c = lambda j: z3.SubString(t, j, 1)
    I.path.quants.append((z3.IntVal(0), lambda j: z3.Implies(j < z3.Length(t), z3.Or(c(j) == SV("I"), c(j) == SV("V"), c(j) == SV("X")))))


def numeral(I, comps, entry, n, fr):
    """every integer variable that only ever holds the value of a numeral"""
    for c in comps:
        for sub, srt in I.comp_sorts(c):
            if srt == Int:
                yield "numeral %s%s" % (c.label, sub), (lambda k, c=c, sub=sub: z3.Or(*[dict(I.comp_terms(c))[sub] == v for v in (0, 1, 5, 10)]))


CONTRACTS[0] = rule("format_volume", abstract={E + "roman2arabic": Abstract(ret=TInt, raises=False, name="roman_value"), sp.roman2arabic: Abstract(ret=TInt, raises=False, name="roman_value")})
CONTRACTS.append(Contract(E + "roman2arabic", spec=sp.roman2arabic, args=dict(num=TStr), setup=roman_chars, invariants=[("numeral", numeral)]))
BOUNDED = [dict(contract="look_for_hdl", target=E + "look_for_hdl", status="bounded", reason="inserts into the list while scanning text; compared at run time with an executable specification on random element lists")]
