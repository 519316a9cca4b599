import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_complete as sp

E = "refextract.references.engine:"
EL = TRec({"type": TStr, "misc_txt": TStr}, {"year": TOpt(TStr)}, extra=TAny)
DATED = TRec({"type": TStr, "misc_txt": TStr, "year": TOpt(TStr)}, {}, extra=TAny)
YEAR = {"refextract.references.regexs:remove_year": Abstract(ret=TStr, raises=False)}


def no_fail(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")


CONTRACTS = [
    Contract(E + "year_from_citation", spec=sp.year_from_citation, args=dict(citation=TList(EL))),
    Contract(E + "is_unknown_citation", spec=sp.is_unknown_citation, args=dict(citation=TList(EL))),
    Contract(E + "add_year_elements", args=dict(splitted_citations=TList(TList(DATED))), final=no_fail, abstract=YEAR),
    Contract(E + "search_for_book_in_misc", spec=sp.search_for_book_in_misc, args=dict(citation=TList(EL), kbs=TRec({"books": TMap(TTup(TStr, TStr, TStr))}, {}, extra=TAny)), frame=("citation",),
             abstract=dict(YEAR, **{E + "find_substring_ignore_special_chars": Abstract(ret=TInt, raises=False), E + "cut_substring_with_special_chars": Abstract(ret=TStr, raises=False), E + "get_possible_author_names": Abstract(ret=TList(TStr), raises=False)})),
]
ASSUMPTIONS = ["journals and books have a year field, possibly empty (in the contract of add_year_elements; books without one are compared at run time)", "which texts a year, a numeration or a title is found in, and what is cut out of them, are functions of the text (compared at run time)",
               "citation elements are distinct objects"]
BOUNDED = [dict(contract="the year added and taken out of the texts", target=E + "add_year_elements", status="bounded", reason="proved: no exception; equality with the description takes more than 450 s of inference; compared on random lists of up to 4 citations of up to 4 elements"),
           dict(contract="implied journals", target=E + "look_for_implied_ibids", status="bounded", reason="appends to the list it goes through; compared on random lists of up to 4 citations of up to 4 elements, with a description and with the statement"),
           dict(contract="what is cut out of a text", target=E + "cut_substring_with_special_chars", status="bounded", reason="matching of characters in upper case; compared on texts with characters whose upper case is longer, and on remove_year likewise")]
