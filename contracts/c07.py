import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_split as sp

E = "refextract.references.engine:"
EL = TRec({"type": TStr, "misc_txt": TStr}, {"is_arxiv": TBool, "auth_txt": TStr, "collaboration": TStr}, extra=TAny)
AUTH = TRec({"type": TStr, "misc_txt": TStr, "auth_txt": TStr, "collaboration": TStr}, {}, extra=TAny)

CONTRACTS = [
    Contract(E + "split_needed", spec=sp.split_needed, args=dict(next_el=EL, current_types=TSet, last_type=TOpt(TStr))),
    Contract(E + "postpone_last_auth", spec=sp.postpone_last_auth, args=dict(current_citation=TList(EL), num_auth=TInt), frame=("current_citation",)),
    Contract(E + "remove_duplicated_authors", spec=sp.remove_duplicated_authors, args=dict(splitted_citations=TList(TList(AUTH))), frame=("splitted_citations",)),
    Contract(E + "remove_duplicated_dois", spec=sp.remove_duplicated_dois, args=dict(splitted_citations=TList(TList(EL))), frame=("splitted_citations",)),
    Contract(E + "remove_duplicated_collaborations", spec=sp.remove_duplicated_collaborations, args=dict(splitted_citations=TList(TList(AUTH))), frame=("splitted_citations",)),
]
ASSUMPTIONS = []
BOUNDED = [dict(contract="split_citations_iter", target=E + "split_citations_iter", status="bounded", reason="generator; every list of up to 4 elements of 8 kinds, and random lists of up to 11")]
