from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.callback import Traced
import spec.s_link as sp

E = "refextract.references.engine:"
EL = TRec({"type": TStr, "misc_txt": TStr}, {"recid": TAny}, extra=TAny)
CB = Traced()
CONTRACTS = [
    Contract(E + "associate_recids", spec=sp.associate_recids, args=dict(citation_elements=TList(EL), linker_callback=TAny), callback=CB, setup=CB.setup, final=CB.final,
             frame=("citation_elements",)),
    Contract(E + "add_recid_elements", spec=sp.add_recid_elements, args=dict(splitted_citations=TList(TList(EL))), frame=("splitted_citations",)),
]
ASSUMPTIONS = []
