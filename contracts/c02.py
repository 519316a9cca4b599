from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_extract as sp

A = "refextract.references.api:"
CONTRACTS = [
    Contract("refextract.extract:extract_journal_info", spec=sp.extract_journal_info,
             args=dict(publication_infos=TList(TRec({}, {"pubinfo_freetext": TOpt(TStr)})), journal_kb_data=TAny),
             abstract={A + "extract_journal_reference": Abstract(ret=TAny)}),
    Contract("refextract.extract:extract_references_from_text", spec=sp.extract_references_from_text,
             args=dict(text=TAny, journal_kb_data=TAny),
             abstract={A + "extract_references_from_string": Abstract(ret=TAny)}),
    Contract("refextract.extract:extract_references_from_file_url", spec=sp.extract_references_from_file_url,
             args=dict(url=TAny, journal_kb_data=TAny),
             abstract={A + "extract_references_from_url": Abstract(ret=TAny, name="from_url")}),
]
ASSUMPTIONS = ["the extractors are deterministic functions of their arguments", "logging calls are dropped by the extraction"]
