from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_extract as sp

PARSER = "refextract.references.api:extract_references_from_string"
CONTRACTS = [
    Contract("refextract.extract:extract_references_from_list", spec=sp.extract_references_from_list,
             args=dict(raw_references=TList(TStr), journal_kb_data=TAny),
             abstract={PARSER: Abstract(ret=TList(TAny))}),
    Contract("refextract.extract:extract_references_from_list", name="extract_references_from_list(count)",
             args=dict(raw_references=TList(TStr), journal_kb_data=TAny),
             abstract={PARSER: Abstract(ret=TList(TAny), raises=Exception)},
             ensures={"one-entry-per-input": sp.post_one_entry_per_input}),
]
ASSUMPTIONS = ["the string parser is a deterministic function of its arguments (its state, the knowledge-base cache, is C10)",
               "raw references are strings; logging calls are dropped by the extraction"]
