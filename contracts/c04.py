import os
import magic
import inspire_utils.dedupers
from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_file as sp
from contracts.summ import m_put

A = "refextract.references.api:"
REF = TRec({}, {"url": TList(TStr)}, extra=TAny)
LINK = TRec({"texkey": TAny}, {"urls": TList(TStr)})
LINES = Abstract(ret=TTup(TList(TStr), TAny, TAny))
COMMON = {
    "refextract.references.engine:get_plaintext_document_body": Abstract(ret=TList(TStr)),
    A + "extract_references_from_fulltext": LINES,
    A + "parse_references": Abstract(ret=TTup(TList(REF), TAny)),
    A + "extract_texkeys_and_urls_from_pdf": Abstract(ret=TList(LINK)),
    magic.from_file: Abstract(ret=TStr, name="magic.from_file"),
    os.path.isfile: Abstract(ret=TBool, raises=False, name="os.path.isfile"),
    inspire_utils.dedupers.dedupe_list: Abstract(ret=TList(TStr), raises=False, name="dedupe_list"),
}
CONTRACTS = [
    Contract(A + "extract_references_from_file", spec=sp.extract_references_from_file,
             args=dict(path=TStr, recid=TAny, reference_format=TAny, linker_callback=TAny, override_kbs_files=TAny), abstract=COMMON, models={sp.put: m_put, "refextract.references.record:add_subfield": m_put}),
    Contract("refextract.references.record:update_reference_with_urls", spec=sp.add_urls_frame,
             args=dict(reference=REF, url_set=TList(TStr)), frame=("reference",)),
]
ASSUMPTIONS = ["text extraction, section finding, line parsing, file-type detection and PDF link reading are deterministic functions of their arguments (their own behaviour: C05, C14, C15, C19)",
               "inspire_utils.dedupe_list is an external function (checked at run time)"]
