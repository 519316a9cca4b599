from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_lines as sp

E = "refextract.references.engine:"
R = "refextract.references.record:"
X = "refextract.references.text:"
F = "refextract.references.find:"
A = "refextract.references.api:"
COUNTS = TExact({k: TInt for k in sp.NAMES})
LINE = Abstract(ret=TTup(TList(TAny), TStr, COUNTS, TAny))
CITES = TList(TRec({"elements": TList(TAny), "line_marker": TStr, "raw_ref": TStr}))
SUM = Abstract(ret=COUNTS, raises=False, name="sum_of_counts")
CONTRACTS = [
    Contract(E + "parse_references_elements", spec=sp.parse_references_elements, args=dict(ref_sect=TList(TStr), kbs=TAny, linker_callback=TAny),
             abstract={E + "parse_reference_line": LINE, X + "wash_and_repair_reference_line": Abstract(ret=TStr),
                       "refextract.references.tag:sum_2_dictionaries": SUM, sp.add_counts: SUM}),
    Contract(R + "build_references", spec=sp.build_all, args=dict(citations=CITES, reference_format=TAny),
             abstract={R + "build_reference_fields": Abstract(ret=TList(TAny))}),
    Contract(E + "parse_references", spec=sp.parse_references, args=dict(reference_lines=TList(TStr), recid=TAny, override_kbs_files=TAny, reference_format=TAny, linker_callback=TAny),
             abstract={E + "get_kbs": Abstract(ret=TAny), E + "parse_references_elements": Abstract(ret=TTup(TList(TAny), TAny, TAny)),
                       E + "build_references": Abstract(ret=TList(TAny)), E + "build_stats": Abstract(ret=TAny)}),
    Contract(R + "format_marker", spec=sp.format_marker, args=dict(line_marker=TStr)),
    Contract(E + "remove_reference_line_marker", spec=sp.remove_reference_line_marker, args=dict(line=TStr)),
    Contract(A + "extract_references_from_string", spec=sp.extract_references_from_string,
             args=dict(source=TStr, is_only_references=TBool, recid=TAny, reference_format=TAny, linker_callback=TAny, override_kbs_files=TAny),
             abstract={X + "extract_references_from_fulltext": Abstract(ret=TTup(TList(TStr), TAny, TAny)), X + "rebuild_reference_lines": Abstract(ret=TList(TStr)),
                       F + "get_reference_section_beginning": Abstract(ret=TOpt(TRec({"marker_pattern": TAny}, {}, extra=TAny))),
                       F + "find_numeration_in_body": Abstract(ret=TTup(TRec({"marker_pattern": TAny}, {}, extra=TAny), TAny)),
                       E + "parse_references": Abstract(ret=TTup(TList(TAny), TAny))}),
    Contract(A + "extract_journal_reference", spec=sp.extract_journal_reference, args=dict(line=TStr, override_kbs_files=TAny),
             abstract={E + "get_kbs": Abstract(ret=TAny), E + "parse_reference_line": Abstract(ret=TTup(TList(TList(TRec({"type": TStr}, {}, extra=TAny))), TAny, TAny, TAny))}),
]
ASSUMPTIONS = ["line washing, line parsing, section finding, line rebuilding, knowledge-base loading are deterministic functions of their arguments (their own behaviour: C07-C11, C14, C15)"]
