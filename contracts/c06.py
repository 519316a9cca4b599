from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_record as sp
from contracts.summ import m_put, FIELD

R = "refextract.references.record:"
# which keys the elements of each kind carry (established by C09's contracts)
EL = TRec({k: TStr for k in ("type", "misc_txt", "report_num", "title", "volume", "year", "page", "url_string", "url_desc", "doi_string", "hdl_id",
                             "auth_txt", "auth_type", "ISBN", "publisher", "collaboration")} | {"recid": TAny}, {}, extra=TAny)
CONTRACTS = [
    Contract(R + "build_reference_fields", spec=sp.build_reference_fields,
             args=dict(citation_elements=TList(EL), line_marker=TStr, raw_ref=TStr, reference_format=TStr),
             models={sp.put: m_put, R + "add_subfield": m_put}),
    Contract(R + "add_journal_subfield", spec=sp.add_journal_subfield, models={sp.put: m_put, R + "add_subfield": m_put}, args=dict(field=FIELD, element=EL, reference_format=TStr), frame=("field", "element")),
    Contract(R + "add_subfield", spec=sp.add_subfield, name="add_subfield=summary", models={sp.put: m_put}, args=dict(field=FIELD, code=TStr, value=TOpt(TStr)), frame=("field",)),
    Contract(R + "add_subfield", spec=sp.add_subfield, args=dict(field=FIELD, code=TStr, value=TOpt(TStr)), frame=("field",)),

    Contract(R + "create_reference_field", spec=sp.create_reference_field, args=dict(line_marker=TStr)),
]
ASSUMPTIONS = ["an element of each kind carries the keys of its kind", "str.strip/lstrip/rstrip/format are uninterpreted functions of their arguments in the proof (their real behaviour is exercised at run time)"]
