"""Specifications of the service layer (C01, C02).  Executable; also run concretely."""
from refextract.references.api import (
    extract_journal_reference,
    extract_references_from_string,
    extract_references_from_url,
)

COMPACT = "{title},{volume},{page}"


def extract_references_from_list(raw_references, journal_kb_data):
    # one entry per raw reference, in order
    out = []
    for ref in raw_references:
        entry = {"raw_ref": [ref]}
        try:
            parsed = extract_references_from_string(
                ref, override_kbs_files={"journals": journal_kb_data}, reference_format=COMPACT
            )
            if parsed:
                entry = parsed[0]
        except Exception:
            entry = {"raw_ref": [ref]}
        out.append(entry)
    return {"extracted_references": out}


def extract_journal_info(publication_infos, journal_kb_data):
    out = []
    for info in publication_infos:
        found = {}
        text = info.get("pubinfo_freetext")
        if text:
            try:
                found = extract_journal_reference(text, override_kbs_files={"journals": journal_kb_data})
            except Exception:
                return None
            if not found:
                found = {}
        out.append(found)
    return {"extracted_publication_infos": out}


def extract_references_from_text(text, journal_kb_data):
    try:
        refs = extract_references_from_string(
            text, override_kbs_files={"journals": journal_kb_data}, reference_format=COMPACT
        )
    except Exception:
        return None
    return {"extracted_references": refs}


def extract_references_from_file_url(url, journal_kb_data):
    try:
        refs = extract_references_from_url(
            url, override_kbs_files={"journals": journal_kb_data}, reference_format=COMPACT
        )
    except Exception:
        return None
    return {"extracted_references": refs}


# direct postcondition of C01 (independent of the functional specification)
def post_one_entry_per_input(raw_references, result):
    return len(result["extracted_references"]) == len(raw_references) and len(result) == 1
