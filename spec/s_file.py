"""C04: extraction from a file."""
import os
import magic
from inspire_utils.dedupers import dedupe_list
from refextract.references.api import parse_references, extract_references_from_fulltext, extract_texkeys_and_urls_from_pdf
from refextract.references.engine import get_plaintext_document_body
from spec.s_record import put
from refextract.references.errors import FullTextNotAvailableError


def add_urls(reference, urls):
    for url in urls:
        put(reference, "url", url)


def extract_references_from_file(path, recid=None, reference_format="{title} {volume} ({year}) {page}", linker_callback=None, override_kbs_files=None):
    if not os.path.isfile(path):
        raise FullTextNotAvailableError()
    lines = extract_references_from_fulltext(get_plaintext_document_body(path))[0]
    if not lines:
        lines = extract_references_from_fulltext(get_plaintext_document_body(path, keep_layout=True))[0]
    refs = parse_references(lines, recid=recid, reference_format=reference_format, linker_callback=linker_callback, override_kbs_files=override_kbs_files)[0]
    if magic.from_file(path, mime=True) != "application/pdf":
        return refs
    links = extract_texkeys_and_urls_from_pdf(path)
    if len(links) != len(refs):
        return refs
    out = []
    for i in range(len(refs)):
        new = dict(refs[i])
        if "url" in new:
            new["url"] = list(new["url"])
        add_urls(new, links[i].get("urls", []))
        if new.get("url"):
            new["url"] = dedupe_list(new["url"])
        new["texkey"] = [links[i]["texkey"]]
        out.append(new)
    return out


def add_urls_frame(reference, url_set):
    add_urls(reference, url_set)
