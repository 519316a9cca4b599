"""C03: the result of URL extraction as a function of what is served (no file left: final state = initial)."""
import requests
from refextract.references.errors import FullTextNotAvailableError


def tmp_available():
    """primitive: a temporary file can be created (may fail)"""


def tmp_open():
    """primitive: it can be opened for writing (may fail)"""


def tmp_write(body, chunk):
    """primitive: one write (may fail)"""
    return body + chunk


def parse_bytes(body, **options):
    """primitive: references of a file with this content"""


def served(url, headers, chunk_size):
    req = requests.get(url=url, headers=headers, stream=True)
    req.raise_for_status()
    return req.iter_content(chunk_size)


def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
    tmp_available()
    try:
        chunks = served(url, headers, chunk_size)
        tmp_open()
        body = b""
        for chunk in chunks:
            body = tmp_write(body, chunk)
        return parse_bytes(body, **kwargs)
    except requests.exceptions.HTTPError:
        raise FullTextNotAvailableError()
