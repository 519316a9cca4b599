import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
X = "refextract/extract.py"; A = "refextract/references/api.py"
STUB = '''
import refextract.extract as ex, refextract.references.api as api
def stub(f):
    for m in (ex, api):
        if hasattr(m, "extract_references_from_string"): m.extract_references_from_string = f
'''
seed("c01-exc-types", "C01", [(X, '''            else:
                extracted_references.append({"raw_ref": [reference]})
        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}.''', '''            else:
                extracted_references.append({"raw_ref": [reference]})
        except (ValueError, LookupError, TypeError, AttributeError) as e:
            LOGGER.error(f"Failed to extract reference: {reference}.''')],
 "a parser failure of a kind other than value, lookup, type or attribute errors (e.g. RecursionError) on some string",
 "a parser error escapes to the caller and every entry is lost", STUB + '''
def f(s, **k):
    if s == "b": raise RecursionError("deep")
    return [{"raw_ref": [s], "n": s}]
stub(f)
r = ex.extract_references_from_list(["a", "b", "c"], {})
assert r == {"extracted_references": [{"raw_ref": ["a"], "n": "a"}, {"raw_ref": ["b"]}, {"raw_ref": ["c"], "n": "c"}]}, r
''')
seed("c01-stale-fallback", "C01", [(X, '''    journal_dict = {"journals": journal_kb_data}
    extracted_references = []
    for reference in raw_references:
        try:
''', '''    journal_dict = {"journals": journal_kb_data}
    extracted_references = []
    extracted_reference = []
    for reference in raw_references:
        try:
'''), (X, '''            if extracted_reference:
                extracted_references.append(extracted_reference[0])
            else:
                extracted_references.append({"raw_ref": [reference]})
        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
            extracted_references.append({"raw_ref": [reference]})
''', '''        except Exception as e:
            LOGGER.error(f"Failed to extract reference: {reference}. Reason: {str(e)}")
        if extracted_reference:
            extracted_references.append(extracted_reference[0])
        else:
            extracted_references.append({"raw_ref": [reference]})
''')], "a parser failure on a string that follows one that parsed", "the entry of the failing string is the entry of the previous string", STUB + '''
def f(s, **k):
    if s == "b": raise ValueError("x")
    return [{"raw_ref": [s], "n": s}]
stub(f)
r = ex.extract_references_from_list(["a", "b", "c"], {})
assert r["extracted_references"][1] == {"raw_ref": ["b"]}, r
''')
seed("c02-partial-list", "C02", [(X, '''        LOGGER.error(f"Failed to extract publication info data. Reason: {str(e)}")
        return None
''', '''        LOGGER.error(f"Failed to extract publication info data. Reason: {str(e)}")
        if not extracted_publication_infos:
            return None
''')], "a failure on the second or a later publication info", "a partial list is returned instead of an absent result", '''
import refextract.extract as ex, refextract.references.api as api
def f(s, **k):
    if s == "b": raise ValueError("x")
    return {"t": s}
for m in (ex, api):
    if hasattr(m, "extract_journal_reference"): m.extract_journal_reference = f
r = ex.extract_journal_info([{"pubinfo_freetext": "a"}, {"pubinfo_freetext": "b"}], {})
assert r is None, r
''')
seed("c03-cleanup-on-http-error-only", "C03", [(A, '''        raise FullTextNotAvailableError(f"URL not found: '{url}'") from exc
    finally:
        os.remove(filepath)
    return references
''', '''        os.remove(filepath)
        raise FullTextNotAvailableError(f"URL not found: '{url}'") from exc
    except Exception:
        if os.path.getsize(filepath):
            os.remove(filepath)
        raise
    os.remove(filepath)
    return references
''')], "a connection failure before the first chunk is written", "the (empty) temporary file is left behind", '''
import os, tempfile, shutil
import refextract.references.api as api
d = tempfile.mkdtemp(); tempfile.tempdir = d
try:
    class R:
        def raise_for_status(self): pass
        def iter_content(self, n):
            raise OSError("connection reset")
            yield b""
    api.requests.get = lambda *a, **k: R()
    try:
        api.extract_references_from_url("http://x.invalid/a.pdf")
    except OSError:
        pass
    left = os.listdir(d)
finally:
    shutil.rmtree(d)
assert not left, left
''')
