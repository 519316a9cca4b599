import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
E = "refextract/references/engine.py"
PRE = '''
import os, tempfile, shutil
from refextract.references.engine import clean_pdf_file
d = tempfile.mkdtemp()
def clean(b):
    p = os.path.join(d, "f.pdf")
    open(p, "wb").write(b)
    clean_pdf_file(p)
    return open(p, "rb").read()
try:
%s
finally:
    shutil.rmtree(d)
'''
seed("c12-first-end", "C12", [(E, '''end = mmfile.rfind(b"%%EOF")''', '''end = mmfile.find(b"%%EOF", start)''')],
 "a PDF with more than one end mark (incremental updates)", "everything behind the first end mark is thrown away", PRE % '''
    assert clean(b"%PDF-1 a %%EOF b %%EOF") == b"%PDF-1 a %%EOF b %%EOF"
    assert clean(b"x%PDF-1 a %%EOF b %%EOF\\n") == b"%PDF-1 a %%EOF b %%EOF"
''')
seed("c12-last-header", "C12", [(E, '''start = mmfile.find(b"%PDF-")''', '''start = mmfile.rfind(b"%PDF-", 0, 4096)''')],
 "a PDF whose header mark occurs again near the front, or lies behind the first 4 KiB", "the start of the document is cut away or junk is kept", PRE % '''
    assert clean(b"%PDF-1.4 see %PDF-1.7 x %%EOF") == b"%PDF-1.4 see %PDF-1.7 x %%EOF"
    assert clean(b"j" * 5000 + b"%PDF-1.4 x %%EOF") == b"%PDF-1.4 x %%EOF"
''')
seed("c12-move-no-shrink", "C12", [(E, '''            mmfile.resize(end + offset - start)
            mmfile.flush()
        elif end > 0''', '''            if end + offset != mmfile.size():
                mmfile.resize(end + offset - start)
            mmfile.flush()
        elif end > 0''')],
 "junk before the header and nothing behind the end mark", "the file keeps its old size, so the tail of the document is repeated behind its end", PRE % '''
    assert clean(b"xy%PDF-1.4 x %%EOF") == b"%PDF-1.4 x %%EOF"
    assert clean(b"xy%PDF-1.4 x %%EOF\\n") == b"%PDF-1.4 x %%EOF"
''')
