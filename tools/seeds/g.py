import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
K = "refextract/references/kbs.py"
PRE = '''
import os, tempfile, shutil
from refextract.references.kbs import load_kb_by_type
d = tempfile.mkdtemp()
def kb(kind, text):
    p = os.path.join(d, "kb")
    open(p, "w", encoding="utf-8").write(text)
    return load_kb_by_type(kind, p)
try:
%s
finally:
    shutil.rmtree(d)
'''
seed("c11-longest-by-words", "C11", [(K, '''seek_phrases.sort(key=len, reverse=True)''', '''seek_phrases.sort(key=lambda phrase: len(phrase.split()), reverse=True)''')],
 "two phrases with the same number of words, one inside the other or longer", "search phrases are no longer tried longest first", PRE % '''
    _, _, phrases = kb("journals", "B C---X\\nLONGER PHRASE---Y\\n")
    assert [len(p) for p in phrases] == sorted((len(p) for p in phrases), reverse=True), phrases
''')
seed("c11-title-shadows-entry", "C11", [(K, '''        if raw_repl_phrase not in kb:
''', '''        if raw_repl_phrase not in standardised_titles.values():
''')],
 "a replacement title that is, in upper case and without punctuation, also a search phrase with another replacement", "the entry's replacement is replaced by the title itself", PRE % '''
    kb_, std, _ = kb("journals", "FOO BAR---Other T.\\nFB---Foo. Bar.\\n")
    assert std["FOO BAR"] == "Other T.", std
''')
seed("c11-short-malformed", "C11", [(K, '''            else:
                raise ValueError("Badly formatted kb''', '''            elif "---" in rawline:
                raise ValueError("Badly formatted kb''')],
 "a line of a titles, publishers or collaborations file without the separator", "the entry is dropped without an error", PRE % '''
    for kind in ("journals", "publishers", "collaborations"):
        try:
            kb(kind, "A---B\\nFoo Bar -- F.B.\\n")
        except ValueError:
            continue
        raise AssertionError(kind)
''')
seed("c11-numbers-last-institute", "C11", [(K, '''            m_numeration_pattern = re_numeration_pattern.search(rawline)
            if m_numeration_pattern:
''', '''            m_numeration_pattern = re_numeration_pattern.search(rawline)
            if m_numeration_pattern and not current_institute_preprint_classifications:
''')],
 "a report-number knowledge base in which a numeration pattern follows a category of the same institute", "that numeration pattern is lost", PRE % '''
    pats, std = kb("report-numbers", "*****X*****\\n<s999>\\nFOO---foo\\n<s9999 99>\\n")
    assert any(p.search("X FOO 1234 56 Y") and p.search("X FOO 1234 56 Y").group("numn").strip() == "1234 56" for p in pats.values())
''')
