import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
E = "refextract/references/engine.py"
seed("c07-third-author", "C07", [(E, """current_citation.__getitem__ if num_auth == 1 else current_citation.pop""", """current_citation.__getitem__ if num_auth % 2 == 1 else current_citation.pop""")],
 "a citation with three author groups followed by another citation", "the author group is reported in both citations", """
from refextract.references.engine import split_citations_iter
A = lambda n: {"type": "AUTH", "auth_txt": n, "misc_txt": ""}
els = [A("A"), A("B"), {"type": "JOURNAL", "misc_txt": ""}, A("C"), {"type": "JOURNAL", "misc_txt": ""}]
c = list(split_citations_iter(els))
assert [[e.get("auth_txt") for e in x if e["type"] == "AUTH"] for x in c] == [["A", "B"], ["C"]], c
""")
seed("c07-collab-elements", "C07", [(E, '''                if el["collaboration"] in collabs:
                    citation.remove(el)
                else:
                    collabs.append(el["collaboration"])''', '''                if any(c in el["collaboration"] for c in collabs):
                    citation.remove(el)
                else:
                    collabs.append(el["collaboration"])''')],
 "two collaborations of which one name contains the other", "the second, different collaboration is dropped", '''
from refextract.references.engine import remove_duplicated_collaborations
c = [[{"type": "COLLABORATION", "collaboration": "CMS", "misc_txt": ""}, {"type": "COLLABORATION", "collaboration": "ATLAS-CMS", "misc_txt": ""}]]
remove_duplicated_collaborations(c)
assert len(c[0]) == 2, c
''')
