import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
K = "refextract/references/kbs.py"
G = "refextract/references/tag.py"
seed("c10-falsy-override", "C10", [(K, '''for (kb_type, kb) in custom_kbs.items() if kb})''', '''for (kb_type, kb) in custom_kbs.items() if kb is not None})''')],
 "an override that is present but empty", "an empty knowledge base is used instead of the shipped one", '''
from refextract.references.kbs import get_kbs
k = get_kbs({"journals": {}}, {}, {})
assert len(k["journals"][2]) > 100, k["journals"]
''')
