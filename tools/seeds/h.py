import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
G = "refextract/references/tag.py"
T = "refextract/documents/text.py"
DEMO = '''
from refextract import extract_references_from_string
line, field, want = %r
got = extract_references_from_string(line, is_only_references=True)
assert [x for r in got for x in r.get(field, [])] == want, got
assert "cds." not in repr(got), got
'''
seed("c16-single-spaces", "C16", [(G, '''            # An institutional preprint report-number is being replaced.
            # Account for multi-spaces that may have been stripped from it
            # before its recognition:
            spare_replacement_index += removed_spaces[space]
            extras += removed_spaces[space]
''', '''            # An institutional preprint report-number is being replaced.
            # Account for multi-spaces that may have been stripped from it
            # before its recognition:
            extras += removed_spaces[space]
''')],
 "a report number with two runs of removed characters inside, the second further in than its length in the collapsed line", "the end of the report number stays in the line", '''
from refextract.references.tag import tag_reference_line
from refextract.references.kbs import get_kbs
got = tag_reference_line("alpha, DESY - - - - - - 98 - - - 001 omega", get_kbs(), {})[0]
assert got.endswith("<cds.REPORTNUMBER>DESY-98-001</cds.REPORTNUMBER> omega"), got
''')
seed("c16-tabs", "C16", [(T, '''        removed_spaces[multispace.start()] = multispace.end() - multispace.start() - 1
''', '''        removed_spaces[multispace.start()] = line.count(
            " ", multispace.start(), multispace.end()
        ) - 1
''')],
 "a run of white space that is not all blanks, before an item", "items behind it are cut out too early", '''
from refextract.documents.text import remove_and_record_multiple_spaces_in_line as f
from refextract.references.tag import tag_reference_line
from refextract.references.kbs import get_kbs
removed, line = f("a \\t\\t b")
assert removed == {1: 3} and line == "a b", (removed, line)
got = tag_reference_line("alpha\\u00a0 \\u00a0 omega Phys. Rev. D 12 (1999) 345, omega", get_kbs(), {})[0]
assert got.endswith("omega <cds.JOURNAL>Phys. Rev. D</cds.JOURNAL> <cds.VOL>12</cds.VOL> <cds.YR>(1999)</cds.YR> <cds.PG>345</cds.PG>, omega"), got
''')
