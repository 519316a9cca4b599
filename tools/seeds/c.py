import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
E = "refextract/references/engine.py"
seed("c18-short-year", "C18", [(E, '''el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])''', '''el["volume"] = el["year"][2:4] + "%02d" % int(el["volume"])''')],
 "a special-journal citation whose year is written with two digits", "the year prefix of the volume is missing", '''
from refextract.references.engine import handle_special_journals
els = [{"type": "JOURNAL", "title": "JHEP", "volume": "5", "year": "98", "page": "1", "misc_txt": ""}]
handle_special_journals(els, {"special_journals": {"JHEP": True}})
assert els[0]["volume"] == "9805", els
''')
seed("c18-first-semicolon", "C18", [(E, '''el["title"], series = el["title"].rsplit(";", 1)''', '''el["title"], series = el["title"].split(";", 1)''')],
 "a journal title with two semicolons", "part of the title ends up in the volume", '''
from refextract.references.engine import split_volume_from_journal
els = [{"type": "JOURNAL", "title": "A;Math.;B", "volume": "5", "year": "98", "page": "1", "misc_txt": ""}]
split_volume_from_journal(els)
assert (els[0]["title"], els[0]["volume"]) == ("A;Math.", "B5"), els
''')
seed("c18-hep-any-kind", "C18", [(E, '''                if el["report_num"].startswith(p):
                    el["report_num"] = (
                        el["report_num"][: len(p) - 1]
                        + "/"
                        + el["report_num"][len(p) :]
                    )
''', '''                if el["report_num"].startswith(p):
                    el["report_num"] = el["report_num"].replace(p, p[:-1] + "/")
''')], "a report number in which the category occurs twice", "a second dash of the report number is changed too", '''
from refextract.references.engine import format_hep
els = [{"type": "REPORTNUMBER", "report_num": "hep-th-9711200-hep-th-9", "misc_txt": ""}]
format_hep(els)
assert els[0]["report_num"] == "hep-th/9711200-hep-th-9", els
''')
