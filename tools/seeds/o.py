import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
T = "refextract/references/engine.py"
seed("c21-last-dated", "C21", [(T, '''                year = el["year"]
                break

        if not year:''', '''                year = el["year"]

        if not year:''')], "a citation with a journal followed by a book of another year", "the citation gets the year of the book", '''
from refextract.references.engine import add_year_elements as f
c = [{"type": "JOURNAL", "misc_txt": "", "title": "T", "volume": "1", "page": "2", "year": "1999"}, {"type": "BOOK", "misc_txt": "", "title": "B", "year": "2001"}]
f([c])
assert [e["year"] for e in c if e["type"] == "YEAR"] == ["1999"], c
''')
seed("c21-journal-carried-on", "C21", [(T, '''        current_journal = None
        for el in citation:
            if el["type"] == "JOURNAL":
                current_journal = el

    return splitted_citations''', '''        for el in citation:
            if el["type"] == "JOURNAL":
                current_journal = el

    return splitted_citations''')], "a citation without journal between one with a journal and one whose leftover text starts with numbers", "that citation gets a journal of the one before the one before it", '''
from refextract.references.engine import look_for_implied_ibids as f
c = [[{"type": "JOURNAL", "misc_txt": "", "title": "T", "volume": "1", "page": "2", "year": "1999"}], [{"type": "DOI", "misc_txt": "", "doi_string": "10.1/x"}], [{"type": "MISC", "misc_txt": "12 (1999) 34"}]]
f(c)
assert len(c[2]) == 1 and c[2][0]["misc_txt"] == "12 (1999) 34", c
''')
seed("c21-year-kept-in-first", "C21", [(T, '''                if year in el["misc_txt"]:
                    el["misc_txt"] = remove_year(el["misc_txt"], year)''', '''                if year in el["misc_txt"]:
                    el["misc_txt"] = remove_year(el["misc_txt"])''')], "leftover text with two different years", "the other year disappears as well", '''
from refextract.references.engine import add_year_elements as f
c = [{"type": "MISC", "misc_txt": "talk 1999, notes of 2001"}]
f([c])
assert "2001" in c[0]["misc_txt"], c
''')
seed("c21-book-by-text-order", "C21", [(T, '''                if citation_year == book_year:
                    # For now''', '''                if book_year.startswith(citation_year or book_year):
                    # For now''')], "a citation without any year whose text has the title of a known book", "the book of some year is reported for it", '''
from refextract.references.engine import look_for_undetected_books as f
c = [{"type": "MISC", "misc_txt": "J. Smith, Field Theory"}]
f([c], {"books": {"FIELD THEORY": ["Smith", "Field Theory", "1999"]}})
assert len(c) == 1 and c[0]["misc_txt"] == "J. Smith, Field Theory", c
''')
