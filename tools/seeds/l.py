import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
T = "refextract/references/tag.py"
seed("c08-repeated-doi", "C08", [(T, '''        # Add the single DOI string to the list of DOI strings
        doi_strings.append(doi_phrase)
''', '''        # Add the single DOI string to the list of DOI strings
        if doi_phrase not in doi_strings[-1:]:
            doi_strings.append(doi_phrase)
''')], "the same DOI twice in a row on one line", "it is reported once, its second placeholder takes the next DOI", '''
from refextract.references.tag import identify_and_tag_DOI as f
line, dois = f("see 10.1103/PhysRevD.1.2 and doi:10.1103/PhysRevD.1.2, 10.1007/ab")
assert line.count("<cds.DOI />") == len(dois) == 3, (line, dois)
''')
seed("c08-url-string-order", "C08", [(T, '''    found_url_positions = sorted(found_url_urlstring.keys())
    for url_position in found_url_positions:
        identified_urls.append(''', '''    found_url_positions = sorted(found_url_urlstring.keys(), key=str)
    for url_position in found_url_positions:
        identified_urls.append(''')], "URLs at positions with different numbers of digits whose text order differs", "the URLs are reported in another order than they occur", '''
from refextract.references.tag import identify_and_tag_URLs as f
line, urls = f("see our http://a.org/x and also http://b.org/y")
assert [u for u, _ in urls] == ["http://a.org/x", "http://b.org/y"], urls
''')
seed("c08-doi-encoded-slash", "C08", [(T, '''        if "%2f" in doi_phrase.lower():
            doi_phrase = unquote(doi_phrase)

        # Replace the entire matched doi with a tag
        line = line[0:start] + "<cds.DOI />" + line[end:]
''', '''        if "%2f" in doi_phrase.lower():
            doi_phrase = unquote(doi_phrase)
            end = start + match.group(0).rindex(match.group("doi")) + len(doi_phrase)

        # Replace the entire matched doi with a tag
        line = line[0:start] + "<cds.DOI />" + line[end:]
''')], "a DOI with an encoded slash", "the end of the DOI is left in the line", '''
from refextract.references.tag import identify_and_tag_DOI as f
line, dois = f("A. Author, doi:10.1103%2FPhysRevLett.19.1264 (1967)")
assert (line, dois) == ("A. Author, <cds.DOI /> (1967)", ["10.1103/PhysRevLett.19.1264"]), (line, dois)
''')
seed("c08-link-description", "C08", [(T, '''        found_url_urldescr[startposn] = m_tagged_url.group("desc")
''', '''        found_url_urldescr[startposn] = m_tagged_url.group("desc")
        if re_raw_url.match(m_tagged_url.group("desc")):
            # the description is a URL itself
            found_url_urlstring[startposn] = m_tagged_url.group("desc")
''')], "a link whose text is another URL", "the text is reported in place of the link", '''
from refextract.references.tag import identify_and_tag_URLs as f
line, urls = f('<a href="http://bar.org/x">http://z.org</a>, 2001')
assert urls == [("http://bar.org/x", "http://z.org")], urls
''')
