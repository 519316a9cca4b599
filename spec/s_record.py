"""C05, C06, C17(parts): the reported reference as a function of the recognised pieces."""

JUNK = "., [](){}"


def put(field, code, value):
    if value:
        if code in field:
            field[code].append(value)
        else:
            field[code] = [value]


def add_journal_subfield(field, element, reference_format):
    put(field, "journal_title", element.get("title"))
    put(field, "journal_volume", element.get("volume"))
    put(field, "journal_year", element.get("year"))
    put(field, "journal_page", element.get("page"))
    put(field, "journal_reference", reference_format.format(**element))


def create_reference_field(line_marker):
    if line_marker.strip(JUNK) and line_marker.strip("[](){}. "):
        return {"linemarker": [line_marker.strip("[](){}. ")]}
    return {}


def add_subfield(field, code, value):
    put(field, code, value)


# kind of element -> field, key of the recognised text
SIMPLE = [("REPORTNUMBER", "reportnumber", "report_num"), ("QUOTED", "title", "title"), ("BOOK", "title", "title"), ("ISBN", "isbn", "ISBN"),
          ("PUBLISHER", "publisher", "publisher"), ("YEAR", "year", "year"), ("COLLABORATION", "collaboration", "collaboration")]


def build_reference_fields(citation_elements, line_marker, raw_ref, reference_format):
    field = create_reference_field(line_marker)
    field["raw_ref"] = [raw_ref]
    for el in citation_elements:
        kind = el["type"]
        if el["misc_txt"].strip(JUNK):
            put(field, "misc", el["misc_txt"].lstrip("])} ,.").rstrip("[({ ,."))
        if kind == "JOURNAL":
            add_journal_subfield(field, el, reference_format)
        if kind == "URL":
            put(field, "url", el["url_string"])
            if el["url_desc"] != el["url_string"]:
                put(field, "urldesc", el["url_desc"])
        if kind == "DOI":
            put(field, "doi", "doi:" + el["doi_string"])
        if kind == "HDL":
            put(field, "hdl", "hdl:" + el["hdl_id"])
        if kind == "AUTH":
            if el["auth_type"] == "incl":
                put(field, "author", "(" + el["auth_txt"] + ")")
            else:
                put(field, "author", el["auth_txt"])
        if kind == "RECID":
            put(field, "recid", str(el["recid"]))
        for name, code, key in SIMPLE:
            if kind == name:
                put(field, code, el[key])
    return [field]
