import re
import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.values import ModelObj
from pyver.interp import uf
import spec.s_section as sp

F = "refextract.references.find:"
R = "refextract.references.regexs:"
X = "refextract.references.text:"
PATS = TList(TObj(re.Pattern))


class Match(ModelObj):
    """the match of a list of patterns, or None: which groups there are is not known, those there are take part"""

    def __init__(self, us):
        ModelObj.__init__(self, re.Match)
        self.found, self.t = uf("match!found", U, U, Bool)(*us), uf("match!of", U, U, U)(*us)
        self.pattern = Pattern(self.t)

    def truth(self, I):
        return self.found

    def term(self):
        raise Unsupported("a match that may be None as a value")

    def there(self, I):
        if not I.path.decide(self.found, "match"):
            I.raise_(AttributeError, "None has no attribute")

    def getattr(self, I, name):
        self.there(I)
        return self.pattern if name == "re" else ModelObj.getattr(self, I, name)

    def method(self, I, name, args, kw):
        self.there(I)
        return ModelObj.method(self, I, name, args, kw)

    def m_group(self, I, g=0):
        u = I.to_u(g)
        if g != 0 and not I.path.decide(uf("match!named", U, U, Bool)(self.t, u), "group"):
            I.raise_(IndexError, "no such group")
        return wrap("str", uf("match!group", U, U, Str)(self.t, u))


class Pattern(ModelObj):
    def __init__(self, t):
        ModelObj.__init__(self, re.Pattern)
        self.attrs["pattern"] = wrap("str", uf("match!pattern", U, Str)(t))


def m_match(I, line, patterns):
    us = I.to_u(line), I.to_u(patterns)
    return Match(us)


M = {R + "regex_match_list": m_match}
DOC = TList(TStr)
PATTERNS = {R + n: Abstract(ret=PATS, raises=False) for n in ("get_reference_line_numeration_marker_patterns", "get_reference_section_title_patterns", "get_post_reference_section_title_patterns", "get_post_reference_section_keyword_patterns")}
NUM = TExact({"marker": TOpt(TStr), "marker_pattern": TOpt(TStr), "title_marker_same_line": TBool})
START = TRec({"start_line": TInt, "title_string": TOpt(TStr), "marker": TOpt(TStr), "marker_pattern": TOpt(TStr), "title_marker_same_line": TBool}, {})


def sure_fact(I, r):
    """one that is sure has a mark"""
    d = I.to_u(r[0])
    m = z3.Select(U.dval(d), Key.kstr(z3.StringVal("marker")))
    return z3.Implies(I.prim(r[1], "bool"), z3.And(U.is_udict(d), U.is_ustr(m), z3.Length(U.sval(m)) > 0))


def sure(I, out, a):
    if out[0] == "return":
        yield "sure-has-a-mark", sure_fact(I, I.resolve(out[1]))


FOUND = Abstract(ret=TTup(TOpt(NUM), TBool), raises=False, facts=lambda I, bound, r: I.path.assume(sure_fact(I, r)))
GENERIC = {F + "find_reference_section_no_title_generic": Abstract(ret=TOpt(START))}
N = z3.Length(z3.Const("arg_docbody", SeqU))
BEGIN = z3.Int("arg_ref_start_line")


def always(I):
    I.ghost["always_groups"] = ("title",)


def no_title(I, comps, entry, n_, fr):
    """no record has a field "title" (the title found is its title_string)"""
    for c in comps:
        for sub, t in I.comp_terms(c):
            if t.sort() == U:
                yield "untitled %s %s" % (c.label, sub), lambda k, c=c, sub=sub: (lambda t: z3.And(z3.Or(t == U.none, U.is_udict(t)), z3.Implies(U.is_udict(t), U.is_absent(z3.Select(U.dval(t), Key.kstr(z3.StringVal("title")))))))(dict(I.comp_terms(c))[sub])


def end_inv(I, comps, entry, n_, fr):
    yield "!terminates", lambda k: k <= N + 1
    cur = lambda c: dict(I.comp_terms(c)).get("")
    flags = [c for c in comps if (lambda t: t is not None and t.sort() == Bool)(entry.get((c.label, "")))]
    for c in comps:
        e = entry.get((c.label, ""))
        if e is not None and e.sort() == Int:
            yield "inside " + c.label, lambda k, c=c: z3.And(BEGIN <= cur(c), cur(c) <= N)
            yield "further " + c.label, lambda k, c=c: k <= cur(c)
            for b in flags:
                yield "until %s %s" % (c.label, b.label), lambda k, c=c, b=b: k <= cur(c) + z3.If(cur(b), 1, 0)


def end_final(I, out, a):
    if out[0] == "return":
        r = I.resolve(out[1])
        if r is None:
            yield "not-found-only-for-impossible-start", z3.Or(BEGIN < 0, BEGIN > N, N < 1)
        else:
            yield "end-in-document", z3.And(BEGIN - 1 <= I.prim(r, "int"), I.prim(r, "int") < N)


J_ = z3.Int("other_pattern")
P_, L_ = z3.Const("arg_patterns", SeqU), z3.String("arg_line")
matches = lambda i: uf("re!match_ok", U, Str, Bool)(mk_nth(P_, i), L_)


def first_setup(I):
    I.ghost["elem_facts"] = lambda I, s, i: I.ghost.update(at=i) if s.eq(P_) else None
    I.path.assume(z3.And(0 <= J_, J_ < z3.Length(P_)))


def first_inv(I, comps, entry, n_, fr):
    yield "none before", lambda k: z3.Implies(J_ < k, z3.Not(matches(J_)))


def first_final(I, out, a):
    """the match of the first pattern that matches the line, None if none does"""
    yield "no-exception", z3.BoolVal(out[0] == "return")
    r = out[1]
    if r is None:
        yield "none-matches", z3.Not(matches(J_))
    else:
        i = I.ghost["at"]
        yield "first-that-matches", z3.And(r.pid == mk_nth(P_, i), r.st == L_, z3.BoolVal(r.fam == "match"), matches(i), z3.Implies(J_ < i, z3.Not(matches(J_))))


CONTRACTS = [
    Contract(R + "regex_match_list", args=dict(line=TStr, patterns=PATS), setup=first_setup, invariants=[("first", first_inv)], final=first_final),
    Contract(F + "find_numeration_in_body", args=dict(docbody=DOC), spec=sp.in_body, final=sure, models=M, abstract=PATTERNS),
    Contract(F + "find_numeration_in_title", args=dict(docbody=DOC, title=TStr), spec=sp.in_title, final=sure, models=M, abstract=PATTERNS),
    Contract(F + "find_numeration", args=dict(docbody=DOC, title=TStr), spec=sp.numeration, final=sure, abstract={F + "find_numeration_in_title": FOUND, F + "find_numeration_in_body": FOUND}),
    Contract(F + "find_reference_section", args=dict(docbody=DOC), spec=sp.with_title, setup=always, invariants=[("title", no_title)], abstract=dict(PATTERNS, **{F + "find_numeration": FOUND})),
    Contract(F + "find_reference_section_no_title_generic", args=dict(docbody=DOC, marker_patterns=PATS), spec=sp.without_title, models=M),
    Contract(F + "find_reference_section_no_title_via_brackets", args=dict(docbody=DOC), spec=sp.by_brackets, abstract=GENERIC),
    Contract(F + "find_reference_section_no_title_via_dots", args=dict(docbody=DOC), spec=sp.by_dots, abstract=GENERIC),
    Contract(F + "find_reference_section_no_title_via_numbers", args=dict(docbody=DOC), spec=sp.by_numbers, abstract=GENERIC),
    Contract(F + "get_reference_section_beginning", args=dict(fulltext=DOC), spec=sp.beginning,
             abstract={F + n: Abstract(ret=TOpt(START)) for n in ("find_reference_section", "find_reference_section_no_title_via_brackets", "find_reference_section_no_title_via_dots", "find_reference_section_no_title_via_numbers")}),
    Contract(F + "find_end_of_reference_section", args=dict(docbody=DOC, ref_start_line=TInt, ref_line_marker=TOpt(TStr), ref_line_marker_ptn=TOpt(TStr)), models=M, abstract=PATTERNS, invariants=[("bounds", end_inv)], final=end_final),
    Contract(X + "strip_footer", args=dict(ref_lines=DOC, section_title=TStr), spec=sp.without_footer),
    Contract(X + "get_reference_lines", args=dict(docbody=DOC, ref_sect_start_line=TInt, ref_sect_end_line=TOpt(TInt), ref_sect_title=TOpt(TStr), ref_line_marker_ptn=TOpt(TStr), title_marker_same_line=TBool), spec=sp.lines,
             abstract={X + "strip_footer": Abstract(ret=DOC), X + "rebuild_reference_lines": Abstract(ret=DOC)}),
    Contract(X + "extract_references_from_fulltext", args=dict(fulltext=DOC), spec=sp.section,
             abstract={"refextract.documents.text:remove_page_boundary_lines": Abstract(ret=DOC), F + "get_reference_section_beginning": Abstract(ret=TOpt(START)), F + "find_end_of_reference_section": Abstract(ret=TOpt(TInt)), X + "get_reference_lines": Abstract(ret=DOC)}),
]
ASSUMPTIONS = ["a named group that a numeration pattern has takes part in every match of it; the group \"title\" takes part in every match of a title pattern",
               "the functions that build the pattern lists are deterministic and do not fail",
               "which texts the compiled patterns match is the meaning of Python's re module (uninterpreted here, compared at run time)",
               "iterating over reversed(range(n)) or reversed(list) visits the mirrored places"]
BOUNDED = [dict(contract="the end of the section is the line before the first title that no further reference follows, or the axis of a figure, or the end of the document", target=F + "find_end_of_reference_section", status="bounded", reason="proved: terminates and the end lies in the document, not before the line ahead of the start; that it is the line the description spec.s_section:end names is compared on generated documents"),
           dict(contract="title and numeration patterns match what they are documented to match", target=R + "get_reference_section_title_patterns", status="bounded", reason="lists of compiled patterns; compared on title spellings and numbering styles")]
