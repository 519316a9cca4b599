import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.models import one_of
from refextract.references.regexs import re_tagged_citation
import spec.s_marks as sp
try:
    from re import _parser as sre
except ImportError:
    import sre_parse as sre

E = "refextract.references.engine:"
L = z3.String("arg_line")


def language(pattern, group):
    """the finitely many texts of a group, read off the pattern"""
    def many(items):
        out = {""}
        for op, av in items:
            o = str(op)
            if o == "LITERAL":
                xs = {chr(av)}
            elif o == "SUBPATTERN":
                xs = many(av[3])
                if av[0] == group:
                    found.append(xs)
            elif o == "BRANCH":
                xs = set().union(*[many(b) for b in av[1]])
            elif o == "IN" and all(str(a) == "LITERAL" for a, _ in av):
                xs = {chr(c) for _, c in av}
            elif o in ("MAX_REPEAT", "MIN_REPEAT") and av[0] == 0 and av[1] == 1:
                xs = many(av[2]) | {""}
            else:
                xs = {"?"}
            out = {a + b for a in out for b in xs}
        return out
    found = []
    many(sre.parse(pattern.pattern, pattern.flags))
    return sorted(found[0])


KINDS = language(re_tagged_citation, 1)


def kinds(I):
    pid = I.to_u(re_tagged_citation)

    def value(I, m, g):
        """what the pattern says about the kind of a mark"""
        if not m.pid.eq(pid) or g not in (1, re_tagged_citation.groupindex["ibid"]):
            return NotImplemented
        k = one_of(I, m, 1, KINDS)
        return k if g == 1 else "ibid" if k == "JOURNALibid" else None
    I.ghost["group_value"] = value


def shrinks(I, comps, entry, n_, fr):
    """some text gets shorter with every turn"""
    for c in comps:
        e = entry.get((c.label, ""))
        if e is not None and e.sort() == Str:
            yield "!terminates " + c.label, lambda k, c=c, e=e: z3.Length(dict(I.comp_terms(c))[""]) + k <= z3.Length(e)
        elif e is not None and e.sort() == SeqU:
            for d in comps:
                f = entry.get((d.label, ""))
                if f is not None and f.sort() == Int:
                    yield "used %s %s" % (c.label, d.label), lambda k, c=c, e=e, d=d, f=f: dict(I.comp_terms(d))[""] - f == z3.Length(e) - z3.Length(dict(I.comp_terms(c))[""])
            yield "next " + c.label, lambda k, c=c, e=e: z3.SuffixOf(dict(I.comp_terms(c))[""], e)


def done(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")


def taken(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        els, marker, count = out[1]
        D0, U0 = z3.Const("arg_identified_dois", SeqU), z3.Const("arg_identified_urls", SeqU)
        d, u = I.seq(a["identified_dois"]), I.seq(a["identified_urls"])
        yield "marker", I.prim(marker, "str") == z3.String("arg_line_marker")
        yield "next-dois", z3.SuffixOf(d, D0)
        yield "next-urls", z3.SuffixOf(u, U0)
        for k, now, before in (("doi", d, D0), ("url", u, U0)):
            yield "count-" + k, I.prim(I.models.getitem(I, count, k), "int") == z3.Length(before) - z3.Length(now)


CONTRACTS = [
    Contract(E + "map_tag_to_subfield", args=dict(tag_type=TStr, line=TStr, cur_misc_txt=TStr, dest=TStr), spec=sp.subfield, final=done),
    Contract(E + "convert_unusable_tag_to_misc", args=dict(line=TStr, misc_text=TStr, tag_match_end=TInt, closing_tag=TStr), spec=sp.unusable, final=done),
    Contract(E + "parse_tagged_reference_line", args=dict(line_marker=TStr, line=TStr, identified_dois=TList(TStr), identified_urls=TList(TTup(TStr, TStr))), setup=kinds, invariants=[("line", shrinks)], final=taken, sticky=True),
]
ASSUMPTIONS = ["the group of a match of the mark pattern is one of the texts its alternatives spell out (read off the pattern)", "which texts the compiled patterns match is the meaning of Python's re module (uninterpreted here, compared at run time)"]
BOUNDED = [dict(contract="the elements, the leftover text and the counts are those of the description spec.s_marks:interpret; no text is lost or reordered", target=E + "parse_tagged_reference_line", status="bounded",
                reason="compared on lines of up to 10 marks, closed, unclosed, nested, adjacent and damaged, with 0 to 5 recognised DOIs and URLs; proved for every line: reading ends, nothing is raised, DOIs and URLs are used up from the front, one element each")]
