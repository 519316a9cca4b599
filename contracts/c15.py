import re
import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf
import spec.s_rebuild as sp

D = "refextract.documents.text:"
X = "refextract.references.text:"
LINES = TList(TStr)
JOIN = Abstract(ret=TStr, raises=False, name="join")
BLANKS = {X + "test_for_blank_lines_separating_reference_lines": Abstract(ret=TBool, raises=False)}

# the text of a sequence of lines, of a reference and of a sequence of references (lemma about the specification)
LT, RT, TX = uf("text_of_lines", SeqU, Str), uf("text_of_references", SeqU, Str), uf("text_of_reference", U, Str)
SEC = z3.Const("arg_ref_sectn", SeqU)
PRE = uf("text_of_first_lines", Int, Str)
pre = lambda k: PRE(k)
P1 = uf("text_of_line", Str, Str)
line_text = lambda u: P1(U.sval(u))


def split_facts(I, m, b, e):
    """a line is what is before the match and what is behind its start"""
    n = z3.Length(m.st)
    I.path.assume(P1(m.st) == P1(z3.SubString(m.st, 0, b)) + P1(z3.SubString(m.st, b, n - b)))


def of(I, T, t, unit):
    """the text of a sequence built by appending"""
    A = I.path.assume
    t = z3.simplify(t)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        r = SV("")
        for x in t.children():
            r = r + of(I, T, x, unit)
        A(T(t) == r)
    elif z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
        A(T(t) == unit(t.arg(0)))
    return T(t)


lt = lambda I, t: of(I, LT, t, line_text)
rt = lambda I, t: of(I, RT, t, TX)


def keep_setup(I):
    A = I.path.assume
    I.ghost["groups_taking_part"] = ("marknum",)
    A(z3.And(LT(EMPTY_SEQ) == SV(""), RT(EMPTY_SEQ) == SV(""), pre(z3.IntVal(0)) == SV(""), pre(z3.Length(SEC)) == LT(SEC), P1(SV("")) == SV("")))
    I.ghost["match_facts"] = split_facts
    I.ghost["elem_facts"] = lambda I, s, i: A(z3.Implies(z3.And(0 <= i, i < z3.Length(SEC)), pre(i + 1) == pre(i) + line_text(mk_nth(SEC, i)))) if s.eq(SEC) else None


def keep_inv(I, comps, entry, n_, fr):
    lists = [c for c in comps if c.set is not None or isinstance(getattr(c, "obj", None), ListV)]
    seqs = []
    for c in lists:
        t = dict(I.comp_terms(c)).get("")
        if t is not None and t.sort() == SeqU:
            seqs.append(c)
    cur = lambda c: dict(I.comp_terms(c))[""]
    for a in seqs:
        for b in seqs:
            if a is not b:
                yield "kept %s %s" % (a.label, b.label), lambda k, a=a, b=b: rt(I, cur(a)) + lt(I, cur(b)) == pre(k)


def keep_final(I, out, a):
    if out[0] == "return":
        yield "all-text-in-order", rt(I, I.seq(out[1])) == LT(SEC)


def joined_text(I, bound, r):
    I.path.assume(TX(U.ustr(I.prim(r, "str"))) == lt(I, I.seq(bound["lines"])))


# what is left of a text without white space and hyphens: a homomorphism SQ with SQ(" ") = SQ("-") = ""
SQ = uf("without_space_and_hyphens", Str, Str)


def sq(I, t):
    t = z3.simplify(t)
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        r = SV("")
        for x in t.children():
            r = r + sq(I, x)
        I.path.assume(SQ(t) == r)
    return SQ(t)


def sq_setup(I):
    I.path.assume(z3.And(SQ(SV("")) == SV(""), SQ(SV(" ")) == SV(""), SQ(SV("-")) == SV("")))


def join_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        x, y = z3.String("arg_line1"), z3.String("arg_line2")
        n = z3.Length(x)
        I.path.assume(z3.Implies(n > 0, SQ(x) == SQ(z3.SubString(x, 0, n - 1)) + SQ(z3.SubString(x, n - 1, 1))))
        yield "keeps-both-texts", sq(I, I.prim(out[1], "str")) == SQ(x) + SQ(y)


ALL = z3.Const("arg_lines", SeqU)
FIRST = uf("text_of_first", Int, Str)


def sum_setup(I):
    sq_setup(I)
    A = I.path.assume
    A(FIRST(z3.IntVal(0)) == SV(""))

    def el(I, s, i):
        A(z3.Implies(z3.And(0 <= i, i < z3.Length(ALL)), FIRST(i + 1) == FIRST(i) + SQ(U.sval(mk_nth(ALL, i)))))
        A(SQ(uf_strip(I, U.sval(mk_nth(s, i)))) == SQ(U.sval(mk_nth(s, i))))
    I.ghost["elem_facts"] = el


def uf_strip(I, t):
    return I.prim(I.models.method(I, wrap("str", t), "strip", [], {}), "str")


def joined_facts(I, bound, r):
    I.path.assume(SQ(I.prim(r, "str")) == SQ(I.prim(bound["line1"], "str")) + SQ(I.prim(bound["line2"], "str")))


def sum_inv(I, comps, entry, n_, fr):
    for c in comps:
        t = dict(I.comp_terms(c)).get("")
        if t is not None and t.sort() == Str:
            yield "text " + c.label, lambda k, c=c: SQ(dict(I.comp_terms(c))[""]) == FIRST(k)


def sum_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        n = z3.Length(ALL)
        t = I.prim(out[1], "str")
        if z3.is_app(t) and t.num_args() == 1 and "strip" in t.decl().name():          # stripping removes white space only
            I.path.assume(SQ(t) == SQ(t.arg(0)))
        yield "first-25-lines-kept", SQ(t) == FIRST(z3.If(n <= 25, n, 25))


def blank_inv(I, comps, entry, n_, fr):
    n = z3.Length(z3.Const("arg_ref_sect", SeqU))
    yield "!terminates", lambda k: k <= n
    for c in comps:
        t = dict(I.comp_terms(c)).get("")
        if t is not None and t.sort() == Int:
            yield "place " + c.label, lambda k, c=c: z3.And(k <= dict(I.comp_terms(c))[""], dict(I.comp_terms(c))[""] <= n)


def blank_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        yield "yes-or-no", z3.Or(I.prim(out[1], "int") == 0, I.prim(out[1], "int") == 1)


def unnumbered(I, comps, entry, n_, fr):
    """a reference has no number only if the style has none"""
    pt = z3.Const("arg_ref_line_marker_ptn", U)
    named = uf("re!named", U, Str, Bool)(uf("re_obj", Str, z3.IntSort(), U)(U.sval(pt), z3.IntVal(int(re.I | re.UNICODE))), SV("marknum"))
    for c in comps:
        t = dict(I.comp_terms(c)).get("")
        if t is not None and t.sort() == U:
            yield "unnumbered " + c.label, lambda k, c=c: z3.And(z3.Or(U.is_uint(dict(I.comp_terms(c))[""]), dict(I.comp_terms(c))[""] == U.none),
                                                                  z3.Implies(dict(I.comp_terms(c))[""] == U.none, z3.Or(pt == U.none, z3.Length(U.sval(pt)) == 0, z3.Not(named))))


def no_fail(I, out, a):
    pt = z3.Const("arg_ref_line_marker_ptn", U)
    ok = uf("re!valid", Str, Int, Bool)(U.sval(pt), z3.IntVal(int(re.I | re.UNICODE)))
    yield "fails-only-on-a-bad-pattern", z3.BoolVal(True) if out[0] == "return" else z3.Not(ok)


CONTRACTS = [
    Contract(D + "join_lines", args=dict(line1=TStr, line2=TStr), spec=sp.join, setup=sq_setup, final=join_final),
    Contract("spec.s_rebuild:joined", args=dict(lines=LINES), name="lemma: joining keeps the text", setup=sum_setup, invariants=[("sum", sum_inv)], final=sum_final, abstract={D + "join_lines": Abstract(ret=TStr, raises=False, facts=joined_facts)}),
    Contract(X + "rebuild_reference_lines", args=dict(ref_sectn=LINES, ref_line_marker_ptn=TOpt(TStr)), spec=sp.rebuilt, setup=lambda I: I.ghost.update(groups_taking_part=("marknum",)), invariants=[("number", unnumbered)], final=no_fail, abstract=dict(BLANKS, **{D + "join_lines": JOIN})),
    Contract(X + "test_for_blank_lines_separating_reference_lines", args=dict(ref_sect=LINES), invariants=[("blank", blank_inv)], final=blank_final),
    Contract("spec.s_rebuild:rebuilt", args=dict(ref_sectn=LINES, ref_line_marker_ptn=TOpt(TStr)), name="lemma: no text is lost", setup=keep_setup, invariants=[("text", keep_inv)], final=keep_final,
             abstract=dict(BLANKS, **{"spec.s_rebuild:joined": Abstract(ret=TStr, raises=False, facts=joined_text)})),
]
ASSUMPTIONS = ["a numeration style that has a group \"marknum\" takes part with it in every match",
               "dropping white space and line-end hyphens is compatible with joining texts (SQ(a+b) = SQ(a)+SQ(b)), stripping removes white space only",
               "which texts a numeration style matches is the meaning of Python's re module (uninterpreted, compared at run time)"]
BOUNDED = [dict(contract="blank lines separate the references iff every group of lines is followed by blank lines", target=X + "test_for_blank_lines_separating_reference_lines", status="bounded", reason="proved: terminates without exception with 0 or 1; its meaning is compared on all sections of up to 7 lines of three kinds")]
