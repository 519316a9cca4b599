import re
import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf
import spec.s_place as sp

G = "refextract.references.tag:"
T_ = "refextract.documents.text:"

# ---------------------------------------------------------------- account_for_stripped_whitespace
KS, RS = z3.Const("arg_spaces_keys", SeqU), z3.Const("arg_removed_spaces", U)
P = uf("removed_before", Int, Int)                      # spaces removed by the runs before the i-th
Q, M, Q2, M2 = z3.Ints("first runs_before_first end runs_before_end")
PI = z3.Int("arg_replacement_index")
LEN = z3.Int("item_length")
run = lambda i: U.ival(mk_nth(KS, i))
cell = lambda i: z3.Select(U.dval(RS), Key.kint(run(i)))
n = lambda i: U.ival(cell(i))
N = z3.Length(KS)


def at(i):
    """one recorded run of white space: it is recorded, removes something and ends before the next one"""
    return z3.Implies(z3.And(0 <= i, i < N), z3.And(U.is_uint(mk_nth(KS, i)), U.is_uint(cell(i)), n(i) >= 1, P(i + 1) == P(i) + n(i), z3.Implies(i + 1 < N, run(i) + n(i) < run(i + 1))))


def place(q, m, p):
    """the character at q of the original line is at p of the collapsed one; m runs begin before it"""
    return z3.And(0 <= m, m <= N, z3.Implies(m > 0, run(m - 1) + n(m - 1) < q), z3.Implies(m < N, q <= run(m)), p == q - P(m))


def below(q, m, i):
    return z3.Implies(z3.And(0 <= i, i < m), run(i) + P(m) - P(i) < q)


def above(q, m, i):
    return z3.Implies(z3.And(m <= i, i < N), z3.And(run(i) >= q + P(i) - P(m), P(i) >= P(m)))


def s_setup(I):
    A = I.path.assume
    A(P(z3.IntVal(0)) == 0)
    A(place(Q, M, PI))
    A(place(Q2, M2, PI + LEN))
    A(z3.And(Q <= Q2, M <= M2, LEN >= 0))
    i, q, m = z3.Ints("i q m")
    ok = z3.And(at(i), at(i - 1), at(i + 1), at(m), at(m - 1), place(q, m, q - P(m)))
    for lem, goal in (("runs-before/base", z3.Implies(ok, below(q, m, m - 1))), ("runs-before/step", z3.Implies(z3.And(ok, i + 1 < m, below(q, m, i + 1)), below(q, m, i))),
                      ("runs-behind/base", z3.Implies(ok, above(q, m, m))), ("runs-behind/step", z3.Implies(z3.And(ok, i >= m, above(q, m, i)), above(q, m, i + 1)))):
        I.engine.prove(I, "lemma:" + lem, goal)
    key = Key.kint(PI)
    kind = z3.Select(U.dval(z3.Const("arg_replacement_types", U)), key)
    text = lambda name: z3.Select(U.dval(z3.Const(name, U)), key)
    A(z3.Or(*[kind == U.ustr(z3.StringVal(k)) for k in ("journal", "reportnumber", "publisher")]))
    for k, a in (("journal", "arg_journals_matches"), ("publisher", "arg_publishers_matches")):
        A(z3.Implies(kind == U.ustr(z3.StringVal(k)), z3.And(U.is_ustr(text(a)), LEN == z3.Length(U.sval(text(a))))))
    A(z3.Implies(kind == U.ustr(z3.StringVal("reportnumber")), text("arg_len_reportnums") == U.uint(LEN)))


def facts(I, k):
    A = I.path.assume
    for i in (k, k - 1):
        A(at(i))
        for q, m in ((Q, M), (Q2, M2)):
            A(z3.Implies(z3.And(0 <= i, i < N), z3.And(below(q, m, i), above(q, m, i))))
    for m in (M, M2):
        A(at(m))
        A(at(m - 1))
    return z3.BoolVal(True)


def s_inv(I, comps, entry, n_, fr):
    yield "runs", lambda k: facts(I, k)
    mn = lambda a, b: z3.If(a <= b, a, b)
    true = lambda k: Q - P(M) + P(mn(k, M))
    extra = lambda k: z3.If(k <= M, 0, P(mn(k, M2)) - P(M))
    def cur(c):
        t = dict(I.comp_terms(c)).get("")
        return t if t is not None and t.sort() == Int else None
    for c in comps:
        if c.set is not None and [x for x, srt in I.comp_sorts(c) if srt == Int]:
            yield "place %s" % c.label, lambda k, c=c: None if cur(c) is None else cur(c) == true(k)
            yield "extras %s" % c.label, lambda k, c=c: None if cur(c) is None else cur(c) == extra(k)
            yield "moved %s" % c.label, lambda k, c=c: None if cur(c) is None else cur(c) == true(k) + extra(k)


def s_final(I, out, a):
    yield "returned", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        r = out[1]
        t, e = I.prim(r[0], "int"), I.prim(r[1], "int")
        yield "first-character", t == Q
        yield "end-of-the-item", t + LEN + e == Q2


ARGLINE = z3.String("arg_line")


def l_inv(I, comps, entry, n_, fr):
    """the working line stays as long as it was"""
    for c in comps:
        if c.set is not None and [x for x, srt in I.comp_sorts(c) if srt == Str]:
            def cur(c=c):
                t = dict(I.comp_terms(c)).get("")
                return t if t is not None and t.sort() == Str else None
            yield "as long %s" % c.label, lambda k, cur=cur: None if cur() is None else z3.Length(cur()) == z3.Length(ARGLINE)


def same_length(i):
    def final(I, out, a):
        if out[0] == "return":
            r = out[1] if i is None else out[1][i]
            yield "as-long-as-before", z3.Length(I.prim(r, "str")) == z3.Length(ARGLINE)
    return final


def kb_match(I, m, b, e):
    """a title's pattern matches the title (and a character behind it)"""
    t = m.pid if z3.is_expr(m.pid) else None
    if t is not None and is_app_of(t, "select") and z3.is_app(t.arg(1)) and t.arg(1).decl().eq(Key.kstr):
        I.path.assume(e >= b + z3.Length(t.arg(1).arg(0)))
    else:
        raise Unsupported("pattern that is not an entry of the knowledge base")


def kb_setup(I):
    I.ghost["match_facts"] = kb_match


def rn_setup(I):
    I.ghost["opaque_replace"] = True
    I.ghost["always_groups"] = (1, "numn")     # of every pattern for report numbers


READ = z3.String("arg_reading_line")
BEHIND = lambda p: uf("behind!val", U, U, U)(U.ustr(READ), U.uint(p))


def j_inv(I, comps, entry, n_, fr):
    def cur(c):
        t = dict(I.comp_terms(c)).get("")
        return t if t is not None and t.sort() == Int else None

    def same(c, e):
        p = cur(c)
        if p is None:
            return None
        ch = z3.SubString(READ, p, 1)
        I.path.assume(z3.Implies(p >= 0, BEHIND(p) == z3.If(z3.And(p < z3.Length(READ), z3.Or(*[ch == z3.StringVal(x) for x in ".:-)"])), BEHIND(p + 1), U.uint(p))))
        return z3.And(p >= 0, BEHIND(p) == BEHIND(e))
    for c in comps:
        e = entry.get((c.label, ""))
        if c.set is not None and e is not None and e.sort() == Int:
            yield "behind %s" % c.label, lambda k, c=c, e=e: same(c, e)


class Add(Abstract):
    """adds an item: called with a place not before the text used already, never goes back"""

    def apply(self, I, name, bound):
        b = dict(bound)
        p, q, x = (I.prim(b[k], "int") for k in ("startpos", "true_replacement_index", "extras"))
        I.engine.prove(I, "process_reference_line/pre:places-of-" + self.name, z3.And(0 <= p, p <= q, 0 <= x, q <= z3.Length(I.prim(b["reading_line"], "str"))))
        r = Abstract.apply(self, I, name, bound)
        I.path.assume(I.prim(r[1], "int") >= p)
        return r


def account_facts(I, bound, r):
    """account_for_stripped_whitespace, for a place found in the collapsed working line"""
    t, e = I.prim(r[0], "int"), I.prim(r[1], "int")
    I.path.assume(z3.And(t >= 0, e >= 0, t <= z3.Length(z3.String("arg_working_line"))))


def p_inv(I, comps, entry, n_, fr):
    """the part of the line used so far"""
    for c in comps:
        if c.set is not None and [x for x, srt in I.comp_sorts(c) if srt == Int]:
            def cur(c=c):
                t = dict(I.comp_terms(c)).get("")
                return t if t is not None and t.sort() == Int else None
            yield "used %s" % c.label, lambda k, cur=cur: None if cur() is None else cur() >= 0


def not_back(I, out, a):
    if out[0] == "return":
        yield "never-back", I.prim(out[1][1], "int") >= I.prim(a["startpos"], "int")


def num_facts(I, bound, r):
    """a numeration is not empty"""
    t = I.to_u(r)
    I.path.assume(z3.Or(t == U.none, U.ival(z3.Select(U.dval(t), Key.kstr(z3.StringVal("len")))) >= 1))


NUM = Abstract(ret=TOpt(TRec({"len": TInt, "series": TOpt(TStr)}, {}, extra=TAny)), raises=False, facts=num_facts)
IDX = TMap(TInt, TInt)
TXT = TMap(TStr, TInt)
KBS = TRec({"publishers": TMap(TAny), "authors": TAny, "collaborations": TAny}, {}, extra=TAny)
PARGS = dict(working_line=TStr, journals_matches=TXT, pprint_repnum_len=IDX, pprint_repnum_matchtext=TXT, publishers_matches=TXT, removed_spaces=IDX, standardised_titles=TMap(TStr), kbs=KBS)
REST = {G + "account_for_stripped_whitespace": Abstract(ret=TTup(TInt, TInt), facts=account_facts, raises=False), G + "get_replacement_types": Abstract(ret=TXT, raises=False), G + "wash_volume_tag": Abstract(ret=TStr, raises=False),
        G + "identify_and_tag_authors": Abstract(ret=TStr, raises=False), G + "identify_and_tag_collaborations": Abstract(ret=TStr, raises=False)}
CONTRACTS = [
    Contract(G + "account_for_stripped_whitespace", args=dict(spaces_keys=TList(TInt), removed_spaces=IDX, replacement_types=TMap(TStr, TInt), len_reportnums=IDX, journals_matches=TMap(TStr, TInt), publishers_matches=TMap(TStr, TInt), replacement_index=TInt),
             setup=s_setup, invariants=[("runs", s_inv)], final=s_final),
    Contract(T_ + "upper_same_length", args=dict(line=TStr), spec=sp.upper),
    Contract(T_ + "remove_and_record_multiple_spaces_in_line", args=dict(line=TStr), spec=sp.removed),
    Contract(G + "add_tagged_publisher", args=dict(reading_line=TStr, matched_publisher=TStr, startpos=TInt, true_replacement_index=TInt, extras=TInt, kb_publishers=TMap(TRec({"repl": TStr}, {}, extra=TAny))), spec=sp.add_tagged_publisher, requires=sp.publisher_places, final=not_back),
    Contract(G + "add_tagged_report_number", args=dict(reading_line=TStr, len_reportnum=TInt, reportnum=TStr, startpos=TInt, true_replacement_index=TInt, extras=TInt), spec=sp.add_tagged_report_number, requires=sp.number_places, final=not_back),
    Contract(G + "get_replacement_types", args=dict(titles=TList(TInt), reportnumbers=TList(TInt), publishers=TList(TInt)), spec=sp.get_replacement_types),
    Contract(G + "identify_ibids", args=dict(line=TStr), spec=sp.ibids, invariants=[("line", l_inv)], final=same_length(1)),
    Contract(G + "add_tagged_journal", args=dict(reading_line=TStr, journal_info=TStr, previous_match=TMap(TOpt(TStr)), startpos=TInt, true_replacement_index=TInt, extras=TInt, standardised_titles=TMap(TStr)), spec=sp.add_tagged_journal, requires=sp.journal_places, final=not_back,
             invariants=[("behind", j_inv)],
             abstract={"spec.s_place:behind_punctuation": Abstract(ret=TInt, raises=False, name="behind"), G + "find_numeration": NUM, G + "find_numeration_more": NUM, G + "create_numeration_tag": Abstract(ret=TStr), G + "add_tagged_journal_in_place_of_IBID": Abstract(ret=TStr)}),
    Contract(G + "identify_journals", args=dict(line=TStr, kb_journals=TTup(TMap(TObj(re.Pattern)), TMap(TStr), TList(TStr))), spec=sp.journals, setup=kb_setup, invariants=[("line", l_inv)], final=same_length(1)),
    Contract(G + "identify_report_numbers", args=dict(line=TStr, kb_reports=TTup(TMap(TObj(re.Pattern), TTup(TInt, TStr)), TMap(TStr, TTup(TInt, TStr)))), name="identify_report_numbers(length)", setup=rn_setup, invariants=[("line", l_inv)], final=same_length(2)),
    Contract(G + "identify_report_numbers", args=dict(line=TStr, kb_reports=TTup(TMap(TObj(re.Pattern), TTup(TInt, TStr)), TMap(TStr, TTup(TInt, TStr)))), spec=sp.reports, setup=rn_setup),
    Contract(G + "identify_publishers", args=dict(line=TStr, kb_publishers=TMap(TRec({"pattern": TObj(re.Pattern)}, {}, extra=TAny))), spec=sp.publishers),
    Contract(G + "process_reference_line", name="process_reference_line(places)", args=PARGS, invariants=[("used", p_inv)], final=lambda I, out, a: iter(()),
             abstract=dict(REST, **{G + "add_tagged_journal": Add(ret=TTup(TStr, TInt, TMap(TAny)), name="a-journal", raises=False), G + "add_tagged_report_number": Add(ret=TTup(TStr, TInt), name="a-report-number", raises=False),
                                    G + "add_tagged_publisher": Add(ret=TTup(TStr, TInt), name="a-publisher", raises=False)})),
    Contract(G + "process_reference_line", args=PARGS, spec=sp.process,
             abstract=dict(REST, **{G + "add_tagged_journal": Abstract(ret=TTup(TStr, TInt, TMap(TAny)), raises=False), G + "add_tagged_report_number": Abstract(ret=TTup(TStr, TInt), raises=False), G + "add_tagged_publisher": Abstract(ret=TTup(TStr, TInt), raises=False)})),
]
ASSUMPTIONS = ["a match of a title's pattern is at least as long as the title (C11: the pattern is the escaped phrase and what must follow it)",
               "group 1 and numn take part in every match of a report-number pattern (checked on the loaded knowledge base)",
               "a numeration is at least one character long (find_numeration, find_numeration_more)",
               "runs of white space are recorded in order, apart from each other (re.finditer)"]
BOUNDED = [dict(contract="strip_tags keeps the length", target=G + "strip_tags", status="bounded", reason="repeated substitution by pattern: compared with an independent reading of generated lines"),
           dict(contract="places of journals found by regular expression", target=G + "tag_reference_line", status="bounded", reason="sum over the recorded runs; composed lines compared word by word")]
