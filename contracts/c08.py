import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf
from refextract.references.regexs import re_doi

G = "refextract.references.tag:"
L = z3.String("arg_line")
SV = z3.StringVal
W = z3.Int("which")
TAG = SV("<cds.DOI />")
REST = z3.Function("doi!rest", Int, Str)          # the line behind match i - 1, with the marks of the matches from i on
NAME = z3.Function("doi!name", Int, Str)


def sub(b, e):
    return z3.SubString(L, b, z3.simplify(e - b))


def behind(a, t, R, b, e):
    """cutting a text at b and at e, in front of R"""
    return z3.Implies(z3.And(t == z3.Concat(z3.SubString(a, 0, e), R), 0 <= b, b <= e, e <= z3.Length(a)),
                      z3.And(z3.Length(t) == e + z3.Length(R), z3.SubString(t, 0, b) == z3.SubString(a, 0, b), z3.SubString(t, e, z3.Length(t) - e) == R))


def before(a, b, e):
    return z3.Implies(z3.And(0 <= b, b <= e, e <= z3.Length(a)), z3.SubString(a, 0, e) == z3.Concat(z3.SubString(a, 0, b), z3.SubString(a, b, e - b)))


def lemmas(I, out, x):
    a, t, R, b, e = z3.String("a"), z3.String("t"), z3.String("R"), z3.Int("b"), z3.Int("e")
    yield "before", before(a, b, e)
    yield "behind", behind(a, t, R, b, e)


def doi_setup(I):
    pid = I.to_u(re_doi)
    n = uf("re!count", U, Str, Int)(pid, L)
    S_ = lambda i: uf("re!start", U, Str, Str, Int, Str, Int)(pid, SV("iter"), L, i, SV("0"))
    E_ = lambda i: uf("re!end", U, Str, Str, Int, Str, Int)(pid, SV("iter"), L, i, SV("0"))
    S, E = z3.Function("doi!start", Int, Int), z3.Function("doi!end", Int, Int)          # E(-1) = 0: the start of the line
    g = SV(str(re_doi.groupindex["doi"]))
    gs = lambda i: sub(*(uf(f, U, Str, Str, Int, Str, Int)(pid, SV("iter"), L, i, g) for f in ("re!start", "re!end")))
    plain = lambda i: z3.If(z3.Contains(uf("str!lower", Str, Str)(gs(i)), SV("%2f")), uf("unquote", Str, Str)(gs(i)), gs(i))
    I.ghost.update(n=n, S=S, E=E)

    def facts(I, m, b, e):
        if not m.pid.eq(pid) or not m.st.eq(L) or m.fam != "iter":
            return
        i = m.idx
        A = I.path.assume
        A(z3.And(S(i) == S_(i), E(i) == E_(i)))
        A(z3.And(0 <= E(i - 1), E(i - 1) <= S(i), S(i) <= E(i), E(i) <= z3.Length(L)))
        A(REST(i) == z3.Concat(sub(E(i - 1), S(i)), TAG, REST(i + 1)))
        A(sub(z3.IntVal(0), S(i)) == z3.Concat(sub(z3.IntVal(0), E(i - 1)), sub(E(i - 1), S(i))))          # lemma before
        A(NAME(i) == plain(i))
    I.ghost["match_facts"] = facts
    I.path.assume(z3.And(n >= 0, E(-1) == 0))
    I.path.assume(z3.And(0 <= E(n - 1), E(n - 1) <= z3.Length(L)))
    I.path.assume(REST(n) == sub(E(n - 1), z3.Length(L)))
    I.path.assume(L == z3.Concat(sub(z3.IntVal(0), E(n - 1)), REST(n)))          # lemma before
    I.ghost["mirror"] = (W,)


def doi_inv(I, comps, entry, n_, fr):
    n = I.ghost["n"]
    for c in comps:
        e = entry.get((c.label, ""))
        cur = lambda c=c: dict(I.comp_terms(c)).get("")
        if e is not None and e.sort() == SeqU:
            yield "backward " + c.label, lambda k, cur=cur: z3.Implies(z3.And(0 <= W, W < n, k > n - 1 - W), mk_nth(cur(), n - 1 - W) == U.ustr(NAME(W)))
            yield "forward " + c.label, lambda k, cur=cur: z3.Implies(z3.And(0 <= W, W < n, k > W), mk_nth(cur(), W) == U.ustr(NAME(W)))


def line_inv(I, comps, entry, n_, fr):
    n, E, S = I.ghost["n"], I.ghost["E"], I.ghost["S"]
    for c in comps:
        e = entry.get((c.label, ""))
        cur = lambda c=c: dict(I.comp_terms(c)).get("")
        if e is not None and e.sort() == Str:
            def end(k, cur=cur):
                t, P, R, b = cur(), sub(z3.IntVal(0), E(n - k - 1)), REST(n - k), S(n - k - 1)
                I.path.assume(behind(L, t, R, b, E(n - k - 1)))
                return t == z3.Concat(P, R)
            yield "from the end " + c.label, end
            yield "from the start " + c.label, lambda k, cur=cur: z3.Concat(cur(), REST(k)) == REST(0)


def doi_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        line, dois = I.resolve(out[1])
        s = I.seq(I.resolve(dois))
        n = I.ghost["n"]
        yield "as-many-as-found", z3.Length(s) == n
        yield "each-in-its-place", z3.Implies(z3.And(0 <= W, W < n), mk_nth(s, W) == U.ustr(NAME(W)))


def line_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        yield "one-mark-each-and-the-rest-unchanged", I.prim(I.resolve(out[1])[0], "str") == REST(0)


UNQUOTE = {"urllib.parse:unquote": lambda I, s: wrap("str", uf("unquote", Str, Str)(I.prim(s, "str")))}
CONTRACTS = [
    Contract("spec.s_marks:lemmas", args={}, name="lemma: cutting a text", final=lemmas),
    Contract(G + "identify_and_tag_DOI", args=dict(line=TStr), setup=doi_setup, invariants=[("doi", doi_inv)], final=doi_final, models=UNQUOTE),
    Contract(G + "identify_and_tag_DOI", name="identify_and_tag_DOI(line)", args=dict(line=TStr), setup=doi_setup, invariants=[("line", line_inv)], final=line_final, models=UNQUOTE),
]
ASSUMPTIONS = ["re.finditer reports matches in order that do not overlap", "urllib.parse.unquote is a deterministic function that does not fail", "which texts the DOI pattern matches is the meaning of Python's re module (compared at run time)"]
BOUNDED = [dict(contract="one placeholder and one report per URL, in order, the rest of the line unchanged", target=G + "identify_and_tag_URLs", status="bounded", reason="compared on lines of up to 12 known URLs and links, all pairs of forms, and random texts")]
