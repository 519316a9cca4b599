import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf
import spec.s_pages as sp

T_ = "refextract.documents.text:"
DOC, PB = z3.Const("arg_docbody", SeqU), z3.Const("arg_page_break_posns", SeqU)
HEAD, FOOT = z3.Ints("arg_num_head_lines arg_num_foot_lines")
N, B = z3.Length(DOC), z3.Length(PB)
p = lambda b: U.ival(mk_nth(PB, b))
R = uf("removed_before_break", Int, Int)          # lines removed because of the breaks before the b-th
W, JW = z3.Ints("line breaks_before_line")        # an arbitrary line that is to stay
SAFE = z3.Bool("pages_longer_than_header_and_footer")
REV = uf("seq!rev", SeqU, SeqU)(PB)
h = lambda b: z3.If(b < B - 1, HEAD, 0)           # header lines behind the b-th break
f = lambda b: z3.If(b > 0, FOOT, 0)               # footer lines before it


def breaks_at(b):
    """the breaks are places in the document, in order"""
    return z3.And(z3.Implies(z3.And(0 <= b, b < B), z3.And(U.is_uint(mk_nth(PB, b)), 0 <= p(b), p(b) < N, R(b + 1) == R(b) + 1 + h(b) + f(b))),
                  z3.Implies(z3.And(0 <= b, b + 1 < B), z3.And(p(b) < p(b + 1), z3.Implies(SAFE, HEAD + FOOT + 1 < p(b + 1) - p(b)))))


def stays(w, j):
    """w is a line of the document (or its end) behind the header of the break before it and before the footer of the next"""
    return z3.And(0 <= w, w <= N, 0 <= j, j <= B, z3.Implies(j > 0, w > p(j - 1) + h(j - 1)), z3.Implies(j < B, w < p(j) - f(j)))


def behind(w, j, b):
    """when the breaks behind the b-th are done, line w is still behind the header of the b-th"""
    return z3.Implies(z3.And(0 <= b, b < j), w - (R(j) - R(b + 1)) >= p(b) + h(b) + 1)


def before(w, j, b):
    return z3.Implies(z3.And(j <= b, b < B), w < p(b) - f(b))


def lemmas(I):
    w, j, b = z3.Ints("w j b")
    ok = z3.And(SAFE, HEAD >= 0, FOOT >= 0, stays(w, j), *[breaks_at(x) for x in (b, b - 1, b + 1, j, j - 1)])
    for lem, goal in (("behind/base", z3.Implies(ok, behind(w, j, j - 1))), ("behind/step", z3.Implies(z3.And(ok, behind(w, j, b), b < j, b >= 1), behind(w, j, b - 1))),
                      ("before/base", z3.Implies(ok, before(w, j, j))), ("before/step", z3.Implies(z3.And(ok, before(w, j, b), j <= b), before(w, j, b + 1)))):
        I.engine.prove(I, "lemma:" + lem, goal)


def facts(I, b):
    A = I.path.assume
    for x in (b, b - 1, b + 1):
        A(breaks_at(x))
    for w, j in ((W, JW), (N, B)):
        A(z3.Implies(SAFE, z3.And(behind(w, j, b), before(w, j, b))))


def elem(I, s, i):
    if s.eq(PB):
        facts(I, i)
    elif s.eq(REV):
        b = simp(B - 1 - i)
        I.path.assume(z3.Implies(z3.And(0 <= i, i < B), mk_nth(REV, i) == mk_nth(PB, b)))
        facts(I, b)


simp = z3.simplify


def spliced(I, s, lo, hi, m, r):
    """where the line is after removing lines lo..hi (true of every list)"""
    q = I.ghost.get("at")
    for q in I.ghost.get("places", ()):
        I.path.assume(z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= z3.Length(s), 0 <= q, q < z3.Length(s)),
                                 z3.And(z3.Implies(q < lo, mk_nth(r, q) == mk_nth(s, q)), z3.Implies(q >= hi, mk_nth(r, q - (hi - lo) + z3.Length(m)) == mk_nth(s, q)))))


def sort_facts(r, s):
    return z3.Implies(z3.Length(r) > 0, SAFE == (HEAD + FOOT + 1 < U.ival(mk_nth(r, 0))))


def strip_setup(I):
    lemmas(I)
    I.ghost.update(elem_facts=elem, spliced=spliced, sort_facts=sort_facts)
    A = I.path.assume
    A(z3.And(HEAD >= 0, FOOT >= 0, R(z3.IntVal(0)) == 0, stays(W, JW), W < N))
    for b in (JW, JW - 1, B - 1, z3.IntVal(0)):
        facts(I, b)


def doc_of(I, comps):
    roots = I.ghost.get("roots", {})
    for c in comps:
        if c.set is None and c.obj is roots.get("docbody"):
            return c


def strip_inv(I, comps, entry, n_, fr):
    c = doc_of(I, comps)
    if c is None:
        return
    cur = lambda: dict(I.comp_terms(c)).get("")
    e = entry.get((c.label, ""))
    mn = lambda a, b: z3.If(a <= b, a, b)
    for x in comps:
        e0 = entry.get((x.label, ""))
        if x.set is not None and e0 is not None and e0.sort() == Int:
            yield "only first " + x.label, lambda k, x=x, e0=e0: dict(I.comp_terms(x)).get("") == z3.If(k == 0, e0, 0)
    if e.eq(DOC):
        def at(k):
            """place of the line when k breaks are done"""
            I.ghost["outer"] = k
            facts(I, B - 1 - k)
            facts(I, B - k)
            q = W - (R(JW) - R(mn(JW, B - k)))
            I.ghost["places"] = [q]
            return q
        yield "line", lambda k: mk_nth(cur(), at(k)) == mk_nth(DOC, W)
        yield "length", lambda k: z3.Length(cur()) == N - (R(B) - R(B - k))
        return
    K = I.ghost.get("outer")
    if K is None:
        return
    b = B - 1 - K
    q0 = W - (R(JW) - R(mn(JW, b + 1)))
    below = b < JW
    for nm, q, done in (("head", q0, z3.IntVal(0)), ("foot", z3.If(below, q0 - h(b) - 1, q0), h(b) + 1)):
        def at(k, q=q):
            r = z3.If(below, q - k, q)
            I.ghost["places"] = [q0, z3.If(below, q0 - h(b), q0), z3.If(below, q0 - h(b) - 1, q0), r]
            return r
        yield nm + " line", lambda k, at=at: mk_nth(cur(), at(k)) == mk_nth(DOC, W)
        yield nm + " length", lambda k, done=done: z3.Length(cur()) == N - (R(B) - R(b + 1)) - done - k


def strip_final(I, out, a):
    yield "returned", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        r = I.seq(I.resolve(out[1]))
        cut = z3.And(B >= 2, SAFE)
        yield "lines-that-stay-are-in-place", z3.Implies(cut, mk_nth(r, W - R(JW)) == mk_nth(DOC, W))
        yield "nothing-else-removed", z3.Implies(cut, z3.Length(r) == N - R(B))
        yield "unsafe-nothing-removed", z3.Implies(z3.Not(cut), r == DOC)


# the shortest page is not longer than any page
G_ = z3.Int("page")


def gap_setup(I):
    def sf(r, s):
        I.ghost["sorted"] = r
        return z3.Implies(z3.And(0 <= G_, G_ < z3.Length(s)), U.ival(mk_nth(r, 0)) <= U.ival(mk_nth(s, G_)))
    def el(I, s, i):
        if s.eq(PB):
            I.path.assume(breaks_at(i))
    I.ghost.update(sort_facts=sf, elem_facts=el)
    I.path.assume(z3.And(0 <= G_, G_ < B - 1))


def gap_inv(I, comps, entry, n_, fr):
    for c in comps:
        if c.set is None and isinstance(c.obj, ListV) and c is not doc_of(I, comps):
            cur = lambda c=c: dict(I.comp_terms(c)).get("")
            yield "gap", lambda k, cur=cur: z3.Implies(k > G_, z3.And(z3.Length(cur()) > G_, mk_nth(cur(), G_) == U.uint(p(G_ + 1) - p(G_))))
            yield "pages", lambda k, cur=cur: z3.Length(cur()) == z3.If(k < B - 1, k, z3.If(B >= 1, B - 1, 0))


def gap_final(I, out, a):
    r = I.ghost.get("sorted")
    yield "measured", z3.BoolVal(r is not None)
    if r is not None:
        yield "shortest-page", z3.And(z3.Length(r) > 0, U.ival(mk_nth(r, 0)) <= p(G_ + 1) - p(G_))


# ------------------------------------------------------------ counting the lines of headers and footers
def order(a, b):
    return z3.Implies(z3.And(0 <= a, a < b, b < B), p(a) + (b - a) <= p(b))


def count_setup(I):
    a, b = z3.Ints("a b")
    I.engine.prove(I, "lemma:order/base", z3.Implies(breaks_at(a), order(a, a + 1)))
    I.engine.prove(I, "lemma:order/step", z3.Implies(z3.And(breaks_at(b), order(a, b), a < b), order(a, b + 1)))

    def el(I, s, i):
        if s.eq(PB):
            A = I.path.assume
            A(breaks_at(i))
            for x in (0, 1, 2):
                A(order(z3.IntVal(x), i))
                A(order(i, z3.IntVal(x)))
    I.ghost["elem_facts"] = el
    for x in (0, 1, 2):
        el(I, PB, z3.IntVal(x))


def count_inv(I, comps, entry, n_, fr):
    ints = []
    for c in comps:
        e = entry.get((c.label, ""))
        if c.set is not None and e is not None and e.sort() == Int:
            ints.append((c.label, lambda c=c: dict(I.comp_terms(c)).get(""), e))
    yield "!terminates", lambda k: k <= N + B + 2
    for nm, x, e in ints:
        yield "head " + nm, lambda k, x=x: p(1) + x() + 1 <= p(2)
        yield "foot " + nm, lambda k, x=x: p(1) - x() >= 0
        yield "grows " + nm, lambda k, x=x, e=e: x() >= e + k
        yield "small " + nm, lambda k, x=x: x() <= B + 1
        yield "down " + nm, lambda k, x=x, e=e: x() <= e
        yield "flag " + nm, lambda k, x=x: z3.And(0 <= x(), x() <= 1)
        for nm2, y, _ in ints:
            if nm2 != nm:
                yield "until %s %s" % (nm, nm2), lambda k, x=x, y=y: z3.And(x() >= 0, k <= x() + z3.If(y() == 0, 1, 0))


def count_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        yield "not-negative", I.prim(out[1], "int") >= 0


def bit(I, bound, r):
    I.path.assume(z3.Or(I.prim(r, "int") == 0, I.prim(r, "int") == 1))


SIM = {T_ + "check_boundary_lines_similar": Abstract(ret=TInt, raises=False, facts=bit)}
CARGS = dict(docbody=TList(TStr), page_break_posns=TList(TInt))
WHOLE = {T_ + "document_contains_text": Abstract(ret=TInt), T_ + "get_page_break_positions": Abstract(ret=TList(TInt)), T_ + "get_number_header_lines": Abstract(ret=TInt),
         T_ + "get_number_footer_lines": Abstract(ret=TInt), T_ + "strip_headers_footers_pagebreaks": Abstract(ret=TList(TStr))}
SARGS = dict(docbody=TList(TStr), page_break_posns=TList(TInt), num_head_lines=TInt, num_foot_lines=TInt)
CONTRACTS = [
    Contract(T_ + "document_contains_text", args=dict(docbody=TList(TStr)), spec=sp.contains_text),
    Contract(T_ + "get_page_break_positions", args=dict(docbody=TList(TStr)), spec=sp.page_breaks),
    Contract(T_ + "strip_headers_footers_pagebreaks", name="strip(pages)", args=SARGS, setup=gap_setup, invariants=[("pages", gap_inv)], final=gap_final),
    Contract(T_ + "strip_headers_footers_pagebreaks", args=SARGS, setup=strip_setup, invariants=[("strip", strip_inv), ("gap", gap_inv)], final=strip_final),
    Contract(T_ + "get_number_header_lines", args=CARGS, setup=count_setup, invariants=[("count", count_inv)], final=count_final, abstract=SIM),
    Contract(T_ + "get_number_footer_lines", args=CARGS, setup=count_setup, invariants=[("count", count_inv)], final=count_final, abstract=SIM),
    Contract(T_ + "remove_page_boundary_lines", args=dict(docbody=TList(TStr)), spec=sp.clean, abstract=WHOLE),
]
ASSUMPTIONS = ["the break positions handed to the functions are the ones get_page_break_positions returns for the document (its contract: in order, inside the document)",
               "list.sort puts an element first that is not larger than any other", "removing a slice of a list moves the elements behind it and no other; reversing a list mirrors its places",
               "check_boundary_lines_similar returns 0 or 1 (its comparison uses floats; compared at run time)"]
BOUNDED = [dict(contract="number of header and footer lines is that of an independent reading of the document", target=T_ + "get_number_header_lines", status="bounded", reason="proved: no exception, terminates, not negative; which lines count as repeated is compared on generated documents and all documents of up to 7 lines of four kinds")]
