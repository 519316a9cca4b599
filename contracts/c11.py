import csv
import re
import z3
from pyver import world
from pyver.engine import Contract, Abstract
from pyver.values import *
from pyver.interp import uf
import spec.s_kbs as sp

K = "refextract.references.kbs:"
T_ = "refextract.documents.text:"
PAIRS = TList(TTup(TStr, TStr))
UPPER = Abstract(ret=TStr, raises=False)
ARG = z3.Const("arg_knowledgebase", SeqU)
KAP = z3.String("any_phrase")            # an arbitrary phrase, an arbitrary entry, two arbitrary ranks
J, R1, R2 = z3.Ints("any_entry rank1 rank2")
KEY = Key.kstr(KAP)
part = lambda i, j: U.sval(mk_nth(U.tval(mk_nth(ARG, i)), z3.IntVal(j)))
SEEK, REPL = z3.Strings("entry_phrase entry_title")


def term(I, f, t):
    return I.prim(I.engine.call_spec(I, f, {list(__import__("inspect").signature(f).parameters)[0]: Sym("str", t)}), "str")


HYP = z3.Bool("last_entry_for_its_phrase")


def hyp(I):
    """HYP: the arbitrary entry exists, the arbitrary phrase is its phrase and no later entry has it"""
    if "title" not in I.ghost:
        I.path.assume(z3.Implies(HYP, z3.And(J >= 0, J < z3.Length(ARG), KAP == term(I, sp.phrase, SEEK), part(J, 0) == SEEK, part(J, 1) == REPL)))
        I.ghost["title"] = term(I, sp.title_phrase, REPL)
    return HYP


def no_later(I, k):
    """HYP at one entry"""
    I.path.assume(z3.Implies(z3.And(HYP, k > J, k < z3.Length(ARG)), KAP != term(I, sp.phrase, part(k, 0))))
    return z3.BoolVal(True)


def mem(s, w):
    """membership of a value in a list, resolved over the way the list was built"""
    s = z3.simplify(s)
    if z3.is_app(s):
        k = s.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            return z3.Or(*[mem(x, w) for x in s.children()])
        if k == z3.Z3_OP_SEQ_UNIT:
            return s.arg(0) == w
        if k == z3.Z3_OP_SEQ_EMPTY:
            return z3.BoolVal(False)
        if k == z3.Z3_OP_ITE:
            return z3.If(s.arg(0), mem(s.arg(1), w), mem(s.arg(2), w))
    return uf("seq!mem", SeqU, U, Bool)(s, w)


def setup(I):
    I.ghost["opaque_strip"] = True
    hyp(I)
    T = I.ghost["title"]
    I.ghost["witness_keys"] = [KEY, Key.kstr(REPL), Key.kstr(T)]
    I.ghost["sort_facts"] = lambda r, s: z3.And(*[mem(r, w) == mem(s, w) for w in (U.ustr(KAP), U.ustr(T))])
    I.ghost["witness_order"] = [(R1, R2)]


def inv(I, comps, entry, n, fr):
    h, T = hyp(I), I.ghost["title"]
    has = lambda d, k: z3.Select(I.arr(d), Key.kstr(k)) != U.absent
    ds = [(c.label, c.obj) for c in comps if c.set is None and isinstance(c.obj, DictV)]
    ls = [(c.label, c.obj) for c in comps if c.set is None and isinstance(c.obj, ListV)]
    POS = uf("dict!pos", ArrU, Key, Int)
    yield "later entries", lambda k: no_later(I, k)
    for a, d in ds:
        yield "last entry %s" % a, lambda k, d=d: z3.Implies(z3.And(h, k > J), z3.Select(I.arr(d), KEY) == U.ustr(REPL))
        yield "entry kept %s" % a, lambda k, d=d: z3.Implies(h, z3.Select(I.arr(d), KEY) == U.ustr(REPL))
        yield "title noted %s" % a, lambda k, d=d: z3.Implies(z3.And(h, k > J), has(d, REPL))
        for b, e in ds:
            if a < b:
                yield "same keys %s %s" % (a, b), lambda k, d=d, e=e: z3.And(has(d, KAP) == has(e, KAP), has(d, T) == has(e, T))
        for b, l in ls:
            yield "listed %s %s" % (a, b), lambda k, d=d, l=l: z3.And(has(d, KAP) == mem(I.seq(l), U.ustr(KAP)), has(d, T) == mem(I.seq(l), U.ustr(T)))
        for name, r in fr.vars.items():
            if isinstance(r, DictV) and r.parent is None and not any(r is e for _, e in ds):
                yield "titles %s %s" % (a, name), lambda k, d=d, r=r: z3.Implies(z3.And(h, POS(I.arr(r), Key.kstr(REPL)) < k, has(r, REPL)), has(d, T))


def final(I, out, a):
    yield "returned", z3.BoolVal(out[0] == "return")
    if out[0] != "return":
        return
    r = out[1]
    ok = isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], DictV) and isinstance(r[1], DictV) and isinstance(r[2], ListV)
    yield "patterns-standards-phrases", z3.BoolVal(ok)
    if not ok:
        return
    kb, std, phrases = r
    h, T = hyp(I), I.ghost["title"]
    sel = lambda d, k: z3.Select(I.arr(d), Key.kstr(k))
    for nm, k in (("phrase", KAP), ("title", T)):
        yield "closed-%s" % nm, (sel(kb, k) == U.absent) == (sel(std, k) == U.absent)
        yield "searched-%s" % nm, (sel(kb, k) != U.absent) == mem(I.seq(phrases), U.ustr(k))
    yield "last-entry-standardises", z3.Implies(h, sel(std, KAP) == U.ustr(REPL))
    yield "titles-searchable", z3.Implies(h, sel(kb, T) != U.absent)
    s = I.seq(phrases)
    ln = lambda i: z3.Length(U.sval(mk_nth(s, i)))
    yield "longest-first", z3.Implies(z3.And(0 <= R1, R1 < R2, R2 < z3.Length(s)), ln(R1) >= ln(R2))


def compiles(I, p, flags=0):
    p = I.resolve(p)
    r = uf("re_obj", Str, Int, U)(I.prim(p, "str"), I.prim(flags, "int"))
    I.path.assume(U.is_uopq(r))
    return Sym("any", r, TObj(re.Pattern))


LINES = TList(TStr)


def m_open(I, path, mode="r", *a, **k):
    """a text file: its lines"""
    world.may_fail(I, "open", OSError, path)
    return Lines(uf("file!lines", U, SeqU)(I.to_u(path)))


class Lines(ModelObj):
    def __init__(self, seq):
        ModelObj.__init__(self, Lines)
        self.l = ListV(seq=seq, ety=TStr)

    def cm_enter(self, I):
        return self.l

    def cm_exit(self, I, exc):
        return False


RK = z3.Const("any_category", Key)


def rn_setup(I):
    I.ghost["witness_keys"] = [RK]


def rn_inv(I, comps, entry, n, fr):
    ds = [(c.label, c.obj) for c in comps if c.set is None and isinstance(c.obj, DictV)]
    for a, d in ds:
        for b, e in ds:
            if a < b:
                yield "same keys %s %s" % (a, b), lambda k, d=d, e=e: (z3.Select(I.arr(d), RK) == U.absent) == (z3.Select(I.arr(e), RK) == U.absent)


def rn_final(I, out, a):
    if out[0] == "return":
        r = out[1]
        yield "patterns-and-categories", z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], DictV) and isinstance(r[1], DictV))
        yield "closed", (z3.Select(I.arr(r[0]), RK) == U.absent) == (z3.Select(I.arr(r[1]), RK) == U.absent)


BUILDER = Abstract(ret=TAny, name="builder")
JOURNALS = dict(abstract={T_ + "upper_same_length": UPPER}, models={re.compile: compiles}, setup=setup, final=final, invariants=[("kb", inv)])
CONTRACTS = [
    Contract(K + "build_journals_kb", args=dict(knowledgebase=PAIRS), **JOURNALS),
    Contract(K + "build_publishers_kb", args=dict(fpath=PAIRS), spec=sp.publishers),
    Contract(K + "build_special_journals_kb", args=dict(fpath=LINES), spec=sp.special_journals),
    Contract(K + "build_authors_kb", args=dict(fpath=LINES), spec=sp.authors),
    Contract(K + "build_journals_re_kb", args=dict(fpath=LINES), spec=sp.journals_re),
    Contract(K + "build_books_kb", args=dict(fpath=TList(TList(TStr))), spec=sp.books),
    Contract(K + "load_kb_from_file", args=dict(path=TStr, builder=TAny), spec=sp.load_kb_from_file, models={open: m_open}, callback=BUILDER),
    Contract(K + "build_collaborations_kb", args=dict(knowledgebase=PAIRS), spec=sp.collaborations),
    Contract(K + "load_kb", args=dict(path=PAIRS, builder=TAny), spec=sp.load_kb, callback=BUILDER, name="load_kb[entries]"),
    Contract(K + "load_kb", args=dict(path=TStr, builder=TAny), spec=sp.load_kb_from_file, models={open: m_open}, callback=BUILDER, name="load_kb[file]"),
    Contract(K + "build_reportnum_kb", args=dict(fpath=LINES), setup=rn_setup, final=rn_final, invariants=[("kb", rn_inv)],
             abstract={K + "order_reportnum_patterns_bylen": Abstract(ret=TList(TTup(TInt, TStr)), raises=False), K + "create_institute_numeration_group_regexp_pattern": Abstract(ret=TStr, raises=False)},
             models={re.compile: compiles}),
]
ASSUMPTIONS = ["sorting keeps the members of a list and orders them by the key", "an escaped phrase is a valid pattern (re.compile of re.escape does not fail)",
               "a regular expression is an uninterpreted function of its source; what the patterns match is compared at run time",
               "reading a text file gives its lines; csv.reader gives rows", "upper_same_length is a function of the text (C16)",
               "generators given to a builder are evaluated to the end before the builder runs"]
BOUNDED = [dict(contract="patterns match what they are for", target=K + "build_reportnum_kb", status="bounded", reason="regular-expression matching is outside the theory; patterns are run on generated entries"),
           dict(contract="order_reportnum_patterns_bylen, institute_num_pattern_to_regex", target=K + "institute_num_pattern_to_regex", status="bounded", reason="as above")]
