import z3
from pyver.engine import Contract, Abstract
from pyver.values import *
import spec.s_pdf as sp
from pypdf import PdfReader
from pyver.models import uf
from pyver.world import may_fail

P = "refextract.references.pdf:"
POS = TTup(TInt, TInt, TInt, TInt)
ITEM = TTup(TStr, POS)


def col(I, u):
    return I.from_u(u, ITEM)[1][1].t


def columns(I):
    """every URL stands in the column of the reference"""
    ref = col(I, z3.Const("arg_reference", U))

    def el(I, s, i):
        if s.eq(URLS):
            I.path.assume(col(I, mk_nth(s, i)) == ref)
    I.ghost["elem_facts"] = el


URLS = z3.Const("arg_urls_to_match", SeqU)
W = z3.String("some_url")


def name(I, u):
    return I.from_u(u, ITEM)[0].t


def far(I):
    """some URL that occurs neither on the reference's page nor on the next one"""
    page = I.from_u(z3.Const("arg_reference", U), ITEM)[1][0].t

    def el(I, s, i):
        if s.eq(URLS):
            p = I.from_u(mk_nth(s, i), ITEM)[1][0].t
            I.path.assume(z3.Implies(name(I, mk_nth(s, i)) == W, z3.And(p != page, p != page + 1)))
    I.ghost["elem_facts"] = el


def far_inv(I, comps, entry, n_, fr):
    for c in comps:
        t = dict(I.comp_terms(c)).get("")
        if t is not None and t.sort() == SetU:
            yield "not taken", lambda k, c=c: z3.Not(z3.Select(dict(I.comp_terms(c))[""], I.key_term(Sym("str", W))))


def far_final(I, out, a):
    yield "no-exception", z3.BoolVal(out[0] == "return")
    if out[0] == "return":
        taken, rest = out[1]
        yield "page", z3.Not(z3.Select(I.setarr(taken), I.key_term(Sym("str", W))))
        yield "rest", z3.SuffixOf(I.seq(rest), URLS)


def true(I, out, a):
    yield "holds", z3.BoolVal(False) if out[0] != "return" else I.truth(out[1])


class File(ModelObj):
    def cm_enter(self, I):
        return self

    def cm_exit(self, I, exc):
        return False

    def term(self):
        return uf("file!pdf", Str, U)(self.attrs["path"])


class Names(ModelObj):
    def m_items(self, I):
        return ListV(seq=uf("pdf!names", U, SeqU)(self.attrs["pdf"]), ety=TTup(TStr, TAny))


class Pdf(ModelObj):
    def term(self):
        return self.attrs["t"]

    def getattr(self, I, name):
        if name == "named_destinations":
            may_fail(I, "named_destinations", Exception, self.term())
            return Names("names", pdf=self.term())
        raise Unsupported("pdf." + name)


def m_open(I, path, mode="r"):
    may_fail(I, "open", OSError, path)
    return File("file", path=I.prim(path, "str"))


def m_reader(I, stream, strict=True):
    if strict is not False:
        raise Unsupported("strict reader")
    may_fail(I, "PdfReader", Exception, stream.term())
    return Pdf("pdf", t=uf("pdf!open", U, U)(stream.term()))


LINK = TRec({"/A": TRec({"/URI": TStr})}, extra=TAny)
CONTRACTS = [
    Contract(P + "extract_texkeys_and_urls_from_pdf", args=dict(pdf_file=TStr), spec=sp.report, models={open: m_open, PdfReader: m_reader},
             abstract={P + "extract_urls": Abstract(TList(LINK), raises=Exception), P + "_destinations_in_two_columns": Abstract(TBool, raises=Exception), P + "_destination_position": Abstract(POS, raises=Exception), P + "_uri_position": Abstract(POS, raises=Exception), P + "_match_urls_with_reference": Abstract(TTup(TSet, TList(ITEM)), raises=Exception)}),
    Contract(P + "_match_urls_with_reference", name="_match_urls_with_reference", args=dict(urls_to_match=TList(ITEM), reference=ITEM, next_reference=TOpt(ITEM), two_column_layout=TBool), spec=sp.attribute, requires=sp.one_column, setup=columns),
    Contract(P + "_match_urls_with_reference", name="_match_urls_with_reference:any-layout", args=dict(urls_to_match=TList(ITEM), reference=ITEM, next_reference=TOpt(ITEM), two_column_layout=TBool), setup=far, invariants=[("far", far_inv)], final=far_final),
] + [
    Contract("spec.s_pdf:" + n, name="reading-order:" + n, lemma=True, args=dict(ref=POS, following=POS, url=POS, later=POS), requires=sp.in_order, final=true)
    for n in ("only_its_own", "all_on_the_page", "ends_in_time", "keeps_the_rest")
]
ASSUMPTIONS = ["a PDF reader is a deterministic function of the file; reading it, its destinations and its links may raise any Exception", "destination names are text (names that are bytes are compared at run time)",
               "heights, columns and x positions are only compared, so whole numbers stand for them", "sorting is a deterministic function of the list and of the key as a function of an element", "in the one-column contract: URLs and references stand in the same column"]
BOUNDED = [dict(contract="positions, columns and links are read from the document as they are", target=P + "_destination_position, _uri_position, extract_urls, _get_urls_data_from_page_object, _destinations_in_two_columns", status="bounded", reason="compared on generated PDF files of up to 3 pages, 12 references and 4 URLs, with names that are bytes and damaged files")]
