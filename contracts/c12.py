import z3
from pyver import world
from pyver.world import fs, FS0
from pyver.engine import Contract
from pyver.models import rfind_term
from pyver.values import *

HEAD, TAIL = z3.StringVal("%PDF-"), z3.StringVal("%%EOF")


def setup(I):
    world.setup(I)
    I.ghost["write_fails"] = False
    I.path.assume(U.is_ubytes(z3.Select(FS0, KEY)))     # the file exists


KEY = Key.kstr(z3.Const("arg_filename", Str))


def final(I, out, a):
    data = U.yval(z3.Select(FS0, KEY))
    s, e = z3.IndexOf(data, HEAD, 0), rfind_term(I, data, TAIL)
    kept = z3.If(z3.And(s >= 0, e >= s), z3.SubString(data, s, e + 5 - s), data)
    yield "never-fails", z3.BoolVal(out[0] == "return")
    yield "file-is-the-document", I.arr(fs(I)) == z3.Store(FS0, KEY, U.ubytes(kept))


CONTRACTS = [Contract("refextract.references.engine:clean_pdf_file", args=dict(filename=TStr), models=world.MODELS, setup=setup, final=final)]
ASSUMPTIONS = ["the file exists and is readable and writable and no other process changes it; mapping, moving, shrinking and writing it succeed when their documented conditions hold",
               "bytes.find gives the first and bytes.rfind the last occurrence (definition of first header mark and last end mark)"]
BOUNDED = []
