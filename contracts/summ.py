"""Exact summaries of small helpers (no path split).  Each is itself an obligation: the contract that lists the
helper as target proves the real code equal to the summary."""
import z3
from pyver.values import *

FIELD = TMap(TList(TStr))


def m_put(I, field, code, value):
    """field[code].append(value) if value is truthy (creating the list)"""
    if not isinstance(field, DictV) or not (isinstance(code, str) or isinstance(code, Sym) and code.kind == "str"):
        raise Unsupported("put summary")
    tr = I.truth(value)
    if tr is False:
        return None
    cond = z3.BoolVal(True) if tr is True else tr
    ut = I.to_u(value)
    raw = I.dict_raw(field, code)
    old = z3.If(U.is_absent(raw), EMPTY_SEQ, U.lval(raw))
    new = U.ulist(z3.Concat(old, z3.Unit(ut)))
    t = new if z3.is_true(cond) else z3.If(cond, new, raw)
    if field.parent is None and field.ty is None and all(isinstance(v, ListV) for v in field.known.values() if v is not ABSENT):
        field.ty = FIELD
    I.touch(field)
    field.keys = None
    if field.parent is None:
        I.absorb(field)
        field.base, field.known = I.arr(field), {}
    I.dict_store_raw(field, I.key_term(code), S(t))
    return None
