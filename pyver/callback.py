"""Callback supplied by the caller: any (stateful) function.  Its result and its exceptions may depend on the whole
history of calls; the history is ghost state, kept separately for code and specification and compared at the end."""
import z3
from .values import *
from .interp import uf


class Traced:
    def __init__(self, name="callback", ret=TAny):
        self.name, self.ret = name, ret

    def setup(self, I):
        w = I.ghost.setdefault("world", {})
        w["trace_spec"], w["trace_impl"] = ListV(seq=EMPTY_SEQ, ety=TAny), ListV(seq=EMPTY_SEQ, ety=TAny)

    def trace(self, I):
        return I.ghost["world"]["trace_spec" if I.frames[-1].mode == "spec" else "trace_impl"]

    def call(self, I, f, args, kw):
        if kw:
            raise Unsupported("callback with keywords")
        tr = self.trace(I)
        a = U.utup(I.seq_of_values(list(args)))
        us = [I.to_u(f), U.ulist(I.seq(tr)), a]
        I.touch(tr)
        I.set_seq(tr, z3.Concat(I.seq(tr), z3.Unit(a)))
        tr.version += 1
        if not I.path.decide(uf(self.name + "!ok", U, U, U, Bool)(*us), "callback"):
            raise PyRaise(ExcV(term=uf(self.name + "!exc", U, U, U, U)(*us)))
        return I.from_u(uf(self.name + "!val", U, U, U, U)(*us), self.ret)

    def final(self, I, out, a):
        w = I.ghost["world"]
        yield "same-calls-in-same-order", I.seq(w["trace_spec"]) == I.seq(w["trace_impl"])
