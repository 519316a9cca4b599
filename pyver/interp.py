"""Symbolic interpreter: verification-condition generation from the real AST."""
import ast
import contextlib
import re
import builtins
import inspect
import itertools
import sys
import types
import z3

from .values import *
from .values import S as simp
from . import values as V
from .abstr import Mirror

UNBOUND = object()


class Poison:
    def __init__(self, why):
        self.why = why


@contextlib.contextmanager
def _cm_probe():
    yield


_CM_CODE = _cm_probe.__code__


class Frame:
    def __init__(self, name, module, mode, closure=None, callpath=()):
        self.name, self.module, self.mode = name, module, mode
        self.vars = {}
        self.closure = closure
        self.callpath = callpath
        self.globals_decl = set()
        self.nonlocals = set()
        self.yields = None


_ast_cache = {}


def module_ast(mod):
    f = inspect.getsourcefile(mod)
    if f not in _ast_cache:
        with open(f, encoding="utf-8") as fh:
            _ast_cache[f] = ast.parse(fh.read(), f)
    return _ast_cache[f]


def func_ast(fn):
    mod = sys.modules[fn.__module__]
    tree = module_ast(mod)
    code = fn.__code__
    cands = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            first = n.lineno
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                first = min(d.lineno for d in n.decorator_list)
            if first == code.co_firstlineno and (isinstance(n, ast.Lambda) or n.name == fn.__name__):
                cands.append(n)
    if len(cands) != 1:
        raise Unsupported("cannot locate source of %s" % fn)
    return cands[0]


def assigned_names(nodes):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For,)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for n in nodes:
        walk(n)
    return out


# ------------------------------------------------------------------ types of values
TBot = T("bot")


def kind_of(v):
    if v is None:
        return TNone
    if isinstance(v, bool):
        return TBool
    if isinstance(v, int):
        return TInt
    if isinstance(v, str):
        return TStr
    if isinstance(v, bytes):
        return TBytes
    if isinstance(v, tuple):
        ks = [kind_of(e) for e in v]
        if any(k is None for k in ks):
            return None
        return TTup(*ks)
    if isinstance(v, Sym):
        return {"int": TInt, "bool": TBool, "str": TStr, "bytes": TBytes,
                "any": v.ty or TAny}[v.kind]
    if isinstance(v, ListV):
        if v.items is not None:
            k = TBot
            for e in v.items:
                k = join(k, kind_of(e))
            if k is None:
                return None
            return TList(k)
        return TList(v.ety or TAny)
    if isinstance(v, DictV):
        if v.base is None and v.parent is None and all(isinstance(k, str) for k in v.known):
            f, o = {}, {}
            for k, x in v.known.items():
                if x is ABSENT:
                    continue
                kk = kind_of(x)
                if kk is None:
                    return None
                f[k] = kk
            return TRec(f, o)
        return v.ty or TMap(TAny)
    if isinstance(v, SetV):
        return TSet
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, FuncV)) or isinstance(v, V.re.Pattern):
        return T("const", key=lambda v=v: ("const", id(v)), obj=v)
    if isinstance(v, float):
        return TAny
    if isinstance(v, ModelObj) and hasattr(v, "kind"):
        return v.kind()
    return None


def key_type(t):
    """type of the keys of a mapping"""
    if t is not None and t.name == "map" and t.kty is not None:
        return t.kty
    return TStr


def join(a, b):
    if a is None or b is None:
        return None
    if a.name == "bot":
        return b
    if b.name == "bot":
        return a
    if a == b:
        return a
    if a.name == "none":
        return TOpt(b)
    if b.name == "none":
        return TOpt(a)
    if a.name == "opt" or b.name == "opt":
        x = a.elem if a.name == "opt" else a
        y = b.elem if b.name == "opt" else b
        j = join(x, y)
        return None if j is None else TOpt(j)
    if a.name == "list" and b.name == "list":
        j = join(a.elem, b.elem)
        return None if j is None else TList(j)
    if a.name == "tup" and b.name == "tup" and len(a.elems) == len(b.elems):
        js = [join(x, y) for x, y in zip(a.elems, b.elems)]
        return None if any(j is None for j in js) else TTup(*js)
    if a.name == "rec" and b.name == "rec":
        f, o = {}, {}
        for k in list(a.fields) + list(a.optional) + list(b.fields) + list(b.optional):
            if k in f or k in o:
                continue
            ts = [d[k] for d in (a.fields, a.optional, b.fields, b.optional) if k in d]
            t = ts[0]
            for x in ts[1:]:
                t = join(t, x)
            if t is None:
                return None
            if k in a.fields and k in b.fields:
                f[k] = t
            else:
                o[k] = t
        return TRec(f, o)
    if {a.name, b.name} <= {"rec", "map"}:
        return TMap(TAny, join(key_type(a), key_type(b)))
    if "const" in (a.name, b.name) or "match" in (a.name, b.name):
        return None
    return TAny


def sort_of(T_):
    return {"int": Int, "bool": Bool, "str": Str, "bytes": Str, "list": SeqU,
            "set": SetU}.get(T_.name, U)


class Fold:
    def __init__(self, key, n, comps, interp):
        self.key, self.n, self.comps = key, n, comps
        self.fns = {}
        self.unfolded = []
        self.statuses = ()


class Comp:
    def __init__(self, label, get, set_, ty):
        self.label, self.get, self.set, self.ty = label, get, set_, ty


RL = 2000     # z3 resource units per nominal millisecond
SMALL = 100   # first attempt, before the query is weakened


class Path:
    """One execution path: facts, decision prefix."""

    def __init__(self, engine, prefix):
        self.engine, self.prefix = engine, list(prefix)
        self.pos = 0
        self.decisions = []
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set("timeout", engine.back.quick_ms)
        self.mirror = Mirror()
        self.folds = []
        self.quants = []
        self.named = {}
        self.factids = set()
        self.ph = 0
        self.model = None
        self.counter = itertools.count()
        self.trace = []
        self.events = []

    # -- facts
    def name_term(self, t, tag="v"):
        """a constant equal to t (same constant for the same term): keeps terms small"""
        if z3.is_const(t):
            return t
        k = t.get_id()
        r = self.named.get(k)
        if r is None:
            r = (t, self.fresh(tag, t.sort()))
            self.named[k] = r
            self.assume(r[1] == t)
        return r[1]

    def inst(self, j):
        """instantiate the quantified facts at index j"""
        j = j if z3.is_expr(j) else z3.IntVal(j)
        for k, b in self.quants:
            self.assume(z3.Implies(j >= k, b(j)))

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        t = simp(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        if z3.is_and(t):
            for c in t.children():
                self.assume(c)
            return
        if t.get_id() in self.factids:
            return
        self.factids.add(t.get_id())
        self.facts.append(t)
        self.solver.add(t)

    def entails(self, t, ms=400):
        if isinstance(t, bool):
            return t
        t = simp(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = (t.get_id(), len(self.facts))
        return self._check(z3.Not(t), ms) == z3.unsat

    def _check_model(self, t, ms):
        """(verdict, model or None)"""
        self.last_model = None
        r = self._check(t, ms, want=self.engine.model_cost < 20)
        return r, self.last_model if r == z3.sat else None

    def _check(self, t, ms, keep=False, want=False):
        import time
        # re-executions of the same prefix repeat the same queries: cache within a round
        key = (self.ph, len(self.facts), self.facts[-1].get_id() if self.facts else 0, t.get_id())
        hit = self.engine.qcache.get(key)
        if hit is not None and hit[0].eq(t):
            return hit[1]
        t0 = time.time()
        for lim in ((ms,) if ms <= SMALL else (SMALL, ms)):
            self.solver.set("timeout", max(500, lim * 8))     # wall-clock backstop only:
            self.solver.set("rlimit", lim * RL)               # the limit is deterministic, not load dependent
            self.solver.push()
            self.solver.add(t)
            try:
                r = self.solver.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
            if lim == min(ms, SMALL) and ms > 10 and self.mirror.unsat(self.facts, t, max(ms, 50) * RL, max(500, ms * 8)):
                self.engine.back.stats.weakened += 1
                r = z3.unsat
                break
            if lim != ms:
                self.solver.pop()
        if r == z3.sat and (want or (keep and self.model is None and self.engine.model_cost < 5)):
            t1 = time.time()                                  # models only save later queries
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                m = None
            self.engine.model_cost += time.time() - t1
            if want:
                self.last_model = m
            if keep and self.model is None and m is not None:
                self.model = (m, len(self.facts))
        self.engine.back.stats.z3_time += time.time() - t0
        self.engine.back.stats.queries += 1
        self.solver.pop()
        self.engine.qcache[key] = (t, r, self.facts[-1] if self.facts else None)
        return r

    def model_says(self, cond):
        """value of cond in the last model, if that model satisfies all current facts"""
        if self.model is None:
            return None
        m, n = self.model
        try:
            for f in self.facts[n:]:
                if not z3.is_true(m.eval(f, model_completion=True)):
                    self.model = None
                    return None
            self.model = (m, len(self.facts))
            v = m.eval(cond, model_completion=True)
        except z3.Z3Exception:
            return None
        return True if z3.is_true(v) else False if z3.is_false(v) else None

    def decide(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            q = self.engine.back.decide_ms
            free = getattr(self, "free", False)
            known = None if free else self.model_says(cond)
            if free:
                ids = {f.get_id() for f in self.facts}
                b = ("F", True) if cond.get_id() in ids else ("F", False) if simp(z3.Not(cond)).get_id() in ids else None
                if b is None:
                    b = ("D", True)
                    self.engine.queue.append(self.prefix[:self.pos] + [("D", False)])
            elif known is not True and self._check(cond, q, keep=True) == z3.unsat:
                b = ("F", False)          # forced
            elif known is not False and self._check(z3.Not(cond), q, keep=True) == z3.unsat:
                b = ("F", True)
            else:
                b = ("D", True)
                self.engine.queue.append(self.prefix[:self.pos] + [("D", False)]
                                         if self.pos <= len(self.prefix) else None)
            self.prefix.append(b)
        self.pos += 1
        self.decisions.append(b)
        self.ph = hash((self.ph, b))
        if self.pos > self.engine.max_depth:
            raise Unsupported("path too long")
        self.assume(cond if b[1] else z3.Not(cond))
        return b[1]

    def choose(self, n):
        """free nondeterministic choice 0..n-1"""
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            b = ("C", 0)
            for i in range(1, n):
                self.engine.queue.append(self.prefix[:self.pos] + [("C", i)])
            self.prefix.append(b)
        self.pos += 1
        self.decisions.append(b)
        self.ph = hash((self.ph, b))
        return b[1]

    def fresh(self, name, sort):
        return z3.Const("%s!%d" % (name, next(self.counter)), sort)


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def quantifier(e, is_any):
    """any(c for x in l if d) is the search loop it stands for"""
    if not hasattr(e, "as_loop"):
        g = e.args[0]
        test = g.elt if is_any else ast.UnaryOp(ast.Not(), g.elt)
        body = [ast.If(test, [ast.Return(ast.Constant(is_any))], [])]
        for c in reversed(g.generators):
            for cond in reversed(c.ifs):
                body = [ast.If(cond, body, [])]
            body = [ast.For(c.target, c.iter, body, [])]
        node = ast.FunctionDef("any" if is_any else "all", ast.arguments([], [], None, [], [], None, []), body + [ast.Return(ast.Constant(not is_any))], [])
        node.type_params = []
        for sub in ast.walk(node):
            if not hasattr(sub, "lineno"):
                ast.copy_location(sub, e)
        e.as_loop = node
    return e.as_loop


class Interp:
    def __init__(self, engine, path):
        self.engine, self.path = engine, path
        self.frames = []
        self.lifted = {}
        self.loopstack = []     # active loop contexts: dict(objs=set(ids), meta=..)
        self.handlers = []
        self.ghost = {}
        self.depth = 0
        from . import models
        self.models = models

    # ================================================================ encode/decode
    def to_u(self, v):
        if v is None:
            return U.none
        if isinstance(v, bool):
            return U.ubool(z3.BoolVal(v))
        if isinstance(v, int):
            return U.uint(z3.IntVal(v))
        if isinstance(v, str):
            return U.ustr(esc(v))
        if isinstance(v, bytes):
            return U.ubytes(esc(v.decode("latin-1")))
        if isinstance(v, Sym):
            k = v.kind
            if k == "any":
                return v.t
            return {"int": U.uint, "bool": U.ubool, "str": U.ustr, "bytes": U.ubytes}[k](v.t)
        if isinstance(v, tuple):
            return U.utup(self.seq_of_values(v))
        if isinstance(v, ListV):
            return U.ulist(self.seq(v))
        if isinstance(v, DictV):
            return U.udict(self.arr(v))
        if isinstance(v, SetV):
            return U.uset(self.setarr(v))
        if isinstance(v, ExcV):
            if v.term is not None:
                return v.term
            return uf("exc_obj", z3.IntSort(), SeqU, U)(self.const_id(v.cls), self.seq_of_values(v.args))
        if isinstance(v, ModelObj):
            return v.term()
        if isinstance(v, VSeq):
            # materialise by name: only allowed if it was given a term
            t = getattr(v, "term", None)
            if t is not None:
                return t
            raise Unsupported("encode lazy sequence")
        if isinstance(v, V.re.Pattern):
            return uf("re_obj", Str, z3.IntSort(), U)(esc(v.pattern if isinstance(v.pattern, str) else v.pattern.decode("latin-1")), z3.IntVal(v.flags))
        if isinstance(v, float):
            return uf("float_const", Str, U)(esc(repr(v)))
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)):
            return U.uopq(self.const_id(v))
        if isinstance(v, (list, dict, set)):
            return self.to_u(self.lift(v))
        raise Unsupported("cannot encode %r" % (type(v),))

    def const_id(self, obj):
        name = "%s:%s" % (getattr(obj, "__module__", ""), getattr(obj, "__qualname__", repr(obj)))
        # distinct negative ids by name
        ids = self.engine.const_ids
        if name not in ids:
            ids[name] = -1000 - len(ids)
        return z3.IntVal(ids[name])

    def seq_of_values(self, vals):
        parts = [z3.Unit(self.to_u(x)) for x in vals]
        if not parts:
            return EMPTY_SEQ
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*parts)

    def from_u(self, t, ty, parent=None):
        """typed decode of U term; adds the typing facts. parent=(container, selector)"""
        p = self.path
        n = ty.name
        if n == "any":
            return self.auto(t)
        if n == "bot":
            return Sym("any", t)
        if n in ("int", "bool", "str", "bytes"):
            con, sel, rec = {"int": (U.uint, U.ival, U.is_uint), "bool": (U.ubool, U.bval, U.is_ubool),
                             "str": (U.ustr, U.sval, U.is_ustr), "bytes": (U.ubytes, U.yval, U.is_ubytes)}[n]
            ts = simp(t)
            if z3.is_app(ts) and ts.decl().eq(con):
                return wrap(n, ts.arg(0))
            p.assume(rec(t))
            return wrap(n, sel(ts))
        if n == "none":
            p.assume(t == U.none)
            return None
        if n == "opt":
            ts = simp(t)
            if ts.eq(U.none):
                return None
            if ty.elem.name in ("int", "bool", "str", "bytes"):
                con, rec = {"int": (U.uint, U.is_uint), "bool": (U.ubool, U.is_ubool), "str": (U.ustr, U.is_ustr),
                            "bytes": (U.ubytes, U.is_ubytes)}[ty.elem.name]
                if z3.is_app(ts) and ts.decl().eq(con):
                    return wrap(ty.elem.name, ts.arg(0))
                p.assume(z3.Or(t == U.none, rec(t)))
                return Sym("any", ts, ty)
            if p.decide(t == U.none, "opt"):
                return None
            return self.from_u(t, ty.elem, parent)
        if n in ("list", "frozenlist"):
            ts = simp(t)
            if not (z3.is_app(ts) and ts.decl().eq(U.ulist)):
                p.assume(U.is_ulist(t))
            if parent is not None:
                return ListV(ety=ty.elem, parent=parent)
            r = ListV(seq=unwrap(U.lval, U.ulist, ts), ety=ty.elem)
            if n == "frozenlist":
                r.frozen = "declared immutable"
            return r
        if n == "tup":
            ts = simp(t)
            if not (z3.is_app(ts) and ts.decl().eq(U.utup)):
                p.assume(U.is_utup(t))
            sq = unwrap(U.tval, U.utup, ts)
            p.assume(z3.Length(sq) == len(ty.elems))
            return tuple(self.from_u(p.name_term(mk_nth(sq, i), "tup%d" % i), e) for i, e in enumerate(ty.elems))
        if n == "rec":
            ts = simp(t)
            if not (z3.is_app(ts) and ts.decl().eq(U.udict)):
                p.assume(U.is_udict(t))
            d = DictV(base=unwrap(U.dval, U.udict, ts), ty=ty, parent=parent)
            if getattr(ty, "exact", False) and parent is None:
                # exactly these keys (declared order)
                if not is_app_of(d.base, "store"):
                    a = EMPTY_ARR
                    for k in ty.fields:
                        a = z3.Store(a, self.key_term(k), z3.Select(d.base, self.key_term(k)))
                    p.assume(d.base == a)
                kn = {}
                for k, kt in ty.fields.items():
                    e = self.dict_raw(d, k)
                    p.assume(e != U.absent)
                    kn[k] = self.from_u(e, kt)
                return DictV(known=kn, ty=None)
            for k, kt in ty.fields.items():
                e = self.dict_raw(d, k)
                p.assume(e != U.absent)
                f = self.type_fact(e, kt)
                if f is not None:
                    p.assume(f)
            for k, kt in ty.optional.items():
                e = self.dict_raw(d, k)
                f = self.type_fact(e, kt)
                if f is not None:
                    p.assume(z3.Or(e == U.absent, f))
            return d
        if n == "map":
            ts = simp(t)
            if not (z3.is_app(ts) and ts.decl().eq(U.udict)):
                p.assume(U.is_udict(t))
            return DictV(base=unwrap(U.dval, U.udict, ts), ty=ty, parent=parent)
        if n == "set":
            p.assume(U.is_uset(t))
            return SetV(base=unwrap(U.eval, U.uset, simp(t)))
        if n == "obj":
            return ty.make(self, t) if hasattr(ty, "make") else Sym("any", t, ty)
        if n == "const":
            return ty.obj
        if n == "match":
            return self.models.match_from(self, t, ty)
        raise Unsupported("from_u %s" % ty)

    def inside(self, v):
        """a value read out of a container: parts of a tuple are decoded by value and must not be changed in place"""
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, (ListV, DictV, SetV)) and not x.frozen:
                    x.frozen = "part of a tuple"
                self.inside(x)
        return v

    def auto(self, t):
        """untyped decode: recover the kind when syntactically evident"""
        ts = simp(t)
        if z3.is_app(ts):
            d = ts.decl()
            if d.eq(U.ustr):
                return wrap("str", ts.arg(0))
            if d.eq(U.uint):
                return wrap("int", ts.arg(0))
            if d.eq(U.ubool):
                return wrap("bool", ts.arg(0))
            if d.eq(U.ubytes):
                return Sym("bytes", ts.arg(0))
            if ts.eq(U.none):
                return None
        return Sym("any", ts)

    def type_fact(self, t, ty):
        n = ty.name
        m = {"int": U.is_uint, "bool": U.is_ubool, "str": U.is_ustr, "bytes": U.is_ubytes,
             "list": U.is_ulist, "frozenlist": U.is_ulist, "tup": U.is_utup, "rec": U.is_udict, "map": U.is_udict, "set": U.is_uset}
        if n in m:
            return m[n](t)
        if n == "opt":
            f = self.type_fact(t, ty.elem)
            return None if f is None else z3.Or(t == U.none, f)
        if n == "none":
            return t == U.none
        if n == "any":
            return t != U.absent
        return None

    def term_of(self, v, ty):
        """content of a value in the sort of the type"""
        s = sort_of(ty)
        if s is U:
            return self.to_u(v)
        if ty.name == "list":
            if not isinstance(v, ListV):
                raise Unsupported("list expected")
            return self.seq(v)
        if ty.name == "set":
            return self.setarr(v)
        return self.prim(v, ty.name)

    def prim(self, v, kind):
        if isinstance(v, Sym):
            if v.kind == kind:
                return v.t
            if v.kind == "any":
                return {"int": U.ival, "bool": U.bval, "str": U.sval, "bytes": U.yval}[kind](v.t)
            if v.kind == "bool" and kind == "int":
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if kind == "int" and isinstance(v, (bool, int)):
            return z3.IntVal(int(v))
        if kind == "bool" and isinstance(v, bool):
            return z3.BoolVal(v)
        if kind == "str" and isinstance(v, str):
            return esc(v)
        if kind == "bytes" and isinstance(v, bytes):
            return esc(v.decode("latin-1"))
        raise Unsupported("prim %s of %r" % (kind, v))

    def value_of(self, term, ty):
        """inverse of term_of: fresh value object"""
        if ty.name in ("int", "bool", "str", "bytes"):
            return wrap(ty.name, term)
        if ty.name == "list":
            return ListV(seq=term, ety=ty.elem)
        if ty.name == "set":
            return SetV(base=term)
        return self.from_u(term, ty)

    # ================================================================ containers
    def touch(self, obj):
        """called before mutating obj"""
        if obj.frozen:
            raise Unsupported("mutation of a shared/immutable object: %s" % obj.frozen)
        root = obj
        while not isinstance(root, SetV) and root.parent is not None:
            par = root.parent[0]
            if isinstance(par, ListV) and par.version != root.parent[2]:
                raise Unsupported("stale element view")
            root = par
            if root.frozen:
                raise Unsupported("mutation inside shared object: %s" % root.frozen)
            if getattr(root, "shared", False):
                raise Unsupported("mutation of an element that may be shared")
        chain = [obj]
        while not isinstance(chain[-1], SetV) and chain[-1].parent is not None:
            chain.append(chain[-1].parent[0])
        if len(chain) >= 3 and chain[-1].copied is not None and self.frames[-1].mode != "spec" and (chain[-1].copied != self.loopids() or getattr(chain[-2], "was_copied", False)):
            raise Unsupported("in-place change of a value shared with a shallow copy")
        for lc in self.loopstack:
            lc.note_write(self, chain)

    def loopids(self):
        return tuple(id(lc.meta) for lc in self.loopstack[:1])

    def mark_copied(self, d):
        d.was_copied = True
        r = d
        while r.parent is not None:
            r = r.parent[0]
        ids = self.loopids()
        r.copied = ids if r.copied in (None, ids) else ("many",)

    def conform(self, v, ty):
        """a value stored where the contract declares type ty must have that type"""
        if ty is None or ty.name in ("any", "bot"):
            return
        k = kind_of(v)
        if k is not None and join(ty, k) == ty:
            return
        f = self.type_fact(self.to_u(v), ty)
        e = ty.elem if ty.name == "opt" else ty
        if f is not None and e.name in ("int", "bool", "str", "bytes", "none") and self.path.entails(f):
            return
        raise Unsupported("value of kind %s stored where %s is declared" % (k, ty))

    def dead(self, o):
        if o.frozen == "detached":
            raise Unsupported("read of a detached alias")

    def seq(self, l):
        self.dead(l)
        if l.parent is not None:
            return unwrap(U.lval, U.ulist, simp(self.child_term(*l.parent)))
        if l.items is not None:
            return self.seq_of_values(l.items)
        return l.seq

    def set_seq(self, l, s, quiet=False):
        if not quiet:
            self.touch(l)
        if l.parent is not None:
            self.set_child(l.parent[0], l.parent[1], U.ulist(s))
        else:
            self.absorb(l)
            l.seq, l.items = s, None

    def absorb(self, o):
        """the content of o stops being held by reference: former children are dead"""
        vals = []
        if isinstance(o, ListV) and o.items is not None:
            vals = o.items
        elif isinstance(o, DictV):
            vals = list(o.known.values())
        for x in vals:
            if isinstance(x, (ListV, DictV, SetV)) and x.frozen != "module-level constant":
                self.absorb(x)
                x.frozen = "detached"

    def child_term(self, cont, sel, ver=None):
        if ver is not None and isinstance(cont, ListV) and cont.version != ver:
            raise Unsupported("stale element view")
        if isinstance(cont, ListV):
            t = mk_nth(self.seq(cont), sel)
            if is_app_of(t, "ulist") or is_app_of(t, "udict"):
                return t
            return self.path.name_term(t, "e")
        return self.dict_raw(cont, sel)

    def set_child(self, cont, sel, t):
        if isinstance(cont, ListV):
            s0 = self.seq(cont)
            new = mk_upd(s0, sel, t)
            self.set_seq(cont, new, quiet=True)
            if not is_app_of(s0, "seq_upd"):
                self.path.assume(z3.Implies(t == mk_nth(s0, sel), new == s0))
            self.path.assume(z3.Length(new) == z3.Length(s0))
        else:
            self.dict_store_raw(cont, sel, t, quiet=True)

    def llen(self, l):
        if isinstance(l, ListV):
            if l.parent is None and l.items is not None:
                return len(l.items)
            return wrap("int", simp(z3.Length(self.seq(l))))
        raise Unsupported("llen")

    def elem(self, l, i):
        """element view at index term i (in range)"""
        if l.parent is None and l.items is not None and isinstance(i, int):
            return l.items[i]
        it = i if z3.is_expr(i) else z3.IntVal(i)
        t = self.path.name_term(mk_nth(self.seq(l), it), "e")
        if "elem_facts" in self.ghost:
            self.ghost["elem_facts"](self, self.seq(l), it)
        ty = l.ety or TAny
        mutable = ty.name in ("list", "rec", "map") or (ty.name == "opt" and ty.elem.name in ("list", "rec", "map"))
        if mutable:
            return self.from_u(t, ty, parent=(l, it, l.version))
        return self.inside(self.from_u(t, ty))

    def escape(self, v):
        """v is stored by value into a symbolic container: it must not be mutated later"""
        if isinstance(v, (ListV, DictV)):
            root = v
            while root.parent is not None:
                root = root.parent[0]
            root.frozen = root.frozen or "stored in another container"
            if isinstance(v, ListV):
                v.shared = True
            if isinstance(v, ListV) and v.items is not None:
                for x in v.items:
                    self.escape(x)
            if isinstance(v, DictV):
                for x in v.known.values():
                    self.escape(x)
        elif isinstance(v, SetV):
            v.frozen = "stored in another container"
        elif isinstance(v, tuple):
            for x in v:
                self.escape(x)

    def list_append(self, l, v):
        if l.parent is None and l.items is not None and not l.hint == "sym":
            self.touch(l)
            l.items.append(v)
            return
        if isinstance(v, (ListV, DictV, SetV)):
            self.escape(v)
            # a record that was written down in the call itself has no other name
            if not (isinstance(v, DictV) and getattr(v, "unnamed", False) and not any(isinstance(x, (ListV, DictV, SetV, tuple)) for x in v.known.values())):
                l.shared = True
        elif isinstance(v, tuple):
            self.escape(v)
        if l.parent is not None:
            self.conform(v, l.ety)
        l.ety = join(l.ety or TBot, kind_of(v) or TAny) if l.parent is None else l.ety
        self.set_seq(l, z3.Concat(self.seq(l), z3.Unit(self.to_u(v))))

    # dict
    def key_term(self, k):
        if isinstance(k, str):
            return Key.kstr(esc(k))
        if isinstance(k, bool):
            raise Unsupported("bool key")
        if isinstance(k, int):
            return Key.kint(z3.IntVal(k))
        if k is None:
            return Key.knone
        if isinstance(k, Sym):
            if k.kind == "str":
                return Key.kstr(k.t)
            if k.kind == "int":
                return Key.kint(k.t)
            if k.kind == "any":
                r = self.resolve(k)
                if isinstance(r, Sym) and r.kind == "any":
                    return Key.kopq(uf("key_id", U, Int)(r.t))
                return self.key_term(r)
        if isinstance(k, tuple) and len(k) == 2:
            return Key.kpair(self.key_term(k[0]), self.key_term(k[1]))
        raise Unsupported("dict key %r" % (k,))

    def arr(self, d):
        self.dead(d)
        if d.parent is not None:
            return unwrap(U.dval, U.udict, simp(self.child_term(*d.parent)))
        a = d.base if d.base is not None else EMPTY_ARR
        for k in sorted(d.known, key=repr):
            v = d.known[k]
            a = z3.Store(a, self.key_term(k), U.absent if v is ABSENT else self.to_u(v))
        return a

    def dict_raw(self, d, key):
        """U term stored under key (absent marker if missing)"""
        if d.parent is None and not z3.is_expr(key):
            kk = self.conc_key(key)
            if kk is not None or key is None:
                if key in d.known:
                    v = d.known[key]
                    return U.absent if v is ABSENT else self.to_u(v)
                if d.base is None:
                    return U.absent
                return self.sel(d.base, self.key_term(key))
        kt = key if z3.is_expr(key) else self.key_term(key)
        return self.sel(self.arr(d), kt)

    def sel(self, a, kt):
        """read of a dictionary; instantiates what d.update(other) means at this key"""
        t = a
        while is_app_of(t, "store"):
            t = t.arg(0)
        if is_app_of(t, "dict!update"):
            x, y = t.arg(0), t.arg(1)
            b = self.sel(y, kt)
            self.path.assume(z3.Select(t, kt) == z3.If(b == U.absent, self.sel(x, kt), b))
        return simp(z3.Select(a, kt))

    def conc_key(self, key):
        if isinstance(key, (str, int)) or key is None:
            return key
        if isinstance(key, tuple) and all(isinstance(x, (str, int)) for x in key):
            return key
        return None

    def field_type(self, d, key):
        ty = d.ty
        if ty is None:
            return TAny
        if ty.name == "map":
            return ty.elem if ty.elem.name != "bot" else TAny
        if ty.name == "rec":
            if isinstance(key, str):
                if key in ty.fields:
                    return ty.fields[key]
                if key in ty.optional:
                    return ty.optional[key]
            return ty.extra or TAny
        return TAny

    def dict_get(self, d, key):
        """value or ABSENT (forks on presence)"""
        ck = self.conc_key(key) if not isinstance(key, Sym) else None
        is_conc = ck is not None or key is None
        if d.parent is None and is_conc:
            if key in d.known:
                return d.known[key]
            if d.base is None:
                return ABSENT
            t = self.sel(d.base, self.key_term(key))
            ty = self.field_type(d, key)
            if self.path.decide(t == U.absent, "absent"):
                return ABSENT
            v = self.inside(self.from_u(t, ty))
            if isinstance(v, (ListV, DictV)):
                d.known[key] = v          # materialise: keep identity
                if d.base_shared and not (self.frames and self.frames[-1].mode == "spec"):
                    v.frozen = "shared by a shallow copy"
            return v
        if d.parent is None and d.base is None and not d.known:
            return ABSENT
        kt = self.key_term(key)
        if d.parent is None and d.base is None and len(d.known) <= 8 and all(isinstance(k, (str, int)) and isinstance(x, (str, int)) for k, x in d.known.items()):
            for k, x in d.known.items():
                if self.path.decide(kt == self.key_term(k), "table key"):
                    return x
            return ABSENT
        t = self.sel(self.arr(d), kt)
        ty = self.field_type(d, key)
        if self.path.decide(t == U.absent, "absent"):
            return ABSENT
        if ty.name in ("list", "rec", "map"):
            return self.from_u(t, ty, parent=(d, kt, None))
        return self.inside(self.from_u(t, ty))

    def dict_set(self, d, key, v):
        self.touch(d)
        if d.ty is not None and (d.ty.name == "rec" or d.parent is not None):
            self.conform(v, self.field_type(d, key))
        ck = self.conc_key(key) if not isinstance(key, Sym) else None
        if d.parent is None and (ck is not None or key is None):
            if d.keys is not None and key not in d.known:
                self.dict_addkey(d, key)
            d.known[key] = v
            return
        self.escape(v)
        if d.parent is None and (d.ty is None or d.ty.name == "map"):
            d.ty = TMap(join(self.dict_elem_kind(d), kind_of(v)) or TAny, join(self.dict_key_kind(d), kind_of(key)) or TAny)
        if d.parent is None and d.base is None and not d.known:
            d.base = EMPTY_ARR
            d.keys = EMPTY_SEQ
        self.dict_addkey(d, key)
        self.dict_store_raw(d, self.key_term(key), self.to_u(v))

    def dict_addkey(self, d, key):
        if d.keys is None:
            if d.base is None:
                d.keys = self.seq_of_values([k for k in d.known if d.known[k] is not ABSENT])
            else:
                return
        t = self.dict_raw(d, key)
        d.keys = z3.If(t == U.absent, z3.Concat(d.keys, z3.Unit(self.to_u(key))), d.keys)

    def dict_store_raw(self, d, kt, t, quiet=False):
        if not quiet:
            self.touch(d)
        if not z3.is_expr(kt):
            kt = self.key_term(kt)
        if d.parent is not None:
            a = z3.Store(self.arr(d), kt, t)
            self.set_child(d.parent[0], d.parent[1], U.udict(a))
            return
        a = self.arr(d)
        if d.ty is None and d.base is None:
            d.ty = TMap(self.dict_elem_kind(d), self.dict_key_kind(d))
        self.absorb(d)
        d.known = {}
        d.base = z3.Store(a, kt, t)

    def dict_del(self, d, key):
        self.touch(d)
        if d.parent is None and self.conc_key(key) is not None and not isinstance(key, Sym):
            if d.keys is not None:
                d.keys = None
            if d.base is None:
                del d.known[key]
            else:
                d.known[key] = ABSENT
            return
        d.keys = None
        self.dict_store_raw(d, self.key_term(key), U.absent)

    def dict_key_kind(self, d):
        k = TBot
        for x, v in d.known.items():
            if v is not ABSENT:
                k = join(k, kind_of(x)) or TAny
        if d.base is not None and not d.base.eq(EMPTY_ARR):
            k = join(k, key_type(d.ty))
        return k

    def dict_elem_kind(self, d):
        k = TBot
        for v in d.known.values():
            if v is not ABSENT:
                k = join(k, kind_of(v))
                if k is None:
                    return TAny
        if d.base is not None:
            b = d.ty.elem if d.ty is not None and d.ty.name == "map" else TAny
            k = join(k, b)
        return k or TAny

    def setarr(self, s):
        a = s.base if s.base is not None else EMPTY_SET
        for x in s.known:
            a = z3.Store(a, self.key_term(x), z3.BoolVal(True))
        return a

    # ================================================================ lifting constants
    def lift(self, v):
        if isinstance(v, (list, dict, set, frozenset)):
            if id(v) in self.lifted:
                return self.lifted[id(v)][0]
            if isinstance(v, list):
                r = ListV(items=[self.lift(x) for x in v])
            elif isinstance(v, dict):
                r = DictV(known={k: self.lift(x) for k, x in v.items()})
            else:
                r = SetV(known=sorted(v, key=repr))
            r.frozen = "module-level constant"
            self.lifted[id(v)] = (r, v)
            return r
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        return v

    # ================================================================ truth / eq / resolve
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Sym):
            k = v.kind
            if k == "bool":
                return v.t
            if k == "int":
                return v.t != 0
            if k in ("str", "bytes"):
                return z3.Length(v.t) > 0
            t = v.t
            if v.ty is not None and v.ty.name == "opt" and v.ty.elem.name in ("str", "bytes", "int", "bool"):
                e = v.ty.elem.name
                body = {"str": z3.Length(U.sval(t)) > 0, "bytes": z3.Length(U.yval(t)) > 0, "int": U.ival(t) != 0, "bool": U.bval(t)}[e]
                return z3.And(t != U.none, body)
            if v.ty is not None and v.ty.name == "obj":
                return True
            return z3.And(t != U.none,
                          z3.Implies(U.is_ubool(t), U.bval(t)),
                          z3.Implies(U.is_uint(t), U.ival(t) != 0),
                          z3.Implies(U.is_ustr(t), z3.Length(U.sval(t)) > 0),
                          z3.Implies(U.is_ubytes(t), z3.Length(U.yval(t)) > 0),
                          z3.Implies(U.is_ulist(t), z3.Length(U.lval(t)) > 0),
                          z3.Implies(U.is_utup(t), z3.Length(U.tval(t)) > 0),
                          z3.Implies(U.is_udict(t), U.dval(t) != EMPTY_ARR),
                          z3.Implies(U.is_uset(t), U.eval(t) != EMPTY_SET),
                          z3.Implies(U.is_uopq(t), uf("truthy", U, Bool)(t)))
        if isinstance(v, ListV):
            n = self.llen(v)
            return n > 0 if isinstance(n, int) else n.t > 0
        if isinstance(v, DictV):
            if v.parent is None and v.base is None:
                return any(x is not ABSENT for x in v.known.values())
            if v.ty is not None and v.ty.name == "rec" and v.ty.fields:
                return True
            return self.arr(v) != EMPTY_ARR
        if isinstance(v, SetV):
            if v.base is None:
                return bool(v.known)
            return self.setarr(v) != EMPTY_SET
        if isinstance(v, VSeq):
            if getattr(v, "sized", False):
                n = v.length
                return n > 0
            return True
        if isinstance(v, ModelObj):
            return v.truth(self) if hasattr(v, "truth") else True
        if isinstance(v, Poison):
            raise Unsupported("use of undetermined variable: " + v.why)
        return True

    def test(self, v, label=""):
        return self.path.decide(self.truth(v), label)

    def resolve(self, v):
        """determine the kind of an 'any' value by forking"""
        if not (isinstance(v, Sym) and v.kind == "any"):
            return v
        p, t = self.path, v.t
        if v.ty is not None and v.ty.name == "opt":
            if p.decide(t == U.none, "isnone"):
                return None
            return self.from_u(t, v.ty.elem)
        if v.ty is not None and v.ty.name == "obj":
            return v
        a = self.auto(t)
        if not (isinstance(a, Sym) and a.kind == "any"):
            return a
        for rec, ty in ((U.is_ustr, TStr), (U.is_uint, TInt), (t == U.none, TNone), (U.is_ulist, TList(TAny)),
                        (U.is_udict, TMap(TAny)), (U.is_ubool, TBool), (U.is_utup, None), (U.is_ubytes, TBytes)):
            c = rec if z3.is_expr(rec) else rec(t)
            if p.decide(c, "kind"):
                if ty is None:
                    r = ListV(seq=U.tval(t), ety=TAny)
                    r.frozen = "tuple"
                    return r
                r = self.from_u(t, ty)
                if isinstance(r, (ListV, DictV)):
                    r.frozen = "untyped value"
                return r
        return v

    def eq(self, a, b):
        """bool or term"""
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported("use of undetermined variable: " + x.why)
        if isinstance(a, (str, int, bytes, float, type(None))) and isinstance(b, (str, int, bytes, float, type(None))):
            return a == b
        if a is b and not isinstance(a, float):
            return True
        ka, kb = self.pkind(a), self.pkind(b)
        if ka and kb:
            if ka == kb:
                return simp(self.prim(a, ka) == self.prim(b, kb))
            if {ka, kb} == {"int", "bool"}:
                return simp(self.prim(a, "int") == self.prim(b, "int"))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (types.FunctionType, type, types.BuiltinFunctionType, FuncV)) or isinstance(b, (types.FunctionType, type, types.BuiltinFunctionType, FuncV)):
            return a is b
        if ka is None and isinstance(a, (ListV, DictV, SetV, tuple)) and (kb or b is None):
            return False
        if kb is None and isinstance(b, (ListV, DictV, SetV, tuple)) and (ka or a is None):
            return False
        for x in (a, b):
            if isinstance(x, ModelObj):
                return x.eq(self, b if x is a else a) if hasattr(x, "eq") else (a is b)
        return simp(self.to_u(a) == self.to_u(b))

    def pkind(self, v):
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, str):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, Sym) and v.kind != "any":
            return v.kind
        return None

    def conj(self, ts):
        ts = [t for t in ts if t is not True]
        if any(t is False for t in ts):
            return False
        if not ts:
            return True
        return z3.And(*[t if z3.is_expr(t) else z3.BoolVal(t) for t in ts])

    def boolv(self, t):
        if isinstance(t, bool):
            return t
        return wrap("bool", simp(t))

    def raise_(self, cls, *args):
        raise PyRaise(ExcV(cls, args))

    # ================================================================ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s:%d" % (type(s).__name__, fr.name, s.lineno))
        self.engine.tick()
        self.cur = (fr.name, s.lineno)
        m(s, fr)

    def st_Expr(self, s, fr):
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            fr.vars[a.asname or a.name.split(".")[0]] = mod if not a.asname else sys.modules[a.name]

    def st_ImportFrom(self, s, fr):
        mod = __import__(s.module, fromlist=[a.name for a in s.names])
        for a in s.names:
            fr.vars[a.asname or a.name] = getattr(mod, a.name)

    def st_Assert(self, s, fr):
        if not self.test(self.ev(s.test, fr)):
            self.raise_(AssertionError)

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def st_Return(self, s, fr):
        raise ReturnSig(None if s.value is None else self.ev(s.value, fr))

    def st_Break(self, s, fr):
        raise BreakSig()

    def st_Continue(self, s, fr):
        raise ContinueSig()

    def st_If(self, s, fr):
        if self.test(self.ev(s.test, fr), "if@%d" % s.lineno):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def st_FunctionDef(self, s, fr):
        self.setvar(fr, s.name, self.mkfunc(s, fr, s.name))

    def mkfunc(self, node, fr, name):
        return FuncV(node, fr, fr.module, name,
                     [self.ev(d, fr) for d in node.args.defaults],
                     {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None})

    def setvar(self, fr, name, v):
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    return
                f = f.closure
        fr.vars[name] = v

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            rhs = self.ev(s.value, fr)
            if isinstance(cur, ListV) and isinstance(s.op, ast.Add):
                self.models.list_extend(self, cur, rhs)
                return
            self.setvar(fr, t.id, self.models.binop(self, s.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.models.getitem(self, obj, idx)
            rhs = self.ev(s.value, fr)
            if isinstance(cur, ListV) and isinstance(s.op, ast.Add):
                self.models.list_extend(self, cur, rhs)
                return
            self.models.setitem(self, obj, idx, self.models.binop(self, s.op, cur, rhs))
        else:
            raise Unsupported("augassign target")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, ModelObj):
                o.attrs[t.attr] = v
            elif isinstance(o, ExcV):
                o.attrs[t.attr] = v
            else:
                raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assign target %s" % type(t).__name__)

    def unpack(self, v, n):
        v = self.resolve(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(ValueError, "unpack")
            return list(v)
        if isinstance(v, ListV):
            if v.parent is None and v.items is not None:
                if len(v.items) != n:
                    self.raise_(ValueError, "unpack")
                return list(v.items)
            ln = self.llen(v)
            if not self.path.decide(self.prim(ln, "int") == n, "unpack"):
                self.raise_(ValueError, "unpack")
            return [self.elem(v, i) for i in range(n)]
        if isinstance(v, (Sym, str)) and self.pkind(v) == "str":
            st = self.prim(v, "str")
            if not self.path.decide(z3.Length(st) == n, "unpack"):
                self.raise_(ValueError, "unpack")
            return [wrap("str", simp(z3.SubString(st, i, 1))) for i in range(n)]
        if v is None or self.pkind(v):
            self.raise_(TypeError, "unpack")
        raise Unsupported("unpack %r" % type(v))

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.handlers:
                self.raise_(RuntimeError, "No active exception to reraise")
            raise PyRaise(self.handlers[-1])
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcV(v, ())
        if not isinstance(v, ExcV):
            raise Unsupported("raise of non-exception")
        if s.cause is not None:
            v.cause = self.ev(s.cause, fr)
        raise PyRaise(v)

    def exc_matches(self, exc, cls):
        """bool or term"""
        if isinstance(cls, tuple):
            rs = [self.exc_matches(exc, c) for c in cls]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(*rs) if rs else False
        if exc.cls is not None:
            return issubclass(exc.cls, cls)
        if cls is BaseException:
            return True
        # symbolic exception: predicate per class + hierarchy facts
        t = exc.term
        r = self.isinst(t, cls)
        return r

    def isinst(self, t, cls):
        reg = self.ghost.setdefault("exc_classes", {})
        key = (t.get_id(), cls)
        if key not in reg:
            pr = uf("isinst!%s.%s" % (cls.__module__, cls.__qualname__), U, Bool)(t)
            for (tid, c), (tt, q) in list(reg.items()):
                if tid == t.get_id():
                    if issubclass(cls, c):
                        self.path.assume(z3.Implies(pr, q))
                    if issubclass(c, cls):
                        self.path.assume(z3.Implies(q, pr))
            reg[key] = (t, pr)
        return reg[key][1]

    def st_Try(self, s, fr):
        if s.finalbody:
            try:
                self._try(s, fr)
            except (PyRaise, ReturnSig, BreakSig, ContinueSig):
                self.exec_block(s.finalbody, fr)
                raise
            self.exec_block(s.finalbody, fr)
        else:
            self._try(s, fr)

    def _try(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyRaise as pr:
            exc = pr.exc
            for h in s.handlers:
                cls = BaseException if h.type is None else self.ev(h.type, fr)
                if self.path.decide(self.exc_matches(exc, cls), "except"):
                    if h.name:
                        fr.vars[h.name] = exc
                    self.handlers.append(exc)
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        self.handlers.pop()
                    if h.name:
                        fr.vars.pop(h.name, None)
                    return
            raise
        self.exec_block(s.orelse, fr)

    def st_With(self, s, fr):
        self._with(s.items, s, fr)

    def _with(self, items, s, fr):
        if not items:
            self.exec_block(s.body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, GenV) and cm.cm:
            return self.with_generator(cm, items, s, fr)
        if isinstance(cm, ModelObj) and hasattr(cm, "cm_enter"):
            v = cm.cm_enter(self)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self._with(items[1:], s, fr)
            except PyRaise as pr:
                if cm.cm_exit(self, pr.exc):
                    return
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                cm.cm_exit(self, None)
                raise
            cm.cm_exit(self, None)
            return
        raise Unsupported("with on %r at %d" % (type(cm), s.lineno))

    def with_generator(self, cm, items, s, fr):
        """with on a @contextmanager generator: its body runs up to its yield, there the body
        of the with statement runs (an exception of it is raised at the yield), then the rest"""
        if cm.started:
            raise Unsupported("context manager used twice")
        cm.started = True
        sig, count = [], [0]

        def on_yield(v):
            count[0] += 1
            if count[0] > 1:
                self.raise_(RuntimeError, "generator didn't stop")
            self.frames.remove(cm.fr)
            try:
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, v, fr)
                self._with(items[1:], s, fr)
            except (ReturnSig, BreakSig, ContinueSig) as ex:
                sig.append(ex)
            finally:
                self.frames.append(cm.fr)
            return None
        cm.fr.on_yield = on_yield
        self.frames.append(cm.fr)
        try:
            self.exec_block(cm.node.body, cm.fr)
        except ReturnSig:
            pass
        finally:
            self.frames.remove(cm.fr)
        if not count[0]:
            self.raise_(RuntimeError, "generator didn't yield")
        if sig:
            raise sig[0]

    def ex_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        if getattr(fr, "on_yield", None) is None:
            raise Unsupported("yield")
        return fr.on_yield(v)

    def force(self, g):
        """all values a generator yields, as a list (laziness is dropped: for consumers that take
        everything at once; what it raises is raised)"""
        if g.cm:
            raise Unsupported("iteration over a context manager")
        if g.started:
            return g.out if g.out is not None else ListV(items=[])
        g.started = True
        out = g.fr.vars["@yield"] = ListV(items=[])

        def on_yield(v):
            self.models.method(self, out, "append", [v], {})
            return None
        g.fr.on_yield = on_yield
        self.frames.append(g.fr)
        try:
            self.exec_block(g.node.body, g.fr)
        except ReturnSig:
            pass
        finally:
            self.frames.remove(g.fr)
        return out

    # ================================================================ loops
    def st_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        self.run_for(s, fr, it, lambda v: self.assign(s.target, v, fr),
                     lambda: self.exec_block(s.body, fr),
                     assigned_names([s]), s.orelse)

    def run_for(self, node, fr, it, bind, body, names, orelse=()):
        if isinstance(it, list):
            if len(it) > 400:
                raise Unsupported("long concrete loop")
            for x in it:
                bind(x)
                try:
                    body()
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            self.exec_block(orelse, fr)
            return
        def step(k):
            bind(it.get(k))
            body()
        self.symloop(node, fr, it.length, None, step, names, orelse, it)

    def st_While(self, s, fr):
        # concrete unrolling while the test is decided syntactically
        for _ in range(64):
            st = self.peek_truth(s.test, fr)
            if st is None:
                break
            if st is False:
                self.exec_block(s.orelse, fr)
                return
            if self.mutates_symbolically(s):
                break
            try:
                self.exec_block(s.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
        def step(k):
            self.exec_block(s.body, fr)
        self.symloop(s, fr, None, lambda: self.ev(s.test, fr), step, assigned_names([s]), s.orelse, None)

    def peek_truth(self, e, fr):
        if isinstance(e, ast.Constant):
            return None if e.value else False
        return None

    def mutates_symbolically(self, s):
        return True

    def loop_key(self, node, fr):
        return (fr.mode, fr.callpath, fr.name, node.lineno, node.col_offset, tuple(c for c in self.ghost.get("unfold", ())))

    def reachable(self):
        """access path -> mutable object, for all frames + ghost roots"""
        out = {}
        seen = set()
        stack = []
        for i, f in enumerate(self.frames):
            g = f
            depth = 0
            while g is not None:
                for n in list(g.vars):
                    stack.append((("f%d.%d" % (i, depth), n), g.vars[n]))
                g = g.closure
                depth += 1
        for n, o in self.ghost.get("roots", {}).items():
            stack.append((("ghost", n), o))
        for n, o in self.ghost.get("world", {}).items():
            stack.append((("world", n), o))
        while stack:
            p, o = stack.pop(0)
            if isinstance(o, (ListV, DictV, SetV)):
                if id(o) in seen:
                    continue
                seen.add(id(o))
                out[p] = o
                if not isinstance(o, SetV) and o.parent is not None:
                    stack.append((p + ("^",), o.parent[0]))
                if isinstance(o, ListV) and o.items is not None and o.parent is None:
                    for i, x in enumerate(o.items):
                        stack.append((p + (i,), x))
                if isinstance(o, DictV) and o.parent is None:
                    for k, x in o.known.items():
                        stack.append((p + ("k:%r" % (k,),), x))
            elif isinstance(o, tuple):
                for i, x in enumerate(o):
                    stack.append((p + (i,), x))
        return out

    def obj_content(self, o):
        if isinstance(o, ListV):
            return (o.items[:] if o.items is not None else None, o.seq, o.ety, o.parent, o.frozen, o.version)
        if isinstance(o, DictV):
            return (dict(o.known), o.base, o.keys, o.ty, o.parent, o.frozen)
        return (list(o.known), o.base, o.frozen)

    def obj_restore(self, o, c):
        if isinstance(o, ListV):
            o.items = c[0][:] if c[0] is not None else None
            o.seq, o.ety, o.parent, o.frozen, o.version = c[1:]
        elif isinstance(o, DictV):
            o.known = dict(c[0])
            o.base, o.keys, o.ty, o.parent, o.frozen = c[1:]
        else:
            o.known = list(c[0])
            o.base, o.frozen = c[1:]

    def make_comps(self, meta, fr, names, reach):
        comps = []
        for n in names:
            f = fr
            if n in fr.nonlocals:
                f = fr.closure
                while f is not None and n not in f.vars:
                    f = f.closure
            if f is None or n not in f.vars:
                meta.names.setdefault(n, None)
                if f is None:
                    f = fr
                comps.append(Comp("v:" + n, (lambda f=f, n=n: f.vars.get(n, UNBOUND)),
                                  (lambda v, f=f, n=n: f.vars.__setitem__(n, v)), None))
                continue
            k = kind_of(f.vars[n])
            if n not in meta.names:
                meta.names[n] = k
            else:
                j = join(meta.names[n], k)
                if j != meta.names[n]:
                    meta.names[n] = j
                    raise RestartRound("kind of %s" % n)
            val = f.vars[n]
            if isinstance(val, (ListV, DictV, SetV)) and meta.names[n] is not None:
                self.check_unaliased(val, f, n)
            comps.append(Comp("v:" + n, (lambda f=f, n=n: f.vars[n]),
                              (lambda v, f=f, n=n: f.vars.__setitem__(n, v)), meta.names[n]))
        for p in sorted(meta.objs, key=repr):
            o = reach.get(p)
            if o is None:
                # path shape differs (e.g. different branch); the object is absent here
                continue
            if any(q != p and p[:len(q)] == q and q in reach and "^" not in p[len(q):] for q in meta.objs):
                continue        # part of a container that is itself a component
            if isinstance(o, ListV):
                k = kind_of(o)
            elif isinstance(o, DictV):
                k = T("dictobj", key=lambda: "dictobj")
                ek = self.dict_elem_kind(o)
                old = meta.objs[p].elem if meta.objs[p] is not None else TBot
                j = join(old, ek) or TAny
                if meta.objs[p] is not None and j != old:
                    meta.objs[p] = T("dictobj", elem=j, key=lambda: "dictobj")
                    raise RestartRound("dict kind")
                k.elem = j
            else:
                k = TSet
            if k is None:
                raise Unsupported("list with unencodable elements mutated in loop")
            if k.name == "list":
                j = join(meta.objs[p] or TList(TBot), k)
                if j is None:
                    raise Unsupported("heterogeneous list")
                if meta.objs[p] is None or j != meta.objs[p]:
                    first = meta.objs[p] is None
                    meta.objs[p] = j
                    if not first:
                        raise RestartRound("kind of object %s" % (p,))
                k = meta.objs[p]
            else:
                meta.objs[p] = k
            comps.append(Comp("o:" + "/".join(map(str, p)), (lambda o=o: o), None, k))
            comps[-1].obj = o
        for c in comps:
            c.nokeys = c.label in meta.nokeys
        return comps

    def check_unaliased(self, val, f, n):
        for g in self.frames:
            h = g
            while h is not None:
                for m, x in h.vars.items():
                    if (h is f and m == n):
                        continue
                    if self.mentions(x, val, 0):
                        if val.frozen == "module-level constant":
                            return
                        raise Unsupported("variable %s reassigned in a loop is aliased by %s" % (n, m))
                h = h.closure

    def mentions(self, x, val, d):
        if x is val:
            return True
        if d > 6:
            return False
        if isinstance(x, ListV):
            if x.parent is not None:
                return self.mentions(x.parent[0], val, d + 1)
            return x.items is not None and any(self.mentions(y, val, d + 1) for y in x.items)
        if isinstance(x, DictV):
            if x.parent is not None:
                return self.mentions(x.parent[0], val, d + 1)
            return any(self.mentions(y, val, d + 1) for y in x.known.values())
        if isinstance(x, tuple):
            return any(self.mentions(y, val, d + 1) for y in x)
        return False

    def comp_terms(self, c):
        """list of (sublabel, term) describing the content of a component"""
        if c.ty is None:
            return []
        v = c.get()
        if v is UNBOUND or isinstance(v, Poison):
            return []
        if c.ty.name == "dictobj":
            out = [("arr", self.arr(v))]
            if not c.nokeys and (v.keys is not None or (v.base is None and v.parent is None)):
                ks = v.keys if v.keys is not None else self.seq_of_values([k for k, x in v.known.items() if x is not ABSENT])
                out.append(("keys", ks))
            return out
        if c.ty.name == "const":
            return []
        return [("", self.term_of(v, c.ty))]

    def set_comp(self, c, terms):
        """terms: sublabel -> term; install content"""
        if c.ty is None:
            if c.set is not None:
                c.set(Poison(c.label))
            return
        if c.ty.name == "const":
            return
        if c.set is None:
            o = c.obj
            if not isinstance(o, SetV) and o.parent is not None:
                par = o.parent[0]
                if isinstance(par, ListV) and par.version != o.parent[2]:
                    raise Unsupported("stale element view")
                self.touch(o)
                self.set_child(par, o.parent[1], U.ulist(terms[""]) if isinstance(o, ListV) else U.udict(terms["arr"]))
                if isinstance(o, ListV):
                    o.version += 1
            elif isinstance(o, ListV):
                self.absorb(o)
                o.items, o.seq, o.ety = None, terms[""], c.ty.elem
                o.version += 1
            elif isinstance(o, DictV):
                self.absorb(o)
                o.known, o.base, o.keys = {}, terms["arr"], terms.get("keys")
                if o.ty is None or o.ty.name == "map":
                    o.ty = TMap(c.ty.elem, key_type(c.ty))
            else:
                o.known, o.base = [], terms[""]
        else:
            c.set(self.value_of(terms[""], c.ty))

    def comp_sorts(self, c):
        if c.ty is None or c.ty.name == "const":
            return []
        if c.ty.name == "dictobj":
            return [("arr", ArrU)] if c.nokeys else [("arr", ArrU), ("keys", SeqU)]
        return [("", sort_of(c.ty))]

    def back_edge(self, meta, comps, fr, names, entry_ids):
        """check that kinds are stable at the back edge (else restart with a wider kind)"""
        seen = {}
        for c in comps:
            if c.set is None:
                o = c.obj
                if isinstance(o, DictV) and not c.nokeys and len(self.comp_terms(c)) < 2:
                    meta.nokeys.add(c.label)
                    raise RestartRound("key order of %s" % c.label)
                if not isinstance(o, SetV) and o.copied is not None and meta.copied.get(c.label) != o.copied:
                    meta.copied[c.label] = o.copied if c.label not in meta.copied else ("many",)
                    raise RestartRound("copied %s" % c.label)
                if isinstance(o, ListV):
                    k = kind_of(o)
                    if k is None:
                        raise Unsupported("unencodable list")
                    p = tuple_label(c.label)
                    for q in meta.objs:
                        if "o:" + "/".join(map(str, q)) == c.label:
                            j = join(meta.objs[q], k)
                            if j is None:
                                raise Unsupported("heterogeneous list")
                            if j != meta.objs[q]:
                                meta.objs[q] = j
                                raise RestartRound("obj kind %s" % c.label)
                if isinstance(o, DictV):
                    for q in meta.objs:
                        if "o:" + "/".join(map(str, q)) == c.label:
                            j = join(meta.objs[q].elem, self.dict_elem_kind(o)) or TAny
                            if j != meta.objs[q].elem:
                                meta.objs[q] = T("dictobj", elem=j, key=lambda: "dictobj")
                                raise RestartRound("dict kind %s" % c.label)
                continue
            n = c.label[2:]
            v = c.get()
            if v is UNBOUND or isinstance(v, Poison):
                if meta.names.get(n) is not None:
                    meta.names[n] = None
                    raise RestartRound("unbound %s" % n)
                continue
            if c.ty is None:
                continue
            k = kind_of(v)
            j = join(c.ty, k)
            if j is None or j != c.ty:
                meta.names[n] = j
                raise RestartRound("kind of %s: %s -> %s" % (n, c.ty, j))
            if isinstance(v, (ListV, DictV, SetV)):
                if id(v) in entry_ids and not getattr(c, "same", None) is v:
                    raise Unsupported("loop variable %s aliases an older object" % n)
                if id(v) in seen:
                    raise Unsupported("loop variables %s and %s alias" % (n, seen[id(v)]))
                if v.frozen and v.frozen == "stored in another container":
                    c_fr = True
                    if not meta.frozen.get(n):
                        meta.frozen[n] = True
                        raise RestartRound("frozen %s" % n)
                if getattr(v, "shared", False) and not meta.shared.get(n):
                    meta.shared[n] = True
                    raise RestartRound("shared %s" % n)
                seen[id(v)] = n

    def symloop(self, node, fr, n, cond, step, names, orelse, it):
        key = self.loop_key(node, fr)
        meta = self.engine.meta(key)
        reach = self.reachable()
        comps = self.make_comps(meta, fr, names, reach)
        if fr.mode == "spec":
            return self.fold_loop(key, meta, node, fr, n, cond, step, comps, names, orelse, reach, it)
        p = self.path
        if n is not None:
            nt = n if z3.is_expr(n) else z3.IntVal(n)
            p.assume(nt >= 0)
        k = z3.Int("k!%s" % abs(hash(key))) if False else p.fresh("k", Int)
        entry = {}
        for c in comps:
            for sub, t in self.comp_terms(c):
                entry[(c.label, sub)] = t
        # candidates at entry
        cands = self.engine.candidates(self, key, meta, comps, entry, n, fr)
        zero = z3.IntVal(0)
        self.engine.check_cands(self, key, cands, zero, comps, "init")
        # havoc
        for c in comps:
            ts = {}
            for sub, srt in self.comp_sorts(c):
                if (c.label, sub) in entry or sub == "":
                    ts[sub] = p.fresh("h_" + c.label, srt)
            self.set_comp(c, ts)
            if c.set is None and c.label in meta.copied:
                c.obj.copied = meta.copied[c.label]
            if c.set is not None and meta.frozen.get(c.label[2:]):
                v = c.get()
                if isinstance(v, (ListV, DictV, SetV)):
                    v.frozen = "stored in another container"
            if c.set is not None and meta.shared.get(c.label[2:]):
                v = c.get()
                if isinstance(v, ListV):
                    v.shared = True
            c.same = c.get() if c.set is not None else None
        p.assume(k >= 0)
        if n is not None:
            p.assume(k <= nt)
        self.engine.assume_cands(self, key, cands, k, comps)
        entry_ids = set(id(o) for o in self.reachable().values())
        if cond is not None:
            go = self.test(cond(), "while")
        else:
            go = p.choose(2) == 0
            if go:
                p.assume(k < nt)
                if self.path._check(z3.BoolVal(True), self.engine.back.quick_ms) == z3.unsat:
                    raise PathEnd()
            else:
                p.assume(k == nt)
        if go:
            self.engine.loop_reached.add(key)
            lc = LoopCtx(meta, {id(o): pth for pth, o in self.reachable().items()},
                         set(id(c.obj) for c in comps if c.set is None), comps)
            measure0 = self.measure(node, fr, key)
            self.align(k)
            self.loopstack.append(lc)
            try:
                try:
                    step(k)
                except ContinueSig:
                    pass
            except BreakSig:
                self.loopstack.pop()
                return
            except (ReturnSig, PyRaise):
                self.loopstack.pop()
                raise
            self.loopstack.pop()
            self.back_edge(meta, comps, fr, names, entry_ids)
            self.engine.check_cands(self, key, cands, k + 1, comps, "step")
            if n is None:
                self.engine.check_measure(self, node, fr, key, measure0)
            raise PathEnd()
        if it is not None and it.on_stop is not None:
            it.on_stop(self)
        self.exec_block(orelse, fr)

    def measure(self, node, fr, key):
        return None

    def align(self, k):
        """unfold the specification's loops that run in step with this one: those nested as deep, or else any"""
        depth = len(self.loopstack)
        live = [f for f in self.path.folds if not getattr(f, "inactive", False)]
        near = [f for f in live if f.depth == depth]
        far = [f for f in live if f.depth != depth]
        for group in (near, far):
            done = False
            for f in group:
                if self.path.entails(z3.And(k >= 0, k < f.n)):
                    f.unfold(k)
                    done = True
            if done:
                return

    # ---- folds (spec loops)
    def fold_loop(self, key, meta, node, fr, n, cond, step, comps, names, orelse, reach, it=None):
        p = self.path
        if n is None:
            raise Unsupported("while loop in a specification")
        nt = n if z3.is_expr(n) else z3.IntVal(n)
        p.assume(nt >= 0)
        tag = "S%d" % self.engine.fold_id(key)
        snapshot_reach = self.reachable()
        f = Fold(key, nt, comps, self)
        f.name = tag
        f.depth = len(self.ghost.get("unfold", ()))
        fns = {}
        inst = next(p.counter)
        for c in comps:
            for sub, srt in self.comp_sorts(c):
                fns[(c.label, sub)] = uf("%s_%d.%s%s" % (tag, inst, c.label, ("." + sub) if sub else ""), Int, srt)
        f.fns = fns
        for c in comps:
            for sub, t in self.comp_terms(c):
                p.assume(fns[(c.label, sub)](z3.IntVal(0)) == t)
        St = uf("%s_%d.status" % (tag, inst), Int, Int)
        Val = uf("%s_%d.val" % (tag, inst), Int, U)
        f.St, f.Val = St, Val
        f.meta = meta
        p.assume(St(z3.IntVal(0)) == 0)

        def install(k):
            for c in comps:
                if c.ty is None:
                    if c.set is not None:
                        c.set(Poison(c.label))
                    continue
                self.set_comp(c, {sub: fns[(c.label, sub)](k) for sub, _ in self.comp_sorts(c)})
                if c.set is not None and meta.frozen.get(c.label[2:]):
                    v = c.get()
                    if isinstance(v, (ListV, DictV, SetV)):
                        v.frozen = "stored in another container"
                if c.set is not None and meta.shared.get(c.label[2:]):
                    v = c.get()
                    if isinstance(v, ListV):
                        v.shared = True
                c.same = c.get() if c.set is not None else None

        def run_body(k):
            """execute the body at k from S(k); returns (status, val)"""
            install(k)
            entry_ids = set(id(o) for o in self.reachable().values())
            lc = LoopCtx(meta, {id(o): pth for pth, o in self.reachable().items()},
                         set(id(c.obj) for c in comps if c.set is None), comps)
            self.loopstack.append(lc)
            st, val = 0, None
            try:
                try:
                    step(k)
                except ContinueSig:
                    pass
            except BreakSig:
                st = 1
            except ReturnSig as r:
                st, val = 2, r.value
            except PyRaise as r:
                st, val = 3, r.exc
            finally:
                self.loopstack.pop()
            if st == 0:
                self.back_edge(meta, comps, fr, names, entry_ids)
            new = st not in meta.statuses
            meta.statuses.add(st)
            if st == 3 and not meta.exc_any:
                known = issubclass(val.cls, Exception) if val.cls is not None else p.entails(self.isinst(val.term, Exception))
                if not known:
                    meta.exc_any = True
                    raise RestartRound("exception class")
            if st == 2:
                kk = kind_of(val)
                j = join(meta.retty or TBot, kk)
                if j is None:
                    raise Unsupported("return value in spec loop")
                if meta.retty is None or j != meta.retty:
                    meta.retty = j
                    raise RestartRound("ret kind")
            if new:
                raise RestartRound("status")
            return st, val

        frames_snapshot = list(self.frames)
        vars_snapshot = [(g, dict(g.vars)) for g in self.closure_frames(fr)]
        heap_snapshot = [(o, self.obj_content(o)) for o in snapshot_reach.values()]

        def unfold(k):
            if any(u.eq(k) for u in f.unfolded):
                return
            f.unfolded.append(k)
            cur_heap = [(o, self.obj_content(o)) for o in self.reachable().values()]
            cur_heap += [(o, self.obj_content(o)) for o, _ in heap_snapshot]
            cur_vars = [(g, dict(g.vars)) for g, _ in vars_snapshot]
            cur_frames = self.frames
            cur_loop = self.loopstack
            self.frames = list(frames_snapshot)
            self.loopstack = []
            old_unf = self.ghost.get("unfold", ())
            self.ghost["unfold"] = old_unf + (f.name,)
            for g, d in vars_snapshot:
                g.vars.clear()
                g.vars.update(d)
            for o, c in heap_snapshot:
                self.obj_restore(o, c)
            n_folds = len(p.folds)
            try:
                if meta.statuses - {0}:
                    dead = z3.And(St(k + 1) == St(k), Val(k + 1) == Val(k),
                                  *[fn(k + 1) == fn(k) for fn in fns.values()])
                    if p.decide(St(k) != 0, "spec-stopped"):
                        p.assume(dead)
                        return
                st, val = run_body(k)
                eqs = [St(k + 1) == st]
                if st in (2,):
                    eqs.append(Val(k + 1) == self.to_u(val))
                elif st == 3:
                    f.excs.append((k, val))
                    eqs.append(Val(k + 1) == self.exc_term(val))
                for c in comps:
                    for sub, t in self.comp_terms(c):
                        eqs.append(fns[(c.label, sub)](k + 1) == t)
                for e in eqs:
                    p.assume(e)
                if st != 0:
                    p.assume(z3.And(St(nt) == st, Val(nt) == Val(k + 1),
                                    *[fn(nt) == fn(k + 1) for fn in fns.values()]))
            finally:
                self.frames = cur_frames
                self.loopstack = cur_loop
                self.ghost["unfold"] = old_unf
                for g, d in cur_vars:
                    g.vars.clear()
                    g.vars.update(d)
                for o, c in cur_heap:
                    self.obj_restore(o, c)

        f.unfold = unfold
        f.excs = []
        # probe path: discover the effects of the body
        if p.choose(2) == 0:
            k = p.fresh("kp", Int)
            p.assume(z3.And(k >= 0, k < nt))
            if not getattr(p, "free", False) and p._check(z3.BoolVal(True), self.engine.back.quick_ms) == z3.unsat:
                raise PathEnd()
            run_body(k)
            raise PathEnd()
        p.folds.append(f)
        install(nt)
        for c in comps:
            if c.set is not None and c.ty is None:
                c.set(Poison(c.label))
        if meta.statuses - {0}:
            for st in sorted(meta.statuses - {0}):
                if p.decide(St(nt) == st, "spec-status"):
                    if st == 1:
                        return
                    if st == 2:
                        raise ReturnSig(self.from_u(Val(nt), meta.retty))
                    if not meta.exc_any:
                        p.assume(self.isinst(Val(nt), Exception))
                    raise PyRaise(ExcV(term=Val(nt)))
            p.assume(St(nt) == 0)
        if it is not None and it.on_stop is not None:
            it.on_stop(self)
        self.exec_block(orelse, fr)

    def exc_term(self, e):
        if e.term is not None:
            return e.term
        t = uf("exc_const", Int, U)(self.const_id(e.cls))
        return t

    def closure_frames(self, fr):
        out = []
        while fr is not None:
            out.append(fr)
            fr = fr.closure
        return out

    def concretize(self, t, most=8):
        """the python string a term denotes, by case split over the values the facts allow"""
        for _ in range(most):
            t = simp(t)
            if z3.is_string_value(t):
                return lit_str(t)
            p = self.path
            if p.pos < len(p.prefix) and p.prefix[p.pos][0] == "V":
                b = p.prefix[p.pos]
            else:
                if p._check(z3.BoolVal(True), 500) != z3.sat:
                    raise Unsupported("value not determined")
                p.solver.check()
                b = ("V", lit_str(p.solver.model().eval(t, model_completion=True)))
                del p.prefix[p.pos:]
                p.prefix.append(b)
            p.pos += 1
            p.decisions.append(b)
            p.ph = hash((p.ph, b))
            if p.decide(t == esc(b[1]), "case"):
                return b[1]
        raise Unsupported("value not determined")

    # ================================================================ iteration
    def iterate(self, v):
        """python list of values (concrete spine) or VSeq"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ListV):
            if v.parent is None and v.items is not None:
                return list(v.items)
            seq0 = self.seq(v)
            n = simp(z3.Length(seq0))
            # iteration reads the current list (python semantics); length must not change
            def get(i, v=v, n=n):
                return self.elem(v, i)
            r = VSeq(n, get, "list")
            r.source = v
            return r
        if isinstance(v, VSeq):
            return v
        if isinstance(v, ConcreteIter):
            xs = v.items[v.pos:]
            v.pos = len(v.items)
            return xs
        if isinstance(v, DictV):
            return self.models.dict_keys(self, v)
        if isinstance(v, SetV):
            if v.base is None:
                return list(v.known)
            raise Unsupported("iterate symbolic set")
        if isinstance(v, Sym) and v.kind == "str":
            st = v.t
            def getc(i):
                self.path.inst(i)
                c = simp(z3.SubString(st, i, 1))
                self.path.assume(z3.Length(c) == 1)
                return wrap("str", c)
            return VSeq(z3.Length(st), getc, "str")
        if isinstance(v, (range,)):
            return list(v)
        if isinstance(v, ModelObj) and hasattr(v, "iterate"):
            return v.iterate(self)
        if v is None or self.pkind(v) in ("int", "bool"):
            self.raise_(TypeError, "not iterable")
        raise Unsupported("iterate %r" % (type(v),))

    # ================================================================ expressions
    def ev(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def ev_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return slice(None if e.lower is None else self.ev(e.lower, fr),
                         None if e.upper is None else self.ev(e.upper, fr),
                         None if e.step is None else self.ev(e.step, fr))
        return self.ev(e, fr)

    def ex_Constant(self, e, fr):
        return e.value

    def ex_Name(self, e, fr):
        n = e.id
        f = fr
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if isinstance(v, Poison):
                    raise Unsupported("read of undetermined variable %s (line %d)" % (n, e.lineno))
                return v
            f = f.closure
        g = fr.module.__dict__
        if n in self.engine.global_override.get(fr.module.__name__, {}):
            return self.engine.global_override[fr.module.__name__][n]
        if n in g:
            return self.lift(g[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        local = getattr(fr, "localnames", None)
        if local is not None and n in local:
            self.raise_(UnboundLocalError, n)
        self.raise_(NameError, n)

    def ex_Tuple(self, e, fr):
        return tuple(self.ev_elts(e.elts, fr))

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if not isinstance(it, list):
                    raise Unsupported("star of symbolic sequence")
                out.extend(it)
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_List(self, e, fr):
        return ListV(items=self.ev_elts(e.elts, fr))

    def ex_Set(self, e, fr):
        return SetV(known=self.ev_elts(e.elts, fr))

    def ex_Dict(self, e, fr):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.resolve(self.ev(v, fr))
                self.models.dict_update(self, d, o)
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.path.decide(self.truth(v), "boolop")
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.boolv(z3.Not(t))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return wrap("int", simp(-self.prim(v, "int")))
        raise Unsupported("unary")

    def ex_BinOp(self, e, fr):
        return self.models.binop(self, e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            t = self.models.compare(self, op, left, right)
            if len(e.ops) > 1 and not isinstance(t, bool):
                t2 = self.path.decide(t, "cmp")
                t = t2
            if t is False:
                return False
            res.append(t)
            left = right
        return self.boolv(self.conj(res))

    def ex_IfExp(self, e, fr):
        if self.test(self.ev(e.test, fr), "ifexp"):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ex_Lambda(self, e, fr):
        return self.mkfunc(e, fr, "<lambda>")

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_Starred(self, e, fr):
        raise Unsupported("starred")

    def ex_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                fs = x.format_spec.values[0].value if x.format_spec is not None and len(x.format_spec.values) == 1 and isinstance(x.format_spec.values[0], ast.Constant) else ""
                if re.fullmatch(r"0\d+d?", fs) and x.conversion == -1 and self.pkind(self.resolve(v)) == "int":
                    parts.append(self.models.zero_padded(self, self.resolve(v), int(fs.strip("d"))))
                elif x.format_spec is not None or x.conversion not in (-1, 115):
                    parts.append(self.models.opaque_str(self, "fmt%s%s" % (x.conversion, ast.dump(x.format_spec) if x.format_spec else ""), v))
                else:
                    parts.append(self.models.to_str(self, v))
        return self.models.str_concat(self, parts)

    def ex_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.models.getitem(self, o, self.ev_index(e.slice, fr))

    def ex_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.models.getattr_(self, o, e.attr)

    # comprehensions: executed as loops building a hidden list
    def ex_ListComp(self, e, fr):
        return self.comp_list(e, fr)

    def ex_GeneratorExp(self, e, fr):
        l = self.comp_list(e, fr, gen=True)
        return l

    def ex_SetComp(self, e, fr):
        l = self.comp_list(e, fr)
        return self.models.make_set(self, l)

    def comp_list(self, e, fr, gen=False):
        cf = Frame(fr.name, fr.module, fr.mode, fr, fr.callpath)
        cf.vars["__out"] = ListV(items=[])
        self.frames.append(cf)
        try:
            def emit():
                self.list_append(cf.vars["__out"], self.ev(e.elt, cf))
            self.run_gens(e.generators, 0, cf, emit)
        finally:
            self.frames.pop()
        return cf.vars["__out"]

    def ex_DictComp(self, e, fr):
        cf = Frame(fr.name, fr.module, fr.mode, fr, fr.callpath)
        cf.vars["__out"] = DictV()
        self.frames.append(cf)
        try:
            def emit():
                k = self.ev(e.key, cf)
                self.dict_set(cf.vars["__out"], k, self.ev(e.value, cf))
            self.run_gens(e.generators, 0, cf, emit)
        finally:
            self.frames.pop()
        return cf.vars["__out"]

    def run_gens(self, gens, i, cf, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = self.iterate(self.ev(g.iter, cf))

        def body():
            for c in g.ifs:
                if not self.test(self.ev(c, cf), "compif"):
                    return
            self.run_gens(gens, i + 1, cf, emit)
        names = []
        for h in gens[i:]:
            names += [x for x in assigned_names([ast.Assign(targets=[h.target], value=ast.Constant(0))]) if x not in names]
        self.run_for(g.iter, cf, it, lambda v: self.assign(g.target, v, cf), body, names)

    # ================================================================ calls
    def ex_Call(self, e, fr):
        # extraction drops logging statements (they do not affect results)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("LOGGER", "logger", "logging") and self.is_logger(e.func.value.id, fr):
            return None
        f = self.ev(e.func, fr)
        if (f is any or f is all) and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.GeneratorExp):
            return self.call(self.mkfunc(quantifier(e, f is any), fr, "<%s>" % f.__name__), [], {}, (e.lineno, e.col_offset))
        args = self.ev_elts(e.args, fr)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "append" and len(args) == 1 and isinstance(e.args[0], ast.Dict) and isinstance(args[0], DictV):
            args[0].unnamed = True
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, fr))
                if not isinstance(d, DictV) or d.base is not None or d.parent is not None:
                    kw["**"] = d
                    continue
                for kk, vv in d.known.items():
                    if vv is not ABSENT:
                        kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, (e.lineno, e.col_offset))

    def is_logger(self, n, fr):
        import logging
        v = fr.module.__dict__.get(n)
        return isinstance(v, (logging.Logger, types.ModuleType)) and n not in fr.vars

    def call(self, f, args, kw, site=(0, 0)):
        self.engine.tick()
        if isinstance(f, FuncV):
            return self.call_node(f.node, f.frame, f.module, f.name, f.defaults, f.kwdefaults, args, kw, site,
                                  mode=f.frame.mode if f.frame else "impl")
        if isinstance(f, BoundV):
            if isinstance(f.obj, ModelObj):
                return f.obj.method(self, f.name, args, kw)
            return self.models.method(self, f.obj, f.name, args, kw)
        if isinstance(f, types.FunctionType) or isinstance(f, types.BuiltinFunctionType) or isinstance(f, type) or callable(f):
            h = self.engine.lookup_abstract(f)
            if h is not None:
                return h.call(self, f, args, kw)
            m = self.engine.lookup_model(f)
            if m is not None:
                return m(self, *args, **kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f, args)
        wrapped = getattr(f, "__wrapped__", None)
        if isinstance(f, types.FunctionType) and wrapped is not None and f.__code__ is _CM_CODE and self.engine.inlinable(wrapped):
            node = func_ast(wrapped)
            g = self.call_node(node, None, sys.modules[wrapped.__module__], wrapped.__qualname__, [self.lift(d) for d in (wrapped.__defaults__ or ())],
                               {k: self.lift(d) for k, d in (wrapped.__kwdefaults__ or {}).items()}, args, kw, site,
                               "spec" if self.engine.is_spec_module(wrapped.__module__) else "impl")
            g.cm = True
            return g
        if isinstance(f, types.FunctionType) and self.engine.inlinable(f):
            node = func_ast(f)
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                names = [ast.unparse(d) for d in node.decorator_list]
                raise Unsupported("decorated function %s %s" % (f.__name__, names))
            mod = sys.modules[f.__module__]
            mode = "spec" if self.engine.is_spec_module(f.__module__) else "impl"
            defaults = [self.lift(d) for d in (f.__defaults__ or ())]
            kwd = {k: self.lift(d) for k, d in (f.__kwdefaults__ or {}).items()}
            return self.call_node(node, None, mod, f.__qualname__, defaults, kwd, args, kw, site, mode)
        # pure function on concrete arguments
        if all(self.is_conc(a) for a in args) and all(self.is_conc(a) for a in kw.values()) and self.engine.pure_builtin(f):
            try:
                return self.lift(f(*args, **kw))
            except Exception as ex:
                raise PyRaise(ExcV(type(ex), ex.args))
        if isinstance(f, Sym) and f.kind == "any":
            h = self.engine.contract.callback
            if h is not None:
                return h.call(self, f, args, kw)
        if f is None:
            self.raise_(TypeError, "NoneType not callable")
        raise Unsupported("call of %r at %s" % (getattr(f, "__qualname__", f), getattr(self, "cur", None)))

    def is_conc(self, v):
        if v is None or isinstance(v, (str, int, bytes, float, V.re.Pattern, type)):
            return True
        if isinstance(v, tuple):
            return all(self.is_conc(x) for x in v)
        return False

    def bind(self, node, defaults, kwdefaults, args, kw, name):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        if "**" in kw:
            raise Unsupported("symbolic **kwargs")
        if len(args) > len(params):
            if a.vararg is None:
                self.raise_(TypeError, "too many args to %s" % name)
            out[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for p, v in zip(params, args):
            out[p] = v
        for p in params[len(args):]:
            if p in kw:
                out[p] = kw.pop(p)
        nd = len(defaults)
        for i, p in enumerate(params):
            if p not in out:
                j = i - (len(params) - nd)
                if j >= 0:
                    out[p] = defaults[j]
                else:
                    self.raise_(TypeError, "missing argument %s of %s" % (p, name))
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                out[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_(TypeError, "missing kwonly %s" % x.arg)
        if kw:
            if a.kwarg is None:
                self.raise_(TypeError, "unexpected keyword %s" % list(kw))
            out[a.kwarg.arg] = DictV(known=dict(kw))
        elif a.kwarg is not None:
            out[a.kwarg.arg] = DictV()
        return out

    def call_node(self, node, closure, module, name, defaults, kwdefaults, args, kw, site, mode):
        if self.depth > 40:
            raise Unsupported("recursion depth")
        cp = (self.frames[-1].callpath if self.frames else ()) + (site,)
        fr = Frame(name, module, mode, closure, cp)
        fr.vars.update(self.bind(node, defaults, kwdefaults, args, kw, name))
        if isinstance(node, ast.FunctionDef):
            fr.localnames = set(assigned_names(node.body))
            for sub in ast.walk(node):
                if isinstance(sub, (ast.Yield, ast.YieldFrom)) and self.owns(node, sub):
                    return GenV(node, fr)
        self.frames.append(fr)
        self.depth += 1
        nfold = len(self.path.folds)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            self.exec_block(node.body, fr)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            self.frames.pop()
            self.depth -= 1

    def owns(self, fn, sub):
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if c is sub:
                    return True
                if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                    continue
                if walk(c):
                    return True
            return False
        return walk(fn)


def tuple_label(s):
    return s


class LoopCtx:
    def __init__(self, meta, entry, havoced, comps):
        self.meta, self.entry, self.havoced = meta, entry, havoced
        for c in comps:
            if c.set is not None:
                v = c.get()
                if isinstance(v, (ListV, DictV, SetV)):
                    self.havoced.add(id(v))

    def note_write(self, interp, chain):
        """chain: written object, its container, ... up to the root"""
        if any(id(o) in self.havoced for o in chain):
            return
        for obj in chain:
            if id(obj) in self.entry:
                p = self.entry[id(obj)]
                if p not in self.meta.objs:
                    self.meta.objs[p] = None
                    raise RestartRound("write to %s" % (p,))
                return
