"""Verification driver: rounds, Houdini loop invariants, obligations."""
import importlib
import inspect
import os
import sys
import time
import types
import z3

from .values import *
from .values import S as simp
from . import interp as interp_mod
from .interp import Interp, Path, Frame, Comp, kind_of, uf, UNBOUND, func_ast
from . import models as models_mod
from .solver import Back


class Meta:
    def __init__(self):
        self.names, self.objs = {}, {}
        self.statuses = {0}
        self.retty = None
        self.exc_any = False          # raises exceptions not known to be an Exception
        self.frozen = {}
        self.shared = {}
        self.copied = {}
        self.nokeys = set()


class Abstract:
    """Assumed contract of a callee: a deterministic (uninterpreted) function of its
    arguments, of the given result type; may raise; may update the listed arguments."""

    def __init__(self, ret=TAny, raises=True, mutates=(), name=None, facts=None, ignore=(), argtypes=None):
        self.ret, self.raises, self.mutates, self.name = ret, raises, tuple(mutates), name
        self.facts = facts
        self.ignore = ignore

    def call(self, I, f, args, kw):
        args = [I.force(a) if isinstance(a, GenV) else a for a in args]
        if isinstance(f, types.FunctionType):
            try:
                sig = inspect.signature(f)
                ba = sig.bind(*args, **{k: v for k, v in kw.items() if k != "**"})
                ba.apply_defaults()
            except TypeError as ex:
                raise PyRaise(ExcV(TypeError, ()))
            bound = []
            for n, v in ba.arguments.items():
                if n in self.ignore:
                    continue
                par = sig.parameters[n]
                if par.kind == par.VAR_KEYWORD:
                    v = DictV(known={k: I.lift(x) for k, x in v.items()})
                    if "**" in kw:
                        v = kw["**"]
                bound.append((n, I.lift(v) if isinstance(v, (list, dict, set)) else v))
            name = self.name or "%s.%s" % (f.__module__, f.__qualname__)
        else:
            bound = [(str(i), a) for i, a in enumerate(args)] + sorted(kw.items())
            name = self.name or "callback"
            if isinstance(f, Sym):
                bound.insert(0, ("fn", f))
        return self.apply(I, name, bound)

    def apply(self, I, name, bound):
        us = [I.to_u(v) for _, v in bound]
        n = len(us)
        if self.raises:
            ok = uf("%s!ok" % name, *([U] * n), Bool)(*us) if n else z3.Const("%s!ok" % name, Bool)
            if not I.path.decide(ok, "callee"):
                t = uf("%s!exc" % name, *([U] * n), U)(*us) if n else z3.Const("%s!exc" % name, U)
                if isinstance(self.raises, (type, tuple)):
                    cls = self.raises if isinstance(self.raises, type) else self.raises
                    I.path.assume(I.isinst(t, cls) if isinstance(cls, type) else z3.Or(*[I.isinst(t, c) for c in cls]))
                for m in self.mutates:
                    raise Unsupported("raise with mutation") if False else None
                raise PyRaise(ExcV(term=t))
        for m in self.mutates:
            for pn, v in bound:
                if pn == m:
                    r = uf("%s!upd_%s" % (name, m), *([U] * n), U)(*us)
                    if isinstance(v, ListV):
                        I.path.assume(U.is_ulist(r))
                        I.set_seq(v, U.lval(r))
                        v.version += 1
                    elif isinstance(v, DictV):
                        I.path.assume(U.is_udict(r))
                        I.touch(v)
                        if v.parent is not None:
                            I.set_child(v.parent[0], v.parent[1], r)
                        else:
                            I.absorb(v)
                            v.known, v.base, v.keys = {}, U.dval(r), None
        t = uf("%s!val" % name, *([U] * n), U)(*us) if n else z3.Const("%s!val" % name, U)
        if self.ret.name not in ("int", "bool", "str", "bytes", "any", "none"):
            t = I.path.name_term(t, "r!")
        v = I.from_u(t, self.ret)
        if self.facts is not None:
            self.facts(I, dict(bound), v)
        return v


def resolve_target(t):
    m, q = t.split(":")
    mod = importlib.import_module(m)
    o = mod
    for part in q.split("."):
        o = getattr(o, part)
    return o


class Contract:
    def __init__(self, target, spec=None, args=None, abstract=None, models=None, requires=None,
                 ensures=None, raises=None, compare_exc=True, frame=(), name=None, invariants=None,
                 callback=None, measure=None, setup=None, defaults=None, note="", overrides=None,
                 exc_policy="same", ghost=None, lemma=False, overapprox=False, max_depth=400, final=None, select=None, free_spec=False, sticky=False):
        self.final = final
        self.free_spec = free_spec    # take every branch of the specification without asking whether it is possible
        self.sticky = sticky          # candidate invariants that were not shown once are not tried again
        self.select = select          # part of the result the specification is about
        self.target, self.spec, self.args = target, spec, args or {}
        self.abstract, self.models = abstract or {}, models or {}
        self.requires, self.ensures, self.raises = requires, ensures, raises
        self.frame = tuple(frame)
        self.name = name or target.split(":")[1]
        self.invariants = invariants or []
        self.callback = callback
        self.measure = measure
        self.setup = setup
        self.defaults = defaults or {}
        self.overrides = overrides or {}
        self.note = note
        self.exc_policy = exc_policy
        self.lemma = lemma
        self.max_depth = max_depth


class Quant:
    """candidate invariant 'for all j >= k: body(j)', handled by explicit instantiation"""

    def __init__(self, body):
        self.body = body


class Obligation:
    def __init__(self, name, status, backend="", detail="", secs=0.0, model=None):
        self.name, self.status, self.backend, self.detail, self.secs, self.model = name, status, backend, detail, secs, model


def quant_snap(body):
    """freeze the current terms: body(j) as a template over a fresh variable"""
    v = z3.Int("j!tmpl")
    t = body(v)
    return lambda j: z3.substitute(t, (v, j))


class Engine:
    def __init__(self, contract, back=None, budget=120, log=None):
        self.model_cost = 0.0
        self.required = {}
        self.contract = contract
        self.back = back or Back()
        self.metas = {}
        self.dropped = {}
        self.refuted_cands = set()
        self.budget = budget
        self.const_ids = {}
        self.global_override = {}
        self.qcache = {}
        self.weak = []                # candidates dropped without a counter-model
        self.userlabs = {l for l, _ in contract.invariants}
        self.max_depth = contract.max_depth
        self.foldids = {}
        self.log = log or (lambda *a: None)
        self.spec_modules = ("spec",)
        self.abs = {}
        for t, a in contract.abstract.items():
            o = resolve_target(t) if isinstance(t, str) else t
            self.abs[id(o)] = (o, a)
        self.mods = dict(models_mod.MODELS)
        self.named_models = {t[5:]: m for t, m in contract.models.items() if isinstance(t, str) and t.startswith("name:")}
        for t, m in contract.models.items():
            if isinstance(t, str) and t.startswith("name:"):
                continue
            o = resolve_target(t) if isinstance(t, str) else t
            self.mods[id(o)] = (o, m)
        self.obls = []
        self.inlined = set()
        self.paths = 0

    # ---- hooks used by the interpreter
    def meta(self, key):
        if key not in self.metas:
            self.metas[key] = Meta()
        return self.metas[key]

    def fold_id(self, key):
        return self.foldids.setdefault(key, len(self.foldids))

    def tick(self):
        self.ticks += 1
        if self.ticks % 64 == 0 and time.time() > self.deadline:
            raise Unsupported("verification budget exhausted")

    def lookup_abstract(self, f):
        r = self.abs.get(id(f))
        return r[1] if r else None

    def lookup_model(self, f):
        if self.named_models and isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, type):
            m = self.named_models.get("%s.%s" % (f.__self__.__module__, f.__qualname__))
            if m is not None:
                return m
        try:
            r = self.mods.get(id(f))
        except TypeError:
            return None
        return r[1] if r else None

    def is_spec_module(self, m):
        if self.contract.target.startswith("spec."):     # a lemma about a specification
            return False
        return m.split(".")[0] in self.spec_modules

    def inlinable(self, f):
        ok = f.__module__.split(".")[0] in ("refextract",) + self.spec_modules
        if ok:
            self.inlined.add("%s:%s" % (f.__module__, f.__qualname__))
        return ok

    def pure_builtin(self, f):
        return getattr(f, "__module__", None) in ("builtins", "re", "os.path", "posixpath", "string", "math", "unicodedata") and f not in (open, eval, exec)

    # ---- loop invariants
    def candidates(self, I, key, meta, comps, entry, n, fr):
        """name-agnostic candidate invariants: dict label -> fn(k) -> term"""
        drop = self.dropped.setdefault(key, set())
        out = {}
        terms = lambda c: dict(I.comp_terms(c))

        def add(label, fn):
            if label not in drop:
                out[label] = fn
        for c in comps:
            for sub, srt in I.comp_sorts(c):
                def cur(c=c, sub=sub):
                    return dict(I.comp_terms(c)).get(sub)
                e = entry.get((c.label, sub))
                lab = c.label + ("." + sub if sub else "")
                if e is not None:
                    add(lab + "==entry", lambda k, cur=cur, e=e: None if cur() is None or cur().sort() != e.sort() else cur() == e)
                    if srt == Int:
                        add(lab + "==entry+k", lambda k, cur=cur, e=e: cur() == e + k)
                        add(lab + "==entry-k", lambda k, cur=cur, e=e: cur() == e - k)
                        add(lab + ">=entry", lambda k, cur=cur, e=e: cur() >= e)
                        add(lab + "<=entry+k", lambda k, cur=cur, e=e: cur() <= e + k)
                        if n is not None:
                            nt = n if z3.is_expr(n) else z3.IntVal(n)
                    if srt == SeqU:
                        add("len " + lab + "==entry", lambda k, cur=cur, e=e: z3.Length(cur()) == z3.Length(e))
                        add("len " + lab + "==entry+k", lambda k, cur=cur, e=e: z3.Length(cur()) == z3.Length(e) + k)
                        add("len " + lab + "<=entry+k", lambda k, cur=cur, e=e: z3.Length(cur()) <= z3.Length(e) + k)
                        add("suffix " + lab + "==entry", Quant(lambda j, cur=cur, e=e: mk_nth(cur(), j) == mk_nth(e, j)))
                        add("len " + lab + ">=entry", lambda k, cur=cur, e=e: z3.Length(cur()) >= z3.Length(e))
                for f in I.path.folds:
                    for (fl, fsub), fn in f.fns.items():
                        if fn.range() == srt:
                            add("%s==%s[%s]" % (lab, f.name, fl + fsub),
                                lambda k, cur=cur, fn=fn: None if cur() is None or cur().sort() != fn.range() else cur() == fn(k))
        for c in comps:
            ty = c.ty.elem if c.ty is not None and c.ty.name == "opt" else c.ty
            if ty is not None and ty.name == "match":
                for d in comps:
                    if d.ty is not None and d.ty.name == "str":
                        add("%s is the match of %s" % (c.label, d.label), lambda k, c=c, d=d, ty=ty: terms(c)[""] == I.models.match_of(I, ty, terms(d)[""]))
        for f in I.path.folds:
            if f.meta.statuses - {0}:
                add("%s.running" % f.name, lambda k, f=f: f.St(k) == 0)
        for lab, mk in self.contract.invariants:
            try:
                for l2, fn in mk(I, comps, entry, n, fr):
                    add("%s:%s" % (lab, l2), fn)
                    if l2.startswith("!"):            # not only a help: to be shown
                        self.required.setdefault((key, l2.split(" ")[0]), set()).add("%s:%s" % (lab, l2))
            except (KeyError, AttributeError, z3.Z3Exception, Unsupported) as ex:
                pass
        return out

    def check_cands(self, I, key, cands, k, comps, phase):
        p = I.path
        todo = []
        for lab in list(cands):
            if lab in self.dropped[key]:
                continue
            try:
                if isinstance(cands[lab], Quant):
                    j = p.fresh("j", Int)
                    t = z3.Implies(j >= k, cands[lab].body(j))
                    p.inst(j)
                else:
                    t = cands[lab](k)
            except (z3.Z3Exception, Unsupported):
                t = None
            if t is None:
                self.drop(key, lab)
                continue
            t = simp(t)
            if z3.is_true(t):
                continue
            if z3.is_false(t):
                if self.path_infeasible(p):
                    raise PathEnd()
                if self.contract.sticky and "==S" not in lab and ".running" not in lab:
                    self.refuted_cands.add((key, lab))
                self.drop(key, lab)
                continue
            todo.append((lab, t))

        def dropped(m):
            """drop what is false in a model of the path"""
            n = len(todo)
            for x in list(todo):
                try:
                    if z3.is_false(m.eval(x[1], model_completion=True)):
                        todo.remove(x)
                        if "==S" not in x[0] and ".running" not in x[0]:
                            self.refuted_cands.add((key, x[0]))
                        self.report_drop(p, key, x, phase)
                        self.drop(key, x[0])
                except z3.Z3Exception:
                    pass
            return len(todo) < n
        # all at once first
        while len(todo) > 2:
            r, m = p._check_model(z3.Or(*[z3.Not(t) for _, t in todo]), 600)
            if r == z3.unsat:
                if phase == "step":
                    self.inv_ok.update((key, lab) for lab, _ in todo)
                return
            if r != z3.sat or not dropped(m):
                break
        while todo:
            lab, t = todo.pop(0)
            r, m = p._check_model(z3.Not(t), 8000 if "==S" in lab else 2000)
            if r != z3.unsat:
                f = z3.sat
                if r == z3.unknown:
                    f = p._check(z3.BoolVal(True), 2000)
                    if f == z3.unsat:
                        raise PathEnd()
                    if "==S" in lab or "suffix" in lab or lab.split(":")[0] in self.userlabs:
                        self.weak.append((key, lab))
                self.report_drop(p, key, (lab, t), phase)
                if self.contract.sticky and "==S" not in lab and ".running" not in lab:
                    self.refuted_cands.add((key, lab))
                self.drop(key, lab)
                if m is not None:
                    dropped(m)
            elif phase == "step":
                self.inv_ok.add((key, lab))

    def report_drop(self, p, key, x, phase):
        if os.environ.get("VERIF_DROP") and os.environ["VERIF_DROP"] in x[0]:
            print("DROP", key[2:4], x[0], phase, p._check(z3.Not(x[1]), 20000), "\n   ", x[1], "\n", "\n   ".join(str(f)[:400] for f in p.facts[-25:]))

    def path_infeasible(self, p):
        return p._check(z3.BoolVal(True), 2000) == z3.unsat

    def path_feasible(self, p):
        return p._check(z3.BoolVal(True), 1500) != z3.unsat

    def drop(self, key, lab):
        self.dropped[key].add(lab)
        self.changed = True

    def assume_cands(self, I, key, cands, k, comps):
        for lab in cands:
            if lab in self.dropped[key]:
                continue
            if isinstance(cands[lab], Quant):
                b = cands[lab].body
                I.path.quants.append((k, quant_snap(b)))
                continue
            t = cands[lab](k)
            if t is not None:
                I.path.assume(t)
        I.path.inst(k)

    def check_measure(self, I, node, fr, key, m0):
        pass

    # ---- proving
    def prove(self, I, name, goal, detail=""):
        """discharge one obligation on the current path"""
        if self.changed:
            return
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = simp(goal)
        p = I.path
        if z3.is_true(goal):
            self.obls.append(Obligation(name, "discharged", "simplifier"))
            return
        s = z3.Solver()
        s.add(*p.facts)
        s.add(z3.Not(goal))
        r = z3.unknown
        for ms in (200, self.back.prove_ms):
            s.set("timeout", ms * 4)
            s.set("rlimit", ms * 2000)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
            if ms == 200 and p.mirror.unsat(p.facts, z3.Not(goal), self.back.prove_ms * 1000, self.back.prove_ms * 2):
                self.back.stats.weakened += 1
                r = z3.unsat
                break
        dt = time.time() - t0
        self.back.stats.z3_time += dt
        self.back.stats.queries += 1
        if r == z3.unsat:
            be = "z3"
            self.back.stats.z3_proved += 1
            if self.back.cross:
                c = self.back.cvc5(s, self.back.cvc5_s)
                self.back.stats.cross["agree" if c == "unsat" else "disagree" if c == "sat" else "cvc5_unknown"] += 1
                if c == "unsat":
                    be = "z3+cvc5"
            self.obls.append(Obligation(name, "discharged", be, secs=dt))
            return
        if r == z3.unknown:
            c = self.back.cvc5(s, self.back.cvc5_s)
            if c == "unsat":
                self.back.stats.cvc5_proved += 1
                self.obls.append(Obligation(name, "discharged", "cvc5", secs=dt))
                return
            self.back.stats.unknown += 1
            self.obls.append(Obligation(name, "unknown", "z3,cvc5", detail=(detail + " goal: " + str(goal))[:2000], secs=dt))
            return
        m = s.model()
        if self.weak:
            self.obls.append(Obligation(name, "unknown", "z3", detail="counter-model after inconclusive invariants %s; goal: %s" % (self.weak[:3], str(goal)[:500]), secs=dt))
            return
        self.obls.append(Obligation(name, "refuted", "z3", detail=(detail + "\ngoal: %s\npath: %s\nmodel: %s" % (goal, p.trace[-20:], str(m)[:1500]))[:4000], secs=dt, model=self.decode_model(I, m)))

    def decode_model(self, I, m):
        out = {}
        for n, t in I.ghost.get("argterms", {}).items():
            try:
                out[n] = dec(m, m.eval(t, model_completion=True), 0)
            except Exception:
                pass
        return out

    # ---- main
    def verify(self):
        """returns dict with status: proved / refuted / undecided + obligations"""
        t0 = time.time()
        self.deadline = t0 + self.budget
        self.ticks = 0
        rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported("invariant inference did not stabilise")
                self.changed = False
                self.qcache = {}
                self.obls, self.loop_reached, self.inv_ok = [], set(), set()
                self.paths = 0
                self.returns = 0
                try:
                    self.explore()
                except RestartRound as r:
                    self.log("restart", r)
                    # what a model refuted stays refuted when more of the state is unknown
                    self.dropped = {k: {x for x in v if (k, x) in self.refuted_cands} for k, v in self.dropped.items()}
                    self.weak = []
                    continue
                if not self.changed:
                    break
            for (key, l2), labs in sorted(self.required.items(), key=str):
                if key in self.loop_reached:
                    ok = any((key, x) in self.inv_ok or x not in self.dropped.get(key, ()) for x in labs)
                    self.obls.append(Obligation("%s/loop:%s:%s" % (self.contract.name, key[2], l2[1:]), "discharged" if ok else "unknown", "z3"))
            status = "proved"
            if any(o.status == "refuted" for o in self.obls):
                status = "refuted"
            elif any(o.status == "unknown" for o in self.obls):
                status = "undecided"
            elif not self.obls:
                status = "vacuous"
            reason = ""
        except Unsupported as ex:
            status, reason = "unsupported", str(ex)
        except RecursionError:
            status, reason = "unsupported", "recursion"
        loops = [k for k in self.metas if k[0] == "impl"]
        unreached = [str(k[2:4]) for k in loops if status != "unsupported" and k not in self.loop_reached]
        return dict(contract=self.contract.name, target=self.contract.target, status=status, reason=reason,
                    obligations=self.obls, paths=self.paths, rounds=rounds, secs=time.time() - t0,
                    invariants=len(self.inv_ok) if status != "unsupported" else 0, loops=len(loops), unreached=unreached,
                    inlined=sorted(self.inlined), inv=sorted({"%s:%s %s" % (k[2], k[3], l) for k, l in self.inv_ok}) if status != "unsupported" else [])

    def explore(self):
        self.queue = [[]]
        while self.queue:
            prefix = self.queue.pop()
            if prefix is None:
                continue
            p = Path(self, prefix)
            I = Interp(self, p)
            self.paths += 1
            if self.paths > 20000:
                raise Unsupported("too many paths")
            if time.time() > self.deadline:
                raise Unsupported("verification budget exhausted")
            try:
                self.run_path(I, p)
            except PathEnd:
                pass
            except PyRaise as ex:
                raise Unsupported("exception outside of function: %r" % ex.exc)

    def build_args(self, I, which):
        vals = {}
        for n, ty in self.contract.args.items():
            if callable(ty) and not isinstance(ty, T):
                vals[n] = ty(I, which)
            else:
                srt = sort_of_arg(ty)
                t = z3.Const("arg_" + n, srt)
                I.ghost.setdefault("argterms", {})[n] = t
                vals[n] = I.inside(I.value_of(t, ty) if srt != U else I.from_u(t, ty))
        return vals

    def run_path(self, I, p):
        c = self.contract
        fn = resolve_target(c.target)
        if self.abs.get(id(fn)):
            raise Unsupported("target is abstract")
        if c.setup:
            c.setup(I)
        out_s = None
        if c.requires is not None:
            a0 = self.build_args(I, "pre")
            try:
                r = self.call_spec(I, c.requires, a0)
            except PyRaise:
                raise PathEnd()
            p.assume(z3.BoolVal(r) if isinstance(r, bool) else I.truth(r) if not isinstance(I.truth(r), bool) else z3.BoolVal(I.truth(r)))
        if c.spec is not None:
            a1 = self.build_args(I, "spec")
            out_s = self.outcome(I, lambda: self.call_spec(I, c.spec, a1))
            I.ghost["spec_args"] = a1
        a2 = self.build_args(I, "impl")
        olds = self.build_args(I, "old") if c.ensures is not None else None
        I.ghost["roots"] = dict(a2)
        mode0 = p.pos
        if c.lemma:
            out_i = self.outcome(I, lambda: self.call_as_impl(I, fn, a2))
        else:
            out_i = self.outcome(I, lambda: I.call(fn, [], dict(a2)))
        if self.changed:
            return
        if not self.path_feasible(p):
            return
        self.returns += 1
        if c.spec is not None:
            if c.select is not None and out_i[0] == "return":
                out_i = ("return", c.select(out_i[1]))
            self.compare(I, out_s, out_i, a1, a2)
        if c.final is not None:
            for lab, g in c.final(I, out_i, a2):
                self.prove(I, "%s/final:%s" % (c.name, lab), g)
        if c.ensures is not None:
            kind, v = out_i
            if kind == "raise":
                ok = False
                if c.raises is not None:
                    ok = I.exc_matches(v, c.raises)
                self.prove(I, c.name + "/no-unexpected-exception", ok if not isinstance(ok, bool) else ok, "raises %r" % v)
            else:
                for nm, f in (c.ensures.items() if isinstance(c.ensures, dict) else [("ensures", c.ensures)]):
                    args = dict(olds)
                    ps = inspect.signature(f).parameters
                    env = {}
                    for q in ps:
                        if q == "result":
                            env[q] = v
                        elif q.startswith("new_"):
                            env[q] = a2[q[4:]]
                        elif q == "I":
                            env[q] = I
                        else:
                            env[q] = args[q]
                    if "I" in env:
                        for lab, g in f(**env):
                            self.prove(I, "%s/%s:%s" % (c.name, nm, lab), g)
                        continue
                    o = self.outcome(I, lambda: self.call_spec(I, f, env))
                    if o[0] == "raise":
                        self.prove(I, "%s/%s" % (c.name, nm), False, "postcondition raised %r" % o[1])
                    else:
                        g = I.truth(o[1])
                        self.prove(I, "%s/%s" % (c.name, nm), g)

    def call_as_impl(self, I, fn, args):
        node = func_ast(fn)
        return I.call_node(node, None, sys.modules[fn.__module__], fn.__qualname__, [I.lift(d) for d in (fn.__defaults__ or ())], {}, [], dict(args), (0, 0), "impl")

    def call_spec(self, I, f, args):
        node = func_ast(f)
        I.path.free = self.contract.free_spec
        try:
            return I.call_node(node, None, sys.modules[f.__module__], f.__qualname__, [I.lift(d) for d in (f.__defaults__ or ())], {}, [], dict(args), (0, 0), "spec")
        finally:
            I.path.free = False

    def outcome(self, I, th):
        try:
            v = th()
            return ("return", I.force(v) if isinstance(v, GenV) else v)
        except PyRaise as ex:
            return ("raise", ex.exc)

    def compare(self, I, s, i, a1, a2):
        c = self.contract
        nm = c.name
        if s[0] == "raise" and i[0] == "raise":
            if c.exc_policy == "any":
                self.prove(I, nm + "/post:raises", True)
            else:
                self.prove(I, nm + "/post:raises-same", self.exc_eq(I, s[1], i[1]), "spec %r impl %r" % (s[1], i[1]))
        elif s[0] != i[0]:
            self.prove(I, nm + "/post:outcome-kind", False, "specification: %s %r; code: %s %r" % (s[0], s[1], i[0], i[1]))
            return
        else:
            self.prove(I, nm + "/post:result", self.val_eq(I, s[1], i[1]), "spec %r impl %r" % (s[1], i[1]))
        for n in c.frame:
            self.prove(I, "%s/post:final(%s)" % (nm, n), self.val_eq(I, a1[n], a2[n]))

    def val_eq(self, I, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return z3.BoolVal(False)
            return z3.And(*[self.val_eq(I, x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
        if isinstance(a, ListV) and isinstance(b, ListV):
            return I.seq(a) == I.seq(b)
        if isinstance(a, DictV) and isinstance(b, DictV):
            if a.base is None and b.base is None and a.parent is None and b.parent is None:
                ka = {k for k, v in a.known.items() if v is not ABSENT}
                kb = {k for k, v in b.known.items() if v is not ABSENT}
                if ka != kb:
                    return z3.BoolVal(False)
                return z3.And(*[self.val_eq(I, a.known[k], b.known[k]) for k in sorted(ka, key=repr)]) if ka else z3.BoolVal(True)
            return I.arr(a) == I.arr(b)
        t = I.eq(a, b)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def exc_eq(self, I, a, b):
        if a.term is not None and b.term is not None:
            return a.term == b.term
        if a.cls is not None and b.cls is not None:
            return z3.BoolVal(a.cls is b.cls)
        x, y = (a, b) if a.term is not None else (b, a)
        return x.term == I.exc_term(y)


def sort_of_arg(ty):
    from .interp import sort_of
    return sort_of(ty)


def dec(m, t, depth):
    """model value -> python value (best effort)"""
    if depth > 6:
        return None
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_string_value(t):
        return lit_str(t)
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    if z3.is_seq(t):
        n = m.eval(z3.Length(t), model_completion=True).as_long()
        return [dec(m, m.eval(t[i], model_completion=True), depth + 1) for i in range(min(n, 30))]
    if z3.is_app(t):
        nm = t.decl().name()
        if nm == "none":
            return None
        if nm in ("ustr", "uint", "ubool", "ulist", "utup"):
            return dec(m, t.arg(0), depth + 1)
        if nm == "uopq":
            return "opaque-%s" % t.arg(0)
    return str(t)
