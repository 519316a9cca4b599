"""Trusted models of Python built-ins, str/list/dict/set methods and `re`.

Everything not listed here is outside the subset (Unsupported).  Operations
without an exact SMT encoding become uninterpreted functions of their
arguments (sound: only congruence is known) plus the listed axioms.
"""
import ast
import re
import sre_parse
import types
import contextlib
import z3

from .values import *
from .values import S as simp

MODELS = {}


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[id(f)] = (f, g)
        return g
    return deco


# ---------------------------------------------------------------- strings
def str_concat(I, parts):
    ts = []
    for p in parts:
        if isinstance(p, str) and not p:
            continue
        ts.append(p)
    if all(isinstance(p, str) for p in ts):
        return "".join(ts)
    terms = [I.prim(p, "str") for p in ts]
    if len(terms) == 1:
        return wrap("str", terms[0])
    return wrap("str", simp(z3.Concat(*terms)))


def opaque_str(I, tag, v):
    return wrap("str", uf("str!" + tag, U, Str)(I.to_u(v)))


def to_str(I, v):
    v = I.resolve(v) if isinstance(v, Sym) and v.kind == "any" and v.ty is not None else v
    if isinstance(v, (str,)) or (isinstance(v, Sym) and v.kind == "str"):
        return v
    if v is None or isinstance(v, (int, float, bytes)):
        return str(v)
    if isinstance(v, Sym) and v.kind == "int":
        # python str(int): exact for non-negative via str.from_int, "-" prefix otherwise
        t = v.t
        return wrap("str", simp(z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))))
    if isinstance(v, Sym) and v.kind == "any":
        return wrap("str", simp(z3.If(U.is_ustr(v.t), U.sval(v.t), uf("str!str", U, Str)(v.t))))
    if isinstance(v, ExcV) and v.term is None and len(v.args) == 1 and isinstance(v.args[0], str):
        return v.args[0]
    return opaque_str(I, "str", v)


def norm_idx(I, i, n, default):
    """python slice bound -> clamped term in [0, n]"""
    if i is None:
        return default
    it = I.prim(I.resolve(i), "int")
    if isinstance(i, int):
        if i == 0:
            return z3.IntVal(0)
        if i > 0:
            c = it <= n
            if I.path.entails(c, 200):
                return it
            return z3.If(it > n, n, it)
        if I.path.entails(n + i >= 0, 200):
            return simp(n + i)
        return z3.If(n + i < 0, z3.IntVal(0), n + i)
    if I.path.entails(z3.And(it >= 0, it <= n), 300):
        return it
    return z3.If(it < 0, z3.If(it + n < 0, z3.IntVal(0), it + n), z3.If(it > n, n, it))


def str_slice(I, s, sl, kind="str"):
    if isinstance(s, (str, bytes)) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
        return s[sl]
    if sl.step is not None and sl.step != 1:
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return wrap(kind, uf("str!rev", Str, Str)(I.prim(s, kind)))
        raise Unsupported("slice step")
    t = I.prim(s, kind)
    n = z3.Length(t)
    lo = norm_idx(I, sl.start, n, z3.IntVal(0))
    hi = norm_idx(I, sl.stop, n, n)
    return wrap(kind, simp(z3.SubString(t, lo, hi - lo)))


def str_index(I, s, i, kind="str"):
    if isinstance(s, (str, bytes)) and isinstance(i, int):
        try:
            return s[i]
        except IndexError as ex:
            raise PyRaise(ExcV(IndexError, ex.args))
    t = I.prim(s, kind)
    n = z3.Length(t)
    it = I.prim(I.resolve(i), "int")
    if isinstance(i, int):
        ok = n > i if i >= 0 else n >= -i
        idx = it if i >= 0 else n + i
    else:
        ok = z3.And(it < n, it >= -n)
        idx = it if I.path.entails(it >= 0, 300) else z3.If(it < 0, it + n, it)
    if not I.path.decide(ok, "index"):
        I.raise_(IndexError, "string index out of range")
    if kind == "bytes":
        raise Unsupported("bytes index")
    return wrap("str", simp(z3.SubString(t, idx, 1)))


WS = " \t\n\r\x0b\x0c"


def sstrip(I, s, chars, side, kind="str"):
    st = I.prim(s, kind)
    tag = "None" if chars is None else None
    if chars is None:
        r = uf("str!%sstrip_ws" % side, Str, Str)(st)
    else:
        r = uf("str!%sstrip" % side, Str, Str, Str)(st, I.prim(chars, kind))
    p = I.path
    if I.ghost.get("opaque_strip"):
        return wrap(kind, r)
    p.assume(z3.Length(r) <= z3.Length(st))
    p.assume(z3.Contains(st, r))
    if side == "l":
        p.assume(z3.SuffixOf(r, st))
    if side == "r":
        p.assume(z3.PrefixOf(r, st))
    p.assume(z3.Implies(z3.Length(st) == 0, z3.Length(r) == 0))
    if isinstance(chars, str) and chars:
        cs = [esc(c) for c in chars]
        first = z3.SubString(r, 0, 1)
        last = z3.SubString(r, z3.Length(r) - 1, 1)
        if side in ("", "l"):
            p.assume(z3.And(*[first != c for c in cs]))
        if side in ("", "r"):
            p.assume(z3.And(*[last != c for c in cs]))
    return wrap(kind, r)


def rfind_term(I, t, sub):
    r = uf("str!rfind", Str, Str, Int)(t, sub)
    n, m = z3.Length(t), z3.Length(sub)
    I.path.assume(z3.And(r >= -1, r + m <= z3.If(r < 0, n + m, n)))
    I.path.assume(z3.Implies(r >= 0, z3.SubString(t, r, m) == sub))
    I.path.assume((r >= 0) == z3.Contains(t, sub))
    return r


def str_method(I, s, name, args, kw, kind="str"):
    conc = isinstance(s, (str, bytes)) and all(I.is_conc(a) for a in args) and all(I.is_conc(a) for a in kw.values())
    if conc:
        try:
            return I.lift(getattr(s, name)(*args, **kw))
        except Exception as ex:
            raise PyRaise(ExcV(type(ex), ex.args))
    t = I.prim(s, kind)
    args = [I.resolve(a) for a in args]
    P = lambda x: I.prim(x, kind)
    for a in args:
        if name in ("startswith", "endswith", "find", "rfind", "index", "replace", "split", "count", "strip", "lstrip", "rstrip") and (a is None and name not in ("strip", "lstrip", "rstrip", "split")):
            I.raise_(TypeError, "must be str, not None")
    if name == "startswith" and len(args) == 1:
        if isinstance(args[0], tuple):
            return I.boolv(z3.Or(*[z3.PrefixOf(P(a), t) for a in args[0]]))
        return I.boolv(z3.PrefixOf(P(args[0]), t))
    if name == "endswith" and len(args) == 1:
        if isinstance(args[0], tuple):
            return I.boolv(z3.Or(*[z3.SuffixOf(P(a), t) for a in args[0]]))
        return I.boolv(z3.SuffixOf(P(args[0]), t))
    if name == "find" and len(args) in (1, 2):
        st = z3.IntVal(0)
        if len(args) == 2:
            st = norm_idx(I, args[1], z3.Length(t), z3.IntVal(0))
            # python: start > len -> -1; clamped start = len would match "" only
            r = z3.IndexOf(t, P(args[0]), st)
        else:
            r = z3.IndexOf(t, P(args[0]), 0)
        I.path.assume(z3.And(r >= -1, r <= z3.Length(t)))
        return wrap("int", simp(r))
    if name == "index" and len(args) == 1:
        r = z3.IndexOf(t, P(args[0]), 0)
        if I.path.decide(r < 0, "str.index"):
            I.raise_(ValueError, "substring not found")
        return wrap("int", r)
    if name == "rfind" and len(args) == 1:
        return wrap("int", rfind_term(I, t, P(args[0])))
    if name in ("strip", "lstrip", "rstrip") and len(args) <= 1:
        return sstrip(I, s, args[0] if args else None, {"strip": "", "lstrip": "l", "rstrip": "r"}[name], kind)
    if name in ("upper", "lower", "title", "capitalize", "casefold", "swapcase", "expandtabs") and not args:
        r = uf("str!" + name, Str, Str)(t)
        I.path.assume((z3.Length(r) == 0) == (z3.Length(t) == 0))
        return wrap(kind, r)
    if name in ("isdigit", "isalpha", "isspace", "isupper", "islower", "isalnum", "isnumeric", "isdecimal", "isidentifier"):
        r = uf("str!" + name, Str, Bool)(t)
        I.path.assume(z3.Implies(r, z3.Length(t) > 0))
        for a, b in (("isdecimal", "isdigit"), ("isdigit", "isnumeric"), ("isnumeric", "isalnum"), ("isalpha", "isalnum")):
            if name in (a, b):
                I.path.assume(z3.Implies(uf("str!" + a, Str, Bool)(t), uf("str!" + b, Str, Bool)(t)))
        return wrap("bool", r)
    if name == "replace" and len(args) == 2:
        old, new = P(args[0]), P(args[1])
        r = uf("str!replace", Str, Str, Str, Str)(t, old, new)
        if not I.ghost.get("opaque_replace"):
            I.path.assume(z3.Implies(z3.Not(z3.Contains(t, old)), r == t))
        if isinstance(args[0], str) and isinstance(args[1], str) and len(args[0]) == len(args[1]):
            I.path.assume(z3.Length(r) == z3.Length(t))
        return wrap(kind, r)
    if name == "replace" and len(args) == 3:
        return wrap(kind, uf("str!replace3", Str, Str, Str, Int, Str)(t, P(args[0]), P(args[1]), I.prim(args[2], "int")))
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        a = I.to_u(tuple(args) + tuple((k, v) for k, v in sorted(kw.items())))
        if name == "partition" and len(args) == 1:
            sep = P(args[0])
            if I.path.decide(z3.Contains(t, sep), "partition"):
                i = z3.IndexOf(t, sep, 0)
                n = z3.Length(t)
                return (wrap(kind, simp(z3.SubString(t, 0, i))), args[0],
                        wrap(kind, simp(z3.SubString(t, i + z3.Length(sep), n - (i + z3.Length(sep))))))
            return (s, "", "")
        if name == "rpartition" and len(args) == 1:
            sep = P(args[0])
            if I.path.decide(z3.Contains(t, sep), "rpartition"):
                i = rfind_term(I, t, sep)
                return (wrap(kind, simp(z3.SubString(t, 0, i))), args[0], wrap(kind, simp(z3.SubString(t, i + z3.Length(sep), z3.Length(t) - (i + z3.Length(sep))))))
            return ("", "", s)
        mx = args[1] if len(args) == 2 else kw.get("maxsplit")
        if name in ("split", "rsplit") and args and isinstance(args[0], str) and args[0] and mx == 1:
            sep = P(args[0])
            if I.path.decide(z3.Contains(t, sep), "split once"):
                i = z3.IndexOf(t, sep, 0) if name == "split" else rfind_term(I, t, sep)
                return ListV(items=[wrap(kind, simp(z3.SubString(t, 0, i))), wrap(kind, simp(z3.SubString(t, i + len(args[0]), z3.Length(t) - (i + len(args[0])))))])
            return ListV(items=[s])
        r = uf("str!" + name, Str, U, SeqU)(t, a)
        n = z3.Length(r)
        if name in ("partition", "rpartition"):
            I.path.assume(n == 3)
            return tuple(I.from_u(r[i], TStr) for i in range(3))
        if args and args[0] is not None and name != "splitlines":
            I.path.assume(n >= 1)
            sep = P(args[0])
            if len(args) == 1 and name == "split":
                I.path.assume(z3.Implies(z3.Not(z3.Contains(t, sep)), r == z3.Unit(U.ustr(t))))
                I.path.assume((n == 1) == z3.Not(z3.Contains(t, sep)))
        return ListV(seq=r, ety=TStr if kind == "str" else TBytes)
    if name == "join":
        it = args[0]
        if isinstance(it, (ListV,)) and it.items is not None and it.parent is None:
            out = []
            for i, x in enumerate(it.items):
                x = I.resolve(x)
                if I.pkind(x) != kind:
                    I.raise_(TypeError, "sequence item: expected str")
                if i:
                    out.append(s)
                out.append(x)
            return str_concat(I, out)
        if isinstance(it, tuple):
            return str_method(I, s, name, [ListV(items=list(it))], kw, kind)
        if isinstance(it, ListV):
            if it.ety is None or it.ety.name not in ("str", "bot"):
                raise Unsupported("join of untyped list")
            sq = I.seq(it)
            r = uf("str!join", Str, SeqU, Str)(t, sq)
            I.path.assume(z3.Implies(z3.Length(sq) == 0, z3.Length(r) == 0))
            return wrap("str", r)
        raise Unsupported("join")
    if name == "count" and len(args) == 1:
        r = uf("str!count", Str, Str, Int)(t, P(args[0]))
        I.path.assume(r >= 0)
        I.path.assume((r > 0) == z3.Contains(t, P(args[0])))
        return wrap("int", r)
    if name == "encode":
        return Sym("bytes", uf("str!encode", Str, U, Str)(t, I.to_u(tuple(args))))
    if name == "decode":
        a = I.to_u(tuple(args))
        if I.path.decide(uf("bytes!decodable", Str, U, Bool)(t, a), "decode"):
            return Sym("str", uf("bytes!decode", Str, U, Str)(t, a))
        I.raise_(UnicodeDecodeError, "utf-8")
    if name == "format":
        if isinstance(s, str):
            return opaque_fmt(I, s, args, kw)
        return wrap("str", format_sym(I, t, args, kw))
    if name in ("zfill", "ljust", "rjust", "center", "translate"):
        return wrap(kind, uf("str!" + name, Str, U, Str)(t, I.to_u(tuple(args))))
    if name == "removeprefix" and len(args) == 1:
        if I.path.decide(z3.PrefixOf(P(args[0]), t), "removeprefix"):
            return str_slice(I, s, slice(wrap("int", z3.Length(P(args[0]))), None), kind)
        return s
    if name == "removesuffix" and len(args) == 1:
        if I.path.decide(z3.And(z3.SuffixOf(P(args[0]), t), z3.Length(P(args[0])) > 0), "removesuffix"):
            return str_slice(I, s, slice(None, wrap("int", z3.Length(t) - z3.Length(P(args[0])))), kind)
        return s
    raise Unsupported("str.%s" % name)


def format_sym(I, t, args, kw):
    d = kw.get("**")
    rest = {k: v for k, v in kw.items() if k != "**"}
    a = I.to_u((tuple(args), DictV(known=rest)))
    du = I.to_u(d) if d is not None else U.none
    ok = uf("fmt!ok", Str, U, U, Bool)(t, a, du)
    if not I.path.decide(ok, "format"):
        raise PyRaise(ExcV(term=uf("fmt!exc", Str, U, U, U)(t, a, du)))
    return uf("fmt!val", Str, U, U, Str)(t, a, du)


def opaque_fmt(I, fmt, args, kw):
    if "**" in kw:
        return wrap("str", format_sym(I, esc(fmt), args, kw))
    # simple templates: literal text with {} / {0} / {name}
    parts = []
    auto = 0
    try:
        fields = list(__import__("string").Formatter().parse(fmt))
    except ValueError as ex:
        raise PyRaise(ExcV(ValueError, ex.args))
    for lit, name, spec, conv in fields:
        parts.append(lit)
        if name is None:
            continue
        if spec or conv:
            return wrap("str", format_sym(I, esc(fmt), args, kw))
        if name == "":
            name = str(auto)
            auto += 1
        if name.isdigit():
            if int(name) >= len(args):
                I.raise_(IndexError, "format")
            parts.append(to_str(I, args[int(name)]))
        elif name.isidentifier():
            if name not in kw:
                I.raise_(KeyError, name)
            parts.append(to_str(I, kw[name]))
        else:
            return wrap("str", format_sym(I, esc(fmt), args, kw))
    return str_concat(I, parts)


def zero_padded(I, v, width):
    if isinstance(v, int):
        return "%0*d" % (width, v)
    return wrap("str", uf("fmt!0d", Int, Int, Str)(z3.IntVal(width), I.prim(v, "int")))


def percent(I, fmt, arg):
    if not isinstance(fmt, str):
        raise Unsupported("symbolic % format")
    vals = list(arg) if isinstance(arg, tuple) else [arg]
    parts, i = [], 0
    for m in re.finditer(r"%%|%\((\w+)\)([sdr])|%([sdr])|%0(\d+)d|%|[^%]+", fmt):
        g = m.group(0)
        if g == "%%":
            parts.append("%")
        elif m.group(3) or m.group(2):
            if m.group(2):
                d = I.resolve(arg)
                if not isinstance(d, DictV):
                    raise Unsupported("% mapping")
                v = I.dict_get(d, m.group(1))
                if v is ABSENT:
                    I.raise_(KeyError, m.group(1))
                c = m.group(2)
            else:
                if i >= len(vals):
                    I.raise_(TypeError, "not enough arguments for format string")
                v, c = vals[i], m.group(3)
                i += 1
            if c == "s":
                parts.append(to_str(I, v))
            elif c == "d":
                v = I.resolve(v)
                if I.pkind(v) not in ("int", "bool"):
                    I.raise_(TypeError, "%d format")
                parts.append(to_str(I, v))
            else:
                parts.append(opaque_str(I, "repr", v))
        elif m.group(4):
            if i >= len(vals):
                I.raise_(TypeError, "not enough arguments for format string")
            v = I.resolve(vals[i])
            i += 1
            if I.pkind(v) not in ("int", "bool"):
                I.raise_(TypeError, "%d format")
            parts.append(zero_padded(I, v, int(m.group(4))))
        elif g == "%":
            raise Unsupported("% format")
        else:
            parts.append(g)
    if i < len(vals) and isinstance(arg, tuple):
        I.raise_(TypeError, "not all arguments converted")
    return str_concat(I, parts)


# ---------------------------------------------------------------- operators
def binop(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return percent(I, a, b)
    if isinstance(op, ast.Mod) and isinstance(a, Sym) and a.kind == "str":
        return wrap("str", uf("str!pct", Str, U, Str)(a.t, I.to_u(b)))
    ca, cb = isinstance(a, (int, float, str, bytes)), isinstance(b, (int, float, str, bytes))
    if ca and cb:
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Div: o.truediv,
             ast.Mod: o.mod, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.Pow: o.pow}.get(type(op))
        if f is None:
            raise Unsupported("binop")
        try:
            return f(a, b)
        except Exception as ex:
            raise PyRaise(ExcV(type(ex), ex.args))
    ka, kb = I.pkind(a), I.pkind(b)
    if isinstance(op, ast.Add):
        if ka == "str" and kb == "str":
            return str_concat(I, [a, b])
        if ka == "bytes" and kb == "bytes":
            return Sym("bytes", simp(z3.Concat(I.prim(a, "bytes"), I.prim(b, "bytes"))))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.items is not None and b.items is not None and a.parent is None and b.parent is None:
                return ListV(items=a.items + b.items)
            from .interp import join, kind_of
            I.escape(a)
            I.escape(b)
            return ListV(seq=simp(z3.Concat(I.seq(a), I.seq(b))), ety=join(kind_of(a).elem, kind_of(b).elem))
    if ka in ("int", "bool") and kb in ("int", "bool"):
        x, y = I.prim(a, "int"), I.prim(b, "int")
        if isinstance(op, ast.Add):
            return wrap("int", simp(x + y))
        if isinstance(op, ast.Sub):
            return wrap("int", simp(x - y))
        if isinstance(op, ast.Mult):
            return wrap("int", simp(x * y))
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
            return wrap("int", simp(x / y if isinstance(op, ast.FloorDiv) else x % y))
        if isinstance(op, ast.BitOr) or isinstance(op, ast.BitAnd):
            if ka == kb == "bool":
                return wrap("bool", simp((z3.Or if isinstance(op, ast.BitOr) else z3.And)(I.prim(a, "bool"), I.prim(b, "bool"))))
    if isinstance(op, ast.Mult):
        if ka == "str" and kb == "int":
            if isinstance(b, int) and isinstance(a, str):
                return a * b
            r = uf("str!mul", Str, Int, Str)(I.prim(a, "str"), I.prim(b, "int"))
            n = I.prim(b, "int")
            I.path.assume(z3.Length(r) == z3.If(n > 0, n, z3.IntVal(0)) * z3.Length(I.prim(a, "str")))
            return wrap("str", r)
        if isinstance(a, ListV) and isinstance(b, int) and a.items is not None:
            return ListV(items=a.items * b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if isinstance(op, ast.BitOr) and a.base is None and b.base is None:
            return SetV(known=a.known + b.known)
        if isinstance(op, ast.Sub) and b.base is None:
            t = I.setarr(a)
            for x in b.known:
                t = z3.Store(t, I.key_term(x), z3.BoolVal(False))
            return SetV(base=t)
    if isinstance(op, ast.BitOr) and isinstance(a, DictV) and isinstance(b, DictV):
        d = copy_dict(I, a)
        dict_update(I, d, b)
        return d
    basic = lambda v, k: k in ("int", "str", "bool", "bytes") or v is None or isinstance(v, (ListV, DictV, tuple))
    if isinstance(op, (ast.Add, ast.Sub)) and basic(a, ka) and basic(b, kb):
        I.raise_(TypeError, "unsupported operand")
    raise Unsupported("binop %s %r %r" % (type(op).__name__, type(a), type(b)))


def contains(I, item, cont):
    cont = I.resolve(cont)
    k = I.pkind(cont)
    if k in ("str", "bytes"):
        it = I.resolve(item)
        if I.pkind(it) != k:
            I.raise_(TypeError, "in <string> requires string")
        if isinstance(it, str) and isinstance(cont, str):
            return it in cont
        return simp(z3.Contains(I.prim(cont, k), I.prim(it, k)))
    if isinstance(cont, tuple) or (isinstance(cont, ListV) and cont.items is not None and cont.parent is None):
        items = cont if isinstance(cont, tuple) else cont.items
        rs = [I.eq(item, x) for x in items]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        return simp(z3.Or(*rs)) if rs else False
    if isinstance(cont, ListV):
        return simp(z3.Contains(I.seq(cont), z3.Unit(I.to_u(item))))
    if isinstance(cont, DictV):
        if cont.parent is None and cont.base is None:
            if I.conc_key(item) is not None and not isinstance(item, Sym):
                return item in cont.known and cont.known[item] is not ABSENT
            ks = [k for k, v in cont.known.items() if v is not ABSENT]
            rs = [I.eq(item, x) for x in ks]
            rs = [r for r in rs if r is not False]
            return True if any(r is True for r in rs) else (simp(z3.Or(*rs)) if rs else False)
        return simp(I.dict_raw(cont, item if not isinstance(item, Sym) else I.key_term(item)) != U.absent)
    if isinstance(cont, SetV):
        if cont.base is None:
            rs = [I.eq(item, x) for x in cont.known]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return simp(z3.Or(*rs)) if rs else False
        return simp(z3.Select(I.setarr(cont), I.key_term(item)))
    if cont is None or k in ("int", "bool"):
        I.raise_(TypeError, "argument is not iterable")
    if isinstance(cont, ModelObj) and hasattr(cont, "contains"):
        return cont.contains(I, item)
    if isinstance(cont, range) and isinstance(item, int):
        return item in cont
    raise Unsupported("in %r" % type(cont))


def neg(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)


def compare(I, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        if b is None or a is None:
            x = a if b is None else b
            from .interp import Poison
            if isinstance(x, Poison):
                raise Unsupported("poison")
            if hasattr(x, "found"):
                r = neg(x.found)
                return r if isinstance(op, ast.Is) else neg(r)
            r = (x is None) if not (isinstance(x, Sym) and x.kind == "any") else simp(x.t == U.none)
        elif isinstance(a, bool) or isinstance(b, bool):
            x, c = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, bool):
                r = x is c
            elif isinstance(x, Sym) and x.kind == "bool":
                r = x.t if c else z3.Not(x.t)
            elif isinstance(x, Sym) and x.kind == "any":
                r = x.t == U.ubool(z3.BoolVal(c))
            else:
                r = False
        elif isinstance(a, (type, types.FunctionType)) or isinstance(b, (type, types.FunctionType)) or isinstance(a, (ListV, DictV)) and isinstance(b, (ListV, DictV)):
            r = a is b
        else:
            raise Unsupported("is")
        return r if isinstance(op, ast.Is) else neg(r)
    if isinstance(op, ast.Eq):
        return I.eq(a, b)
    if isinstance(op, ast.NotEq):
        return neg(I.eq(a, b))
    if isinstance(op, ast.In):
        return contains(I, a, b)
    if isinstance(op, ast.NotIn):
        return neg(contains(I, a, b))
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError as ex:
            raise PyRaise(ExcV(TypeError, ex.args))
    ka, kb = I.pkind(a), I.pkind(b)
    if ka in ("int", "bool") and kb in ("int", "bool"):
        x, y = I.prim(a, "int"), I.prim(b, "int")
        return simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    if ka == "str" and kb == "str":
        x, y = I.prim(a, "str"), I.prim(b, "str")
        return simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[type(op)])
    if (a is None or ka) and (b is None or kb):
        I.raise_(TypeError, "ordering")
    raise Unsupported("compare %r %r" % (type(a), type(b)))


# ---------------------------------------------------------------- subscripts
def getitem(I, o, idx):
    o = I.resolve(o)
    if isinstance(o, ModelObj):
        return o.method(I, "__getitem__", [idx], {})
    k = I.pkind(o)
    if k in ("str", "bytes"):
        if isinstance(idx, slice):
            return str_slice(I, o, idx, k)
        idx = I.resolve(idx)
        if I.pkind(idx) not in ("int", "bool"):
            I.raise_(TypeError, "indices must be integers")
        return str_index(I, o, idx, k)
    if isinstance(o, tuple):
        if isinstance(idx, slice):
            if all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                return o[idx]
            raise Unsupported("tuple slice")
        if isinstance(idx, int):
            try:
                return o[idx]
            except IndexError as ex:
                raise PyRaise(ExcV(IndexError, ex.args))
        raise Unsupported("tuple index")
    if isinstance(o, ListV):
        if isinstance(idx, slice):
            return list_slice(I, o, idx)
        return I.elem(o, list_idx(I, o, idx))
    if isinstance(o, DictV):
        if isinstance(idx, slice):
            I.raise_(TypeError, "unhashable slice")
        v = I.dict_get(o, idx)
        if v is ABSENT:
            I.raise_(KeyError, idx)
        return v
    if isinstance(o, VSeq) and getattr(o, "sized", False) and isinstance(idx, (int, Sym)):
        it = I.prim(I.resolve(idx), "int")
        if isinstance(idx, int) and idx < 0:
            it = o.length + idx
        if not I.path.decide(z3.And(it >= 0, it < o.length), "idx"):
            I.raise_(IndexError, "index")
        return o.get(it)
    if o is None or k in ("int", "bool"):
        I.raise_(TypeError, "not subscriptable")
    raise Unsupported("getitem on %r" % type(o))


def list_idx(I, l, idx):
    idx = I.resolve(idx)
    if I.pkind(idx) not in ("int", "bool"):
        I.raise_(TypeError, "list indices must be integers")
    if l.items is not None and l.parent is None and isinstance(idx, int):
        n = len(l.items)
        if not -n <= idx < n:
            I.raise_(IndexError, "list index out of range")
        return idx % n if n else idx
    n = I.prim(I.llen(l), "int")
    it = I.prim(idx, "int")
    if isinstance(idx, int):
        ok = n > idx if idx >= 0 else n >= -idx
        r = it if idx >= 0 else simp(n + idx)
    else:
        ok = z3.And(it < n, it >= -n)
        r = it
    if not I.path.decide(simp(ok), "list-index"):
        I.raise_(IndexError, "list index out of range")
    if not isinstance(idx, int) and not I.path.entails(it >= 0, 300):
        r = z3.If(it < 0, it + n, it)
    return simp(r)


def list_slice(I, l, sl):
    if l.items is not None and l.parent is None and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
        return ListV(items=l.items[sl])
    if sl.step not in (None, 1):
        if sl.step == -1 and sl.start is None and sl.stop is None:
            r = uf("seq!rev", SeqU, SeqU)(I.seq(l))
            I.path.assume(z3.Length(r) == z3.Length(I.seq(l)))
            return ListV(seq=r, ety=I_ety(l))
        raise Unsupported("slice step")
    s = I.seq(l)
    n = z3.Length(s)
    lo = norm_idx(I, sl.start, n, z3.IntVal(0))
    hi = norm_idx(I, sl.stop, n, n)
    mut = I_ety(l).name in ("list", "rec", "map", "any", "opt")
    if mut:
        l.shared = True
    r = ListV(seq=s if sl.start is None and sl.stop is None else simp(z3.SubSeq(s, lo, hi - lo)), ety=I_ety(l))
    r.shared = mut
    return r


def I_ety(l):
    if l.ety is not None:
        return l.ety
    from .interp import kind_of
    k = kind_of(l)
    return k.elem if k is not None else TAny


def setitem(I, o, idx, v):
    if isinstance(o, ModelObj):
        return o.method(I, "__setitem__", [idx, v], {})
    o = I.resolve(o)
    if isinstance(o, DictV):
        I.dict_set(o, idx, v)
        return
    if isinstance(o, ListV):
        if isinstance(idx, slice):
            if idx.start is None and idx.stop is None and idx.step is None:
                it = I.resolve(v)
                if isinstance(it, ListV):
                    if it.items is not None and it.parent is None:
                        I.touch(o)
                        if o.parent is None:
                            o.items, o.seq = list(it.items), None
                            o.version += 1
                            return
                    I.set_seq(o, I.seq(it))
                    o.ety = I_ety(it)
                    o.version += 1
                    return
            it = I.resolve(v)
            if idx.step is None and isinstance(it, ListV) and it is not o:
                I.touch(o)
                conc = lambda l: l.items is not None and l.parent is None
                if conc(o) and conc(it) and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop)):
                    o.items[idx] = list(it.items)
                    return
                from .interp import join
                I.escape(it)
                s, m = I.seq(o), I.seq(it)
                n = z3.Length(s)
                lo = norm_idx(I, idx.start, n, z3.IntVal(0))
                hi = norm_idx(I, idx.stop, n, n)
                if not I.path.entails(lo <= hi, 300):
                    hi = z3.If(hi < lo, lo, hi)
                ety = I_ety(o) if conc(it) and not it.items else join(I_ety(o), I_ety(it)) or TAny
                r = simp(z3.Concat(z3.SubSeq(s, 0, lo), m, z3.SubSeq(s, hi, n - hi)))
                I.set_seq(o, r)
                if o.parent is None:
                    o.ety = ety
                I.path.assume(z3.Length(r) == n - (hi - lo) + z3.Length(m))
                if "spliced" in I.ghost:
                    I.ghost["spliced"](I, s, lo, hi, m, r)
                o.version += 1
                return
            raise Unsupported("slice assignment")
        i = list_idx(I, o, idx)
        if o.items is not None and o.parent is None and isinstance(i, int):
            I.touch(o)
            o.items[i] = v
            return
        I.escape(v)
        from .interp import join, kind_of
        if o.parent is None:
            o.ety = join(I_ety(o), kind_of(v) or TAny)
        else:
            I.conform(v, o.ety)
        I.touch(o)
        I.set_child(o, i if z3.is_expr(i) else z3.IntVal(i), I.to_u(v))
        return
    if o is None or I.pkind(o) or isinstance(o, tuple):
        I.raise_(TypeError, "does not support item assignment")
    raise Unsupported("setitem on %r" % type(o))


def delitem(I, o, idx):
    o = I.resolve(o)
    if isinstance(o, DictV):
        v = I.dict_get(o, idx)
        if v is ABSENT:
            I.raise_(KeyError, idx)
        I.dict_del(o, idx)
        return
    if isinstance(o, ListV):
        if isinstance(idx, slice):
            I.touch(o)
            if o.items is not None and o.parent is None and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                del o.items[idx]
                return
            s = I.seq(o)
            n = z3.Length(s)
            lo = norm_idx(I, idx.start, n, z3.IntVal(0))
            hi = norm_idx(I, idx.stop, n, n)
            hi = z3.If(hi < lo, lo, hi)
            I.set_seq(o, simp(z3.Concat(z3.SubSeq(s, 0, lo), z3.SubSeq(s, hi, n - hi))))
            o.version += 1
            return
        i = list_idx(I, o, idx)
        list_remove_at(I, o, i)
        return
    raise Unsupported("del")


def list_remove_at(I, o, i):
    I.touch(o)
    if o.items is not None and o.parent is None and isinstance(i, int):
        return o.items.pop(i)
    it = i if z3.is_expr(i) else z3.IntVal(i)
    s = I.seq(o)
    n = z3.Length(s)
    v = I.from_u(mk_nth(s, it), I_ety(o))
    if z3.is_int_value(simp(it)) and simp(it).as_long() == 0:
        ns = z3.SubSeq(s, 1, n - 1)
    elif I.path.entails(it == n - 1, 200):
        ns = z3.SubSeq(s, 0, n - 1)
        I.path.assume(z3.Implies(n > 0, s == z3.Concat(ns, z3.Unit(mk_nth(s, it)))))
    else:
        ns = z3.Concat(z3.SubSeq(s, 0, it), z3.SubSeq(s, it + 1, n - it - 1))
    I.set_seq(o, simp(ns))
    I.path.assume(z3.Length(I.seq(o)) == n - 1)
    o.version += 1
    return v


# ---------------------------------------------------------------- attributes
def getattr_(I, o, name):
    if isinstance(o, ModelObj):
        return o.getattr(I, name)
    if isinstance(o, (types.ModuleType, type)):
        return I.lift(getattr(o, name))
    if isinstance(o, re.Pattern):
        if name in ("pattern", "flags", "groups"):
            return getattr(o, name)
        return BoundV(o, name)
    if isinstance(o, ExcV):
        if name in o.attrs:
            return o.attrs[name]
        if name == "args":
            return o.args
        raise Unsupported("exception attribute %s" % name)
    o2 = I.resolve(o)
    if isinstance(o2, ModelObj):
        return o2.getattr(I, name)
    if o2 is None:
        I.raise_(AttributeError, name)
    if isinstance(o2, (int, bool)) or I.pkind(o2) in ("int", "bool"):
        I.raise_(AttributeError, name)
    if I.pkind(o2) == "str" and not hasattr("", name) or isinstance(o2, ListV) and not hasattr([], name) or isinstance(o2, DictV) and not hasattr({}, name) or isinstance(o2, tuple) and not hasattr((), name):
        I.raise_(AttributeError, name)
    if isinstance(o2, types.FunctionType):
        return getattr(o2, name)
    return BoundV(o2, name)


# ---------------------------------------------------------------- methods
def method(I, o, name, args, kw):
    if isinstance(o, re.Pattern):
        return re_method(I, o, name, args, kw)
    k = I.pkind(o)
    if k in ("str", "bytes"):
        return str_method(I, o, name, args, kw, k)
    if isinstance(o, ListV):
        return list_method(I, o, name, args, kw)
    if isinstance(o, DictV):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, SetV):
        return set_method(I, o, name, args, kw)
    if isinstance(o, tuple):
        return list_method(I, ListV(items=list(o)), name, args, kw)
    if isinstance(o, Sym) and o.kind == "any":
        if o.ty is not None and o.ty.name == "obj" and hasattr(o.ty, "method"):
            return o.ty.method(I, o, name, args, kw)
        if name in ("search", "match", "finditer", "sub", "findall", "split", "fullmatch"):
            return re_method(I, o, name, args, kw)
        if name == "copy" and not args and not kw:
            return o        # a copy has the same value
    raise Unsupported("method %s on %r" % (name, type(o)))


def list_extend(I, l, other):
    it = I.iterate(other)
    if isinstance(it, list):
        for x in it:
            I.list_append(l, x)
        return
    o = I.resolve(other)
    if isinstance(o, ListV):
        from .interp import join, kind_of
        if l.parent is None:
            j = join(kind_of(l).elem if l.items is not None else (l.ety or TBotx()), I_ety(o))
            s = I.seq(l)
            I.escape(o)
            if l.items is not None:
                for x in l.items:
                    I.escape(x)
            I.set_seq(l, simp(z3.Concat(s, I.seq(o))))
            l.ety = j
        else:
            I.set_seq(l, simp(z3.Concat(I.seq(l), I.seq(o))))
        return
    raise Unsupported("extend with lazy sequence")


def TBotx():
    from .interp import TBot
    return TBot


def list_method(I, l, name, args, kw):
    if name == "__getitem__":
        return getitem(I, l, args[0])
    if name == "append":
        I.list_append(l, args[0])
        return None
    if name == "extend":
        list_extend(I, l, args[0])
        return None
    if name == "pop":
        idx = args[0] if args else -1
        if isinstance(idx, int) and idx == -1 and l.items is None or l.parent is not None:
            pass
        n = I.llen(l)
        if not I.path.decide(n > 0 if isinstance(n, int) else n.t > 0, "pop"):
            I.raise_(IndexError, "pop from empty list")
        i = list_idx(I, l, idx)
        return list_remove_at(I, l, i)
    if name == "insert":
        if l.items is not None and l.parent is None and isinstance(args[0], int):
            I.touch(l)
            l.items.insert(args[0], args[1])
            l.version += 1
            return None
        I.escape(args[1])
        s = I.seq(l)
        n = z3.Length(s)
        i = norm_idx(I, args[0], n, None)
        from .interp import join, kind_of
        if l.parent is None:
            l.ety = join(I_ety(l), kind_of(args[1]) or TAny)
        I.set_seq(l, simp(z3.Concat(z3.SubSeq(s, 0, i), z3.Unit(I.to_u(args[1])), z3.SubSeq(s, i, n - i))))
        l.version += 1
        return None
    if name == "copy":
        if l.items is not None and l.parent is None:
            return ListV(items=list(l.items))
        return ListV(seq=I.seq(l), ety=l.ety)
    if name == "clear":
        I.touch(l)
        if l.parent is None:
            l.items, l.seq = [], None
        else:
            I.set_seq(l, EMPTY_SEQ)
        l.version += 1
        return None
    if name == "reverse":
        if l.items is not None and l.parent is None:
            I.touch(l)
            l.items.reverse()
            return None
        s = I.seq(l)
        r = uf("seq!rev", SeqU, SeqU)(s)
        I.path.assume(z3.Length(r) == z3.Length(s))
        for q in I.ghost.get("mirror", ()):
            I.path.assume(z3.Implies(z3.And(0 <= q, q < z3.Length(s)), mk_nth(r, q) == mk_nth(s, z3.Length(s) - 1 - q)))
        I.set_seq(l, r)
        l.version += 1
        return None
    if name == "sort":
        s = sorted_seq(I, l, kw)
        if isinstance(s, list):
            I.touch(l)
            l.items = s
            return None
        I.set_seq(l, s)
        l.version += 1
        return None
    if name == "remove":
        if l.items is not None and l.parent is None:
            for i, x in enumerate(l.items):
                if I.path.decide(I.eq(x, args[0]), "remove"):
                    I.touch(l)
                    l.items.pop(i)
                    return None
            I.raise_(ValueError, "list.remove(x): x not in list")
        s = I.seq(l)
        u = z3.Unit(I.to_u(args[0]))
        if not I.path.decide(z3.Contains(s, u), "remove"):
            I.raise_(ValueError, "list.remove(x): x not in list")
        i = z3.IndexOf(s, u, 0)
        list_remove_at(I, l, i)
        return None
    if name == "index" and len(args) == 1:
        if l.items is not None and l.parent is None:
            for i, x in enumerate(l.items):
                if I.path.decide(I.eq(x, args[0]), "index"):
                    return i
            I.raise_(ValueError, "not in list")
        s = I.seq(l)
        u = z3.Unit(I.to_u(args[0]))
        if not I.path.decide(z3.Contains(s, u), "index"):
            I.raise_(ValueError, "not in list")
        return wrap("int", z3.IndexOf(s, u, 0))
    if name == "count":
        r = uf("seq!count", SeqU, U, Int)(I.seq(l), I.to_u(args[0]))
        I.path.assume(r >= 0)
        return wrap("int", r)
    raise Unsupported("list.%s" % name)


def key_tag(I, kw, ety=None):
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if isinstance(rev, Sym):
        raise Unsupported("symbolic reverse")
    if key is None:
        tag = "id"
    elif isinstance(key, FuncV):
        # the key as a function of an arbitrary element: equal keys sort alike
        ety = ety or TAny
        if ety.name == "bot":        # nothing is ever put into the list
            return "empty"
        xs = I.ghost.setdefault("sort!x", {})
        if ety not in xs:
            xs[ety] = I.from_u(z3.Const("sort!x!%s" % (ety,), U), ety)
        x = xs[ety]
        tag = "fn:" + simp(I.to_u(I.call(key, [x], {}))).sexpr()
    else:
        tag = getattr(key, "__qualname__", None) or repr(key)
    return "%s/%s" % (tag, bool(rev))


def sorted_seq(I, l, kw):
    if isinstance(l, ListV) and l.items is not None and l.parent is None:
        key = kw.get("key")
        if len(l.items) <= 1:
            return list(l.items)
        ks = [I.call(key, [x], {}) if key is not None else x for x in l.items]
        if all(I.is_conc(k) for k in ks):
            return [x for _, x in sorted(zip(ks, l.items), key=lambda p: p[0], reverse=bool(kw.get("reverse", False)))]
    s = I.seq(l)
    r = uf("seq!sort", Str, SeqU, SeqU)(z3.StringVal(key_tag(I, kw, l.ety if isinstance(l, ListV) else None)), s)
    I.path.assume(z3.Length(r) == z3.Length(s))
    # what sorting means, at the members and the pair of positions the contract is about
    if "sort_facts" in I.ghost:
        I.path.assume(I.ghost["sort_facts"](r, s))
    for i, j in I.ghost.get("witness_order", ()):
        at = lambda x: I.from_u(mk_nth(r, x), l.ety or TAny)
        ks = [at(x) if kw.get("key") is None else I.call(kw["key"], [at(x)], {}) for x in (i, j)]
        ks = [k if not isinstance(k, int) else Sym("int", z3.IntVal(k)) for k in ks]
        if all(isinstance(k, Sym) and k.kind == "int" for k in ks):
            a, b = ks[0].t, ks[1].t
            I.path.assume(z3.Implies(z3.And(0 <= i, i < j, j < z3.Length(r)), a >= b if kw.get("reverse", False) else a <= b))
    return r


def copy_dict(I, d):
    if d.parent is not None:
        r = DictV(base=I.arr(d), ty=d.ty)
        r.base_shared = True
        I.mark_copied(d)
        return r
    r = DictV(known={k: v for k, v in d.known.items()}, base=d.base, keys=d.keys, ty=d.ty)
    if d.base is not None:
        r.base_shared = d.base_shared = True
    return r


def dict_update(I, d, o):
    o = I.resolve(o)
    if isinstance(o, DictV):
        if o.parent is None and o.base is None:
            for k, v in list(o.known.items()):
                if v is not ABSENT:
                    I.dict_set(d, k, v)
            return
        # symbolic update: d[k] = o[k] if present else d[k] -- array combinator
        I.touch(d)
        a, b = I.arr(d), I.arr(o)
        sa, sb = simp(a), simp(b)
        if d.parent is None and sa.eq(simp(EMPTY_ARR)):
            d.known, d.base, d.keys = {}, b, o.keys
            d.ty = d.ty or o.ty
            return
        r = uf("dict!update", ArrU, ArrU, ArrU)(a, b)
        for w in I.ghost.get("witness_keys", ()):
            I.sel(r, w)
        if d.parent is not None:
            I.set_child(d.parent[0], d.parent[1], U.udict(r))
        else:
            d.known, d.base, d.keys = {}, r, None
            d.ty = None
        return
    it = I.iterate(o)
    if isinstance(it, list):
        for x in it:
            k, v = I.unpack(x, 2)
            I.dict_set(d, k, v)
        return
    if isinstance(o, ListV) and o.ety is not None and o.ety == TTup(TStr, TStr) and d.parent is None:
        # a list of (text, text) pairs: some function of both
        I.touch(d)
        a = I.arr(d)
        I.absorb(d)
        d.known, d.base, d.keys, d.ty = {}, uf("dict!with_pairs", ArrU, SeqU, ArrU)(a, I.seq(o)), None, None
        return
    raise Unsupported("dict.update")


def dict_keys(I, d):
    if d.parent is None and d.base is None:
        return [k for k, v in d.known.items() if v is not ABSENT]
    if d.keys is None:
        arr = I.arr(d)
        ks = uf("dict!keys", ArrU, SeqU)(arr)
    else:
        ks = d.keys
        arr = I.arr(d)
    from .interp import key_type
    kty = key_type(d.ty)
    if kty.name == "bot":
        kty = TAny

    pos = uf("dict!pos", ArrU, Key, Int)

    def get(i):
        kv = I.from_u(mk_nth(ks, i), kty)
        I.path.assume(I.sel(arr, I.key_term(kv)) != U.absent)
        I.path.assume(pos(arr, I.key_term(kv)) == i)        # keys are distinct
        return kv
    for w in I.ghost.get("witness_keys", ()) if kty.name == "str" else ():
        j = pos(arr, w)
        I.path.assume(z3.Implies(z3.Select(arr, w) != U.absent, z3.And(j >= 0, j < z3.Length(ks), I.key_term(Sym("str", U.sval(mk_nth(ks, j)))) == w)))
    r = VSeq(simp(z3.Length(ks)), get, "keys")
    r.term_seq, r.ety = ks, kty
    return r


def dict_method(I, d, name, args, kw):
    if name == "get":
        v = I.dict_get(d, args[0])
        if v is ABSENT:
            return args[1] if len(args) > 1 else kw.get("default")
        return v
    if name == "setdefault":
        v = I.dict_get(d, args[0])
        if v is ABSENT:
            nv = args[1] if len(args) > 1 else None
            I.dict_set(d, args[0], nv)
            return I.dict_get(d, args[0]) if isinstance(args[0], Sym) or d.parent is not None else nv
        return v
    if name == "pop":
        v = I.dict_get(d, args[0])
        if v is ABSENT:
            if len(args) > 1:
                return args[1]
            I.raise_(KeyError, args[0])
        if isinstance(v, (ListV, DictV)) and v.parent is not None:
            v = I.from_u(I.to_u(v), I.field_type(d, args[0]))
        I.dict_del(d, args[0])
        return v
    if name == "update":
        for a in args:
            dict_update(I, d, a)
        for k, v in kw.items():
            I.dict_set(d, k, v)
        return None
    if name == "copy":
        return copy_dict(I, d)
    if name == "keys":
        ks = dict_keys(I, d)
        return ListV(items=ks) if isinstance(ks, list) else ks
    if name == "values":
        ks = dict_keys(I, d)
        if isinstance(ks, list):
            return ListV(items=[I.dict_get(d, k) for k in ks])
        return VSeq(ks.length, lambda i: I.dict_get(d, ks.get(i)), "values")
    if name == "items":
        ks = dict_keys(I, d)
        if isinstance(ks, list):
            return ListV(items=[(k, I.dict_get(d, k)) for k in ks])

        def get(i):
            k = ks.get(i)
            return (k, I.dict_get(d, k))
        return VSeq(ks.length, get, "items")
    if name == "clear":
        I.touch(d)
        if d.parent is not None:
            raise Unsupported("clear view")
        d.known, d.base, d.keys = {}, None, None
        return None
    raise Unsupported("dict.%s" % name)


def make_set(I, v):
    it = I.iterate(v)
    if isinstance(it, list):
        return SetV(known=list(it))
    raise Unsupported("set of symbolic sequence")


def set_method(I, s, name, args, kw):
    if name == "add":
        I.touch_set(s) if hasattr(I, "touch_set") else None
        if s.frozen:
            raise Unsupported("mutation of shared set")
        for lc in I.loopstack:
            lc.note_write(I, [s])
        a = I.setarr(s)
        if s.base is None and I.is_conc(args[0]):
            if args[0] not in s.known:
                s.known.append(args[0])
            return None
        s.known, s.base = [], z3.Store(a, I.key_term(args[0]), z3.BoolVal(True))
        return None
    raise Unsupported("set.%s" % name)


# ---------------------------------------------------------------- builtins
@model(len)
def m_len(I, v):
    v = I.resolve(v)
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, Sym) and v.kind in ("str", "bytes"):
        return wrap("int", simp(z3.Length(v.t)))
    if isinstance(v, ListV):
        return I.llen(v)
    if isinstance(v, DictV):
        if v.parent is None and v.base is None:
            return len([1 for x in v.known.values() if x is not ABSENT])
        if v.keys is not None:
            return wrap("int", z3.Length(v.keys))
        r = uf("dict!len", ArrU, Int)(I.arr(v))
        I.path.assume(r >= 0)
        return wrap("int", r)
    if isinstance(v, VSeq) and getattr(v, "sized", False):
        return wrap("int", v.length)
    if isinstance(v, SetV) and v.base is None:
        if len(v.known) <= 1 or all(I.is_conc(x) for x in v.known):
            return len(set(v.known)) if all(I.is_conc(x) for x in v.known) else len(v.known)
    if v is None or I.pkind(v):
        I.raise_(TypeError, "object has no len()")
    if isinstance(v, ModelObj) and hasattr(v, "m___len__"):
        return v.m___len__(I)
    raise Unsupported("len %r" % type(v))


@model(isinstance)
def m_isinstance(I, v, cls):
    if isinstance(cls, tuple):
        rs = [m_isinstance(I, v, c) for c in cls]
        for r in rs:
            if I.path.decide(I.truth(r), "isinstance"):
                return True
        return False
    if isinstance(v, Sym) and v.kind == "any" and not (v.ty is not None and v.ty.name == "obj"):
        rec = {str: U.is_ustr, int: lambda t: z3.Or(U.is_uint(t), U.is_ubool(t)), bool: U.is_ubool, list: U.is_ulist, dict: U.is_udict, tuple: U.is_utup, bytes: U.is_ubytes,
               set: U.is_uset}.get(cls)
        if rec is None:
            return I.boolv(uf("isinst!%s.%s" % (cls.__module__, cls.__qualname__), U, Bool)(v.t))
        return I.boolv(rec(v.t))
    k = I.pkind(v)
    if k:
        return issubclass({"str": str, "int": int, "bool": bool, "bytes": bytes}[k], cls)
    if v is None:
        return cls is type(None) or cls is object
    for c, p in ((ListV, list), (DictV, dict), (SetV, set), (tuple, tuple)):
        if isinstance(v, c):
            return issubclass(p, cls)
    if isinstance(v, ExcV):
        return I.boolv(I.exc_matches(v, cls))
    if isinstance(v, ModelObj):
        return isinstance(v.cls, type) and issubclass(v.cls, cls)
    if isinstance(v, Sym) and v.ty is not None and v.ty.name == "obj":
        return isinstance(v.ty.cls, type) and issubclass(v.ty.cls, cls)
    raise Unsupported("isinstance %r" % type(v))


@model(hasattr)
def m_hasattr(I, v, name):
    if isinstance(v, Sym) and v.kind == "any" and v.ty is None:
        has = [rec for rec, c in ((U.is_ustr, ""), (U.is_ulist, []), (U.is_udict, {}), (U.is_utup, ()), (U.is_uint, 0), (U.is_ubytes, b"")) if hasattr(c, name)]
        r = z3.Or(*[h(v.t) for h in has]) if has else z3.BoolVal(False)
        return I.boolv(z3.Or(r, z3.And(U.is_uopq(v.t), uf("hasattr!" + name, U, Bool)(v.t))))
    k = I.pkind(v)
    c = {"str": "", "int": 0, "bool": True, "bytes": b""}.get(k)
    if k:
        return hasattr(c, name)
    for c, p in ((ListV, []), (DictV, {}), (SetV, set()), (tuple, ())):
        if isinstance(v, c):
            return hasattr(p, name)
    raise Unsupported("hasattr")


@model(bool)
def m_bool(I, v=False):
    return I.boolv(I.truth(v))


@model(str)
def m_str(I, v="", *a):
    return to_str(I, v)


@model(repr)
def m_repr(I, v):
    return opaque_str(I, "repr", v)


@model(int)
def m_int(I, v=0, base=10):
    v = I.resolve(v)
    if isinstance(v, (int, str, float)):
        try:
            return int(v) if not isinstance(v, str) else int(v, base)
        except Exception as ex:
            raise PyRaise(ExcV(type(ex), ex.args))
    k = I.pkind(v)
    if k == "int":
        return v
    if k == "bool":
        return wrap("int", I.prim(v, "int"))
    if k == "str":
        ok = uf("int!ok", Str, Bool)(v.t)
        if not I.path.decide(ok, "int()"):
            I.raise_(ValueError, "invalid literal for int()")
        return wrap("int", uf("int!val", Str, Int)(v.t))
    if v is None or isinstance(v, (ListV, DictV, tuple)):
        I.raise_(TypeError, "int() argument")
    raise Unsupported("int()")


@model(ord)
def m_ord(I, v):
    v = I.resolve(v)
    if isinstance(v, str):
        try:
            return ord(v)
        except TypeError as ex:
            raise PyRaise(ExcV(TypeError, ex.args))
    return ord(I.concretize(I.prim(v, "str")))


@model(list)
def m_list(I, v=()):
    r = I.resolve(v)
    if isinstance(r, GenV):
        return I.force(r)
    if isinstance(r, ListV):
        return list_slice(I, r, slice(None, None, None))
    it = I.iterate(v)
    if isinstance(it, list):
        return ListV(items=list(it))
    if getattr(it, "term_seq", None) is not None:
        return ListV(seq=it.term_seq, ety=it.ety)
    if it.desc == "finditer":             # matches do not change
        return it
    raise Unsupported("list() of lazy sequence")


@model(tuple)
def m_tuple(I, v=()):
    it = I.iterate(v)
    if isinstance(it, list):
        return tuple(it)
    raise Unsupported("tuple() of symbolic sequence")


@model(dict)
def m_dict(I, *args, **kw):
    d = DictV()
    if args:
        o = I.resolve(args[0])
        if isinstance(o, DictV):
            d = copy_dict(I, o)
        else:
            dict_update(I, d, o)
    for k, v in kw.items():
        I.dict_set(d, k, v)
    return d


@model(set, frozenset)
def m_set(I, v=()):
    return make_set(I, v)


@model(range)
def m_range(I, *a):
    a = [I.resolve(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return ListV(items=list(range(*a)))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi = I.prim(lo, "int"), I.prim(hi, "int")
    if st == 1:
        n = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if I.path.entails(hi >= lo, 300):
            n = simp(hi - lo)
        r = VSeq(n, lambda i: wrap("int", simp(lo + i)), "range")
    elif st == -1:
        n = simp(z3.If(lo > hi, lo - hi, z3.IntVal(0)))
        if I.path.entails(lo >= hi, 300):
            n = simp(lo - hi)
        r = VSeq(n, lambda i: wrap("int", simp(lo - i)), "range")
    else:
        raise Unsupported("range step")
    r.sized = True
    return r


@model(enumerate)
def m_enumerate(I, v, start=0):
    it = I.iterate(v)
    if isinstance(it, list):
        return ListV(items=[(binop(I, ast.Add(), start, i), x) for i, x in enumerate(it)])
    s = I.prim(I.resolve(start), "int")
    return VSeq(it.length, lambda i: (wrap("int", simp(s + i)), it.get(i)), "enumerate")


@model(zip)
def m_zip(I, *vs, strict=False):
    its = [I.iterate(v) for v in vs]
    if all(isinstance(i, list) for i in its):
        return ListV(items=[tuple(x) for x in zip(*its)])
    ns = [z3.IntVal(len(i)) if isinstance(i, list) else i.length for i in its]
    n = ns[0]
    for m in ns[1:]:
        if I.path.entails(n == m, 300):
            continue
        if strict is not False:
            if I.path.decide(n != m, "zip-strict"):
                raise Unsupported("strict zip mismatch")
        n = z3.If(n <= m, n, m)
    if any(isinstance(i, list) for i in its):
        raise Unsupported("zip mixed")
    return VSeq(simp(n), lambda i: tuple(x.get(i) for x in its), "zip")


@model(reversed)
def m_reversed(I, v):
    it = I.iterate(v)
    if isinstance(it, list):
        return ListV(items=it[::-1])
    n = it.length
    return VSeq(n, lambda i: it.get(simp(n - 1 - i)), "reversed")


@model(sorted)
def m_sorted(I, v, **kw):
    r = I.resolve(v)
    if not isinstance(r, ListV):
        it = I.iterate(r)
        if isinstance(it, list):
            r = ListV(items=it)
        elif getattr(it, "term_seq", None) is not None:
            r = ListV(seq=it.term_seq, ety=it.ety)
        else:
            raise Unsupported("sorted lazy")
    s = sorted_seq(I, r, kw)
    if isinstance(s, list):
        return ListV(items=s)
    return ListV(seq=s, ety=I_ety(r))


@model(max, min)
def m_minmax(I, *a, **kw):
    raise Unsupported("max/min")


def _mm(isMax):
    def f(I, *a, **kw):
        if kw or len(a) < 2:
            raise Unsupported("max/min form")
        r = I.resolve(a[0])
        for x in a[1:]:
            x = I.resolve(x)
            if isinstance(r, int) and isinstance(x, int):
                r = max(r, x) if isMax else min(r, x)
            else:
                p, q = I.prim(r, "int"), I.prim(x, "int")
                r = wrap("int", simp(z3.If((q > p) if isMax else (q < p), q, p)))
        return r
    return f


MODELS[id(max)] = (max, _mm(True))
MODELS[id(min)] = (min, _mm(False))


@model(abs)
def m_abs(I, v):
    v = I.resolve(v)
    if isinstance(v, int):
        return abs(v)
    t = I.prim(v, "int")
    return wrap("int", z3.If(t < 0, -t, t))


@model(any)
def m_any(I, v):
    it = I.iterate(v)
    if isinstance(it, list):
        for x in it:
            if I.test(x, "any"):
                return True
        return False
    raise Unsupported("any over symbolic")


@model(all)
def m_all(I, v):
    it = I.iterate(v)
    if isinstance(it, list):
        for x in it:
            if not I.test(x, "all"):
                return False
        return True
    raise Unsupported("all over symbolic")


@model(callable)
def m_callable(I, v):
    return callable(v) or isinstance(v, FuncV)


@model(print)
def m_print(I, *a, **k):
    return None


@model(type)
def m_type(I, v):
    k = I.pkind(v)
    if k:
        return {"str": str, "int": int, "bool": bool, "bytes": bytes}[k]
    for c, p in ((ListV, list), (DictV, dict), (SetV, set), (tuple, tuple)):
        if isinstance(v, c):
            return p
    raise Unsupported("type()")


@model(iter)
def m_iter(I, v):
    return v if isinstance(v, (VSeq, ConcreteIter)) else (ConcreteIter(I.iterate(v)) if isinstance(I.iterate(v), list) else I.iterate(v))


@model(sum)
def m_sum(I, v, start=0):
    it = I.iterate(v)
    if isinstance(it, list):
        r = start
        for x in it:
            r = binop(I, ast.Add(), r, x)
        return r
    src = getattr(it, "source", None)
    ts = I.seq(src) if src is not None else getattr(it, "term_seq", None)
    if ts is None or (src.ety if src is not None else it.ety) not in (TInt, TBool):
        raise Unsupported("sum over symbolic")
    return wrap("int", I.prim(start, "int") + uf("seq!sum", SeqU, Int)(ts))


@model(contextlib.suppress)
def m_suppress(I, *cls):
    return Suppress(cls)


class Suppress(ModelObj):
    def __init__(self, cls):
        ModelObj.__init__(self, None)
        self.classes = cls

    def cm_enter(self, I):
        return None

    def cm_exit(self, I, exc):
        return exc is not None and I.path.decide(I.exc_matches(exc, tuple(self.classes)), "suppress")


@model(__import__("copy").copy)
def m_copy(I, v):
    v = I.resolve(v)
    if isinstance(v, DictV):
        return copy_dict(I, v)
    if isinstance(v, ListV):
        return list_method(I, v, "copy", [], {})
    return v


# ---------------------------------------------------------------- regular expressions
_info = {}


def re_info(p):
    """mechanically derived facts about a concrete pattern"""
    if p in _info:
        return _info[p]
    always, inlook = {0}, set()
    try:
        tree = sre_parse.parse(p.pattern, p.flags & ~re.DEBUG)

        def walk(node, opt, look):
            for op, av in node:
                o = str(op)
                if o == "SUBPATTERN":
                    g = av[0]
                    if g is not None:
                        if not opt and not look:
                            always.add(g)
                        if look:
                            inlook.add(g)
                    walk(av[3], opt, look)
                elif o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                    walk(av[2], opt or av[0] == 0, look)
                elif o == "BRANCH":
                    for b in av[1]:
                        walk(b, True, look)
                elif o in ("ASSERT",):
                    walk(av[1], opt, True)
                elif o == "ASSERT_NOT":
                    walk(av[1], True, True)
                elif o == "GROUPREF_EXISTS":
                    for b in av[1:]:
                        if b:
                            walk(b, True, look)
                elif o == "ATOMIC_GROUP":
                    walk(av, opt, look)
        walk(tree, False, False)
        lo, hi = tree.getwidth()
    except Exception:
        lo = 0
        always = {0}
        inlook = set(range(1, p.groups + 1))
    _info[p] = (always, inlook, lo)
    return _info[p]


def matchobj(pid, fam, st, idx):
    return uf("re!matchobj", U, Str, Str, Int, U)(pid, z3.StringVal(fam), st, idx)


def match_found(pid, fam, st):
    return uf("re!count", U, Str, Int)(pid, st) > 0 if fam == "iter" else uf("re!%s_ok" % fam, U, Str, Bool)(pid, st)


def match_from(I, t, ty):
    pid = I.to_u(ty.pat)
    st = uf("re!subject", U, Str)(t)
    I.path.assume(z3.And(t == matchobj(pid, ty.fam, st, z3.IntVal(0)), match_found(pid, ty.fam, st)))
    return MatchV(I, ty.pat, pid, ty.fam, wrap("str", st), z3.IntVal(0))


def match_of(I, ty, st):
    """the match of the text, or None, as a value"""
    pid = I.to_u(ty.pat)
    t = matchobj(pid, ty.fam, st, z3.IntVal(0))
    I.path.assume(z3.And(uf("re!subject", U, Str)(t) == st, t != U.none, t != U.absent))
    return z3.If(match_found(pid, ty.fam, st), t, U.none)


def one_of(I, m, g, values):
    """the text of a group that has only these: case split"""
    w = uf("re!which", U, Str, Str, Int, Int, Int)(m.pid, z3.StringVal(m.fam), m.st, m.idx, z3.IntVal(g))
    seen = I.ghost.setdefault("split", [])
    for x, i in seen:
        if x.eq(w):
            return values[i]
    for x, i in seen:
        if x.decl().eq(w.decl()) and x.arg(0).eq(w.arg(0)) and I.path._check(w != i, 50) == z3.unsat:
            seen.append((w, i))
            I.path.assume(w == i)
            return values[i]
    i = I.path.choose(len(values))
    I.path.assume(w == i)
    seen.append((w, i))
    return values[i]


class MatchV(ModelObj):
    def __init__(self, I, pat, pid, fam, s, idx):
        ModelObj.__init__(self, re.Match)
        self.pat, self.pid, self.fam, self.s, self.idx = pat, pid, fam, s, idx
        self.st = I.prim(s, "str")
        P = I.path
        b, e = self.span(I, z3.StringVal("0"))
        P.assume(z3.And(0 <= b, b <= e, e <= z3.Length(self.st)))
        if isinstance(pat, re.Pattern):
            P.assume(e - b >= re_info(pat)[2])
        if fam == "match":
            P.assume(b == 0)
        if "match_facts" in I.ghost:
            I.ghost["match_facts"](I, self, b, e)

    def term(self):
        return matchobj(self.pid, self.fam, self.st, self.idx)

    def kind(self):
        """kind of a match in a loop: the pattern is fixed, the text may vary"""
        if not isinstance(self.pat, re.Pattern) or not z3.is_int_value(simp(self.idx)) or simp(self.idx).as_long() != 0:
            return None
        return T("match", pat=self.pat, fam=self.fam, key=lambda: ("match", id(self.pat), self.fam))

    def span(self, I, g):
        a = (self.pid, z3.StringVal(self.fam), self.st, self.idx, g)
        return (uf("re!start", U, Str, Str, Int, Str, Int)(*a), uf("re!end", U, Str, Str, Int, Str, Int)(*a))

    def gnum(self, I, g):
        if isinstance(self.pat, re.Pattern):
            if isinstance(g, str):
                if g not in self.pat.groupindex:
                    I.raise_(IndexError, "no such group")
                g = self.pat.groupindex[g]
            if not isinstance(g, int):
                raise Unsupported("symbolic group")
            if g > self.pat.groups or g < 0:
                I.raise_(IndexError, "no such group")
        elif g != 0 and g not in I.ghost.get("always_groups", ()):
            # an unknown pattern may not have the group
            if not I.path.decide(uf("re!named", U, Str, Bool)(self.pid, z3.StringVal(str(g))), "group"):
                I.raise_(IndexError, "no such group")
        return g

    def group1(self, I, g):
        g = self.gnum(I, g)
        if "group_value" in I.ghost:
            v = I.ghost["group_value"](I, self, g)
            if v is not NotImplemented:
                return v
        gt = z3.StringVal(str(g))
        b, e = self.span(I, gt)
        if g != 0:
            mb, me = self.span(I, z3.StringVal("0"))
            n = z3.Length(self.st)
            has = uf("re!has", U, Str, Str, Int, Str, Bool)(self.pid, z3.StringVal(self.fam), self.st, self.idx, gt)
            I.path.assume(z3.Implies(has, z3.And(0 <= b, b <= e, e <= n)))
            if isinstance(self.pat, re.Pattern):
                always, inlook, _ = re_info(self.pat)
                if g not in inlook:
                    I.path.assume(z3.Implies(has, z3.And(mb <= b, e <= me)))
                if g in always:
                    I.path.assume(has)
                    return wrap("str", z3.SubString(self.st, b, e - b))
            elif self.always(I, g):
                I.path.assume(z3.And(has, mb <= b, e <= me))
                return wrap("str", z3.SubString(self.st, b, e - b))
            return Sym("any", z3.If(has, U.ustr(z3.SubString(self.st, b, e - b)), U.none), TOpt(TStr))
        return wrap("str", z3.SubString(self.st, b, e - b))

    def always(self, I, g):
        """the group takes part in every match"""
        if isinstance(self.pat, re.Pattern):
            return g in re_info(self.pat)[0]
        return g in I.ghost.get("always_groups", ()) or g in I.ghost.get("groups_taking_part", ())

    def m_group(self, I, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self.group1(I, g) for g in gs)
        return r[0] if len(r) == 1 else r

    def m___getitem__(self, I, g):
        return self.group1(I, g)

    def m_start(self, I, g=0):
        g = self.gnum(I, g)
        if g != 0:
            self.group1(I, g)
        b, e = self.span(I, z3.StringVal(str(g)))
        return wrap("int", b) if g == 0 or self.always(I, g) else self._opt(I, g, b)

    def m_end(self, I, g=0):
        g = self.gnum(I, g)
        if g != 0:
            self.group1(I, g)
        b, e = self.span(I, z3.StringVal(str(g)))
        return wrap("int", e) if g == 0 or self.always(I, g) else self._opt(I, g, e)

    def _opt(self, I, g, t):
        has = uf("re!has", U, Str, Str, Int, Str, Bool)(self.pid, z3.StringVal(self.fam), self.st, self.idx, z3.StringVal(str(g)))
        return wrap("int", z3.If(has, t, z3.IntVal(-1)))

    def m_span(self, I, g=0):
        return (self.m_start(I, g), self.m_end(I, g))

    def m_groups(self, I):
        if not isinstance(self.pat, re.Pattern):
            raise Unsupported("groups of symbolic pattern")
        return tuple(self.group1(I, g) for g in range(1, self.pat.groups + 1))

    def m_groupdict(self, I):
        if not isinstance(self.pat, re.Pattern):
            raise Unsupported("groupdict")
        return DictV(known={n: self.group1(I, g) for n, g in self.pat.groupindex.items()})


def re_method(I, pat, name, args, kw):
    pid = I.to_u(pat)
    if name in ("search", "match", "fullmatch", "finditer", "findall", "split"):
        s = I.resolve(args[0] if args else kw.get("string"))
        if I.pkind(s) != "str":
            if s is None or I.pkind(s) or isinstance(s, (ListV, DictV, tuple)):
                I.raise_(TypeError, "expected string or bytes-like object")
            raise Unsupported("re on %r" % type(s))
        if len(args) > 1 or kw:
            if name != "split":
                raise Unsupported("re pos argument")
        if isinstance(s, str) and isinstance(pat, re.Pattern) and name in ("findall", "split") and len(args) == 1:
            return I.lift(getattr(pat, name)(s))
        st = I.prim(s, "str")
        if name in ("search", "finditer"):
            n = uf("re!count", U, Str, Int)(pid, st)
            I.path.assume(n >= 0)
            if name == "search":
                if not I.path.decide(n > 0, "re.search"):
                    return None
                return MatchV(I, pat, pid, "iter", s, z3.IntVal(0))

            def get(i):
                m = MatchV(I, pat, pid, "iter", s, i if z3.is_expr(i) else z3.IntVal(i))
                return m
            r = VSeq(n, get, "finditer")
            return r
        if name in ("match", "fullmatch"):
            ok = uf("re!%s_ok" % name, U, Str, Bool)(pid, st)
            if not I.path.decide(ok, "re." + name):
                return None
            return MatchV(I, pat, pid, name, s, z3.IntVal(0))
        if name == "findall":
            return ListV(seq=uf("re!findall", U, Str, SeqU)(pid, st), ety=TAny)
        if name == "split":
            r = uf("re!split", U, Str, U, SeqU)(pid, st, I.to_u(tuple(args[1:]) + tuple(kw.values())))
            I.path.assume(z3.Length(r) >= 1)
            return ListV(seq=r, ety=TAny if (isinstance(pat, re.Pattern) and pat.groups) else TStr)
    if name in ("sub", "subn"):
        repl = args[0] if args else kw["repl"]
        s = I.resolve(args[1] if len(args) > 1 else kw["string"])
        if I.pkind(s) != "str":
            if s is None or I.pkind(s):
                I.raise_(TypeError, "expected string or bytes-like object")
            raise Unsupported("re.sub on %r" % type(s))
        cnt = args[2] if len(args) > 2 else kw.get("count", 0)
        if isinstance(s, str) and isinstance(repl, str) and isinstance(cnt, int) and isinstance(pat, re.Pattern):
            return I.lift(getattr(pat, name)(repl, s, count=cnt))
        if isinstance(repl, (FuncV, types.FunctionType)):
            raise Unsupported("re.sub with function")
        st = I.prim(s, "str")
        r = uf("re!sub", U, U, Str, Int, Str)(pid, I.to_u(repl), st, I.prim(cnt, "int"))
        n = uf("re!count", U, Str, Int)(pid, st)
        I.path.assume(n >= 0)
        I.path.assume(z3.Implies(n == 0, r == st))
        if name == "subn":
            raise Unsupported("subn")
        return wrap("str", r)
    raise Unsupported("re.%s" % name)


@model(re.compile)
def m_compile(I, p, flags=0):
    if isinstance(p, re.Pattern):
        return p
    if isinstance(p, str) and isinstance(flags, int):
        try:
            return re.compile(p, flags)
        except re.error as ex:
            raise PyRaise(ExcV(re.error, ex.args))
    p = I.resolve(p)
    pt, ft = I.prim(p, "str"), I.prim(flags, "int")
    if not I.path.decide(uf("re!valid", Str, Int, Bool)(pt, ft), "re.compile"):
        I.raise_(re.error, "bad pattern")
    I.path.assume(U.is_uopq(uf("re_obj", Str, z3.IntSort(), U)(pt, ft)))
    return Sym("any", uf("re_obj", Str, z3.IntSort(), U)(pt, ft), TObj(re.Pattern))


@model(re.escape)
def m_escape(I, s):
    if isinstance(s, str):
        return re.escape(s)
    return wrap("str", uf("re!escape", Str, Str)(I.prim(I.resolve(s), "str")))


def _refn(name):
    def f(I, p, *a, **kw):
        flags = kw.pop("flags", 0)
        na = {"search": 1, "match": 1, "fullmatch": 1, "finditer": 1, "findall": 1, "split": 2, "sub": 3}[name]
        if len(a) > na:
            flags = a[na]
            a = a[:na]
        return re_method(I, m_compile(I, p, int(flags)), name, list(a), kw)
    return f


for _n in ("search", "match", "fullmatch", "finditer", "findall", "split", "sub"):
    MODELS[id(getattr(re, _n))] = (getattr(re, _n), _refn(_n))
