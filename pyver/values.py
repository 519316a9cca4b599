"""Value domain of the verifier.

Python values are represented natively when they are known (str, int, None,
tuple, functions, classes, compiled regexes ...), by ``Sym`` when they are
symbolic, and by ``ListV`` / ``DictV`` / ``SetV`` for mutable containers.
Everything can be encoded in the universal SMT sort ``U``.
"""
import re
import z3

_Key = z3.Datatype("Key")
_Key.declare("kstr", ("ks", z3.StringSort()))
_Key.declare("kint", ("ki", z3.IntSort()))
_Key.declare("knone")
_Key.declare("kopq", ("ko", z3.IntSort()))
_Key.declare("kpair", ("kp1", z3.DatatypeSort("Key")), ("kp2", z3.DatatypeSort("Key")))
Key = _Key.create()

_U = z3.Datatype("U")
_SeqU = z3.SeqSort(z3.DatatypeSort("U"))
_ArrU = z3.ArraySort(Key, z3.DatatypeSort("U"))
_U.declare("none")
_U.declare("absent")
_U.declare("ubool", ("bval", z3.BoolSort()))
_U.declare("uint", ("ival", z3.IntSort()))
_U.declare("ustr", ("sval", z3.StringSort()))
_U.declare("ubytes", ("yval", z3.StringSort()))
_U.declare("ulist", ("lval", _SeqU))
_U.declare("utup", ("tval", _SeqU))
_U.declare("udict", ("dval", _ArrU))
_U.declare("uset", ("eval", z3.ArraySort(Key, z3.BoolSort())))
_U.declare("uopq", ("oval", z3.IntSort()))
U = _U.create()
SeqU = z3.SeqSort(U)
ArrU = z3.ArraySort(Key, U)
SetU = z3.ArraySort(Key, z3.BoolSort())
EMPTY_ARR = z3.K(Key, U.absent)
EMPTY_SET = z3.K(Key, z3.BoolVal(False))
EMPTY_SEQ = z3.Empty(SeqU)
Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()


class Unsupported(Exception):
    """The construct is outside the verifier's subset: no verdict, bounded stand-in."""


class RestartRound(Exception):
    pass


class PathEnd(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def key(self):
        n = self.name
        if n == "map" and self.kty is not None:
            return (n, self.elem.key(), self.kty.key())
        if n in ("list", "opt", "map", "frozenlist"):
            return (n, self.elem.key())
        if n == "tup":
            return (n, tuple(e.key() for e in self.elems))
        if n == "rec":
            return (n, tuple(sorted((k, t.key()) for k, t in self.fields.items())),
                    tuple(sorted((k, t.key()) for k, t in self.optional.items())))
        if n == "obj":
            return (n, self.cls)
        return n

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return str(self.key())


TInt, TBool, TStr, TBytes, TAny, TNone, TSet = (T(x) for x in (
    "int", "bool", "str", "bytes", "any", "none", "set"))


def TList(e):
    return T("list", elem=e)


def TFrozenList(e):
    return T("frozenlist", elem=e)


def TOpt(e):
    if e.name in ("opt", "any", "none"):
        return e
    return T("opt", elem=e)


def TTup(*es):
    return T("tup", elems=list(es))


def TRec(fields=None, optional=None, extra=None):
    return T("rec", fields=dict(fields or {}), optional=dict(optional or {}), extra=extra)


def TExact(fields):
    """record with exactly these keys, iterated in this order"""
    return T("rec", fields=dict(fields), optional={}, extra=None, exact=True)


def TMap(e, key=None):
    """mapping to e; keys are strings unless said otherwise"""
    return T("map", elem=e, kty=None if key is None or key.name == "str" else key)


def TObj(cls):
    """opaque object that reports isinstance(cls) -- encoded uopq"""
    return T("obj", cls=cls)


# --------------------------------------------------------------- values
class Sym:
    __slots__ = ("kind", "t", "ty")

    def __init__(self, kind, t, ty=None):
        self.kind, self.t, self.ty = kind, t, ty

    def __repr__(self):
        return "Sym(%s,%s)" % (self.kind, self.t)


class ListV:
    n = 0

    def __init__(self, items=None, seq=None, ety=None, parent=None):
        self.items, self.seq, self.ety, self.parent = items, seq, ety, parent
        self.frozen = None
        self.version = 0
        self.hint = None
        self.shared = False
        self.copied = None            # loops in which shallow copies of elements were taken


class DictV:
    """known: concrete key -> value | ABSENT ; base: (Array Key U) | None (= empty)."""

    def __init__(self, known=None, base=None, keys=None, ty=None, parent=None):
        self.known = {} if known is None else known
        self.base, self.keys, self.ty, self.parent = base, keys, ty, parent
        self.frozen = None
        self.base_shared = False      # a shallow copy shares the mutable values held in base
        self.copied = None


class SetV:
    def __init__(self, known=None, base=None):
        self.known = [] if known is None else known
        self.base = base
        self.frozen = None


class _Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()


class ExcV:
    """An exception value: a known class with args, or a symbolic one (term)."""

    def __init__(self, cls=None, args=(), term=None, cause=None):
        self.cls, self.args, self.term, self.cause = cls, tuple(args), term, cause
        self.attrs = {}

    def __repr__(self):
        return "ExcV(%s,%s)" % (self.cls, self.term)


class FuncV:
    def __init__(self, node, frame, module, name, defaults=(), kwdefaults=None):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class BoundV:
    """bound method of an engine value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VSeq:
    """Virtual (lazy, immutable) sequence: range/zip/enumerate/finditer/dict views."""

    def __init__(self, length, get, desc="", on_stop=None):
        self.length, self.get, self.desc = length, get, desc
        self.on_stop = on_stop      # called when iteration finishes (generators)
        self.pos = 0                # for next()


class ConcreteIter:
    def __init__(self, items):
        self.items, self.pos = items, 0


class ModelObj:
    """object of an external library, behaviour given by a trusted model"""

    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs

    def method(self, interp, name, args, kw):
        m = getattr(self, "m_" + name, None)
        if m is None:
            raise Unsupported("no model for %s.%s" % (type(self).__name__, name))
        return m(interp, *args, **kw)

    def getattr(self, interp, name):
        if name in self.attrs:
            return self.attrs[name]
        return BoundV(self, name)

    def term(self):
        raise Unsupported("cannot encode %s" % type(self).__name__)


SV = z3.StringVal


def esc(s):
    """python str -> z3 StringVal (explicit escapes, no interpretation of \\u)."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch not in '\\"':
            out.append(ch)
        else:
            out.append("\\u{%x}" % (o if o < 0x30000 else (o % 0x30000)))
    return z3.StringVal("".join(out))


def is_lit(t):
    return z3.is_true(t) or z3.is_false(t) or z3.is_int_value(t) or z3.is_string_value(t)


def lit_str(t):
    """z3 string literal -> python str"""
    s = t.as_string() if hasattr(t, "as_string") else str(t)
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def S(t):
    return z3.simplify(t)


def wrap(kind, t):
    """term -> python value, folding literals"""
    if kind == "int" and z3.is_int_value(t):
        return t.as_long()
    if kind == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if kind == "str" and z3.is_string_value(t):
        return lit_str(t)
    return Sym(kind, t)


def mk_len(s):
    return z3.Length(s)


_upd = z3.Function("seq_upd", SeqU, Int, U, SeqU)


def mk_upd(s, i, v):
    i = i if z3.is_expr(i) else z3.IntVal(i)
    while is_app_of(s, "seq_upd") and s.arg(1).eq(i):
        s = s.arg(0)
    return _upd(s, i, v)


def is_app_of(t, name):
    return z3.is_app(t) and t.decl().name() == name


def mk_nth(s, i):
    """nth with look-through of updates; returns term"""
    i = i if z3.is_expr(i) else z3.IntVal(i)
    if is_app_of(s, "seq_upd"):
        c = S(s.arg(1) == i)
        if z3.is_true(c):
            return s.arg(2)
        rest = mk_nth(s.arg(0), i)
        if z3.is_false(c):
            return rest
        return z3.If(s.arg(1) == i, s.arg(2), rest)
    return s[i]


def unwrap(sel, con, t):
    """selector applied to constructor -> argument, without simplify"""
    if z3.is_app(t) and t.decl().eq(con):
        return t.arg(0)
    return sel(t)


class GenV:
    """generator object: body not yet run"""

    def __init__(self, node, fr):
        self.node, self.fr, self.cm, self.started, self.out = node, fr, False, False, None
