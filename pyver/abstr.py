"""Weakening of a query: character strings become an uninterpreted sort, string operations
uninterpreted functions.  Every model of the original gives one of the weakening, so *unsat* of the
weakened query implies *unsat* of the original; any other answer means nothing."""
import z3
from .values import U, Key, SeqU, is_lit

AStr = z3.DeclareSort("AStr")
_K = z3.Datatype("AKey")
_K.declare("kstr_", ("ks_", AStr))
_K.declare("kint_", ("ki_", z3.IntSort()))
_K.declare("knone_")
_K.declare("kopq_", ("ko_", z3.IntSort()))
_K.declare("kpair_", ("kp1_", z3.DatatypeSort("AKey")), ("kp2_", z3.DatatypeSort("AKey")))
AKey = _K.create()
_A = z3.Datatype("AU")
_AS = z3.SeqSort(z3.DatatypeSort("AU"))
_A.declare("none_")
_A.declare("absent_")
_A.declare("ubool_", ("bval_", z3.BoolSort()))
_A.declare("uint_", ("ival_", z3.IntSort()))
_A.declare("ustr_", ("sval_", AStr))
_A.declare("ubytes_", ("yval_", AStr))
_A.declare("ulist_", ("lval_", _AS))
_A.declare("utup_", ("tval_", _AS))
_A.declare("udict_", ("dval_", z3.ArraySort(AKey, z3.DatatypeSort("AU"))))
_A.declare("uset_", ("eval_", z3.ArraySort(AKey, z3.BoolSort())))
_A.declare("uopq_", ("oval_", z3.IntSort()))
AU = _A.create()

DTF = {}
for new in (AU, AKey):
    for i in range(new.num_constructors()):
        c = new.constructor(i)
        DTF[c.name()[:-1]] = c
        for j in range(c.arity()):
            DTF[new.accessor(i, j).name()[:-1]] = new.accessor(i, j)
REC = {}
for new in (AU, AKey):
    for i in range(new.num_constructors()):
        REC[new.constructor(i).name()[:-1]] = new.recognizer(i)


class Giveup(Exception):
    pass


def sort(s):
    if s == z3.StringSort():
        return AStr
    if s == U:
        return AU
    if s == Key:
        return AKey
    if s.kind() == z3.Z3_SEQ_SORT:
        return z3.SeqSort(sort(s.basis()))
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.ArraySort(sort(s.domain()), sort(s.range()))
    if s.kind() in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT):
        return s
    raise Giveup(str(s))


O = z3
KINDS = {
    O.Z3_OP_TRUE: lambda t, a: t, O.Z3_OP_FALSE: lambda t, a: t,
    O.Z3_OP_EQ: lambda t, a: a[0] == a[1], O.Z3_OP_DISTINCT: lambda t, a: z3.Distinct(*a),
    O.Z3_OP_ITE: lambda t, a: z3.If(*a), O.Z3_OP_AND: lambda t, a: z3.And(*a), O.Z3_OP_OR: lambda t, a: z3.Or(*a),
    O.Z3_OP_NOT: lambda t, a: z3.Not(a[0]), O.Z3_OP_IMPLIES: lambda t, a: z3.Implies(*a), O.Z3_OP_XOR: lambda t, a: z3.Xor(*a),
    O.Z3_OP_LE: lambda t, a: a[0] <= a[1], O.Z3_OP_GE: lambda t, a: a[0] >= a[1], O.Z3_OP_LT: lambda t, a: a[0] < a[1], O.Z3_OP_GT: lambda t, a: a[0] > a[1],
    O.Z3_OP_ADD: lambda t, a: z3.Sum(*a), O.Z3_OP_SUB: lambda t, a: a[0] - z3.Sum(*a[1:]), O.Z3_OP_UMINUS: lambda t, a: -a[0],
    O.Z3_OP_MUL: lambda t, a: z3.Product(*a), O.Z3_OP_IDIV: lambda t, a: a[0] / a[1], O.Z3_OP_MOD: lambda t, a: a[0] % a[1],
    O.Z3_OP_SELECT: lambda t, a: z3.Select(*a), O.Z3_OP_STORE: lambda t, a: z3.Store(*a),
    O.Z3_OP_CONST_ARRAY: lambda t, a: z3.K(sort(t.sort().domain()), a[0]),
    O.Z3_OP_SEQ_UNIT: lambda t, a: z3.Unit(a[0]), O.Z3_OP_SEQ_CONCAT: lambda t, a: z3.Concat(*a),
    O.Z3_OP_SEQ_LENGTH: lambda t, a: z3.Length(a[0]), O.Z3_OP_SEQ_EXTRACT: lambda t, a: z3.Extract(*a),
    O.Z3_OP_SEQ_NTH: lambda t, a: a[0][a[1]], O.Z3_OP_SEQ_EMPTY: lambda t, a: z3.Empty(sort(t.sort())),
    O.Z3_OP_SEQ_CONTAINS: lambda t, a: z3.Contains(*a), O.Z3_OP_SEQ_PREFIX: lambda t, a: z3.PrefixOf(*a), O.Z3_OP_SEQ_SUFFIX: lambda t, a: z3.SuffixOf(*a),
}
STRLEN = z3.Function("a!len", AStr, z3.IntSort())
CACHE = {}
LITS = {}


def is_str(t):
    return t.sort() == z3.StringSort()


def tr(t):
    """(weakened term, list of string-length facts)"""
    hit = CACHE.get(t.get_id())
    if hit is not None:
        return hit[1], hit[2]
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x.get_id() in CACHE:
            continue
        if not done:
            stack.append((x, True))
            for c in x.children():
                if c.get_id() not in CACHE:
                    stack.append((c, False))
            continue
        facts = set()
        args = []
        for c in x.children():
            h = CACHE[c.get_id()]
            args.append(h[1])
            facts |= h[2]
        r = build(x, args)
        if r.sort() == AStr:
            if z3.is_string_value(x):
                facts.add(LITFACT[r.get_id()][1])
            else:
                facts.add(keep(STRLEN(r) >= 0))
                if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                    facts.add(keep(STRLEN(r) == z3.Sum(*[STRLEN(a) for a in args])))
        CACHE[x.get_id()] = (x, r, frozenset(facts))
    h = CACHE[t.get_id()]
    return h[1], h[2]


LITFACT = {}
KEEP = {}


class F:
    """hashable fact"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


def keep(t):
    r = KEEP.get(t.get_id())
    if r is None:
        r = KEEP[t.get_id()] = F(t)
    return r


def build(x, args):
    if not z3.is_app(x):
        raise Giveup("binder")
    if z3.is_string_value(x):
        s = x.as_string()
        if s not in LITS:
            LITS[s] = z3.Const("lit!%d" % len(LITS), AStr)
            idx = z3.Function("a!lit", AStr, z3.IntSort())
            n = z3.simplify(z3.Length(x)).as_long()
            LITFACT[LITS[s].get_id()] = (LITS[s], F(z3.And(idx(LITS[s]) == len(LITS), STRLEN(LITS[s]) == n)))
        return LITS[s]
    if z3.is_int_value(x):
        return x
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        if not args:
            return z3.Const(d.name(), sort(x.sort()))
        return z3.Function(d.name(), *[sort(c.sort()) for c in x.children()], sort(x.sort()))(*args)
    if k in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR):
        f = DTF.get(d.name())
        if f is None:
            raise Giveup(d.name())
        return f(*args) if f.arity() else f()
    if k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
        c = d.params()[0] if d.params() else None
        f = REC.get(c.name() if c is not None else "")
        if f is None:
            raise Giveup("is")
        return f(args[0])
    stringy = is_str(x) or any(is_str(c) for c in x.children())
    if stringy and k not in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE, z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
        if k == z3.Z3_OP_SEQ_LENGTH:
            return STRLEN(args[0])
        if any(c.sort().kind() == z3.Z3_RE_SORT for c in x.children()):
            raise Giveup("regex")
        if k == z3.Z3_OP_SEQ_CONCAT and len(args) > 2:
            r = args[-1]
            f = z3.Function("a!concat", AStr, AStr, AStr)
            for a in reversed(args[:-1]):
                r = f(a, r)
            return r
        return z3.Function("a!" + d.name() if k != z3.Z3_OP_SEQ_CONCAT else "a!concat", *[a.sort() for a in args], sort(x.sort()))(*args)
    f = KINDS.get(k)
    if f is None:
        raise Giveup(d.name())
    return f(x, args)


class Mirror:
    """incremental weakened copy of a path's facts"""

    def __init__(self):
        self.s = z3.Solver()
        self.n = 0
        self.seen = set()
        self.skipped = 0

    def push(self, facts):
        for f in facts[self.n:]:
            try:
                self.add(f)
            except (Giveup, z3.Z3Exception):
                self.skipped += 1
        self.n = len(facts)

    def add(self, f):
        r, fs = tr(f)
        self.s.add(r)
        for g in fs:
            if id(g) not in self.seen:
                self.seen.add(id(g))
                self.s.add(g.t)

    def unsat(self, facts, t, rl, ms):
        self.push(facts)
        try:
            r, fs = tr(t)
        except (Giveup, z3.Z3Exception):
            return False
        self.s.set("rlimit", rl)
        self.s.set("timeout", ms)
        self.s.push()
        self.s.add(r)
        for g in fs:
            if id(g) not in self.seen:
                self.s.add(g.t)
        try:
            return self.s.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            self.s.pop()
