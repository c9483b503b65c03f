"""Symbolic values and types."""
import itertools

import z3

StrS = z3.DeclareSort("PyStr")
AnyS = z3.DeclareSort("PyAny")
_dt = z3.Datatype("PyDt")
# kind: 0 arrow.Arrow, 1 aware datetime.datetime, 2 naive datetime.datetime
_dt.declare("mk_dt", ("dt_kind", z3.IntSort()), ("dt_tz", z3.IntSort()),
            ("dt_wall", z3.IntSort()), ("dt_utc", z3.IntSort()))
DtS = _dt.create()
mk_dt, dt_kind, dt_tz, dt_wall, dt_utc = DtS.mk_dt, DtS.dt_kind, DtS.dt_tz, DtS.dt_wall, DtS.dt_utc

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

_counter = itertools.count()


def fresh(name, sort):
    return z3.Const(f"{name}!{next(_counter)}", sort)


def reset_counter():
    global _counter
    _counter = itertools.count()


_strlits = {}


def strlit(s):
    """distinct constant of sort PyStr for every literal"""
    if s not in _strlits:
        _strlits[s] = z3.Const("str_" + repr(s), StrS)
    return _strlits[s]


def strlit_axioms(lits):
    nonempty = z3.Function("str_nonempty", StrS, B)
    ax = []
    if len(lits) > 1:
        ax.append(z3.Distinct(*lits.values()))
    for s, t in lits.items():
        ax.append(nonempty(t) == z3.BoolVal(bool(s)))
    return ax


class SV:
    __slots__ = ()


def _mk(name, *fields):
    def __init__(self, *a, **kw):
        for f, v in zip(fields, a):
            setattr(self, f, v)
        for f in fields[len(a):]:
            setattr(self, f, kw.get(f))

    def __repr__(self):
        return f"{name}({', '.join(repr(getattr(self, f)) for f in fields)})"
    return type(name, (SV,), {"__slots__": fields, "__init__": __init__, "__repr__": __repr__})


NoneV = _mk("NoneV")
NONE = NoneV()
BoolV = _mk("BoolV", "t")
IntV = _mk("IntV", "t")
RealV = _mk("RealV", "t")
StrV = _mk("StrV", "t", "lit")
EnumV = _mk("EnumV", "cls", "t")
RefV = _mk("RefV", "t", "cls", "exact", "nullable")
DtV = _mk("DtV", "t")
DateV = _mk("DateV", "t")            # day number, 0 = 1970-01-01
TimeV = _mk("TimeV", "t")            # microseconds since midnight
DeltaV = _mk("DeltaV", "t")          # timedelta, microseconds
TzV = _mk("TzV", "t", "none")        # tzinfo object; none: Bool term when it may be None
OptV = _mk("OptV", "isnone", "v")
UnionV = _mk("UnionV", "alts")       # [(guard, SV)]
ListV = _mk("ListV", "t", "T")       # heap list (ref term, element type)
LocalListV = _mk("LocalListV", "lid")  # list created here whose element type is not fixed yet
TupleV = _mk("TupleV", "items")
SeqV = _mk("SeqV", "seq")            # immutable / iterator view
DictV = _mk("DictV", "t", "K", "V", "snap")
CDictV = _mk("CDictV", "did")        # dict display with syntactic keys
FuncV = _mk("FuncV", "fn", "env")
BoundV = _mk("BoundV", "fn", "recv")
ClassV = _mk("ClassV", "cls")
ModuleV = _mk("ModuleV", "mod")
ExtV = _mk("ExtV", "name", "data")   # external module / function / object
ExcV = _mk("ExcV", "cls", "args", "data")     # exception instance; cls: Cls or str
SuperV = _mk("SuperV", "cls", "recv")
AnyV = _mk("AnyV", "t")              # opaque user value
ViewV = _mk("ViewV", "kind", "d")    # dict view
GenV = _mk("GenV", "fn", "env", "cls")  # suspended generator call
LambdaV = _mk("LambdaV", "node", "env", "frame")
SpecFnV = _mk("SpecFnV", "name", "data")


def is_num(v):
    return isinstance(v, (IntV, RealV, BoolV))


# ------------------------------------------------------------------ types
class T:
    sorts = ()

    def key(self):
        return repr(self)


class TInt(T):
    sorts = (I,)

    def __repr__(self):
        return "Int"

    def unpack(self, ts, x):
        return IntV(ts[0])

    def pack(self, v):
        if isinstance(v, IntV):
            return (v.t,)
        if isinstance(v, BoolV):
            return (z3.If(v.t, z3.IntVal(1), z3.IntVal(0)),)


class TReal(T):
    sorts = (R,)

    def __repr__(self):
        return "Real"

    def unpack(self, ts, x):
        return RealV(ts[0])

    def pack(self, v):
        if isinstance(v, RealV):
            return (v.t,)
        if isinstance(v, IntV):
            return (z3.ToReal(v.t),)
        if isinstance(v, BoolV):
            return (z3.If(v.t, z3.RealVal(1), z3.RealVal(0)),)


class TBool(T):
    sorts = (B,)

    def __repr__(self):
        return "Bool"

    def unpack(self, ts, x):
        return BoolV(ts[0])

    def pack(self, v):
        if isinstance(v, BoolV):
            return (v.t,)


class TStr(T):
    sorts = (StrS,)

    def __repr__(self):
        return "Str"

    def unpack(self, ts, x):
        return StrV(ts[0], None)

    def pack(self, v):
        if isinstance(v, StrV):
            return (v.t,)


class TAny(T):
    sorts = (AnyS,)

    def __repr__(self):
        return "Any"

    def unpack(self, ts, x):
        return AnyV(ts[0])

    def pack(self, v):
        if isinstance(v, AnyV):
            return (v.t,)
        # anything else stored in an opaque slot: injective-agnostic opaque token
        return (fresh("any", AnyS),)


class TDt(T):
    sorts = (DtS,)

    def __repr__(self):
        return "Dt"

    def unpack(self, ts, x):
        return DtV(ts[0])

    def pack(self, v):
        if isinstance(v, DtV):
            return (v.t,)


class TDate(T):
    sorts = (I,)

    def __repr__(self):
        return "Date"

    def unpack(self, ts, x):
        return DateV(ts[0])

    def pack(self, v):
        if isinstance(v, DateV):
            return (v.t,)


class TTime(T):
    sorts = (I,)

    def __repr__(self):
        return "Time"

    def unpack(self, ts, x):
        return TimeV(ts[0])

    def pack(self, v):
        if isinstance(v, TimeV):
            return (v.t,)


class TEnum(T):
    sorts = (I,)

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return f"Enum:{self.cls.name}"

    def unpack(self, ts, x):
        return EnumV(self.cls, ts[0])

    def pack(self, v):
        if isinstance(v, EnumV) and v.cls is self.cls:
            return (v.t,)


class TRef(T):
    sorts = (I,)

    def __init__(self, cls, nullable=False):
        self.cls, self.nullable = cls, nullable

    def __repr__(self):
        return self.cls.name + ("?" if self.nullable else "")

    def unpack(self, ts, x):
        return RefV(ts[0], self.cls, False, self.nullable)

    def pack(self, v):
        if isinstance(v, RefV):
            return (v.t,)
        if isinstance(v, NoneV):
            return (z3.IntVal(0),)


class TOpt(T):
    def __init__(self, t):
        self.t = t
        self.sorts = (B,) + tuple(t.sorts)

    def __repr__(self):
        return f"Opt[{self.t!r}]"

    def unpack(self, ts, x):
        return OptV(ts[0], self.t.unpack(ts[1:], x))

    def pack(self, v):
        if isinstance(v, NoneV):
            return (z3.BoolVal(True),) + tuple(default_term(s) for s in self.t.sorts)
        if isinstance(v, OptV):
            p = self.t.pack(v.v)
            return None if p is None else (v.isnone,) + tuple(p)
        p = self.t.pack(v)
        return None if p is None else (z3.BoolVal(False),) + tuple(p)


class TList(T):
    sorts = (I,)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"List[{self.t!r}]"

    def unpack(self, ts, x):
        return ListV(ts[0], self.t)

    def pack(self, v):
        if isinstance(v, ListV) and v.T.key() == self.t.key():
            return (v.t,)


class TDict(T):
    sorts = (I,)

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return f"Dict[{self.k!r},{self.v!r}]"

    def unpack(self, ts, x):
        return DictV(ts[0], self.k, self.v)

    def pack(self, v):
        if isinstance(v, DictV) and v.K.key() == self.k.key() and v.V.key() == self.v.key():
            return (v.t,)


def default_term(s):
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    return z3.Const(f"dflt_{s}", s)


def _split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "[":
            d += 1
        if ch == "]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]


def parse_type(s, prog):
    s = s.strip()
    prim = {"Int": TInt, "Real": TReal, "Bool": TBool, "Str": TStr, "Any": TAny, "Dt": TDt,
            "Date": TDate, "Time": TTime}
    if s in prim:
        return prim[s]()
    if s.startswith("Opt["):
        return TOpt(parse_type(s[4:-1], prog))
    if s.startswith("List["):
        return TList(parse_type(s[5:-1], prog))
    if s.startswith("Dict["):
        k, v = _split(s[5:-1])
        return TDict(parse_type(k, prog), parse_type(v, prog))
    if s.startswith("Enum:"):
        return TEnum(prog.cls(s[5:]))
    if s.endswith("?"):
        return TRef(prog.cls(s[:-1]), True)
    return TRef(prog.cls(s), False)
