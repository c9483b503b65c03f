"""Meaning of builtins and of the external libraries the code under verification calls.

Everything here is an assumption about CPython, arrow, pytz, threading, os and csv; each use
is recorded in eng.ext_used and reported as trusted base.
"""
import ast
import calendar
import datetime as _dtm
from fractions import Fraction

import z3

from .engine import *  # noqa
from .engine import Event, Segment, PyExc, Unsupported, Infeasible, to_real, to_int, mk_exists, has_quant, simp
from .folds import free_consts
from .terms import forall1, exists1
from .seqs import *  # noqa
from .values import *  # noqa

DAY = 86400000000

BUILTINS = {
    "len", "abs", "min", "max", "sum", "round", "int", "float", "str", "bool", "isinstance", "hasattr",
    "getattr", "setattr", "list", "tuple", "dict", "range", "reversed", "enumerate", "zip", "any", "all",
    "type", "print", "iter", "next", "callable", "object", "set", "property", "map", "filter", "repr",
    "sorted", "id", "issubclass", "frozenset", "open", "divmod", "super", "slice", "staticmethod",
    "classmethod", "NotImplemented", "vars",
}
SPEC_BUILTINS = {"implies", "iff", "fresh", "emit", "alive", "kind_of", "utc", "wall", "grid", "grid_floor", "tzid", "tz_of",
                 "is_aware", "is_instance", "same_obj", "exact_class", "mstart", "month_index", "wall_at",
                 "has_index", "dict_pos", "others_kept", "dict_same", "known_tz", "earlier", "forall_int", "exists_int", "prefix_until", "fn_name",
                 "events_named", "round2", "first_exit", "ite", "day_of", "nonempty", "unchanged"}
AGGREGATES = {"builtins.sum", "builtins.all", "builtins.any", "builtins.min", "builtins.max", "builtins.list",
              "builtins.tuple"}


def use(eng, what):
    eng.ext_used.add(what)


# ------------------------------------------------------------------ logging
def is_logging_call(eng, e, fid):
    f = e.func
    if not isinstance(f, ast.Attribute) or not isinstance(f.value, ast.Name):
        return False
    if f.value.id in ("logging",):
        mod = eng.st.frames[fid]["$mod"]
        g = mod.globals.get("logging")
        return bool(g) and g[0] == "import" and f.attr != "getLogger"
    mod = eng.st.frames[fid]["$mod"]
    g = mod.globals.get(f.value.id)
    if g is None or g[0] != "expr":
        return False
    x = g[1]
    if isinstance(x, tuple):
        x = x[-1]
    return isinstance(x, ast.Call) and "getLogger" in ast.dump(x.func)


# ------------------------------------------------------------------ rounding
def half_even(fr):
    fl = fr.numerator // fr.denominator
    d = fr - fl
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and fl % 2):
        return fl + 1
    return fl


def rk(eng, t):
    t = simp(t)
    if z3.is_rational_value(t):
        return z3.IntVal(half_even(Fraction(t.numerator_as_long(), t.denominator_as_long())))
    return eng.uf("rk", R, I)(t)


def py_round(eng, v, nd, node):
    v = eng.force(v, node)
    if isinstance(v, BoolV):
        v = IntV(to_int(v))
    if nd is None or isinstance(nd, NoneV):
        if isinstance(v, IntV):
            return v
        if isinstance(v, RealV):
            return IntV(rk(eng, v.t))
        raise PyExc("TypeError", (), node)
    nd = eng.force(nd)
    n = simp(to_int(nd))
    if not z3.is_int_value(n):
        eng.err("round with symbolic digits", node)
    n = n.as_long()
    if isinstance(v, IntV):
        if n >= 0:
            return v
        eng.err("round of int to negative digits", node)
    if isinstance(v, RealV):
        use(eng, "round(float, n): decimal half-even rounding of the mathematical value")
        p = Fraction(10) ** n
        ps = z3.RealVal(f"{p.numerator}/{p.denominator}")
        r = rk(eng, v.t * ps)
        if z3.is_int_value(r):
            q = Fraction(r.as_long()) / p
            return RealV(z3.RealVal(f"{q.numerator}/{q.denominator}"))
        return RealV(z3.ToReal(r) / ps)
    if isinstance(v, (NoneV, StrV, AnyV, RefV)):
        raise PyExc("TypeError", (), node)
    eng.err("round", node)


# ------------------------------------------------------------------ dates
def dt_parts(w):
    return simp(w / DAY), simp(w % DAY)


def wallof(eng):
    return eng.uf("wall_of", I, I, I)      # (tz, utc) -> wall clock


def utcof(eng):
    return eng.uf("utc_of", I, I, I)       # (tz, wall) -> utc


def tz_id(eng, s):
    """identity of the tzinfo object arrow uses for a timezone name"""
    if s.lit is not None and s.lit.upper() == "UTC":
        return z3.IntVal(0)
    t = eng.uf("tz_named", StrS, I)(s.t)
    return t


def mk_wall(eng, dt, wall):
    """same tzinfo, other wall clock"""
    wall = simp(wall)
    tz = simp(dt_tz(dt))
    k = simp(dt_kind(dt))
    utc = z3.If(tz == 0, wall, utcof(eng)(tz, wall))
    return DtV(simp(mk_dt(k, tz, wall, utc)))


def month_idx(eng, day):
    """12*year + month - 1 of a day number"""
    return eng.uf("month_of", I, I)(day)


def mstart(eng, mi):
    """day number of the first day of a month index"""
    return eng.uf("mstart", I, I)(simp(mi))


def const_dt(y, mo, d, h=0, mi=0, s=0, us=0):
    days = _dtm.date(y, mo, d).toordinal() - _dtm.date(1970, 1, 1).toordinal()
    return days * DAY + ((h * 60 + mi) * 60 + s) * 1000000 + us


def dt_attr(eng, v, name, node):
    t = v.t
    w = simp(dt_wall(t))
    day, tod = dt_parts(w)
    if name == "tzinfo":
        return TzV(simp(dt_tz(t)), simp(dt_kind(t) == 2))
    if name == "hour":
        return IntV(simp(tod / 3600000000))
    if name == "minute":
        return IntV(simp(tod / 60000000 % 60))
    if name == "second":
        return IntV(simp(tod / 1000000 % 60))
    if name == "microsecond":
        return IntV(simp(tod % 1000000))
    if name == "year":
        return IntV(simp(month_idx(eng, day) / 12))
    if name == "month":
        return IntV(simp(month_idx(eng, day) % 12 + 1))
    if name == "day":
        return IntV(simp(day - mstart(eng, month_idx(eng, day)) + 1))
    if name in ("datetime",):
        return DtV(simp(mk_dt(z3.If(dt_kind(t) == 0, z3.IntVal(1), dt_kind(t)), dt_tz(t), dt_wall(t), dt_utc(t))))
    return ExtV("dt." + name, v)


def delta_of(eng, kw, node):
    unit = {"days": DAY, "hours": 3600000000, "minutes": 60000000, "seconds": 1000000, "milliseconds": 1000,
            "microseconds": 1, "weeks": 7 * DAY}
    t = z3.IntVal(0)
    for k, v in kw.items():
        if k not in unit:
            raise PyExc("TypeError", (k,), node)
        v = eng.force(v, node)
        if isinstance(v, (NoneV, StrV, AnyV)):
            raise PyExc("TypeError", (), node)
        if not isinstance(v, (IntV, BoolV)):
            eng.err("timedelta of a float", node)
        t = t + unit[k] * to_int(v)
    return simp(t)


def dt_shift(eng, v, kw, node):
    use(eng, "arrow shift/replace/minus timedelta: wall-clock arithmetic in the same timezone")
    t = v.t
    w = dt_wall(t)
    months = z3.IntVal(0)
    flat = {}
    for k, x in kw.items():
        x = eng.force(x, node)
        if not isinstance(x, (IntV, BoolV)):
            raise PyExc("TypeError", (), node)
        if k in ("months", "years", "quarters"):
            months = months + {"months": 1, "years": 12, "quarters": 3}[k] * to_int(x)
        elif k == "weekday":
            eng.err("shift to weekday", node)
        else:
            flat[k] = x
    months = simp(months)
    if not (z3.is_int_value(months) and months.as_long() == 0):
        day, tod = dt_parts(w)
        mi = month_idx(eng, day)
        dom = simp(day - mstart(eng, mi))
        ln = mstart(eng, mi + months + 1) - mstart(eng, mi + months)
        day2 = mstart(eng, mi + months) + z3.If(dom < ln, dom, ln - 1)
        w = day2 * DAY + tod
    if flat:
        w = w + delta_of(eng, flat, node)
    return mk_wall(eng, t, w)


def dt_replace(eng, v, kw, node):
    use(eng, "arrow shift/replace/minus timedelta: wall-clock arithmetic in the same timezone")
    day, tod = dt_parts(dt_wall(v.t))
    mi = month_idx(eng, day)
    cur = {"year": mi / 12, "month": mi % 12 + 1, "day": day - mstart(eng, mi) + 1, "hour": tod / 3600000000,
           "minute": tod / 60000000 % 60, "second": tod / 1000000 % 60, "microsecond": tod % 1000000}
    for k, x in kw.items():
        if k not in cur:
            eng.err("replace of " + k, node)
        x = eng.force(x, node)
        if not isinstance(x, (IntV, BoolV)):
            raise PyExc("TypeError", (), node)
        cur[k] = to_int(x)
    mi2 = simp(12 * cur["year"] + cur["month"] - 1)
    bad = [z3.Or(cur["month"] < 1, cur["month"] > 12)] if "month" in kw else []
    if "day" in kw or "month" in kw or "year" in kw:
        ln = mstart(eng, mi2 + 1) - mstart(eng, mi2)
        bad.append(z3.Or(cur["day"] < 1, cur["day"] > ln))
    for k, hi in (("hour", 23), ("minute", 59), ("second", 59), ("microsecond", 999999)):
        if k in kw:
            bad.append(z3.Or(cur[k] < 0, cur[k] > hi))
    if bad:
        b = simp(z3.Or(*bad))
        if not z3.is_false(b) and eng.branch(b):
            raise PyExc("ValueError", (), node)
    keep_date = not ({"day", "month", "year"} & set(kw))
    d2 = day if keep_date else mstart(eng, mi2) + cur["day"] - 1
    t2 = ((cur["hour"] * 60 + cur["minute"]) * 60 + cur["second"]) * 1000000 + cur["microsecond"]
    return mk_wall(eng, v.t, d2 * DAY + t2)


def dt_floor(eng, v, unit, node):
    kws = {"day": ("hour", "minute", "second", "microsecond"), "hour": ("minute", "second", "microsecond"),
           "minute": ("second", "microsecond"), "second": ("microsecond",),
           "month": ("day", "hour", "minute", "second", "microsecond"),
           "year": ("month", "day", "hour", "minute", "second", "microsecond")}
    if unit == "week":
        d = dt_floor(eng, v, "day", node)
        day, _ = dt_parts(dt_wall(d.t))
        return mk_wall(eng, v.t, dt_wall(d.t) - (day + 3) % 7 * DAY)
    if unit not in kws:
        eng.err("floor " + str(unit), node)
    return dt_replace(eng, v, {k: IntV(z3.IntVal(1 if k in ("day", "month") else 0)) for k in kws[unit]}, node)


def dt_method(eng, v, name, args, kwargs, node):
    t = v.t
    day, tod = dt_parts(dt_wall(t))
    if name == "weekday":
        return IntV(simp((day + 3) % 7))
    if name == "isoweekday":
        return IntV(simp((day + 3) % 7 + 1))
    if name == "date":
        return DateV(day)
    if name in ("time",):
        return TimeV(tod)
    if name in ("to", "astimezone"):
        use(eng, "arrow.to: same instant, wall clock of the target timezone")
        z = eng.force(args[0] if args else kwargs.get("tz"), node)
        if isinstance(z, StrV):
            tz = tz_id(eng, z)
        elif isinstance(z, TzV):
            tz = z.t
        else:
            eng.err("to(tz)", node)
        u = dt_utc(t)
        wl = u if z3.is_int_value(simp(tz)) and simp(tz).as_long() == 0 else z3.If(tz == 0, u, wallof(eng)(tz, u))
        return DtV(simp(mk_dt(dt_kind(t), tz, wl, u)))
    if name == "shift":
        return dt_shift(eng, v, kwargs, node)
    if name == "replace":
        return dt_replace(eng, v, kwargs, node)
    if name in ("floor",):
        u = eng.force(args[0])
        return dt_floor(eng, v, u.lit, node)
    if name in ("format", "strftime", "isoformat", "__str__", "for_json", "humanize"):
        a = [eng.str_of(eng.force(x)) for x in args]
        return StrV(eng.uf("dt_" + name + str(len(a)), *([DtS] + [StrS] * len(a) + [StrS]))(t, *a), None)
    if name in ("timestamp", "float_timestamp"):
        return RealV(z3.ToReal(dt_utc(t)) / 1000000)
    if name == "clone":
        return v
    if name == "dst":
        return DeltaV(eng.uf("dst_of", I, I, I)(dt_tz(t), dt_wall(t)))
    if name == "utcoffset":
        return DeltaV(simp(dt_wall(t) - dt_utc(t)))
    eng.err("datetime method " + name, node)


def dt_binop(eng, op, a, b, node):
    if isinstance(a, DtV) and isinstance(b, DeltaV) and op in ("Add", "Sub"):
        use(eng, "arrow shift/replace/minus timedelta: wall-clock arithmetic in the same timezone")
        return mk_wall(eng, a.t, dt_wall(a.t) + b.t if op == "Add" else dt_wall(a.t) - b.t)
    if isinstance(a, DeltaV) and isinstance(b, DtV) and op == "Add":
        return dt_binop(eng, op, b, a, node)
    if isinstance(a, DtV) and isinstance(b, DtV) and op == "Sub":
        return DeltaV(z3.If(dt_tz(a.t) == dt_tz(b.t), dt_wall(a.t) - dt_wall(b.t), dt_utc(a.t) - dt_utc(b.t)))
    if isinstance(a, DeltaV) and isinstance(b, DeltaV) and op in ("Add", "Sub"):
        return DeltaV(simp(a.t + b.t if op == "Add" else a.t - b.t))
    if isinstance(a, DeltaV) and isinstance(b, IntV) and op == "Mult":
        return DeltaV(eng.mul(a.t, b.t))
    if isinstance(b, DeltaV) and isinstance(a, IntV) and op == "Mult":
        return DeltaV(eng.mul(a.t, b.t))
    if isinstance(a, DateV) and isinstance(b, DeltaV) and op in ("Add", "Sub"):
        return DateV(simp(a.t + b.t / DAY if op == "Add" else a.t - b.t / DAY))
    return None


# ------------------------------------------------------------------ quantified bodies
def quantified(eng, seq, fn, kind):
    """all/any of fn(element) over seq -> z3 Bool"""
    n = seq.conc()
    if n is not None and n <= 24:
        ts = [fn(seq.get(z3.IntVal(i))) for i in range(n)]
        if kind == "all":
            return simp(z3.And(*ts)) if ts else z3.BoolVal(True)
        return simp(z3.Or(*ts)) if ts else z3.BoolVal(False)
    if isinstance(seq, CatSeq):
        a, b = quantified(eng, seq.a, fn, kind), quantified(eng, seq.b, fn, kind)
        return z3.And(a, b) if kind == "all" else z3.Or(a, b)
    if isinstance(seq, RevSeq):
        return quantified(eng, seq.s, fn, kind)
    if isinstance(seq, FiltSeq) and seq._idx is None:
        def get(k):
            c = seq.cond(k)
            return c, seq.f(k)
        bn = seq.base_n
    else:
        def get(k):
            return None, seq.get(k)
        bn = seq.n
    shift = z3.IntVal(0)
    if isinstance(seq, SliceSeq):
        # quantify over the underlying index for better instantiation
        shift, inner = seq.lo, seq.s
        if not isinstance(inner, (FiltSeq, CatSeq)):
            def get(k, inner=inner):
                return None, inner.get(k)
    elif isinstance(seq, ArrSeq) and not (z3.is_int_value(simp(seq.base)) and simp(seq.base).as_long() == 0):
        pass
    k = eng.new_generic("q")
    rng = z3.And(shift <= k, k < simp(shift + bn))

    def body():
        c, x = get(k)
        if c is not None:
            if kind == "all":
                if not eng.branch(c):
                    return BoolV(z3.BoolVal(True))
            else:
                if not eng.branch(c):
                    return BoolV(z3.BoolVal(False))
        return BoolV(fn(x))

    def spec_body():
        # in a specification, an element whose truth cannot be evaluated does not satisfy it
        try:
            return body()
        except PyExc:
            return BoolV(z3.BoolVal(False))
    return quant(eng, k, rng, spec_body if eng.spec else body, kind)


def quant(eng, k, rng, body, kind):
    st0 = eng.st
    ctr0 = st0.ctr
    eng.st = st0.copy()
    eng.assume(rng)
    n0 = len(eng.st.hyps)
    try:
        t = eng.pure(lambda: body()).t
        facts = [f for f, b in eng.st.hyps[n0:] if b is not None]
        ctr = eng.st.ctr
        br = [f for f, b in eng.st.hyps[n0:] if b]
    except Infeasible:
        return z3.BoolVal(kind == "all")
    finally:
        cur = eng.st
        eng.st = st0
    eng.st.ctr = max(eng.st.ctr, ctr)
    from .loops import skolemise_locals
    pairs = skolemise_locals(eng, ctr0, k, [t] + facts)
    if pairs:
        t = z3.substitute(t, *pairs)
        facts = [z3.substitute(f, *pairs) for f in facts]
    kn = k.decl().name()
    inner = []
    for f in facts:
        if kn in free_consts(f):
            inner.append(f)
        else:
            # facts that do not depend on the index hold whenever the range is not empty
            if not any(f.eq(h) for h, _ in eng.st.hyps[-200:]):
                inner.append(f)
    if inner:
        eng.add_qfacts(k, rng, inner)
    t = simp(t)
    if z3.is_true(t):
        return z3.BoolVal(True) if kind == "all" else mk_exists(k, rng)
    if z3.is_false(t):
        return z3.Not(mk_exists(k, rng)) if kind == "all" else z3.BoolVal(False)
    return forall1(k, z3.Implies(rng, t)) if kind == "all" else mk_exists(k, z3.And(rng, t))


# ------------------------------------------------------------------ aggregates
def seq_sum(eng, s, node):
    n = s.conc()
    if n is not None and not isinstance(s, FiltSeq):
        v = IntV(z3.IntVal(0))
        for i in range(n):
            v = eng.binop("Add", v, s.get(z3.IntVal(i)), node)
        return v
    if isinstance(s, CatSeq):
        return eng.binop("Add", seq_sum(eng, s.a, node), seq_sum(eng, s.b, node), node)
    if isinstance(s, RevSeq):
        return seq_sum(eng, s.s, node)
    k = eng.new_generic("sk")
    base_n = s.base_n if isinstance(s, FiltSeq) else s.n
    out = {}

    def body():
        if isinstance(s, FiltSeq):
            if not eng.branch(s.cond(k)):
                return RealV(z3.RealVal(0)) if out.get("real") else IntV(z3.IntVal(0))
            x = eng.force(s.f(k))
        else:
            x = eng.force(s.get(k))
        if isinstance(x, RealV):
            out["real"] = True
        elif not isinstance(x, (IntV, BoolV)):
            raise PyExc("TypeError", (), node)
        return x
    st0 = eng.st
    ctr0 = st0.ctr
    eng.st = st0.copy()
    eng.assume(z3.And(0 <= k, k < base_n))
    n0 = len(eng.st.hyps)
    try:
        v = eng.pure(body)
        v = eng.force(v)
        facts = [f for f, b in eng.st.hyps[n0:] if b is not None]
        ctr = eng.st.ctr
    except Infeasible:
        return IntV(z3.IntVal(0))
    finally:
        eng.st = st0
    eng.st.ctr = max(eng.st.ctr, ctr)
    t = to_real(v) if isinstance(v, RealV) else to_int(v)
    from .loops import skolemise_locals
    pairs = skolemise_locals(eng, ctr0, k, [t] + facts)
    if pairs:
        t = z3.substitute(t, *pairs)
        facts = [z3.substitute(f, *pairs) for f in facts]
    inner = [f for f in facts if k.decl().name() in free_consts(f)]
    if inner:
        eng.add_qfacts(k, z3.And(0 <= k, k < base_n), inner)
    F = eng.folds.fold(base_n, k, t)
    return RealV(F) if t.sort() == R else IntV(F)


def seq_minmax(eng, s, which, node, kw):
    n = s.conc()
    key = kw.get("key")
    if n is not None and not isinstance(s, FiltSeq):
        if n == 0:
            if "default" in kw:
                return kw["default"]
            raise PyExc("ValueError", (), node)
        items = [s.get(z3.IntVal(i)) for i in range(n)]
        return minmax(eng, items, which, node, key)
    if key is not None:
        eng.err("max/min with key over an unbounded sequence", node)
    if eng.branch(s.n <= 0):
        if "default" in kw:
            return kw["default"]
        raise PyExc("ValueError", (), node)
    x0 = eng.force(s.get(z3.IntVal(0)), node)
    m = eng.fresh("mm", R if isinstance(x0, RealV) else I)
    w = (lambda x: RealV(x)) if isinstance(x0, RealV) else (lambda x: IntV(x))
    op = ">=" if which == "max" else "<="
    eng.assume(quantified(eng, s, lambda x: eng.less(w(m), x, op), "all"))
    eng.assume(quantified(eng, s, lambda x: eng.eq(w(m), x), "any"))
    return w(m)


def minmax(eng, items, which, node, key=None):
    def th():
        best = items[0]
        bk = eng.call(key, [best], {}, node) if key is not None else best
        for x in items[1:]:
            xk = eng.call(key, [x], {}, node) if key is not None else x
            a, b = eng.force(xk, node), eng.force(bk, node)
            if is_num(a) and is_num(b) and key is None:
                c = eng.less(a, b, ">" if which == "max" else "<", node)
                best = bk = eng.merge_values([(c, a), (z3.Not(c), b)])
                if isinstance(best, UnionV):
                    best = bk = eng.force(best)
                continue
            if eng.branch(eng.less(a, b, ">" if which == "max" else "<", node)):
                best, bk = x, xk
        return best
    return eng.pure(th)


def aggregate(eng, name, comp, fid, rest, kw, node):
    from . import loops
    nm = name.split(".")[1]
    if nm in ("all", "any") and len(comp.generators) >= 1:
        g = comp.generators[0]
        it = eng.force(eng.ev(g.iter, fid), node)
        if not isinstance(it, GenV):
            seq = eng.iter_seq(it, node)

            def fn(x):
                cf = loops.comp_frame(eng, comp, fid)
                eng.assign(g.target, x, cf)
                for c in g.ifs:
                    t = eng.truth(eng.ev(c, cf), c)
                    if not eng.branch(t):
                        return z3.BoolVal(nm == "all")
                if len(comp.generators) > 1:
                    sub = ast.GeneratorExp(elt=comp.elt, generators=comp.generators[1:])
                    ast.copy_location(sub, comp)
                    return eng.truth(aggregate(eng, name, sub, cf, rest, kw, node))
                return eng.truth(eng.ev(comp.elt, cf), comp.elt)

            def fn2(x):
                return eng.pure(lambda: BoolV(fn(x))).t
            return BoolV(quantified(eng, seq, fn2, nm))
    if isinstance(comp, ast.GeneratorExp):
        v = loops.gen_exp(eng, comp, fid)
    else:
        v = loops.list_comp(eng, comp, fid)
    return call_builtin(eng, nm, [v] + rest, kw, node)


# ------------------------------------------------------------------ attributes of non-objects
def getattr_ext(eng, v, name, node):
    if isinstance(v, NoneV):
        raise PyExc("AttributeError", (name,), node)
    if isinstance(v, DtV):
        return dt_attr(eng, v, name, node)
    if isinstance(v, DateV):
        if name in ("weekday", "isoweekday"):
            return ExtV("date." + name, v)
        if name == "year":
            return IntV(simp(month_idx(eng, v.t) / 12))
        if name == "month":
            return IntV(simp(month_idx(eng, v.t) % 12 + 1))
        if name == "day":
            return IntV(simp(v.t - mstart(eng, month_idx(eng, v.t)) + 1))
    if isinstance(v, TimeV):
        if name == "hour":
            return IntV(simp(v.t / 3600000000))
        if name == "minute":
            return IntV(simp(v.t / 60000000 % 60))
        if name == "second":
            return IntV(simp(v.t / 1000000 % 60))
        if name == "microsecond":
            return IntV(simp(v.t % 1000000))
    if isinstance(v, DeltaV):
        if name == "days":
            return IntV(simp(v.t / DAY))
        return ExtV("delta." + name, v)
    if isinstance(v, EnumV):
        if name == "name":
            r = [(v.t == i, eng.lit(nm)) for i, (nm, _) in enumerate(v.cls.enum_members)]
            t = simp(v.t)
            if z3.is_int_value(t):
                return r[t.as_long()][1]
            return UnionV([(simp(c), s) for c, s in r])
        if name == "value":
            r = [(v.t == i, eng.eval_global_expr(v.cls.module, e)) for i, (nm, e) in enumerate(v.cls.enum_members)]
            return eng.merge_values(r)
        l = v.cls.lookup(name)
        if l is not None and l[0] == "prop":
            return eng.call_func(l[2]["get"], v, [], {}, node)
        if l is not None and l[0] == "method":
            return BoundV(l[2], v)
    if isinstance(v, ClassV):
        c = v.cls
        if c.is_enum:
            for i, (nm, _) in enumerate(c.enum_members):
                if nm == name:
                    return EnumV(c, z3.IntVal(i))
        if name == "__name__":
            return eng.lit(c.name)
        l = c.lookup(name)
        if l is None:
            raise PyExc("AttributeError", (name,), node)
        kind, owner, obj = l
        if kind == "method":
            if obj.kind == "classmethod":
                return BoundV(obj, v)
            return FuncV(obj, None)
        if kind == "prop":
            return ExtV("property", obj)
        return eng.eval_global_expr(owner.module, obj)
    if isinstance(v, ModuleV):
        r = eng.prog.resolve_global(v.mod, name)
        if r is None:
            q = v.mod.name + "." + name
            if q in eng.prog.modules:
                return ModuleV(eng.prog.modules[q])
            raise PyExc("AttributeError", (name,), node)
        return eng.from_global(r)
    if isinstance(v, SuperV):
        recv = v.recv
        mro = recv.cls.mro() if isinstance(recv, RefV) else v.recv.cls.mro()
        i = mro.index(v.cls) if v.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.props:
                return eng.call_prop(c.props[name]["get"], recv, node)
            if name in c.methods:
                f = c.methods[name]
                if f.kind == "staticmethod":
                    return FuncV(f, None)
                return BoundV(f, recv)
        if name == "__init__":
            return ExtV("noop", None)
        raise PyExc("AttributeError", (name,), node)
    if isinstance(v, ExtV) and v.name == "property":
        if name in ("fget", "fset"):
            f = v.data.get({"fget": "get", "fset": "set"}[name])
            return FuncV(f, None) if f else NONE
    if isinstance(v, (ListV, LocalListV, DictV, CDictV, StrV, TupleV, SeqV, ViewV, GenV)):
        return ExtV("m." + name, v)
    if isinstance(v, ExtV):
        if v.name + "." + name in ("datetime.timezone.utc", "pytz.utc", "pytz.UTC"):
            return TzV(z3.IntVal(0), z3.BoolVal(False))
        if v.data is None:
            return ext_module_attr(eng, v, name, node)
        return ExtV(v.name + "." + name, v.data)
    if isinstance(v, AnyV):
        raise PyExc("AttributeError", (name,), node)
    if isinstance(v, (IntV, RealV, BoolV)):
        return ExtV("num." + name, v)
    if isinstance(v, ExcV):
        if name == "args":
            return TupleV(v.args)
        return StrV(eng.fresh("exc", StrS), None)
    if isinstance(v, (FuncV, BoundV)):
        if name == "__name__":
            return eng.lit(v.fn.name)
        if name == "__self__" and isinstance(v, BoundV):
            return v.recv
        raise PyExc("AttributeError", (name,), node)
    if isinstance(v, TzV):
        return ExtV("tz." + name, v)
    eng.err(f"attribute {name} of {v}", node)


def ext_module_attr(eng, v, name, node):
    return ExtV(v.name + "." + name, None)


def norm_ext(name):
    return name


# ------------------------------------------------------------------ isinstance
def isinst(eng, v, c, node):
    """-> z3 Bool"""
    if isinstance(v, UnionV):
        return z3.Or(*[z3.And(g, isinst(eng, w, c, node)) for g, w in v.alts])
    if isinstance(v, OptV):
        return z3.If(v.isnone, isinst(eng, NONE, c, node), isinst(eng, v.v, c, node))
    if isinstance(c, TupleV):
        return z3.Or(*[isinst(eng, v, x, node) for x in c.items])
    if isinstance(c, ClassV):
        if isinstance(v, RefV):
            if v.cls.is_sub(c.cls):
                return v.t != 0 if v.nullable else z3.BoolVal(True)
            if v.exact:
                return z3.BoolVal(False)
            subs = [x for x in eng.subclasses(v.cls) if x.is_sub(c.cls)]
            if not subs:
                return z3.BoolVal(False)
            return z3.And(v.t != 0, z3.Or(*[eng.clsof(v.t) == eng.class_ids[x] for x in subs]))
        if isinstance(v, EnumV):
            return z3.BoolVal(v.cls is c.cls)
        if isinstance(v, ExcV):
            return z3.BoolVal(exc_matches(v.cls, c.cls))
        return z3.BoolVal(False)
    if isinstance(c, ExtV):
        n = c.name.split(".", 1)[1] if c.name.startswith("builtins.") else c.name
        if n in ("numbers.Number", "numbers.Real"):
            return z3.BoolVal(is_num(v))
        if n == "int" or n == "numbers.Integral":
            return z3.BoolVal(isinstance(v, (IntV, BoolV)))
        if n == "float":
            return z3.BoolVal(isinstance(v, RealV))
        if n == "bool":
            return z3.BoolVal(isinstance(v, BoolV))
        if n == "str":
            return z3.BoolVal(isinstance(v, StrV))
        if n in ("list",):
            return z3.BoolVal(isinstance(v, (ListV, LocalListV)))
        if n == "dict":
            return z3.BoolVal(isinstance(v, (DictV, CDictV)))
        if n == "tuple":
            return z3.BoolVal(isinstance(v, TupleV))
        if n == "datetime.datetime":
            if isinstance(v, DtV):
                return simp(z3.Or(dt_kind(v.t) == 1, dt_kind(v.t) == 2))
            return z3.BoolVal(False)
        if n in ("arrow.Arrow", "arrow.arrow.Arrow"):
            if isinstance(v, DtV):
                return simp(dt_kind(v.t) == 0)
            return z3.BoolVal(False)
        if n == "datetime.date":
            if isinstance(v, DtV):
                return simp(dt_kind(v.t) != 0)
            return z3.BoolVal(isinstance(v, DateV))
        if n == "datetime.time":
            return z3.BoolVal(isinstance(v, TimeV))
        if n == "datetime.tzinfo":
            return z3.BoolVal(isinstance(v, TzV))
        if n == "object":
            return z3.BoolVal(True)
        if n in ("typing.Generator", "collections.abc.Generator", "types.GeneratorType"):
            return z3.BoolVal(isinstance(v, (GenV, SeqV)))
    eng.err(f"isinstance({v}, {c})", node)


def has_attr(eng, v, name, node):
    v = eng.force(v, node)
    if isinstance(v, RefV):
        if v.cls.lookup(name):
            return z3.BoolVal(True)
        if eng.field_info(v.cls, name)[0] is not None:
            return z3.BoolVal(True)
        subs = [c for c in eng.subclasses(v.cls) if c.lookup(name) or eng.field_info(c, name)[0] is not None]
        if subs and not v.exact:
            return z3.Or(*[eng.clsof(v.t) == eng.class_ids[c] for c in subs])
        return z3.BoolVal(False)
    if isinstance(v, DtV):
        return z3.BoolVal(name in ("tzinfo", "date", "time", "hour", "minute", "second", "weekday", "astimezone",
                                   "year", "month", "day", "microsecond", "replace", "utcoffset", "strftime",
                                   "timestamp", "isoformat"))
    if isinstance(v, TimeV):
        return z3.BoolVal(name in ("tzinfo", "hour", "minute", "second", "microsecond"))
    if isinstance(v, DictV) or isinstance(v, CDictV):
        return z3.BoolVal(name in ("get", "items", "keys", "values", "pop", "update"))
    if isinstance(v, (IntV, RealV, BoolV)):
        return z3.BoolVal(name in ("real", "imag", "conjugate"))
    return z3.BoolVal(False)


# ------------------------------------------------------------------ methods of containers
def list_pop(eng, o, i, node):
    s = eng.list_seq(o)
    i = eng.force(i, node)
    t = simp(to_int(i))
    if eng.branch(z3.Or(t >= s.n, t < -s.n)):
        raise PyExc("IndexError", (), node)
    idx = eng.from_end(t, s.n)
    x = s.get(idx)
    eng.list_replace(o, IntV(idx), IntV(simp(idx + 1)), ConcSeq([]), node)
    return x


def method(eng, v, name, args, kwargs, node):
    if isinstance(v, (ListV, LocalListV)):
        if name == "append":
            eng.list_append(v, args[0], node)
            return NONE
        if name == "extend":
            eng.list_extend(v, args[0], node)
            return NONE
        if name == "insert":
            i = args[0]
            eng.list_replace(v, i, i, ConcSeq([args[1]]), node)
            return NONE
        if name == "pop":
            return list_pop(eng, v, args[0] if args else IntV(z3.IntVal(-1)), node)
        if name == "copy":
            return eng.new_llist(eng.list_seq(v))
        if name == "clear":
            eng.list_replace(v, NONE, NONE, ConcSeq([]), node)
            return NONE
        if name == "reverse":
            s = eng.list_seq(v)
            eng.list_replace(v, NONE, NONE, RevSeq(s) if not isinstance(s, ConcSeq) else ConcSeq(s.items[::-1]), node)
            return NONE
        if name == "__len__":
            return IntV(eng.list_seq(v).n)
        if name == "__contains__":
            return BoolV(eng.contains(v, args[0], node))
        if name == "__getitem__":
            return eng.getitem(v, args[0], node)
    if isinstance(v, DictV):
        if name == "get":
            k = eng.force(args[0], node)
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            p = v.K.pack(k)
            if p is None:
                return d

            def th():
                if eng.branch(eng.dict_has(v, p[0])):
                    return eng.dict_val(v, p[0])
                return d
            return eng.pure(th)
        if name in ("items", "keys", "values"):
            return ViewV(name, v)
        if name == "copy":
            eng.err("dict.copy", node)
        if name == "setdefault":
            k = eng.force(args[0], node)
            p = v.K.pack(k)
            if eng.branch(eng.dict_has(v, p[0])):
                return eng.dict_val(v, p[0])
            eng.dict_set(v, p[0], args[1], node)
            return args[1]
        if name == "update":
            o = eng.force(args[0], node) if args else None
            if isinstance(o, CDictV):
                for k, x in eng.st.cdicts[o.did]:
                    eng.setitem(v, k, x, node)
                return NONE
            eng.err("dict.update", node)
        if name == "__contains__":
            return BoolV(eng.contains(v, args[0], node))
        if name == "__getitem__":
            return eng.getitem(v, args[0], node)
        if name == "__len__":
            return IntV(eng.dget(v)["n"])
    if isinstance(v, CDictV):
        it = eng.st.cdicts[v.did]
        if name == "get":
            d = args[1] if len(args) > 1 else NONE

            def th():
                for k, x in it:
                    if eng.branch(eng.eq(k, args[0])):
                        return x
                return d
            return eng.pure(th)
        if name in ("items", "keys", "values"):
            return ViewV(name, v)
        if name == "pop":
            for i, (k, x) in enumerate(it):
                if eng.branch(eng.eq(k, args[0])):
                    eng.st.cdicts[v.did] = it[:i] + it[i + 1:]
                    return x
            if len(args) > 1:
                return args[1]
            raise PyExc("KeyError", (), node)
        if name == "setdefault":
            for k, x in it:
                if eng.branch(eng.eq(k, args[0])):
                    return x
            eng.setitem(v, args[0], args[1], node)
            return args[1]
        if name == "update":
            o = eng.force(args[0], node) if args else None
            if o is None or isinstance(o, CDictV):
                if o is not None:
                    for k, x in eng.st.cdicts[o.did]:
                        eng.setitem(v, k, x, node)
                for k, x in kwargs.items():
                    eng.setitem(v, eng.lit(k), x, node)
                return NONE
        if name == "copy":
            return eng.new_cdict(list(it))
    if isinstance(v, StrV):
        if v.lit is not None and all(isinstance(eng.force(a), StrV) and eng.force(a).lit is not None for a in args) and not kwargs:
            r = getattr(v.lit, name)(*[eng.force(a).lit for a in args])
            if isinstance(r, str):
                return eng.lit(r)
            if isinstance(r, bool):
                return BoolV(z3.BoolVal(r))
        if name in ("lower", "upper", "strip", "title", "replace", "join"):
            return StrV(eng.uf("str_" + name, StrS, StrS)(v.t), None)
        if name == "format":
            ts = [eng.str_of(eng.force(a)) for a in args]
            kt = [eng.str_of(eng.force(a)) for a in kwargs.values()]
            return StrV(eng.uf("strformat:" + (v.lit or "?"), *([StrS] * (len(ts) + len(kt) + 1)))(*(ts + kt)), None)
        if name in ("startswith", "endswith"):
            return BoolV(eng.uf("str_" + name, StrS, StrS, B)(v.t, eng.force(args[0]).t))
    eng.err(f"method {name} of {type(v).__name__}", node)


# ------------------------------------------------------------------ calls
def call_ext(eng, f, args, kwargs, node):
    n = f.name
    if n.startswith("builtins."):
        return call_builtin(eng, n[9:], args, kwargs, node)
    if n.startswith("spec."):
        return call_spec(eng, n[5:], args, kwargs, node)
    if n.startswith("m."):
        return method(eng, f.data, n[2:], args, kwargs, node)
    if n.startswith("dt.") and isinstance(f.data, DtV):
        return dt_method(eng, f.data, n[3:], args, kwargs, node)
    if n == "noop":
        return NONE
    if n.startswith("date."):
        w = simp((f.data.t + 3) % 7)
        return IntV(w if n == "date.weekday" else simp(w + 1))
    if n == "delta.total_seconds":
        return RealV(z3.ToReal(f.data.t) / 1000000)
    if n == "datetime.timedelta":
        order = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        kw = dict(zip(order, args))
        kw.update(kwargs)
        return DeltaV(delta_of(eng, kw, node))
    if n == "datetime.time":
        order = ["hour", "minute", "second", "microsecond"]
        kw = dict(zip(order, args))
        kw.update(kwargs)
        g = lambda k: to_int(eng.force(kw[k])) if k in kw else z3.IntVal(0)
        return TimeV(simp(((g("hour") * 60 + g("minute")) * 60 + g("second")) * 1000000 + g("microsecond")))
    if n == "datetime.date":
        vs = [simp(to_int(eng.force(a))) for a in args]
        if all(z3.is_int_value(x) for x in vs):
            return DateV(z3.IntVal(const_dt(*[x.as_long() for x in vs]) // DAY))
        return DateV(simp(mstart(eng, 12 * vs[0] + vs[1] - 1) + vs[2] - 1))
    if n in ("arrow.get", "arrow.arrow.Arrow.fromdatetime", "arrow.Arrow.fromdatetime"):
        use(eng, "arrow.get(datetime): same wall clock; same instant for an Arrow or a UTC datetime (UTC for a naive one)")
        v = eng.force(args[0], node) if args else None
        if isinstance(v, DtV):
            t = v.t
            naive = dt_kind(t) == 2
            if kwargs or len(args) > 1:
                z = eng.force(args[1] if len(args) > 1 else list(kwargs.values())[0], node)
                if isinstance(z, TzV) and simp(z.t).eq(simp(dt_tz(t))):
                    pass
                else:
                    tz = tz_id(eng, z) if isinstance(z, StrV) else z.t
                    return mk_wall(eng, simp(mk_dt(z3.IntVal(0), tz, dt_wall(t), dt_wall(t))), dt_wall(t))
            exact = z3.Or(dt_kind(t) == 0, dt_tz(t) == 0)
            other = eng.uf("arrow_get_utc", DtS, I)(t)      # arrow drops the offset of a pytz datetime
            return DtV(simp(z3.If(naive, mk_dt(z3.IntVal(0), z3.IntVal(0), dt_wall(t), dt_wall(t)),
                                  z3.If(exact, mk_dt(z3.IntVal(0), dt_tz(t), dt_wall(t), dt_utc(t)),
                                        mk_dt(z3.IntVal(0), eng.uf("arrow_tz", I, I)(dt_tz(t)), dt_wall(t), other)))))
        if isinstance(v, StrV) and v.lit is not None:
            d = _dtm.datetime.fromisoformat(v.lit)
            w = z3.IntVal(const_dt(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond))
            return DtV(mk_dt(z3.IntVal(0), z3.IntVal(0), w, w))
        vs = [simp(to_int(eng.force(a))) for a in args]
        if vs and all(z3.is_int_value(x) for x in vs) and len(vs) >= 3:
            w = z3.IntVal(const_dt(*[x.as_long() for x in vs]))
            return DtV(mk_dt(z3.IntVal(0), z3.IntVal(0), w, w))
        eng.err("arrow.get", node)
    if n in ("arrow.utcnow", "arrow.now"):
        use(eng, "arrow.utcnow: an arbitrary instant")
        w = eng.fresh("now", I)
        return DtV(mk_dt(z3.IntVal(0), z3.IntVal(0), w, w))
    if n == "arrow.Arrow":
        vs = [simp(to_int(eng.force(a))) for a in args]
        w = z3.IntVal(const_dt(*[x.as_long() for x in vs]))
        return DtV(mk_dt(z3.IntVal(0), z3.IntVal(0), w, w))
    if n == "uuid.uuid4":
        use(eng, "uuid4: an arbitrary non-empty text")
        return ExtV("uuid", {"t": eng.fresh("uuid", StrS)})
    if n == "uuid.hex":
        pass
    if n.startswith("gc."):
        return NONE
    if n.startswith("typing.") or n in ("typing", "typing.cast"):
        return args[-1]
    if n == "threading.Thread":
        use(eng, "threading.Thread: start runs the target once, is_alive tells whether it still runs")
        cls = eng.prog.cls("ThreadStub")
        obj = eng.new_obj(cls)
        order = ["group", "target", "name", "args", "kwargs"]
        kw = dict(zip(order, args))
        kw.update(kwargs)
        eng.st.ext = dict(eng.st.ext)
        eng.st.ext["thread:" + simp(obj.t).sexpr()] = kw
        eng.setfield(obj, "running", BoolV(z3.BoolVal(False)))
        eng.setfield(obj, "started", BoolV(z3.BoolVal(False)))
        return obj
    if n == "stub.thread_start":
        th = args[0]
        kw = eng.st.ext.get("thread:" + simp(th.t).sexpr())
        if kw is None:
            eng.err("start of an unknown thread", node)
        t = eng.force(kw.get("target", NONE))
        if not isinstance(t, BoundV):
            eng.err("thread target", node)
        a = eng.force(kw.get("args", TupleV([])))
        k = eng.force(kw.get("kwargs", eng.new_cdict([])))
        fn = t.fn
        fid = eng.bind(fn, t.recv, a.items if isinstance(a, TupleV) else [eng.list_seq(a).get(z3.IntVal(i)) for i in range(eng.list_seq(a).conc())],
                       {kk.lit: vv for kk, vv in eng.st.cdicts[k.did]})
        pnames = [x.arg for x in fn.node.args.args][1:]
        eng.emit("thread_start", t.recv, {"target": eng.lit(fn.name),
                                      **{"arg%d" % i: eng.st.frames[fid][p] for i, p in enumerate(pnames)}})
        eng.setfield(th, "started", BoolV(z3.BoolVal(True)))
        eng.setfield(th, "running", BoolV(eng.fresh("running", B)))
        return NONE
    if n in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
        use(eng, "os.path.exists/isfile/makedirs, open, csv.DictWriter: recorded as events on an abstract file system")
        p = eng.force(args[0])
        return BoolV(eng.uf("fs_" + n.split(".")[-1], I, StrS, B)(fs_version(eng), eng.str_of(p)))
    if n == "os.makedirs":
        p = eng.force(args[0])
        eng.emit("makedirs", NONE, {"path": p})
        v0 = fs_version(eng)
        bump_fs(eng)
        ex = eng.uf("fs_exists", I, StrS, B)
        eng.assume(ex(fs_version(eng), eng.str_of(p)))
        # creating a folder creates no file
        q = z3.Const("fs_q", StrS)
        isf = eng.uf("fs_isfile", I, StrS, B)
        eng.assume(z3.ForAll([q], isf(fs_version(eng), q) == isf(v0, q)))
        return NONE
    if n == "os.path.join":
        ts = [eng.str_of(eng.force(a)) for a in args]
        f2 = eng.uf("fstr:" + "/".join(["{}"] * len(ts)), *([StrS] * (len(ts) + 1)))
        return StrV(f2(*ts), None)
    if n == "csv.DictWriter":
        order = ["f", "fieldnames"]
        kw = dict(zip(order, args))
        kw.update(kwargs)
        fl = eng.force(kw["f"])
        if not (isinstance(fl, ExtV) and fl.name == "file"):
            eng.err("csv writer on something else than a file", node)
        return ExtV("writer", {"path": fl.data["path"], "mode": fl.data["mode"], "fields": kw["fieldnames"]})
    if n == "writer.writeheader":
        eng.emit("csv_header", NONE, {"path": f.data["path"], "fields": f.data["fields"]})
        return NONE
    if n == "writer.writerow":
        eng.emit("csv_row", NONE, {"path": f.data["path"], "row": args[0], "fields": f.data["fields"]})
        return NONE
    if n == "writer.writerows":
        from . import loops
        loops.iterate(eng, args[0], lambda v: eng.emit("csv_row", NONE, {"path": f.data["path"], "row": v,
                                                                         "fields": f.data["fields"]}), node, eng.new_frame(None, eng.prog.modules["specs"]))
        return NONE
    if n in ("file.close", "file.flush"):
        return NONE
    if n == "math.fsum":
        return seq_sum(eng, eng.iter_seq(args[0], node), node)
    if n in ("math.floor", "math.ceil"):
        v = eng.force(args[0])
        if isinstance(v, IntV):
            return v
        return IntV(z3.ToInt(v.t)) if n.endswith("floor") else IntV(-z3.ToInt(-v.t))
    if n == "functools.reduce":
        eng.err("reduce", node)
    if n.startswith("operator."):
        o = n.split(".")[1]
        mp = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div"}
        if o in mp:
            return eng.binop(mp[o], args[0], args[1], node)
        cm = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq, "is_": ast.Is}
        if o in cm:
            return BoolV(eng.compare(cm[o](), args[0], args[1], node))
    if n == "itertools.islice":
        s = eng.iter_seq(args[0], node)
        return SeqV(eng.list_seq(eng.slice(SeqV(s), args[1] if len(args) > 2 else NONE, args[-1], NONE, node)))
    if n.startswith("num."):
        eng.err("number method " + n, node)
    if n.startswith("logging.") or n.startswith("warnings."):
        return NONE
    if n.startswith("exc"):
        return NONE
    eng.err(f"call of external {n}", node)


def fs_version(eng):
    return eng.st.ext.get("fsv", z3.IntVal(0))


def bump_fs(eng):
    eng.st.ext = dict(eng.st.ext)
    eng.st.ext["fsv"] = eng.fresh("fsv", I)


def enter(eng, v, node):
    v = eng.force(v)
    if isinstance(v, ExtV):
        return v
    if isinstance(v, RefV):
        eng.err("with on an object", node)
    return v


def contains_ext(eng, c, x, node):
    if c.name in ("pytz.all_timezones", "pytz.all_timezones_set", "pytz.common_timezones_set", "pytz.common_timezones"):
        use(eng, "pytz.all_timezones: a fixed set of names")
        x = eng.force(x)
        if not isinstance(x, StrV):
            return z3.BoolVal(False)
        return eng.uf("known:" + c.name.replace("_set", ""), StrS, B)(x.t)
    eng.err(f"containment in {c}", node)


def call_builtin(eng, n, args, kwargs, node):
    if n in BUILTIN_EXC:
        return ExtV("exc", (n, list(args)))
    if n == "isinstance":
        return BoolV(simp(isinst(eng, args[0], eng.force(args[1]), node)))
    if n == "hasattr":
        return BoolV(simp(eng.pure(lambda: BoolV(has_attr(eng, args[0], eng.force(args[1]).lit, node))).t))
    if n == "getattr":
        nm = eng.force(args[1]).lit
        if nm is None:
            eng.err("getattr with computed name", node)
        if len(args) > 2:
            if not eng.branch(has_attr(eng, args[0], nm, node)):
                return args[2]
        return eng.getattr(args[0], nm, node)
    if n == "setattr":
        eng.setattr(args[0], eng.force(args[1]).lit, args[2], node)
        return NONE
    if n == "len":
        v = eng.force(args[0], node)
        if isinstance(v, RefV):
            return eng.call(eng.getattr(v, "__len__", node), [], {}, node)
        if isinstance(v, DictV):
            d = eng.dget(v)
            eng.assume(d["n"] >= 0)
            return IntV(d["n"])
        if isinstance(v, CDictV):
            return IntV(z3.IntVal(len(eng.st.cdicts[v.did])))
        if isinstance(v, StrV):
            return IntV(eng.uf("str_len", StrS, I)(v.t))
        if isinstance(v, (GenV,)):
            raise PyExc("TypeError", (), node)
        if is_num(v) or isinstance(v, NoneV):
            raise PyExc("TypeError", (), node)
        return IntV(eng.iter_seq(v, node).n)
    if n == "abs":
        v = eng.force(args[0], node)
        if isinstance(v, BoolV):
            v = IntV(to_int(v))
        if isinstance(v, IntV):
            return IntV(simp(z3.If(v.t >= 0, v.t, -v.t)))
        if isinstance(v, RealV):
            return RealV(simp(z3.If(v.t >= 0, v.t, -v.t)))
        if isinstance(v, DeltaV):
            return DeltaV(simp(z3.If(v.t >= 0, v.t, -v.t)))
        raise PyExc("TypeError", (), node)
    if n in ("min", "max"):
        if len(args) == 1:
            return seq_minmax(eng, eng.iter_seq(args[0], node), n, node, kwargs)
        return minmax(eng, args, n, node, kwargs.get("key"))
    if n == "sum":
        s = eng.iter_seq(args[0], node)
        r = seq_sum(eng, s, node)
        if len(args) > 1 or "start" in kwargs:
            r = eng.binop("Add", args[1] if len(args) > 1 else kwargs["start"], r, node)
        return r
    if n == "round":
        return py_round(eng, args[0], args[1] if len(args) > 1 else kwargs.get("ndigits"), node)
    if n == "int":
        if not args:
            return IntV(z3.IntVal(0))
        v = eng.force(args[0], node)
        if isinstance(v, (IntV, BoolV)):
            return IntV(to_int(v))
        if isinstance(v, RealV):
            return IntV(simp(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))))
        if isinstance(v, StrV):
            if eng.branch(eng.uf("int_parses", StrS, B)(v.t)):
                return IntV(eng.uf("int_of_str", StrS, I)(v.t))
            raise PyExc("ValueError", (), node)
        raise PyExc("TypeError", (), node)
    if n == "float":
        if not args:
            return RealV(z3.RealVal(0))
        v = eng.force(args[0], node)
        if is_num(v):
            return RealV(to_real(v))
        if isinstance(v, StrV):
            if eng.branch(eng.uf("float_parses", StrS, B)(v.t)):
                return RealV(eng.uf("float_of_str", StrS, R)(v.t))
            raise PyExc("ValueError", (), node)
        raise PyExc("TypeError", (), node)
    if n == "bool":
        if not args:
            return BoolV(z3.BoolVal(False))
        return BoolV(simp(eng.truth(args[0], node)))
    if n in ("str", "repr"):
        if not args:
            return eng.lit("")
        v = args[0]
        if isinstance(v, ExtV) and v.name == "uuid":
            t = v.data["t"]
            eng.assume(eng.uf("str_nonempty", StrS, B)(t))
            return StrV(t, None)
        v = eng.force(v, node)
        if isinstance(v, StrV):
            return v
        return StrV(eng.str_of(v), None)
    if n in ("list", "tuple"):
        if not args:
            return eng.new_llist(ConcSeq([])) if n == "list" else TupleV([])
        s = eng.iter_seq(args[0], node)
        if n == "tuple" and isinstance(s, ConcSeq):
            return TupleV(s.items)
        return eng.new_llist(s)
    if n == "set" or n == "frozenset":
        if not args:
            return TupleV([])
        return SeqV(eng.iter_seq(args[0], node))
    if n == "dict":
        items = []
        if args:
            v = eng.force(args[0], node)
            if isinstance(v, CDictV):
                items = list(eng.st.cdicts[v.did])
            else:
                s = eng.iter_seq(v, node)
                c = s.conc()
                if c is None:
                    eng.err("dict of unknown shape", node)
                for i in range(c):
                    kv = eng.iter_seq(s.get(z3.IntVal(i)))
                    items.append((kv.get(z3.IntVal(0)), kv.get(z3.IntVal(1))))
        d = eng.new_cdict(items)
        for k, x in kwargs.items():
            eng.setitem(d, eng.lit(k), x, node)
        return d
    if n == "range":
        vs = [to_int(eng.force(a, node)) for a in args]
        lo, hi, st = (z3.IntVal(0), vs[0], 1) if len(vs) == 1 else (vs[0], vs[1], 1)
        if len(vs) == 3:
            s3 = simp(vs[2])
            if not z3.is_int_value(s3) or s3.as_long() not in (1, -1):
                eng.err("range step", node)
            st = s3.as_long()
        cnt = simp(hi - lo if st == 1 else lo - hi)
        if not z3.is_int_value(cnt) and not eng.entails(cnt >= 0) or z3.is_int_value(cnt) and cnt.as_long() < 0:
            cnt = simp(z3.If(cnt > 0, cnt, 0))
        if z3.is_int_value(cnt) and cnt.as_long() <= 24:
            return SeqV(ConcSeq([IntV(simp(lo + st * i)) for i in range(cnt.as_long())]))
        return SeqV(FnSeq(cnt, lambda k: IntV(simp(lo + st * k))))
    if n == "reversed":
        s = eng.iter_seq(args[0], node)
        if isinstance(s, ConcSeq):
            return SeqV(ConcSeq(s.items[::-1]))
        if isinstance(s, RevSeq):
            return SeqV(s.s)
        if isinstance(s, FiltSeq) and s._idx is None:
            return SeqV(FiltSeq(s.base_n, lambda k: s.cond(simp(s.base_n - 1 - k)), lambda k: s.f(simp(s.base_n - 1 - k))))
        return SeqV(RevSeq(s))
    if n == "enumerate":
        s = eng.iter_seq(args[0], node)
        st = to_int(eng.force(args[1] if len(args) > 1 else kwargs.get("start", IntV(z3.IntVal(0)))))
        if isinstance(s, ConcSeq):
            return SeqV(ConcSeq([TupleV([IntV(simp(st + i)), x]) for i, x in enumerate(s.items)]))
        return SeqV(FnSeq(s.n, lambda k: TupleV([IntV(simp(st + k)), s.get(k)])))
    if n == "zip":
        ss = [eng.iter_seq(a, node) for a in args]
        cs = [s.conc() for s in ss]
        known = [c for c in cs if c is not None]
        if len(known) == len(cs):
            m = min(known)
            return SeqV(ConcSeq([TupleV([s.get(z3.IntVal(i)) for s in ss]) for i in range(m)]))
        m = ss[0].n
        for s in ss[1:]:
            m = simp(z3.If(s.n < m, s.n, m))
        return SeqV(FnSeq(m, lambda k: TupleV([s.get(k) for s in ss])))
    if n in ("all", "any"):
        s = eng.iter_seq(args[0], node)
        return BoolV(quantified(eng, s, lambda x: eng.truth(x, node), n))
    if n == "map":
        s = eng.iter_seq(args[1], node)
        f = args[0]
        if isinstance(s, ConcSeq):
            return SeqV(ConcSeq([eng.call(f, [x], {}, node) for x in s.items]))
        g = lambda k: eng.pure(lambda: eng.call(f, [s.get(k)], {}, node))
        if isinstance(s, FiltSeq):
            return SeqV(FiltSeq(s.base_n, s.cond, lambda k: eng.pure(lambda: eng.call(f, [s.f(k)], {}, node))))
        return SeqV(FnSeq(s.n, g))
    if n == "filter":
        s = eng.iter_seq(args[1], node)
        f = args[0]

        def tr(x):
            return eng.truth(x if isinstance(f, NoneV) else eng.pure(lambda: eng.call(f, [x], {}, node)), node)
        if isinstance(s, ConcSeq):
            return SeqV(ConcSeq([x for x in s.items if eng.branch(tr(x))]))
        if isinstance(s, FiltSeq):
            return SeqV(FiltSeq(s.base_n, lambda k: z3.And(s.cond(k), tr(s.f(k))), s.f))
        return SeqV(FiltSeq(s.n, lambda k: tr(s.get(k)), s.get))
    if n == "type":
        v = eng.force(args[0], node)
        if isinstance(v, RefV):
            return ClassV(v.cls)
        if isinstance(v, (IntV, RealV, BoolV, StrV)):
            return ExtV("builtins." + {IntV: "int", RealV: "float", BoolV: "bool", StrV: "str"}[type(v)], None)
        return ExtV("type_of", None)
    if n == "print":
        return NONE
    if n == "next":
        s = eng.iter_seq(args[0], node)
        if isinstance(s, FiltSeq) and s._idx is None:
            k = eng.new_generic("nx")
            J = eng.folds.first_exit(s.base_n, k, s.cond(k))
            if eng.branch(J < s.base_n):
                return s.f(J)
        elif eng.branch(s.n > 0):
            return s.get(z3.IntVal(0))
        if len(args) > 1:
            return args[1]
        raise PyExc("StopIteration", (), node)
    if n == "iter":
        return SeqV(eng.iter_seq(args[0], node))
    if n == "callable":
        return BoolV(z3.BoolVal(isinstance(eng.force(args[0]), (FuncV, BoundV, ClassV, LambdaV, ExtV))))
    if n == "divmod":
        return TupleV([eng.binop("FloorDiv", args[0], args[1], node), eng.binop("Mod", args[0], args[1], node)])
    if n == "sorted":
        s = eng.iter_seq(args[0], node)
        if s.conc() is not None and s.conc() <= 1:
            return eng.new_llist(s)
        eng.err("sorted", node)
    if n == "open":
        p = eng.force(args[0], node)
        m = eng.force(args[1] if len(args) > 1 else kwargs.get("mode", eng.lit("r")), node)
        eng.emit("open", NONE, {"path": p, "mode": m})
        if not (m.lit is not None):
            eng.err("open with a computed mode", node)
        v0 = fs_version(eng)
        bump_fs(eng)
        v1 = fs_version(eng)
        q = z3.Const("fs_q", StrS)
        isf, ex = eng.uf("fs_isfile", I, StrS, B), eng.uf("fs_exists", I, StrS, B)
        pt = eng.str_of(p)
        eng.assume(z3.ForAll([q], isf(v1, q) == z3.Or(isf(v0, q), q == pt)))
        eng.assume(z3.ForAll([q], ex(v1, q) == z3.Or(ex(v0, q), q == pt)))
        return ExtV("file", {"path": p, "mode": m})
    if n == "object":
        return AnyV(eng.fresh("obj", AnyS))
    if n == "id":
        v = eng.force(args[0])
        return IntV(v.t)
    if n == "issubclass":
        a, b = eng.force(args[0]), eng.force(args[1])
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return BoolV(z3.BoolVal(a.cls.is_sub(b.cls)))
    eng.err(f"builtin {n}", node)


# ------------------------------------------------------------------ specification vocabulary
def call_spec(eng, n, args, kwargs, node):
    if n == "implies":
        return BoolV(z3.Implies(eng.truth(args[0]), eng.truth(args[1])))
    if n == "iff":
        return BoolV(eng.truth(args[0]) == eng.truth(args[1]))
    if n == "emit":
        nm = eng.force(args[0]).lit
        eng.emit(nm, args[1] if len(args) > 1 else NONE, kwargs)
        return NONE
    if n == "utc":
        v = eng.force(args[0])
        if not isinstance(v, DtV):
            raise PyExc("TypeError", (), node)
        return IntV(simp(dt_utc(v.t)))
    if n == "wall":
        v = eng.force(args[0])
        if not isinstance(v, DtV):
            raise PyExc("TypeError", (), node)
        return IntV(simp(dt_wall(v.t)))
    if n == "tzid":
        return IntV(simp(dt_tz(eng.force(args[0]).t)))
    if n == "grid":      # periods of a frame set: an abstract set of wall clocks of a timezone
        return BoolV(eng.uf("grid", I, I, I, B)(eng.force(args[0]).t, to_int(eng.force(args[1])), to_int(eng.force(args[2]))))
    if n == "grid_floor":
        return IntV(eng.uf("grid_floor", I, I, I, I)(eng.force(args[0]).t, to_int(eng.force(args[1])), to_int(eng.force(args[2]))))
    if n == "tz_of":
        return IntV(tz_id(eng, eng.force(args[0])))
    if n == "wall_at":
        z, u = tz_id(eng, eng.force(args[0])), to_int(eng.force(args[1]))
        return IntV(simp(z3.If(z == 0, u, wallof(eng)(z, u))))
    if n == "kind_of":
        v = eng.force(args[0])
        return IntV(simp(dt_kind(v.t)) if isinstance(v, DtV) else z3.IntVal(-1))
    if n in ("others_kept", "dict_same"):
        a, b = eng.dget(args[0]), eng.dget(args[1])
        if n == "dict_same":
            return BoolV(simp(z3.And(*[a[x] == b[x] for x in a])))
        kt, = args[0].K.pack(eng.force(args[2]))
        same = lambda x: z3.Store(a[x], kt, (c := z3.Select(a[x], kt))) == z3.Store(b[x], kt, c)
        return BoolV(simp(z3.And(*[same(x) for x in a if x == "has" or x.startswith("val")])))
    if n == "earlier":
        a, b = eng.force(args[0]), eng.force(args[1])
        return BoolV(z3.If(dt_tz(a.t) == dt_tz(b.t), dt_wall(a.t) < dt_wall(b.t), dt_utc(a.t) < dt_utc(b.t)))
    if n == "is_aware":
        v = eng.force(args[0])
        return BoolV(simp(dt_kind(v.t) != 2) if isinstance(v, DtV) else z3.BoolVal(False))
    if n == "fresh":
        v = eng.force(args[0])
        st = eng.old_states[-1]
        return BoolV(v.t >= st.alloc)
    if n == "known_tz":
        return BoolV(eng.uf("known:pytz.all_timezones", StrS, B)(eng.force(args[0]).t))
    if n == "month_index":
        v = eng.force(args[0])
        day = dt_parts(dt_wall(v.t))[0] if isinstance(v, DtV) else to_int(v)
        return IntV(month_idx(eng, day))
    if n == "mstart":
        return IntV(mstart(eng, to_int(eng.force(args[0]))))
    if n == "day_of":
        return IntV(dt_parts(dt_wall(eng.force(args[0]).t))[0])
    if n == "exact_class":
        v = eng.force(args[0])
        c = args[1].cls
        if v.exact:
            return BoolV(z3.BoolVal(v.cls is c))
        return BoolV(eng.clsof(v.t) == eng.class_ids[c])
    if n == "ite":
        return eng.merge_values([(eng.truth(args[0]), args[1]), (z3.Not(eng.truth(args[0])), args[2])])
    if n == "nonempty":
        return BoolV(eng.str_nonempty(eng.force(args[0])))
    if n == "first_exit":
        # least index of the list whose element satisfies the predicate, its length if none
        s = eng.iter_seq(args[0])
        k = eng.new_generic("fx")
        st0 = eng.st
        eng.st = st0.copy()
        eng.assume(z3.And(0 <= k, k < s.n))
        n0 = len(eng.st.hyps)
        c = eng.pure(lambda: BoolV(eng.truth(eng.call(args[1], [s.get(k)], {}, node)))).t
        facts = [f for f, b in eng.st.hyps[n0:] if b is not None]
        ctr = eng.st.ctr
        eng.st = st0
        eng.st.ctr = max(ctr, eng.st.ctr)
        if facts:
            eng.add_qfacts(k, z3.And(0 <= k, k < s.n), facts)
        return IntV(eng.folds.first_exit(s.n, k, c))
    eng.err("spec function " + n, node)


def _lam_quant(kind):
    def f(eng, e, fid):
        lam = e.args[-1]
        lo = hi = None
        if len(e.args) == 3:
            lo, hi = to_int(eng.force(eng.ev(e.args[0], fid))), to_int(eng.force(eng.ev(e.args[1], fid)))
        k = eng.new_generic("q")
        rng = z3.And(lo <= k, k < hi) if lo is not None else z3.BoolVal(True)
        fv = eng.ev(lam, fid)
        return BoolV(quant(eng, k, rng, lambda: BoolV(eng.truth(eng.call(fv, [IntV(k)], {}, e))), kind))
    return f


def spec_old(eng, e, fid):
    """value of an expression in the pre-state"""
    if not eng.old_states:
        eng.err("old() without a pre-state", e)
    pre = eng.old_states[-1]
    cur = eng.st
    heap, epoch, alloc, side, llists, cdicts, ext, trace = (cur.heap, cur.epoch, cur.alloc, cur.side, cur.llists,
                                                             cur.cdicts, cur.ext, cur.trace)
    cur.heap, cur.epoch, cur.alloc, cur.side, cur.ext, cur.trace = (dict(pre.heap), pre.epoch, pre.alloc, dict(pre.side),
                                                                    dict(pre.ext), pre.trace)
    cur.llists = {**llists, **{k: v for k, v in pre.llists.items()}}
    cur.cdicts = {**cdicts, **{k: v for k, v in pre.cdicts.items()}}
    try:
        v = eng.ev(e.args[0], fid)
        if isinstance(v, (ListV, DictV)) and getattr(eng, "snapshot_old", True):
            # a list in the pre-state: its contents then
            if isinstance(v, ListV):
                v = SeqV(eng.list_seq(v))
            else:
                v = eng.dict_snapshot(v)
        return v
    finally:
        s = eng.st
        newll = {k: x for k, x in s.llists.items() if k not in llists}
        newcd = {k: x for k, x in s.cdicts.items() if k not in cdicts}
        # arrays first touched in the pre-state are the same arrays now unless changed since
        for k, t in s.heap.items():
            if k not in pre.heap:
                pre.heap[k] = t
            if k not in heap and s.epoch == epoch:
                heap[k] = t
        s.heap, s.epoch, s.alloc, s.side, s.ext, s.trace = heap, epoch, alloc, side, ext, trace
        s.llists = {**llists, **newll}
        s.cdicts = {**cdicts, **newcd}


def spec_implies(eng, e, fid):
    """lazy: the consequent is evaluated only where the premise holds"""
    t = getattr(e, "_imp", None)
    if t is None:
        a, b = e.args
        t = e._imp = ast.copy_location(ast.BoolOp(ast.Or(), [ast.copy_location(ast.UnaryOp(ast.Not(), a), e), b]), e)
        ast.fix_missing_locations(t)
    return eng.ev(t, fid)


def _lemma_truth(eng, x, fid):
    def th():
        eng.spec += 1
        try:
            return BoolV(eng.truth(eng.ev(x, fid)))
        except PyExc as ex:
            if eng.debug:
                print("   lemma condition raised", ex.name, ex.args_, ast.unparse(x)[:100])
            return BoolV(z3.BoolVal(False))
        finally:
            eng.spec -= 1
    return eng.spec_bool(lambda: th().t)


def lemma_assume(eng, e, fid):
    t = _lemma_truth(eng, e.args[0], fid)
    eng.assume(t)
    return NONE


def lemma_check(eng, e, fid):
    t = _lemma_truth(eng, e.args[1], fid)
    eng.st.obl = eng.st.obl + ((e.args[0].value, tuple(eng.st.hyps), t),)
    eng.assume(t)
    return NONE


SPEC_FORMS = {"assume": lemma_assume, "check": lemma_check, "implies": spec_implies, "old": spec_old, "forall_int": _lam_quant("all"), "exists_int": _lam_quant("any")}
