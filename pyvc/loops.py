"""Loops: complete unrolling, closed-form summaries, or invariants (Houdini over a pool).

Summary mode (heap-pure bodies): additive accumulators become folds, guarded appends become
filtered sequences, exits (break/return/raise) become first-exit indices.
Invariant mode: candidate invariants come from the contract under verification; the
greatest inductive subset is kept; nothing is assumed that was not proved (init + step).
"""
import ast
import time

import z3

from .folds import forall

from .engine import *  # noqa
from .engine import Sig, Event, Segment, POISON, Poison
from .folds import free_consts
from .seqs import *  # noqa
from . import solve


class LoopEnd(Sig):
    """condition of a while loop is false"""


class HavocSeq(Seq):
    def __init__(self, lid):
        self.lid = lid

    @property
    def n(self):
        raise Unsupported("length of a list built by the summarised loop")

    def get(self, k):
        raise Unsupported("element of a list built by the summarised loop")

    def conc(self):
        return None


class NotSummarisable(Exception):
    pass


UNROLL = 12


def for_stmt(eng, s, fid):
    it = eng.ev(s.iter, fid)

    def body(v):
        eng.assign(s.target, v, fid)
        try:
            eng.block(s.body, fid)
        except ContinueSig:
            pass
    iterate(eng, it, body, s, fid, (lambda: eng.block(s.orelse, fid)) if s.orelse else None)


def iterate(eng, it, body, node, fid, orelse=None):
    it = eng.force(it, node)
    if isinstance(it, GenV):
        if it.env in eng.st.used:
            if orelse:
                orelse()
            return
        eng.st.used = eng.st.used | {it.env}
        tag = object()
        saved = list(eng.yield_stack)

        def handler(v):
            inner = eng.yield_stack
            cs = eng.call_stack
            eng.yield_stack = list(saved)
            try:
                body(v)
            except (BreakSig, ReturnSig, PyExc) as sg:
                raise GenExit(fid, sg)
            finally:
                eng.yield_stack = inner
                eng.call_stack = cs
        eng.yield_stack = saved + [handler]
        try:
            eng.exec_body(it.fn, it.env)
        except GenExit as g:
            if g.tag != fid:
                raise
            eng.yield_stack = saved
            if isinstance(g.sig, BreakSig):
                return
            raise g.sig
        finally:
            eng.yield_stack = saved
        if orelse:
            orelse()
        return
    seq = eng.iter_seq(it, node)
    if isinstance(seq, FiltSeq) and seq.conc() is None and seq._idx is None:
        def step(k):
            if eng.branch(seq.cond(k)):
                body(seq.f(k))
        symbolic_loop(eng, seq.base_n, step, node, fid, orelse, seq)
        return
    n = seq.conc()
    if n is not None and n <= UNROLL:
        try:
            for i in range(n):
                body(seq.get(z3.IntVal(i)))
        except BreakSig:
            return
        if orelse:
            orelse()
        return
    src = seq

    def step(k):
        body(src.get(k))
    symbolic_loop(eng, seq.n, step, node, fid, orelse, seq)


def while_stmt(eng, s, fid):
    def step(k):
        if not eng.branch(eng.truth(eng.ev(s.test, fid), s.test)):
            raise LoopEnd()
        try:
            eng.block(s.body, fid)
        except ContinueSig:
            pass
    orelse = (lambda: eng.block(s.orelse, fid)) if s.orelse else None

    def unrolled():
        for i in range(4):
            try:
                step(None)
            except LoopEnd:
                if orelse:
                    orelse()
                return NONE
            except BreakSig:
                return NONE
        raise LoopLimit()
    if not getattr(eng, "no_unroll", False):
        try:
            res = eng.explore(unrolled, limit=200)
            eng.pick(res)
            return
        except LoopLimit:
            pass
        except Unsupported as e:
            if "too many paths" not in str(e) and "recursion" not in str(e):
                raise
    symbolic_loop(eng, None, step, s, fid, orelse, None)


# ------------------------------------------------------------------ state differences
class Mod:
    def __init__(self):
        self.locals, self.heap, self.llists, self.cdicts, self.side = set(), set(), set(), set(), set()
        self.trace = self.alloc = False
        self.ext = set()
        self.sorts = {}

    def key(self):
        return (frozenset(self.locals), frozenset(self.heap), frozenset(self.llists), frozenset(self.cdicts),
                frozenset(self.side), self.trace, self.alloc, frozenset(self.ext))

    def heapish(self):
        return self.heap or self.alloc or self.trace or self.side or self.ext


def diff(a, b, m):
    for f, fr in a.frames.items():
        g = b.frames.get(f, {})
        for k, v in g.items():
            if k.startswith("$") and k != "$ret":
                continue
            if fr.get(k) is not v:
                m.locals.add((f, k))
    for k, t in b.heap.items():
        o = a.heap.get(k)
        if o is None:
            if z3.is_const(t) and t.decl().name().startswith("H%s|" % a.epoch):
                continue
            m.heap.add(k)
            m.sorts[k] = t.sort()
        elif not o.eq(t):
            m.heap.add(k)
            m.sorts[k] = t.sort()
    if a.epoch != b.epoch:
        raise Unsupported("loop body with unrestricted effects")
    for k, v in a.llists.items():
        if b.llists.get(k) is not v:
            m.llists.add(k)
    for k, v in a.cdicts.items():
        if b.cdicts.get(k) is not v:
            m.cdicts.add(k)
    for k, v in b.side.items():
        if a.side.get(k) is not v and k in a.side:
            m.side.add(k)
        elif k not in a.side:
            m.side.add(k)
    if a.trace is not b.trace and a.trace != b.trace:
        m.trace = True
    if not a.alloc.eq(b.alloc):
        m.alloc = True
    for k, v in b.ext.items():
        if a.ext.get(k) is not v and not k.startswith("epoch"):
            m.ext.add(k)
    if a.used != b.used:
        m.locals.add((None, "$used"))
    return m


def join_type(eng, vals):
    """an SV type able to hold all vals, or None"""
    ts = []
    none = False
    for v in vals:
        if isinstance(v, NoneV):
            none = True
            continue
        if isinstance(v, OptV):
            none = True
            v = v.v
        if isinstance(v, UnionV):
            return join_type(eng, [w for _, w in v.alts] + [x for x in vals if x is not v])
        t = eng.type_of(v) if not isinstance(v, (LocalListV, Poison)) else None
        if t is None:
            return None
        ts.append(t)
    if not ts:
        return None
    t = ts[0]
    for u in ts[1:]:
        if u.key() == t.key():
            continue
        if isinstance(t, (TInt, TReal, TBool)) and isinstance(u, (TInt, TReal, TBool)):
            t = TReal() if isinstance(t, TReal) or isinstance(u, TReal) else TInt()
            continue
        if isinstance(t, TRef) and isinstance(u, TRef):
            c = common_class([t.cls, u.cls])
            if c is None:
                return None
            t = TRef(c, t.nullable or u.nullable)
            continue
        return None
    if none:
        if isinstance(t, TRef):
            t = TRef(t.cls, True)
        else:
            t = TOpt(t)
    return t


# ------------------------------------------------------------------ substitution in values
def subst_sv(eng, v, pairs):
    s = lambda t: z3.substitute(t, *pairs) if z3.is_expr(t) else t
    if isinstance(v, (IntV, RealV, BoolV, DtV, DateV, TimeV, DeltaV, AnyV)):
        return type(v)(s(v.t))
    if isinstance(v, StrV):
        return StrV(s(v.t), v.lit)
    if isinstance(v, EnumV):
        return EnumV(v.cls, s(v.t))
    if isinstance(v, RefV):
        return RefV(s(v.t), v.cls, v.exact, v.nullable)
    if isinstance(v, ListV):
        return ListV(s(v.t), v.T)
    if isinstance(v, DictV):
        return DictV(s(v.t), v.K, v.V)
    if isinstance(v, OptV):
        return OptV(s(v.isnone), subst_sv(eng, v.v, pairs))
    if isinstance(v, UnionV):
        return UnionV([(s(g), subst_sv(eng, w, pairs)) for g, w in v.alts])
    if isinstance(v, TupleV):
        return TupleV([subst_sv(eng, x, pairs) for x in v.items])
    if isinstance(v, CDictV):
        return eng.new_cdict([(k, subst_sv(eng, x, pairs)) for k, x in eng.st.cdicts[v.did]])
    if isinstance(v, LocalListV):
        kind, x = eng.st.llists[v.lid]
        if kind == "heap":
            return subst_sv(eng, x, pairs)
        return eng.new_llist(subst_seq(eng, x, pairs))
    if isinstance(v, TzV):
        return TzV(s(v.t), s(v.none) if v.none is not None else None)
    if isinstance(v, ExtV):
        if v.data is None or isinstance(v.data, (str, int)):
            return v
        if isinstance(v.data, SV):
            return ExtV(v.name, subst_sv(eng, v.data, pairs))
        if isinstance(v.data, dict):
            return ExtV(v.name, {k: subst_sv(eng, x, pairs) if isinstance(x, SV) else s(x) for k, x in v.data.items()})
    return v


def subst_seq(eng, q, pairs):
    s = lambda t: z3.substitute(t, *pairs)
    if isinstance(q, ConcSeq):
        return ConcSeq([subst_sv(eng, x, pairs) for x in q.items])
    if isinstance(q, ArrSeq):
        return ArrSeq([s(a) for a in q.arrs], s(q.base), s(q.n), q.T)
    if isinstance(q, CatSeq):
        return CatSeq(subst_seq(eng, q.a, pairs), subst_seq(eng, q.b, pairs))
    if isinstance(q, RevSeq):
        return RevSeq(subst_seq(eng, q.s, pairs))
    if isinstance(q, SliceSeq):
        return SliceSeq(subst_seq(eng, q.s, pairs), s(q.lo), s(q.n))
    if isinstance(q, FnSeq):
        f = q.f
        return FnSeq(s(q.n), lambda k: subst_at(eng, f, k, pairs))
    if isinstance(q, FiltSeq):
        c, f = q.cond, q.f

        def cond(k):
            g = eng.new_generic("ss")
            return z3.substitute(s(c(g)), (g, k))
        return FiltSeq(s(q.base_n), cond, lambda k: subst_at(eng, f, k, pairs))
    raise Unsupported("substitution in " + type(q).__name__)


def subst_at(eng, f, k, pairs):
    g = eng.new_generic("ss")
    return subst_sv(eng, subst_sv(eng, f(g), pairs), [(g, k)])


def skolemise_locals(eng, ctr0, k, terms):
    """constants created after counter ctr0 depend on the generic index k: make them functions of k"""
    names = {}
    for t in terms:
        for n, c in free_consts(t).items():
            if "!" in n and not c.eq(k):
                suf = n.rsplit("!", 1)[1]
                if suf.isdigit() and int(suf) > ctr0:
                    names[n] = c
    pairs = []
    for n, c in names.items():
        f = z3.Function(n + "$f", k.sort(), c.sort())
        if c.decl().name() in eng.array_bound:
            eng.array_bound[f.name()] = eng.array_bound[c.decl().name()]
        pairs.append((c, f(k)))
    return pairs


# ------------------------------------------------------------------ the loop rule
def havoc(eng, st, mod, types, name="h"):
    """copy of st in which everything in mod is arbitrary; returns (state, {local: const SV})"""
    saved = eng.st
    eng.st = st.copy()
    hv = {}
    try:
        if mod.alloc:
            a = eng.fresh("alloc", I)
            eng.assume(a >= st.alloc)
            eng.st.alloc = a
        for k in sorted(mod.heap, key=str):
            if k not in eng.st.heap:
                eng.heap_arr(k, mod.sorts[k])
                if k not in st.heap:
                    st.heap[k] = eng.st.heap[k]
            eng.havoc_key(k)
        for (f, nm) in sorted(mod.locals, key=lambda x: (str(x[0]), x[1])):
            if f is None:
                continue
            T = types.get((f, nm))
            if T is None:
                if nm in eng.st.frames[f]:
                    eng.st.frames[f][nm] = POISON
                continue
            v = fresh_value(eng, T, "h_" + nm)
            eng.st.frames[f][nm] = v
            hv[(f, nm)] = v
        for lid in mod.llists:
            kind, x = eng.st.llists[lid]
            if kind == "seq":
                eng.st.llists[lid] = ("seq", HavocSeq(lid))
        if mod.trace:
            eng.st.trace = ()
        return eng.st, hv
    finally:
        eng.st = saved


def fresh_value(eng, T, name):
    ts = tuple(eng.fresh(name, s) for s in T.sorts)
    v = T.unpack(ts, eng)
    if isinstance(T, TRef):
        eng.assume(z3.And(ts[0] >= (0 if T.nullable else 1), ts[0] < eng.st.alloc))
    elif isinstance(T, TOpt) and isinstance(T.t, TRef):
        eng.assume(z3.And(ts[1] >= 0, ts[1] < eng.st.alloc))
    elif isinstance(T, (TList, TDict)):
        eng.assume(z3.And(ts[0] > 0, ts[0] < eng.st.alloc))
    else:
        eng.wf(T, ts)
    return v


def symbolic_loop(eng, n, step, node, fid, orelse, seq):
    st0 = eng.st
    k = eng.new_generic("k")
    ctr0 = st0.ctr
    # --- what does one iteration change
    mod = Mod()
    types = {}
    results = None
    for rnd in range(8):
        sth, hv = havoc(eng, st0, mod, types)
        sth.hyps.append((k >= 0, False))
        if n is not None:
            sth.hyps.append((k < n, False))
        base_n = len(sth.hyps)
        results = eng.explore(lambda: step(k), sth)
        m2 = Mod()
        for f in ("locals", "heap", "llists", "cdicts", "side", "ext"):
            getattr(m2, f).update(getattr(mod, f))
        m2.sorts.update(mod.sorts)
        m2.trace, m2.alloc = mod.trace, mod.alloc
        for s, o in results:
            diff(sth, s, m2)
        # types of changed locals
        t2 = {}
        for (f, nm) in m2.locals:
            if f is None:
                raise Unsupported("generator consumed inside a loop")
            vals = []
            if nm in st0.frames[f]:
                vals.append(st0.frames[f][nm])
            else:
                continue
            for s, o in results:
                if o[0] == "val" and nm in s.frames[f]:
                    vals.append(s.frames[f][nm])
            eng_st = eng.st
            T = None
            for s, o in results[:1]:
                eng.st = s
                try:
                    T = join_type(eng, [v for v in vals if not isinstance(v, Poison)])
                except Unsupported:
                    T = None
                finally:
                    eng.st = eng_st
            t2[(f, nm)] = T
        same_types = {a: repr(b) for a, b in types.items()} == {a: repr(b) for a, b in t2.items()}
        if m2.key() == mod.key() and same_types:
            break
        mod, types = m2, t2
    else:
        raise Unsupported("loop effects do not stabilise")
    if not mod.heapish():
        try:
            summarise(eng, n, step, node, fid, orelse, seq, k, ctr0, mod, types, sth, hv, results, base_n)
            return
        except NotSummarisable as e:
            why = str(e)
    else:
        why = "heap effects"
    invariant_loop(eng, n, step, node, fid, orelse, seq, k, mod, types, why)


def summarise(eng, n, step, node, fid, orelse, seq, k, ctr0, mod, types, sth, hv, results, base_n):
    st0 = eng.st
    if mod.cdicts:
        raise NotSummarisable("dict built in the loop")
    hconst = {}
    for key, v in hv.items():
        for t in terms_of(v):
            for nm, c in free_consts(t).items():
                if nm.startswith("h_"):
                    hconst[nm] = (key, c)
    paths = []
    for s, o in results:
        conds = [f for f, b in s.hyps[base_n:] if b]
        c = z3.And(*conds) if conds else z3.BoolVal(True)
        facts = [f for f, b in s.hyps[base_n:] if b is False]
        # facts hold on this path only
        facts = [z3.Implies(c, f) if conds else f for f in facts]
        paths.append((s, o, c, facts))
    # --- linear index variables
    pairs = []
    lin = {}
    for key, v in hv.items():
        if not isinstance(v, IntV):
            continue
        init = st0.frames[key[0]].get(key[1])
        if not isinstance(init, IntV):
            continue
        ds = set()
        for s, o, c, _ in paths:
            if o[0] != "val":
                continue
            x = s.frames[key[0]][key[1]]
            if not isinstance(x, IntV):
                ds.add(None)
                continue
            d = z3.simplify(x.t - v.t)
            ds.add(d.as_long() if z3.is_int_value(d) else None)
        if len(ds) == 1 and None not in ds and ds != {0}:
            c = ds.pop()
            lin[key] = c
            pairs.append((v.t, z3.simplify(init.t + c * k)))
    sub = (lambda t: z3.simplify(z3.substitute(t, *pairs))) if pairs else (lambda t: t)
    npaths = []
    for s, o, c, facts in paths:
        c2 = sub(c)
        if z3.is_false(z3.simplify(c2)):
            continue
        npaths.append((s, o, c2, [sub(f) for f in facts]))
    paths = npaths
    remaining = {nm for nm, (key, c) in hconst.items() if key not in lin}

    def clean(t):
        return not (set(free_consts(t)) & remaining)
    # --- constants created inside the iteration become functions of k
    allterms = [c for _, _, c, _ in paths] + [f for _, _, _, fs in paths for f in fs]
    for s, o, c, _ in paths:
        for (f, nm) in mod.locals:
            if nm in s.frames[f]:
                allterms += [sub(t) for t in terms_of(s.frames[f][nm], s)]
        for lid in mod.llists:
            kind, x = s.llists[lid]
            if isinstance(x, CatSeq) and isinstance(x.b, ConcSeq):
                for it in x.b.items:
                    allterms += [sub(t) for t in terms_of(it, s)]
    hnames = set(hconst)
    skp = [(a, b) for a, b in skolemise_locals(eng, ctr0, k, allterms) if a.decl().name() not in hnames]
    sk = (lambda t: z3.substitute(sub(t), *skp)) if skp else sub
    paths = [(s, o, z3.substitute(c, *skp) if skp else c, [z3.substitute(f, *skp) if skp else f for f in fs]) for s, o, c, fs in paths]
    for s, o, c, _ in paths:
        if not clean(c):
            raise NotSummarisable("control flow depends on " + ", ".join(sorted(set(free_consts(c)) & remaining)))
    normal = [p for p in paths if p[1][0] == "val"]
    ends = [p for p in paths if isinstance(p[1][1], LoopEnd)]
    exits = [p for p in paths if p[1][0] != "val" and not isinstance(p[1][1], LoopEnd)]
    facts = []
    seen = set()
    for _, _, _, fs in paths:
        for f in fs:
            if clean(f) and f.sexpr() not in seen and not has_quant(f):
                seen.add(f.sexpr())
                facts.append(f)
    # --- bound of a while loop
    bound = n
    if n is None:
        if not ends:
            if not exits:
                raise Infeasible()
        else:
            e = z3.simplify(z3.Or(*[c for _, _, c, _ in ends]))
            N = find_bound(eng, e, k, st0, facts)
            if N is not None:
                bound = z3.simplify(z3.If(N > 0, N, z3.IntVal(0)))
            else:
                exits = exits + ends
                ends = []
    # --- exit index
    if exits:
        E = z3.simplify(z3.Or(*[c for _, _, c, _ in exits]))
        J = eng.folds.first_exit(bound, k, E)
    else:
        if bound is None:
            raise Infeasible()
        J = bound
    jf = [z3.substitute(f, (k, J)) for f in facts] if exits else []
    # --- effects of the normal iterations before J
    newloc, newll = {}, {}
    for key in sorted(mod.locals, key=str):
        f, nm = key
        init = st0.frames[f].get(nm)
        if key in lin:
            newloc[key] = IntV(z3.simplify(init.t + lin[key] * J))
            continue
        v = hv.get(key)
        if v is None:
            newloc[key] = last_value(eng, key, normal, init, k, J, sk, remaining, facts)
            continue
        newloc[key] = closed_form(eng, key, v, normal, init, k, J, sk, clean, remaining, facts)
    for lid in sorted(mod.llists):
        kind, x0 = st0.llists[lid]
        apps = []
        for s, o, c, _ in normal:
            kind, x = s.llists[lid]
            if isinstance(x, HavocSeq):
                continue
            if isinstance(x, CatSeq) and isinstance(x.a, HavocSeq) and isinstance(x.b, ConcSeq) and len(x.b.items) == 1:
                apps.append((s, c, x.b.items[0]))
            else:
                raise NotSummarisable("list updated other than by one append per iteration")
        if not apps:
            newll[lid] = x0
            continue
        vals = []
        for s, c, it in apps:
            sv = eng.st
            its = import_value(eng, it, s)
            its = subst_sv(eng, its, pairs) if pairs else its
            its = subst_sv(eng, its, skp) if skp else its
            for t in terms_of(its, eng.st):
                if not clean(t):
                    raise NotSummarisable("appended value depends on the iteration history")
            vals.append((c, its))
        # before the exit the exit condition does not hold: it may weaken the condition of the append
        cond = z3.simplify(z3.Or(*[c for c, _ in vals] + ([E] if exits else [])))
        cond = eng.folds.opaque(cond, k)
        elem = vals[0][1] if len(vals) == 1 else eng.merge_values(vals)

        def condf(j, cond=cond):
            return z3.substitute(cond, (k, j))

        def elemf(j, elem=elem, facts=tuple(facts), cond=cond):
            for fx in facts:
                if k.decl().name() in free_consts(fx):
                    eng.assume(z3.Implies(z3.And(0 <= j, j < J), z3.substitute(fx, (k, j))))
            return subst_sv(eng, elem, [(k, j)])
        always = z3.is_true(cond) or always_true(eng, cond, k, J)
        q = FnSeq(J, elemf) if always else FiltSeq(J, condf, elemf)
        newll[lid] = q if x0.conc() == 0 else CatSeq(x0, q)

    obl = list(st0.obl)
    ids = {id(x) for x in obl}
    for s, o in results:
        for x in s.obl:
            if id(x) not in ids:
                ids.add(id(x))
                obl.append(x)
    obl = tuple(obl)

    def put():
        eng.st.obl = obl
        for (f, nm), v in newloc.items():
            if v is None:
                eng.st.frames[f].pop(nm, None)
            else:
                eng.st.frames[f][nm] = v
        for lid, q in newll.items():
            eng.st.llists[lid] = ("seq", q)
        for fx in jf:
            eng.assume(z3.Implies(z3.And(0 <= J, (J < bound) if bound is not None else z3.BoolVal(True)), fx))
    if not exits:
        put()
        if orelse:
            orelse()
        return
    if bound is not None and eng.branch(J >= bound):
        put()
        if orelse:
            orelse()
        return
    put()
    try:
        step(J)
    except LoopEnd:
        if orelse:
            orelse()
        return
    except BreakSig:
        return
    raise Infeasible()


def always_true(eng, cond, k, J):
    st = eng.st
    eng.st = st.copy()
    try:
        eng.assume(z3.And(0 <= k, k < J))
        return not has_quant(cond) and eng.entails(cond)
    finally:
        eng.st = st


def find_bound(eng, e, k, st0, facts):
    """N with e(k) <=> k >= N for all k >= 0"""
    cands = []
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and x.num_args() == 2 and x.arg(0).sort() == I:
                d = x.arg(0) - x.arg(1)
                d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
                d1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - d0)
                if z3.is_int_value(d1) and d1.as_long() in (1, -1):
                    N = z3.simplify(-d0 if d1.as_long() == 1 else d0)
                    cands += [N, z3.simplify(N + 1)]
            else:
                todo += list(x.children())
    st = eng.st
    for N in cands[:8]:
        eng.st = st.copy()
        try:
            eng.assume(k >= 0)
            for f in facts:
                eng.assume(f)
            if eng.entails(e == (k >= N)):
                return N
        finally:
            eng.st = st
    return None


def terms_of(v, st=None):
    if isinstance(v, (IntV, RealV, BoolV, StrV, EnumV, RefV, DtV, DateV, TimeV, DeltaV, AnyV, ListV, DictV)):
        return [v.t]
    if isinstance(v, OptV):
        return [v.isnone] + terms_of(v.v, st)
    if isinstance(v, UnionV):
        return [x for g, w in v.alts for x in [g] + terms_of(w, st)]
    if isinstance(v, TupleV):
        return [x for w in v.items for x in terms_of(w, st)]
    if isinstance(v, CDictV) and st is not None:
        return [x for k_, w in st.cdicts[v.did] for x in terms_of(w, st)]
    if isinstance(v, LocalListV) and st is not None:
        kind, x = st.llists[v.lid]
        if kind == "seq" and isinstance(x, ConcSeq):
            return [y for w in x.items for y in terms_of(w, st)]
    if isinstance(v, TzV):
        return [v.t]
    return []


def import_value(eng, v, s, base=None):
    """bring a value of another state (same heap) into the current state"""
    if isinstance(v, CDictV):
        if base is not None and v.did in base.cdicts:
            return v
        return eng.new_cdict([(k, import_value(eng, x, s, base)) for k, x in s.cdicts[v.did]])
    if isinstance(v, LocalListV):
        if base is not None and v.lid in base.llists:
            return v
        kind, x = s.llists[v.lid]
        if kind == "heap":
            return x
        return eng.new_llist(import_seq(eng, x, s, base))
    if isinstance(v, TupleV):
        return TupleV([import_value(eng, x, s, base) for x in v.items])
    if isinstance(v, UnionV):
        return UnionV([(g, import_value(eng, w, s, base)) for g, w in v.alts])
    if isinstance(v, OptV):
        return OptV(v.isnone, import_value(eng, v.v, s, base))
    if isinstance(v, SeqV):
        return SeqV(import_seq(eng, v.seq, s, base))
    if isinstance(v, ViewV) and isinstance(v.d, CDictV):
        return ViewV(v.kind, import_value(eng, v.d, s, base))
    if isinstance(v, ExtV) and isinstance(v.data, SV):
        return ExtV(v.name, import_value(eng, v.data, s, base))
    return v


def import_seq(eng, x, s, base=None):
    if isinstance(x, ConcSeq):
        return ConcSeq([import_value(eng, y, s, base) for y in x.items])
    if isinstance(x, CatSeq):
        return CatSeq(import_seq(eng, x.a, s, base), import_seq(eng, x.b, s, base))
    if isinstance(x, RevSeq):
        return RevSeq(import_seq(eng, x.s, s, base))
    return x


def closed_form(eng, key, v, normal, init, k, J, sk, clean, remaining, facts):
    f, nm = key
    deltas, setters, unchanged = [], [], True
    num = isinstance(v, (IntV, RealV))
    ok_add = num
    for s, o, c, _ in normal:
        x = s.frames[f].get(nm)
        if x is v:
            continue
        unchanged = False
        xv = x
        if isinstance(xv, (IntV, RealV, BoolV)) and num:
            if isinstance(v, RealV):
                d = z3.simplify(sk(to_real(xv)) - to_real(v))
            else:
                if isinstance(xv, RealV):
                    ok_add = False
                    continue
                d = z3.simplify(sk(to_int(xv)) - v.t)
            if clean(d):
                deltas.append((c, d))
            else:
                ok_add = False
        else:
            ok_add = False
        ts = [sk(t) for t in terms_of(x)]
        if all(clean(t) for t in ts) and not isinstance(x, (LocalListV, CDictV, Poison)):
            setters.append((c, x))
        else:
            setters.append((c, None))
    if unchanged:
        return init
    if ok_add:
        zero = z3.IntVal(0) if isinstance(v, IntV) else z3.RealVal(0)
        e = zero
        for c, d in deltas:
            e = z3.If(c, d, e)
        e = z3.simplify(e)
        for fx in facts:
            if k.decl().name() in free_consts(fx):
                pass
        add_fold_facts(eng, facts, k, J)
        F = eng.folds.fold(J, k, e)
        if isinstance(v, IntV):
            return IntV(z3.simplify(to_int(init) + F))
        return RealV(z3.simplify(to_real(init) + F))
    if all(x is not None for _, x in setters):
        # last writer
        W = z3.simplify(z3.Or(*[c for c, _ in setters]))
        consts = setters[0][1]
        if all(not set(free_consts(t)) & {k.decl().name()} for _, x in setters for t in terms_of(x)) and \
                all(z3.is_true(z3.simplify(eng.eq(x, consts))) for _, x in setters):
            fw = eng.folds.first_exit(J, k, W)
            return eng.merge_values([(fw < J, consts), (z3.Not(fw < J), init)])
        if z3.is_true(W) or always_true(eng, W, k, J):
            m = setters[0][1] if len(setters) == 1 else eng.merge_values(setters)
            m = subst_sv(eng, subst_sv(eng, m, []) if False else m, [(k, J - 1)])
            return eng.merge_values([(J > 0, m), (z3.Not(J > 0), init)])
    raise NotSummarisable(f"variable {nm}")


def add_fold_facts(eng, facts, k, J):
    """definitional facts of the summed expression hold for every index"""
    for fx in facts:
        fc = free_consts(fx)
        if k.decl().name() in fc:
            q = z3.Const("ff_k", I)
            b = z3.substitute(fx, (k, q))
            eng.st.hyps.append((z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < J), b)), False))


def last_value(eng, key, normal, init, k, J, sk, remaining, facts):
    """variables without loop-carried value: only available when every iteration sets them"""
    f, nm = key
    vals = []
    for s, o, c, _ in normal:
        x = s.frames[f].get(nm)
        if x is None or isinstance(x, Poison):
            return POISON
        ts = [sk(t) for t in terms_of(x)]
        if any(set(free_consts(t)) & remaining for t in ts) or not ts:
            return POISON
        vals.append((c, x))
    return POISON


# ------------------------------------------------------------------ invariant mode
def invariant_loop(eng, n, step, node, fid, orelse, seq, k, mod, types, why):
    st0 = eng.st
    if eng.debug:
        print("   invariant loop, line", getattr(node, "lineno", "?"), why, "calls", [str(c.qual) for c in eng.call_stack], sorted(map(str, mod.heap)), len(mod.side), len(mod.ext))
    if mod.side:
        raise Unsupported("loop changes function-valued fields")
    if mod.cdicts:
        raise Unsupported("dict display changed in a loop with invariants")
    # lists built in the loop become heap lists
    for lid in sorted(mod.llists):
        kind, x = st0.llists[lid]
        if kind == "seq":
            raise Unsupported(f"list built in a loop with other effects ({why}) [line {getattr(node, 'lineno', '?')}]")
    # list contents of the iterated sequence must not change while it is iterated
    pool = list(eng.loop_pool)
    kk = eng.new_generic("li")
    cands = []
    for text, tree in pool:
        if "_D" in {x.id for x in ast.walk(tree) if isinstance(x, ast.Name)} and getattr(eng, "comp_dict", None) is None:
            continue
        if "_L" in {x.id for x in ast.walk(tree) if isinstance(x, ast.Name)}:
            for (f, nm) in sorted(mod.locals, key=str):
                if types.get((f, nm)) is not None and isinstance(types[(f, nm)], (TRef, TInt, TReal)):
                    cands.append((f"{text} [_L={nm}]", tree, (f, nm)))
        else:
            cands.append((text, tree, None))
    auto = auto_candidates(eng, st0, mod, seq)

    def evalc(cand, idx):
        """candidate in the current state at iteration idx -> z3 Bool or None"""
        text, tree, loc = cand
        env = dict(eng.root_env)
        env["_i"] = IntV(idx)
        if n is not None:
            env["_n"] = IntV(n)
        if seq is not None:
            env["_seq"] = SeqV(base_view(seq))
        if loc is not None:
            env["_L"] = eng.st.frames[loc[0]].get(loc[1], NONE)
        env["_D"] = getattr(eng, "comp_dict", None) or NONE
        env["$loop_old"] = st0
        try:
            return eng.spec_term(tree, env)
        except (Unsupported, PyExc) as e:
            if eng.debug:
                print("   invariant not evaluated:", text, repr(e))
            return None
    # a path re-executed from the entry meets the loop in the very same state: nothing is proved twice
    ckey = (id(node), k.decl().name(), tuple(f.hash() for f, _ in st0.hyps), tuple(sorted((str(x), t.hash()) for x, t in st0.heap.items())), len(st0.trace),
            tuple((str(f), nm, type(x).__name__, local_terms(x)) for f, vs in st0.frames.items() for nm, x in vs.items()))
    cache = eng.__dict__.setdefault("loop_cache", {})
    if ckey in cache:
        live, autolive, res, sth = cache[ckey]
    else:
        live, autolive, res, sth = infer_invariants(eng, cands, auto, evalc, st0, mod, types, k, n, step)
        cache[ckey] = (live, autolive, res, sth)
    for c in live:
        eng.inv_obligs.append((f"loop invariant at line {getattr(node, 'lineno', '?')}: {c[0]}", eng.call_stack[-1].qual if eng.call_stack else "?"))
    if isinstance(seq, ArrSeq) and seq.src is not None:
        kl, kb, ka = eng.lkeys(seq.src.T)
        if any(x in mod.heap for x in [kl, kb] + ka) and not any(nm == "iterated list unchanged" for nm, _ in autolive):
            raise Unsupported("the list iterated over is modified in the loop")
    eng.touch_all(mod.heap)
    # outcomes
    obl = list(st0.obl)
    ids = {id(x) for x in obl}
    for s, o in res:
        for x in s.obl:
            if id(x) not in ids:
                ids.add(id(x))
                obl.append(x)
    obl = tuple(obl)
    seg_paths = []
    alts = []
    for s, o in res:
        ev = s.trace
        if o[0] == "val":
            seg_paths.append((s, ev))
    if mod.trace:
        pre = st0.trace
    for s, o in res:
        if o[0] == "val":
            continue
        s2 = s.copy()
        if mod.trace:
            s2.trace = st0.trace + (Segment(k, k, seg_paths, seq),) + tuple(s.trace)
        alts.append((s2, o))
    if n is not None:
        end, _ = havoc(eng, st0, mod, types)
        eng.st = end
        try:
            for c in live:
                t = evalc(c, n)
                if t is not None:
                    eng.assume(t)
            for nm, f in autolive:
                eng.assume(f(eng.st))
            if mod.trace:
                eng.st.trace = st0.trace + (Segment(n, k, seg_paths, seq),)
            # locals set in the loop body
        finally:
            eng.st = st0
        alts.insert(0, (end, ("sig", LoopEnd())))
    for s2, _ in alts:
        s2.obl = obl
    try:
        eng.pick(alts)
    except LoopEnd:
        if orelse:
            orelse()
    except BreakSig:
        pass


def local_terms(x):
    try:
        return tuple(t.hash() for t in terms_of(x))
    except Exception:
        return id(x)


def infer_invariants(eng, cands, auto, evalc, st0, mod, types, k, n, step):
    """the candidates that hold initially and are preserved by an iteration, with the outcomes of an iteration"""
    # initialisation
    live = []
    for c in cands:
        eng.st = st0.copy()
        try:
            t = evalc(c, z3.IntVal(0))
            if t is None:
                continue
            if solve.prove(eng, eng.st.hyps, t, 4000, light=True):
                live.append(c)
            elif eng.debug:
                print("   invariant does not hold initially:", c[0])
        finally:
            eng.st = st0
    autolive = list(auto)
    it = 0
    while True:
        it += 1
        if it > 12:
            raise Unsupported("loop invariants do not stabilise")
        sth, hv = havoc(eng, st0, mod, types)
        eng.st = sth
        try:
            eng.assume(k >= 0)
            if n is not None:
                eng.assume(k < n)
            for c in live:
                t = evalc(c, k)
                if t is not None:
                    eng.assume(t)
            for nm, f in autolive:
                eng.assume(f(eng.st))
        finally:
            eng.st = st0
        res = eng.explore(lambda: step(k), sth)
        bad = set()
        nob = 0
        for s, o in res:
            if o[0] != "val":
                continue
            m = diff(sth, s, Mod())
            extra = [x for x in m.heap if x not in mod.heap]
            if extra:
                raise Unsupported(f"unstable loop effects {extra}")
            for i, c in enumerate(live):
                if i in bad:
                    continue
                eng.st = s.copy()
                try:
                    t = evalc(c, z3.simplify(k + 1))
                    ok = t is not None and solve.prove(eng, eng.st.hyps, t, 6000, light=True)
                    if eng.debug:
                        print("     inv", ok, c[0], "len hyps", len(eng.st.hyps), f"{time.time() - eng.dbg_t:.1f}" if hasattr(eng, "dbg_t") else "")
                        eng.dbg_t = time.time()
                    if not ok:
                        bad.add(i)
                    else:
                        nob += 1
                finally:
                    eng.st = st0
            for i, (nm, f) in enumerate(autolive):
                if ("a", i) in bad:
                    continue
                if not solve.prove(eng, s.hyps, f(s), 1000, light=True, quick=True):
                    bad.add(("a", i))
        if not bad:
            break
        if eng.debug:
            print("   dropped invariants:", [live[i][0] if not isinstance(i, tuple) else autolive[i[1]][0] for i in bad])
        live = [c for i, c in enumerate(live) if i not in bad]
        autolive = [c for i, c in enumerate(autolive) if ("a", i) not in bad]
    return live, autolive, res, sth


def base_view(seq):
    if isinstance(seq, FiltSeq):
        return FnSeq(seq.base_n, seq.f)
    return seq


def auto_candidates(eng, st0, mod, seq):
    out = []
    a0 = st0.alloc
    allowed = {}
    if getattr(eng, "root_allowed", None) is not None and eng.old_states:
        sv = eng.st
        eng.st = st0.copy()
        try:
            allowed = eng.root_allowed()
        except (Unsupported, PyExc):
            pass
        finally:
            eng.st = sv
    for key in sorted(mod.heap, key=str):
        old = st0.heap.get(key)
        if old is None:
            continue
        r = z3.Const("fr_r", I)

        def f(s, key=key, old=old, r=r):
            cur = s.heap[key]
            return forall([r], z3.Implies(z3.And(0 <= r, r < a0), z3.Select(cur, r) == z3.Select(old, r)),
                          patterns=[z3.Select(cur, r)])
        out.append((f"only new objects change in {key}", f))
        pre = eng.old_states[-1] if eng.old_states else None
        refs = allowed.get(tuple(key[:3] if key[0] == "F" else key[:2]))
        if pre is not None and isinstance(refs, list):
            def al(s, key=key, old=old, r=r, refs=refs):
                cur = s.heap[key]
                return forall([r], z3.Implies(z3.And(0 <= r, r < pre.alloc, *[r != x for x in refs]), z3.Select(cur, r) == z3.Select(old, r)),
                              patterns=[z3.Select(cur, r)])
            out.append((f"only what the contract allows changes in {key}", al))
        if pre is not None and not pre.alloc.eq(a0):
            def h(s, key=key, old=old, r=r):
                cur = s.heap[key]
                return forall([r], z3.Implies(z3.And(0 <= r, r < pre.alloc), z3.Select(cur, r) == z3.Select(old, r)),
                              patterns=[z3.Select(cur, r)])
            out.append((f"only objects new in this call change in {key}", h))
    if isinstance(seq, ArrSeq) and seq.src is not None:
        kl, kb, ka = eng.lkeys(seq.src.T)
        ks = [x for x in [kl, kb] + ka if x in mod.heap]
        if ks:
            def g(s, ks=ks):
                return z3.And(*[z3.Select(s.heap[x], seq.src.t) == z3.Select(st0.heap[x], seq.src.t) for x in ks])
            out.append(("iterated list unchanged", g))
    return out


# ------------------------------------------------------------------ comprehensions and generators
def comp_frame(eng, e, fid):
    return eng.new_frame(fid, eng.st.frames[fid]["$mod"], eng.st.frames[fid]["$fn"])


def run_comp(eng, e, fid, leaf):
    cf = comp_frame(eng, e, fid)

    def level(i):
        if i == len(e.generators):
            leaf(cf)
            return
        g = e.generators[i]
        it = eng.ev(g.iter, cf if i else fid)

        def body(v):
            eng.assign(g.target, v, cf)
            for c in g.ifs:
                if not eng.branch(eng.truth(eng.ev(c, cf), c)):
                    return
            level(i + 1)
        iterate(eng, it, body, e, cf)
    level(0)


def list_comp(eng, e, fid):
    lst = eng.new_llist(ConcSeq([]))
    run_comp(eng, e, fid, lambda cf: eng.list_append(lst, eng.ev(e.elt, cf), e))
    return lst


def gen_exp(eng, e, fid):
    return SeqV(eng.list_seq(list_comp(eng, e, fid)))


def comp_dict_type(eng, e, fid):
    """type of a dict built from a sequence of unknown length, None when the length is known"""
    if len(e.generators) != 1:
        return None
    st0 = eng.st
    eng.st = st0.copy()
    try:
        it = eng.force(eng.ev(e.generators[0].iter, fid), e)
        if isinstance(it, GenV):
            return None
        seq = eng.iter_seq(it, e)
        if seq.conc() is not None:
            return None
        k = eng.new_generic("dc")
        eng.assume(z3.And(0 <= k, k < seq.n))
        cf = comp_frame(eng, e, fid)
        eng.assign(e.generators[0].target, seq.get(k), cf)
        return TDict(eng.type_of(eng.force(eng.ev(e.key, cf))), eng.type_of(eng.ev(e.value, cf)))
    except (PyExc, Unsupported):
        return None
    finally:
        eng.st = st0


def dict_comp(eng, e, fid):
    d = eng.new_cdict([])
    T = comp_dict_type(eng, e, fid)
    if T is not None:
        d = eng.heap_dict(d, T)
        outer, eng.comp_dict = getattr(eng, "comp_dict", None), d
        try:
            run_comp(eng, e, fid, lambda cf: eng.setitem(d, eng.ev(e.key, cf), eng.ev(e.value, cf), e))
        finally:
            eng.comp_dict = outer
        return d
    run_comp(eng, e, fid, lambda cf: eng.setitem(d, eng.ev(e.key, cf), eng.ev(e.value, cf), e))
    return d


def gen_seq(eng, g, node):
    lst = eng.new_llist(ConcSeq([]))
    fid = eng.new_frame(None, g.fn.module)
    iterate(eng, g, lambda v: eng.list_append(lst, v, node), node, fid)
    return eng.list_seq(lst)
