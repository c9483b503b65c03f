"""Folds (sums), filtered sequences and first-exit indices as uninterpreted functions.

A fold  sum(e(k) for k in range(n))  becomes F(params, n) where F is keyed by the text of
e; what is known of F is instantiated, quantifier free, for the applications that occur in
a verification condition (`instances`):
  n <= 0 -> F(n) = 0 ;  n > 0 -> F(n) = F(n-1) + e(n-1)
  F(n) = G(n) unless some 0 <= sk < n has e_F(sk) != e_G(sk)          (sk skolem)
  F(n) >= 0 unless some 0 <= sk < n has e_F(sk) < 0 ; likewise <=, and monotonicity.
Each is a theorem of the recursive definition (induction on n).
"""
import z3

from .terms import free_consts, has_quant, has_var, info
from .values import fresh, I, R, B


def forall(vs, body, patterns):
    try:
        return z3.ForAll(vs, body, patterns=patterns)
    except z3.Z3Exception:      # a parameter is not allowed in a pattern
        return z3.ForAll(vs, body)


class FoldFn:
    def __init__(self, decl, params, k, e, sort):
        self.decl, self.params, self.k, self.e, self.sort = decl, params, k, e, sort

    def elem(self, ps, k):
        return z3.substitute(self.e, *([(self.k, k)] + list(zip(self.params, ps))))


class _Binder(Exception):
    pass


class FiltMap:
    def __init__(self, count, idx, cnt):
        self.count, self.idx, self.cnt = count, idx, cnt


class Folds:
    def __init__(self, eng):
        self.eng = eng
        self.table = {}      # key -> FoldFn
        self.by_decl = {}    # decl name -> FoldFn
        self.entries = {}    # interned bodies: key -> (body, params, function, seen arguments)
        self.preds = {}      # named quantified formulas
        self.depth = 0
        self.keep = []

    # -- canonical abstraction of a term over index k: every maximal subterm without k is a parameter, so that
    #    the same expression over different heap versions or objects is one function of different arguments
    def _canon(self, e, k, extra=()):
        e = z3.simplify(e)
        kn = k.decl().name()
        kk = z3.Const("fold_k", I)
        params, args, memo = [], [], {}

        def param(t):
            for p, a in zip(params, args):
                if a.eq(t):
                    return p
            p = z3.Const(f"fold_p{len(params)}_{t.sort()}", t.sort())
            params.append(p)
            args.append(t)
            return p

        def lit(t):
            return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t) or z3.is_string_value(t)

        def go(t):
            if t.eq(k):
                return kk
            r = memo.get(t.get_id())
            if r is None:
                r = go1(t)
                memo[t.get_id()] = r
            return r

        def go1(t):
            if lit(t):
                return t
            if z3.is_bool(t) and not has_var(t) and kn not in free_consts(t):
                # decided by what is known on this path
                if self.eng.entails(t):
                    return z3.BoolVal(True)
                if self.eng.entails(z3.Not(t)):
                    return z3.BoolVal(False)
            if has_var(t):
                # below a binder: only whole closed parts are parameters
                if z3.is_quantifier(t):
                    raise _Binder()
            if kn not in free_consts(t):
                return param(t)
            if z3.is_quantifier(t):
                raise _Binder()
            d, cs = t.decl(), t.children()
            if d.kind() == z3.Z3_OP_ADD:
                free = [c for c in cs if kn not in free_consts(c)]
                bound = [c for c in cs if kn in free_consts(c)]
                if len(free) > 1 or (free and not lit(free[0])):
                    f = z3.simplify(z3.Sum(*free)) if len(free) > 1 else free[0]
                    return z3.Sum(*([go(c) for c in bound] + [f if lit(f) else param(f)]))
            ns = [go(c) for c in cs]
            if d.kind() == z3.Z3_OP_AND:
                return z3.And(*ns)
            if d.kind() == z3.Z3_OP_OR:
                return z3.Or(*ns)
            if d.kind() == z3.Z3_OP_ADD:
                return z3.Sum(*ns)
            if d.kind() == z3.Z3_OP_MUL:
                return z3.Product(*ns)
            return d(*ns)
        try:
            body = z3.simplify(go(e))
        except _Binder:
            fc = free_consts(e)
            args = [g for n, g in self.eng.generic_consts.items() if n in fc and not g.eq(k)]
            params = [z3.Const(f"fold_p{i}_{g.sort()}", g.sort()) for i, g in enumerate(args)]
            body = z3.substitute(e, *([(k, kk)] + list(zip(args, params))))
        return body, kk, params, args

    def tidy(self, t):
        """0 if there is nothing to sum, otherwise the sum: the sum"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            for c, x, y in ((c, a, b), (z3.Not(c), b, a)):
                y = self.tidy(y)
                w = y.arg(0) if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_TO_REAL else y
                if (z3.is_int_value(x) or z3.is_rational_value(x)) and str(x) == "0" and z3.is_app(w) and \
                        w.decl().name() in self.by_decl:
                    sol = z3.SimpleSolver()
                    sol.set("timeout", 300)
                    sol.add(c, w.arg(w.num_args() - 1) > 0)
                    if sol.check() == z3.unsat:
                        return y
        return t

    def opaque(self, e, k):
        """e with every quantified subformula that depends on k named by a predicate of its closed parts
        (the definition of the predicate is instantiated where it is applied: `definitions`)"""
        kn = k.decl().name()
        out = {}

        def find(t):
            if t.get_id() in out or not has_quant(t) or kn not in free_consts(t):
                return
            if z3.is_quantifier(t):
                out[t.get_id()] = (t, self.name_pred(t))
                return
            for c in t.children():
                find(c)
        find(e)
        return z3.substitute(e, *out.values()) if out else e

    def name_pred(self, q):
        parts = []

        def walk(t):
            if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                return
            if z3.is_var(t):
                return
            if not has_var(t):
                if not any(t.eq(x) for x in parts):
                    parts.append(t)
                return
            if z3.is_quantifier(t):
                walk(t.body())
                return
            for c in t.children():
                walk(c)
        bv = z3.Const("bv_", q.var_sort(0))
        if q.num_vars() == 1:       # one normal form
            b = z3.simplify(z3.substitute_vars(q.body(), bv))
            q = (z3.ForAll if q.is_forall() else z3.Exists)([bv], b)
        walk(q)
        params = [z3.Const(f"fold_p{i}_{t.sort()}", t.sort()) for i, t in enumerate(parts)]
        body = z3.substitute(q, *zip(parts, params)) if parts else q
        def make(nm):
            d = z3.Function(nm, *([p.sort() for p in params] + [B]))
            self.preds[d.name()] = (params, body)
            return d
        d, parts = self.intern("Pred", body, params, parts, make)
        return d(*parts) if parts else d()

    def definitions(self, fs):
        """definitions of the named predicates applied to ground terms in fs"""
        out = []
        if self.preds:
            for a in apps_of(fs, set(self.preds)):
                params, body = self.preds[a.decl().name()]
                out.append(a == z3.substitute(body, *zip(params, a.children())))
        return out

    def generic_k(self):
        return self.eng.new_generic("fk")

    def fold(self, n, k, e):
        """sum of e over 0 <= k < n ; k is a generic constant occurring in e"""
        e = self.opaque(e, k)
        body, kk, params, gens = self._canon(e, k)
        if z3.is_int_value(body) and body.as_long() == 0:
            return z3.IntVal(0)
        if z3.is_rational_value(body) and body.numerator_as_long() == 0:
            return z3.RealVal(0)
        sort = body.sort()

        def make(name):
            d = z3.Function(name, *([p.sort() for p in params] + [I, sort]))
            f = FoldFn(d, params, kk, body, sort)
            self.by_decl[d.name()] = f
            return f
        f, gens = self.intern("Sum", body, params, gens, make)
        return f.decl(*(gens + [n]))

    def intern(self, kind, body, params, args, make):
        """the function standing for this body; two bodies over the same arguments that are
        equal as formulas (for all values of the parameters) share one function"""
        key = (kind, body.sexpr(), str(body.sort()), tuple(str(p) for p in params))
        e = self.entries.get(key)
        if e is None:
            for k2, (b2, p2, f2, seen) in list(self.entries.items()):
                if b2 is None or k2[0] != kind or b2.sort() != body.sort():
                    continue
                done = set()
                if len(p2) == len(params) and self.equal(body, params, b2, p2, list(range(len(p2)))):
                    e = (None, [(None, q) for q in range(len(p2))], f2, None)
                    self.entries[key] = e
                    break
                done.add(tuple(range(len(p2))))
                for a2 in seen:
                    pos = [next((j for j, y in enumerate(args) if x.eq(y)), None) for x in a2]
                    if pos.count(None) > 8 or tuple(pos) in done or len(args) - len(a2) + pos.count(None) > 8:
                        continue
                    done.add(tuple(pos))
                    if self.equal(body, params, b2, p2, pos):
                        e = (None, [(x, q) for x, q in zip(a2, pos)], f2, None)
                        self.entries[key] = e
                        break
                if e is not None:
                    break
        if e is None:
            e = (body, params, make(f"{kind}{len(self.entries)}"), [])
            self.entries[key] = e
        if e[0] is None:
            return e[2], [args[q] if q is not None else x for x, q in e[1]]
        seen = e[3]
        if len(seen) < 8 and not any(all(x.eq(y) for x, y in zip(args, s)) for s in seen):
            seen.append(list(args))
        return e[2], args

    def equal(self, b1, p1, b2, p2, pos):
        """b1 == b2 for all values of the parameters, where the i-th of p2 is the pos[i]-th of p1"""
        if any(q is not None and p2[i].sort() != p1[q].sort() for i, q in enumerate(pos)):
            return False
        b = z3.substitute(b2, *[(p2[i], z3.Const(f"eq_{i}_{p2[i].sort()}", p2[i].sort()) if q is None else p1[q])
                                for i, q in enumerate(pos)]) if p2 else b2
        if b.eq(b1):
            return True
        while z3.is_quantifier(b1) and z3.is_quantifier(b) and b1.is_forall() == b.is_forall() and b1.num_vars() == b.num_vars() \
                and all(b1.var_sort(i) == b.var_sort(i) for i in range(b.num_vars())):
            vs = [z3.Const(f"eqv_{i}_{b.var_sort(i)}", b.var_sort(i)) for i in range(b.num_vars())]
            b1, b = z3.substitute_vars(b1.body(), *vs), z3.substitute_vars(b.body(), *vs)
        if has_quant(b1) or has_quant(b):
            return False
        sol = z3.SimpleSolver()
        sol.set("timeout", 300)
        sol.add(b1 != b)
        return sol.check() == z3.unsat

    def filt(self, s):
        """index map of a filtered sequence"""
        eng = self.eng
        k = self.generic_k()
        c = self.opaque(s.cond(k), k)
        n = s.base_n
        cntf = lambda m: self.fold(m, k, z3.If(c, z3.IntVal(1), z3.IntVal(0)))
        body, kk, params, gens = self._canon(c, k)
        idx, gens = self.intern("Idx", body, params, gens,
                                lambda nm: z3.Function(nm, *([p.sort() for p in params] + [I, I, I])))
        ix = lambda j: idx(*(gens + [n, j]))
        count = cntf(n)
        cond_at = lambda t: z3.substitute(c, (k, t))
        j, j2, q = z3.Ints("fj fj2 fq")
        eng.assume(z3.And(count >= 0, z3.Or(count <= n, n < 0)))
        eng.assume(forall([j], z3.Implies(z3.And(0 <= j, j < count),
                   z3.And(0 <= ix(j), ix(j) < n, cond_at(ix(j)), cntf(ix(j)) == j)), patterns=[ix(j)]))
        eng.assume(forall([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < count), ix(j) < ix(j2)),
                   patterns=[z3.MultiPattern(ix(j), ix(j2))]))
        cq = cntf(q)
        if not z3.is_int_value(cq):
            eng.assume(forall([q], z3.Implies(z3.And(0 <= q, q < n, cond_at(q)),
                       z3.And(0 <= cq, cq < count, ix(cq) == q)), patterns=[cq]))
        return FiltMap(count, ix, cntf)

    def first_exit(self, n, k, cond):
        """least 0 <= j < n with cond(j), else n  (n None: unbounded, partial correctness)"""
        eng = self.eng
        cond = self.opaque(cond, k)
        body, kk, params, gens = self._canon(cond, k)
        nt = n if n is not None else z3.IntVal(-1)

        def make(nm):
            f = z3.Function(nm, *([p.sort() for p in params] + [I, I]))
            self.exits = getattr(self, "exits", {})
            self.exits[f.name()] = (params, kk, body)
            return f
        f, gens = self.intern("First" if n is not None else "Exit", body, params, gens, make)
        j = f(*(gens + [nt]))
        at = lambda t: z3.substitute(cond, (k, t))
        q = z3.Int("eq")
        if n is not None:
            eng.assume(z3.And(0 <= j, z3.Or(j <= n, n < 0)))
            eng.assume(z3.Implies(n <= 0, j == 0))
            eng.assume(z3.Implies(j < n, at(j)))
        else:
            eng.assume(z3.And(0 <= j, at(j)))
        eng.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < j), z3.Not(at(q)))))
        return j


def apps_of(formulas, names):
    """ground applications of the named functions"""
    out = {}
    for f in formulas:
        a = info(f).apps
        for nm in (a.keys() & names):
            for i, x in a[nm].items():
                if i not in out and not has_var(x):
                    out[i] = x
    return list(out.values())


def instances(folds, formulas, rounds=2, cap=160, lean=False):
    """quantifier-free lemma instances for the folds and first-exit functions in formulas"""
    names = set(folds.by_decl)
    out = []
    done_unfold, done_pair = set(), set()
    work = list(formulas)
    memo = folds.__dict__.setdefault("sk_memo", {})

    def sk(kind, *apps):
        # one witness per lemma, the same whenever the lemma is made again
        key = (kind,) + tuple(x.get_id() for x in apps)
        r = memo.get(key)
        if r is None:
            r = memo[key] = (z3.Const(f"fsk!{len(memo)}", I), apps)
        return r[0]
    all_apps = {}
    npairs = 0
    for rnd in range(rounds):
        apps = apps_of(work, names)
        apps.sort(key=lambda a: a.sexpr())
        new = []
        # pattern: unfold once per application
        for a in apps:
            key = a.sexpr()
            if key in done_unfold or len(done_unfold) > 60:
                all_apps.setdefault(key, a)
                continue
            done_unfold.add(key)
            all_apps[key] = a
            f = folds.by_decl[a.decl().name()]
            ps, m = [a.arg(i) for i in range(a.num_args() - 1)], a.arg(a.num_args() - 1)
            m1 = z3.simplify(m - 1)
            prev = f.decl(*(ps + [m1]))
            zero = z3.IntVal(0) if f.sort == I else z3.RealVal(0)
            fm = z3.And(z3.Implies(m <= 0, a == zero),
                        z3.Implies(m > 0, a == prev + z3.simplify(f.elem(ps, m1))))
            out.append(fm)
            new.append(fm)
            if rnd == 0:
                # F(0)/F(n-1) join the pairs but are not unfolded again
                done_unfold.add(prev.sexpr())
                all_apps[prev.sexpr()] = prev
                out.append(z3.Implies(m1 <= 0, prev == zero))
            # sign lemmas
            if lean:
                continue
            s = sk("neg", a)
            e = z3.simplify(f.elem(ps, s))
            out.append(z3.Or(z3.And(0 <= s, s < m, e < 0), a >= 0))
            s2 = sk("pos", a)
            e2 = z3.simplify(f.elem(ps, s2))
            out.append(z3.Or(z3.And(0 <= s2, s2 < m, e2 > 0), a <= 0))
            new += [out[-1], out[-2]]
            if f.sort == I:
                # every term at least one: the sum is at least the number of terms
                s5 = sk("one", a)
                e5 = z3.simplify(f.elem(ps, s5))
                out.append(z3.Or(z3.And(0 <= s5, s5 < m, e5 < 1), m <= 0, a >= m))
                new.append(out[-1])
        lst = sorted(all_apps.items())
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                a, b = lst[i][1], lst[j][1]
                if (lst[i][0], lst[j][0]) in done_pair or npairs > cap:
                    continue
                fa, fb = folds.by_decl[a.decl().name()], folds.by_decl[b.decl().name()]
                if fa.sort != fb.sort:
                    continue
                done_pair.add((lst[i][0], lst[j][0]))
                pa, ma = [a.arg(x) for x in range(a.num_args() - 1)], a.arg(a.num_args() - 1)
                pb, mb = [b.arg(x) for x in range(b.num_args() - 1)], b.arg(b.num_args() - 1)
                npairs += 1
                if fa is fb and all(x.eq(y) for x, y in zip(pa, pb)):
                    if lean:
                        continue
                    # same fold, two lengths: monotone when elements are non-negative
                    s = sk("mono", a, b)
                    e = z3.simplify(fa.elem(pa, s))
                    fm = z3.Or(z3.And(0 <= s, z3.Or(s < ma, s < mb), e < 0),
                               z3.And(z3.Implies(ma <= mb, a <= b), z3.Implies(mb <= ma, b <= a),
                                      z3.Implies(z3.And(0 <= ma, ma < mb), a + z3.simplify(fa.elem(pa, ma)) <= b),
                                      z3.Implies(z3.And(0 <= mb, mb < ma), b + z3.simplify(fa.elem(pa, mb)) <= a)))
                else:
                    s = sk("eq", a, b)
                    ea, eb = z3.simplify(fa.elem(pa, s)), z3.simplify(fb.elem(pb, s))
                    d = z3.simplify(ma - mb)
                    if z3.is_int_value(d) and d.as_long() != 0:
                        continue
                    fm = z3.Or(ma != mb, z3.And(0 <= s, s < ma, ea != eb), a == b)
                    out.append(fm)
                    new.append(fm)
                    if fa.sort != I and fa is not fb:
                        s6 = sk("opp", a, b)
                        ea6, eb6 = z3.simplify(fa.elem(pa, s6)), z3.simplify(fb.elem(pb, s6))
                        out.append(z3.Or(ma != mb, z3.And(0 <= s6, s6 < ma, ea6 != -eb6), a == -b))
                        new.append(out[-1])
                    if lean:
                        continue
                    # pointwise order
                    s3 = sk("le", a, b)
                    ea3, eb3 = z3.simplify(fa.elem(pa, s3)), z3.simplify(fb.elem(pb, s3))
                    out.append(z3.Or(ma != mb, z3.And(0 <= s3, s3 < ma, ea3 > eb3), a <= b))
                    s4 = sk("ge", a, b)
                    ea4, eb4 = z3.simplify(fa.elem(pa, s4)), z3.simplify(fb.elem(pb, s4))
                    out.append(z3.Or(ma != mb, z3.And(0 <= s4, s4 < ma, ea4 < eb4), a >= b))
                out.append(fm)
                new.append(fm)
        # first-exit functions of different text but pointwise equal conditions
        exits = getattr(folds, "exits", {})
        if exits:
            ex = apps_of(work, set(exits))
            ex.sort(key=lambda a: a.sexpr())
            for i in range(len(ex)):
                for j in range(i + 1, len(ex)):
                    a, b = ex[i], ex[j]
                    kk = ("x", a.sexpr(), b.sexpr())
                    if kk in done_pair:
                        continue
                    done_pair.add(kk)
                    (pa, ka, ea), (pb, kb, eb) = exits[a.decl().name()], exits[b.decl().name()]
                    s = sk("exit", a, b)
                    A = z3.substitute(ea, *([(ka, s)] + [(p, a.arg(x)) for x, p in enumerate(pa)]))
                    Bb = z3.substitute(eb, *([(kb, s)] + [(p, b.arg(x)) for x, p in enumerate(pb)]))
                    na, nb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
                    out.append(z3.Or(na != nb, z3.And(0 <= s, s < na, A != Bb), a == b))
                    new.append(out[-1])
        work = new
    return out
