"""Discharging obligations: quantifier-free lemma instances + z3, then nonlinear arithmetic and
exact rounding, then cvc5."""
import itertools
import os
import select
import time

import z3

from . import poly

from .folds import instances
from .terms import abstract, has_divmod, patterns, reads, root_name, selects, versions, has_quant, has_var, free_consts, info
from .values import I, R, dt_kind, strlit_axioms

STATS = {"z3": 0, "z3-nra": 0, "cvc5": 0, "time": 0.0}


def scan(formulas, names):
    """ground applications of the named functions, and whether some occur under a binder"""
    out, bound = {}, set()
    for f in formulas:
        a = info(f).apps
        for nm in a.keys() & names:
            for i, x in a[nm].items():
                if i in out:
                    continue
                if has_var(x):
                    bound.add(nm)
                else:
                    out[i] = x
    return sorted(out.values(), key=lambda a: a.sexpr()), bound


def exact_rk(t):
    h = z3.ToInt(t + z3.RealVal("1/2"))
    return z3.If(z3.And(z3.ToReal(h) == t + z3.RealVal("1/2"), h % 2 == 1), h - 1, h)


_wf = {}


def heap_facts(eng, fs):
    """every value read from the heap satisfies what its type guarantees, at every index and in every version"""
    rd, out = {}, {}
    for f in fs:
        rd.update(reads(f))
    for i, t in rd.items():
        w = _wf.get(i)
        if w is None:
            w = []
            for nm, b in versions(t.arg(0)):
                r = root_name(b)
                g = eng.root_range.get(r)
                if g is None:
                    continue
                x = z3.Select(b, t.arg(1))
                lo, hi = g
                if hi == "dt":
                    k = dt_kind(x)
                    w.append(z3.And(k >= 0, k <= 2))
                elif hi == "ref":
                    bd = eng.array_bound.get(nm)
                    w.append(x >= lo)
                    if bd is not None:
                        w.append(x < bd)
                else:
                    w.append(x >= lo)
                    if hi is not None:
                        w.append(x < hi)
            _wf[i] = w
            _keep.append(t)
        for x in w:
            out[x.get_id()] = x
    return list(out.values())


def theory(eng, fs, level):
    """facts about the uninterpreted library functions occurring in fs"""
    out = heap_facts(eng, fs)
    rks, rb = scan(fs, {"rk"})
    half = z3.RealVal("1/2")
    for a in rks:
        t = a.arg(0)
        out.append(z3.And(t - z3.ToReal(a) <= half, z3.ToReal(a) - t <= half))
        if level >= 2:
            out.append(a == exact_rk(t))
    for a, b in itertools.combinations(rks[:24] if level >= 0 else [], 2):
        out.append(z3.Implies(a.arg(0) <= b.arg(0), a <= b))
        out.append(z3.Implies(b.arg(0) <= a.arg(0), b <= a))
        out.append(z3.Implies(a.arg(0) == -b.arg(0), a == -b))
    if rb:
        f = eng.uf("rk", R, I)
        x, y = z3.Reals("rk_x rk_y")
        out.append(z3.ForAll([x], z3.And(x - z3.ToReal(f(x)) <= half, z3.ToReal(f(x)) - x <= half), patterns=[f(x)]))
    for rnd in range(2):
        ms, _ = scan(fs + out, {"month_of"})
        st = eng.uf("mstart", I, I)
        new = []
        for a in ms:
            new.append(z3.And(st(a) <= a.arg(0), a.arg(0) < st(z3.simplify(a + 1))))
        out += new
    ss, _ = scan(fs + out, {"mstart"})
    for a in ss[:12]:
        pass
    for a, b in itertools.combinations(ss[:14], 2):
        i, j = a.arg(0), b.arg(0)
        out.append(z3.Implies(i < j, z3.And(b - a >= 28 * (j - i), b - a <= 31 * (j - i))))
        out.append(z3.Implies(j < i, z3.And(a - b >= 28 * (i - j), a - b <= 31 * (i - j))))
        out.append(z3.Implies(i == j, a == b))
    pm, _ = scan(fs, {"pmul", "pmulI"})
    for a in pm:
        x, y = a.arg(0), a.arg(1)
        out.append(a == a.decl()(y, x))
        out.append(z3.Implies(z3.Or(x == 0, y == 0), a == 0))
        out.append(z3.Implies(z3.And(x > 0, y > 0), a > 0))
        out.append(z3.Implies(z3.And(x > 0, y < 0), a < 0))
        out.append(z3.Implies(z3.And(x < 0, y > 0), a < 0))
        out.append(z3.Implies(z3.And(x < 0, y < 0), a > 0))
        out.append(z3.Implies(x == 1, a == y))
        out.append(z3.Implies(y == 1, a == x))
        out.append(z3.Implies(x == -1, a == -y))
        out.append(z3.Implies(y == -1, a == -x))
    for a, b in itertools.combinations(pm[:10] if level >= 0 else [], 2):
        if a.sort() == b.sort():
            for (x, y), (u, v) in (((a.arg(0), a.arg(1)), (b.arg(0), b.arg(1))), ((a.arg(0), a.arg(1)), (b.arg(1), b.arg(0)))):
                out.append(z3.Implies(z3.And(x == u, y == v), a == b))
                out.append(z3.Implies(z3.And(x == -u, y == v), a == -b))
    pd, _ = scan(fs, {"pdiv"})
    for a in pd:
        x, y = a.arg(0), a.arg(1)
        out.append(z3.Implies(z3.And(x >= 0, y > 0), a >= 0))
        out.append(z3.Implies(z3.And(x <= 0, y > 0), a <= 0))
        out.append(z3.Implies(z3.And(x >= 0, y < 0), a <= 0))
        out.append(z3.Implies(z3.And(x <= 0, y < 0), a >= 0))
        out.append(z3.Implies(y == 1, a == x))
        out.append(z3.Implies(x == y, z3.Implies(y != 0, a == 1)))
    for a, b in itertools.combinations(pd[:8] if level >= 0 else [], 2):
        (x, y), (u, v) = a.children(), b.children()
        out.append(z3.Implies(z3.And(x == u, y == -v), a == -b))
        out.append(z3.Implies(z3.And(x == -u, y == v), a == -b))
        out.append(z3.Implies(z3.And(x == -u, y == -v, y != 0), a == b))
    if eng.lits:
        used = [s for s, t in eng.lits.items()]
        fc = {}
        for f in fs:
            fc.update(free_consts(f))
        lits = {s: t for s, t in eng.lits.items() if t.decl().name() in fc}
        out += strlit_axioms(lits)
    return out


def real_arith(eng, fs):
    """replace the uninterpreted products and quotients by the real ones"""
    x, y = z3.Reals("ra_x ra_y")
    i, j = z3.Ints("ra_i ra_j")
    m, mi, d = eng.uf("pmul", R, R, R), eng.uf("pmulI", I, I, I), eng.uf("pdiv", R, R, R)
    out = []
    for f in fs:
        f = z3.substitute_funs(f, (m, z3.Var(0, R) * z3.Var(1, R)), (mi, z3.Var(0, I) * z3.Var(1, I)),
                               (d, z3.Var(0, R) / z3.Var(1, R)))
        out.append(f)
    return out


def skolemise(goal, eng):
    """(extra hyps, body) for a goal that is a conjunction-free ForAll/Implies nest"""
    hyps = []
    n = 0
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = []
            for x in range(goal.num_vars()):
                c = z3.Const(f"sk_{goal.var_name(x)}!{next(_sk)}", goal.var_sort(x))
                vs.append(c)
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
            continue
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
            continue
        return hyps, goal


_sk = itertools.count()


def split(goal):
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_AND:
        return [x for c in goal.children() for x in split(c)]
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        return [z3.Implies(goal.arg(0), x) for x in split(goal.arg(1))]
    if booleq(goal) and has_quant(goal):
        a, b = goal.children()
        return [z3.Implies(a, x) for x in split(b)] + [z3.Implies(b, x) for x in split(a)]
    return [goal]


def booleq(f):
    return z3.is_app(f) and f.decl().kind() == z3.Z3_OP_EQ and f.arg(0).sort() == z3.BoolSort()


def relevant(hyps, goal):
    return hyps


_nnf, _inst1, _keep = {}, {}, []


def reset_memo():
    _nnf.clear()
    _inst1.clear()
    _wf.clear()
    _ixt.clear()
    _keep.clear()


def nnf_split(f, pos=True):
    """hypothesis -> equivalent list of hypotheses, outer existentials skolemised (once per formula)"""
    key = (f.get_id(), pos)
    r = _nnf.get(key)
    if r is None:
        r = nnf_split1(f, pos)
        _nnf[key] = r
        _keep.append(f)
    return r


def nnf_split1(f, pos):
    if z3.is_quantifier(f):
        if (f.is_forall() and not pos) or (f.is_exists() and pos):
            vs = [z3.Const(f"sk_{f.var_name(x)}!{next(_sk)}", f.var_sort(x)) for x in range(f.num_vars())]
            return nnf_split(z3.substitute_vars(f.body(), *reversed(vs)), pos)
        return [f if pos else z3.Not(f)]
    if z3.is_app(f):
        k = f.decl().kind()
        if booleq(f) and has_quant(f):
            a, b = f.children()
            if pos:
                return nnf_split(z3.Implies(a, b), True) + nnf_split(z3.Implies(b, a), True)
            return nnf_split(z3.Or(z3.And(a, z3.Not(b)), z3.And(z3.Not(a), b)), True)
        if k == z3.Z3_OP_NOT:
            return nnf_split(f.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos:
            return [y for c in f.children() for y in nnf_split(c, True)]
        if k == z3.Z3_OP_OR and not pos:
            return [y for c in f.children() for y in nnf_split(c, False)]
        if k == z3.Z3_OP_IMPLIES and not pos:
            return nnf_split(f.arg(0), True) + nnf_split(f.arg(1), False)
        if has_quant(f) and pos and k in (z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            # skolemise existentials below a disjunction
            cs = [f.arg(0), f.arg(1)] if k == z3.Z3_OP_IMPLIES else f.children()
            out = []
            for i, c in enumerate(cs):
                p = not (k == z3.Z3_OP_IMPLIES and i == 0)
                parts = nnf_split(c, p) if has_quant(c) else [c if p else z3.Not(c)]
                out.append(parts[0] if len(parts) == 1 else z3.And(*parts))
            return [z3.Or(*out)]
        if has_quant(f) and not pos and k == z3.Z3_OP_AND:
            out = []
            for c in f.children():
                parts = nnf_split(c, False) if has_quant(c) else [z3.Not(c)]
                out.append(parts[0] if len(parts) == 1 else z3.And(*parts))
            return [z3.Or(*out)]
    return [f if pos else z3.Not(f)]


def matching(f, cs, ground, limit=12):
    """values of the bound variable that make one of its array reads meet a ground one"""
    have, out = {c.get_id() for c in cs}, []
    for root, c, off in patterns(f):
        for g in ground.get(root, {}).values():
            key = ("m", g.get_id(), c, off.get_id())
            t = _inst1.get(key)
            if t is None:
                t = _inst1[key] = z3.simplify(g - off if c == 1 else off - g)
                _keep.append((g, off))
            if t.get_id() not in have:
                have.add(t.get_id())
                out.append(t)
    out.sort(key=lambda t: len(t.sexpr()))
    return out[:limit]


def inst_quant(f, cands, cap, ground):
    """instances of universally quantified parts of a (positive) hypothesis"""
    if not has_quant(f):
        return [f]
    if z3.is_quantifier(f):
        if not f.is_forall() or any(f.var_sort(i) != I for i in range(f.num_vars())):
            return []
        nv = f.num_vars()
        cs = cands if nv == 1 else cands[:8] if nv == 2 else cands[:4]
        if nv == 1:
            cs = cs + matching(f, cs, ground)
        out = []
        for tup in itertools.product(cs, repeat=nv):
            key = (f.get_id(),) + tuple(c.get_id() for c in tup)
            b = _inst1.get(key)
            if b is None:
                b = _inst1[key] = z3.simplify(z3.substitute_vars(f.body(), *reversed(tup)))
                _keep.append((f, tup))
            if not z3.is_true(b):
                out.append(b)
            if len(out) > cap:
                break
        return out
    if z3.is_app(f):
        k = f.decl().kind()
        if k == z3.Z3_OP_OR:
            q = [c for c in f.children() if has_quant(c)]
            r = [c for c in f.children() if not has_quant(c)]
            if len(q) == 1:
                out = []
                for x in inst_quant(q[0], cands, cap, ground):
                    key = (f.get_id(), "or", x.get_id())
                    b = _inst1.get(key)
                    if b is None:
                        b = _inst1[key] = z3.Or(*(r + [x]))
                        _keep.append((f, x))
                    out.append(b)
                return out
        if k == z3.Z3_OP_AND:
            return [y for c in f.children() for y in inst_quant(c, cands, cap, ground)]
        if k == z3.Z3_OP_IMPLIES and not has_quant(f.arg(0)):
            return [z3.Implies(f.arg(0), x) for x in inst_quant(f.arg(1), cands, cap, ground)]
    return []


def cand_terms(fs, limit=14):
    """integer terms worth instantiating with: constants that act as indices, then index terms"""
    score = {}
    for f in fs:
        inf = info(f)
        for i, x in inf.ints.items():
            if i not in score and x.decl().name().startswith(("sk_", "q!", "k!", "li!", "fx!", "fsk!", "sk!", "gi!")):
                score[i] = (0, x.decl().name(), x)
        ixs = list(inf.ix.items())
        for nm, d in inf.apps.items():
            if nm.startswith(("Sum", "First", "Idx")):
                for x in d.values():
                    a = x.arg(x.num_args() - 1)
                    ixs.append((a.get_id(), a))
        for i, ix in ixs:
            if i in score:
                continue
            if not has_var(ix) and not z3.is_app_of(ix, z3.Z3_OP_SELECT):
                sx = ix.sexpr()
                if len(sx) < 200:
                    score[i] = (1 if not z3.is_int_value(ix) else 0.5, sx, ix)
    return [t for _, _, t in sorted(score.values(), key=lambda a: (a[0], a[1]))[:limit]]


def instantiate(fs, rounds=2, cap=400):
    """quantifier-free consequences of fs"""
    hy = []
    for f in fs:
        hy += nnf_split(f) if has_quant(f) else [f]
    qf = [f for f in hy if not has_quant(f)]
    qs = [f for f in hy if has_quant(f)]
    out = list(qf)
    done = set()
    base = list(qf)
    for rnd in range(rounds):
        cands = cand_terms(base, 14)
        new = []
        ground = {}
        for f in base:
            for root, e in selects(f).values():
                if not has_var(e):
                    ground.setdefault(root, {})[e.get_id()] = e
        for q in qs:
            for b in inst_quant(q, cands, cap, ground):
                parts = nnf_split(b) if has_quant(b) else [b]
                for y in parts:
                    if y.get_id() in done:
                        continue
                    done.add(y.get_id())
                    out.append(y) if not has_quant(y) else None
                    new.append(y)
        qs = qs + [y for y in new if has_quant(y)][:60]
        base = base + [y for y in new if not has_quant(y)]
        if len(out) > 3000:
            break
    return out


def ground_solver(timeout):
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout))
    s.set("arith.solver", 2)
    s.set("relevancy", 0)
    return s


def weaken(b):
    """(guard literals, quantified part) of an instance Or(guards..., ForAll ...)"""
    if z3.is_quantifier(b):
        return [], b
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_OR:
        q = [c for c in b.children() if has_quant(c)]
        if len(q) == 1:
            return [c for c in b.children() if not has_quant(c)], q[0]
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_IMPLIES and not has_quant(b.arg(0)):
        return [z3.Not(b.arg(0))], b.arg(1)
    return None, None


def flatten(f):
    """list of hypotheses equivalent to f in which quantified parts stand alone or below one disjunction"""
    if not has_quant(f):
        return [f]
    out = []
    for g in nnf_split(f):
        if has_quant(g) and z3.is_app(g):
            gs, q = weaken(g)
            if q is not None and gs and z3.is_app(q):
                # distribute the guard over the conjuncts of the quantified part
                hs = nnf_split(q)
                if len(hs) > 1:
                    for h in hs:
                        out += flatten(z3.Or(*(gs + [h])))
                    continue
                h = hs[0]
                if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_OR:
                    gs, q = gs + [c for c in h.children() if not has_quant(c)], [c for c in h.children() if has_quant(c)]
                    out.append(z3.Or(*(gs + q)))
                    continue
                out.append(z3.Or(*(gs + [h])))
                continue
        out.append(g)
    return out


def model_guided(eng, fs, timeout, goal=(), iters=60):
    """solve the ground part; add the quantifier instances and fold lemmas its model violates; repeat.
    Instances are made of the terms closest to the goal first."""
    t_end = time.time() + timeout / 1000.0
    s = ground_solver(timeout)
    qf, qs, seen, gen, terms, ground = [], [], set(), {}, [], {}

    def take(f, g):
        for x in flatten(f):
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            _keep.append(x)
            if has_quant(x):
                qs.append(x)
            elif not z3.is_true(x):
                qf.append(x)
                s.add(x)
                for c in index_terms(x):
                    if c.get_id() not in gen:
                        gen[c.get_id()] = g
                        terms.append((g, len(terms), c))
                for root, e in selects(x).values():
                    if not has_var(e):
                        ground.setdefault(root, {}).setdefault(e.get_id(), (g, e))

    def true(x):
        return z3.is_true(m.eval(x, model_completion=True))

    def val(x):
        v = m.eval(x, model_completion=True)
        return v.as_long() if z3.is_int_value(v) else v.sexpr()
    for f in goal:
        take(f, 0)
    for f in fs:
        take(f, 1)
    done, lean = set(), True
    for it in range(iters):
        lem = instances(eng.folds, qf, rounds=1, lean=lean and it < 25, cap=400)
        for x in theory(eng, qf, 0):
            if x.get_id() not in seen:
                seen.add(x.get_id())
                _keep.append(x)
                s.add(x)
        left = t_end - time.time()
        if left <= 0:
            return "unknown", None
        s.set("timeout", int(max(200, min(left * 1000, 4000))))
        t0 = time.time()
        r = s.check()
        STATS["time"] += time.time() - t0
        if eng.debug_solve:
            print(f"     mgi {it}: {r} ground {len(qf)} quant {len(qs)} lemmas {len(lem)} {time.time() - t0:.2f}s left {left:.1f}")
        if r != z3.sat:
            return str(r), None
        m = s.model()
        n0 = len(qf)
        lv = {}
        for g, _, c in terms:
            v = val(c)
            if v not in lv or lv[v][0] > g:
                lv[v] = (g, c)
        reps = sorted(lv.values(), key=lambda x: x[0])
        active = []
        for q in qs:
            gs, body = weaken(q)
            if body is None or not z3.is_quantifier(body) or not body.is_forall() or \
                    any(body.var_sort(i) != I for i in range(body.num_vars())):
                continue
            if any(true(g) for g in gs):
                continue
            active.append((q, gs, body))
        for level in range(0, 12):
            for q, gs, body in active:
                nv = body.num_vars()
                cs = [c for g, c in reps if g <= level]
                if nv == 1:
                    cs = cs[:40]
                    have = {val(c) for c in cs}
                    gr = {root: {i: e for i, (g, e) in d.items() if g <= level} for root, d in ground.items()}
                    for c in matching(body, cs, gr, 40):
                        v = val(c)
                        if v not in have:
                            have.add(v)
                            cs.append(c)
                else:
                    cs = cs[:12] if nv == 2 else cs[:5]
                added = 0
                for tup in itertools.product(cs, repeat=nv):
                    key = (q.get_id(),) + tuple(c.get_id() for c in tup)
                    if key in done:
                        continue
                    b = z3.substitute_vars(body.body(), *reversed(tup))
                    if has_quant(b):
                        b = z3.simplify(b)
                        g2, q2 = weaken(b)
                        if q2 is not None and any(true(g) for g in g2):
                            continue
                    elif true(b):
                        continue
                    done.add(key)
                    _keep.append((q, tup))
                    b = z3.simplify(b)
                    n1, n2 = len(qf), len(qs)
                    if eng.debug_solve: print("        +", level, qs.index(q), [str(c)[:60].replace("\n"," ") for c in tup])
                    take(z3.Or(*(gs + [b])) if gs else b, level + 1)
                    if len(qf) > n1 or len(qs) > n2:
                        added += 1
                    if added >= 4:
                        break
                if time.time() > t_end:
                    return "unknown", None
            if len(qf) > n0:
                break
            if level == 1:
                for x in lem:
                    if x.get_id() not in seen and not true(x):
                        take(x, level + 1)
                if len(qf) > n0:
                    break
        if len(qf) == n0:
            if lean:
                lean = False
                continue
            return "sat", m
    return "unknown", None


_ixt = {}


def index_terms(f):
    """ground integer terms of f worth instantiating with"""
    r = _ixt.get(f.get_id())
    if r is None:
        r = _ixt[f.get_id()] = cand_terms([f], 40)
        _keep.append(f)
    return r


def divmod_solver(timeout):
    s = z3.Then("simplify", "purify-arith", "simplify", "solve-eqs", z3.With("smt", **{"arith.solver": 2})).solver()
    s.set("timeout", int(timeout))
    return s


def check(fs, timeout, nra=False):
    if any(has_divmod(f) for f in fs) and not any(has_quant(f) for f in fs):
        s = divmod_solver(min(timeout, 2000))
        s.add(*fs)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS["time"] += time.time() - t0
        if r == z3.unsat:
            return r, s
    if not any(has_quant(f) for f in fs) and not scan(fs, {"pmul", "pmulI", "pdiv"})[0]:
        s = ground_solver(timeout)
    else:
        s = z3.Solver()
        s.set("timeout", int(timeout))
    for f in fs:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["time"] += time.time() - t0
    return r, s


def check_cvc5(fs, timeout):
    try:
        import cvc5
    except Exception:
        return "unknown"
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2().replace("\\|", ".")
    t0 = time.time()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:                       # cvc5 does not always keep its own time limit
        try:
            os.close(rd)
            os.write(wr, run_cvc5(txt, timeout).encode())
        finally:
            os._exit(0)
    os.close(wr)
    try:
        ok = select.select([rd], [], [], timeout / 1000 + 2)[0]
        return (os.read(rd, 100).decode() if ok else "") or "unknown"
    finally:
        os.close(rd)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
        STATS["time"] += time.time() - t0


def run_cvc5(txt, timeout):
    import cvc5
    try:
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption("tlimit-per", str(int(timeout)))
        sl.setOption("nl-cov", "true")
        sl.setOption("produce-models", "false")
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "vc")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = str(c.invoke(sl, sm)).strip()
            if r in ("sat", "unsat", "unknown"):
                res = r
        return res
    except Exception as e:  # parse problems count as no answer
        return "unknown"


class Res:
    def __init__(self, status, backend, model=None, secs=0.0, note=""):
        self.status, self.backend, self.model, self.secs, self.note = status, backend, model, secs, note


def prove1(eng, hyps, goal, timeout=8000, light=False, quick=False):
    t0 = time.time()
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return Res("valid", "simplifier", secs=0.0)
    eh, body = skolemise(goal, eng)
    body = z3.simplify(body)
    if z3.is_true(body):
        return Res("valid", "simplifier", secs=0.0)
    base = [f for f in hyps] + eh + [z3.Not(body)]
    base += [g for f in eng.folds.definitions(base) for g in nnf_split(f)]
    seen, fs = set(), []
    for f in base:
        for g in split(f) if not has_quant(f) else [f]:
            if g.get_id() not in seen and not z3.is_true(g):
                seen.add(g.get_id())
                fs.append(g)
    model = None
    status = "unknown"

    def attempt(fs, level, to):
        inst = instances(eng.folds, fs, rounds=2 if level >= 0 else 1, lean=level < 0)
        th = theory(eng, fs + inst, level)
        return fs + inst + th
    # 0: quantifier free
    qf = [f for f in fs if not has_quant(f)]
    al = attempt(qf, -1, timeout)
    r, s = check([f for f in al if not has_quant(f)], min(timeout, 1500))
    if r == z3.unsat:
        STATS["z3"] += 1
        return Res("valid", "z3", secs=time.time() - t0)
    al = attempt(qf, 0, timeout)
    if len(qf) != len(fs):
        r, s = check([abstract(f) for f in fs], min(timeout, 1500))
        if r == z3.unsat:
            STATS["z3"] += 1
            return Res("valid", "z3", secs=time.time() - t0)
        al_qf = [f for f in al if not has_quant(f)]
        r, s = check(al_qf, min(timeout, 2000))
        if r == z3.unsat:
            STATS["z3"] += 1
            return Res("valid", "z3", secs=time.time() - t0)
        if not quick:
            t, m = model_guided(eng, fs, min(timeout, 8000), eh + [z3.Not(body)])
            if t == "unsat":
                STATS["z3"] += 1
                return Res("valid", "z3 (instantiation)", secs=time.time() - t0)
        for rounds in (() if quick else (1, 2)):
            ifs = instantiate(fs, rounds)
            for lv in (-1, 0):
                al = [f for f in attempt(ifs, lv, timeout) if not has_quant(f)]
                r, s = check(al, min(timeout, 2500))
                if r == z3.unsat:
                    STATS["z3"] += 1
                    return Res("valid", "z3 (instantiation)", secs=time.time() - t0)
        al = attempt(fs, 0, timeout)
    if any(has_divmod(f) for f in qf) and check_cvc5([f for f in al if not has_quant(f)], min(timeout, 3000)) == "unsat":
        STATS["cvc5"] += 1
        return Res("valid", "cvc5", secs=time.time() - t0)
    r, s = check(al, timeout)
    if r == z3.unsat:
        STATS["z3"] += 1
        return Res("valid", "z3", secs=time.time() - t0)
    if r == z3.sat:
        status, model = "refuted", s.model()
    if light or (quick and timeout <= 2000):
        return Res(status, "z3", model, time.time() - t0)
    has_nl = bool(scan(fs, {"pmul", "pmulI", "pdiv"})[0])
    has_rk = bool(scan(fs, {"rk"})[0])
    if has_nl:
        r, s = check(real_arith(eng, attempt(fs, 2, timeout)), min(timeout, 1500))
        if r == z3.unsat:
            STATS["z3-nra"] += 1
            return Res("valid", "z3 (exact rounding, nonlinear)", secs=time.time() - t0)
    if has_nl and poly.refute([f for f in al if not has_quant(f)], eh + [z3.Not(body)], min(timeout, 3000)):
        STATS["z3-nra"] += 1
        return Res("valid", "z3 (nonlinear)", secs=time.time() - t0)
    if has_nl or has_rk:
        al = real_arith(eng, attempt(fs, 2, timeout))
        r, s = check(al, timeout)
        if r == z3.unsat:
            STATS["z3-nra"] += 1
            return Res("valid", "z3 (exact rounding, nonlinear)", secs=time.time() - t0)
        if r == z3.sat:
            status, model = "refuted", s.model()
        elif r == z3.unknown:
            al1 = real_arith(eng, attempt(fs, 1, timeout))
            r, s = check(al1, timeout)
            if r == z3.unsat:
                STATS["z3-nra"] += 1
                return Res("valid", "z3 (nonlinear)", secs=time.time() - t0)
            al = al1
            status = "unknown" if status == "refuted" else status
    if status != "refuted":
        c = check_cvc5([f for f in al], timeout * 2)
        if c == "unsat":
            STATS["cvc5"] += 1
            return Res("valid", "cvc5", secs=time.time() - t0)
    return Res(status, "z3", model, time.time() - t0)


def prove(eng, hyps, goal, timeout=8000, light=False, quick=False):
    """hyps: [(formula, isbranch)] -> bool"""
    hs = [h[0] if isinstance(h, tuple) else h for h in hyps]
    for g in split(goal):
        if prove1(eng, hs, g, timeout, light, quick).status != "valid":
            return False
    return True


def prove_full(eng, hyps, goal, timeout=8000, quick=False):
    hs = [h[0] if isinstance(h, tuple) else h for h in hyps]
    worst, backends, secs = None, set(), 0.0
    for g in split(goal):
        r = prove1(eng, hs, g, min(timeout, 2000) if quick else timeout, quick=quick)
        secs += r.secs
        backends.add(r.backend)
        if r.status != "valid":
            r.secs = secs
            r.goal = g
            return r
    return Res("valid", "+".join(sorted(backends)) or "simplifier", secs=secs)
