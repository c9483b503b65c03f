"""Ground nonlinear real arithmetic: every term that is not arithmetic becomes a real (or Boolean)
constant, integers are relaxed to reals, quotients become definitions.  Only ever used to refute
(unsat); everything dropped or relaxed weakens the formulas."""
import itertools

import z3

DBG = False
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL, z3.Z3_OP_ITE}
CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}
CONN = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR}


class Abs:
    def __init__(self):
        self.memo, self.defs, self.calls, self.leaf = {}, [], {}, {}

    def const(self, f, sort):
        c = z3.Const(("pa!%d" if sort == R else "pb!%d") % f.get_id(), sort)
        self.leaf[c.get_id()] = (c, f)
        return c

    def num(self, f):
        k = ("n", f.get_id())
        if k in self.memo:
            return self.memo[k][0]
        d = f.decl()
        kd, nm = d.kind(), d.name()
        if z3.is_int_value(f):
            r = z3.RealVal(f.as_long())
        elif z3.is_rational_value(f):
            r = f
        elif kd == z3.Z3_OP_ITE:
            r = z3.If(self.boo(f.arg(0)), self.num(f.arg(1)), self.num(f.arg(2)))
        elif kd in ARITH:
            cs = [self.num(c) for c in f.children()]
            if kd == z3.Z3_OP_ADD:
                r = z3.Sum(*cs)
            elif kd == z3.Z3_OP_MUL:
                r = z3.Product(*cs)
            elif kd == z3.Z3_OP_SUB:
                r = cs[0] - z3.Sum(*cs[1:])
            elif kd == z3.Z3_OP_UMINUS:
                r = -cs[0]
            else:
                r = cs[0]
        elif nm in ("pmul", "pmulI"):
            r = self.num(f.arg(0)) * self.num(f.arg(1))
        elif nm == "pdiv" or kd == z3.Z3_OP_DIV:
            a, b = self.num(f.arg(0)), self.num(f.arg(1))
            r = self.const(f, R)
            self.defs.append((r, z3.Implies(b != 0, r * b == a)))
            self.calls.setdefault("/", []).append((r, a, b))
        else:
            r = self.const(f, R)
            if nm == "rk":
                self.calls.setdefault("rk", []).append((r, self.num(f.arg(0))))
        self.memo[k] = (r, f)
        return r

    def boo(self, f):
        k = ("b", f.get_id())
        if k in self.memo:
            return self.memo[k][0]
        kd = f.decl().kind() if z3.is_app(f) else None
        if z3.is_true(f) or z3.is_false(f):
            r = f
        elif kd in CONN:
            cs = [self.boo(c) for c in f.children()]
            r = {z3.Z3_OP_AND: lambda: z3.And(*cs), z3.Z3_OP_OR: lambda: z3.Or(*cs), z3.Z3_OP_NOT: lambda: z3.Not(cs[0]),
                 z3.Z3_OP_IMPLIES: lambda: z3.Implies(*cs), z3.Z3_OP_XOR: lambda: z3.Xor(*cs)}[kd]()
        elif kd in CMP:
            a, b = self.num(f.arg(0)), self.num(f.arg(1))
            r = {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[kd]
        elif kd == z3.Z3_OP_EQ and f.arg(0).sort() in (R, I):
            r = self.num(f.arg(0)) == self.num(f.arg(1))
        elif kd == z3.Z3_OP_EQ and f.arg(0).sort() == B:
            r = self.boo(f.arg(0)) == self.boo(f.arg(1))
        elif kd == z3.Z3_OP_ITE:
            r = z3.If(self.boo(f.arg(0)), self.boo(f.arg(1)), self.boo(f.arg(2)))
        else:
            r = self.const(f, B)
        self.memo[k] = (r, f)
        return r


def syms(t, memo={}):
    """names of the real constants of an abstracted formula"""
    k = t.get_id()
    r = memo.get(k)
    if r is None:
        if z3.is_const(t):
            s = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == R else frozenset()
        else:
            s = frozenset().union(*[syms(c) for c in t.children()])
        r = memo[k] = (s, t)
    return r[0]


def refute(ground, goals, timeout):
    """True when the ground formulas (goals first) are unsatisfiable over the reals"""
    ab = Abs()
    gs = [ab.boo(g) for g in goals]
    fs = [ab.boo(f) for f in ground]
    fs = [d for _, d in ab.defs] + fs
    for xs in ab.calls.values():
        if len(xs) <= 12:
            for x, y in itertools.combinations(xs, 2):
                if len(x) == 2:
                    fs.append(z3.Implies(x[1] == y[1], x[0] == y[0]))
                    fs.append(z3.Implies(x[1] < y[1], x[0] <= y[0]))
                else:   # equal cross products, equal quotients
                    fs.append(z3.Implies(z3.And(x[2] != 0, y[2] != 0, x[1] * y[2] == y[1] * x[2]), x[0] == y[0]))
    # only what concerns the goal
    want = frozenset().union(*[syms(g) for g in gs])
    for rounds in (1, 3):
        w, pick = want, []
        for _ in range(rounds):
            pick = [f for f in fs if syms(f) & w]
            w = w.union(*[syms(f) for f in pick])
        use = [f for f in fs if syms(f) <= w or not syms(f)]
        for tac in ("qfnra-nlsat", "smt"):
            s = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "purify-arith", "simplify", tac), int(timeout)).solver() \
                if tac != "smt" else z3.SolverFor("QF_NRA")
            s.set("timeout", int(timeout))
            s.add(*gs, *use)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if DBG:
                print("poly", rounds, tac, len(use), r)
                if r == z3.sat:
                    print(gs)
                    print(s.model())
            if r == z3.unsat:
                return True
    return False
