"""Path-exploring symbolic executor over the real AST of /repo/estrade.

A function body is executed for all paths.  Branch decisions are replayed (every path is
re-executed from the entry state with a decision prefix), so the interpreter itself is a
plain recursive evaluator.  Pure sub-evaluations (property reads, boolean operators,
conditional expressions, elements of comprehensions) are explored separately and merged
into if-then-else terms.  Loops: see loops.py.  Contracts: see contracts.py.
"""
import ast
from fractions import Fraction

import z3

from . import values as V
from .folds import Folds
from .terms import free_consts, has_quant, forall1, exists1, root_name
from .seqs import Seq, ConcSeq, ArrSeq, FnSeq, SliceSeq, RevSeq, CatSeq, FiltSeq
from .source import Cls, Func
from .values import *  # noqa

ENGINE = [None]


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class LoopLimit(Exception):
    pass


class Sig(Exception):
    pass


class BreakSig(Sig):
    pass


class ContinueSig(Sig):
    pass


class ReturnSig(Sig):
    def __init__(self, v):
        self.v = v


class GenExit(Sig):
    def __init__(self, tag, sig):
        self.tag, self.sig = tag, sig


class PyExc(Exception):
    """a Python exception raised by the program under verification"""
    def __init__(self, cls, args=(), where=None):
        self.cls, self.args_, self.where = cls, args, where

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, Cls) else self.cls


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "AttributeError": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "StopIteration": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "AssertionError": "Exception", "OSError": "Exception",
    "FileNotFoundError": "OSError", "FileExistsError": "OSError", "RecursionError": "RuntimeError",
}


def exc_matches(cls, target):
    """is exception class cls (Cls or name) a subclass of target (Cls or name)"""
    if isinstance(cls, Cls):
        if isinstance(target, Cls):
            return cls.is_sub(target)
        return target in ("Exception", "BaseException") or target in cls.ext_bases()
    if isinstance(target, Cls):
        return False
    while cls is not None:
        if cls == target:
            return True
        cls = BUILTIN_EXC.get(cls)
    return False


class State:
    __slots__ = ("hyps", "heap", "epoch", "alloc", "frames", "llists", "cdicts", "side", "trace",
                 "ctr", "used", "ext", "obl")

    def copy(self):
        s = State.__new__(State)
        s.hyps = list(self.hyps)
        s.heap = dict(self.heap)
        s.epoch, s.alloc, s.trace, s.ctr = self.epoch, self.alloc, self.trace, self.ctr
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.llists, s.cdicts, s.side = dict(self.llists), dict(self.cdicts), dict(self.side)
        s.used = self.used
        s.ext = dict(self.ext)
        s.obl = self.obl
        return s

    def assign(self, o):
        c = o.copy()
        for k in State.__slots__:
            setattr(self, k, getattr(c, k))

    def matches(self, o):
        return self.epoch == o.epoch and self.ctr == o.ctr and len(self.hyps) == len(o.hyps) \
            and len(self.trace) == len(o.trace) and self.heap.keys() == o.heap.keys() \
            and self.frames.keys() == o.frames.keys() and self.llists.keys() == o.llists.keys() \
            and self.cdicts.keys() == o.cdicts.keys() and self.side.keys() == o.side.keys() \
            and self.used == o.used and self.ext.keys() == o.ext.keys() and self.alloc.eq(o.alloc) \
            and all(a is b or (a[1] == b[1] and a[0].eq(b[0])) for a, b in zip(self.hyps, o.hyps)) \
            and all(t.eq(o.heap[k]) for k, t in self.heap.items()) \
            and all(f.keys() == o.frames[k].keys() for k, f in self.frames.items())


class Run:
    __slots__ = ("prefix", "work", "taken", "key", "nested")

    def __init__(self, prefix, work, key):
        self.prefix, self.work, self.key = prefix, work, key
        self.taken, self.nested = [], 0


class Event:
    def __init__(self, name, recv, args):
        self.name, self.recv, self.args = name, recv, args   # args: dict name -> SV

    def __repr__(self):
        return f"Event({self.name},{self.recv},{self.args})"


class Segment:
    """events emitted by one loop: for every index 0<=k<n one of the listed paths"""
    def __init__(self, n, k, paths, seq):
        self.n, self.k, self.paths, self.seq = n, k, paths, seq   # paths: [(State, tuple(events))]


class OmitV(SV):
    """argument left out at the call: the parameter's default, None in specifications"""
    __slots__ = ()


class Poison(SV):
    __slots__ = ()


POISON = Poison()


def simp(t):
    return z3.simplify(t)


def is_true(t):
    return z3.is_true(t)


class Engine:
    MAX_PATHS = 3000

    def __init__(self, prog, schema):
        ENGINE[0] = self
        self.prog = prog
        self.schema = schema            # {(class name, field): T}
        self.inferred = {}
        self.st = None
        self.run = None
        self.explore_cache = {}
        self.same_flags = {}
        self.generic_consts = {}
        self.folds = Folds(self)
        self.obligs = []
        self.uses = {}
        self.depth = 0
        self.spec = 0                   # >0: evaluating a specification
        self.old_states = []            # stack of pre-states for old()
        self.yield_stack = []
        self.array_bound = {}
        self.debug_solve = False
        self.root_range = {}     # heap component -> (least value, whether references) of everything stored in it
        self.class_ids = {}
        self.cls_by_id = {}
        for i, c in enumerate(sorted(prog.classes.values(), key=lambda c: c.qual)):
            self.class_ids[c] = i + 1
            self.cls_by_id[i + 1] = c
        self.clsof = z3.Function("clsof", I, I)
        self.ufs = {}
        self.lits = {}
        self.sol = z3.Solver()
        self.sol.set("timeout", 3000)
        self.sol_stack = []
        self.loop_pool = []             # candidate loop invariants (ast, text)
        self.loop_ctx = None
        self.skolem_facts = {}
        self.ninv = 0
        self.inv_obligs = []
        self.stats = {"feas": 0, "paths": 0}
        self.root_fid = None
        self.calls_by_contract = set()
        self.inlined = set()
        self.ext_used = set()
        self.modelfns = {}
        self.call_stack = []
        self.debug = False
        self.lemma = False
        self.root_fn = None
        self.root_env = {}

    # ------------------------------------------------------------ basics
    def new_state(self):
        s = State()
        s.hyps, s.heap, s.epoch = [], {}, 0
        s.alloc = z3.Const("alloc0", I)
        s.frames, s.llists, s.cdicts, s.side = {}, {}, {}, {}
        s.trace, s.ctr, s.used = (), 0, frozenset()
        s.ext = {}
        s.obl = ()
        s.hyps.append((s.alloc > 0, False))
        return s

    def fresh(self, name, sort):
        self.st.ctr += 1
        return z3.Const(f"{name}!{self.st.ctr}", sort)

    def new_generic(self, name, sort=I):
        self.st.ctr += 1
        c = z3.Const(f"{name}!{self.st.ctr}", sort)
        self.generic_consts[c.decl().name()] = c
        return c

    def uf(self, name, *sorts):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *sorts)
        return self.ufs[name]

    def lit(self, s):
        t = strlit(s)
        self.lits[s] = t
        return StrV(t, s)

    def assume(self, f, branch=False):
        if z3.is_true(f):
            return
        self.st.hyps.append((f, branch))

    def err(self, msg, node=None):
        loc = ""
        if node is not None and hasattr(node, "lineno"):
            loc = f" at line {node.lineno}"
        fn = self.call_stack[-1].qual if self.call_stack else "?"
        raise Unsupported(f"{msg} [{fn}{loc}]")

    def emit(self, name, recv, args):
        self.st.trace = self.st.trace + (Event(name, recv, dict(args)),)

    def add_qfacts(self, k, rng, facts):
        """facts that hold for every index in range"""
        fs, seen = [], set()
        for f in facts:
            if f.get_id() not in seen and not z3.is_true(f):
                seen.add(f.get_id())
                if not z3.is_true(z3.simplify(z3.Implies(rng, f))):
                    fs.append(f)
        if fs:
            q = forall1(k, z3.Implies(rng, z3.And(*fs) if len(fs) > 1 else fs[0]))
            if not any(q.eq(h) for h, _ in self.st.hyps):
                self.assume(q)

    def spec_term(self, tree, env):
        """truth of a specification expression in the current state -> z3 Bool"""
        def th():
            fid = self.spec_frame(env)
            self.spec += 1
            try:
                return BoolV(self.truth(self.ev(tree, fid)))
            except PyExc as e:
                if self.debug:
                    print("   spec raised", e.name, e.args_, ast.unparse(tree)[:100], getattr(e.where, "lineno", None))
                return BoolV(z3.BoolVal(False))
            finally:
                self.spec -= 1
        return self.spec_bool(lambda: th().t)

    def spec_frame(self, env):
        fid = self.new_frame(None, self.prog.modules["specs"])
        self.st.frames[fid].update(env)
        return fid

    def spec_value(self, tree, env):
        fid = self.spec_frame(env)
        self.spec += 1
        try:
            return self.ev(tree, fid)
        finally:
            self.spec -= 1

    def spec_bool(self, f):
        base = self.st
        n0 = len(base.hyps)
        run, self.run = self.run, None
        key = ("spec", next(_specctr))
        try:
            res = self.explore(lambda: BoolV(f()), base, key0=key)
        finally:
            self.run = run
        parts = []
        for s, o in res:
            if o[0] != "val":
                raise o[1]
            d = self.delta(n0, s)
            for h, b in s.hyps[n0:]:
                if not b:
                    self.assume(h if b is None or len(res) == 1 or z3.is_true(d) else z3.Implies(d, h), b)
            self.st.ctr = max(self.st.ctr, s.ctr)
            for k, t in s.heap.items():
                if k not in self.st.heap and z3.is_const(t) and t.decl().name().startswith("H%s|" % self.st.epoch):
                    self.st.heap[k] = t
            parts.append((d, o[1].t))
        if not parts:
            return z3.BoolVal(True)
        if len(parts) == 1:
            return simp(parts[0][1])
        return simp(z3.And(*[z3.Implies(d, t) for d, t in parts]))

    def assume_hint(self, tree, env):
        self.spec_term(tree, env)

    def dict_snapshot(self, dv):
        return DictV(dv.t, dv.K, dv.V, self.dget(dv))

    def touch_all(self, keys):
        for k in keys:
            self.touch(k[:3] if k[0] == "F" else k[:2])

    # ------------------------------------------------------------ feasibility / branching
    def _sync(self):
        hy = [f for f, _ in self.st.hyps if not has_quant(f)]
        i = 0
        while i < len(hy) and i < len(self.sol_stack) and hy[i].eq(self.sol_stack[i]):
            i += 1
        while len(self.sol_stack) > i:
            self.sol.pop()
            self.sol_stack.pop()
        for f in hy[i:]:
            self.sol.push()
            self.sol.add(f)
            self.sol_stack.append(f)

    def feasible(self, c):
        self.stats["feas"] += 1
        self._sync()
        self.sol.push()
        self.sol.add(c)
        r = self.sol.check()
        self.sol.pop()
        return r != z3.unsat

    def entails(self, c):
        return not self.feasible(z3.Not(c))

    def from_end(self, t, n):
        """position meant by index t of a sequence of length n"""
        t = simp(t)
        if z3.is_int_value(t):
            return t if t.as_long() >= 0 else simp(t + n)
        if self.entails(t >= 0):
            return t
        if self.entails(t < 0):
            return simp(t + n)
        return simp(z3.If(t < 0, t + n, t))

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        run = self.run
        k = len(run.taken)
        if k < len(run.prefix):
            d = run.prefix[k]
        else:
            t_ok = self.feasible(c)
            f_ok = self.feasible(z3.Not(c)) if t_ok else True
            if t_ok and f_ok:
                run.work.append(run.taken + [0])
                d = 1
            elif t_ok:
                d = 3      # forced true
            else:
                if not self.feasible(z3.Not(c)):
                    raise Infeasible()
                d = 2      # forced false
        run.taken.append(d)
        if d in (0, 1):
            self.assume(c if d == 1 else z3.Not(c), True)
        return d in (1, 3)

    def explore(self, thunk, st=None, limit=None, key0=None):
        """all paths of thunk from state st -> [(state, ('val',v)|('exc',PyExc)|('sig',Sig))]"""
        st = st if st is not None else self.st
        key = None
        if self.run is not None:
            key = (self.run.key, tuple(self.run.taken), self.run.nested, st.ctr)
            self.run.nested += 1
            hit = self.explore_cache.get(key)
            if hit is not None and hit[0].matches(st):
                # a re-execution: same state up to object identity; take over the objects of the first run
                st.assign(hit[0])
                return hit[1]
            base = st.copy()
        elif key0 is None:
            key0 = ("root", next(_specctr))
        res, work = [], [[]]
        saved = (self.st, self.run, list(self.call_stack), list(self.yield_stack), self.depth, self.spec,
                 list(self.old_states))
        n = 0
        try:
            while work:
                prefix = work.pop()
                n += 1
                if n > (limit or self.MAX_PATHS):
                    raise Unsupported("too many paths")
                self.stats["paths"] += 1
                self.st = st.copy()
                self.run = Run(prefix, work, key if key is not None else key0)
                # distinct nested keys for sibling calls
                self.call_stack, self.yield_stack = list(saved[2]), list(saved[3])
                self.depth, self.spec, self.old_states = saved[4], saved[5], list(saved[6])
                try:
                    v = thunk()
                    res.append((self.st, ("val", v)))
                except PyExc as e:
                    res.append((self.st, ("exc", e)))
                except Infeasible:
                    continue
                except Sig as s:
                    res.append((self.st, ("sig", s)))
        finally:
            (self.st, self.run, self.call_stack, self.yield_stack, self.depth, self.spec,
             self.old_states) = saved
        if key is not None:
            self.explore_cache[key] = (base, res)
        return res

    def pick(self, results):
        """nondeterministically continue as one of the explored outcomes"""
        if not results:
            raise Infeasible()
        run = self.run
        if len(results) == 1:
            k = 0
        else:
            p = len(run.taken)
            if p < len(run.prefix):
                k = run.prefix[p] - 10
            else:
                for alt in range(len(results) - 1, 0, -1):
                    run.work.append(run.taken + [10 + alt])
                k = 0
            run.taken.append(10 + k)
        st, (kind, v) = results[k]
        self.st = st.copy()
        if kind == "val":
            return v
        raise v

    def delta(self, base_n, st):
        br = [f for f, b in st.hyps[base_n:] if b]
        return z3.And(*br) if len(br) > 1 else (br[0] if br else z3.BoolVal(True))

    def pure(self, thunk):
        """evaluate thunk on all paths; merge the values when no path changes the heap"""
        base = self.st
        n0 = len(base.hyps)
        res = self.explore(thunk)
        if len(res) == 1:
            return self.pick(res)
        ok = self.same_flags.get(id(res))
        if ok is None:
            ok = (all(same_state(base, s) for s, o in res), res)
            self.same_flags[id(res)] = ok
        if not ok[0]:
            return self.pick(res)
        vals = [(s, o) for s, o in res if o[0] == "val"]
        oth = [(s, o) for s, o in res if o[0] != "val"]
        for s, o in oth:
            d = self.delta(n0, s)
            if self.branch(d):
                for f, b in s.hyps[n0:]:
                    if not b:
                        self.assume(f, b)
                self.st.ctr = max(self.st.ctr, s.ctr)
                raise o[1]
        if not vals:
            raise Infeasible()
        alts = []
        from .loops import import_value
        self.st.ctr = max([self.st.ctr] + [s.ctr for s, _ in res])
        obl = self.st.obl
        seen = {id(x) for x in obl}
        for s, o in vals:
            d = self.delta(n0, s)
            for f, b in s.hyps[n0:]:
                if not b:
                    self.assume(f if b is None or z3.is_true(d) or len(vals) == 1 else z3.Implies(d, f), b)
            for x in s.obl:
                if id(x) not in seen:
                    seen.add(id(x))
                    obl = obl + (x,)
            for fid, fr in s.frames.items():
                self.st.frames.setdefault(fid, fr)
        self.st.obl = obl
        for s, o in vals:
            alts.append((self.delta(n0, s), import_value(self, o[1], s, base)))
        return self.merge_values(alts)

    # ------------------------------------------------------------ value merging
    def merge_values(self, alts):
        """alts: [(cond, SV)], conds exhaustive and exclusive"""
        alts = [(simp(c), v) for c, v in alts]
        alts = [(c, v) for c, v in alts if not z3.is_false(c)]
        if len(alts) == 1:
            return alts[0][1]
        flat = []
        for c, v in alts:
            if isinstance(v, UnionV):
                flat += [(simp(z3.And(c, g)), w) for g, w in v.alts]
            else:
                flat.append((c, v))
        vs = [v for _, v in flat]

        def ite(terms):
            t = terms[-1]
            for (c, _), x in zip(reversed(flat[:-1]), reversed(terms[:-1])):
                t = x if x.eq(t) else z3.If(c, x, t)
            return t
        if all(v is vs[0] for v in vs):
            return vs[0]
        if all(isinstance(v, NoneV) for v in vs):
            return NONE
        if all(isinstance(v, BoolV) for v in vs):
            return BoolV(simp(ite([v.t for v in vs])))
        if all(isinstance(v, IntV) for v in vs):
            return IntV(self.folds.tidy(ite([v.t for v in vs])))
        if all(isinstance(v, (IntV, RealV)) for v in vs):
            return RealV(self.folds.tidy(ite([to_real(v) for v in vs])))
        if all(isinstance(v, StrV) for v in vs):
            return StrV(ite([v.t for v in vs]), None)
        for K in (DtV, DateV, TimeV, DeltaV, AnyV):
            if all(isinstance(v, K) for v in vs):
                return K(ite([v.t for v in vs]))
        if all(isinstance(v, EnumV) and v.cls is vs[0].cls for v in vs):
            return EnumV(vs[0].cls, ite([v.t for v in vs]))
        if all(isinstance(v, (RefV, NoneV)) for v in vs):
            refs = [v for v in vs if isinstance(v, RefV)]
            c = common_class([v.cls for v in refs])
            if c is not None:
                t = ite([v.t if isinstance(v, RefV) else z3.IntVal(0) for v in vs])
                return RefV(t, c, all(v.exact and v.cls is c for v in refs),
                            len(refs) < len(vs) or any(v.nullable for v in refs))
        if all(isinstance(v, ListV) and v.T.key() == vs[0].T.key() for v in vs):
            return ListV(ite([v.t for v in vs]), vs[0].T)
        if all(isinstance(v, DictV) and v.K.key() == vs[0].K.key() and v.V.key() == vs[0].V.key() for v in vs):
            return DictV(ite([v.t for v in vs]), vs[0].K, vs[0].V)
        if all(isinstance(v, TupleV) and len(v.items) == len(vs[0].items) for v in vs):
            return TupleV([self.merge_values([(c, v.items[i]) for c, v in flat]) for i in range(len(vs[0].items))])
        if any(isinstance(v, (NoneV, OptV)) for v in vs):
            inner = [v.v if isinstance(v, OptV) else v for v in vs if not isinstance(v, NoneV)]
            if inner and not any(isinstance(v, (RefV, UnionV)) for v in inner):
                isn = ite([z3.BoolVal(True) if isinstance(v, NoneV) else
                           v.isnone if isinstance(v, OptV) else z3.BoolVal(False) for v in vs])
                ialts = [(c, (v.v if isinstance(v, OptV) else v)) for c, v in flat if not isinstance(v, NoneV)]
                try:
                    m = ialts[0][1] if len(ialts) == 1 else self.merge_values(ialts)
                    if not isinstance(m, UnionV):
                        return OptV(simp(isn), m)
                except CannotMerge:
                    pass
        # group equal kinds inside a union
        return UnionV(flat)

    def force(self, v, node=None):
        """resolve unions and optionals by case distinction"""
        while True:
            if isinstance(v, UnionV):
                for g, w in v.alts[:-1]:
                    if self.branch(g):
                        v = w
                        break
                else:
                    self.assume(v.alts[-1][0])
                    v = v.alts[-1][1]
                continue
            if isinstance(v, OptV):
                if self.branch(v.isnone):
                    return NONE
                v = v.v
                continue
            if isinstance(v, RefV) and v.nullable:
                if self.branch(v.t == 0):
                    return NONE
                return RefV(v.t, v.cls, v.exact, False)
            if isinstance(v, OmitV):
                return NONE
            if isinstance(v, Poison):
                self.err("value of a loop-local variable used after the loop", node)
            return v

    # ------------------------------------------------------------ heap
    def heap_arr(self, key, sort, inner=None):
        """current array for heap component `key`"""
        h = self.st.heap
        if key not in h:
            name = "H%s|%s" % (self.st.epoch if not isinstance(self.st.epoch, int) else self.st.epoch, "|".join(map(str, key)))
            h[key] = z3.Const(name, sort)
            self.array_bound[name] = self.st.ext.get("epoch_alloc", z3.Const("alloc0", I))
        return h[key]

    def havoc_key(self, key):
        old = self.st.heap.get(key)
        if old is None:
            return
        a = self.fresh("HV|" + "|".join(map(str, key)), old.sort())
        self.array_bound[a.decl().name()] = self.st.alloc
        self.st.heap[key] = a

    def bound_facts(self, t, nonnull):
        """0 <= t (< allocation bound of the array it was read from)"""
        fs = []
        if z3.is_int_value(t):
            return fs
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                k = x.decl().kind()
                if k == z3.Z3_OP_ITE:
                    todo += [x.arg(1), x.arg(2)]
                elif k == z3.Z3_OP_SELECT:
                    idx = x.arg(1)
                    for b in array_bases(x.arg(0)):
                        inner = None
                        if z3.is_const(b):
                            inner = b
                            nm = b.decl().name()
                        elif b.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(strip_store(b.arg(0))):
                            inner = strip_store(b.arg(0))
                            nm = inner.decl().name()
                        else:
                            continue
                        if nm in self.array_bound and not has_lambda(b):
                            bt = z3.Select(z3.Select(inner, b.arg(1)), idx) if inner is not b and not inner.eq(b) else z3.Select(b, idx)
                            fs.append(z3.And(bt >= (1 if nonnull else 0), bt < self.array_bound[nm]))
        fs.append(t >= (1 if nonnull else 0))
        fs.append(t < self.st.alloc)
        return fs

    def unpack(self, T, ts):
        v = T.unpack(ts, self)
        self.wf(T, ts)
        return v

    def wf(self, T, ts):
        """what every value of the type satisfies.  These facts hold at every index of every version of the
        heap component, so they carry no guard (branch None) and are instantiated again by the solver"""
        if isinstance(T, TRef):
            self.set_root(ts[0], 0 if T.nullable else 1, "ref")
            for f in self.bound_facts(ts[0], not T.nullable):
                self.assume(f, None)
        elif isinstance(T, (TList, TDict)):
            self.set_root(ts[0], 1, "ref")
            for f in self.bound_facts(ts[0], True):
                self.assume(f, None)
        elif isinstance(T, TEnum):
            self.set_root(ts[0], 0, len(T.cls.enum_members))
            self.assume(z3.And(ts[0] >= 0, ts[0] < len(T.cls.enum_members)), None)
        elif isinstance(T, TOpt):
            self.wf(T.t, ts[1:])
        elif isinstance(T, TTime):
            self.set_root(ts[0], 0, 86400000000)
            self.assume(z3.And(ts[0] >= 0, ts[0] < 86400000000), None)
        elif isinstance(T, TDt):
            self.set_root(ts[0], 0, "dt")
            k = dt_kind(ts[0])
            self.assume(z3.And(k >= 0, k <= 2), None)

    def set_root(self, t, lo, hi):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            r = root_name(t.arg(0))
            if "|" in r:
                o = self.root_range.get(r)
                if o is not None and o[1] != hi:
                    raise Unsupported(f"heap component {r} with two types")
                self.root_range[r] = (lo if o is None else min(lo, o[0]), hi)

    def field_info(self, cls, name):
        """(heap owner name, T or None)"""
        for c in cls.mro():
            if (c.name, name) in self.schema:
                return c.name, self.schema[(c.name, name)]
        owner = None
        for c in cls.mro():
            if mentions_self(c, name):
                owner = c
        if owner is None:
            return None, None
        k = (owner.name, name)
        if k not in self.inferred:
            self.inferred[k] = infer_field(self, owner, cls, name)
        return owner.name, self.inferred[k]

    def getfield(self, r, name, node=None):
        owner, T = self.field_info(r.cls, name)
        if owner is None:
            raise PyExc("AttributeError", (name,), node)
        skey = ("F", owner, name)
        st = self.st
        rk = simp(r.t)
        for (k, rid), (rt, v) in list(st.side.items()):
            if k == skey:
                if rt.eq(rk):
                    return v
                if T is None:
                    continue
                if self.branch(rt == rk):
                    return v
        if T is None:
            self.err(f"field {owner}.{name} of unknown type", node)
        ts = []
        for i, s in enumerate(T.sorts):
            a = self.heap_arr(skey + (i,), z3.ArraySort(I, s))
            ts.append(simp(z3.Select(a, rk)))
        return self.unpack(T, tuple(ts))

    def setfield(self, r, name, v, node=None, ann=None):
        owner, T = self.field_info(r.cls, name)
        if owner is None:
            owner, T = r.cls.name, None
        skey = ("F", owner, name)
        st = self.st
        rk = simp(r.t)
        v = self.adapt(v, T, node)
        p = T.pack(v) if T is not None else None
        if T is None:
            T2 = self.type_of(v)
            if T2 is not None and not any(k == skey for (k, _) in st.side):
                self.inferred[(owner, name)] = T2
                T = T2
                p = T.pack(v)
        for (k, rid) in list(st.side):
            if k == skey and st.side[(k, rid)][0].eq(rk):
                del st.side[(k, rid)]
        if p is None:
            st.side[(skey, rk.sexpr())] = (rk, v)
            return
        if isinstance(T, TRef) and not T.nullable and isinstance(v, NoneV):
            self.err(f"None stored in {owner}.{name}", node)
        for i, (s, t) in enumerate(zip(T.sorts, p)):
            a = self.heap_arr(skey + (i,), z3.ArraySort(I, s))
            st.heap[skey + (i,)] = z3.Store(a, rk, t)
        self.touch(skey)

    def touch(self, key):
        """model functions that read `key` lose their value"""
        for mf in self.modelfns.values():
            if mf.depends(key):
                for k in [k for k in self.st.heap if k[:2] == ("M", mf.name)]:
                    self.havoc_key(k)

    def adapt(self, v, T, node=None):
        """convert v to the representation expected for type T where that is possible"""
        if T is None:
            return v
        if isinstance(v, UnionV) and T.pack(v) is None:
            # unions of packable alternatives
            alts = [(g, self.adapt(w, T, node)) for g, w in v.alts]
            m = self.merge_values(alts)
            if not isinstance(m, UnionV):
                return m
            if isinstance(T, TOpt) or isinstance(T, TAny):
                return m
            return self.adapt(self.force(v, node), T, node)
        if isinstance(T, TList):
            if isinstance(v, LocalListV):
                return self.materialise(v, T.t)
            if isinstance(v, (SeqV,)):
                return self.heap_list(v.seq, T.t)
        if isinstance(T, TDict) and isinstance(v, CDictV):
            return self.heap_dict(v, T)
        if isinstance(T, TOpt):
            if isinstance(v, NoneV):
                return v
            if isinstance(v, OptV):
                return OptV(v.isnone, self.adapt(v.v, T.t, node))
            return self.adapt(v, T.t, node)
        if isinstance(T, TReal) and isinstance(v, (IntV, BoolV)):
            return RealV(to_real(v))
        if isinstance(v, OptV) and not isinstance(T, (TOpt, TAny)):
            return self.adapt(self.force(v), T, node)
        return v

    def type_of(self, v):
        if isinstance(v, BoolV):
            return TBool()
        if isinstance(v, IntV):
            return TInt()
        if isinstance(v, RealV):
            return TReal()
        if isinstance(v, StrV):
            return TStr()
        if isinstance(v, DtV):
            return TDt()
        if isinstance(v, DateV):
            return TDate()
        if isinstance(v, TimeV):
            return TTime()
        if isinstance(v, EnumV):
            return TEnum(v.cls)
        if isinstance(v, AnyV):
            return TAny()
        if isinstance(v, RefV):
            return TRef(v.cls, v.nullable)
        if isinstance(v, ListV):
            return TList(v.T)
        if isinstance(v, DictV):
            return TDict(v.K, v.V)
        if isinstance(v, OptV):
            t = self.type_of(v.v)
            return TOpt(t) if t is not None else None
        if isinstance(v, LocalListV):
            s = self.st.llists[v.lid]
            if s[0] == "heap":
                return TList(s[1].T)
            if s[1].conc() == 0:
                return None
            e = s[1].get(z3.IntVal(0))
            t = self.type_of(e)
            return TList(t) if t is not None else None
        return None

    # ---- objects
    def alloc_ref(self):
        r = self.st.alloc
        self.st.alloc = simp(r + 1)
        return r

    def new_obj(self, cls):
        r = self.alloc_ref()
        self.assume(self.clsof(r) == self.class_ids[cls])
        return RefV(r, cls, True, False)

    # ---- lists
    def lkeys(self, T):
        k = T.key()
        return ("L", k, "len"), ("L", k, "base"), [("L", k, i) for i in range(len(T.sorts))]

    def list_seq(self, lv):
        """Seq view (snapshot) of a list value"""
        if isinstance(lv, LocalListV):
            kind, x = self.st.llists[lv.lid]
            return x if kind == "seq" else self.list_seq(x)
        if isinstance(lv, SeqV):
            return lv.seq
        if isinstance(lv, TupleV):
            return ConcSeq(lv.items)
        kl, kb, ka = self.lkeys(lv.T)
        ln = simp(z3.Select(self.heap_arr(kl, z3.ArraySort(I, I)), lv.t))
        bs = simp(z3.Select(self.heap_arr(kb, z3.ArraySort(I, I)), lv.t))
        arrs = []
        for k, s in zip(ka, lv.T.sorts):
            arrs.append(simp(z3.Select(self.heap_arr(k, z3.ArraySort(I, z3.ArraySort(I, s))), lv.t)))
        if not z3.is_int_value(ln):
            self.set_root(ln, 0, None)
            self.assume(ln >= 0, None)
            for b in len_bases(ln):
                self.assume(b >= 0, None)
        return ArrSeq(arrs, bs, ln, lv.T, src=lv)

    def set_list(self, lv, arrs=None, base=None, n=None):
        kl, kb, ka = self.lkeys(lv.T)
        h = self.st.heap
        if n is not None:
            h[kl] = z3.Store(self.heap_arr(kl, z3.ArraySort(I, I)), lv.t, simp(n))
        if base is not None:
            h[kb] = z3.Store(self.heap_arr(kb, z3.ArraySort(I, I)), lv.t, simp(base))
        if arrs is not None:
            for k, s, a in zip(ka, lv.T.sorts, arrs):
                h[k] = z3.Store(self.heap_arr(k, z3.ArraySort(I, z3.ArraySort(I, s))), lv.t, a)
        self.touch(("L", lv.T.key()))

    def heap_list(self, seq, T):
        """allocate a heap list holding seq"""
        lv = ListV(self.alloc_ref(), T)
        base = z3.IntVal(0)
        if isinstance(seq, ArrSeq) and seq.T.key() == T.key():
            self.set_list(lv, seq.arrs, seq.base, seq.n)
            return lv
        if isinstance(seq, CatSeq):
            left = seq.a
            # left part array with the right items stored behind it
            if isinstance(left, ArrSeq) and left.T.key() == T.key() and isinstance(seq.b, ConcSeq):
                arrs = list(left.arrs)
                for i, it in enumerate(seq.b.items):
                    p = T.pack(self.adapt(it, T))
                    if p is None:
                        self.err("list element type")
                    arrs = [z3.Store(a, simp(left.base + left.n + i), t) for a, t in zip(arrs, p)]
                self.set_list(lv, arrs, left.base, seq.n)
                return lv
        if isinstance(seq, ConcSeq):
            arrs = [z3.Const(f"LE|{T.key()}|{i}", z3.ArraySort(I, s)) for i, s in enumerate(T.sorts)]
            for i, it in enumerate(seq.items):
                p = T.pack(self.adapt(it, T))
                if p is None:
                    self.err("list element type")
                arrs = [z3.Store(a, i, t) for a, t in zip(arrs, p)]
            self.set_list(lv, arrs, base, z3.IntVal(len(seq.items)))
            return lv
        k = self.new_generic("le")
        n = seq.n
        p = T.pack(self.adapt(self.pure(lambda: self.seq_at(seq, k)), T))
        if p is None:
            self.err("list element type")
        arrs = [z3.Lambda([k], t) for t in p]
        self.set_list(lv, arrs, base, n)
        return lv

    def seq_at(self, seq, k):
        return seq.get(k)

    def materialise(self, lv, T):
        kind, x = self.st.llists[lv.lid]
        if kind == "heap":
            return x
        h = self.heap_list(x, T)
        self.st.llists[lv.lid] = ("heap", h)
        return h

    def new_llist(self, seq):
        self.st.ctr += 1
        lid = self.st.ctr
        self.st.llists[lid] = ("seq", seq)
        return LocalListV(lid)

    def list_append(self, lv, v, node=None):
        if isinstance(lv, LocalListV):
            kind, x = self.st.llists[lv.lid]
            if kind == "seq":
                if isinstance(x, ConcSeq):
                    self.st.llists[lv.lid] = ("seq", ConcSeq(x.items + [v]))
                elif isinstance(x, CatSeq) and isinstance(x.b, ConcSeq):
                    self.st.llists[lv.lid] = ("seq", CatSeq(x.a, ConcSeq(x.b.items + [v])))
                else:
                    self.st.llists[lv.lid] = ("seq", CatSeq(x, ConcSeq([v])))
                return
            lv = x
        s = self.list_seq(lv)
        p = lv.T.pack(self.adapt(v, lv.T, node))
        if p is None:
            self.err(f"append of {v} to list of {lv.T}", node)
        arrs = [z3.Store(a, simp(s.base + s.n), t) for a, t in zip(s.arrs, p)]
        self.set_list(lv, arrs, None, s.n + 1)

    # ---- dicts
    def dkeys(self, dv):
        k = dv.K.key() + ":" + dv.V.key()
        ks = dv.K.sorts[0]
        return {"n": (("D", k, "n"), z3.ArraySort(I, I)),
                "key": (("D", k, "key"), z3.ArraySort(I, z3.ArraySort(I, ks))),
                "has": (("D", k, "has"), z3.ArraySort(I, z3.ArraySort(ks, B))),
                "pos": (("D", k, "pos"), z3.ArraySort(I, z3.ArraySort(ks, I))),
                **{f"val{i}": (("D", k, f"val{i}"), z3.ArraySort(I, z3.ArraySort(ks, s)))
                   for i, s in enumerate(dv.V.sorts)}}

    def dget(self, dv):
        if dv.snap is not None:
            return dv.snap
        return {n: simp(z3.Select(self.heap_arr(k, s), dv.t)) for n, (k, s) in self.dkeys(dv).items()}

    def dset(self, dv, **upd):
        ks = self.dkeys(dv)
        for n, t in upd.items():
            k, s = ks[n]
            self.st.heap[k] = z3.Store(self.heap_arr(k, s), dv.t, t)
        self.touch(("D", dv.K.key() + ":" + dv.V.key()))

    def dict_has(self, dv, kt):
        d = self.dget(dv)
        h = simp(z3.Select(d["has"], kt))
        p = z3.Select(d["pos"], kt)
        self.assume(d["n"] >= 0)
        self.assume(z3.Implies(h, z3.And(0 <= p, p < d["n"], z3.Select(d["key"], p) == kt)))
        return h

    def dict_val(self, dv, kt):
        d = self.dget(dv)
        return self.unpack(dv.V, tuple(simp(z3.Select(d[f"val{i}"], kt)) for i in range(len(dv.V.sorts))))

    def dict_set(self, dv, kt, v, node=None):
        d = self.dget(dv)
        h = self.dict_has(dv, kt)
        p = dv.V.pack(self.adapt(v, dv.V, node))
        if p is None:
            self.err(f"dict value {v} for {dv.V}", node)
        upd = {f"val{i}": z3.Store(d[f"val{i}"], kt, t) for i, t in enumerate(p)}
        upd["has"] = z3.Store(d["has"], kt, z3.BoolVal(True))
        upd["pos"] = z3.If(h, d["pos"], z3.Store(d["pos"], kt, d["n"]))
        upd["key"] = z3.If(h, d["key"], z3.Store(d["key"], d["n"], kt))
        upd["n"] = z3.If(h, d["n"], d["n"] + 1)
        self.dset(dv, **{k: simp(t) for k, t in upd.items()})

    def dict_items(self, dv, kind):
        d = self.dget(dv)
        self.assume(d["n"] >= 0)

        def get(i):
            kt = simp(z3.Select(d["key"], i))
            self.assume(z3.Implies(z3.And(0 <= i, i < d["n"]),
                                   z3.And(z3.Select(d["has"], kt), z3.Select(d["pos"], kt) == i)))
            kv = dv.K.unpack((kt,), self)
            if kind == "keys":
                return kv
            vv = self.unpack(dv.V, tuple(simp(z3.Select(d[f"val{x}"], kt)) for x in range(len(dv.V.sorts))))
            return vv if kind == "values" else TupleV([kv, vv])
        return FnSeq(d["n"], get)

    def empty_dict(self, T):
        dv = DictV(self.alloc_ref(), T.k, T.v)
        d = self.dget(dv)
        self.dset(dv, n=z3.IntVal(0), has=z3.K(T.k.sorts[0], z3.BoolVal(False)))
        return dv

    def heap_dict(self, cd, T):
        dv = self.empty_dict(T)
        for k, v in self.st.cdicts[cd.did]:
            p = T.k.pack(k)
            if p is None:
                self.err("dict key type")
            self.dict_set(dv, p[0], v)
        return dv

    def new_cdict(self, items):
        self.st.ctr += 1
        self.st.cdicts[self.st.ctr] = list(items)
        return CDictV(self.st.ctr)

    # ------------------------------------------------------------ truth, equality, order
    def truth(self, v, node=None):
        """-> z3 Bool"""
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, (IntV, RealV)):
            return v.t != 0
        if isinstance(v, StrV):
            return self.str_nonempty(v)
        if isinstance(v, RefV):
            for nm in ("__bool__", "__len__"):
                if v.cls.lookup(nm):
                    b = self.force(v)
                    if isinstance(b, NoneV):
                        return z3.BoolVal(False)
                    r = self.call(self.getattr(b, nm), [], {}, node)
                    return self.truth(r, node)
            return v.t != 0 if v.nullable else z3.BoolVal(True)
        if isinstance(v, (ListV, LocalListV, TupleV)):
            return self.list_seq(v).n > 0
        if isinstance(v, OptV):
            return z3.And(z3.Not(v.isnone), self.truth(v.v))
        if isinstance(v, UnionV):
            return z3.Or(*[z3.And(g, self.truth(w)) for g, w in v.alts])
        if isinstance(v, CDictV):
            return z3.BoolVal(len(self.st.cdicts[v.did]) > 0)
        if isinstance(v, DictV):
            d = self.dget(v)
            self.assume(d["n"] >= 0)
            return d["n"] > 0
        if isinstance(v, AnyV):
            return self.uf("any_truthy", AnyS, B)(v.t)
        if isinstance(v, DeltaV):
            return v.t != 0
        if isinstance(v, Poison):
            self.err("loop-local variable used after the loop", node)
        if isinstance(v, ViewV):
            return self.iter_seq(v).n > 0
        return z3.BoolVal(True)

    def str_nonempty(self, v):
        if v.lit is not None:
            return z3.BoolVal(bool(v.lit))
        return self.uf("str_nonempty", StrS, B)(v.t)

    def is_none(self, v):
        if isinstance(v, NoneV):
            return z3.BoolVal(True)
        if isinstance(v, OptV):
            return z3.Or(v.isnone, self.is_none(v.v))
        if isinstance(v, UnionV):
            return z3.Or(*[z3.And(g, self.is_none(w)) for g, w in v.alts])
        if isinstance(v, RefV):
            return v.t == 0 if v.nullable else z3.BoolVal(False)
        if isinstance(v, TzV):
            return v.none if v.none is not None else z3.BoolVal(False)
        if isinstance(v, Poison):
            self.err("loop-local variable used after the loop")
        return z3.BoolVal(False)

    def eq(self, a, b, ident=False):
        """-> z3 Bool for a == b (a is b when ident)"""
        if isinstance(a, UnionV):
            return z3.Or(*[z3.And(g, self.eq(w, b, ident)) for g, w in a.alts])
        if isinstance(b, UnionV):
            return z3.Or(*[z3.And(g, self.eq(a, w, ident)) for g, w in b.alts])
        if isinstance(a, OptV):
            return z3.Or(z3.And(a.isnone, self.is_none(b)), z3.And(z3.Not(a.isnone), self.eq(a.v, b, ident)))
        if isinstance(b, OptV):
            return z3.And(z3.Not(b.isnone), self.eq(a, b.v, ident))
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return self.is_none(b if isinstance(a, NoneV) else a)
        if isinstance(a, (BoolV, IntV, RealV)) and isinstance(b, (BoolV, IntV, RealV)):
            if isinstance(a, BoolV) and isinstance(b, BoolV):
                return a.t == b.t
            if ident and isinstance(a, BoolV) != isinstance(b, BoolV):
                return z3.BoolVal(False)
            if isinstance(a, RealV) or isinstance(b, RealV):
                return to_real(a) == to_real(b)
            return to_int(a) == to_int(b)
        if isinstance(a, RefV) and isinstance(b, RefV):
            for nm in ("__eq__",):
                if not ident and (a.cls.lookup(nm)):
                    self.err("user-defined __eq__")
            return a.t == b.t
        if isinstance(a, StrV) and isinstance(b, StrV):
            if a.lit is not None and b.lit is not None:
                return z3.BoolVal(a.lit == b.lit)
            return a.t == b.t
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a.t == b.t if a.cls is b.cls else z3.BoolVal(False)
        if isinstance(a, DtV) and isinstance(b, DtV):
            if ident:
                return a.t == b.t
            na, nb = dt_kind(a.t) == 2, dt_kind(b.t) == 2
            return z3.And(na == nb, z3.If(z3.Or(na, dt_tz(a.t) == dt_tz(b.t)), dt_wall(a.t) == dt_wall(b.t),
                                          dt_utc(a.t) == dt_utc(b.t)))
        for K in (DateV, TimeV, DeltaV):
            if isinstance(a, K) and isinstance(b, K):
                return a.t == b.t
        if isinstance(a, AnyV) and isinstance(b, AnyV):
            return a.t == b.t
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            return z3.BoolVal(False)
        if isinstance(a, (TupleV, ListV, LocalListV, SeqV)) and isinstance(b, (TupleV, ListV, LocalListV, SeqV)):
            if ident and isinstance(a, ListV) and isinstance(b, ListV):
                return a.t == b.t
            return self.seq_eq(self.list_seq(a), self.list_seq(b))
        if isinstance(a, DictV) and isinstance(b, DictV) and ident:
            return a.t == b.t
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return z3.BoolVal(a.cls is b.cls)
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            if a.data is None and b.data is None:
                return z3.BoolVal(a.name == b.name)
            self.err(f"equality of {a} and {b}")
        if isinstance(a, TzV) and isinstance(b, TzV):
            return a.t == b.t
        if isinstance(a, CDictV) and isinstance(b, CDictV):
            ia, ib = self.st.cdicts[a.did], self.st.cdicts[b.did]
            if len(ia) != len(ib):
                return z3.BoolVal(False)
            out = []
            for k, v in ia:
                m = [w for k2, w in ib if is_true(simp(self.eq(k, k2)))]
                if len(m) != 1:
                    return z3.BoolVal(False)
                out.append(self.eq(v, m[0]))
            return z3.And(*out) if out else z3.BoolVal(True)
        if type(a) is not type(b):
            return z3.BoolVal(False)
        if isinstance(a, (FuncV, BoundV)):
            return z3.BoolVal(a.fn is b.fn and (not isinstance(a, BoundV) or True))
        self.err(f"equality of {a} and {b}")

    def seq_eq(self, s1, s2):
        c1, c2 = s1.conc(), s2.conc()
        if c1 is not None and c2 is not None:
            if c1 != c2:
                return z3.BoolVal(False)
            return z3.And(*[self.eq(s1.get(z3.IntVal(i)), s2.get(z3.IntVal(i))) for i in range(c1)]) if c1 else z3.BoolVal(True)
        if s1.void() or s2.void():
            return z3.And(s1.n == 0, s2.n == 0)
        if isinstance(s1, FiltSeq) and isinstance(s2, FiltSeq):
            k = self.new_generic("sq")
            rng = z3.And(0 <= k, k < s1.base_n)

            def body():
                self.assume(rng)
                a = s1.cond(k)
                b = s2.cond(k)
                return BoolV(z3.And(a == b, z3.Implies(a, self.eq(s1.f(k), s2.f(k)))))
            t = self.pure(body).t
            return z3.And(s1.base_n == s2.base_n, forall1(k, z3.Implies(rng, t)))
        for a, b in ((s1, s2), (s2, s1)):
            if isinstance(a, FiltSeq) and isinstance(b, ArrSeq) or isinstance(a, FiltSeq) and isinstance(b, FnSeq):
                # b lists every element of a: use the index map
                break
        k = self.new_generic("sq")

        def body():
            self.assume(z3.And(0 <= k, k < s1.n))
            return BoolV(self.eq(s1.get(k), s2.get(k)))
        t = self.pure(body).t
        return z3.And(s1.n == s2.n, forall1(k, z3.Implies(z3.And(0 <= k, k < s1.n), t)))

    def less(self, a, b, op, node=None):
        """a op b for op in < <= > >="""
        a, b = self.force(a, node), self.force(b, node)
        f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
        if is_num(a) and is_num(b):
            if isinstance(a, RealV) or isinstance(b, RealV):
                return f(to_real(a), to_real(b))
            return f(to_int(a), to_int(b))
        if isinstance(a, DtV) and isinstance(b, DtV):
            self.dt_cmp_check(a, b)
            # same tzinfo object: wall clocks are compared; otherwise instants
            return z3.If(dt_tz(a.t) == dt_tz(b.t), f(dt_wall(a.t), dt_wall(b.t)), f(dt_utc(a.t), dt_utc(b.t)))
        for K in (DateV, TimeV, DeltaV):
            if isinstance(a, K) and isinstance(b, K):
                return f(a.t, b.t)
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            raise PyExc("TypeError", (), node)
        if type(a) is not type(b) or isinstance(a, (NoneV, EnumV, RefV)):
            raise PyExc("TypeError", (), node)
        self.err(f"comparison {a} {op} {b}", node)

    def dt_cmp_check(self, a, b):
        naive_a, naive_b = dt_kind(a.t) == 2, dt_kind(b.t) == 2
        if self.branch(naive_a != naive_b):
            raise PyExc("TypeError")

    # ------------------------------------------------------------ arithmetic
    def mul(self, x, y):
        x, y = simp(x), simp(y)
        for a, b in ((x, y), (y, x)):
            if z3.is_int_value(a) or z3.is_rational_value(a):
                return a * b
        if x.sexpr() > y.sexpr():
            x, y = y, x
        if x.sort() == I:
            return self.uf("pmulI", I, I, I)(x, y)
        return self.uf("pmul", R, R, R)(x, y)

    def rdiv(self, x, y):
        y = simp(y)
        if z3.is_rational_value(y) or z3.is_int_value(y):
            return x / y
        return self.uf("pdiv", R, R, R)(simp(x), y)

    def binop(self, op, a, b, node=None):
        a, b = self.force(a, node), self.force(b, node)
        if isinstance(a, BoolV):
            a = IntV(to_int(a))
        if isinstance(b, BoolV):
            b = IntV(to_int(b))
        if isinstance(a, (IntV, RealV)) and isinstance(b, (IntV, RealV)):
            both = isinstance(a, IntV) and isinstance(b, IntV)
            if op in ("Add", "Sub", "Mult"):
                x, y = (a.t, b.t) if both else (to_real(a), to_real(b))
                t = x + y if op == "Add" else x - y if op == "Sub" else self.mul(x, y)
                return IntV(simp(t)) if both else RealV(simp(t))
            if op == "Div":
                y = to_real(b)
                if self.branch(y == 0):
                    raise PyExc("ZeroDivisionError", (), node)
                return RealV(simp(self.rdiv(to_real(a), y)))
            if op in ("Mod", "FloorDiv") and both:
                if self.branch(b.t == 0):
                    raise PyExc("ZeroDivisionError", (), node)
                x, y = a.t, b.t
                ys = simp(y)
                if z3.is_int_value(ys) and ys.as_long() > 0:
                    return IntV(simp(x % ys if op == "Mod" else x / ys))
                if op == "Mod":
                    return IntV(z3.If(y > 0, x % y, -((-x) % (-y))))
                return IntV(z3.If(y > 0, x / y, (-x) / (-y)))
            if op == "Pow" and both:
                y = simp(b.t)
                if z3.is_int_value(y) and 0 <= y.as_long() <= 6:
                    r = z3.IntVal(1)
                    for _ in range(y.as_long()):
                        r = self.mul(r, a.t)
                    return IntV(r)
            self.err(f"operator {op}", node)
        lists = (ListV, LocalListV)
        if self.spec and op == "Add" and isinstance(a, lists + (SeqV,)) and isinstance(b, lists + (SeqV,)):
            return SeqV(CatSeq(*[x.seq if isinstance(x, SeqV) else self.list_seq(x) for x in (a, b)]))
        if op == "Add" and isinstance(a, lists) and isinstance(b, lists):
            sa, sb = self.list_seq(a), self.list_seq(b)
            if isinstance(sa, ConcSeq) and isinstance(sb, ConcSeq):
                return self.new_llist(ConcSeq(sa.items + sb.items))
            return self.new_llist(CatSeq(sa, sb))
        if op == "Add" and isinstance(a, TupleV) and isinstance(b, TupleV):
            return TupleV(a.items + b.items)
        if isinstance(a, StrV) and isinstance(b, StrV) and op == "Add":
            if a.lit is not None and b.lit is not None:
                return self.lit(a.lit + b.lit)
            return StrV(self.uf("str_cat", StrS, StrS, StrS)(a.t, b.t), None)
        if isinstance(a, StrV) and op in ("Mod", "Mult"):
            return StrV(self.fresh("str", StrS), None)
        from . import lib
        r = lib.dt_binop(self, op, a, b, node)
        if r is not None:
            return r
        if isinstance(a, (NoneV, AnyV, StrV, RefV, EnumV)) or isinstance(b, (NoneV, AnyV, StrV, RefV, EnumV)):
            raise PyExc("TypeError", (), node)
        self.err(f"operator {op} on {a}, {b}", node)

    # ------------------------------------------------------------ attributes
    def subclasses(self, cls):
        return [c for c in self.prog.classes.values() if c is not cls and c.is_sub(cls)]

    def resolve(self, r, name):
        """attribute lookup on an object, dispatching on the dynamic class when it matters"""
        l = r.cls.lookup(name)
        if r.exact:
            return r, l
        impl = {}
        for c in [r.cls] + self.subclasses(r.cls):
            x = c.lookup(name)
            impl.setdefault((x[0], id(x[2])) if x else None, []).append(c)
        if len(impl) == 1:
            return r, l
        # a contract on the static class's member stands for every override
        if l is not None and self.member_contract(l):
            return r, l
        base_key = (l[0], id(l[2])) if l else None
        groups = [(k, cs) for k, cs in impl.items() if k != base_key]
        for k, cs in groups:
            cond = z3.Or(*[self.clsof(r.t) == self.class_ids[c] for c in cs])
            if self.branch(cond):
                c = common_class(cs)
                r2 = RefV(r.t, c if c in cs else cs[0], len(cs) == 1, r.nullable)
                return r2, r2.cls.lookup(name)
        return r, l

    def member_contract(self, l):
        if l[0] == "method":
            return l[2].qual in self.uses
        if l[0] == "prop":
            g = l[2].get("get")
            return g is not None and (g.qual in self.uses or g.qual in self.modelfns)
        return False

    def getattr(self, v, name, node=None):
        from . import lib
        v = self.force(v, node)
        if isinstance(v, RefV):
            if name == "__class__":
                return ClassV(v.cls)
            if name == "__dict__":
                self.err("__dict__", node)
            r, l = self.resolve(v, name)
            if l is None:
                return self.getfield_dyn(r, name, node)
            kind, owner, obj = l
            if kind == "prop":
                if "get" not in obj:
                    raise PyExc("AttributeError", (name,), node)
                return self.call_prop(obj["get"], r, node)
            if kind == "method":
                if obj.kind == "staticmethod":
                    return FuncV(obj, None)
                if obj.kind == "classmethod":
                    return BoundV(obj, ClassV(r.cls))
                return BoundV(obj, r)
            # class constant possibly shadowed by an instance field
            o, T = self.field_info(r.cls, name)
            if o is not None and any(k == ("F", o, name) for k, _ in self.st.side):
                return self.getfield(r, name, node)
            return self.eval_global_expr(owner.module, obj)
        return lib.getattr_ext(self, v, name, node)

    def getfield_dyn(self, r, name, node=None):
        o, T = self.field_info(r.cls, name)
        if o is None:
            # declared only in some subclasses
            subs = [c for c in self.subclasses(r.cls) if self.field_info(c, name)[0] is not None] if not r.exact else []
            if subs:
                cond = z3.Or(*[self.clsof(r.t) == self.class_ids[c] for c in subs])
                if self.branch(cond):
                    c = common_class(subs)
                    return self.getfield(RefV(r.t, c if c in subs else subs[0], False, False), name, node)
            if self.prog.cls is not None and r.cls.ext_bases() and not r.cls.is_enum:
                pass
            raise PyExc("AttributeError", (name,), node)
        return self.getfield(r, name, node)

    def call_prop(self, fn, r, node=None):
        mf = self.modelfns.get(fn.qual)
        if mf is not None and not (self.root_active(fn, r)):
            return mf.read(self, r)
        return self.pure(lambda: self.call_func(fn, r, [], {}, node))

    def root_active(self, fn, r):
        return False

    def setattr(self, v, name, val, node=None):
        v = self.force(v, node)
        if isinstance(v, RefV):
            l = v.cls.lookup(name)
            if l is not None and l[0] == "prop":
                if "set" not in l[2]:
                    raise PyExc("AttributeError", (name,), node)
                self.call_func(l[2]["set"], v, [val], {}, node)
                return
            self.setfield(v, name, val, node)
            return
        if isinstance(v, NoneV):
            raise PyExc("AttributeError", (name,), node)
        self.err(f"assignment to attribute {name} of {v}", node)

    # ------------------------------------------------------------ names
    def eval_global_expr(self, mod, expr):
        fid = self.new_frame(None, mod)
        return self.ev(expr, fid)

    def new_frame(self, parent, mod, fn=None):
        self.st.ctr += 1
        fid = self.st.ctr
        self.st.frames[fid] = {"$parent": parent, "$mod": mod, "$fn": fn}
        return fid

    def lookup(self, name, fid, node=None):
        f = fid
        while f is not None:
            fr = self.st.frames[f]
            if name in fr:
                v = fr[name]
                if isinstance(v, OmitV):
                    return NONE
                if isinstance(v, Poison):
                    self.err(f"variable {name} of a summarised loop used after it", node)
                return v
            mod = fr["$mod"]
            f = fr["$parent"]
        r = self.prog.resolve_global(mod, name)
        if r is not None:
            return self.from_global(r)
        from . import lib
        if name in lib.BUILTINS or name in BUILTIN_EXC:
            return ExtV("builtins." + name, None)
        if mod is self.prog.modules.get("stubs") and name == "thread_start":
            return ExtV("stub." + name, None)
        if (self.spec or self.lemma) and name in lib.SPEC_BUILTINS:
            return ExtV("spec." + name, None)
        if self.spec or self.lemma:
            sm = self.prog.modules.get("specs")
            if sm is not None:
                r = self.prog.resolve_global(sm, name)
                if r is not None:
                    return self.from_global(r)
            try:
                return ClassV(self.prog.cls(name))
            except KeyError:
                pass
        raise PyExc("NameError", (name,), node)

    def from_global(self, r):
        k, o = r
        if k == "func":
            return FuncV(o, None)
        if k == "class":
            return ClassV(o)
        if k == "module":
            return ModuleV(o)
        if k == "ext":
            return ExtV(o, None)
        if k == "expr":
            mod, e = o
            return self.eval_global_expr(mod, e)
        raise AssertionError

    # ------------------------------------------------------------ calls
    def bind(self, fn, recv, args, kwargs, node=None):
        a = fn.node.args
        fid = self.new_frame(fn.closure, fn.module, fn)
        fr = self.st.frames[fid]
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = ([recv] if recv is not None else []) + list(args)
        kw = dict(kwargs)
        if len(vals) > len(pos):
            if a.vararg is None:
                raise PyExc("TypeError", (f"{fn.qual} takes {len(pos)} positional arguments",), node)
            fr[a.vararg.arg] = TupleV(vals[len(pos):])
            vals = vals[:len(pos)]
        elif a.vararg is not None:
            fr[a.vararg.arg] = TupleV([])
        for n, v in zip(pos, vals):
            if n in kw:
                raise PyExc("TypeError", (f"multiple values for {n}",), node)
            fr[n] = v
        nd = len(a.defaults)
        for i, n in enumerate(pos):
            if n in fr:
                continue
            if n in kw:
                fr[n] = kw.pop(n)
            elif i >= len(pos) - nd:
                fr[n] = self.eval_default(fn, a.defaults[i - (len(pos) - nd)])
            else:
                raise PyExc("TypeError", (f"missing argument {n} of {fn.qual}",), node)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif d is not None:
                fr[x.arg] = self.eval_default(fn, d)
            else:
                raise PyExc("TypeError", (f"missing argument {x.arg}",), node)
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.new_cdict([(self.lit(k), v) for k, v in kw.items()])
        elif kw:
            raise PyExc("TypeError", (f"unexpected keyword {sorted(kw)[0]} for {fn.qual}",), node)
        return fid

    def eval_default(self, fn, d):
        fid = self.new_frame(fn.closure, fn.module)
        return self.ev(d, fid)

    def call_func(self, fn, recv, args, kwargs, node=None):
        c = self.uses.get(fn.qual)
        if c is not None and not (self.spec and not c.in_spec):
            self.calls_by_contract.add(c.qual)
            return c.apply(self, fn, recv, args, kwargs, node)
        if self.depth > 60:
            self.err(f"recursion through {fn.qual}", node)
        if sum(1 for f in self.call_stack if f is fn) > 6:
            self.err(f"recursion through {fn.qual} without contract", node)
        fid = self.bind(fn, recv, args, kwargs, node)
        if not self.spec:
            self.inlined.add(fn.qual)
        if fn.is_gen:
            return GenV(fn, fid, fn.cls)
        return self.exec_body(fn, fid)

    def exec_body(self, fn, fid):
        self.depth += 1
        self.call_stack.append(fn)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fid)
            self.block(fn.node.body, fid)
            return NONE
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            self.call_stack.pop()

    def call(self, f, args, kwargs, node=None):
        from . import lib
        f = self.force(f, node)
        if isinstance(f, FuncV):
            if isinstance(f.fn, Func) and f.fn.kind == "classmethod" and f.env is None:
                pass
            return self.call_func(f.fn, None, args, kwargs, node)
        if isinstance(f, BoundV):
            return self.call_func(f.fn, f.recv, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f.cls, args, kwargs, node)
        if isinstance(f, LambdaV):
            return self.call_func(f.node, None, args, kwargs, node)
        if isinstance(f, (ExtV, SpecFnV)):
            return lib.call_ext(self, f, args, kwargs, node)
        if isinstance(f, RefV):
            return self.call(self.getattr(f, "__call__", node), args, kwargs, node)
        if isinstance(f, NoneV):
            raise PyExc("TypeError", (), node)
        self.err(f"call of {f}", node)

    def instantiate(self, cls, args, kwargs, node=None):
        if cls.is_exc:
            return ExcV(cls, list(args), None)
        if cls.is_enum:
            self.err("enum lookup by value", node)
        l = cls.lookup("__init__")
        nw = cls.lookup("__new__")
        if nw:
            self.err("__new__", node)
        obj = self.new_obj(cls)
        if l is not None:
            self.call_func(l[2], obj, args, kwargs, node)
        elif args or kwargs:
            raise PyExc("TypeError", (), node)
        return obj

    # ------------------------------------------------------------ expressions
    def ev(self, e, fid):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.err(f"expression {type(e).__name__}", e)
        return m(e, fid)

    def ev_Constant(self, e, fid):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BoolV(z3.BoolVal(v))
        if isinstance(v, int):
            return IntV(z3.IntVal(v))
        if isinstance(v, float):
            fr = Fraction(repr(v)) if "e" not in repr(v) and "n" not in repr(v) else Fraction(v)
            return RealV(z3.RealVal(f"{fr.numerator}/{fr.denominator}"))
        if isinstance(v, str):
            return self.lit(v)
        if v is Ellipsis:
            return NONE
        self.err("constant", e)

    def ev_Name(self, e, fid):
        return self.lookup(e.id, fid, e)

    def ev_Attribute(self, e, fid):
        v = self.ev(e.value, fid)
        return self.getattr(v, e.attr, e)

    def ev_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.assign(e.target, v, fid)
        return v

    def ev_JoinedStr(self, e, fid):
        parts, tmpl = [], ""
        for p in e.values:
            if isinstance(p, ast.Constant):
                tmpl += p.value
            else:
                try:
                    v = self.ev(p.value, fid)
                except Unsupported:
                    v = None
                fmt = ""
                if p.format_spec is not None:
                    fmt = ast.dump(p.format_spec)
                if isinstance(v, StrV) and v.lit is not None and not fmt:
                    tmpl += v.lit
                    continue
                parts.append(v)
                tmpl += "{" + fmt + "}"
        if not parts:
            return self.lit(tmpl)
        ts = []
        for v in parts:
            t = self.str_of(v)
            ts.append(t)
        f = self.uf("fstr:" + tmpl, *([StrS] * len(ts) + [StrS]))
        r = f(*ts)
        if tmpl.replace("{}", ""):
            self.assume(self.uf("str_nonempty", StrS, B)(r))
        return StrV(r, None)

    def str_of(self, v):
        if isinstance(v, OptV) or isinstance(v, UnionV):
            return self.fresh("str", StrS)
        if isinstance(v, StrV):
            return v.t
        if isinstance(v, (IntV, RealV, BoolV)):
            return self.uf("str_of_" + str(v.t.sort()), v.t.sort(), StrS)(v.t)
        return self.fresh("str", StrS)

    def ev_List(self, e, fid):
        return self.new_llist(ConcSeq(self.elts(e.elts, fid)))

    def ev_Tuple(self, e, fid):
        return TupleV(self.elts(e.elts, fid))

    ev_Set = ev_Tuple

    def elts(self, es, fid):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                s = self.iter_seq(self.ev(x.value, fid))
                n = s.conc()
                if n is None:
                    self.err("starred of unknown length", x)
                out += [s.get(z3.IntVal(i)) for i in range(n)]
            else:
                out.append(self.ev(x, fid))
        return out

    def ev_Dict(self, e, fid):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.force(self.ev(v, fid))
                if not isinstance(d, CDictV):
                    self.err("** of a non-literal dict", e)
                for kk, vv in self.st.cdicts[d.did]:
                    items = [(a, b) for a, b in items if not is_true(simp(self.eq(a, kk)))] + [(kk, vv)]
                continue
            kk = self.ev(k, fid)
            items.append((kk, self.ev(v, fid)))
        return self.new_cdict(items)

    def ev_IfExp(self, e, fid):
        def th():
            if self.branch(self.truth(self.ev(e.test, fid), e)):
                return self.ev(e.body, fid)
            return self.ev(e.orelse, fid)
        return self.pure(th)

    def ev_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)

        def th():
            v = None
            for i, x in enumerate(e.values):
                v = self.ev(x, fid)
                if i == len(e.values) - 1:
                    return v
                t = self.truth(v, x)
                if self.branch(t) != isand:
                    return v if not isinstance(v, BoolV) else BoolV(z3.BoolVal(not isand))
                if isinstance(v, OptV) and not isand:
                    pass
            return v
        return self.pure(th)

    def ev_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return BoolV(simp(z3.Not(self.truth(v, e))))
        v = self.force(v, e)
        if isinstance(e.op, ast.USub):
            if isinstance(v, BoolV):
                v = IntV(to_int(v))
            if isinstance(v, IntV):
                return IntV(simp(-v.t))
            if isinstance(v, RealV):
                return RealV(simp(-v.t))
            if isinstance(v, DeltaV):
                return DeltaV(-v.t)
            raise PyExc("TypeError", (), e)
        if isinstance(e.op, ast.UAdd):
            return v
        self.err("unary operator", e)

    def ev_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        b = self.ev(e.right, fid)
        return self.binop(type(e.op).__name__, a, b, e)

    def ev_Compare(self, e, fid):
        if len(e.ops) == 1:
            a = self.ev(e.left, fid)
            b = self.ev(e.comparators[0], fid)
            return BoolV(simp(self.compare(e.ops[0], a, b, e)))

        def th():
            a = self.ev(e.left, fid)
            for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
                b = self.ev(c, fid)
                t = self.compare(op, a, b, e)
                if i == len(e.ops) - 1:
                    return BoolV(t)
                if not self.branch(t):
                    return BoolV(z3.BoolVal(False))
                a = b
        return self.pure(th)

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.eq(a, b)
            return t if isinstance(op, ast.Eq) else z3.Not(t)
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.eq(a, b, ident=True)
            return t if isinstance(op, ast.Is) else z3.Not(t)
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(b, a, node)
            return t if isinstance(op, ast.In) else z3.Not(t)
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if isinstance(a, (UnionV, OptV)) or isinstance(b, (UnionV, OptV)) or \
                (isinstance(a, RefV) and a.nullable) or (isinstance(b, RefV) and b.nullable):
            return self.pure(lambda: BoolV(self.less(a, b, sym, node))).t
        return self.less(a, b, sym, node)

    def contains(self, c, x, node=None):
        c = self.force(c, node)
        if isinstance(c, DictV):
            x = self.force(x, node)
            p = c.K.pack(x)
            if p is None:
                return z3.BoolVal(False)
            return self.dict_has(c, p[0])
        if isinstance(c, CDictV):
            return z3.Or(*[self.eq(k, x) for k, _ in self.st.cdicts[c.did]] or [z3.BoolVal(False)])
        if isinstance(c, ExtV):
            from . import lib
            return lib.contains_ext(self, c, x, node)
        if isinstance(c, NoneV):
            raise PyExc("TypeError", (), node)
        if isinstance(c, ClassV) and c.cls.is_enum:
            return z3.BoolVal(isinstance(x, EnumV) and x.cls is c.cls)
        s = self.iter_seq(c, node)
        n = s.conc()
        if n is not None and n <= 24:
            return z3.Or(*[self.eq(s.get(z3.IntVal(i)), x) for i in range(n)]) if n else z3.BoolVal(False)
        k = self.new_generic("in")
        if isinstance(s, FiltSeq):
            rng = z3.And(0 <= k, k < s.base_n)
            t = self.pure(lambda: (self.assume(rng), BoolV(z3.And(s.cond(k), self.eq(s.f(k), x))))[1]).t
            return exists1(k, z3.And(rng, t))
        rng = z3.And(0 <= k, k < s.n)
        t = self.pure(lambda: (self.assume(rng), BoolV(self.eq(s.get(k), x)))[1]).t
        return mk_exists(k, z3.And(rng, t))

    def ev_Subscript(self, e, fid):
        v = self.force(self.ev(e.value, fid), e)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fid) if e.slice.lower is not None else NONE
            hi = self.ev(e.slice.upper, fid) if e.slice.upper is not None else NONE
            st = self.ev(e.slice.step, fid) if e.slice.step is not None else NONE
            return self.slice(v, lo, hi, st, e)
        i = self.ev(e.slice, fid)
        return self.getitem(v, i, e)

    def slice(self, v, lo, hi, step, node):
        if isinstance(v, StrV):
            r = self.fresh("str", StrS)
            ne = self.uf("str_nonempty", StrS, B)
            if isinstance(lo, NoneV) and isinstance(hi, IntV) and z3.is_int_value(simp(hi.t)) and simp(hi.t).as_long() > 0:
                self.assume(ne(r) == self.str_nonempty(v))
            return StrV(r, None)
        step = self.force(step)
        s = self.list_seq(v) if not isinstance(v, (GenV,)) else self.iter_seq(v)
        if isinstance(step, IntV):
            sv = simp(step.t)
            if z3.is_int_value(sv) and sv.as_long() == -1 and isinstance(self.force(lo), NoneV) and isinstance(self.force(hi), NoneV):
                return self.new_llist(RevSeq(s) if not isinstance(s, ConcSeq) else ConcSeq(s.items[::-1]))
            if not (z3.is_int_value(sv) and sv.as_long() == 1):
                self.err("slice step", node)
        n = s.n

        def clip(x, dflt):
            x = self.force(x, node)
            if isinstance(x, NoneV):
                return dflt
            t = to_int(x)
            t = z3.If(t < 0, t + n, t)
            return simp(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
        a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
        ln = simp(z3.If(b > a, b - a, z3.IntVal(0)))
        if isinstance(s, ConcSeq) and z3.is_int_value(a) and z3.is_int_value(b):
            r = ConcSeq(s.items[a.as_long():b.as_long()])
            return TupleV(r.items) if isinstance(v, TupleV) else self.new_llist(r)
        if isinstance(s, ArrSeq):
            r = ArrSeq(s.arrs, simp(s.base + a), ln, s.T)
        else:
            r = SliceSeq(s, a, ln)
        return self.new_llist(r)

    def getitem(self, v, i, node=None):
        if isinstance(v, (ListV, LocalListV, TupleV, SeqV)):
            s = self.list_seq(v)
            i = self.force(i, node)
            if not isinstance(i, (IntV, BoolV)):
                raise PyExc("TypeError", (), node)
            t = simp(to_int(i))
            n = s.n
            if self.branch(z3.Or(t >= n, t < -n)):
                raise PyExc("IndexError", (), node)
            return s.get(self.from_end(t, n))
        if isinstance(v, DictV):
            i = self.force(i, node)
            p = v.K.pack(i)
            if p is None or not self.branch(self.dict_has(v, p[0])):
                raise PyExc("KeyError", (), node)
            return self.dict_val(v, p[0])
        if isinstance(v, CDictV):
            for k, x in self.st.cdicts[v.did]:
                if self.branch(self.eq(k, i)):
                    return x
            raise PyExc("KeyError", (), node)
        if isinstance(v, RefV):
            l = v.cls.lookup("__getitem__")
            if l is None:
                raise PyExc("TypeError", (), node)
            return self.call(self.getattr(v, "__getitem__", node), [i], {}, node)
        if isinstance(v, NoneV):
            raise PyExc("TypeError", (), node)
        if isinstance(v, StrV):
            return StrV(self.fresh("chr", StrS), None)
        if isinstance(v, ExtV) and v.name == "typing":
            return v
        if isinstance(v, ExtV):
            return ExtV(v.name + "[]", None)
        self.err(f"subscript of {v}", node)

    def ev_Lambda(self, e, fid):
        fn = Func("<lambda>", "<lambda>", e, self.st.frames[fid]["$mod"], None, "function", "")
        fn.closure = fid
        return FuncV(fn, fid)

    def ev_Call(self, e, fid):
        from . import lib
        # logging calls are dropped: their arguments are not evaluated
        if lib.is_logging_call(self, e, fid):
            return NONE
        if isinstance(e.func, ast.Name) and (self.spec or self.lemma) and e.func.id in lib.SPEC_FORMS:
            if e.func.id not in self.st.frames[fid]:
                return lib.SPEC_FORMS[e.func.id](self, e, fid)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fn = self.st.frames[fid]["$fn"]
            f2 = fid
            while fn is None or fn.cls is None:
                f2 = self.st.frames[f2]["$parent"]
                fn = self.st.frames[f2]["$fn"]
            recv = self.st.frames[f2][fn.node.args.args[0].arg]
            return SuperV(fn.cls, recv)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2 and not e.keywords:
            c = self.force(self.ev(e.args[0], fid), e)
            if isinstance(c, ClassV):
                return SuperV(c.cls, self.ev(e.args[1], fid))
        f = self.ev(e.func, fid)
        # generator expression arguments of aggregates are handled without a generator object
        if len(e.args) >= 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(f, ExtV) \
                and f.name in lib.AGGREGATES:
            rest = [self.ev(a, fid) for a in e.args[1:]]
            kw = {k.arg: self.ev(k.value, fid) for k in e.keywords}
            return lib.aggregate(self, f.name, e.args[0], fid, rest, kw, e)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iter_seq(self.ev(a.value, fid))
                n = s.conc()
                if n is None:
                    self.err("call with *args of unknown length", e)
                args += [s.get(z3.IntVal(i)) for i in range(n)]
            else:
                args.append(self.ev(a, fid))
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, fid), e)
                if not isinstance(d, CDictV):
                    self.err("call with ** of unknown shape", e)
                for kk, vv in self.st.cdicts[d.did]:
                    if not (isinstance(kk, StrV) and kk.lit is not None):
                        self.err("** with non-literal key", e)
                    if kk.lit in kwargs:
                        raise PyExc("TypeError", (f"multiple values for {kk.lit}",), e)
                    kwargs[kk.lit] = vv
            else:
                if k.arg in kwargs:
                    raise PyExc("TypeError", (f"multiple values for {k.arg}",), e)
                kwargs[k.arg] = self.ev(k.value, fid)
        return self.call(f, args, kwargs, e)

    def ev_ListComp(self, e, fid):
        from . import loops
        return loops.list_comp(self, e, fid)

    def ev_GeneratorExp(self, e, fid):
        from . import loops
        return loops.gen_exp(self, e, fid)

    def ev_DictComp(self, e, fid):
        from . import loops
        return loops.dict_comp(self, e, fid)

    def ev_Yield(self, e, fid):
        v = self.ev(e.value, fid) if e.value is not None else NONE
        if not self.yield_stack:
            self.err("yield outside of an iterated generator", e)
        h = self.yield_stack[-1]
        h(v)
        return NONE

    def ev_YieldFrom(self, e, fid):
        from . import loops
        h = self.yield_stack[-1]
        it = self.ev(e.value, fid)
        loops.iterate(self, it, lambda v: h(v), e, fid)
        return NONE

    # ------------------------------------------------------------ iteration sources
    def iter_seq(self, v, node=None):
        v = self.force(v, node)
        if isinstance(v, (ListV, LocalListV, TupleV, SeqV)):
            return self.list_seq(v)
        if isinstance(v, DictV):
            return self.dict_items(v, "keys")
        if isinstance(v, ViewV):
            if isinstance(v.d, CDictV):
                it = self.st.cdicts[v.d.did]
                return ConcSeq([k if v.kind == "keys" else x if v.kind == "values" else TupleV([k, x]) for k, x in it])
            return self.dict_items(v.d, v.kind)
        if isinstance(v, CDictV):
            return ConcSeq([k for k, _ in self.st.cdicts[v.did]])
        if isinstance(v, GenV):
            from . import loops
            return loops.gen_seq(self, v, node)
        if isinstance(v, ClassV) and v.cls.is_enum:
            return ConcSeq([EnumV(v.cls, z3.IntVal(i)) for i in range(len(v.cls.enum_members))])
        if isinstance(v, NoneV):
            raise PyExc("TypeError", ("not iterable",), node)
        if isinstance(v, RefV):
            self.err("iteration over an object", node)
        self.err(f"iteration over {v}", node)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fid):
        for s in stmts:
            self.stmt(s, fid)

    def stmt(self, s, fid):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.err(f"statement {type(s).__name__}", s)
        m(s, fid)

    def st_Expr(self, s, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fid)

    def st_Pass(self, s, fid):
        pass

    def st_Global(self, s, fid):
        self.err("global statement", s)

    def st_Nonlocal(self, s, fid):
        self.st.frames[fid].setdefault("$nonlocal", set())
        self.st.frames[fid]["$nonlocal"] = set(self.st.frames[fid]["$nonlocal"]) | set(s.names)

    def st_Import(self, s, fid):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            self.st.frames[fid][nm] = ModuleV(self.prog.modules[a.name]) if a.name in self.prog.modules else ExtV(a.name, None)

    def st_ImportFrom(self, s, fid):
        for a in s.names:
            m = self.prog.modules.get(s.module or "")
            if m is not None:
                r = self.prog.resolve_global(m, a.name)
                if r is None and f"{s.module}.{a.name}" in self.prog.modules:
                    v = ModuleV(self.prog.modules[f"{s.module}.{a.name}"])
                else:
                    v = self.from_global(r)
            else:
                v = ExtV(f"{s.module}.{a.name}", None)
            self.st.frames[fid][a.asname or a.name] = v

    def st_FunctionDef(self, s, fid):
        fn = Func(s.name, f"<local>.{s.name}", s, self.st.frames[fid]["$mod"], None, "function", "")
        fn.closure = fid
        self.st.frames[fid][s.name] = FuncV(fn, fid)

    def st_Assign(self, s, fid):
        v = self.ev(s.value, fid)
        for t in s.targets:
            self.assign(t, v, fid)

    def st_AnnAssign(self, s, fid):
        if s.value is None:
            return
        v = self.ev(s.value, fid)
        self.assign(s.target, v, fid)

    def st_AugAssign(self, s, fid):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fid, s)
            rhs = self.ev(s.value, fid)
            cur = self.force(cur, s)
            if isinstance(cur, (ListV, LocalListV)) and isinstance(s.op, ast.Add):
                self.list_extend(cur, rhs, s)
                return
            self.assign(t, self.binop(type(s.op).__name__, cur, rhs, s), fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            cur = self.getattr(o, t.attr, s)
            rhs = self.ev(s.value, fid)
            if isinstance(self.force(cur), (ListV, LocalListV)) and isinstance(s.op, ast.Add):
                self.list_extend(self.force(cur), rhs, s)
                return
            self.setattr(o, t.attr, self.binop(type(s.op).__name__, cur, rhs, s), s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            i = self.ev(t.slice, fid)
            cur = self.getitem(self.force(o), i, s)
            rhs = self.ev(s.value, fid)
            self.setitem(o, i, self.binop(type(s.op).__name__, cur, rhs, s), s)
        else:
            self.err("augmented assignment", s)

    def list_extend(self, lv, rhs, node):
        s = self.iter_seq(rhs, node)
        n = s.conc()
        if n is not None:
            for i in range(n):
                self.list_append(lv, s.get(z3.IntVal(i)), node)
            return
        if isinstance(lv, LocalListV) and self.st.llists[lv.lid][0] == "seq":
            x = self.st.llists[lv.lid][1]
            self.st.llists[lv.lid] = ("seq", s if x.conc() == 0 else CatSeq(x, s))
            return
        h = lv if isinstance(lv, ListV) else self.st.llists[lv.lid][1]
        a = self.list_seq(h)
        tmp = self.heap_list(CatSeq(a, s), h.T)
        q = self.list_seq(tmp)
        self.set_list(h, q.arrs, q.base, q.n)

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            fr = self.st.frames[fid]
            if t.id in fr.get("$nonlocal", ()):
                f = fr["$parent"]
                while t.id not in self.st.frames[f]:
                    f = self.st.frames[f]["$parent"]
                self.st.frames[f][t.id] = v
            else:
                fr[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v, t)
            s = self.iter_seq(v, t)
            n = s.conc()
            if n is None:
                self.err("unpacking of unknown length", t)
            if n != len(t.elts):
                raise PyExc("ValueError", (), t)
            for i, x in enumerate(t.elts):
                self.assign(x, s.get(z3.IntVal(i)), fid)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            if isinstance(t.slice, ast.Slice):
                self.slice_assign(o, t.slice, v, fid, t)
                return
            i = self.ev(t.slice, fid)
            self.setitem(o, i, v, t)
        else:
            self.err("assignment target", t)

    def slice_assign(self, o, sl, v, fid, node):
        o = self.force(o, node)
        if sl.step is not None or not isinstance(o, (ListV, LocalListV)):
            self.err("slice assignment", node)
        lo = self.ev(sl.lower, fid) if sl.lower is not None else NONE
        hi = self.ev(sl.upper, fid) if sl.upper is not None else NONE
        s = self.iter_seq(v, node)
        self.list_replace(o, lo, hi, s, node)

    def list_replace(self, o, lo, hi, s, node):
        """o[lo:hi] = s"""
        cur = self.list_seq(o)
        n = cur.n

        def clip(x, dflt):
            x = self.force(x, node)
            if isinstance(x, NoneV):
                return dflt
            t = to_int(x)
            t = z3.If(t < 0, t + n, t)
            return simp(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
        a, b = clip(lo, z3.IntVal(0)), clip(hi, n)
        b = simp(z3.If(b < a, a, b))
        if isinstance(o, LocalListV):
            kind, x = self.st.llists[o.lid]
            if kind == "seq":
                parts = [q for q in (SliceSeq(cur, z3.IntVal(0), a), s, SliceSeq(cur, b, simp(n - b))) if q.conc() != 0]
                r = ConcSeq([])
                for q in parts:
                    r = q if r.conc() == 0 else CatSeq(r, q)
                self.st.llists[o.lid] = ("seq", r)
                return
            o = x
        if s.conc() == 0 and z3.is_int_value(a) and a.as_long() == 0:
            self.set_list(o, None, simp(cur.base + b), simp(n - b))
            return
        if s.conc() == 0 and b.eq(simp(n)):
            self.set_list(o, None, None, a)
            return
        left, right = SliceSeq(cur, z3.IntVal(0), a), SliceSeq(cur, b, simp(n - b))
        r = left
        for q in (s, right):
            if q.conc() != 0:
                r = q if r.conc() == 0 else CatSeq(r, q)
        tmp = self.heap_list(r, o.T)
        q = self.list_seq(tmp)
        self.set_list(o, q.arrs, q.base, q.n)

    def setitem(self, o, i, v, node):
        o = self.force(o, node)
        if isinstance(o, DictV):
            i = self.force(i, node)
            p = o.K.pack(i)
            if p is None:
                self.err("dict key type", node)
            self.dict_set(o, p[0], v, node)
            return
        if isinstance(o, CDictV):
            items = list(self.st.cdicts[o.did])
            for n, (k, x) in enumerate(items):
                if self.branch(self.eq(k, i)):
                    items[n] = (k, v)
                    break
            else:
                items.append((i, v))
            self.st.cdicts[o.did] = items
            return
        if isinstance(o, LocalListV):
            kind, x = self.st.llists[o.lid]
            i = self.force(i)
            if kind == "seq" and isinstance(x, ConcSeq):
                t = simp(to_int(i))
                if z3.is_int_value(t) and -len(x.items) <= t.as_long() < len(x.items):
                    it = list(x.items)
                    it[t.as_long()] = v
                    self.st.llists[o.lid] = ("seq", ConcSeq(it))
                    return
            if kind == "heap":
                o = x
            else:
                self.err("item assignment", node)
        if isinstance(o, ListV):
            s = self.list_seq(o)
            t = to_int(self.force(i, node))
            if self.branch(z3.Or(t >= s.n, t < -s.n)):
                raise PyExc("IndexError", (), node)
            idx = self.from_end(t, s.n)
            p = o.T.pack(self.adapt(v, o.T, node))
            self.set_list(o, [z3.Store(a, simp(s.base + idx), x) for a, x in zip(s.arrs, p)])
            return
        if isinstance(o, NoneV):
            raise PyExc("TypeError", (), node)
        self.err(f"item assignment on {o}", node)

    def st_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, fid), s)
                if isinstance(o, (ListV, LocalListV)):
                    if isinstance(t.slice, ast.Slice):
                        lo = self.ev(t.slice.lower, fid) if t.slice.lower is not None else NONE
                        hi = self.ev(t.slice.upper, fid) if t.slice.upper is not None else NONE
                        self.list_replace(o, lo, hi, ConcSeq([]), s)
                    else:
                        from . import lib
                        lib.list_pop(self, o, self.ev(t.slice, fid), s)
                elif isinstance(o, CDictV):
                    k = self.ev(t.slice, fid)
                    self.st.cdicts[o.did] = [(a, b) for a, b in self.st.cdicts[o.did] if not self.branch(self.eq(a, k))]
                else:
                    self.err("del of item", s)
            elif isinstance(t, ast.Attribute):
                self.err("del of attribute", s)

    def st_If(self, s, fid):
        if isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
            return
        c = self.truth(self.ev(s.test, fid), s.test)
        if self.branch(c):
            self.block(s.body, fid)
        else:
            self.block(s.orelse, fid)

    def st_Return(self, s, fid):
        raise ReturnSig(self.ev(s.value, fid) if s.value is not None else NONE)

    def st_Break(self, s, fid):
        raise BreakSig()

    def st_Continue(self, s, fid):
        raise ContinueSig()

    def st_Assert(self, s, fid):
        if not self.branch(self.truth(self.ev(s.test, fid), s)):
            raise PyExc("AssertionError", (), s)

    def st_Raise(self, s, fid):
        if s.exc is None:
            cur = self.st.frames[fid].get("$exc")
            if cur is None:
                self.err("bare raise", s)
            raise cur
        v = self.force(self.ev(s.exc, fid), s)
        if isinstance(v, ClassV):
            raise PyExc(v.cls, (), s)
        if isinstance(v, ExcV):
            raise PyExc(v.cls, v.args, s)
        if isinstance(v, ExtV) and v.name.startswith("builtins."):
            raise PyExc(v.name[9:], (), s)
        if isinstance(v, ExtV) and v.name == "exc":
            raise PyExc(v.data[0], v.data[1], s)
        self.err("raise", s)

    def st_Try(self, s, fid):
        def fin():
            if s.finalbody:
                self.block(s.finalbody, fid)
        try:
            try:
                self.block(s.body, fid)
            except PyExc as e:
                for h in s.handlers:
                    if self.handler_matches(h, e, fid):
                        if h.name:
                            self.st.frames[fid][h.name] = ExcV(e.cls, list(e.args_), e)
                        old = self.st.frames[fid].get("$exc")
                        self.st.frames[fid]["$exc"] = e
                        self.block(h.body, fid)
                        self.st.frames[fid]["$exc"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fid)
        except Infeasible:
            raise
        except (PyExc, Sig):
            fin()
            raise
        fin()

    def handler_matches(self, h, e, fid):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            v = self.ev(t, fid)
            if isinstance(v, ClassV) and exc_matches(e.cls, v.cls):
                return True
            if isinstance(v, ExtV) and exc_matches(e.cls, v.name.split(".")[-1]):
                return True
        return False

    def st_With(self, s, fid):
        from . import lib
        for it in s.items:
            v = self.ev(it.context_expr, fid)
            r = lib.enter(self, v, it)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fid)
        self.block(s.body, fid)

    def st_For(self, s, fid):
        from . import loops
        loops.for_stmt(self, s, fid)

    def st_While(self, s, fid):
        from . import loops
        loops.while_stmt(self, s, fid)

    def st_Match(self, s, fid):
        self.err("match statement", s)


class CannotMerge(Exception):
    pass


import itertools as _it
_specctr = _it.count()


# ---------------------------------------------------------------- helpers
def to_real(v):
    if isinstance(v, RealV):
        return v.t
    if isinstance(v, IntV):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(v.t)
    if isinstance(v, BoolV):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"number expected, got {v}")


def to_int(v):
    if isinstance(v, IntV):
        return v.t
    if isinstance(v, BoolV):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"int expected, got {v}")


def common_class(cs):
    if not cs:
        return None
    for c in cs[0].mro():
        if all(x.is_sub(c) for x in cs):
            return c
    return None


def same_state(a, b):
    if a.heap is not b.heap:
        for k, t in b.heap.items():
            o = a.heap.get(k)
            if o is None:
                if not (z3.is_const(t) and t.decl().name().startswith("H%s|" % a.epoch)):
                    return False
            elif not o.eq(t):
                return False
    if not a.alloc.eq(b.alloc) or a.trace is not b.trace or a.epoch != b.epoch:
        return False
    if a.used != b.used or a.ext != b.ext:
        return False
    for k, v in a.llists.items():
        if b.llists.get(k) is not v and b.llists.get(k) != v:
            return False
    for k, v in a.cdicts.items():
        if b.cdicts.get(k) is not v:
            return False
    if len(a.side) != len(b.side) or any(b.side.get(k) is not v for k, v in a.side.items()):
        return False
    for f, fr in a.frames.items():
        g = b.frames.get(f)
        if g is None:
            return False
        for k, v in fr.items():
            if g.get(k) is not v:
                return False
        if len(g) != len(fr):
            return False
    return True


_hq = {}


has_lambda = has_quant


def strip_store(a):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return a


def array_bases(a):
    out, todo = [], [a]
    while todo:
        x = strip_store(todo.pop())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        else:
            out.append(x)
            # values stored in nested arrays
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
                for b in array_bases(x.arg(0)):
                    if z3.is_const(b) and not b.eq(x.arg(0)):
                        out.append(z3.Select(b, x.arg(1)))
    return out


def len_bases(t):
    out = []
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
        for b in array_bases(t.arg(0)):
            if z3.is_const(b):
                out.append(z3.Select(b, t.arg(1)))
    return out


def mk_exists(k, body):
    return exists1(k, body)


def mentions_self(c, name):
    cache = c.__dict__.setdefault("_selfattrs", None)
    if cache is None:
        cache = set()
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                cache.add(n.attr)
        for m in list(c.methods):
            cache.discard(m)
        for m in list(c.props):
            cache.discard(m)
        c._selfattrs = cache
    return name in cache


def infer_field(eng, owner, cls, name):
    """type of an undeclared field from the annotations of the source"""
    from .infer import infer
    return infer(eng, owner, cls, name)
