"""Contracts on the functions of /repo, their verification and their use at call sites."""
import ast
import os
import re
import time

import z3

from .engine import *  # noqa
from .engine import OmitV, Event, Segment, Sig, PyExc, Infeasible, Unsupported, has_quant, simp, exc_matches
from .values import *  # noqa
from . import loops, solve, lib


def parse(text):
    return ast.parse(text.strip(), mode="eval").body


class Clause:
    def __init__(self, props, label, text, extra=None):
        self.props, self.label, self.text, self.extra = props.split(), label, text, extra
        self.tree = parse(text)


class Contract:
    """pre/postconditions, frame and exceptions of one function of the code under verification"""

    def __init__(self, qual, props="", params=None, variants=None, requires=(), ensures=(), raises=(),
                 exc_ensures=(), modifies=None, uses=(), models=(), pool=(), emits=(), events=(), returns=None,
                 in_spec=False, setup=None, ghost=None, assumed=False, self_type=None, note="", name=None,
                 ensures_use=(), keep=(), hints=(), timeout=8000, reads=None, may_raise=(), conc=None, entry=None, optional=False, unroll=True):
        self.optional, self.unroll = optional, unroll
        self.qual, self.props, self.params = qual, props.split(), dict(params or {})
        self.variants = list(variants or [{}])
        self.requires = [(Clause(props or "-", "requires " + t, t)) for t in requires]
        self.ensures = [Clause(p, l, t) for p, l, t in ensures]
        self.raises = [(p.split(), x, parse(c), c) for p, x, c in raises]
        self.exc_ensures = [Clause(p, l, t) for p, l, t in exc_ensures]
        self.modifies = modifies
        self.uses, self.models = list(uses), list(models)
        self.pool = [(t, parse(t)) for t in pool]
        self.emits = list(emits)
        self.events = [Clause(p, l, t, names) for p, l, t, names in events]
        self.returns = returns
        self.in_spec = in_spec
        self.setup, self.ghost, self.keep = setup, dict(ghost or {}), list(keep)
        self.assumed, self.self_type, self.note = assumed, self_type, note
        self.name = name or qual
        self.hints = [parse(h) for h in hints]
        self.timeout = timeout
        self.may_raise = list(may_raise)
        self.reads = reads
        self.entry = entry

    def all_props(self):
        s = set(self.props)
        for c in self.ensures + self.exc_ensures + self.events:
            s |= set(c.props)
        for p, _, _, _ in self.raises:
            s |= set(p)
        return s

    # -------------------------------------------------------------- at call sites
    def apply(self, eng, fn, recv, args, kwargs, node):
        fid = eng.bind(fn, recv, args, kwargs, node)
        fr = eng.st.frames[fid]
        env = {k: v for k, v in fr.items() if not k.startswith("$")}
        a = fn.node.args
        if a.kwarg is not None:
            for k, v in eng.st.cdicts[env[a.kwarg.arg].did]:
                env[k.lit] = v
        if "value" in self.params and fn.qual.endswith(".setter"):
            env["value"] = env[a.args[1].arg]
        for n in self.params:
            env.setdefault(n, NONE)
        if not eng.spec:
            for c in self.requires:
                t = eng.spec_term(c.tree, env)
                eng.st.obl = eng.st.obl + ((f"precondition of {self.qual} at the call in "
                                            f"{eng.call_stack[-1].qual if eng.call_stack else '?'}: {c.text}",
                                            tuple(eng.st.hyps), t),)
        pre = eng.st.copy()
        for p, x, cond, text in self.raises:
            t = eng.spec_term(cond, env)
            if eng.branch(t):
                raise PyExc(exc_class(eng, x), (), node)
        for nm, rexpr, aex in self.emits:
            if not eng.spec:
                r = eng.spec_value(parse(rexpr), env) if rexpr else NONE
                eng.emit(nm, r, {k: eng.spec_value(parse(x), env) for k, x in aex.items()})
        evs = [] if self.emits else self.events      # emits: what callers see instead of the verified events
        late = [c for c in evs if re.search(r"\bresult\b", c.text)]
        self.replay_events(eng, [c for c in evs if c not in late], env)
        if self.modifies is None:
            eng.err(f"call of {self.qual}, whose contract has no frame", node)
        havoc_locs(eng, self.modifies, env)
        res = NONE
        if not self.returns and any(re.search(r"\bresult\b", c.text) for c in self.ensures):
            eng.err(f"contract of {self.qual} does not declare what it returns", node)
        if self.returns and self.returns.startswith("new:"):
            res = eng.new_obj(eng.prog.cls(self.returns[4:]))
        elif self.returns and self.returns.startswith("="):
            res = eng.spec_value(parse(self.returns[1:]), env)
        elif self.returns and self.returns != "None":
            T = parse_type(self.returns, eng.prog)
            res = loops.fresh_value(eng, T, "res_" + fn.name)
        env["result"] = res
        if late:
            # events naming the result: still emitted with what the pre-state holds
            st = eng.st
            eng.st = pre_view(st, pre)
            eng.st.trace, eng.st.alloc = st.trace, st.alloc
            self.replay_events(eng, late, env)
            st.trace, st.ctr, st.hyps = eng.st.trace, max(st.ctr, eng.st.ctr), eng.st.hyps
            eng.st = st
        eng.old_states.append(pre)
        try:
            for c in self.ensures:
                eng.assume(eng.spec_term(c.tree, env))
        finally:
            eng.old_states.pop()
        return res

    def replay_events(self, eng, clauses, env):
        if eng.spec:
            return
        for c in clauses:
            f2 = eng.new_frame(None, eng.prog.modules["specs"])
            eng.st.frames[f2].update(env)
            eng.spec += 1
            try:
                eng.ev(c.tree, f2)
            finally:
                eng.spec -= 1

    # -------------------------------------------------------------- verification
    def verify(self, reg, eng, only=None):
        """-> list of obligation dicts"""
        out = []
        fn = eng.prog.funcs.get(self.qual) or find_func(eng.prog, self.qual)
        if fn is None and self.optional:
            return []       # an internal helper that is gone: its callers are verified without it
        if fn is None:
            return [self._bad(f"function {self.qual} not found in the source", sorted(self.all_props()))]
        for vi, var in enumerate(self.variants):
            tag = self.name + (f" [{', '.join(f'{k}:{v}' for k, v in var.items())}]" if len(self.variants) > 1 else "")
            try:
                out += self._verify_variant(reg, eng, fn, var, tag, only)
            except Unsupported as e:
                if eng.debug:
                    import traceback
                    traceback.print_exc()
                out.append(self._bad(f"{tag}: outside the verified subset: {e}", sorted(self.all_props())))
            except z3.Z3Exception as e:
                if eng.debug:
                    import traceback
                    traceback.print_exc()
                out.append(self._bad(f"{tag}: verifier error: {e}", sorted(self.all_props())))
            except RecursionError:
                out.append(self._bad(f"{tag}: verifier error: recursion", sorted(self.all_props())))
        return out

    def _bad(self, msg, props):
        return {"name": msg, "fn": self.qual, "props": props, "status": "unsupported", "backend": "-", "secs": 0.0,
                "model": None}

    def _verify_variant(self, reg, eng, fn, var, tag, only):
        eng.uses = {}
        for q in self.uses:
            c = reg.named.get(q) or reg.contracts[q]
            f = find_func(eng.prog, c.qual)
            if f is not None:
                eng.uses[f.qual] = c
        eng.modelfns = {m.fqual: m for m in (reg.model_for(eng, q) for q in self.models)}
        eng.loop_pool = list(self.pool)
        eng.inv_obligs = []
        eng.explore_cache = {}
        solve.reset_memo()
        eng.call_stack = []
        eng.old_states = []
        eng.st = eng.new_state()
        eng.run = None
        eng.depth = 0
        eng.spec = 0
        eng.yield_stack = []
        eng.root_env = {}
        rec = []
        paths = []

        def thunk():
            env = {}
            self.build_env(eng, fn, var, env)
            for c in self.requires:
                eng.assume(eng.spec_term(c.tree, env))
            eng.st.obl = ()
            eng.st.trace = ()
            pre = eng.st.copy()
            eng.old_states = [pre]
            eng.root_env = dict(env)
            eng.root_allowed = None
            eng.no_unroll = not self.unroll
            if self.modifies:
                eng.root_allowed = lambda: resolve_locs(eng, self.modifies, env, pre)
            exc, res = None, NONE
            try:
                res = self.run(eng, fn, env)
            except PyExc as e:
                exc = e
            obs = list(eng.st.obl)
            eng.st.obl = ()
            return env, pre, res, exc, obs
        results = eng.explore(thunk, eng.st)
        if not results:
            return [self._bad(f"{tag}: no path through the function satisfies the preconditions", sorted(self.all_props()))]
        obligs = []
        nnormal = 0
        for pi, (s, o) in enumerate(results):
            if o[0] != "val":
                raise Unsupported(f"control flow leaves {self.qual}: {o}")
            env, pre, res, exc, obs = o[1]
            where = f"path {pi + 1} of {len(results)}"
            for lbl, hy, goal in obs:
                obligs.append((tag, lbl, sorted(self.all_props()), list(hy), goal, where, s))
            eng.st = s.copy()
            eng.old_states = [pre]
            env = dict(env)
            env["result"] = res
            for h in self.hints:
                try:
                    eng.assume_hint(h, env)
                except (PyExc, Unsupported):
                    pass
            if exc is None:
                nnormal += 1
                for c in self.ensures:
                    if only and not (set(c.props) & only):
                        continue
                    eng.st = s.copy()
                    t = eng.spec_term(c.tree, env)
                    obligs.append((tag, c.label, c.props, list(eng.st.hyps), t, where, s))
                for p, x, cond, text in self.raises:
                    if only and not (set(p) & only):
                        continue
                    eng.st = pre_view(s, pre)
                    t = eng.spec_term(cond, env)
                    obligs.append((tag, f"{x} is raised when {text}", p, list(eng.st.hyps), z3.Not(t), where, s))
            else:
                matched = False
                for p, x, cond, text in self.raises:
                    if exc_matches(exc.cls, exc_class(eng, x)):
                        matched = True
                        eng.st = pre_view(s, pre)
                        t = eng.spec_term(cond, env)
                        obligs.append((tag, f"{x} is raised only when {text}", p, list(eng.st.hyps), t, where, s))
                        break
                if any(exc_matches(exc.cls, exc_class(eng, x)) for x in self.may_raise):
                    matched = True
                if not matched:
                    obligs.append((tag, f"no {exc.name} escapes (line {getattr(exc.where, 'lineno', '?')})",
                                   sorted(self.all_props()), list(s.hyps), z3.BoolVal(False), where, s))
                for c in self.exc_ensures:
                    eng.st = s.copy()
                    t = eng.spec_term(c.tree, env)
                    obligs.append((tag, c.label, c.props, list(eng.st.hyps), t, where, s))
            for c in self.events:
                if exc is not None:
                    ev = filt(s.trace, set(c.extra) if c.extra else None)
                    obligs.append((tag, f"nothing is notified when {exc.name} is raised", c.props, list(s.hyps),
                                   z3.BoolVal(not ev), where, s))
                    continue
                obligs += self.match_events(eng, tag, c, env, s, pre, where)
            if self.modifies is not None:
                eng.st = s.copy()
                obligs += self.frame_obligs(eng, tag, env, s, pre, where)
        if nnormal == 0 and not self.raises:
            if eng.debug:
                print([repr(o[1])[-300:] for _, o in results][:4])
            return [self._bad(f"{tag}: no normal return", sorted(self.all_props()))]
        # vacuity: the preconditions and some complete path must be satisfiable
        vac = False
        for s, o in results:
            qf = [f for f, _ in s.hyps if not has_quant(f)]
            r, _ = solve.check(qf + solve.theory(eng, qf, 0), 3000)
            if r != z3.unsat:
                vac = True
                break
        out = []
        if not vac:
            out.append(self._bad(f"{tag}: preconditions are contradictory", sorted(self.all_props())))
        cache = {}
        if os.environ.get("PYVC_SMOKE") == "all":       # a sweep: no clause may be vacuous on all paths
            by = {}
            for tag_, lbl, props, hyps, goal, where, s in obligs:
                if by.get(lbl) is False or lbl.startswith("frame:") or (z3.is_false(goal) and " escapes " in lbl):
                    continue
                eng.st = s
                by[lbl] = solve.prove_full(eng, hyps, z3.BoolVal(False), 3000, True).status == "valid"
            return [{"name": f"{tag}: {x} is not vacuous", "fn": self.qual, "props": sorted(self.all_props()), "status": "VACUOUS" if v else "valid",
                     "backend": "z3", "secs": 0.0, "model": None, "goal": ""} for x, v in by.items()]
        contradictory = bool(results)
        for s, o in results:
            # consistency: what is known where the function returns must not be contradictory
            if o[1][3] is not None and nnormal:
                continue
            eng.st = s
            if solve.prove_full(eng, list(s.hyps), z3.BoolVal(False), 1500, True).status != "valid":
                contradictory = False
                break
        if contradictory:
            out.append(self._bad(f"{tag}: what is known at every return is contradictory", sorted(self.all_props())))
        for tag_, lbl, props, hyps, goal, where, s in obligs:
            if only and not (set(props) & only):
                continue
            eng.st = s
            # after enough time spent on obligations that fail, the others get quick attempts only
            spent = getattr(self, "failed_secs", 0.0)
            r = solve.prove_full(eng, hyps, goal, self.timeout, spent > 60) if spent < 150 else \
                solve.Res("unknown", "not attempted: time spent on failed obligations", secs=0.0)
            if r.status != "valid":
                self.failed_secs = spent + r.secs
            out.append({"name": f"{tag_}: {lbl} ({where})", "fn": self.qual, "props": list(props), "status": r.status,
                        "backend": r.backend, "secs": r.secs,
                        "model": model_text(eng, r.model) if r.model is not None else None,
                        "goal": str(getattr(r, "goal", ""))[:2000] if r.status != "valid" else None})
        for lbl, q in eng.inv_obligs:
            out.append({"name": f"{tag}: {lbl}", "fn": self.qual, "props": sorted(self.all_props()), "status": "valid",
                        "backend": "z3", "secs": 0.0, "model": None})
        return out

    def build_env(self, eng, fn, var, env):
        types = {**self.params, **var}
        if self.setup is not None:
            setup_object(eng, self, types, env)
        for n, t in types.items():
            if n in env or n.startswith("ghost_"):
                continue
            env[n] = make_param(eng, n, t, env)
        for n, t in self.ghost.items():
            env[n] = make_param(eng, n, t, env)

    def run(self, eng, fn, env):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        names = [x for x in env if x not in self.ghost and x not in ("$",)]
        recv = None
        if fn.cls is not None and fn.kind not in ("staticmethod",) and fn.name != "<lambda>":
            recv = env["self"]
        kw = {}
        allowed = set(pos) | {x.arg for x in a.kwonlyargs}
        for n in names:
            if recv is not None and n == pos[0]:
                continue
            if n == "value" and "value" not in allowed and fn.qual.endswith(".setter"):
                kw[pos[1]] = env[n]
                continue
            if n in allowed or a.kwarg is not None:
                if isinstance(env[n], OmitV):
                    continue
                kw[n] = env[n]
        fid = eng.bind(fn, recv, [], kw)
        eng.root_fn = fn
        if fn.is_gen:
            g = GenV(fn, fid, fn.cls)
            return SeqV(loops.gen_seq(eng, g, None))
        return eng.exec_body(fn, fid)

    def match_events(self, eng, tag, c, env, s, pre, where):
        """the emitted events equal those of the reference emitter run on the pre-state"""
        names = set(c.extra) if c.extra else None
        eng.old_states = [pre]
        st2 = s.copy()
        st2.heap, st2.epoch, st2.alloc = dict(pre.heap), pre.epoch, s.alloc
        st2.side, st2.ext, st2.trace = dict(pre.side), dict(s.ext), ()
        st2.llists = {**s.llists, **pre.llists}
        eng.st = st2
        eng.run = None
        out = []

        def th():
            fid = eng.new_frame(None, eng.prog.modules["specs"])
            eng.st.frames[fid].update(env)
            eng.spec += 1
            try:
                return eng.ev(c.tree, fid)
            finally:
                eng.spec -= 1
        for s2, o in eng.explore(th, st2):
            if o[0] == "exc":
                out.append((tag, c.label + f" (reference raised {o[1].name})", c.props, list(s2.hyps), z3.BoolVal(False), where, s))
                continue
            exp = s2.trace
            eng.st = s2
            pairs = match_trace(eng, filt(s.trace, names), filt(exp, names), list(s2.hyps), c.label)
            if not pairs:
                pairs = [(c.label, list(s2.hyps), z3.BoolVal(True))]
            for lbl, hy, goal in pairs:
                out.append((tag, lbl, c.props, hy, goal, where, s))
        return out

    def frame_obligs(self, eng, tag, env, s, pre, where):
        out = []
        allowed = resolve_locs(eng, self.modifies, env, pre)
        own = [env[n].t for n, t in self.params.items() if isinstance(t, str) and t.startswith("new:") and isinstance(env.get(n), RefV)]
        for key, cur in s.heap.items():
            if key[0] == "M":
                continue
            old = pre.heap.get(key)
            if old is None:
                if z3.is_const(cur) and cur.decl().name().startswith("H%s|" % pre.epoch):
                    continue
                nm = "H%s|%s" % (pre.epoch, "|".join(map(str, key)))
                old = z3.Const(nm, cur.sort())
            if old.eq(cur):
                continue
            ok = allowed.get(key[:2] if key[0] in ("L", "D") else key[:3], [])
            if ok == "all":
                continue
            r = eng.fresh("frame_r", I)
            cond = [r >= 1, r < pre.alloc] + [r != t for t in list(ok) + own]
            goal = z3.Implies(z3.And(*cond), z3.Select(cur, r) == z3.Select(old, r))
            out.append((tag, f"frame: only allowed locations of {key[1:3]} change", sorted(self.all_props()),
                        list(s.hyps), goal, where, s))
        for (k, rid), (rt, v) in s.side.items():
            if pre.side.get((k, rid)) is not None and pre.side[(k, rid)][1] is v:
                continue
            ok = allowed.get(k, [])
            if ok == "all":
                continue
            out.append((tag, f"frame: {k} changes only on allowed objects", sorted(self.all_props()), list(s.hyps),
                        z3.Or(rt >= pre.alloc, *[rt == t for t in list(ok) + own]), where, s))
        return out


def filt(trace, names):
    if names is None:
        return [e for e in trace]
    out = []
    for e in trace:
        if isinstance(e, Event):
            if e.name in names:
                out.append(e)
        else:
            paths = [(s, tuple(filt(ev, names))) for s, ev in e.paths]
            if any(ev for _, ev in paths):
                out.append(Segment(e.n, e.k, paths, e.seq))
    return out


def match_trace(eng, A, B, hyps, label):
    """obligations making trace A equal to trace B"""
    if len(A) != len(B) or any(type(x) is not type(y) for x, y in zip(A, B)):
        return [(label + f" (events {show(A)} instead of {show(B)})", hyps, z3.BoolVal(False))]
    out = []
    for a, b in zip(A, B):
        if isinstance(a, Event):
            if a.name != b.name or set(a.args) != set(b.args):
                return [(label + f" (event {a.name}{sorted(a.args)} instead of {b.name}{sorted(b.args)})", hyps, z3.BoolVal(False))]
            out.append((label + f": {a.name} on the right object", hyps, eng.eq(a.recv, b.recv, ident=not isinstance(a.recv, NoneV))))
            for k in sorted(a.args):
                h0 = len(eng.st.hyps)
                try:
                    t = eng.spec_bool(lambda: eng.eq(a.args[k], b.args[k], ident=isinstance(a.args[k], RefV)))
                except Unsupported as e:
                    return [(label + f" (cannot compare {k}: {e})", hyps, z3.BoolVal(False))]
                out.append((label + f": {k} of {a.name}", hyps + eng.st.hyps[h0:], t))
        else:
            out.append((label + ": same number of rounds", hyps, a.n == b.n))
            g = match_guarded(eng, a, b, hyps, label)
            if g is not None:
                out += g
                continue
            for sa, ea in a.paths:
                for sb, eb in b.paths:
                    sub = [(b.k, a.k)]
                    hb = [(z3.substitute(f, *sub), br) for f, br in sb.hyps]
                    ids = {f.get_id() for f, _ in sa.hyps}
                    hy = list(hyps) + list(sa.hyps) + [(f, br) for f, br in hb if f.get_id() not in ids]
                    eb2 = [subst_event(eng, e, sub) for e in eb]
                    sv = eng.st
                    eng.st = sa.copy()
                    try:
                        out += match_trace(eng, list(ea), eb2, hy, label)
                    finally:
                        eng.st = sv
    return out


def merged_order(seqs):
    """one order of the names containing every given sequence as a subsequence, or None"""
    names, after = [], {}
    for q in seqs:
        if len(set(q)) != len(q):
            return None
        for i, x in enumerate(q):
            if x not in names:
                names.append(x)
            after.setdefault(x, set()).update(q[i + 1:])
    out = []
    while names:
        free = [x for x in names if not any(x in after[y] for y in names if y != x)]
        if not free:
            return None
        out.append(free[0])
        names.remove(free[0])
    return out


def guarded(paths, sub):
    """(common hypotheses, facts, [(guard, state, events)]) of the alternatives of one round"""
    hs = [[(z3.substitute(f, *sub), br) if sub else (f, br) for f, br in s.hyps] for s, _ in paths]
    n = 0
    while all(len(h) > n for h in hs) and all(h[n][0].eq(hs[0][n][0]) and h[n][1] == hs[0][n][1] for h in hs):
        n += 1
    if len(paths) == 1:
        n = len(hs[0])
    facts, alts = [], []
    for (s, ev), h in zip(paths, hs):
        br = [f for f, b in h[n:] if b]
        g = z3.And(*br) if len(br) > 1 else (br[0] if br else z3.BoolVal(True))
        facts += [(z3.Implies(g, f) if br else f, False) for f, b in h[n:] if not b]
        alts.append((g, s, ev))
    return hs[0][:n], facts, alts


def match_guarded(eng, a, b, hyps, label):
    """the alternatives of one round, compared event by event instead of path by path"""
    if len(a.paths) * len(b.paths) <= 2 or any(not isinstance(e, Event) for p in (a.paths, b.paths) for _, ev in p for e in ev):
        return None
    order = merged_order([tuple(e.name for e in ev) for p in (a.paths, b.paths) for _, ev in p])
    if order is None:
        return None
    sub = [(b.k, a.k)]
    ca, fa, pa = guarded(a.paths, [])
    cb, fb, pb = guarded(b.paths, sub)
    ids = set()
    hy = []
    for f, br in list(hyps) + ca + cb + fa + fb:
        if f.get_id() not in ids:
            ids.add(f.get_id())
            hy.append((f, br))
    pb = [(g, s, [subst_event(eng, e, sub) for e in ev]) for g, s, ev in pb]
    out = []
    for nm in order:
        xa = [(g, s, e) for g, s, ev in pa for e in ev if e.name == nm]
        xb = [(g, s, e) for g, s, ev in pb for e in ev if e.name == nm]
        ga, gb = (z3.simplify(z3.Or(*[g for g, _, _ in x])) if x else z3.BoolVal(False) for x in (xa, xb))
        out.append((label + f": {nm} in exactly the expected rounds", hy, ga == gb))
        done = set()
        for g1, s1, e1 in xa:
            for g2, s2, e2 in xb:
                key = (repr(e1.recv), repr(sorted(e1.args.items())), repr(e2.recv), repr(sorted(e2.args.items())))
                if key in done:
                    continue
                done.add(key)
                same = [g for g, s, e in xa if (repr(e.recv), repr(sorted(e.args.items()))) == key[:2]]
                sameb = [g for g, s, e in xb if (repr(e.recv), repr(sorted(e.args.items()))) == key[2:]]
                if set(e1.args) != set(e2.args):
                    return [(label + f" (event {e1.name}{sorted(e1.args)} instead of {e2.name}{sorted(e2.args)})", hyps, z3.BoolVal(False))]
                h2 = hy + [(z3.Or(*same), True), (z3.Or(*sameb), True)]
                sv = eng.st
                eng.st = s1.copy()
                try:
                    out += match_trace(eng, [e1], [e2], h2, label)
                finally:
                    eng.st = sv
    return out


def subst_event(eng, e, sub):
    if isinstance(e, Event):
        return Event(e.name, loops.subst_sv(eng, e.recv, sub), {k: loops.subst_sv(eng, v, sub) for k, v in e.args.items()})
    raise Unsupported("nested loops in an event sequence")


def show(t):
    return "[" + ", ".join(e.name if isinstance(e, Event) else "loop" for e in t) + "]"


def pre_view(s, pre):
    """the pre-state heap with the hypotheses of the final state"""
    v = s.copy()
    v.heap, v.epoch, v.side, v.ext, v.trace = dict(pre.heap), pre.epoch, dict(pre.side), dict(pre.ext), pre.trace
    v.llists = {**s.llists, **pre.llists}
    v.cdicts = {**s.cdicts, **pre.cdicts}
    return v


def exc_class(eng, x):
    try:
        return eng.prog.cls(x)
    except KeyError:
        return x


def find_func(prog, qual):
    """'module.Class.name' / '.get' / '.set' for properties"""
    parts = qual.split(".")
    acc = None
    if parts[-1] in ("get", "set"):
        acc = parts[-1]
        parts = parts[:-1]
    for c in prog.classes.values():
        if c.qual == ".".join(parts[:-1]):
            n = parts[-1]
            if acc:
                p = c.props.get(n)
                return p.get(acc) if p else None
            if n in c.methods:
                return c.methods[n]
            if n in c.props:
                return c.props[n].get("get")
            # inherited
            l = c.lookup(n)
            if l and l[0] == "method":
                return l[2]
            if l and l[0] == "prop":
                return l[2].get(acc or "get")
    return prog.funcs.get(qual)


def make_param(eng, name, t, env):
    if callable(t):
        return t(eng, env)
    if t == "omit":
        return OmitV()
    alts = split_alts(t)
    if len(alts) > 1:
        k = eng.fresh("kind_" + name, I)
        eng.assume(z3.And(k >= 0, k < len(alts)))
        return UnionV([(k == i, make_param(eng, name, a, env)) for i, a in enumerate(alts)])
    if t == "None":
        return NONE
    if t.startswith("new:"):
        return eng.new_obj(eng.prog.cls(t[4:]))
    if t.startswith("exact:"):
        c = eng.prog.cls(t[6:])
        r = eng.fresh(name, I)
        eng.assume(z3.And(r >= 1, r < eng.st.alloc))
        eng.assume(eng.clsof(r) == eng.class_ids[c])
        return RefV(r, c, True, False)
    if t.startswith("lit:"):
        return eng.ev(parse(t[4:]), eng.new_frame(None, eng.prog.modules["specs"]))
    if t.startswith("gen:"):
        v = loops.fresh_value(eng, parse_type(t[4:], eng.prog), name)
        env[name + "_all"] = v       # a generator is consumed by its first iteration
        fn = eng.prog.funcs["specs.once"]
        return GenV(fn, eng.bind(fn, None, [v], {}, None), None)
    if t == "Tz":
        return TzV(eng.fresh(name, I), z3.BoolVal(False))
    if t == "Delta":
        return DeltaV(eng.fresh(name, I))
    return loops.fresh_value(eng, parse_type(t, eng.prog), name)


def split_alts(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "[("
        d -= ch in "])"
        if ch == "|" and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def setup_object(eng, c, types, env):
    """self built by the real constructor, then generalised to an arbitrary reachable-shape heap"""
    name, call = c.setup
    fid = eng.new_frame(None, eng.prog.modules["specs"])
    for n, t in types.items():
        if n.startswith("ghost_"):
            v = make_param(eng, n, t, env)
            eng.st.frames[fid][n] = v
            env[n] = v
    try:
        obj = eng.ev(parse(call), fid)
    except PyExc:
        raise Infeasible()
    kept = []
    for k in c.keep:
        kept.append((k, eng.getattr(obj, k)))
    st = eng.st
    st.heap = {}
    st.epoch = st.epoch + 1
    st.ext = dict(st.ext)
    st.ext["epoch_alloc"] = st.alloc
    for k, v in kept:
        cur = eng.getattr(obj, k)
        eng.assume(eng.eq(cur, v, ident=True))
    env[name] = obj


# ------------------------------------------------------------------ locations
def loc_value(eng, tree, env):
    """value of an attribute chain; second result: condition under which some link is None"""
    if isinstance(tree, ast.Attribute):
        v, none = loc_value(eng, tree.value, env)
        if isinstance(v, RefV) and v.nullable:
            c = v.t == 0
            none = c if none is None else z3.Or(none, c)
            v = RefV(v.t, v.cls, v.exact, False)
        return eng.getattr(v, tree.attr, tree), none
    return eng.spec_value(tree, env), None


def loc_keys(eng, loc, env):
    """-> [(heap key prefix, ref term or None for every object, kind)]"""
    loc = loc.strip()
    if loc.startswith("list(") or loc.startswith("dict("):
        v, none = loc_value(eng, parse(loc[5:-1]), env)
        v = eng.force(v)
        if none is not None and isinstance(v, (ListV, DictV)):
            # reached through something that may be None: then no location at all
            v = type(v)(z3.If(none, z3.IntVal(0), v.t), *[getattr(v, x) for x in v.__slots__[1:]])
        if isinstance(v, ListV):
            return [("L", v)]
        if isinstance(v, DictV):
            return [("D", v)]
        if isinstance(v, SeqV) and getattr(v.seq, "src", None) is not None:
            return [("L", v.seq.src)]
        raise Unsupported(f"location {loc}: {v}")
    if loc.startswith("any "):
        # any Class.field / any list of T / any dict of K,V
        rest = loc[4:]
        if rest.startswith("List["):
            return [("L*", parse_type(rest, eng.prog))]
        if rest.startswith("Dict["):
            return [("D*", parse_type(rest, eng.prog))]
        cn, f = rest.rsplit(".", 1)
        return [("F*", eng.prog.cls(cn), f)]
    o, f = loc.rsplit(".", 1)
    v = eng.force(eng.spec_value(parse(o), env))
    if isinstance(v, NoneV):
        return []
    return [("F", v, f)]


def prop_fields(eng, cls, f):
    """fields behind a public name: the field itself, or what its property reads"""
    l = cls.lookup(f)
    if l is None or l[0] != "prop":
        return [f]
    g = l[2].get("set") or l[2].get("get")
    out = []
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store):
            out.append(n.attr)
    return out or [f]


def field_keys(eng, cls, f):
    out = []
    for x in prop_fields(eng, cls, f):
        owner, T = eng.field_info(cls, x)
        if owner is None:
            continue
        out.append((owner, x, T))
    return out


def list_keys(eng, T):
    kl, kb, ka = eng.lkeys(T)
    return [(kl, z3.ArraySort(I, I)), (kb, z3.ArraySort(I, I))] + \
        [(k, z3.ArraySort(I, z3.ArraySort(I, s))) for k, s in zip(ka, T.sorts)]


def havoc_locs(eng, locs, env):
    todo = []
    for loc in locs:
        if loc == "fresh":
            todo.append(("alloc",))
            continue
        todo += loc_keys(eng, loc, env)
    touched = set()
    for x in sorted(todo, key=lambda x: x[0] != "alloc"):
        if x[0] == "alloc":
            a = eng.fresh("alloc", I)
            eng.assume(a >= eng.st.alloc)
            # new objects appear: every array may hold anything beyond the old bound
            eng.st.alloc = a
        elif x[0] in ("F", "F*"):
            cls = x[1].cls if x[0] == "F" else x[1]
            for owner, f, T in field_keys(eng, cls, x[2]):
                if T is None:
                    continue
                skey = ("F", owner, f)
                for i, s in enumerate(T.sorts):
                    k = skey + (i,)
                    a = eng.heap_arr(k, z3.ArraySort(I, s))
                    if x[0] == "F":
                        c = eng.fresh("hv_" + f, s)
                        eng.st.heap[k] = z3.Store(a, x[1].t, c)
                        if isinstance(T, (TRef,)) and i == 0:
                            eng.assume(z3.And(c >= (0 if T.nullable else 1), c < eng.st.alloc))
                        elif isinstance(T, (TList, TDict)):
                            eng.assume(z3.And(c >= 1, c < eng.st.alloc))
                        elif isinstance(T, TOpt):
                            pass
                    else:
                        eng.havoc_key(k)
                if x[0] == "F":
                    for (k, rid) in list(eng.st.side):
                        if k == skey and eng.st.side[(k, rid)][0].eq(simp(x[1].t)):
                            del eng.st.side[(k, rid)]
                touched.add(skey)
        elif x[0] == "L":
            T = x[1].T
            for k, srt in list_keys(eng, T):
                a = eng.heap_arr(k, srt)
                c = eng.fresh("hv_list|" + "|".join(map(str, k)), srt.range())
                eng.st.heap[k] = z3.Store(a, x[1].t, c)
                if k[2] == "len":
                    eng.assume(c >= 0)
                if isinstance(srt.range(), z3.ArraySortRef):
                    eng.array_bound[c.decl().name()] = eng.st.alloc
            touched.add(("L", T.key()))
        elif x[0] == "L*":
            T = x[1].t
            for k, srt in list_keys(eng, T):
                eng.heap_arr(k, srt)
                eng.havoc_key(k)
            touched.add(("L", T.key()))
        elif x[0] in ("D", "D*"):
            dv = x[1] if x[0] == "D" else DictV(z3.IntVal(0), x[1].k, x[1].v)
            for n, (k, srt) in eng.dkeys(dv).items():
                a = eng.heap_arr(k, srt)
                if x[0] == "D":
                    c = eng.fresh("hv_dict", srt.range())
                    eng.st.heap[k] = z3.Store(a, dv.t, c)
                    if isinstance(srt.range(), z3.ArraySortRef):
                        eng.array_bound[c.decl().name()] = eng.st.alloc
                else:
                    eng.havoc_key(k)
            touched.add(("D", dv.K.key() + ":" + dv.V.key()))
    for k in touched:
        eng.touch(k)


def resolve_locs(eng, locs, env, pre):
    """allowed: heap key prefix -> list of ref terms (pre-state) or 'all'"""
    sv = eng.st
    st = sv.copy()
    st.heap, st.epoch, st.side = dict(pre.heap), pre.epoch, dict(pre.side)
    eng.st = st
    out = {}
    try:
        for loc in locs:
            if loc == "fresh":
                continue
            for x in loc_keys(eng, loc, env):
                if x[0] in ("F", "F*"):
                    cls = x[1].cls if x[0] == "F" else x[1]
                    for owner, f, T in field_keys(eng, cls, x[2]):
                        k = ("F", owner, f)
                        if x[0] == "F*":
                            out[k] = "all"
                        elif out.get(k) != "all":
                            out.setdefault(k, []).append(x[1].t)
                elif x[0] == "L":
                    if out.get(("L", x[1].T.key())) != "all":
                        out.setdefault(("L", x[1].T.key()), []).append(x[1].t)
                elif x[0] == "L*":
                    out[("L", x[1].t.key())] = "all"
                elif x[0] == "D":
                    kk = ("D", x[1].K.key() + ":" + x[1].V.key())
                    if out.get(kk) != "all":
                        out.setdefault(kk, []).append(x[1].t)
                elif x[0] == "D*":
                    out[("D", x[1].k.key() + ":" + x[1].v.key())] = "all"
    finally:
        eng.st = sv
    return out


def model_text(eng, m):
    try:
        ds = []
        for d in m.decls():
            if d.arity() == 0 and "|" not in d.name() and not d.name().startswith(("fsk", "str_")):
                ds.append(f"{d.name()} = {m[d]}")
        return sorted(ds)[:60]
    except Exception:
        return []


# ------------------------------------------------------------------ model functions
class Model:
    """a pure property read as an abstract field of the object; its definition is the contract
    of the property, verified separately"""

    def __init__(self, qual, T, reads, axioms=()):
        self.qual, self.Ttext, self.reads, self.axioms = qual, T, list(reads), list(axioms)
        self.name = qual
        self.T = None
        self._keys = None

    def keys(self, eng):
        if self._keys is None:
            ks = set()
            for r in self.reads:
                if r.startswith("List["):
                    ks.add(("L", parse_type(r, eng.prog).t.key()))
                elif r.startswith("Dict["):
                    t = parse_type(r, eng.prog)
                    ks.add(("D", t.k.key() + ":" + t.v.key()))
                else:
                    cn, f = r.rsplit(".", 1)
                    for owner, x, _ in field_keys(eng, eng.prog.cls(cn), f):
                        ks.add(("F", owner, x))
            self._keys = ks
        return self._keys

    def depends(self, key):
        return tuple(key[:3] if key[0] == "F" else key[:2]) in self.keys(self.eng)

    def read(self, eng, r):
        if self.T is None:
            self.T = parse_type(self.Ttext, eng.prog)
        self.eng = eng
        ts = []
        for i, s in enumerate(self.T.sorts):
            a = eng.heap_arr(("M", self.qual, i), z3.ArraySort(I, s))
            ts.append(simp(z3.Select(a, r.t)))
        return eng.unpack(self.T, tuple(ts))


class Lemma:
    """a client program over the real functions (a function of specs.py) with assume/check"""

    def __init__(self, name, props, fn, params, variants=None, uses=(), models=(), pool=(), timeout=8000, functions=()):
        self.name, self.props, self.fn, self.params = name, props.split(), fn, params
        self.variants = list(variants or [{}])
        self.uses, self.models, self.timeout = list(uses), list(models), timeout
        self.pool = [(t, parse(t)) for t in pool]
        self.qual = "lemma " + name
        self.functions = list(functions)

    def all_props(self):
        return set(self.props)

    def verify(self, reg, eng, only=None):
        out = []
        fn = eng.prog.funcs.get("specs." + self.fn)
        for var in self.variants:
            tag = self.name + (f" [{', '.join(f'{k}:{v}' for k, v in var.items())}]" if len(self.variants) > 1 else "")
            try:
                out += self._one(reg, eng, fn, var, tag)
            except Unsupported as e:
                if eng.debug:
                    import traceback
                    traceback.print_exc()
                out.append(self._bad(f"{tag}: outside the verified subset: {e}"))
            except z3.Z3Exception as e:
                if eng.debug:
                    import traceback
                    traceback.print_exc()
                out.append(self._bad(f"{tag}: verifier error: {e}"))
            except RecursionError:
                out.append(self._bad(f"{tag}: verifier error: recursion"))
        return out

    def _bad(self, msg):
        return {"name": msg, "fn": self.qual, "props": self.props, "status": "unsupported", "backend": "-", "secs": 0.0,
                "model": None}

    def _one(self, reg, eng, fn, var, tag):
        eng.uses = {}
        for q in self.uses:
            c = reg.named.get(q) or reg.contracts[q]
            f = find_func(eng.prog, c.qual)
            if f is not None:
                eng.uses[f.qual] = c
        eng.modelfns = {m.fqual: m for m in (reg.model_for(eng, q) for q in self.models)}
        eng.loop_pool = list(self.pool)
        eng.inv_obligs, eng.explore_cache, eng.call_stack, eng.old_states = [], {}, [], []
        eng.st = eng.new_state()
        eng.run, eng.depth, eng.spec, eng.yield_stack = None, 0, 0, []
        eng.lemma = True

        def thunk():
            env = {}
            for n, t in {**self.params, **var}.items():
                env[n] = make_param(eng, n, t, env)
            eng.st.obl = ()
            eng.old_states = [eng.st.copy()]
            exc = None
            try:
                fid = eng.bind(fn, None, [], env)
                eng.exec_body(fn, fid)
            except PyExc as e:
                exc = e
            return exc, eng.st.obl
        try:
            results = eng.explore(thunk, eng.st)
        finally:
            eng.lemma = False
        out = []
        n = 0
        for pi, (s, o) in enumerate(results):
            if o[0] != "val":
                raise Unsupported("control flow leaves the lemma")
            exc, obs = o[1]
            where = f"path {pi + 1} of {len(results)}"
            eng.st = s
            for lbl, hy, goal in obs:
                n += 1
                r = solve.prove_full(eng, list(hy), goal, self.timeout)
                out.append({"name": f"{tag}: {lbl} ({where})", "fn": self.qual, "props": self.props, "status": r.status,
                            "backend": r.backend, "secs": r.secs,
                            "model": model_text(eng, r.model) if r.model is not None else None,
                            "goal": str(getattr(r, "goal", ""))[:2000] if r.status != "valid" else None})
            if exc is not None:
                r = solve.prove_full(eng, list(s.hyps), z3.BoolVal(False), self.timeout)
                out.append({"name": f"{tag}: no {exc.name} escapes ({where})", "fn": self.qual, "props": self.props,
                            "status": r.status, "backend": r.backend, "secs": r.secs,
                            "model": model_text(eng, r.model) if r.model is not None else None})
        if n == 0:
            out.append(self._bad(f"{tag}: no check reached"))
        for lbl, q in eng.inv_obligs:
            out.append({"name": f"{tag}: {lbl}", "fn": self.qual, "props": self.props, "status": "valid",
                        "backend": "z3", "secs": 0.0, "model": None})
        return out


class Registry:
    def __init__(self):
        self.contracts, self.units, self.models, self.schema_text, self.lemmas = {}, [], {}, {}, []
        self.named = {}

    def schema(self, cls, **fields):
        for f, t in fields.items():
            self.schema_text[(cls, f)] = t

    def contract(self, qual, **kw):
        c = Contract(qual, **kw)
        prev = self.contracts.get(qual)
        if prev is None or (not kw.get("name") and prev.name != qual):
            self.contracts[qual] = c
        if kw.get("name"):
            self.named[kw["name"]] = c
        if not c.assumed:
            self.units.append(c)
        return c

    def model(self, qual, T, reads, axioms=()):
        self.models[qual] = Model(qual, T, reads, axioms)

    def model_for(self, eng, q):
        """a model, possibly with the type this contract knows it to have: (qual, type)"""
        if not isinstance(q, tuple):
            m = self.models[q]
        elif q not in self.models:
            base = self.models[q[0]]
            m = self.models[q] = Model(q[0], q[1], base.reads, base.axioms)
        else:
            m = self.models[q]
        m.fqual, m.eng = find_func(eng.prog, m.qual).qual, eng
        return m

    def lemma(self, name, props, fn, params, **kw):
        self.units.append(Lemma(name, props, fn, params, **kw))

    def load(self, paths):
        for p in paths:
            with open(p) as f:
                src = f.read()
            ns = {"schema": self.schema, "contract": self.contract, "model": self.model, "lemma": self.lemma}
            exec(compile(src, p, "exec"), ns)

    def resolve_schema(self, prog):
        out = {}
        for (c, f), t in self.schema_text.items():
            try:
                out[(c, f)] = parse_type(t, prog)
            except KeyError:
                pass
        return out
