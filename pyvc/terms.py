"""What occurs in a term, computed once per (shared) subterm."""
import z3

z3.set_param("warning", False)

_info = {}
I = z3.IntSort()
SEL, UN = z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED
EMPTY = {}


class Info:
    """apps: name -> {id: application of an uninterpreted function}; consts: name -> constant;
    ix: {id: integer index of an array read outside binders}; ints: {id: integer constant outside binders};
    var: has a bound variable or binder"""
    __slots__ = ("f", "apps", "consts", "ix", "ints", "var", "quant")


def merge(ds):
    ds = [d for d in ds if d]
    if not ds:
        return EMPTY
    big = max(ds, key=len)
    rest = [d for d in ds if d is not big]
    if not rest:
        return big
    out = None
    for d in rest:
        for k, v in d.items():
            if out is None:
                if k in big:
                    continue
                out = dict(big)
            out[k] = v
    return big if out is None else out


def merge_apps(ds):
    ds = [d for d in ds if d]
    if not ds:
        return EMPTY
    big = max(ds, key=len)
    rest = [d for d in ds if d is not big]
    if not rest:
        return big
    out = dict(big)
    for d in rest:
        for k, v in d.items():
            w = out.get(k)
            out[k] = v if w is None or w is v else merge((w, v))
    return out


def info(t):
    i = t.get_id()
    r = _info.get(i)
    if r is not None:
        return r
    r = Info()
    r.f = t          # keeps the term, hence its id, alive
    if z3.is_quantifier(t):
        b = info(t.body())
        r.apps, r.consts, r.ix, r.ints, r.var, r.quant = b.apps, b.consts, EMPTY, EMPTY, True, True
    elif not z3.is_app(t):
        r.apps, r.consts, r.ix, r.ints, r.var, r.quant = EMPTY, EMPTY, EMPTY, EMPTY, True, False
    else:
        d = t.decl()
        k = d.kind()
        cs = t.children()
        if not cs:
            r.apps, r.ix, r.consts, r.ints, r.var, r.quant = EMPTY, EMPTY, EMPTY, EMPTY, False, False
            if k == UN:
                r.consts = {d.name(): t}
                if t.sort() == I:
                    r.ints = {i: t}
        else:
            ii = [info(c) for c in cs]
            r.apps = merge_apps([x.apps for x in ii])
            r.consts = merge([x.consts for x in ii])
            r.ix = merge([x.ix for x in ii])
            r.ints = merge([x.ints for x in ii])
            r.var = any(x.var for x in ii)
            r.quant = any(x.quant for x in ii)
            if k == UN:
                nm = d.name()
                r.apps = dict(r.apps)
                r.apps[nm] = merge((r.apps.get(nm), {i: t})) if nm in r.apps else {i: t}
            elif k == SEL and cs[1].sort() == I:
                a = cs[1]
                if a.get_id() not in r.ix:
                    r.ix = dict(r.ix)
                    r.ix[a.get_id()] = a
    _info[i] = r
    return r


def has_var(t):
    return info(t).var


_hq = {}


def has_quant(t):
    i = t.get_id()
    r = _hq.get(i)
    if r is None:
        r = _hq[i] = info(t).quant
    return r


def free_consts(t, cache=None):
    return dict(info(t).consts)


_bv = z3.Int("bv!")


def forall1(k, body):
    """quantifiers with one canonical variable name, so that equal formulas are identical terms"""
    return z3.ForAll([_bv], z3.substitute(body, (k, _bv)))


def exists1(k, body):
    return z3.Exists([_bv], z3.substitute(body, (k, _bv)))


_abs = {}


_root, _sel = {}, {}


def root_name(a):
    """which field or list content an array term stands for, whatever its version"""
    i = a.get_id()
    r = _root.get(i)
    if r is None:
        x = a
        while z3.is_app(x) and x.num_args():
            k = x.decl().kind()
            if k in (SEL, z3.Z3_OP_STORE):
                x = x.arg(0)
            elif k == z3.Z3_OP_ITE:
                x = x.arg(1)
            else:
                break
        n = x.decl().name() if z3.is_app(x) else "?"
        n = n.split("!")[0]
        n = n.split("|", 1)[1] if "|" in n else n
        r = _root[i] = (n, a)
    return r[0]


def selects(t):
    """{id: (root, index)} of the array reads at integer index of t, outside nested binders"""
    i = t.get_id()
    r = _sel.get(i)
    if r is None:
        out = {}
        if z3.is_app(t):
            for c in t.children():
                s = selects(c)
                if s:
                    out = {**out, **s} if out else s
            if t.decl().kind() == SEL and t.arg(1).sort() == I:
                out = dict(out)
                out[t.get_id()] = (root_name(t.arg(0)), t.arg(1))
        r = _sel[i] = (out, t)
    return r[0]


def patterns(f):
    """[(root, sign, offset)]: array reads of a one-variable quantifier at offset + sign * variable"""
    i = ("p", f.get_id())
    r = _sel.get(i)
    if r is None:
        out, seen = [], set()
        for root, e in selects(f.body()).values():
            if not has_var(e):
                continue
            e0 = z3.simplify(z3.substitute_vars(e, z3.IntVal(0)))
            e1 = z3.simplify(z3.substitute_vars(e, z3.IntVal(1)) - e0)
            e2 = z3.simplify(z3.substitute_vars(e, z3.IntVal(7)) - e0)
            if has_var(e0) or not (z3.is_int_value(e1) and z3.is_int_value(e2)):
                continue
            c = e1.as_long()
            if abs(c) != 1 or e2.as_long() != 7 * c:
                continue
            k = (root, c, e0.get_id())
            if k not in seen:
                seen.add(k)
                out.append((root, c, e0))
        r = _sel[i] = (out, f)
    return r[0]


def abstract(f):
    """f with every maximal quantified subformula replaced by a Boolean constant"""
    if not has_quant(f):
        return f
    i = f.get_id()
    r = _abs.get(i)
    if r is None:
        if z3.is_quantifier(f) and not f.is_lambda():
            r = z3.Const("qf!%d" % i, z3.BoolSort())
        elif z3.is_app(f):
            cs, kd = [abstract(c) for c in f.children()], f.decl().kind()
            r = z3.And(*cs) if kd == z3.Z3_OP_AND else z3.Or(*cs) if kd == z3.Z3_OP_OR else f.decl()(*cs)
        else:
            r = f
        _abs[i] = (r, f)
        return r
    return r[0]


_rd = {}


def reads(t):
    """{id: ground array read of integer sort} of t"""
    i = t.get_id()
    r = _rd.get(i)
    if r is None:
        out = {}
        if z3.is_app(t):
            for c in t.children():
                s = reads(c)
                if s:
                    out = {**out, **s} if out else s
            if t.decl().kind() == SEL and t.sort() == I and not has_var(t):
                out = dict(out)
                out[i] = t
        elif z3.is_quantifier(t):
            out = reads(t.body())
        r = _rd[i] = (out, t)
    return r[0]


def versions(a):
    """constants and function values at the bottom of an array term: [array of the same sort without stores]"""
    out, todo = [], [a]
    while todo:
        x = todo.pop()
        if not z3.is_app(x):
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_STORE:
            todo.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        elif k == SEL:
            # a row of a nested array
            todo_in = versions(x.arg(0))
            for b in todo_in:
                out.append((b[0], z3.Select(b[1], x.arg(1))))
            # rows stored in it
            y = x.arg(0)
            while z3.is_app(y) and y.decl().kind() == z3.Z3_OP_STORE:
                todo.append(y.arg(2))
                y = y.arg(0)
        elif k == UN:
            out.append((x.decl().name(), x))
    return out


_dm = {}


def has_divmod(t):
    """integer division or remainder occurs in t"""
    i = t.get_id()
    r = _dm.get(i)
    if r is None:
        if z3.is_quantifier(t):
            v = has_divmod(t.body())
        elif z3.is_app(t):
            v = t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or any(has_divmod(c) for c in t.children())
        else:
            v = False
        r = _dm[i] = (v, t)
    return r[0]
