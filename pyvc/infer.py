"""Types of fields the schema does not declare, from property getters and annotations."""
import ast

from .values import *  # noqa


def ann_type(prog, a):
    """annotation AST -> T or None"""
    if a is None:
        return None
    if isinstance(a, ast.Constant):
        if isinstance(a.value, str):
            try:
                return ann_type(prog, ast.parse(a.value, mode="eval").body)
            except SyntaxError:
                return None
        return None
    if isinstance(a, ast.Attribute):
        return named(prog, a.attr)
    if isinstance(a, ast.Name):
        return named(prog, a.id)
    if isinstance(a, ast.Subscript):
        h = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if h == "Optional":
            t = ann_type(prog, args[0])
            if t is None:
                return None
            return TRef(t.cls, True) if isinstance(t, TRef) else TOpt(t)
        if h in ("List", "list", "Sequence"):
            t = ann_type(prog, args[0])
            return TList(t) if t is not None else None
        if h in ("Dict", "dict"):
            k, v = ann_type(prog, args[0]), ann_type(prog, args[1])
            return TDict(k, v) if k is not None and v is not None else None
        if h == "Union":
            ts = [ann_type(prog, x) for x in args]
            if all(isinstance(t, (TInt, TReal)) for t in ts):
                return TReal()
            if all(isinstance(t, TDt) for t in ts):
                return TDt()
    return None


def named(prog, n):
    m = {"float": TReal, "int": TInt, "bool": TBool, "str": TStr, "Arrow": TDt, "pydatetime": TDt,
         "datetime": TDt, "date": TDate, "time": TTime, "datetime_time": TTime}
    if n in m:
        return m[n]()
    if n in ("Thread",):
        n = "ThreadStub"
    try:
        c = prog.cls(n)
    except KeyError:
        return None
    if c.is_enum:
        return TEnum(c)
    return TRef(c)


def infer(eng, owner, cls, name):
    prog = eng.prog
    # a property whose getter returns exactly this attribute
    for c in list(cls.mro()) + [cls]:
        for pn, p in c.props.items():
            g = p.get("get")
            if g is None:
                continue
            rets = [n for n in ast.walk(g.node) if isinstance(n, ast.Return)]
            if len(rets) == 1 and isinstance(rets[0].value, ast.Attribute) and rets[0].value.attr == name and \
                    isinstance(rets[0].value.value, ast.Name) and rets[0].value.value.id == "self":
                for k in cls.mro():
                    if (k.name, pn) in eng.schema:
                        return eng.schema[(k.name, pn)]
                t = ann_type(prog, g.node.returns)
                if t is not None:
                    return t
    for c in cls.mro():
        fns = list(c.methods.values()) + [f for p in c.props.values() for f in p.values()]
        for f in fns:
            for n in ast.walk(f.node):
                if isinstance(n, ast.AnnAssign) and is_self(n.target, name):
                    t = ann_type(prog, n.annotation)
                    if t is not None:
                        return t
    best = None
    for c in cls.mro():
        fns = list(c.methods.values()) + [f for p in c.props.values() for f in p.values()]
        for f in fns:
            anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(is_self(t, name) for t in n.targets):
                    v = n.value
                    t = None
                    if isinstance(v, ast.Name) and v.id in anns:
                        t = ann_type(prog, anns[v.id])
                    elif isinstance(v, ast.Constant):
                        t = {bool: TBool, int: TInt, float: TReal, str: TStr}.get(type(v.value), lambda: None)()
                        if v.value is None:
                            continue
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("float", "int", "str", "bool", "len"):
                        t = {"float": TReal, "int": TInt, "str": TStr, "bool": TBool, "len": TInt}[v.func.id]()
                    elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                        for k in cls.mro():
                            if (k.name, v.attr) in eng.schema:
                                t = eng.schema[(k.name, v.attr)]
                    if t is not None and best is None:
                        best = t
    return best


def is_self(t, name):
    return isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self"
