"""How classes and functions are put together: what a path table of a function body does not show.

Compared with the reviewed shape: special methods a class has (equality, truth value, length, attribute access ...),
dataclass options, enum aliases, decorators, overrides of inherited methods, replaced names and patched attributes.
"""
import ast

from . import contract as C
from . import engine, prog, tables

# special methods that change what operators, truth tests and attribute access mean
SPECIAL = {"__eq__", "__ne__", "__hash__", "__bool__", "__len__", "__contains__", "__iter__", "__next__", "__getattr__",
           "__getattribute__", "__setattr__", "__delattr__", "__getitem__", "__setitem__", "__delitem__", "__lt__",
           "__le__", "__gt__", "__ge__", "__add__", "__sub__", "__mul__", "__xor__", "__and__", "__or__", "__call__",
           "__new__", "__init_subclass__", "__post_init__", "__copy__", "__deepcopy__", "__reduce__", "__del__",
           "__index__", "__int__", "__bytes__", "__iadd__", "__radd__", "__missing__", "__set_name__", "__get__",
           "__set__", "__enter__", "__exit__", "__class_getitem__", "__instancecheck__"}
# decorators without influence on what a call does
NEUTRAL = {"staticmethod", "classmethod", "property", "keyword", "not_keyword", "abstractmethod", "override", "final",
           "overload", "typing", "library", "deprecated", "no_type_check", "unique", "total_ordering"}
CACHES = {"cache", "lru_cache", "cached_property"}
PLAIN = {"str", "int", "bool", "bytes", "float", "None"}


def deco_name(d):
    n = d.func if isinstance(d, ast.Call) else d
    return n.id if isinstance(n, ast.Name) else getattr(n, "attr", "?")


def decorators(p, fi, folder):
    """Decorators with an influence, in canonical text."""
    out = []
    for d in fi.node.decorator_list:
        n = deco_name(d)
        if n in NEUTRAL:
            continue
        if n in CACHES:
            out.append("cache")
            continue
        args = ""
        if isinstance(d, ast.Call):
            args = tables.key([folder.ev(a, fi.module) for a in d.args] + sorted(
                ([k.arg, folder.ev(k.value, fi.module)] for k in d.keywords), key=tables.key))
        out.append(n + args)
    return sorted(out)


def dataclass_args(c):
    for d in c.node.decorator_list:
        if deco_name(d) == "dataclass":
            kw = {k.arg: ast.unparse(k.value) for k in d.keywords} if isinstance(d, ast.Call) else {}
            return {"eq": kw.get("eq", "True"), "order": kw.get("order", "False"), "init": kw.get("init", "True")}
    return None


def is_enum(p, q):
    return any(x.rsplit(".", 1)[-1] in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag") for x in p.mro(q))


def aliases(p, q, folder):
    """Enum members with the value of an earlier one: they are that member."""
    c = p.classes[q]
    seen, out = {}, []
    for st in c.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            v = folder.ev(st.value, c.module)
            if tables.has_q(v) or isinstance(v, list) and v and v[0] == "call":
                continue
            k = tables.key(v)
            if k in seen:
                out.append(f"{st.targets[0].id}={seen[k]}")
            else:
                seen[k] = st.targets[0].id
    return sorted(out)


def rebound(body, names):
    """Names of functions, methods and classes that a later assignment of the same body replaces."""
    out = []
    for st in body:
        ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(
            st, (ast.AnnAssign, ast.AugAssign)) and getattr(st, "value", None) is not None else []
        for t in ts:
            if isinstance(t, ast.Name) and t.id in names:
                out.append(t.id)
        if isinstance(st, (ast.If, ast.Try, ast.With)):
            for part in ("body", "orelse", "finalbody"):
                out += rebound(getattr(st, part, []), names)
                out += [x.name for x in getattr(st, part, []) if isinstance(
                    x, (ast.FunctionDef, ast.ClassDef)) and x.name in names and not isinstance(body, str)
                        and not any(x is y for y in names.values())]
    return sorted(out)


def patches(p):
    """Attributes of repository classes and modules that some statement anywhere replaces: {target: [(file, line)]}."""
    out = {}

    def note(target, m, ln):
        out.setdefault(target, []).append((m.path, ln))

    for m in p.modules.values():
        def visit(node, local):
            for st in ast.iter_child_nodes(node):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    a = st.args
                    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
                    names |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    visit(st, local | names)
                    continue
                tg = []
                if isinstance(st, ast.Assign):
                    tg = [t for t in st.targets if isinstance(t, ast.Attribute)]
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Attribute):
                    tg = [st.target]
                elif isinstance(st, ast.Delete):
                    tg = [t for t in st.targets if isinstance(t, ast.Attribute)]
                elif isinstance(st, ast.Call) and isinstance(st.func, ast.Name) and st.func.id in (
                        "setattr", "delattr") and len(st.args) >= 2 and isinstance(st.args[1], ast.Constant):
                    tg = [ast.Attribute(st.args[0], str(st.args[1].value), ast.Store())]
                for t in tg:
                    b = t.value
                    while isinstance(b, ast.Attribute):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id not in local:
                        r = p.resolve_expr(m, t.value)
                        if r is not None and r[0] in ("class", "mod", "func") and (
                                r[1] in p.classes or r[1] in p.modules or r[1] in p.funcs):
                            note(f"{r[1]}.{t.attr}", m, getattr(st, "lineno", 1))
                visit(st, local)
        visit(m.tree, frozenset())
    return out


def collect(p):
    folder = tables.Folder(p)
    out = {"classes": {}, "deco": {}, "resolve": {}, "patch": sorted(patches(p)), "rebound": {}}
    for q, c in p.classes.items():
        own = {}
        for x in p.mro(q):
            k = p.classes.get(x)
            if k is not None:
                for n, f in k.methods.items():
                    own.setdefault(n, f.qual)
        spec = sorted(n for n in own if n in SPECIAL)
        inh = {n: w for n, w in own.items() if not w.startswith(q + ".")}
        e = {"special": spec, "dataclass": dataclass_args(c), "eq_from": own.get("__eq__")}
        if is_enum(p, q):
            e["alias"] = aliases(p, q, folder)
        out["classes"][q] = e
        if inh:
            out["resolve"][q] = inh
        rb = rebound(c.node.body, {n: f.node for n, f in c.methods.items()})
        if rb:
            out["rebound"][q] = rb
    for m in p.modules.values():
        rb = rebound(m.tree.body, {**{n: f.node for n, f in m.funcs.items()}, **{n: c.node for n, c in m.classes.items()}})
        if rb:
            out["rebound"][m.name] = rb
    for q, f in p.funcs.items():
        d = decorators(p, f, folder)
        if d:
            out["deco"][q] = d
    return out


_NOW = {}


def now(p):
    k = id(p)
    if k not in _NOW:
        _NOW.clear()
        _NOW[k] = (p, collect(p), patches(p))
    return _NOW[k][1:]


def named_classes(rows, classes):
    """Classes whose objects the contract rows build or test for."""
    out = set()
    for r in rows:
        for t in list(r.did) + list(r.lits) + [r.value] + list(r.heap.values()):
            if isinstance(t, (tuple, frozenset)):
                for x in engine.subterms(t):
                    if isinstance(x, tuple):
                        for y in x[1:3]:
                            if isinstance(y, str) and y in classes:
                                out.add(y)
                            elif isinstance(y, frozenset):
                                out |= {z for z in y if isinstance(z, str) and z in classes}
    return out


def rule(p, qs, mod_of, rows_of, ref, eng, levels, locate, make):
    """Findings for the functions `qs` and the classes they belong to or use.

    mod_of: function -> module; rows_of(q): reference rows; make(func, rule, detail, file, line) builds a finding.
    """
    cur, where = now(p)
    res, n = [], 0
    scope = set()
    for q in qs:
        head = q.rsplit(".", 1)[0]
        if head in ref["classes"]:
            scope.add(head)
        scope |= named_classes(rows_of(q), ref["classes"])
    for q in list(scope):
        scope |= {x for x in p.mro(q) if x in ref["classes"]} if q in p.classes else set()
    mods = {mod_of[q] for q in qs}

    for q in sorted(scope):
        if q not in p.classes:
            continue
        c = p.classes[q]
        a, b = ref["classes"][q], cur["classes"][q]
        at = (c.module.path, c.node.lineno)
        n += 1
        for s in sorted(set(b["special"]) - set(a["special"])):
            res.append(make(q, "SHAPE", f"{q} gains {s}, which changes what its operators or attributes mean", *at))
        for s in sorted(set(a["special"]) - set(b["special"])):
            if s not in ("__ne__",) and not (s == "__post_init__" and "__init__" in c.methods):
                res.append(make(q, "SHAPE", f"{q} no longer has {s}", *at))
        if (a["dataclass"] or b["dataclass"]) and a["dataclass"] != b["dataclass"]:
            if a["dataclass"] and b["dataclass"]:
                res.append(make(q, "SHAPE", f"{q} is a dataclass with {b['dataclass']} instead of {a['dataclass']}", *at))
            elif a["dataclass"] and a["dataclass"]["eq"] == "True" and "__eq__" not in b["special"]:
                res.append(make(q, "SHAPE", f"{q} is no dataclass any more: its objects no longer compare by value", *at))
            elif b["dataclass"] and b["dataclass"]["eq"] == "True" and "__eq__" not in a["special"]:
                res.append(make(q, "SHAPE", f"{q} became a dataclass: its objects now compare by value", *at))
        for s in sorted(set(b.get("alias", ())) - set(a.get("alias", ()))):
            res.append(make(q, "SHAPE", f"{q} has two names for one member: {s}", *at))
        for s in cur["rebound"].get(q, ()):
            if s not in ref["rebound"].get(q, ()):
                res.append(make(q, "SHAPE", f"{q}.{s} is defined and then replaced", *at))
        # an inherited method that the class now answers itself (or by another ancestor)
        for m, was in sorted(ref["resolve"].get(q, {}).items()):
            f = p.find_method(q, m)
            if f is None:
                continue
            n += 1
            if f.qual == was or locate(p, was) == f.qual:
                continue
            old = rows_of(was)
            if not old:
                continue
            C.self_filter(old)
            try:
                new = C.from_rows(eng.table(f.qual, level=levels.get(was, 0)))
            except engine.Budget:
                continue
            fs, _ = C.compare(f.qual, old, new, ("REJECT", "ACCEPT", "GUARD", "ORDER", "EFFECT", "VALUE", "BOOL"))
            for x in fs:
                res.append(make(f.qual, x.rule, f"for objects of {q} (was {was}): {x.detail}", f.module.path,
                                x.line or f.node.lineno))
    for m in sorted(mods):
        for s in cur["rebound"].get(m, ()):
            if s not in ref["rebound"].get(m, ()) and any(q == f"{m}.{s}" or q.startswith(f"{m}.{s}.") for q in qs):
                res.append(make(f"{m}.{s}", "SHAPE", f"{m}.{s} is defined and then replaced", p.modules[m].path, 1)
                           if m in p.modules else None)
    for t in cur["patch"]:
        if t in ref["patch"]:
            continue
        head = t.rsplit(".", 1)[0]
        if head in scope or t in qs or head in qs:
            f, ln = where[t][0]
            res.append(make(t, "SHAPE", f"{t} is replaced at run time", f, ln))
    for q in qs:
        cq = locate(p, q)
        if cq is None:
            continue
        n += 1
        a, b = ref["deco"].get(q, []), cur["deco"].get(cq, [])
        if a == b:
            continue
        f = p.funcs[cq]
        for d in b:
            if d in a or d == "cache" and pure(f):
                continue
            res.append(make(q, "SHAPE", f"{q} is now decorated with {d[:80]}", f.module.path, f.node.lineno))
        for d in a:
            if d not in b and d != "cache":
                res.append(make(q, "SHAPE", f"{q} is no longer decorated with {d[:80]}", f.module.path, f.node.lineno))
    return [x for x in res if x is not None], n


def pure(f):
    """A cache in front of it cannot be told: a plain function of plain values with a plain result."""
    if f.cls is not None and f.kind not in ("static",):
        return False
    r = f.node.returns
    return isinstance(r, (ast.Name, ast.Constant)) and ast.unparse(r) in PLAIN and all(
        isinstance(x.annotation, ast.Name) and x.annotation.id in PLAIN
        for x in f.node.args.args + f.node.args.kwonlyargs) and not any(
        isinstance(x, ast.Name) and x.id in ("os", "secrets", "random", "time", "datetime", "open", "logging")
        for x in ast.walk(f.node))
