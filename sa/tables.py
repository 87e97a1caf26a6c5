"""Constant folding of module-level tables, class attributes and parameter defaults (no code is executed).

A value is reduced to a canonical JSON term; parts the folder cannot reduce become {"?": source-independent tag}
and match anything.
"""
import ast
import glob
import json
import os

from . import prog

UNK = {"?": ""}


def has_q(v):
    if isinstance(v, dict):
        return "?" in v or any(has_q(x) for x in v.values())
    if isinstance(v, list):
        return any(has_q(x) for x in v)
    return False


def key(v):
    return json.dumps(v, sort_keys=True)


class _LazyModules(dict):
    """Modules of the installed ASN.1 definitions, parsed when first named."""

    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def __contains__(self, name):
        if super().__contains__(name):
            return True
        if name.startswith("pyasn1_alt_modules."):
            path = os.path.join(self.owner.root, name.replace(".", os.sep) + ".py")
            if os.path.exists(path):
                self.owner._load(path)
                if super().__contains__(name):
                    self.owner._collect(self[name])
                    return True
        return False


class ExtProgram(prog.Program):
    def __init__(self, root):  # pylint: disable=super-init-not-called
        self.root = root
        self.modules = _LazyModules(self)
        self.funcs, self.classes, self.errors, self._mro = {}, {}, [], {}


_EXT = []


def ext_folder():
    if not _EXT:
        c = sorted(glob.glob("/opt/venv/lib/python3*/site-packages/pyasn1_alt_modules"))
        _EXT.append(Folder(ExtProgram(os.path.dirname(c[0])), None) if c else None)
    return _EXT[0]


class Folder:
    def __init__(self, program, ext=ext_folder):
        self.p = program
        self.ext = ext
        self.cache = {}
        self.active = set()

    # canonical forms: ["c", type, value] const; ["seq"/"set", [..]]; ["map", [[k, v]..] sorted]; ["sym", dotted];
    # ["call", fn, [args], {kw}]; ["op", name, [..]]
    def const(self, v):
        if isinstance(v, bytes):
            return ["c", "bytes", v.hex()]
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, float)):
            return ["c", type(v).__name__, v if not isinstance(v, int) or abs(v) < 2 ** 62 or isinstance(v, bool)
                    else str(v)]
        return dict(UNK)

    def mapping(self, items):
        d = {}
        for k, v in items:
            d[key(k)] = (k, v)
        return ["map", [[d[k][0], d[k][1]] for k in sorted(d)]]

    def ev(self, n, m, env=None, depth=0):
        if depth > 12 or n is None:
            return dict(UNK)
        r = lambda x: self.ev(x, m, env, depth + 1)
        if isinstance(n, ast.Constant):
            return self.const(n.value) if n.value is not Ellipsis else ["sym", "..."]
        if isinstance(n, (ast.Tuple, ast.List)):
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    v = r(x.value)
                    if isinstance(v, list) and v[0] == "seq":
                        out += v[1]
                    elif isinstance(v, list) and v[0] == "set":
                        out += v[1]
                    elif isinstance(v, list) and v[0] == "map":
                        out += [k for k, _ in v[1]]
                    else:
                        out.append(dict(UNK))
                else:
                    out.append(r(x))
            return ["seq", out]
        if isinstance(n, ast.Set):
            return ["set", sorted((r(x) for x in n.elts), key=key)]
        if isinstance(n, ast.Dict):
            items = []
            for k, v in zip(n.keys, n.values):
                if k is None:
                    x = r(v)
                    if isinstance(x, list) and x[0] == "map":
                        items += x[1]
                    else:
                        return dict(UNK)
                else:
                    items.append((r(k), r(v)))
            return self.mapping(items)
        if isinstance(n, ast.JoinedStr):
            parts = []
            for x in n.values:
                if isinstance(x, ast.Constant):
                    parts.append(x.value)
                elif isinstance(x, ast.FormattedValue):
                    v = r(x.value)
                    if isinstance(v, list) and v[0] == "c" and v[1] in ("str", "int") and x.format_spec is None:
                        parts.append(str(v[2]))
                    elif isinstance(v, list) and v[0] == "oid":
                        parts.append(v[1])
                    else:
                        return dict(UNK)
            return ["c", "str", "".join(parts)]
        if isinstance(n, ast.UnaryOp):
            v = r(n.operand)
            if isinstance(v, list) and v[0] == "c" and v[1] in ("int", "float", "bool"):
                try:
                    return self.const({ast.USub: lambda a: -a, ast.UAdd: lambda a: a, ast.Not: lambda a: not a,
                                       ast.Invert: lambda a: ~a}[type(n.op)](v[2]))
                except Exception:  # pylint: disable=broad-except
                    pass
            return ["op", type(n.op).__name__, [v]]
        if isinstance(n, ast.BinOp):
            a, b = r(n.left), r(n.right)
            if isinstance(a, list) and isinstance(b, list):
                if a[0] == b[0] == "c" and a[1] in ("int", "str") and (a[1] == b[1] or isinstance(n.op, (ast.Mult, ast.Mod))):
                    f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                         ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y, ast.Pow: lambda x, y: x ** y,
                         ast.LShift: lambda x, y: x << y, ast.RShift: lambda x, y: x >> y, ast.BitOr: lambda x, y: x | y,
                         ast.BitAnd: lambda x, y: x & y, ast.BitXor: lambda x, y: x ^ y, ast.Div: lambda x, y: x / y}.get(type(n.op))
                    try:
                        x, y = a[2], b[2]
                        if a[1] == "int":
                            x = int(x)
                        if b[1] == "int":
                            y = int(y)
                        if not (isinstance(n.op, ast.Pow) and y > 4096):
                            return self.const(f(x, y))
                    except Exception:  # pylint: disable=broad-except
                        pass
                if isinstance(n.op, ast.Add) and a[0] == b[0] == "seq":
                    return ["seq", a[1] + b[1]]
                if isinstance(n.op, ast.Add) and a[0] == "oid" and b[0] == "seq" and all(
                        isinstance(x, list) and x[:2] == ["c", "int"] for x in b[1]):
                    return ["oid", ".".join([a[1]] + [str(x[2]) for x in b[1]])]
                if isinstance(n.op, ast.BitOr) and a[0] == b[0] == "map":
                    return self.mapping(a[1] + b[1])
            return ["op", type(n.op).__name__, [a, b]]
        if isinstance(n, ast.Name):
            if env and n.id in env:
                return env[n.id]
            return self.sym(self.p.resolve(m, n.id), n.id)
        if isinstance(n, ast.Attribute):
            rr = self.p.resolve_expr(m, n)
            if rr is not None:
                return self.sym(rr, n.attr)
            v = r(n.value)
            return ["attr", v, n.attr]
        if isinstance(n, ast.Subscript):
            b, i = r(n.value), r(n.slice)
            if isinstance(b, list) and b[0] == "map":
                for k, v in b[1]:
                    if k == i:
                        return v
            if isinstance(b, list) and b[0] == "seq" and isinstance(i, list) and i[:2] == ["c", "int"]:
                try:
                    return b[1][i[2]]
                except IndexError:
                    pass
            return ["op", "item", [b, i]]
        if isinstance(n, ast.IfExp):
            t = r(n.test)
            if isinstance(t, list) and t[0] == "c":
                return r(n.body) if t[2] else r(n.orelse)
            return ["op", "ifexp", [t, r(n.body), r(n.orelse)]]
        if isinstance(n, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(n, m, env, depth)
        if isinstance(n, ast.Lambda):
            return dict(UNK)
        if isinstance(n, ast.Call):
            return self.call(n, m, env, depth)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = r(n.left), r(n.comparators[0])
            if not has_q(a) and not has_q(b) and isinstance(a, list) and isinstance(b, list):
                if isinstance(n.ops[0], ast.Eq) and a[0] == b[0] == "c":
                    return self.const(a == b)
                if isinstance(n.ops[0], ast.NotEq) and a[0] == b[0] == "c":
                    return self.const(a != b)
                if isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    res = None
                    if a[0] == "c" and b[0] == "c" and b[1] == "str" and a[1] == "str":
                        res = a[2] in b[2]
                    elif b[0] in ("seq", "set") and all(x[0] == "c" for x in b[1]) and a[0] == "c":
                        res = a in b[1]
                    elif b[0] == "map" and a[0] == "c":
                        res = any(a == k for k, _ in b[1])
                    if res is not None:
                        return self.const(res == isinstance(n.ops[0], ast.In))
            return ["op", type(n.ops[0]).__name__, [a, b]]
        if isinstance(n, ast.BoolOp):
            vs = [r(x) for x in n.values]
            if all(isinstance(v, list) and v[0] == "c" for v in vs):
                bs = [bool(v[2]) for v in vs]
                return self.const(all(bs) if isinstance(n.op, ast.And) else any(bs))
            return ["op", type(n.op).__name__, vs]
        return dict(UNK)

    def seq_of(self, v):
        if isinstance(v, list):
            if v[0] in ("seq", "set"):
                return v[1]
            if v[0] == "map":
                return [k for k, _ in v[1]]
        return None

    def comp(self, n, m, env, depth):
        envs = [dict(env or {})]
        for g in n.generators:
            nxt = []
            for e in envs:
                it = self.ev(g.iter, m, e, depth + 1)
                els = self.seq_of(it)
                if els is None or len(els) > 3000:
                    return dict(UNK)
                for x in els:
                    e2 = dict(e)
                    if not self.bind(g.target, x, e2):
                        return dict(UNK)
                    ok = True
                    for c in g.ifs:
                        t = self.ev(c, m, e2, depth + 1)
                        if not (isinstance(t, list) and t[0] == "c"):
                            return dict(UNK)
                        ok = ok and bool(t[2])
                    if ok:
                        nxt.append(e2)
            envs = nxt
        if isinstance(n, ast.DictComp):
            return self.mapping([(self.ev(n.key, m, e, depth + 1), self.ev(n.value, m, e, depth + 1)) for e in envs])
        vs = [self.ev(n.elt, m, e, depth + 1) for e in envs]
        if isinstance(n, ast.SetComp):
            return ["set", sorted({key(v): v for v in vs}.values(), key=key)]
        return ["seq", vs]

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, list) and v[0] == "seq" and len(v[1]) == len(t.elts):
                return all(self.bind(a, b, env) for a, b in zip(t.elts, v[1]))
        return False

    def call(self, n, m, env, depth):
        r = lambda x: self.ev(x, m, env, depth + 1)
        if isinstance(n.func, ast.Attribute):
            b = r(n.func.value)
            a = n.func.attr
            args = [r(x) for x in n.args]
            if isinstance(b, list):
                if b[0] == "map":
                    if a == "items" and not args:
                        return ["seq", [["seq", [k, v]] for k, v in b[1]]]
                    if a == "keys" and not args:
                        return ["seq", [k for k, _ in b[1]]]
                    if a == "values" and not args:
                        return ["seq", [v for _, v in b[1]]]
                    if a == "copy":
                        return b
                    if a == "get" and args:
                        for k, v in b[1]:
                            if k == args[0]:
                                return v
                        return args[1] if len(args) > 1 else self.const(None)
                if b[0] in ("seq", "set") and a == "copy":
                    return b
                if b[:2] == ["c", "str"] and all(isinstance(x, list) and x[0] == "c" for x in args) and a in (
                        "lower", "upper", "replace", "strip", "title", "removeprefix", "removesuffix", "startswith",
                        "endswith", "lstrip", "rstrip", "encode", "split"):
                    try:
                        v = getattr(b[2], a)(*[x[2] for x in args])
                        return ["seq", [self.const(x) for x in v]] if isinstance(v, list) else self.const(v)
                    except Exception:  # pylint: disable=broad-except
                        return dict(UNK)
                if b == ["sym", "bytes"] and a == "fromhex" and args and args[0][:2] == ["c", "str"]:
                    try:
                        return self.const(bytes.fromhex(args[0][2]))
                    except ValueError:
                        return dict(UNK)
        fn = r(n.func)
        args = [r(x) for x in n.args if not isinstance(x, ast.Starred)]
        kws = {k.arg: r(k.value) for k in n.keywords if k.arg}
        if fn == ["sym", "list"] or fn == ["sym", "tuple"]:
            if not args:
                return ["seq", []]
            s = self.seq_of(args[0])
            return ["seq", s] if s is not None else dict(UNK)
        if fn == ["sym", "set"] or fn == ["sym", "frozenset"]:
            if not args:
                return ["set", []]
            s = self.seq_of(args[0])
            return ["set", sorted({key(v): v for v in s}.values(), key=key)] if s is not None else dict(UNK)
        if fn == ["sym", "dict"]:
            if args and isinstance(args[0], list) and args[0][0] == "map":
                return self.mapping(args[0][1] + [(self.const(k), v) for k, v in kws.items()])
            if not args:
                return self.mapping([(self.const(k), v) for k, v in kws.items()])
            s = self.seq_of(args[0])
            if s is not None and all(isinstance(x, list) and x[0] == "seq" and len(x[1]) == 2 for x in s):
                return self.mapping([tuple(x[1]) for x in s])
        if fn == ["sym", "range"] and all(isinstance(x, list) and x[:2] == ["c", "int"] for x in args) and args:
            rg = range(*[x[2] for x in args])
            if len(rg) <= 512:
                return ["seq", [self.const(x) for x in rg]]
        if fn == ["sym", "zip"]:
            ss = [self.seq_of(a) for a in args]
            if all(s is not None for s in ss):
                return ["seq", [["seq", list(x)] for x in zip(*ss)]]
        if fn == ["sym", "sorted"] and len(args) == 1 and not kws:
            s = self.seq_of(args[0])
            if s is not None and all(x[0] == "c" for x in s):
                try:
                    return ["seq", sorted(s, key=lambda x: x[2])]
                except TypeError:
                    pass
        if fn == ["sym", "len"] and args:
            s = self.seq_of(args[0])
            if s is not None:
                return self.const(len(s))
        if isinstance(fn, list) and fn[0] == "sym" and fn[1].endswith((".field", "dataclasses.field")):
            return ["call", "field", [], [[k, kws[k]] for k in sorted(kws)]]
        nm = fn[1] if isinstance(fn, list) and fn[0] == "sym" else None
        if nm is None:
            return ["call", fn, args, [[k, kws[k]] for k in sorted(kws)]]
        if nm.endswith(("_buildOid", "_OID")):
            parts = []
            for a in args:
                if isinstance(a, list) and a[:2] == ["c", "int"]:
                    parts.append(str(a[2]))
                elif isinstance(a, list) and a[0] == "oid":
                    parts.append(a[1])
                else:
                    return dict(UNK)
            return ["oid", ".".join(parts)]
        if nm.endswith("ObjectIdentifier") and len(args) == 1:
            if isinstance(args[0], list) and args[0][:2] == ["c", "str"]:
                return ["oid", args[0][2]]
            if isinstance(args[0], list) and args[0][0] == "oid":
                return args[0]
            if isinstance(args[0], list) and args[0][0] == "seq" and all(x[0] == "c" for x in args[0][1]):
                return ["oid", ".".join(str(x[2]) for x in args[0][1])]
        return ["call", nm, args, [[k, kws[k]] for k in sorted(kws)]]

    def sym(self, rr, name):
        if rr is None:
            return ["sym", name]
        if rr[0] == "assign":
            return self.module_const(rr[1], rr[2])
        if rr[0] == "classattr":
            c = self.p.classes[rr[1]]
            if any("Enum" in str(x) for x in self.p.mro(rr[1])):
                return ["sym", f"{rr[1].split('.')[-1]}.{rr[2]}"]
            return self.ev(rr[3], c.module, None, 3)
        if rr[0] in ("func", "class"):
            return ["sym", str(rr[1]).split(".")[-1]]
        d = str(rr[1])
        if rr[0] == "ext" and d.startswith("pyasn1_alt_modules.") and d.count(".") == 2 and self.ext:
            x = self.ext()
            mod, nm = d.rsplit(".", 1)
            if x is not None and mod in x.p.modules:
                r2 = x.p.resolve(x.p.modules[mod], nm)
                if r2 is not None and r2[0] == "assign" and r2[1] in x.p.modules:
                    v = x.module_const(r2[1], r2[2])
                    if isinstance(v, list) and v[0] == "oid":
                        return v
        return ["sym", d]

    def module_const(self, mod, name):
        k = (mod, name)
        if k in self.cache:
            return self.cache[k]
        if k in self.active:
            return dict(UNK)
        self.active.add(k)
        try:
            m = self.p.modules[mod]
            v = dict(UNK)
            seen = False
            for st in m.tree.body:
                v, seen = self.step(st, m, name, v, seen)
        finally:
            self.active.discard(k)
        self.cache[k] = v
        return v

    def step(self, st, m, name, v, seen):
        if isinstance(st, (ast.If, ast.Try)):
            for sub in st.body:
                v, seen = self.step(sub, m, name, v, seen)
            return v, seen
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    return self.ev(st.value, m), True
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name and seen:
                    if isinstance(v, list) and v[0] == "map":
                        return self.mapping(v[1] + [(self.ev(t.slice, m), self.ev(st.value, m))]), True
                    return dict(UNK), True
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            if isinstance(st.target, ast.Name) and st.target.id == name:
                return self.ev(st.value, m), True
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name and seen:
            b = self.ev(st.value, m)
            if isinstance(v, list) and isinstance(b, list):
                if isinstance(st.op, ast.Add) and v[0] == b[0] == "seq":
                    return ["seq", v[1] + b[1]], True
                if isinstance(st.op, ast.BitOr) and v[0] == b[0] == "map":
                    return self.mapping(v[1] + b[1]), True
            return dict(UNK), True
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
            f = st.value.func
            if isinstance(f.value, ast.Name) and f.value.id == name and seen:
                a = [self.ev(x, m) for x in st.value.args]
                if f.attr == "update" and isinstance(v, list) and v[0] == "map" and len(a) == 1 and isinstance(
                        a[0], list) and a[0][0] == "map":
                    return self.mapping(v[1] + a[0][1]), True
                if f.attr == "append" and isinstance(v, list) and v[0] == "seq" and len(a) == 1:
                    return ["seq", v[1] + a], True
                if f.attr == "extend" and isinstance(v, list) and v[0] == "seq" and len(a) == 1 and self.seq_of(a[0]) is not None:
                    return ["seq", v[1] + self.seq_of(a[0])], True
                return dict(UNK), True
        elif isinstance(st, ast.For) and seen and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st)):
            return dict(UNK), True
        return v, seen


def module_names(m):
    out = []

    def go(body):
        for st in body:
            if isinstance(st, (ast.If, ast.Try)):
                go(st.body)
            elif isinstance(st, ast.Assign):
                out.extend(t.id for t in st.targets if isinstance(t, ast.Name))
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                out.append(st.target.id)
    go(m.tree.body)
    return [n for n in dict.fromkeys(out) if not n.startswith("__")]


def collect(program, prefixes=("mock_ca", "resources", "pq_logic")):
    """All module constants, class attributes and parameter defaults of the scope."""
    f = Folder(program)
    consts, attrs, defaults = {}, {}, {}
    for mn, m in sorted(program.modules.items()):
        if not mn.startswith(prefixes):
            continue
        for n in module_names(m):
            v = f.module_const(mn, n)
            if useful(v):
                consts[f"{mn}.{n}"] = v
    for q, c in sorted(program.classes.items()):
        if not c.module.name.startswith(prefixes):
            continue
        for a, node in c.attrs.items():
            v = f.ev(node, c.module)
            if useful(v):
                attrs[f"{q}.{a}"] = v
    for q, fi in sorted(program.funcs.items()):
        if not fi.module.name.startswith(prefixes) or not (fi.public or fi.name == "__init__"):
            continue
        d = {p: f.ev(n, fi.module) for p, n in fi.defaults.items()}
        d = {p: v for p, v in d.items() if useful(v)}
        if d:
            defaults[q] = d
    return {"consts": consts, "attrs": attrs, "defaults": defaults}


def useful(v):
    return isinstance(v, list) and v[0] != "sym" and not (v[0] in ("attr",))


def differ(new, old, path=""):
    """First difference of two folded values as text, or None."""
    if isinstance(new, dict) or isinstance(old, dict):
        return None
    if new == old:
        return None
    if new[0] in ("op", "call", "attr") or old[0] in ("op", "call", "attr"):
        if new[0] != old[0] or new[0] != "call" or new[1] != old[1]:
            # an expression the folder does not reduce: only compare like with like
            if new[0] == old[0] == "op" and new[1] == old[1] and len(new[2]) == len(old[2]):
                for a, b in zip(new[2], old[2]):
                    d = differ(a, b, path)
                    if d:
                        return d
            return None
        if len(new[2]) == len(old[2]):
            for i, (a, b) in enumerate(zip(new[2], old[2])):
                d = differ(a, b, f"{path}({i})")
                if d:
                    return d
        nk, ok = dict(new[3]), dict(old[3])
        for k in nk:
            if k in ok:
                d = differ(nk[k], ok[k], f"{path}.{k}")
                if d:
                    return d
        return None
    if (new[0] == "sym") != (old[0] == "sym"):
        return None
    if new[0] == "seq" and old[0] == "set" or new[0] == "set" and old[0] == "seq":
        new, old = ["set", sorted(new[1], key=key)], ["set", sorted(old[1], key=key)]
    if new[0] != old[0]:
        return f"{path} is {short(new)} instead of {short(old)}"
    if new[0] in ("c", "oid", "sym"):
        if new[0] == "sym" and new[1].split(".")[-1] == old[1].split(".")[-1]:
            return None
        return f"{path} is {short(new)} instead of {short(old)}"
    if new[0] == "map":
        nd, od = {key(k): v for k, v in new[1]}, {key(k): v for k, v in old[1]}
        for k in od:
            if k not in nd:
                if has_q(json.loads(k)) or any(has_q(x[0]) for x in new[1]):
                    continue
                return f"{path} lacks {short(json.loads(k))}"
            d = differ(nd[k], od[k], f"{path}[{short(json.loads(k))}]")
            if d:
                return d
        for k in nd:
            if k not in od and not has_q(json.loads(k)) and not any(has_q(x[0]) for x in old[1]):
                return f"{path} has the extra entry {short(json.loads(k))}"
        return None
    if new[0] == "set":
        a, b = {key(x) for x in new[1]}, {key(x) for x in old[1]}
        if any(has_q(x) for x in new[1] + old[1]):
            return None
        if a != b:
            return f"{path} differs in {', '.join(short(json.loads(x)) for x in sorted(a ^ b)[:3])}"
        return None
    if new[0] == "seq":
        if len(new[1]) != len(old[1]):
            return f"{path} has {len(new[1])} entries instead of {len(old[1])}"
        for i, (a, b) in enumerate(zip(new[1], old[1])):
            d = differ(a, b, f"{path}[{i}]")
            if d:
                return d
        return None
    return None


def short(v):
    if isinstance(v, dict):
        return "?"
    if v[0] == "c":
        return repr(v[2])[:60]
    if v[0] in ("sym", "oid"):
        return str(v[1])
    return json.dumps(v)[:60]
