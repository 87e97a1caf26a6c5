"""Program model of the analysed repository: modules, symbols, classes, functions (stdlib ast only)."""
import ast
import hashlib
import os

SCOPE_DIRS = ("mock_ca", "resources", "pq_logic", "scripts", "client_tests")
SKIP_PARTS = ("unit_tests", "tests", "fixtures")


class FuncInfo:
    __slots__ = ("qual", "node", "module", "cls", "params", "defaults", "kind", "vararg", "kwarg", "posonly",
                 "_props")

    def __init__(self, qual, node, module, cls):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = "func"
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            s = n.id if isinstance(n, ast.Name) else (n.attr if isinstance(n, ast.Attribute) else "")
            if s == "staticmethod":
                self.kind = "static"
            elif s == "classmethod":
                self.kind = "classm"
            elif s in ("property", "cached_property"):
                self.kind = "prop"
            elif s in ("setter", "deleter"):
                self.kind = "setter"
        if cls is not None and self.kind == "func":
            self.kind = "method"
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.posonly = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d

    @property
    def name(self):
        return self.node.name

    @property
    def public(self):
        return not self.node.name.startswith("_")

    def where(self):
        return f"{self.module.path}:{self.node.lineno}"


class ClassInfo:
    __slots__ = ("qual", "node", "module", "bases", "methods", "attrs", "attr_types", "fields")

    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.bases = node.bases
        self.methods = {}
        self.attrs = {}
        self.attr_types = None
        self.fields = []


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.syms = {}
        self.funcs = {}
        self.classes = {}
        self.is_pkg = path.endswith("__init__.py")


class Program:
    def __init__(self, root, dirs=SCOPE_DIRS):
        self.root = root
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.errors = []
        for d in dirs:
            base = os.path.join(root, d)
            for dp, dn, fn in os.walk(base):
                dn[:] = [x for x in dn if x not in SKIP_PARTS and not x.startswith(".")]
                for f in sorted(fn):
                    if f.endswith(".py"):
                        self._load(os.path.join(dp, f))
        self.collect()

    def collect(self):
        self.funcs, self.classes, self._mro = {}, {}, {}
        for m in self.modules.values():
            m.syms, m.funcs, m.classes = {}, {}, {}
            self._collect(m)

    def move(self, now, was):
        """The function now defined as 'now' counts as 'was'."""
        fi = self.funcs.pop(now)
        head, name = now.rsplit(".", 1)
        self.modules[head].syms[name] = ("func", was)
        fi.qual = was
        self.funcs[was] = fi

    def digest(self, mods=None):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            if mods is None or n in mods:
                h.update(n.encode() + b"\0" + self.modules[n].src.encode() + b"\0")
        return h.hexdigest()[:16]

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        with open(path, encoding="utf-8") as f:
            src = f.read()
        try:
            tree = ast.parse(src, rel)
        except SyntaxError as e:
            self.errors.append(f"{rel}: {e}")
            return
        self.modules[name] = Module(name, rel, tree, src)

    def _collect(self, m):
        def handle(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{m.name}.{st.name}"
                    fi = FuncInfo(q, st, m, None)
                    m.syms[st.name] = ("func", q)
                    m.funcs[st.name] = fi
                    self.funcs[q] = fi
                elif isinstance(st, ast.ClassDef):
                    self._collect_class(m, st, f"{m.name}.{st.name}")
                    m.syms[st.name] = ("class", f"{m.name}.{st.name}")
                elif isinstance(st, ast.Import):
                    for al in st.names:
                        if al.asname:
                            m.syms[al.asname] = ("mod", al.name)
                        else:
                            m.syms[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (st.level - 1)]
                        base = ".".join(parts + ([st.module] if st.module else []))
                    for al in st.names:
                        m.syms[al.asname or al.name] = ("from", base, al.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.syms[t.id] = ("assign", m.name, t.id, st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    if st.value is not None:
                        m.syms[st.target.id] = ("assign", m.name, st.target.id, st.value)
                elif isinstance(st, (ast.If, ast.Try)):
                    handle(st.body)
                    for h in getattr(st, "handlers", []):
                        pass
                    for s2 in getattr(st, "orelse", []):
                        if isinstance(s2, (ast.If,)):
                            handle([s2])

        handle(m.tree.body)

    def _collect_class(self, m, node, qual):
        ci = ClassInfo(qual, node, m)
        m.classes[node.name] = ci
        self.classes[qual] = ci
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(f"{qual}.{st.name}", st, m, ci)
                if fi.kind == "setter":
                    continue
                ci.methods[st.name] = fi
                self.funcs[fi.qual] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ci.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    ci.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self._collect_class(m, st, f"{qual}.{st.name}")

    # ---- resolution -------------------------------------------------------
    def resolve(self, m, name, depth=0):
        """Resolve a module-level name to ('func',q)|('class',q)|('mod',n)|('assign',mod,name,node)|('ext',dotted)|None."""
        if depth > 8:
            return None
        s = m.syms.get(name)
        if s is None:
            return None
        if s[0] == "from":
            base, nm = s[1], s[2]
            if base in self.modules:
                r = self.resolve(self.modules[base], nm, depth + 1)
                if r is not None:
                    return r
                sub = f"{base}.{nm}"
                if sub in self.modules:
                    return ("mod", sub)
                return ("ext", f"{base}.{nm}")
            sub = f"{base}.{nm}"
            if sub in self.modules:
                return ("mod", sub)
            return ("ext", sub)
        if s[0] == "mod":
            return ("mod", s[1])
        return s

    def resolve_attr(self, modname, attr):
        if modname in self.modules:
            r = self.resolve(self.modules[modname], attr)
            if r is not None:
                return r
        sub = f"{modname}.{attr}"
        if sub in self.modules or any(k.startswith(sub + ".") for k in self.modules):
            return ("mod", sub)
        return ("ext", sub)

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.resolve(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve_attr(b[1], node.attr)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{node.attr}")
            if b[0] == "class":
                c = self.classes.get(b[1])
                f = self.find_method(b[1], node.attr)
                if f is not None:
                    return ("func", f.qual)
                if c is not None and node.attr in c.attrs:
                    return ("classattr", b[1], node.attr, c.attrs[node.attr])
                return ("ext", f"{b[1]}.{node.attr}")
        return None

    def mro(self, q):
        if q in self._mro:
            return self._mro[q]
        self._mro[q] = [q]
        out = [q]
        c = self.classes.get(q)
        if c is not None:
            for b in c.bases:
                r = self.resolve_expr(c.module, b)
                if r is not None and r[0] == "class":
                    for x in self.mro(r[1]):
                        if x not in out:
                            out.append(x)
                elif r is not None and r[0] in ("ext",):
                    out.append(r[1])
                elif isinstance(b, ast.Name):
                    out.append(b.id)
        self._mro[q] = out
        return out

    def find_method(self, clsq, name):
        for q in self.mro(clsq):
            c = self.classes.get(q)
            if c is not None and name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self, q):
        return [c for c in self.classes if q in self.mro(c)]

    def ann_class(self, m, node):
        """Class named by an annotation (unwraps Optional / strings)."""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, ast.Subscript):
            v = node.value
            nm = v.id if isinstance(v, ast.Name) else getattr(v, "attr", "")
            if nm == "Optional":
                return self.ann_class(m, node.slice)
            return None
        r = self.resolve_expr(m, node) if isinstance(node, (ast.Name, ast.Attribute)) else None
        if r is not None and r[0] == "class":
            return r[1]
        return None

    def class_attr_types(self, q):
        c = self.classes.get(q)
        if c is None:
            return {}
        if c.attr_types is not None:
            return c.attr_types
        c.attr_types = {}
        types = {}
        for qq in reversed(self.mro(q)):
            cc = self.classes.get(qq)
            if cc is None:
                continue
            for nm, ann, val in cc.fields:
                t = self.ann_class(cc.module, ann)
                if t:
                    types[nm] = t
            for f in cc.methods.values():
                if f.kind == "prop":
                    t = self.ann_class(cc.module, f.node.returns)
                    if t:
                        types[f.name] = t
                if f.kind != "method":
                    continue
                anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
                selfn = f.params[0] if f.params else "self"
                for st in ast.walk(f.node):
                    tgt = None
                    val = None
                    ann = None
                    if isinstance(st, ast.Assign) and len(st.targets) == 1:
                        tgt, val = st.targets[0], st.value
                    elif isinstance(st, ast.AnnAssign):
                        tgt, val, ann = st.target, st.value, st.annotation
                    if (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)
                            and tgt.value.id == selfn):
                        t = self.ann_class(cc.module, ann) if ann is not None else None
                        if t is None:
                            t = self._val_class(cc.module, val, anns)
                        if t:
                            types.setdefault(tgt.attr, t)
        c.attr_types = types
        return types

    def _val_class(self, m, val, anns):
        if val is None:
            return None
        if isinstance(val, ast.BoolOp):
            for v in val.values:
                t = self._val_class(m, v, anns)
                if t:
                    return t
            return None
        if isinstance(val, ast.IfExp):
            return self._val_class(m, val.body, anns) or self._val_class(m, val.orelse, anns)
        if isinstance(val, ast.Name) and val.id in anns:
            return self.ann_class(m, anns[val.id])
        if isinstance(val, ast.Call):
            r = self.resolve_expr(m, val.func)
            if r is not None and r[0] == "class":
                return r[1]
            if r is not None and r[0] == "func":
                f = self.funcs.get(r[1])
                if f is not None:
                    return self.ann_class(f.module, f.node.returns)
        return None
