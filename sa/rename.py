"""Names that changed consistently since the review: a renamed public function, class or instance attribute, and
definitions that moved to another module.

A new spelling that is used everywhere in place of the old one means the same program: the old name is put back in the
syntax trees before the analysis.  Only names that are gone altogether are replaced, by names that are new altogether.
"""
import ast


def idents(p):
    """Every identifier the program uses."""
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.alias):
                out.update(n.name.split("."))
                if n.asname:
                    out.add(n.asname)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
    return out


def attrs(p):
    """Per class the instance attributes its methods assign, in order of appearance."""
    out = {}
    for q, c in p.classes.items():
        seen = []
        for st in c.node.body:
            if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == "self" and n.attr not in seen:
                    seen.append(n.attr)
        if seen:
            out[q] = seen
    return out


def methods(p):
    return {q: sorted(c.methods) for q, c in p.classes.items()}


def collect(p):
    return {"idents": sorted(idents(p)), "attrs": attrs(p), "methods": methods(p)}


def adapt(p, atoms, ref):
    """Put reviewed names back where they were only respelt; returns {new name: reviewed name}."""
    have = idents(p)
    known = set(ref["idents"])
    gone, fresh = known - have, have - known
    subst = {}

    def pair(old, new):
        if old in gone and new in fresh and subst.get(new, old) == old and \
                all(v != old or k == new for k, v in subst.items()):
            subst[new] = old

    if gone and fresh:
        for q, ms in ref["methods"].items():
            if q not in p.classes:
                box = q.rsplit(".", 1)[0]
                cand = [x for x in p.classes if x.rsplit(".", 1)[0] == box and x not in ref["methods"]
                        and sorted(p.classes[x].methods) == ms]
                if len(cand) == 1:
                    pair(q.rsplit(".", 1)[1], cand[0].rsplit(".", 1)[1])
        for q in atoms:
            if q.startswith("*") or q in p.funcs:
                continue
            box = q.rsplit(".", 1)[0]
            cand = [x for x, f in p.funcs.items() if x.rsplit(".", 1)[0] == box and x not in atoms
                    and x not in atoms["*private"] and f.params == atoms[q]]
            lost = [x for x in atoms if not x.startswith("*") and x not in p.funcs and x.rsplit(".", 1)[0] == box
                    and atoms[x] == atoms[q]]
            if len(cand) == 1 and len(lost) == 1:
                pair(q.rsplit(".", 1)[1], cand[0].rsplit(".", 1)[1])
        now = attrs(p)
        for q, old in ref["attrs"].items():
            new = now.get(q, [])
            a, b = [x for x in old if x not in new], [x for x in new if x not in old]
            if len(a) == len(b):
                for x, y in zip(a, b):
                    pair(x, y)
    if subst:
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name):
                    n.id = subst.get(n.id, n.id)
                elif isinstance(n, ast.Attribute):
                    n.attr = subst.get(n.attr, n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    n.name = subst.get(n.name, n.name)
                elif isinstance(n, ast.alias):
                    n.name = ".".join(subst.get(x, x) for x in n.name.split("."))
                    if n.asname:
                        n.asname = subst.get(n.asname, n.asname)
        p.collect()
    # definitions that live in another module now, and are imported back
    for q in [*atoms, *atoms["*private"]]:
        if q.startswith("*") or q in p.funcs:
            continue
        head, name = q.rsplit(".", 1)
        if head not in p.modules:
            continue
        r = p.resolve(p.modules[head], name)
        if r is not None and r[0] == "func" and r[1] not in atoms and r[1] not in atoms["*private"]:
            p.move(r[1], q)
            subst[r[1]] = q
    return subst
