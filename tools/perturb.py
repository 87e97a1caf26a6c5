"""Measure the contract comparison: behaviour-preserving rewrites must stay quiet, semantic mutations should be seen.

Works on in-memory syntax trees only (development aid; no check uses it).
"""
import ast
import copy
import difflib
import os
import random
import sys
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import contract as C  # noqa: E402
from sa import engine, prog, store  # noqa: E402


def fix(n):
    for x in ast.walk(n):
        if not hasattr(x, "lineno"):
            continue
    ast.fix_missing_locations(n)
    return n


def locals_of(fn):
    ps = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        ps.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        ps.add(fn.args.kwarg.arg)
    st = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return ps, st


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def blocks(fn):
    for x in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b


# ---------------------------------------------------------------- behaviour-preserving
def r_rename(fn, rnd):
    ps, st = locals_of(fn)
    free = sorted(st - ps)
    if not free:
        return None
    glob = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    m = {n: n + "_renamed" for n in free if n not in glob}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        if isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]
    return []


def r_invert(fn, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.If)]
    if not c:
        return None
    for x in c:
        x.test = ast.UnaryOp(ast.Not(), x.test)
        x.body, x.orelse = (x.orelse or [ast.Pass()]), x.body
    return []


def r_testvar(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            is_elif = f == "orelse" and isinstance(x, ast.If) and len(b) == 1 and isinstance(st, ast.If)
            if isinstance(st, ast.If) and not is_elif and not any(isinstance(z, ast.NamedExpr) for z in ast.walk(st.test)):
                nm = f"cond_{n}"
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], st.test))
                st.test = ast.Name(nm, ast.Load())
                n += 1
                i += 1
            i += 1
    return [] if n else None


def r_retvar(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, ast.Return) and st.value is not None:
                b.insert(i, ast.Assign([ast.Name("result_value", ast.Store())], st.value))
                st.value = ast.Name("result_value", ast.Load())
                n += 1
                i += 1
            i += 1
    return [] if n else None


def r_noop(fn, rnd):
    fn.body.insert(1 if len(fn.body) > 1 else 0, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))
    return []


def r_earlyelse(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, ast.If) and not st.orelse and i + 1 < len(b) and isinstance(
                    st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                st.orelse = b[i + 1:]
                del b[i + 1:]
                n += 1
                break
    return [] if n else None


def r_splitand(fn, rnd):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            vs = x.test.values
            x.test = vs[0]
            x.body = [ast.If(ast.BoolOp(ast.And(), vs[1:]) if len(vs) > 2 else vs[1], x.body, [])]
            n += 1
    return [] if n else None


def r_demorgan(fn, rnd):
    n = 0

    class V(ast.NodeTransformer):
        def visit_BoolOp(self, x):
            nonlocal n
            self.generic_visit(x)
            return x

        def visit_If(self, x):
            nonlocal n
            self.generic_visit(x)
            if isinstance(x.test, ast.BoolOp):
                n += 1
                op = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
                x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in x.test.values]))
            return x
    V().visit(fn)
    return [] if n else None


def mk_func(name, params, body):
    return ast.FunctionDef(name=name, args=ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []),
                           body=body, decorator_list=[], returns=None, type_params=[])


def has(n, *ty):
    return any(isinstance(x, ty) for x in ast.walk(n))


def r_extract_cond(fn, rnd):
    """if-tests become module-level private helpers."""
    ps, st = locals_of(fn)
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not has(x.test, ast.NamedExpr, ast.Lambda, ast.GeneratorExp, ast.ListComp,
                                             ast.Await) and not has(x.test, ast.Starred):
            used = sorted(names_in(x.test) & (ps | st))
            nm = f"_helper_cond_{len(out)}"
            out.append(mk_func(nm, used, [ast.Return(x.test)]))
            x.test = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
            if len(out) > 12:
                break
    return out or None


def assigned(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def r_extract_block(fn, rnd):
    """a pure-check statement (no local assignment, no return) becomes a helper."""
    ps, st = locals_of(fn)
    total = Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name))
    out = []
    for x, f, b in list(blocks(fn)):
        if x is not fn and rnd.random() < 0.3:
            continue
        for i, s in enumerate(b):
            if isinstance(s, (ast.If, ast.For, ast.Try, ast.Expr)) and not has(
                    s, ast.Return, ast.Break, ast.Continue, ast.NamedExpr, ast.Yield, ast.Global, ast.Nonlocal):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                a = assigned(s)
                here = Counter(x.id for x in ast.walk(s) if isinstance(x, ast.Name))
                rest = (a & ps) | {z for z in a if here[z] < total[z]} | {
                    x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                if rest or has(s, ast.FunctionDef, ast.Lambda):
                    continue
                if any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "super"
                       for z in ast.walk(s)):
                    continue
                used = sorted((names_in(s) - a) & (ps | st))
                handlers = {z.name for z in ast.walk(s) if isinstance(z, ast.ExceptHandler) and z.name}
                used = [u for u in used if u not in handlers]
                nm = f"_helper_block_{len(out)}"
                out.append(mk_func(nm, used, [s]))
                b[i] = ast.Expr(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))
                if len(out) > 10:
                    return out
    return out or None


def r_extract_assign(fn, rnd):
    """x = expr  ->  x = _helper(args)."""
    ps, st = locals_of(fn)
    out = []
    for x, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has(
                    s.value, ast.NamedExpr, ast.Yield, ast.Lambda) and has(s.value, ast.Call):
                if any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "super"
                       for z in ast.walk(s)):
                    continue
                comp = {y.id for z in ast.walk(s.value) if isinstance(z, ast.comprehension)
                        for y in ast.walk(z.target) if isinstance(y, ast.Name)}
                used = sorted((names_in(s.value) - comp) & (ps | st))
                nm = f"_helper_val_{len(out)}"
                out.append(mk_func(nm, used, [ast.Return(s.value)]))
                s.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
                if len(out) > 10:
                    return out
    return out or None


def r_extract_all(fn, rnd):
    """the whole body moves to a private helper taking the same parameters."""
    if has(fn, ast.Yield, ast.YieldFrom) or fn.args.vararg or fn.args.kwarg or fn.decorator_list:
        return None
    if any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "super" for z in ast.walk(fn)):
        return None
    ps = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    h = mk_func("_helper_body", ps, fn.body)
    fn.body = [ast.Return(ast.Call(ast.Name("_helper_body", ast.Load()), [ast.Name(u, ast.Load()) for u in ps], []))]
    return [h]


def r_tail(fn, rnd):
    """second half of the top-level body moves to a private helper."""
    if has(fn, ast.Yield, ast.YieldFrom):
        return None
    k = len(fn.body) // 2
    if k < 1:
        return None
    tail = fn.body[k:]
    if any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "super" for t in tail
           for z in ast.walk(t)):
        return None
    if any(isinstance(z, (ast.FunctionDef, ast.ClassDef)) for t in fn.body for z in ast.walk(t)):
        return None
    ps, st = locals_of(fn)
    head = set(ps)
    for s in fn.body[:k]:
        # only names assigned unconditionally
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            head |= assigned(s)
    maybe = set()
    for s in fn.body[:k]:
        maybe |= assigned(s)
    used = set()
    for t in tail:
        used |= names_in(t)
    if (used & maybe) - head:
        return None
    used = sorted(used & head)
    h = mk_func("_helper_tail", used, tail)
    fn.body = fn.body[:k] + [ast.Return(ast.Call(ast.Name("_helper_tail", ast.Load()),
                                                 [ast.Name(u, ast.Load()) for u in used], []))]
    return [h]


def r_loop_index(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute, ast.Subscript)):
                # for t in xs -> for i in range(len(xs)): t = xs[i]
                nm = f"idx_{n}"
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(copy.deepcopy(s.iter), ast.Name(nm, ast.Load()),
                                                                      ast.Load())))
                s.target = ast.Name(nm, ast.Store())
                s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [s.iter], [])],
                                  [])
                n += 1
    return [] if n else None


def r_loop_enum(fn, rnd):
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and not x.orelse and isinstance(x.iter, (ast.Name, ast.Attribute, ast.Subscript)):
            x.target = ast.Tuple([ast.Name("_pos", ast.Store()), x.target], ast.Store())
            x.iter = ast.Call(ast.Name("enumerate", ast.Load()), [x.iter], [])
            n += 1
    return [] if n else None


def r_loop_while(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Name, ast.Attribute)) and not has(
                    s, ast.Continue):
                nm = f"pos_{n}"
                n += 1
                body = [ast.Assign([s.target], ast.Subscript(copy.deepcopy(s.iter), ast.Name(nm, ast.Load()),
                                                             ast.Load()))] + s.body + [
                        ast.AugAssign(ast.Name(nm, ast.Store()), ast.Add(), ast.Constant(1))]
                w = ast.While(ast.Compare(ast.Name(nm, ast.Load()), [ast.Lt()], [
                    ast.Call(ast.Name("len", ast.Load()), [s.iter], [])]), body, [])
                b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.Constant(0)), w]
                i += 1
            i += 1
    return [] if n else None


def r_comp_loop(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None)
            if isinstance(s, ast.Assign) and isinstance(v, ast.ListComp) and len(v.generators) == 1 and isinstance(
                    s.targets[0], ast.Name) and s.targets[0].id not in names_in(v):
                g = v.generators[0]
                tgt = s.targets[0].id
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(tgt, ast.Load()), "append", ast.Load()), [v.elt], []))]
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                b[i:i + 1] = [ast.Assign([ast.Name(tgt, ast.Store())], ast.List([], ast.Load())),
                              ast.For(g.target, g.iter, inner, [])]
                n += 1
            i += 1
    return [] if n else None


def r_ternary(fn, rnd):
    n = 0
    for x, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                v = s.value
                if isinstance(s, ast.Return):
                    b[i] = ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
                else:
                    b[i] = ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)],
                                  [ast.Assign(s.targets, v.orelse)])
                n += 1
    return [] if n else None


def r_tmp_args(fn, rnd):
    """f(g(x)) -> t = g(x); f(t) for expression statements / assignments / returns."""
    n = 0
    for x, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call):
                for j, a in enumerate(v.args):
                    if isinstance(a, (ast.Call, ast.Subscript, ast.Attribute)):
                        nm = f"tmp_{n}"
                        n += 1
                        b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], a))
                        v.args[j] = ast.Name(nm, ast.Load())
                        i += 1
                        break
                    break
            i += 1
    return [] if n else None


def r_swap(fn, rnd):
    """swap adjacent independent local assignments."""
    n = 0
    for x, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name)
                   for z in (s, t)):
                a1, a2 = assigned(s), assigned(t)
                if a1 & names_in(t) or a2 & names_in(s):
                    continue
                b[i], b[i + 1] = t, s
                n += 1
                break
    return [] if n else None


def r_kw(fn, rnd, prg=None, mod=None):
    """positional -> keyword arguments on calls to repository functions."""
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and x.args and not any(
                isinstance(a, ast.Starred) for a in x.args):
            r = prg.resolve_expr(mod, x.func)
            if r and r[0] == "func":
                g = prg.funcs.get(r[1])
                if g is not None and g.kind == "func" and len(x.args) <= len(g.params) and not g.vararg:
                    ks = [ast.keyword(p, a) for p, a in zip(g.params, x.args)]
                    x.keywords = ks + x.keywords
                    x.args = []
                    n += 1
    return [] if n else None


def r_format(fn, rnd):
    """rewrite messages: f-strings inside raise/log become other strings."""
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call) and x.exc.args:
            x.exc.args[0] = ast.Constant("changed message")
            n += 1
    return [] if n else None


SAFE = [r_rename, r_invert, r_testvar, r_retvar, r_noop, r_earlyelse, r_splitand, r_demorgan, r_extract_cond,
        r_extract_block, r_extract_assign, r_extract_all, r_tail, r_loop_index, r_loop_enum, r_loop_while, r_comp_loop,
        r_ternary, r_tmp_args, r_swap, r_kw, r_format]


# ---------------------------------------------------------------- mutations
def m_noraise(fn, rnd):
    c = [(b, i) for x, f, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Raise)]
    if not c:
        return None
    b, i = rnd.choice(c)
    b[i] = ast.Pass()
    return []


def m_negate(fn, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.IfExp))]
    if not c:
        return None
    x = rnd.choice(c)
    x.test = ast.UnaryOp(ast.Not(), x.test)
    return []


def m_dropop(fn, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.BoolOp)]
    if not c:
        return None
    x = rnd.choice(c)
    x.values.pop(rnd.randrange(len(x.values)))
    if len(x.values) == 1:
        x.values.append(copy.deepcopy(x.values[0]))
    return []


def m_dropcall(fn, rnd):
    c = [(b, i) for x, f, b in blocks(fn) for i, s in enumerate(b)
         if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and not (
             isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name)
             and s.value.func.value.id in ("logging", "logger", "log"))]
    if not c:
        return None
    b, i = rnd.choice(c)
    b[i] = ast.Pass()
    return []


def m_cmp(fn, rnd):
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Compare)]
    if not c:
        return None
    x = rnd.choice(c)
    m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
         ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    x.ops[0] = m[type(x.ops[0])]()
    return []


def in_message(fn):
    skip = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Raise) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                x.func.value, ast.Name) and x.func.value.id in ("logging", "logger", "log")):
            skip |= {id(y) for y in ast.walk(x)}
        if isinstance(x, ast.JoinedStr):
            skip |= {id(y) for y in ast.walk(x)}
    for st in fn.body[:1]:
        if isinstance(st, ast.Expr):
            skip |= {id(y) for y in ast.walk(st)}
    return skip


def m_const(fn, rnd):
    sk = in_message(fn)
    for a in fn.args.defaults + fn.args.kw_defaults:
        if a is not None:
            sk |= {id(y) for y in ast.walk(a)}
    c = [x for b in fn.body for x in ast.walk(b) if isinstance(x, ast.Constant) and id(x) not in sk
         and isinstance(x.value, (int, str, bytes, bool))]
    # annotations
    for x in ast.walk(fn):
        if isinstance(x, ast.AnnAssign):
            ids = {id(y) for y in ast.walk(x.annotation)}
            c = [y for y in c if id(y) not in ids]
    if not c:
        return None
    x = rnd.choice(c)
    if isinstance(x.value, bool):
        x.value = not x.value
    elif isinstance(x.value, int):
        x.value += 1
    elif isinstance(x.value, bytes):
        x.value += b"\x01"
    else:
        x.value += "x"
    return []


def m_swapargs(fn, rnd):
    sk = in_message(fn)
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Call) and len(x.args) >= 2 and id(x) not in sk and
         ast.dump(x.args[0]) != ast.dump(x.args[1]) and not (isinstance(x.func, ast.Name) and x.func.id in (
             "isinstance", "getattr", "hasattr", "Union"))]
    if not c:
        return None
    x = rnd.choice(c)
    x.args[0], x.args[1] = x.args[1], x.args[0]
    return []


def m_dropkw(fn, rnd):
    sk = in_message(fn)
    c = [x for x in ast.walk(fn) if isinstance(x, ast.Call) and x.keywords and id(x) not in sk]
    if not c:
        return None
    x = rnd.choice(c)
    x.keywords.pop(rnd.randrange(len(x.keywords)))
    return []


def m_skipwhen(fn, rnd):
    """if c: body -> if c and <param>: body"""
    ps, st = locals_of(fn)
    ps = sorted(ps - {"self", "cls"})
    c = [x for x in ast.walk(fn) if isinstance(x, ast.If)]
    if not c or not ps:
        return None
    x = rnd.choice(c)
    x.test = ast.BoolOp(ast.And(), [x.test, ast.Attribute(ast.Name(rnd.choice(ps), ast.Load()), "zz", ast.Load())])
    return []


def m_wrongvar(fn, rnd):
    sk = in_message(fn)
    ps, st = locals_of(fn)
    ns = sorted((ps | st) - {"self", "cls"})
    c = [x for b in fn.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)
         and x.id in ps and id(x) not in sk and x.id not in ("self", "cls")]
    pp = sorted(ps - {"self", "cls"})
    if not c or len(pp) < 2:
        return None
    x = rnd.choice(c)
    x.id = rnd.choice([p for p in pp if p != x.id])
    return []


def m_swallow(fn, rnd):
    c = [(b, i) for x, f, b in blocks(fn) for i, s in enumerate(b)
         if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and not (
             isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name)
             and s.value.func.value.id in ("logging", "logger", "log"))]
    if not c:
        return None
    b, i = rnd.choice(c)
    b[i] = ast.Try([b[i]], [ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, [ast.Pass()])], [], [])
    return []


MUT = [m_noraise, m_negate, m_dropop, m_dropcall, m_cmp, m_const, m_swapargs, m_dropkw, m_skipwhen, m_wrongvar,
       m_swallow]


def main():
    root = "/repo"
    rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    maxrows = 120
    p = prog.Program(root)
    atoms = {q: f.params for q, f in p.funcs.items() if f.public}
    atoms["*private"] = [q for q in p.funcs if q not in atoms]
    e = engine.Engine(p, atoms)
    LEV = store.levels()
    which = SAFE if sys.argv[1] == "safe" else MUT
    if len(sys.argv) > 4:
        which = [x for x in which if x.__name__ in sys.argv[4].split(",")]
    tot, hit = Counter(), Counter()
    quals = [q for q in sorted(p.funcs) if q.split(".")[0] in ("mock_ca", "resources", "pq_logic")
             and pat in q]
    sample = float(os.environ.get("SAMPLE", "1"))
    verbose = os.environ.get("V")
    t0 = time.time()
    for q in quals:
        if rnd.random() > sample:
            continue
        f = p.funcs[q]
        try:
            base = C.from_rows(e.table(q, level=LEV.get(q, 0)))
        except engine.Budget:
            continue
        if len(base) > maxrows:
            continue
        C.self_filter(base)
        orig = f.node
        for tr in which:
            node = copy.deepcopy(orig)
            try:
                helpers = tr(node, rnd, p, f.module) if tr is r_kw else tr(node, rnd)
            except Exception as ex:
                print("TRANSFORM", tr.__name__, q, repr(ex))
                continue
            if helpers is None:
                continue
            fix(node)
            # keep positions harmless
            for x in ast.walk(node):
                if hasattr(x, "lineno") and x.lineno is None:
                    x.lineno = 1
            node = ast.parse(ast.unparse(node)).body[0]
            f.node = node
            added = []
            for h in helpers:
                fix(h)
                h = ast.parse(ast.unparse(h)).body[0]
                hq = f"{f.module.name}.{h.name}"
                hi = prog.FuncInfo(hq, h, f.module, None)
                p.funcs[hq] = hi
                f.module.funcs[h.name] = hi
                f.module.syms[h.name] = ("func", hq)
                added.append((hq, h.name))
            e._mut, e._pw = {}, {}
            try:
                rows = C.from_rows(e.table(q, level=LEV.get(q, 0)))
                fs, _ = C.compare(q, base, rows, C.ALL + ("BOOL",))
            except engine.Budget:
                fs = []
                rows = None
            f.node = orig
            for hq, hn in added:
                p.funcs.pop(hq, None)
                f.module.funcs.pop(hn, None)
                f.module.syms.pop(hn, None)
            tot[tr.__name__] += 1
            if fs:
                hit[tr.__name__] += 1
                for r in {x.rule for x in fs}:
                    hit[tr.__name__ + ":" + r] += 1
            show = bool(fs) if which[0] in SAFE else not fs
            if verbose and show:
                print("==", tr.__name__, q, [(x.rule, x.detail[:int(os.environ.get("W","200"))]) for x in fs][:2])
                if verbose == "3" and fs:
                    from sa import show as SH
                    print(ast.unparse(node)[:3000])
                    for h in helpers:
                        print(ast.unparse(h)[:1500])
                    for x in fs[:2]:
                        print("--- contract row\n" + SH.row(x.path), "\n--- path\n" + SH.row(x.site))
                if verbose == "4":
                    a = ast.unparse(orig).splitlines()
                    d = [x for x in difflib.unified_diff(a, ast.unparse(node).splitlines(), lineterm="", n=1)][3:]
                    print("\n".join(x[:170] for x in d[:14]))
                if verbose == "2":
                    print(ast.unparse(node)[:3000])
                    for h in helpers:
                        print(ast.unparse(h)[:800])
    print(f"{time.time()-t0:.0f}s")
    for k in sorted(tot):
        print(f"{k:20s} {hit[k]:5d}/{tot[k]:5d}", {r.split(':')[1]: v for r, v in hit.items() if r.startswith(k + ":")})
    print("TOTAL", sum(hit[k] for k in tot), "/", sum(tot.values()))


if __name__ == "__main__":
    main()
