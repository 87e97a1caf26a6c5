"""Path contracts: the reviewed path table of a function on the reference tree, and the comparison of a new tree
against it.

A contract row is a path class  (branch facts, disjunctions) -> (exit kind, completed guard calls, value, effects).
A new tree's path j is *compatible* with a contract row i when its facts do not contradict the row's facts.  Rules:

  REJECT   no accepting path of the new tree may be compatible with a rejecting contract row
  ACCEPT   no rejecting path of the new tree may be compatible with an accepting contract row
  GUARD    every accepting path performs each verification / state change of each compatible contract row
  ORDER    ... in the contract's relative order of (guard, effect)
  EFFECT   no path performs a state change that no compatible contract row performs
  VALUE    the returned / stored term equals that of some compatible contract row
  ERROR    the exception class / failInfo equals that of some compatible contract row
"""
import ast
import base64
import json

from . import engine as E
from .show import T, L, row as show_row

ALL = ("REJECT", "ACCEPT", "GUARD", "ORDER", "EFFECT", "VALUE", "ERROR")

EFFECT_NAMES = ("change_cert_state", "mark_as_revoked", "revive_cert", "add_", "remove_", "remove", "append", "extend",
                "clear", "pop", "update", "process_after_request", "process_stfl", "may_update", "increment", "insert",
                "set_", "discard", "del", "setdefault")
GUARD_NAMES = E.GUARD_PREFIX


# ------------------------------------------------------------ serialisation
def clean(t):
    """Remove process-dependent parts of a term."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "closure":
            return ("unk", "closure")
        return tuple(clean(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(clean(x) for x in t)
    return t


def enc(t):
    if isinstance(t, tuple):
        return [enc(x) for x in t]
    if isinstance(t, frozenset):
        return {"f": sorted((enc(x) for x in t), key=lambda z: json.dumps(z, sort_keys=True))}
    if isinstance(t, bytes):
        return {"b": base64.b64encode(t).decode()}
    if t is None or isinstance(t, (bool, int, str, float)):
        return t
    return {"x": repr(t)}


def dec(o):
    if isinstance(o, list):
        return tuple(dec(x) for x in o)
    if isinstance(o, dict):
        if "f" in o:
            return frozenset(dec(x) for x in o["f"])
        if "b" in o:
            return base64.b64decode(o["b"])
        return ("unk", o["x"])
    return o


class CRow:
    __slots__ = ("kind", "lits", "dis", "did", "value", "heap", "line", "didset", "skip", "allow", "murky")

    def __init__(self, kind, lits, dis, did, value, heap, line=0):
        self.kind = kind
        self.lits = lits
        self.dis = dis
        self.did = did
        self.value = value
        self.heap = heap
        self.line = line
        self.didset = set(did)
        self.murky = None
        self.skip = set()
        self.allow = None


def from_rows(rows):
    out = []
    for r in rows:
        lits = {clean(a): p for a, p in r.lits.items() if not has_unk(a)}
        dis = []
        for d in r.dis:
            if any(has_unk(a) for alt in d for a, _ in alt):
                continue
            dis.append(clean(d))
        out.append(CRow(r.kind, lits, tuple(dis), tuple(clean(x) for x in r.did),
                        clean(r.value) if r.value is not None else None,
                        {clean(k): clean(v) for k, v in r.heap.items()}, r.line))
    return out


def has_unk(t):
    if isinstance(t, tuple):
        if t and t[0] in ("unk", "closure", "missing", "lambda"):
            return True
        return any(has_unk(x) for x in t)
    if isinstance(t, frozenset):
        return any(has_unk(x) for x in t)
    return False


def row_json(r):
    return {"k": r.kind, "l": [[enc(a), p] for a, p in r.lits.items()], "d": [enc(x) for x in r.dis],
            "c": [enc(x) for x in r.did], "v": enc(r.value), "h": [[enc(k), enc(v)] for k, v in r.heap.items()]}


def row_load(o):
    return CRow(o["k"], {dec(a): p for a, p in o["l"]}, tuple(dec(x) for x in o["d"]), tuple(dec(x) for x in o["c"]),
                dec(o["v"]), {dec(k): dec(v) for k, v in o["h"]})


# ------------------------------------------------------------ compatibility
def compatible(a, b, handled=None):
    """May the facts of contract row a and path b hold together?

    `handled`: calls whose failure the contract itself tells apart; for any other call, a path on which the call
    failed is judged against the contract rows on which the call completed.
    """
    lits = dict(a.lits)
    for at, p in b.lits.items():
        if E.lit_conflict(lits, at, p):
            return False
        lits[at] = p
    for x, y in ((a, b), (b, a)):
        for at, p in x.lits.items():
            if at[0] == "fail" and p and at[1] in y.didset and not (
                    handled is not None and x is b and at[1] not in handled):
                return False
    for x, y in ((a, b), (b, a)):
        for d in x.dis:
            alive = False
            for alt in d:
                ok = True
                for at, p in alt:
                    if E.lit_conflict(lits, at, p):
                        ok = False
                        break
                    if at[0] == "fail" and p and (at[1] in y.didset or at[1] in x.didset) and not (
                            handled is not None and x is b and at[1] not in handled):
                        ok = False
                        break
                if ok:
                    alive = True
                    break
            if not alive:
                return False
    clauses = [d for d in a.dis + b.dis]
    if clauses and len(clauses) < 24 and any(at[0] == "exists" for at in lits):
        did = a.didset | b.didset
        return satisfiable(lits, clauses, did if handled is None else {d for d in did if d in handled} | b.didset, [200])
    return True


def satisfiable(lits, clauses, did, budget):
    """Can the literals hold together with one alternative of each clause (case split; yes when out of budget)?"""
    lits = dict(lits)
    todo = list(clauses)
    while todo:
        rest = []
        grown = False
        for d in todo:
            alive = []
            for alt in d:
                if all(lits.get(at) == p for at, p in alt):
                    alive = None
                    break
                if not any(at[0] == "fail" and p and at[1] in did for at, p in alt) and consistent(lits, alt):
                    alive.append(alt)
            if alive is None:
                continue
            budget[0] -= 1
            if not alive:
                return False
            if len(alive) == 1:
                for at, p in alive[0]:
                    lits[at] = p
                grown = True
            else:
                rest.append(alive)
        todo = rest
        if not grown:
            break
    if budget[0] <= 0:
        return True
    if not todo:
        return True
    todo.sort(key=len)
    for alt in todo[0]:
        n = dict(lits)
        n.update(alt)
        if satisfiable(n, todo[1:], did, budget):
            return True
    return False


def murky(row):
    """Conditions too deep for the case analysis ("no element for which one of ..."):
    of the contract rows that seem possible only those with the same outcome are then held against the path."""
    r = row.murky
    if r is None:
        r = row.murky = any(
            x[0] == "dis"
            for at in [*row.lits, *(y[0] for d in row.dis for alt in d for y in alt)] if at[0] == "exists"
            for x in at[2])
    return r


def consistent(lits, alt):
    d = None
    for at, p in alt:
        if E.lit_conflict(d or lits, at, p):
            return False
        if len(alt) > 1:
            if d is None:
                d = dict(lits)
            d[at] = p
    return True


# ------------------------------------------------------------ term comparison
def alts(t):
    if isinstance(t, tuple) and t and t[0] == "phi":
        return list(t[1])
    return [t]


def term_match(new, old):
    """Does a new term agree with (some alternative of) a contract term?"""
    if new == old:
        return True
    if has_unk(new) or has_unk(old):
        return True
    na, oa = alts(new), alts(old)
    if len(na) > 1 or len(oa) > 1:
        return all(any(sub_match(n, o) for o in oa) for n in na)
    return sub_match(new, old)


def sub_match(n, o):
    """Structural equality where a phi on either side matches any of its alternatives."""
    if n == o:
        return True
    if isinstance(n, tuple) and n and n[0] == "phi":
        return all(sub_match(x, o) for x in n[1])
    if isinstance(o, tuple) and o and o[0] == "phi":
        return any(sub_match(n, x) for x in o[1])
    if isinstance(n, tuple) and isinstance(o, tuple):
        if len(n) == len(o):
            return all(sub_match(x, y) for x, y in zip(n, o))
        n, o = (x if len(x) == 3 else ("item", x[1], x[3][0][1]) if E.table_read(x) else None for x in (n, o))
        if n and o and n[0] == o[0] == "item":      # TABLE.get(k), TABLE[k]
            return sub_match(n[1], o[1]) and sub_match(n[2], o[2])
    return False


def any_match(n, o):
    """Structural equality where a phi on either side may stand for any of its alternatives."""
    if n == o:
        return True
    if isinstance(n, tuple) and n and n[0] == "phi":
        return any(any_match(x, o) for x in n[1])
    if isinstance(o, tuple) and o and o[0] == "phi":
        return any(any_match(n, x) for x in o[1])
    if isinstance(n, tuple) and isinstance(o, tuple) and len(n) == len(o):
        return all(any_match(x, y) for x, y in zip(n, o))
    return False


def is_guard(d):
    return E.is_guard_name(E.did_name(d))


def is_effect(d):
    if d[0] == "each":
        return is_effect(d[3])
    if d[0] == "set":
        return False
    nm = E.did_name(d)
    return nm.startswith(EFFECT_NAMES) and not nm.startswith("update_") or nm in ("del",)


def local_effect(d):
    """An effect on a container created in the function itself (not observable)."""
    if d[0] == "each":
        return local_effect(d[3])
    if d[0] == "mcall":
        r = d[1]
        while isinstance(r, tuple) and r and (r[0] in ("attr", "item") or r[0] == "acc" and r[2][:1] == ("call",)):
            r = r[1] if r[0] != "acc" else r[2]
        return isinstance(r, tuple) and r and r[0] in ("list", "dict", "set", "tuple", "acc", "map", "unk")
    return False


def condition_calls(rows):
    """Calls whose outcome the rows branch on (the REJECT, ACCEPT and VALUE rules judge those); an effect is never
    one of them."""
    atoms = set()
    for r in rows:
        if "REJECT" in r.skip or "ACCEPT" in r.skip:
            continue
        atoms |= set(r.lits)
        for d in r.dis:
            atoms |= {a for alt in d for a, _ in alt}
    return {a[1] for a in atoms if a[0] in ("truth", "vals") and isinstance(a[1], tuple)
            and a[1] and a[1][0] in ("call", "mcall") and not is_effect(a[1])}


def each_implied(g, d, lits):
    """An effect done for each element with `d`'s condition covers `g`'s elements: every further literal of d's
    condition holds for all of them, as the path excludes an element that violates it."""
    if d[1] != g[1] or not any_match(d[3], g[3]):
        return False
    extra = [x for x in d[2] if x not in g[2]]
    if len(extra) > 3:
        return False
    for a, p in extra:
        if a == "dis":
            return False
        if not any(p2 is False and at[0] == "exists" and at[1] == d[1] and (a, not p) in at[2] and all(
                y in d[2] or y in g[2] for y in at[2] if y != (a, not p)) for at, p2 in lits):
            return False
    return True


def find_did(g, row, other=None):
    if g in row.didset:
        return True
    if g[0] == "each":
        lits = list(row.lits.items()) + (list(other.lits.items()) if other is not None else [])
        for d in row.did:
            if d[0] == "each" and E.did_name(d) == E.did_name(g) and each_implied(g, d, lits):
                return True
    for d in row.did:
        if E.did_name(d) == E.did_name(g) and any_match(d, g):
            return True
    if has_unk(g):
        nm = E.did_name(g)
        return any(E.did_name(d) == nm for d in row.did)
    nm = E.did_name(g)
    ds = [d for d in row.did if E.did_name(d) == nm]
    return any(has_unk(d) for d in ds) or bool(ds) and any(same_under(any_match, d, g, row, other) for d in ds)


class Finding:
    def __init__(self, func, rule, detail, line, path, site):
        self.func = func
        self.rule = rule
        self.detail = detail
        self.line = line
        self.path = path
        self.site = site

    def key(self):
        return f"{self.func}|{self.rule}|{self.detail}"


def exc_sig(v):
    if v is None or v[0] != "exc":
        return ("?", None)
    return (str(v[1]).split(".")[-1], v[2])


def compare(func, old, new, rules=ALL, enforce=None):
    """Findings of the new table against the contract rows."""
    res = []
    seen = set()
    stats = {"pairs": 0, "obligations": 0}

    def add(rule, detail, j, i):
        k = (rule, detail)
        if k in seen:
            return
        seen.add(k)
        res.append(Finding(func, rule, detail, j.line, i, j))

    handled = {a[1] for i in old for a in i.lits if a[0] == "fail"}
    for i in old:
        for d in i.dis:
            handled |= {a[1] for alt in d for a, _ in alt if a[0] == "fail"}
    og, ng = [r for r in old if r.kind == "loop"], [r for r in new if r.kind == "loop"]
    old, new = [r for r in old if r.kind != "loop"], [r for r in new if r.kind != "loop"]
    if "VALUE" in rules:
        loops(og, ng, add, stats, lambda a, b: same_tables(old + og, new + ng, a, b))
    decided = condition_calls(old)
    compat = [[i for i in range(len(old)) if compatible(old[i], j, handled)] for j in new]
    for jn, j in enumerate(new):
        cs = [old[i] for i in compat[jn]]
        stats["pairs"] += len(old)
        if j.kind == "return" and ("GUARD" in rules or "REJECT" in rules):
            swallowed(j, cs, old, handled, add, stats)
        if len(cs) > 1 and (murky(j) or any(murky(i) for i in cs)):
            cs = [i for i in cs if i.kind == j.kind and not contradict(i.value, j.value)] or cs
        if not cs:
            continue
        if j.kind == "return":
            for i in cs:
                if i.kind == "raise":
                    if "REJECT" in rules and "REJECT" not in i.skip:
                        stats["obligations"] += 1
                        add("REJECT", f"a path that must be rejected ({exc_sig(i.value)[0]}) is accepted: "
                            + cond_text(i), j, i)
                    continue
                if "GUARD" in rules:
                    for g in i.did:
                        if not is_guard(g) or local_effect(g) or g in decided:
                            continue
                        if g in handled and any(p and a[0] == "fail" and i.lits.get(a) for a, p in j.lits.items()):
                            continue      # another call of the same attempt failed before it
                        if ("GUARD", g) in i.skip:
                            if ("GNAME", g) not in i.skip:
                                stats["obligations"] += 1
                                if not any(E.did_name(d) == E.did_name(g) for d in j.did):
                                    add("GUARD", f"an accepting path does not perform {T(g)}", j, i)
                            continue
                        stats["obligations"] += 1
                        if not find_did(g, j, i):
                            add("GUARD", f"an accepting path does not perform {T(g)}", j, i)
                if "ORDER" in rules:
                    for a, b in order_pairs(i):
                        if ("ORDER", a, b) in i.skip:
                            continue
                        stats["obligations"] += 1
                        if a in j.didset and b in j.didset and j.did.index(a) > j.did.index(b):
                            add("ORDER", f"{T(b)} happens before {T(a)}", j, i)
            rets = [i for i in cs if i.kind == "return"]
            if "VALUE" in rules and rets and not any("VALUE" in i.skip for i in rets):
                stats["obligations"] += 1
                if not any(same_under(term_match, j.value, i.value, i, j) for i in rets):
                    if len(alts(j.value)) > 1 and all(any(term_match(x, i.value) for i in rets) for x in alts(j.value)):
                        pass
                    else:
                        add("VALUE", f"returns {T(j.value)} instead of {T(rets[0].value)}", j, rets[0])
            if ("VALUE" in rules or "BOOL" in rules) and rets and E.is_const(j.value) and isinstance(
                    j.value[1], bool) and "VALUE" not in rules and not any("VALUE" in i.skip for i in rets):
                stats["obligations"] += 1
                if not any(i.value == j.value or not E.is_const(i.value) for i in rets):
                    add("BOOL", f"returns {j.value[1]} where the contract returns {T(rets[0].value)}: "
                        + cond_text(rets[0]), j, rets[0])
            elif "BOOL" in rules and rets:
                # both-sided: every boolean contract row compatible must agree
                pass
            if "BOOL" in rules or "VALUE" in rules:
                for i in rets:
                    if "BOOL" not in i.skip and contradict(i.value, j.value):
                        add("BOOL", f"returns {T(j.value)} where the contract returns {T(i.value)}: "
                            + cond_text(i), j, i)
            if "VALUE" in rules:
                for i in rets:
                    strict(i, j, add, stats)
            if "VALUE" in rules and rets:
                locs = {}
                for i in rets:
                    for k in i.heap:
                        locs.setdefault(k, []).append(i)
                for k, ii in locs.items():
                    if len(ii) != len(rets) or any(("HEAP", k) in i.skip for i in ii):
                        continue
                    if has_unk(k):
                        continue
                    stats["obligations"] += 1
                    if k not in j.heap:
                        if not any(has_unk(x) for x in j.heap) and not any(term_match(k, i.heap[k]) for i in ii) \
                                and not any(any_match(x, k) for x in j.heap):
                            add("VALUE", f"does not set {T(k)}", j, ii[0])
                    elif not all(any(same_under(term_match, x, i.heap[k], i, j) for i in ii) for x in alts(j.heap[k])):
                        add("VALUE", f"sets {T(k)} to {T(j.heap[k])} instead of {T(ii[0].heap[k])}", j, ii[0])
        else:
            for i in cs:
                if i.kind == "return" and "ACCEPT" in rules and "ACCEPT" not in i.skip:
                    stats["obligations"] += 1
                    add("ACCEPT", f"a path that must be accepted is rejected ({exc_sig(j.value)[0]}): "
                        + cond_text(i), j, i)
            rr = [i for i in cs if i.kind == "raise"]
            if "ERROR" in rules and rr and not any("ERROR" in i.skip for i in rr):
                stats["obligations"] += 1
                sigs = {exc_sig(i.value) for i in rr}
                sg = exc_sig(j.value)
                if sg not in sigs and sg[0] != "?" and not any(s[0] == "?" for s in sigs):
                    add("ERROR", f"raises {sg[0]}({T(sg[1]) if sg[1] else ''}) instead of "
                        + ", ".join(sorted(f"{s[0]}({T(s[1]) if s[1] else ''})" for s in sigs)), j, rr[0])
        if "EFFECT" in rules:
            same = [i for i in cs if i.kind == j.kind]
            if same and not any("EFFECT" in i.skip for i in same):
                for d in j.did:
                    if not is_effect(d) or local_effect(d) or has_unk(d):
                        continue
                    stats["obligations"] += 1
                    if not any(find_did(d, i, j) for i in same):
                        add("EFFECT", f"on a {j.kind} path performs {T(d)}", j, same[0])
    if "REJECT" in rules and new:
        hit = {k for jn, j in enumerate(new) if j.kind == "raise" for k in compat[jn]}
        for k, i in enumerate(old):
            if i.kind == "raise" and k not in hit:
                stats["obligations"] += 1
                add("REJECT", f"no path is rejected ({exc_sig(i.value)[0]}) any more under: " + cond_text(i), new[0], i)
    return res, stats


def swallowed(j, cs, old, handled, add, stats):
    """The path goes on as if a call had succeeded that failed: every contract row with the path's outcome and its
    other conditions has that call completed."""
    for at, p in j.lits.items():
        if at[0] != "fail" or not p or at[1] not in handled or at[1] in j.didset or has_unk(at[1]):
            continue
        if any(i.kind == j.kind for i in cs):
            continue
        k = CRow(j.kind, {a: q for a, q in j.lits.items() if a != at}, j.dis, j.did, j.value, j.heap, j.line)
        rest = [i for i in old if compatible(i, k)]
        same = [i for i in rest if i.kind == j.kind and term_match(j.value, i.value)]
        stats["obligations"] += 1
        if same and all(at[1] in i.didset for i in same) and not any(i.kind == j.kind and i not in same for i in rest):
            add("GUARD", f"goes on as if {T(at[1])} had not failed", j, same[0])


ABSENT = ("absent",)


def allow(i, j):
    """On the reference table: what is returned or stored under conditions that can hold together with row i's."""
    a = i.allow
    if a is None:
        a = i.allow = {"value": [], "heap": {}, "n": 0}
    if not any(x == j.value for x in a["value"]):
        a["value"].append(j.value)
    for k, v in j.heap.items():
        vs = a["heap"].setdefault(k, [ABSENT] * (a["n"] > 0))
        if v not in vs:
            vs.append(v)
    for k, vs in a["heap"].items():
        if k not in j.heap and ABSENT not in vs:
            vs.append(ABSENT)
    a["n"] += 1


def strict(i, j, add, stats):
    """Every contract row whose condition can hold together with the path's agrees with what the path returns and
    stores (up to what the contract itself leaves open under that condition)."""
    if i.allow is None:
        return
    stats["obligations"] += 1
    if not any(same_under(loose, x, v, i, j) for v in i.allow["value"] for x in [j.value] + alts(j.value)):
        add("VALUE", f"returns {T(j.value)} where the contract returns {T(i.value)}: " + cond_text(i), j, i)
    for k, v in i.heap.items():
        vs = i.allow["heap"][k]
        if ABSENT in vs or has_unk(k):
            continue
        stats["obligations"] += 1
        if k not in j.heap:
            if not any(has_unk(x) for x in j.heap) and not any(term_match(k, w) for w in vs) \
                    and not any(any_match(x, k) for x in j.heap):
                add("VALUE", f"does not set {T(k)}: " + cond_text(i), j, i)
        elif not any(same_under(loose, x, w, i, j) for w in vs for x in [j.heap[k]] + alts(j.heap[k])):
            add("VALUE", f"sets {T(k)} to {T(j.heap[k])} instead of {T(v)}: " + cond_text(i), j, i)


def known(*rows):
    """Terms whose value the conditions of the rows fix."""
    m = {}
    for r in rows:
        if r is None:
            continue
        for at, p in r.lits.items():
            if p and at[0] == "vals" and len(at[2]) == 1 and isinstance(at[1], tuple):
                x = next(iter(at[2]))
                m[at[1]] = x if isinstance(x, tuple) else ("const", x)
            elif at[0] in ("vals", "truth") and p == (at[0] == "truth") and (at[0] == "truth" or None in at[2]):
                t = at[1]      # d.get(k), which is there: d[k]
                if isinstance(t, tuple) and t[0] == "mcall" and t[2] == "get" and len(t[3]) == 1:
                    m[t] = ("item", t[1], t[3][0][1])
            elif at[0] == "in" and p and isinstance(at[2], tuple) and at[2][0] == "glob" and at[2][1] in E.TABLES:
                m[("mcall", at[2], "get", (("0", at[1]),))] = ("item", at[2], at[1])
    return m


def resolve(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        r = tuple(resolve(x, m) for x in t)
        return r if r != t else t
    if isinstance(t, frozenset):
        return frozenset(resolve(x, m) for x in t)
    return t


def same_under(test, n, o, *rows):
    """`test` on two terms, as they are or with the values the rows' conditions fix put in."""
    if test(n, o):
        return True
    m = known(*rows)
    if not m:
        return False
    a, b = resolve(n, m), resolve(o, m)
    return (a != n or b != o) and test(a, b)


def loose(n, o):
    return term_match(n, o) or any_match(n, o)


def loops(og, ng, add, stats, whole=None):
    """What an iteration does to each variable it carries: every update of the contract is matched, under a condition
    that can hold together with the contract's, and so is every update of the new loop."""
    nk = {r.value[1]: r for r in ng}
    ok = {r.value[1] for r in og}
    for r in og:
        n = nk.get(r.value[1])
        if n is None:
            init_change(r, ng, ok, whole, add)
        if n is None or len(n.value[2]) < len(r.value[2]):
            continue
        for g in sorted(r.value[2], key=E.skey):
            stats["obligations"] += 1
            if not any(gate_match(g, h) for h in n.value[2]):
                add("VALUE", f"a loop over {T(r.value[1][1])} changes {T(r.value[1])} to "
                    + " or ".join(T(v) for v in sorted({v for h in n.value[2] for _, v in h}, key=E.skey))[:200]
                    + " instead of " + " or ".join(T(v) for v in sorted({v for _, v in g}, key=E.skey))[:200], n, r)
                break
        else:
            bound_change(r, n, add)


def same_tables(old, new, a, b):
    """Are the tables equal once the term b of the new one is read as a?"""
    def key(r, fn):
        return (r.kind, fn(frozenset(r.lits.items())), fn(tuple(r.dis)), fn(tuple(r.did)), fn(r.value),
                fn(tuple(sorted(r.heap.items(), key=E.skey)) if isinstance(r.heap, dict) else r.heap))
    return {key(r, lambda x: x) for r in old} == {key(r, lambda x: swap(x, b, a)) for r in new}


def swap(x, b, a):
    if x == b:
        return a
    if isinstance(x, tuple):
        return tuple(swap(y, b, a) for y in x)
    if isinstance(x, frozenset):
        return frozenset(swap(y, b, a) for y in x)
    return x


def bound_change(r, n, add):
    """The same two terms bound a loop, with the other side of the boundary included."""
    for g in r.value[2]:
        for h in n.value[2]:
            for c, v in g - h:
                for d, w in h - g:
                    x, y = c - d, d - c
                    if v != w or len(x) != 1 or len(y) != 1:
                        continue
                    ((a, p),), ((b, q),) = x, y
                    if a[0] == b[0] == "lt" and p != q and a[1:] == b[:0:-1]:
                        add("VALUE", f"a loop goes on as {T(v)} if {E_lit(b, q)} instead of if {E_lit(a, p)}", n, r)
                        return


def E_lit(a, p):
    return T(a) if p else "not " + T(a)


def init_change(r, ng, known, whole, add):
    """Only the constant a loop's variable starts from differs: the tables are the same once it is put back."""
    if not E.is_const(r.value[1][2]) or whole is None:
        return
    for n in ng:
        if n.value[1] in known or n.value[1][1] != r.value[1][1] or not E.is_const(n.value[1][2]):
            continue
        if whole(r.value[1], n.value[1]):
            add("VALUE", f"a loop's variable starts from {T(n.value[1][2])} instead of {T(r.value[1][2])}", n, r)
            return


def gate_match(old, new):
    if old == new:
        return True
    for xs, ys in ((old, new), (new, old)):
        for c, v in xs:
            d = dict(c)
            if not any((term_match(v, w) if xs is new else term_match(w, v)) and not any(
                    E.lit_conflict(d, a, p) for a, p in e) for e, w in ys):
                return False
    return True


NONNULL = ("list", "dict", "set", "tuple", "map", "fstr", "add", "bin", "slice", "lt", "eq", "not")


def vkind(t):
    if E.is_const(t):
        return ("c", type(t[1]).__name__, t[1])
    if isinstance(t, tuple) and t and t[0] in NONNULL:
        return ("v",)
    x = t
    while isinstance(x, tuple) and x and x[0] in ("attr", "item"):
        x = x[1]
    if isinstance(x, tuple) and x and x[0] == "wit":
        return ("v",)
    return None


def contradict(a, b):
    """Can the two returned terms not be the same value?  Constants that differ, or None against a built value."""
    x, y = vkind(a), vkind(b)
    if x is None or y is None or x == y:
        return False
    if x[0] == "c" and y[0] == "c":
        return True
    c = x if x[0] == "c" else y
    return c[2] is None


def order_pairs(i):
    gs = [d for d in i.did if is_guard(d) and not local_effect(d)]
    out = []
    for n, a in enumerate(gs):
        for b in gs[n + 1:]:
            if is_effect(b) or is_effect(a):
                ra, rb = fresh_root(a), fresh_root(b)
                if ra != rb and (ra or not is_effect(a)) and (rb or not is_effect(b)):
                    continue      # an effect on an object of its own: nothing else can tell
                if a[0] == "each" and b[0] == "each" and a[1] == b[1] and exclusive(a[2], b[2]):
                    continue
                out.append((a, b))
    return out


def exclusive(a, b):
    d = {x[0]: x[1] for x in a if x[0] != "dis"}
    return any(x[0] != "dis" and E.lit_conflict(d, x[0], x[1]) for x in b)


def fresh_root(d):
    """The library object just created on whose method chain the call is made (None for any other object)."""
    r = d[3] if d[0] == "each" else d
    if r[0] != "mcall":
        return None
    while isinstance(r, tuple) and r and r[0] in ("attr", "item", "mcall"):
        r = r[1]
    return r if isinstance(r, tuple) and r and r[0] == "call" and E.did_name(r)[:1].isupper() else None


def cond_text(i):
    cs = [L(a, p) for a, p in list(i.lits.items())[-3:]]
    return " & ".join(cs)[:300] if cs else "(unconditional)"


def self_filter(rows):
    """Mark what does not hold on the reference table itself (imprecision), so it is never enforced."""
    skipped = 0
    rows = [r for r in rows if r.kind != "loop"]
    for jn, j in enumerate(rows):
        cs = [i for i in rows if compatible(i, j)]
        rets = [i for i in cs if i.kind == "return"]
        for i in cs:
            if i.kind == "raise" and j.kind == "return":
                i.skip.add("REJECT")
                j.skip.add("ACCEPT")
                skipped += 1
            if i.kind == "return" and j.kind == "return":
                allow(i, j)
                for g in i.did:
                    if is_guard(g) and not local_effect(g) and not find_did(g, j, i):
                        i.skip.add(("GUARD", g))
                        skipped += 1
                        if not any(E.did_name(d) == E.did_name(g) for d in j.did):
                            i.skip.add(("GNAME", g))
                for a, b in order_pairs(i):
                    if a in j.didset and b in j.didset and j.did.index(a) > j.did.index(b):
                        i.skip.add(("ORDER", a, b))
                if contradict(i.value, j.value):
                    i.skip.add("BOOL")
                    skipped += 1
        if j.kind == "return":
            for i in rets:
                for k in i.heap:
                    if k not in j.heap and all(k in x.heap for x in rets):
                        i.skip.add(("HEAP", k))
    return skipped
