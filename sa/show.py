"""Pretty-printing of terms, literals and rows."""


def T(t, d=0):
    if not isinstance(t, (tuple, frozenset)):
        return repr(t)
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(T(x) for x in t)) + "}"
    if not t:
        return "()"
    k = t[0]
    try:
        if k == "const":
            return repr(t[1])
        if k == "param":
            return t[1]
        if k == "attr":
            return f"{T(t[1])}.{t[2]}"
        if k == "item":
            return f"{T(t[1])}[{T(t[2])}]"
        if k == "call":
            return f"{str(t[1]).split('.')[-1]}({', '.join(f'{a}={T(v)}' for a, v in t[2])})"
        if k == "mcall":
            return f"{T(t[1])}.{t[2]}({', '.join(f'{a}={T(v)}' for a, v in t[3])})"
        if k == "new":
            return f"new {str(t[1]).split('.')[-1]}({', '.join(f'{a}={T(v)}' for a, v in t[2])})"
        if k in ("list", "tuple", "set"):
            return f"{k}[" + ", ".join(T(x) for x in t[1]) + "]"
        if k == "B":
            return L(t[1], t[2])
        if k == "phi":
            return "phi" + T(t[1])
    except Exception:
        pass
    return "(" + " ".join(T(x) if isinstance(x, (tuple, frozenset)) else str(x) for x in t) + ")"


def L(a, p):
    n = "" if p else "NOT "
    k = a[0]
    if k == "eq":
        return f"{T(a[1])} {'==' if p else '!='} {T(a[2])}"
    if k == "vals":
        return f"{T(a[1])} {'in' if p else 'not in'} {{{', '.join(sorted(map(repr, a[2])))}}}"
    if k == "truth":
        return n + T(a[1])
    if k == "inst":
        return f"{n}isinstance({T(a[1])}, {'|'.join(sorted(str(x).split('.')[-1] for x in a[2]))})"
    if k == "lt":
        return f"{T(a[1])} {'<' if p else '>='} {T(a[2])}"
    if k == "fail":
        return f"{n}FAIL[{T(a[1])}]"
    if k == "exists":
        def s(x):
            if x[0] == "dis":
                return "DIS" + T(x[1])
            return L(x[0], x[1])
        return f"{n}EXISTS w in {T(a[1])}: " + " & ".join(sorted(s(x) for x in a[2]))
    return n + T(a)


def row(r, full=True):
    out = [f"{r.kind} line {r.line}"]
    for a, p in r.lits.items():
        out.append("   if " + L(a, p))
    for d in r.dis:
        out.append("   or " + " | ".join("(" + " & ".join(L(a, p) for a, p in alt) + ")" for alt in d))
    if full:
        for x in r.did:
            out.append("   did " + T(x))
        for k, v in r.heap.items():
            out.append(f"   heap {T(k)} := {T(v)}")
    out.append("   => " + T(r.value))
    return "\n".join(out)
