"""Runner: decides one property on /repo's current source."""
import fnmatch
import json
import os
import re
import sys
import time

from . import contract as C
from . import engine, more, prog, props, rename, rules, shape, store, tables

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT = ("REJECT", "ACCEPT", "GUARD", "ORDER", "EFFECT", "VALUE", "BOOL")
SCOPE = ("mock_ca", "resources", "pq_logic")


def select(fns, frozen):
    """Frozen function names selected by 'module:glob,glob' patterns."""
    out = []
    for spec in fns:
        mod, pats = spec.split(":")
        for q in frozen:
            m = frozen[q]
            if not fnmatch.fnmatchcase(m, mod):
                continue
            rest = q[len(m) + 1:]
            if any(fnmatch.fnmatchcase(rest, p) for p in pats.split(",")):
                out.append(q)
    return sorted(set(out))


def frozen_functions():
    out = {}
    for f in sorted(os.listdir(store.DIR)):
        if f.endswith(".json") and f[0].islower():
            mod = f[:-5]
            for q in store.load(mod):
                if not is_private(q):
                    out[q] = mod
    return out


def is_private(q):
    n = q.rsplit(".", 1)[-1]
    return n.startswith("_") and not (n.startswith("__") and n.endswith("__"))


def helpers(qs, frozen, atoms):
    """The private functions the given functions rely on: those met while deriving their tables, and those of their
    classes that no public function's table met (overridden hooks)."""
    with open(os.path.join(store.DIR, "HELPERS.json"), encoding="utf-8") as f:
        used = json.load(f)
    every = set().union(*used.values()) if used else set()
    cls = {q.rsplit(".", 1)[0] for q in qs}
    out = set()
    for q in qs:
        out |= set(used.get(q, ()))
    out |= {q for q in atoms["*private"] if q not in every and q.rsplit(".", 1)[0] in cls}
    res = {}
    for q in sorted(out):
        if not is_private(q) or q in qs:
            continue
        for mod in sorted({frozen[x] for x in qs} | {q.rsplit(".", 1)[0], q.rsplit(".", 2)[0]}):
            if q.startswith(mod + ".") and q in store.load(mod):
                res[q] = mod
    return res


def locate(p, q):
    """The function's present definition: itself, a re-export, or an inherited method."""
    if q in p.funcs:
        return q
    head, name = q.rsplit(".", 1)
    if head in p.modules:
        r = p.resolve(p.modules[head], name)
        if r is not None and r[0] == "func":
            return r[1]
    if head in p.classes:
        m = p.find_method(head, name)
        if m is not None:
            return m.qual
    else:
        h2, cls = head.rsplit(".", 1)
        if h2 in p.modules:
            r = p.resolve(p.modules[h2], cls)
            if r is not None and r[0] == "class":
                m = p.find_method(r[1], name)
                if m is not None:
                    return m.qual
    return None


def closure(qs, frozen):
    """The frozen functions reachable from qs through the calls of the reference tables."""
    short = {}
    for q in frozen:
        short.setdefault(q.rsplit(".", 1)[-1], []).append(q)
    seen = set(qs)
    work = list(qs)
    while work:
        q = work.pop()
        names = set()
        for r in store.load(frozen[q])[q]:
            for t in list(r.did) + list(r.lits) + [r.value] + list(r.heap.values()):
                for x in engine.subterms(t) if isinstance(t, tuple) else ():
                    if not isinstance(x, tuple):
                        continue
                    if len(x) > 1 and isinstance(x[1], str) and x[1] in frozen:
                        names.add(x[1])
                    elif x and x[0] == "mcall" and len(x) > 2 and isinstance(x[2], str) and len(short.get(x[2], [])) == 1:
                        names.add(short[x[2]][0])
        for n in names - seen:
            seen.add(n)
            work.append(n)
    return sorted(seen)


def known(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for ln in f:
                ln = ln.strip()
                m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", ln)
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    return out


def run(pid, tier="quick", root="/repo", out=sys.stdout, write=True):
    t0 = time.time()
    pr = props.P[pid]
    p = prog.Program(root)
    if p.errors:
        print("ERROR: cannot parse: " + "; ".join(p.errors), file=out)
        return 2
    with open(os.path.join(store.DIR, "ATOMS.json"), encoding="utf-8") as f:
        atoms = json.load(f)
    with open(os.path.join(store.DIR, "NAMES.json"), encoding="utf-8") as f:
        renamed = rename.adapt(p, atoms, json.load(f))
    levels = store.levels()
    frozen = frozen_functions()
    qs = select(pr["fns"], frozen)
    empty = [s for s in pr["fns"] for pat in s.split(":")[1].split(",") if not select([s.split(":")[0] + ":" + pat], frozen)]
    if empty:
        print(f"ERROR: {pid}: pattern without a function: {empty}", file=out)
        return 2
    qs = sorted(set(qs) | set(more.extra(pid, frozen)))
    entries = list(qs)
    if tier == "thorough":
        qs = closure(qs, frozen)
    eng = engine.Engine(p, atoms)
    use = pr["rules"] or DEFAULT
    findings, missing, undecided = [], [], []
    stat = {"functions": 0, "paths": 0, "contract_rows": 0, "pairs": 0, "obligations": 0, "set_aside": 0}
    samples = []
    hs = helpers(qs, frozen, atoms)
    for q in list(qs) + sorted(hs):
        cur = locate(p, q)
        if q in hs:
            # a private function answers for itself only while it exists with the same parameters
            if cur != q or p.funcs[q].params != atoms["*private"][q]:
                undecided.append(q)
                continue
        if cur is None:
            head, name = q.rsplit(".", 1)
            if name in shape.SPECIAL and head in p.classes:
                continue      # reported by the shape rule
            (missing if q in entries else undecided).append(q)
            continue
        old = store.load(frozen[q] if q in frozen else hs[q])[q]
        stat["set_aside"] += C.self_filter(old)
        try:
            new = C.from_rows(eng.table(cur, level=levels.get(q, 0)))
        except engine.Budget:
            undecided.append(q)
            continue
        fs, st = C.compare(q, old, new, use)
        fi = p.funcs[cur]
        for x in fs:
            x.file = fi.module.path
            x.line = x.line or fi.node.lineno
        findings += fs
        stat["functions"] += 1
        stat["paths"] += len(new)
        stat["contract_rows"] += len(old)
        stat["pairs"] += st["pairs"]
        stat["obligations"] += st["obligations"]
        if len(samples) < 8:
            samples.append(f"{cur} ({fi.module.path}:{fi.node.lineno}): {len(new)} paths against {len(old)} contract rows")
    # constants, class attributes and defaults the functions rely on
    tf, tn = rules.tables_rule(p, pr, qs, frozen, rules.load_tables())
    findings += tf
    stat["tables"] = tn
    # how the classes and functions are put together
    where = {**hs, **{q: frozen[q] for q in qs}}
    every = {}

    def rows_of(q):
        if q not in every:
            m = where.get(q) or frozen.get(q) or next(
                (x for x in (q.rsplit(".", 1)[0], q.rsplit(".", 2)[0]) if store.has(x)), None)
            every[q] = store.load(m).get(q, []) if m else []
        return every[q]

    sf, sn = shape.rule(p, sorted(where), where, rows_of, store.shape(), eng, levels, locate,
                        lambda f, r, d, file, ln: rules.RFinding(f, r, d, file, ln))
    findings += sf
    stat["obligations"] += sn
    extra = {}
    for name in pr["extra"]:
        fn = rules.EXTRA.get(name)
        if fn is None:
            continue
        bad = rules.self_test(name)
        if bad:
            print(f"ERROR: {pid}: rule {name} does not detect its own example: {bad}", file=out)
            return 2
        fs, n = fn(p, {"eng": eng, "levels": levels, "frozen": frozen, "locate": locate, "done": set(qs)})
        findings += fs
        extra[name] = n
        stat["obligations"] += n
    if missing:
        print(f"ERROR: {pid}: anchored functions are gone: {', '.join(missing)}", file=out)
        return 2
    kn = known(pid)
    fresh = []
    hit = set()
    for x in findings:
        for k, text in kn:
            if x.key() == k:
                hit.add(k)
                break
        else:
            fresh.append(x)
    for k, text in kn:
        if k in hit:
            print(f"KNOWN-FINDING: property={pid} {text}", file=out)
    vio = [{"rule": x.rule, "function": x.func, "where": f"{getattr(x, 'file', '?')}:{x.line}", "what": x.detail,
            "key": x.key()} for x in fresh]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {
              "explanation": f"Static path-contract analysis of {stat['functions']} functions of the current source "
                             f"({stat['paths']} abstract exits, each compared with every compatible reviewed contract row; "
                             f"rules {', '.join(use)}), {tn} constant tables, class attributes and defaults, {sn} facts "
                             "on special methods, overrides, decorators and patches"
                             + (", and the whole-program rules " + ", ".join(f"{k} ({v} sites)" for k, v in extra.items())
                                if extra else "") + ". No code of the repository was executed.",
              "functions": stat["functions"], "paths": stat["paths"], "contract_rows": stat["contract_rows"],
              "row_pairs": stat["pairs"], "obligations": stat["obligations"],
              "discharged": stat["obligations"] - len(findings) if stat["obligations"] > len(findings) else 0,
              "set_aside_as_imprecise": stat["set_aside"], "tables": tn, "shape_facts": sn, "extra_rules": extra,
              "undecided_functions": undecided, "renamed": renamed, "samples": samples, "source_digest": p.digest()},
          "assumptions": ["calls to public functions are opaque: each has its own contract, checked where it is listed",
                          "third-party libraries behave as documented", "no reflection changes the analysed functions"],
          "known_findings": sorted(hit), "wall_s": round(time.time() - t0, 2), "violations": vio}
    if write:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{pid}: {stat['functions']} functions, {stat['paths']} paths, {stat['obligations']} obligations, {tn} tables"
          f"{', ' + ', '.join(f'{k}: {v} sites' for k, v in extra.items()) if extra else ''}; "
          f"{len(undecided)} undecided; {ev['wall_s']} s", file=out)
    if fresh:
        for v in vio[:40]:
            print(f"  {v['where']} {v['function']} [{v['rule']}] {v['what']}", file=out)
        path = os.path.join("evidence", f"{pid}.violation.json")
        if write:
            with open(os.path.join(ROOT, path), "w", encoding="utf-8") as f:
                json.dump(vio, f, indent=1)
        print(f"VIOLATION property={pid} replay={path}", file=out)
        return 1
    return 0


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the order of sets must not differ from run to run
        os.execve(sys.executable, [sys.executable, "-m", "sa.check"] + sys.argv[1:],
                  {**os.environ, "PYTHONHASHSEED": "0", "PYTHONPATH": ROOT,
                   "PYTHONDONTWRITEBYTECODE": "1"})
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        sys.exit(run(pid, tier))
    except SystemExit:
        raise
    except Exception:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
