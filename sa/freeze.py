"""python3 -m sa.freeze [repo] : (re)derive the reference path tables from the present tree.

Run by hand, after reviewing a change of the reference tree; no check runs it.
"""
import ast
import json
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor

from . import contract as C
from . import engine, prog, rename, shape, store, tables

def main():
    root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    p = prog.Program(root)
    assert not p.errors, p.errors
    atoms = {q: f.params for q, f in p.funcs.items() if f.public}
    e = engine.Engine(p, atoms)
    os.makedirs(store.DIR, exist_ok=True)
    with open(os.path.join(store.DIR, "ATOMS.json"), "w", encoding="utf-8") as f:
        globs = [f"{m.name}.{k}" for m in p.modules.values() for k, v in m.syms.items() if v[0] == "assign"]
        globs += [f"{q}.{k}" for q, c in p.classes.items() for k in c.attrs]
        json.dump({**{q: atoms[q] for q in sorted(atoms)}, "*globals": sorted(globs),
                   "*values": sorted(q for q, f in p.funcs.items() if e.says_value(f.node)),
                   "*private": {q: f.params for q, f in sorted(p.funcs.items()) if q not in atoms}}, f, indent=0)
        f.write("\n")
    with open(os.path.join(store.DIR, "TABLES.json"), "w", encoding="utf-8") as f:
        o = tables.collect(p)
        f.write("{\n" + ",\n".join(json.dumps(k) + ": {\n" + ",\n".join(
            json.dumps(q) + ": " + json.dumps(o[k][q], separators=(",", ":")) for q in sorted(o[k])) + "\n}"
            for k in sorted(o)) + "\n}\n")
    with open(os.path.join(store.DIR, "SHAPE.json"), "w", encoding="utf-8") as f:
        json.dump(shape.collect(p), f, indent=0, sort_keys=True)
        f.write("\n")
    with open(os.path.join(store.DIR, "NAMES.json"), "w", encoding="utf-8") as f:
        json.dump(rename.collect(p), f, indent=0, sort_keys=True)
        f.write("\n")
    t0 = time.time()
    tot = nrows = 0
    levels, used = {}, {}
    mods = [m for m in sorted(p.modules) if m.startswith(("mock_ca", "resources", "pq_logic"))]
    mods.sort(key=lambda m: -sum(1 for _ in ast.walk(p.modules[m].tree)))
    with ProcessPoolExecutor(8) as ex:
        for msgs, n, r, slow, lev, us in ex.map(one, [(root, m, atoms) for m in mods]):
            for x in msgs:
                print(x)
            if slow[0] > 5:
                print("slow", slow)
            tot += n
            levels.update(lev)
            used.update(us)
            nrows += r
    with open(os.path.join(store.DIR, "LEVELS.json"), "w", encoding="utf-8") as f:
        json.dump(levels, f, indent=0, sort_keys=True)
        f.write("\n")
    with open(os.path.join(store.DIR, "HELPERS.json"), "w", encoding="utf-8") as f:
        json.dump({q: sorted(used[q]) for q in sorted(used)}, f, indent=0)
        f.write("\n")
    from . import check, rules
    with open(os.path.join(store.DIR, "FOCUS.json"), "w", encoding="utf-8") as f:
        json.dump(rules.focus(check.frozen_functions()), f, indent=0)
        f.write("\n")
    print(tot, "functions", nrows, "rows", round(time.time() - t0, 1), "s")


def one(a):
    root, m, atoms = a
    p = prog.Program(root)
    e = engine.Engine(p, atoms)
    tabs, msgs, n, slow, lev, us = {}, [], 0, (0, ""), {}, {}
    for q, fi in p.funcs.items():
        if fi.module.name != m:
            continue
        e.used = set()
        t0 = time.time()
        try:
            rows = C.from_rows(e.table(q))
        except engine.Budget:
            msgs.append(f"budget {q}")
            continue
        finally:
            slow = max(slow, (time.time() - t0, q))
        if e.level:
            lev[q] = e.level
        tabs[q] = rows
        if e.used - {q}:
            us[q] = e.used - {q}
        n += len(rows)
    if tabs:
        store.save(m, tabs, "")
    return msgs, len(tabs), n, slow, lev, us


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable, "-m", "sa.freeze"] + sys.argv[1:], {**os.environ, "PYTHONHASHSEED": "0"})
    main()
