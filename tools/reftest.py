#!/usr/bin/env python3
"""Apply the behaviour-preserving rewrites of tools/refactorings to a scratch copy of the sources and report what the
rules say about the touched modules (nothing is expected).  Usage: reftest.py [name ...]"""
import ast
import json
import os
import runpy
import shutil
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa import check, contract as C, engine, prog, store  # noqa: E402

SRC = ("mock_ca", "pq_logic", "resources")


def find(tree, qual):
    body = tree.body
    for part in qual.split("."):
        n = next(x for x in body if getattr(x, "name", None) == part)
        body = n.body
    return n


def apply(root, edits):
    mods = set()
    for f, q, new in edits:
        path = os.path.join(root, f)
        s = open(path, encoding="utf-8").read()
        if q is None:      # textual (old, new)
            assert s.count(new[0]) == 1, (f, new[0], s.count(new[0]))
            s = s.replace(new[0], new[1])
        else:
            n = find(ast.parse(s), q)
            lines = s.splitlines(True)
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            ind = " " * n.col_offset
            s = "".join(lines[:first - 1]) + textwrap.indent(textwrap.dedent(new).strip("\n"), ind) + "\n" + "".join(lines[n.end_lineno:])
        ast.parse(s)
        open(path, "w", encoding="utf-8").write(s)
        mods.add(f[:-3].replace("/", "."))
    return mods


def one(name, verbose=True):
    d = runpy.run_path(os.path.join(HERE, "refactorings", name + ".py"))
    root = tempfile.mkdtemp(prefix="ref.")
    try:
        for s in SRC:
            shutil.copytree("/repo/" + s, root + "/" + s, ignore=shutil.ignore_patterns("__pycache__"))
        mods = apply(root, d["R"])
        with open(os.path.join(store.DIR, "ATOMS.json"), encoding="utf-8") as f:
            atoms = json.load(f)
        p = prog.Program(root)
        assert not p.errors, p.errors
        eng = engine.Engine(p, atoms)
        res, gone = [], []
        n = 0
        every = dict(check.frozen_functions())
        for m in mods:
            every.update({q: m for q in store.load(m)})
        for q, m in every.items():
            if m not in mods:
                continue
            cur = check.locate(p, q)
            if check.is_private(q) and (cur != q or p.funcs[q].params != atoms["*private"][q]):
                continue
            if cur is None:
                gone.append(q)
                continue
            n += 1
            try:
                new = C.from_rows(eng.table(cur, level=store.levels().get(q, 0)))
            except engine.Budget:
                res.append(f"  {q} BUDGET")
                continue
            old = store.load(m)[q]
            C.self_filter(old)
            fs, _ = C.compare(q, old, new, check.DEFAULT)
            res += [f"  {x.func} [{x.rule}] {x.detail}" for x in fs]
        return name, n, gone, res
    finally:
        if os.environ.get("KEEP"):
            os.rename(root, os.path.join(os.environ["KEEP"], name))
        else:
            shutil.rmtree(root)


if __name__ == "__main__":
    from concurrent.futures import ProcessPoolExecutor
    names = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(HERE, "refactorings")) if x.endswith(".py"))
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for name, n, gone, res in ex.map(one, names):
            print(f"{name}: {n} functions, {len(res)} findings" + (f", gone {gone}" if gone else ""))
            bad += bool(res or gone)
            import collections
            seen = collections.Counter(x.split("[")[0] for x in res)
            print("   ", dict(seen))
            for x in (res if os.environ.get('ALL') else res[:6]):
                print(x[:int(os.environ.get('ALL') or 400)])
    print(f"{bad} of {len(names)} not quiet")
