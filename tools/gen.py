"""python3 tools/gen.py : write properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import props  # noqa: E402


def files_of(pr):
    out = []
    for s in pr["fns"]:
        mod = s.split(":")[0]
        if "*" not in mod:
            f = mod.replace(".", "/") + ".py"
            if f not in out:
                out.append(f)
    for _, w in pr["mech"]:
        f = w.split(":")[0]
        if re.fullmatch(r"[\w/]+\.py", f) and f not in out:
            out.append(f)
    return out


with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for pr in props.P.values():
        o = {"id": pr["id"], "title": pr["title"], "statement": pr["statement"],
             "quantifier": {"over": pr["over"], "text": pr["text"]}, "why_tests_cant": pr["why"],
             "anchors": {"files": files_of(pr), "mechanism": [{"name": a, "where": b} for a, b in pr["mech"]],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in pr["state"]],
                         "observe_at": ["returned message, raised error, or stored state of the listed functions"],
                         "hook_needed": None}}
        f.write(json.dumps(o) + "\n")

checks = []
for pr in props.P.values():
    if pr["id"] in props.NOT_APPLICABLE:
        continue
    tech = "static path-contract analysis (guarded-fact abstract interpretation over the AST) plus constant-table folding"
    if pr["extra"]:
        tech += "; whole-source rules: " + ", ".join(pr["extra"])
    checks.append({
        "property": pr["id"], "quick_cmd": f"python3 check.py {pr['id']} quick",
        "thorough_cmd": f"python3 check.py {pr['id']} thorough", "technique": tech, "level": "other",
        "level_note": "Every path class of every anchored function in the current source is compared with the reviewed contract of that "
                      "function (accept/reject conditions, required checks, their order, state changes, returned terms). Calls to public "
                      "functions and third-party libraries are opaque; the contracts of the reviewed tree are trusted as the reference."})
m = {"version": 1, "setup_cmd": "python3 -c \"import ast, json; print('nothing to build')\"", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()],
     "notes": "All checks are static: they parse /repo's current source and run none of it."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


def fill(text, mark, lines):
    a, b = f"<!-- BEGIN {mark} -->", f"<!-- END {mark} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + "\n".join(lines) + "\n" + text[j:]


design = os.path.join(ROOT, "DESIGN.md")
with open(design, encoding="utf-8") as f:
    d = f.read()
out = []
for pr in props.P.values():
    if pr["id"] in props.NOT_APPLICABLE:
        continue
    n = ""
    ev = os.path.join(ROOT, "evidence", pr["id"] + ".json")
    if os.path.exists(ev):
        with open(ev, encoding="utf-8") as f:
            e = json.load(f)
        c = e["coverage"]
        n = f"{c['functions']} functions, {c['paths']} paths, {c['obligations']} obligations, {c['tables']} tables, " \
            f"{c['shape_facts']} shape facts" + "".join(f", {k}: {v} sites" for k, v in c["extra_rules"].items())
    out.append(f"* **{pr['id']} {pr['title']}.** Decided by the path contracts of "
               + "; ".join(f"`{w}` ({a})" for a, w in pr["mech"])
               + (f" with the rules {', '.join(pr['rules'])}" if pr["rules"] else "")
               + (f" and the whole-source rules {', '.join(pr['extra'])}" if pr["extra"] else "")
               + f". Ranges over {pr['text']}. Tests: {pr['why']}" + (f" _Analysed: {n}._" if n else ""))
d = fill(d, "GENERATED", out)
d = fill(d, "NA", [f"* **{k} {props.P[k]['title']}.** {v}" for k, v in props.NOT_APPLICABLE.items()])
with open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8") as f:
    ks = [ln.strip() for ln in f if ln.startswith(("fixed:", "known:"))]
d = fill(d, "FIXED", ["* " + (k if k.startswith("fixed") else re.sub(r"key=.*? :: ", "", k)) for k in ks])
rows = ["| bug | property | what it breaks | caught |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
try:
    with open(os.path.join(ROOT, "tools", "caught.json"), encoding="utf-8") as f:
        caught = json.load(f)
except OSError:
    caught = {}
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    with open(os.path.join(sd, b, "meta.json"), encoding="utf-8") as f:
        mt = json.load(f)
    rows.append(f"| {b} | {mt['property']} | {' '.join(mt['what_it_breaks'].split())} | {caught.get(b, '?')} |")
d = fill(d, "SEEDED", rows)
with open(design, "w", encoding="utf-8") as f:
    f.write(d)
print(len(props.P), "properties", len(checks), "checks")
