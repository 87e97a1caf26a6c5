"""Rules over the whole source that need no reference table, and the comparison of constant tables."""
import ast
import json
import os
import shutil
import tempfile

from . import contract as C
from . import engine, lint, oids, prog, robot, store, tables

_TABLES = []


def load_tables():
    if not _TABLES:
        with open(os.path.join(store.DIR, "TABLES.json"), encoding="utf-8") as f:
            _TABLES.append(json.load(f))
    return _TABLES[0]


class RFinding(C.Finding):
    def __init__(self, func, rule, detail, file, line):
        super().__init__(func, rule, detail, line, None, None)
        self.file = file


def _globs(qs, frozen):
    out = set()
    seen = set()
    for q in qs:
        for r in store.load(frozen[q])[q]:
            for t in list(r.did) + list(r.lits) + [r.value] + list(r.heap.values()) + list(r.dis):
                if not isinstance(t, (tuple, frozenset)) or id(t) in seen:
                    continue
                seen.add(id(t))
                for x in engine.subterms(t):
                    if isinstance(x, tuple) and len(x) == 2 and x[0] == "glob" and isinstance(x[1], str):
                        out.add(x[1])
    return out


_FOLD = {}


def tables_rule(p, pr, qs, frozen, ref):
    """Module constants, class attributes and parameter defaults compared with the reviewed values."""
    key = id(p)
    if key not in _FOLD:
        _FOLD.clear()
        _FOLD[key] = tables.collect(p)
    now = _FOLD[key]
    res = []
    n = 0
    globs = _globs(qs, frozen)
    mods = set()
    if "module_tables" in pr["extra"]:
        mods = {frozen[q] for q in qs}
        if any(m.startswith(("resources.oid", "pq_logic.keys", "pq_logic.pq_utils")) for m in mods):
            mods |= {"resources.oidutils", "pq_logic.tmp_oids"}
    classes = {q.rsplit(".", 1)[0] for q in qs}
    want = [("consts", k) for k in ref["consts"] if k in globs or k.rsplit(".", 1)[0] in mods]
    want += [("attrs", k) for k in ref["attrs"]
             if k in globs or k.rsplit(".", 1)[0] in classes or (mods and _mod_of(p, k) in mods)]
    for kind, k in want:
        n += 1
        if k not in now[kind]:
            continue
        d = tables.differ(now[kind][k], ref[kind][k])
        if d:
            res.append(RFinding(k, "TABLE", f"{k}{d}", *_where(p, k)))
    for q in qs:
        o = ref["defaults"].get(q)
        if not o or q not in p.funcs:
            continue
        nw = now["defaults"].get(q, {})
        for par, v in o.items():
            n += 1
            if par in nw:
                d = tables.differ(nw[par], v)
                if d:
                    f = p.funcs[q]
                    res.append(RFinding(q, "DEFAULT", f"default of {par}{d}", f.module.path, f.node.lineno))
    return res, n


def _mod_of(p, k):
    c = k.rsplit(".", 1)[0]
    return p.classes[c].module.name if c in p.classes else None


def _where(p, k):
    head, name = k.rsplit(".", 1)
    if head in p.modules:
        m = p.modules[head]
        for st in m.tree.body:
            for t in getattr(st, "targets", [getattr(st, "target", None)]):
                if isinstance(t, ast.Name) and t.id == name:
                    return m.path, st.lineno
        return m.path, 1
    if head in p.classes:
        c = p.classes[head]
        return c.module.path, c.node.lineno
    return "?", 0


# ------------------------------------------------------------------ whole-program rules
def _make(m):
    return lambda f, r, d, file, ln: RFinding(f, r, d, file, ln)


def _plain(fn):
    def run(p, ctx):
        fs, n, err = fn(p, _make(None))
        if err:
            raise LookupError(err)
        return fs, n
    return run


def leftover(a):
    """The literal tests what a decoder left over."""
    return any(isinstance(t, tuple) and len(t) == 3 and t[0] == "item" and t[2] == ("const", 1) and isinstance(t[1], tuple)
               and engine.did_name(t[1]) in ("decode", "try_decode_pyasn1") for t in engine.subterms(a))


def row_leftover(r):
    return any(leftover(a) for a in r.lits) or any(leftover(a) for d in r.dis for alt in d for a, _ in alt)


def focus(frozen):
    """Reviewed functions that reject for what a decoder left over."""
    return sorted(q for q, m in frozen.items()
                  if any(r.kind == "raise" and row_leftover(r) for r in store.load(m).get(q, [])))


def decode_rest(p, ctx):
    """Every function of the reviewed tree that rejects leftover bytes still does."""
    with open(os.path.join(store.DIR, "FOCUS.json"), encoding="utf-8") as f:
        names = json.load(f)
    res, n = [], 0
    for q in names:
        cur = ctx["locate"](p, q)
        if q in ctx["done"] or cur is None:
            continue
        old = store.load(ctx["frozen"][q])[q]
        C.self_filter(old)
        try:
            new = C.from_rows(ctx["eng"].table(cur, level=ctx["levels"].get(q, 0)))
        except engine.Budget:
            continue
        n += 1
        fi = p.funcs[cur]
        for x in C.compare(q, old, new, ("REJECT",))[0]:
            if row_leftover(x.path):
                res.append(RFinding(q, "REJECT", x.detail, fi.module.path, x.line or fi.node.lineno))
    return res, n


def oid_tables(p, ctx):
    key = id(p)
    if key not in _FOLD:
        _FOLD.clear()
        _FOLD[key] = tables.collect(p)
    res = []
    n = oids.rule(_FOLD[key]["consts"], lambda k, d: res.append(RFinding(k, "OID", d, *_where(p, k))))
    if n < 500:
        raise LookupError("the name and identifier tables were not found")
    return res, n


EXTRA = {"body_names": _plain(lint.grammar_rule), "failinfo_table": _plain(lint.failinfo_rule),
         "randomness": _plain(lint.random_rule), "index_flow": _plain(lint.index_rule),
         "robot_keywords": _plain(robot.robot_rule), "decode_rest": decode_rest, "oid_tables": oid_tables}

# each rule on a small program that breaks it: (files, what must be reported)
BAD = {
    "body_names": ({"resources/x.py": "def f(m):\n    if m[\"body\"].getName() == \"certconf\":\n        return m[\"body\"][\"ipp\"]\n"},
                   ["certconf", "ipp"]),
    "failinfo_table": ({"resources/x.py": "class E(Exception):\n    failinfo = \"badAlgo\"\n    bit_num = 3\n"
                        "class G(Exception):\n    failinfo = \"badPOP\"\n    bit_num = 8\n"}, ["badAlgo", "9"]),
    "randomness": ({"resources/x.py": "import os\nimport random\nA = os.urandom(16)\ndef f(g, nonce=os.urandom(8)):\n"
                    "    g(salt=random.randbytes(16))\n    return g(iv=b\"0000\")\n"}, ["random.", "loaded", "default", "constant"]),
    "index_flow": ({"resources/x.py": "def g(m, cert_index=0):\n    return m[cert_index]\n"
                    "def f(m, cert_index):\n    return g(m)\n"}, ["without the cert_index"]),
    "robot_keywords": ({"resources/x.py": "def do_it(a, b):\n    return a\n",
                        "tests/a.robot": "*** Settings ***\nLibrary    ../resources/x.py\n*** Test Cases ***\nA\n"
                        "    Do It    1\n    Do It    1    2    3\n    Do Itt    1    2\n    Do It    a=1    c=2\n"},
                       ["needs b", "at most", "Do Itt", "'c=2'"]),
    "oid_tables": ({"resources/oidutils.py": "from pyasn1.type import univ\nX_NAME_2_OID = {\"sha256\": univ.ObjectIdentifier(\"2.16.840.1.101.3.4.2.2\"), "
                    "\"foo\": univ.ObjectIdentifier(\"1.2.3\")}\nX_OID_2_NAME = {univ.ObjectIdentifier(\"2.16.840.1.101.3.4.2.2\"): \"sha256\"}\n"},
                   ["registered", "no way back"]),
}


def self_test(name):
    """What the rule misses of its own example."""
    if name not in BAD:
        return None
    files, want = BAD[name]
    d = tempfile.mkdtemp(prefix="sa-self-")
    try:
        for f, text in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w", encoding="utf-8") as h:
                h.write(text)
        p = prog.Program(d)
        if name == "oid_tables":
            said = []
            oids.rule(tables.collect(p)["consts"], lambda k, x: said.append(x))
        else:
            said = [x.detail for x in RULE[name](p, _make(None), True)[0]]
        return [w for w in want if not any(w in s for s in said)] or None
    finally:
        shutil.rmtree(d)


RULE = {"body_names": lint.grammar_rule, "failinfo_table": lint.failinfo_rule, "randomness": lint.random_rule,
        "index_flow": lint.index_rule, "robot_keywords": robot.robot_rule}
