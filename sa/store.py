"""Contract files: one JSON per module, terms interned (each distinct term is written once)."""
import json
import os

from . import contract as C

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")


class Interner:
    def __init__(self):
        self.tab = []
        self.idx = {}

    def put(self, t):
        k = (self._ty(t), t)
        if k in self.idx:
            return self.idx[k]
        if isinstance(t, tuple):
            o = ["t"] + [self.put(x) for x in t]
        elif isinstance(t, frozenset):
            o = ["f"] + sorted(self.put(x) for x in t)
        elif isinstance(t, bytes):
            o = ["b", t.hex()]
        elif t is None or isinstance(t, (bool, int, str, float)):
            o = ["c", t]
        else:
            o = ["x", repr(t)]
        self.tab.append(o)
        self.idx[k] = len(self.tab) - 1
        return self.idx[k]

    def _ty(self, t):
        # 1 == True == 1.0 in Python: keep them apart, also inside containers
        if isinstance(t, (tuple, frozenset)):
            return (type(t).__name__,) + tuple(sorted((self._ty(x) for x in t), key=repr) if isinstance(t, frozenset)
                                               else [self._ty(x) for x in t])
        return type(t).__name__


def save(mod, tables, digest):
    it = Interner()
    fs = {}
    for q in sorted(tables):
        rows = []
        for r in tables[q]:
            rows.append([r.kind, [[it.put(a), int(p)] for a, p in r.lits.items()], [it.put(d) for d in r.dis],
                         [it.put(d) for d in r.did], it.put(r.value), [[it.put(k), it.put(v)] for k, v in r.heap.items()]])
        fs[q] = rows
    os.makedirs(DIR, exist_ok=True)
    with open(os.path.join(DIR, mod + ".json"), "w", encoding="utf-8") as f:
        f.write('{"module": %s,\n"terms": [\n' % json.dumps(mod))
        f.write(",\n".join(json.dumps(x, ensure_ascii=True, separators=(",", ":")) for x in it.tab))
        f.write('\n],\n"functions": {\n')
        f.write(",\n".join(json.dumps(q) + ": [\n" + ",\n".join(
            json.dumps(r, separators=(",", ":")) for r in fs[q]) + "]" for q in sorted(fs)))
        f.write("\n}}\n")


_cache = {}


def load(mod):
    if mod in _cache:
        return _cache[mod]
    path = os.path.join(DIR, mod + ".json")
    if not os.path.exists(path):
        _cache[mod] = {}
        return {}
    with open(path, encoding="utf-8") as f:
        o = json.load(f)
    tab = []
    for x in o["terms"]:
        k = x[0]
        if k == "t":
            tab.append(tuple(tab[i] for i in x[1:]))
        elif k == "f":
            tab.append(frozenset(tab[i] for i in x[1:]))
        elif k == "b":
            tab.append(bytes.fromhex(x[1]))
        elif k == "c":
            tab.append(x[1])
        else:
            tab.append(("unk", x[1]))
    out = {}
    for q, rows in o["functions"].items():
        out[q] = [C.CRow(r[0], {tab[a]: bool(p) for a, p in r[1]}, tuple(tab[d] for d in r[2]),
                         tuple(tab[d] for d in r[3]), tab[r[4]], {tab[a]: tab[b] for a, b in r[5]}) for r in rows]
    _cache[mod] = out
    return out


def levels():
    """The level of path sensitivity at which a table was derived, where not the finest."""
    with open(os.path.join(DIR, "LEVELS.json"), encoding="utf-8") as f:
        return json.load(f)


def has(mod):
    return os.path.exists(os.path.join(DIR, mod + ".json"))


def shape():
    """How classes and functions were put together at review."""
    with open(os.path.join(DIR, "SHAPE.json"), encoding="utf-8") as f:
        return json.load(f)
