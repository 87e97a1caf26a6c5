"""Guarded-fact analysis: a flow- and branch-sensitive abstract interpretation of one function over its AST.

For a function it computes a *path table*: the set of abstract exits (return / raise) with
  lits : conjunction of normalised branch facts that hold on that exit (must-facts),
  dis  : facts merged at joins, kept as disjunctions,
  did  : ordered calls/effects that completed normally before the exit,
  value: the normalised returned term or the raised exception class.
Private helpers and functions unknown to the frozen atom list are interpreted in place, so extracting or
inlining a helper, reordering independent statements, renaming locals, or rewriting a loop does not change the table.
No program code is executed and no constraint solver is used.
"""
import ast
import builtins
import re

from . import prog as P
from . import tables

TRUE = ("const", True)
FALSE = ("const", False)
NONE = ("const", None)

NOFAIL_BUILTINS = {"len", "isinstance", "issubclass", "str", "type", "repr", "bool", "list", "dict", "set", "tuple",
                   "range", "enumerate", "zip", "sorted", "reversed", "hasattr", "print", "super", "id", "any", "all",
                   "frozenset", "min", "max", "sum", "abs", "iter", "callable", "vars", "map", "filter", "bytearray"}
NOFAIL_METHODS = {"get", "getName", "lower", "upper", "strip", "startswith", "endswith", "asOctets", "prettyPrint",
                  "append", "extend", "keys", "values", "items", "copy", "split", "replace", "join", "hex", "format",
                  "add", "isoformat", "total_seconds", "lstrip", "rstrip", "bit_length", "asTuple", "hasValue",
                  "issubset", "union", "title", "capitalize", "splitlines"}
MUTATORS = {"append", "extend", "add", "update", "pop", "remove", "clear", "insert", "setdefault", "discard",
            "setComponentByName", "setComponentByPosition", "appendleft", "popitem", "sort", "reverse"}
LOG_HEADS = ("logging", "logger", "log", "warnings", "LOGGER", "_logger")
BUILTIN_NAMES = set(dir(builtins))

MAX_STATES = 600
# how path-sensitive: (states kept apart, the same in nested calls, groups kept apart by live variables, value alternatives)
LEVELS = ((16, 4, 200, 4), (8, 4, 24, 4), (4, 2, 12, 2), (1, 1, 1, 1), (1, 1, 1, 1))
STEPS = (400000, 150000, 150000, 100000, 200000)
MAXROWS = 1200


class Budget(Exception):
    pass


# ---------------------------------------------------------------- terms
def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            yield x
            stack.extend(x)


def binds(t, s):
    """Is t a term whose own variable s is (a loop over the same elements that is over)?"""
    return (isinstance(t, tuple) and len(t) > 2 and t[0] in ("map", "exists", "each", "acc") and isinstance(s, tuple)
            and len(s) == 2 and s[0] in ("elem", "idx") and (t[1] == s[1] or isinstance(t[1], tuple)
                                                             and t[1][:1] == ("zip",) and s[1] in t[1][1:]))


def contains(t, s):
    if t == s:
        return True
    if isinstance(t, (tuple, frozenset)):
        if binds(t, s):
            return False
        return any(contains(x, s) for x in t)
    return False


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        if binds(t, old):
            return t
        r = tuple(subst(x, old, new) for x in t)
        return r if r != t else t
    if isinstance(t, frozenset):
        return frozenset(subst(x, old, new) for x in t)
    return t


def key(t):
    return repr(t) if not isinstance(t, frozenset) else repr(sorted(map(repr, t)))


_sk = {}


def skey(t):
    """Stable ordering key (frozensets have no stable repr)."""
    try:
        r = _sk.get(t)
    except TypeError:
        r = None
    if r is not None:
        return r
    if isinstance(t, tuple):
        r = "(" + ",".join(skey(x) for x in t) + ")"
    elif isinstance(t, frozenset):
        r = "{" + ",".join(sorted(skey(x) for x in t)) + "}"
    elif isinstance(t, (bool, int)):
        r = f"i:{int(t)}"
    else:
        r = f"{type(t).__name__[0]}:{t!r}"
    try:
        if len(_sk) < 500000:
            _sk[t] = r
    except TypeError:
        pass
    return r


def is_const(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == "const"


def mk_phi(terms):
    flat = []
    for t in terms:
        if isinstance(t, tuple) and t and t[0] == "phi":
            flat.extend(t[1])
        else:
            flat.append(t)
    fs = frozenset(flat)
    if len(fs) == 1:
        return next(iter(fs))
    if len(fs) > 12:
        return ("unk", "phi")
    return ("phi", fs)


def is_bool_term(t):
    return isinstance(t, tuple) and t and t[0] in ("B", "Band", "Bor")


def neg(t):
    if is_const(t):
        return ("const", not t[1])
    if t[0] == "B":
        return ("B", t[1], not t[2])
    if t[0] == "Band":
        return ("Bor", tuple(neg(x) for x in t[1]))
    if t[0] == "Bor":
        return ("Band", tuple(neg(x) for x in t[1]))
    return ("B", ("truth", t), False)


def band(ts):
    out = []
    for t in ts:
        if is_const(t):
            if not t[1]:
                return FALSE
            continue
        if t[0] == "Band":
            out.extend(t[1])
        else:
            out.append(t)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ("Band", tuple(out))


def bor(ts):
    return neg(band([neg(t) for t in ts]))


def is_intish(t):
    return (isinstance(t, tuple) and t and (
        (t[0] == "call" and t[1] in ("len", "int", "ord", "abs", "sum")) or t[0] == "idx"))


MEMBER = re.compile(r"(^|\.)[A-Z]\w*[a-z]\w*\.[A-Z][A-Z0-9_]*$")


def is_member(t):
    """A reference to a member of an enumeration (Class.MEMBER): distinct names are distinct values."""
    return t[0] in ("ext", "glob") and len(t) == 2 and isinstance(t[1], str) and MEMBER.search(t[1]) is not None


def simp_atom(atom):
    """Return a bool term for an atom (simplify constants)."""
    k = atom[0]
    if k == "eq":
        a, b = atom[1], atom[2]
        if a == b:
            return TRUE
        if is_const(a) and is_const(b):
            return ("const", a[1] == b[1] and type(a[1]) is type(b[1]) or (a[1] == b[1]))
        if is_const(a):
            a, b = b, a
        if is_const(b):
            if is_bool_term(a) and isinstance(b[1], bool):
                return a if b[1] else neg(a)
            if b[1] == 0 and isinstance(b[1], int) and not isinstance(b[1], bool) and a[0] == "call" and a[1] == "len":
                return neg(truth(a[2][0][1]))
            if a[0] == "phi":
                # decide when every alternative decides alike
                rs = {simp_atom(("eq", x, b)) for x in a[1]}
                if len(rs) == 1 and is_const(next(iter(rs))):
                    return next(iter(rs))
            if b[1] is None and definitely_not_none(a):
                return FALSE
            if b[1] is None and table_read(a):
                return neg(("B", ("in", a[3][0][1], a[1]), True))
            if isinstance(b[1], (bytes, str)) and len(b[1]) == 0 and isinstance(b[1], bytes):
                return neg(truth(a))
            return ("B", ("vals", a, frozenset([b[1]])), True)
        if is_member(a):
            a, b = b, a
        if is_member(b):
            if is_member(a) and a[1].rsplit(".", 1)[0] == b[1].rsplit(".", 1)[0]:
                return FALSE
            return ("B", ("vals", a, frozenset([b])), True)
        if skey(b) < skey(a):
            a, b = b, a
        return ("B", ("eq", a, b), True)
    if k == "lt":
        a, b = atom[1], atom[2]
        if is_const(a) and is_const(b):
            try:
                return ("const", a[1] < b[1])
            except TypeError:
                pass
        if is_const(b) and isinstance(b[1], int) and a[0] == "call" and a[1] == "len" and b[1] == 1:
            return neg(truth(a[2][0][1]))
        if is_const(a) and isinstance(a[1], int) and not isinstance(a[1], bool):
            # c < x  ==  not (x < c+1)
            return neg(simp_atom(("lt", b, ("const", a[1] + 1))))
        return ("B", ("lt", a, b), True)
    if k == "truth":
        return truth(atom[1])
    if k == "inst":
        t = atom[1]
        if t == NONE:
            return FALSE
    return ("B", atom, True)


TABLES = set()     # module-level dictionaries of the analysed program without None values


def table_read(t):
    """D.get(k) of such a dictionary: None exactly if k is not in it."""
    return (isinstance(t, tuple) and len(t) == 4 and t[0] == "mcall" and t[2] == "get" and len(t[3]) == 1
            and t[3][0][0] == "0" and isinstance(t[1], tuple) and t[1][0] == "glob" and t[1][1] in TABLES)


def definitely_not_none(t):
    return isinstance(t, tuple) and t and t[0] in ("list", "dict", "tuple", "new", "fstr", "add", "map", "set", "B",
                                                    "Band", "Bor", "lambda", "func", "classref", "wit")


def local_dict(t):
    """A dictionary the function itself has built so far."""
    while t[0] == "dput" or t[0] == "acc":
        t = t[1] if t[0] == "dput" else t[2]
    return t[0] in ("dict", "dictmap") or t == ("call", "dict", ())


def local_container(t):
    while t[0] in ("acc", "app", "mutd", "merge", "dput"):
        t = t[2] if t[0] == "acc" else t[1]
    return t[0] in ("list", "dict", "set", "map", "dictmap") or t[0] == "call" and t[1] in ("set", "dict", "list") \
        and not t[2]


def truth(t):
    if is_const(t):
        return ("const", bool(t[1]))
    k = t[0]
    if k == "dput":
        return TRUE
    if k == "dictmap":
        return truth(t[1])
    if k in ("B", "Band", "Bor"):
        return t
    if k in ("list", "tuple", "set"):
        if not t[1]:
            return FALSE
        if not any(isinstance(x, tuple) and x and x[0] == "star" for x in t[1]):
            return TRUE
    if k == "dict":
        return ("const", bool(t[1]))
    if k == "map":
        if t[2]:
            return ("B", ("exists", t[1], t[2]), True)
        return truth(t[1])
    if k == "call" and t[1] in ("len", "list", "tuple", "set", "bool", "sorted") and t[2]:
        return truth(t[2][0][1])
    if k == "call" and t[1] == "range" and all(is_const(a) and isinstance(a[1], int) for _, a in t[2]):
        return ("const", bool(range(*[a[1] for _, a in t[2]])))
    if k in ("lambda", "func", "classref", "new"):
        return TRUE
    if k == "add" and any(is_const(x) and x[1] for x in t[1]):
        return TRUE
    return ("B", ("truth", t), True)


# ---------------------------------------------------------------- literal reasoning
def lit_conflict(lits, atom, pol):
    """Does adding (atom, pol) to the literal dict contradict it?"""
    p = lits.get(atom)
    if p is not None:
        return p != pol
    k = atom[0]
    if k in ("vals", "truth", "lt", "inst"):
        if k == "vals" and pol and atom[2] == ONLY_NONE and dereferenced(lits, atom[1]):
            return True
        return term_conflict(lits, atom[1], atom, pol)
    if k == "exists":
        if pol:
            negs = [a[2] for a, q in lits.items() if a[0] == "exists" and not q and a[1] == atom[1]]
            if negs and covered(atom[2], negs, lits):
                return True
        else:
            pos_ = [a[2] for a, q in lits.items() if a[0] == "exists" and q and a[1] == atom[1]]
            if pos_:
                negs = [atom[2]] + [a[2] for a, q in lits.items() if a[0] == "exists" and not q and a[1] == atom[1]]
                if any(covered(x, negs, lits) for x in pos_):
                    return True
        # exists over an empty collection
        if pol and lits.get(("truth", atom[1])) is False:
            return True
    if k == "truth":
        pass
    if k == "eq":
        va = single_val(lits, atom[1])
        vb = single_val(lits, atom[2])
        if va is not None and vb is not None:
            return (va == vb) != pol
    return False


ONLY_NONE = frozenset([None])
_DEREF = {}


def derefs(atom):
    """Terms whose attribute, item or method was read to evaluate the atom: they are not None."""
    r = _DEREF.get(atom)
    if r is None:
        r = set()
        if atom[0] == "exists":
            for a, _ in ((x[0], x[1]) for x in atom[2] if x[0] != "dis"):
                if ("elem", atom[1]) in derefs(a):
                    r.add(("wit", atom[1]))
        elif atom[0] != "fail":
            stack = list(atom[1:])
            while stack:
                x = stack.pop()
                if not isinstance(x, tuple) or not x or x[0] == "phi":
                    continue
                if x[0] in ("attr", "item", "mcall") and len(x) > 2:
                    r.add(x[1])
                stack.extend(x[1:])
        if len(_DEREF) > 200000:
            _DEREF.clear()
        r = _DEREF[atom] = frozenset(r)
    return r


def dereferenced(lits, t):
    if t[0] in ("param", "const"):
        return False
    return any(t in derefs(a) for a, q in lits.items() if q or a[0] != "exists")


def single_val(lits, t):
    if is_const(t):
        return (t[1],)
    for a, q in lits.items():
        if q and a[0] == "vals" and a[1] == t and len(a[2]) == 1:
            return (next(iter(a[2])),)
    return None


# External classes an object is an instance of at most one of, up to the subclass pairs below.
DISTINCT = frozenset((
    "AttributeTypeAndValue BasicOCSPResponse CMPCertificate CertStatus CertTemplate CertificateList "
    "CertificationRequest DHBMParameter DHPrivateKey DHPublicKey DSAPrivateKey DSAPublicKey "
    "DistributionPoint Ed25519PrivateKey Ed25519PublicKey Ed448PrivateKey Ed448PublicKey "
    "EllipticCurvePrivateKey EllipticCurvePublicKey EnvelopedData Extension Extensions GCMParameters "
    "GeneralName GeneralNames InfoTypeAndValue KEMRecipientInfo KeyAgreeRecipientInfo "
    "KeyTransRecipientInfo Name OCSPResponse OneAsymmetricKey OtherRecipientInfo PBKDF2_params "
    "PBMAC1_params PBMParameter PKIBody PKIHeader PKIMessage PasswordRecipientInfo PrivateKeyInfo "
    "RSAPrivateKey RSAPublicKey RSASSA_PSS_params RecipientInfo RecipientInfos SignerInfo "
    "SinglePubInfo SubjectPublicKeyInfo Validity X25519PrivateKey X25519PublicKey X448PrivateKey "
    "X448PublicKey bool bytearray bytes dict float frozenset int list set str tuple").split())
SUBCLASS = {("bool", "int"), ("PrivateKeyInfo", "OneAsymmetricKey"), ("CMPCertificate", "Certificate"),
            ("DSAPublicKey", "Integer"), ("DHPublicKey", "Integer"), ("Extensions", "SequenceOf"),
            ("GeneralNames", "SequenceOf"), ("RecipientInfos", "SetOf")}
ANCESTORS = {}     # of the analysed program's classes


def setup_classes(p):
    """The class hierarchy of the program under analysis (external classes by their last name)."""
    ANCESTORS.clear()
    for q in p.classes:
        ANCESTORS[q] = frozenset(x if x in p.classes else x.split(".")[-1] for x in p.mro(q))
    _disj.clear()
    TABLES.clear()
    for m in p.modules.values():
        for n in m.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, (ast.Dict, ast.DictComp)) and not any(
                    isinstance(x, ast.Constant) and x.value is None for x in ast.walk(n.value)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        TABLES.add(f"{m.name}.{t.id}")


_disj = {}


def ancestors(c):
    if c in ANCESTORS:
        return ANCESTORS[c]
    return frozenset([c]) | {b for a, b in SUBCLASS if a == c}


def subclass(a, b):
    return a == b or b in ancestors(a)


def disjoint(a, b):
    """Can no object be an instance of both classes?"""
    k = (a, b)
    if k not in _disj:
        if subclass(a, b) or subclass(b, a) or any(c not in ANCESTORS and c not in DISTINCT for c in k):
            _disj[k] = False
        else:
            _disj[k] = not any(subclass(c, a) and subclass(c, b) for c in ANCESTORS)
    return _disj[k]


def term_conflict(lits, t, atom, pol):
    allowed = None
    excl = set()
    lo = None
    hi = None
    tr = None
    insts_pos = []
    insts_neg = set()
    items = [(a, q) for a, q in lits.items() if a[0] in ("vals", "truth", "lt", "inst") and a[1] == t]
    items.append((atom, pol))
    for a, q in items:
        if a[0] == "vals":
            if q:
                allowed = set(a[2]) if allowed is None else allowed & set(a[2])
            else:
                excl |= set(a[2])
        elif a[0] == "truth":
            if tr is not None and tr != q:
                return True
            tr = q
        elif a[0] == "lt" and is_const(a[2]) and isinstance(a[2][1], (int, float)):
            c = a[2][1]
            if q:
                hi = c if hi is None else min(hi, c)
            else:
                lo = c if lo is None else max(lo, c)
        elif a[0] == "inst":
            if q:
                insts_pos.append(a[2])
            else:
                insts_neg |= a[2]
    if lo is not None and hi is not None and lo >= hi:
        return True
    for n, s in enumerate(insts_pos):
        if s <= insts_neg or insts_neg and all(any(subclass(c, d) for d in insts_neg) for c in s):
            return True
        if any(all(disjoint(c, d) for c in s for d in s2) for s2 in insts_pos[:n]):
            return True
    if allowed is not None:
        left = {v for v in allowed if v not in excl}
        if tr is not None:
            left = {v for v in left if bool(v) == tr}
        if lo is not None:
            left = {v for v in left if not isinstance(v, (int, float)) or isinstance(v, bool) or v >= lo}
        if hi is not None:
            left = {v for v in left if not isinstance(v, (int, float)) or isinstance(v, bool) or v < hi}
        if insts_pos:
            left = {v for v in left if v is not None}
        if not left:
            return True
    if tr is True and insts_pos == [] and None in excl and False:
        return True
    return False


def lits_imply(s, atom, pol):
    """Does the set/dict of literals imply (atom,pol)? (syntactic entailment)"""
    d = s if isinstance(s, dict) else dict(s)
    if d.get(atom) == pol:
        return True
    return lit_conflict(d, atom, not pol)


def norm_set(fs):
    """Drop the literals of a per-element condition that its other literals imply."""
    fs = frozenset((x[0][1], x[1]) if x[0] != "dis" and x[0][0] == "was" else x for x in fs)
    pos_ = {a[1]: a[2] for a, p in fs if a != "dis" and a[0] == "vals" and p}
    if not pos_:
        return fs
    return frozenset((a, p) for a, p in fs if not (
        a != "dis" and a[0] == "vals" and not p and a[1] in pos_ and not (a[2] & pos_[a[1]])) and not (
        a != "dis" and a[0] == "truth" and p and a[1] in pos_ and all(pos_[a[1]])))


def covered(a, negs, lits):
    """Is every case of the condition on an element one of those that no element meets (given the facts that do not
    depend on the element)?"""
    cases = [()]
    for x in a:
        if x[0] == "dis" and not all(x in b for b in negs):
            if len(cases) * len(x[1]) > 24:
                continue
            cases = [c + tuple(alt) for c in cases for alt in x[1]]
    ctx = {k: v for k, v in lits.items() if k[0] in ("vals", "truth", "inst", "eq", "in", "lt")}
    for x in a:
        if x[0] != "dis":
            ctx[x[0]] = x[1]
    for c in cases:
        d = dict(ctx)
        ok = True
        for at, po in c:
            if lit_conflict(d, at, po):
                ok = False
                break
            d[at] = po
        if ok and not any(_implies(d, a, b) for b in negs):
            return False
    return True


def _implies(d, a, b):
    for x in b:
        if x[0] == "dis":
            # some alternative must be implied
            if x in a:
                continue
            if not any(all(lits_imply(d, at, po) for at, po in alt) for alt in x[1]):
                return False
            continue
        if not lits_imply(d, x[0], x[1]):
            return False
    return True


class State:
    __slots__ = ("env", "heap", "lits", "dis", "did", "exc")

    def __init__(self, env=None, heap=None, lits=None, dis=(), did=(), exc=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.lits = lits if lits is not None else {}
        self.dis = dis
        self.did = did
        self.exc = exc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.lits), self.dis, self.did, self.exc)

    def with_lit(self, atom, pol):
        if self.lits.get(atom) == pol:
            return self
        if lit_conflict(self.lits, atom, pol):
            return None
        n = State(self.env, self.heap, dict(self.lits), self.dis, self.did, self.exc)
        n.env = dict(self.env)
        n.heap = dict(self.heap)
        n.lits[atom] = pol
        # disjunction pruning
        if n.dis:
            nd = []
            for d in n.dis:
                alts = [alt for alt in d if not any(lit_conflict(n.lits, a, p) for a, p in alt)]
                if not alts:
                    return None
                if len(alts) == len(d):
                    nd.append(d)
                elif len(alts) == 1:
                    for a, p in alts[0]:
                        n.lits.setdefault(a, p)
                else:
                    nd.append(frozenset(alts))
            n.dis = tuple(nd)
        return n

    def add_did(self, t):
        if t in self.did:
            return self
        n = self.copy()
        n.did = self.did + (t,)
        return n


def unwas(lits):
    """Facts about what was overwritten later count as facts about the state the function started in."""
    was = [a for a in lits if a[0] == "was"]
    if not was:
        return lits
    out = {a: p for a, p in lits.items() if a[0] != "was"}
    for a in was:
        if not lit_conflict(out, a[1], lits[a]):
            out[a[1]] = lits[a]
    return out


def unwas_dis(d):
    """The same inside alternatives."""
    out = set()
    for g in d:
        lits = {}
        rest = set()
        for x in g:
            if x[0] == "dis":
                rest.add(("dis", unwas_dis(x[1])))
            else:
                lits[x[0]] = x[1]
        out.add(frozenset(unwas(lits).items()) | rest)
    return frozenset(out)


def tracked(v):
    """A loop result whose term says already what each iteration adds, and when."""
    return v[0] in ("map", "dictmap")


class Row:
    __slots__ = ("kind", "lits", "dis", "did", "value", "heap", "line")

    def __init__(self, kind, st, value, line=0):
        self.kind = kind
        self.lits = unwas(st.lits)
        self.dis = tuple(map(unwas_dis, st.dis)) if st.dis and "was" in repr(st.dis) else st.dis
        self.did = st.did
        self.heap = st.heap
        self.value = value
        self.line = line


class Engine:
    def __init__(self, program, atoms=None, inline_public=False):
        self.p = program
        setup_classes(program)
        self.atoms = atoms  # dict qual -> [params] or None (derive: public are atoms)
        self.globs = frozenset(atoms.get("*globals", ())) if atoms is not None else frozenset()
        self.folder = tables.Folder(program)
        self._oid = {}
        self._grown = None
        self._pw = {}
        self.used = set()   # functions that are not atoms, met so far
        self.tailn = 0      # functions on the stack that the reference tree does not have
        self.known = None if atoms is None or "*private" not in atoms else set(atoms) | set(atoms["*private"])
        self.steps = 0
        self.stack = []
        self.try_depth = 0
        self.collect = []
        self.objn = 0
        self.lock_inline = set()
        self.alias = {}
        self._locals = {}
        self._nn = dict.fromkeys(atoms.get("*values", ()), True) if atoms is not None else {}
        self._live = {}
        self.gates_on = True
        self.gates = {}
        self.level, self.lv, self.hard, self.max_steps = 0, LEVELS[0], LEVELS[0][2], STEPS[0]

    # ------------------------------------------------------------ API
    def table(self, qual, assume=None, level=0):
        """The path table, at the finest level of path sensitivity that fits the budget (kept in self.level)."""
        for self.level in range(level, len(LEVELS)):
            self.lv = LEVELS[self.level]
            self.hard = self.lv[2]
            self.max_steps = STEPS[self.level]
            try:
                rows = self._table(qual, assume)
            except Budget:
                continue
            if len(rows) <= MAXROWS:
                return rows
        raise Budget()

    def _table(self, qual, assume):
        f = self.p.funcs[qual]
        self.gates = {}
        self.steps = 0
        self.stack = []
        self.try_depth = 0
        self.collect = []
        self.objn = 0
        st = State()
        for i, prm in enumerate(f.params):
            st.env[prm] = ("param", prm)
        if f.vararg:
            st.env[f.vararg] = ("param", "*" + f.vararg)
        if f.kwarg:
            st.env[f.kwarg] = ("param", "**" + f.kwarg)
        if f.kind in ("method", "prop") and f.params:
            st.env[f.params[0]] = ("param", "self")
        if f.kind == "classm" and f.params:
            st.env[f.params[0]] = ("param", "cls")
        if assume:
            for a, p in assume:
                st2 = st.with_lit(a, p)
                if st2 is None:
                    return []
                st = st2
        outs = self.run_body(f, st)
        rows = []
        for kind, s, v, ln in outs:
            if kind == "return":
                if is_bool_term(v):
                    for s2, b in self.decide(s, v):
                        rows.append(Row("return", s2, ("const", b), ln))
                else:
                    rows.append(Row("return", s, v, ln))
            elif kind == "raise":
                if v is not None and v[0] == "implicit":
                    continue
                rows.append(Row("raise", s, v, ln))
        for k in sorted(self.gates, key=skey):
            r = Row("loop", State(), ("loop", k, frozenset(self.gates[k])))
            rows.append(r)
        return rows

    def run_body(self, f, st):
        self.stack.append(f)
        try:
            outs = self.block(f.node.body, [st], f)
        finally:
            self.stack.pop()
        res = []
        for kind, s, v, ln in outs:
            if kind == "next":
                res.append(("return", s, NONE, getattr(f.node, "end_lineno", 0)))
            elif kind in ("return", "raise"):
                res.append((kind, s, v, ln))
        return res

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, f):
        outs = []
        cur = states
        for st_node in stmts:
            nxt = []
            for s in cur:
                for o in self.stmt(st_node, s, f):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) > 1:
                cur = self.merge(cur, (f, getattr(st_node, "end_lineno", None)))
            if not cur:
                break
        outs.extend(("next", s, None, 0) for s in cur)
        return outs

    def dead(self, where):
        """Local names that are not read after a source position (they need not keep states apart)."""
        if where is None or where[1] is None:
            return frozenset()
        f, line = where
        c = self._live.get(id(f.node))
        if c is None:
            last, loops = {}, []
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                    last[x.id] = max(last.get(x.id, 0), x.lineno)
            for x in ast.walk(f.node):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            last[y.id] = 10 ** 9
                elif isinstance(x, (ast.For, ast.While)):
                    loops.append((x.lineno, x.end_lineno, {y.id for y in ast.walk(x) if isinstance(y, ast.Name)
                                                           and not isinstance(y.ctx, ast.Store)}))
            c = self._live[id(f.node)] = (last, loops, {}, f.node)
        last, loops, memo, _ = c
        if line in memo:
            return memo[line]
        alive = {n for n, ln in last.items() if ln > line}
        for a, b, ns in loops:
            if a <= line < b:
                alive |= ns
        r = memo[line] = alive
        return r

    def merge(self, states, where=None):
        """Join states.  A handful of states stay apart; more are joined when they agree on the completed calls and on
        the live variables, and beyond HARD when they agree on the completed calls and live constants."""
        alive = self.dead(where) if where is not None and where[1] is not None else None
        if len(states) <= self.soft():
            return states
        for level in (2, 1) if len(states) <= MAX_STATES else (1, 0):
            groups = {}
            for s in states:
                groups.setdefault(self._sig(s, level == 0, alive, level == 2), []).append(s)
            if level < 2 or len(groups) <= self.hard:
                break
        if len(groups) == len(states):
            return states
        out = []
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.join(g))
        return out

    def soft(self):
        return self.lv[0] if len(self.stack) - self.tailn < 3 else self.lv[1]

    def _sig(self, s, force, alive=None, fine=False):
        consts = []
        if fine:
            vs = tuple((k, skey(v)) for k, v in sorted(s.env.items()) if alive is None or k in alive)
            return (frozenset(d for d in s.did if not droppable_did(d)), vs, s.exc,
                    frozenset(s.heap.items()))
        if not force:
            for k, v in s.env.items():
                if alive is not None and k not in alive:
                    continue
                if is_const(v) and (v[1] is None or isinstance(v[1], (bool, str, int))):
                    consts.append((k, v[1], type(v[1]).__name__))
                elif v and v[0] in ("B", "Band", "Bor"):
                    consts.append((k, skey(v), "B"))
        return (frozenset(d for d in s.did if not droppable_did(d)), tuple(sorted(consts, key=repr)),
                s.exc, )

    def join(self, g):
        common = dict(g[0].lits)
        for s in g[1:]:
            for a in list(common):
                if s.lits.get(a) != common[a]:
                    del common[a]
        cdis = [d for d in g[0].dis if all(d in s.dis for s in g[1:])]
        alts = []
        for s in g:
            alt = frozenset((a, p) for a, p in s.lits.items() if a not in common)
            own = [alt]
            for d in s.dis:
                if d in cdis:
                    continue
                if len(own) * len(d) > 12:
                    continue
                nx = []
                for o in own:
                    od = dict(o)
                    od.update(common)
                    for y in sorted(d, key=skey):
                        if not any(lit_conflict(od, a, p) for a, p in y):
                            nx.append(o | frozenset((a, p) for a, p in y if common.get(a) != p))
                if nx:
                    own = nx
            alts.extend(own)
        if len(alts) > 40:
            alts = [frozenset()]
        dis = list(cdis)
        aset = simplify_alts(alts)
        if aset is not None:
            if len(aset) == 1:
                for a, p in next(iter(aset)):
                    common[a] = p
            else:
                dis.append(frozenset(aset))
        env = {}
        for k in g[0].env:
            vs = [s.env.get(k) for s in g]
            if any(v is None for v in vs):
                vs = [v for v in vs if v is not None]
            env[k] = vs[0] if all(v == vs[0] for v in vs) else mk_phi(vs)
        for s in g[1:]:
            for k in s.env:
                if k not in env:
                    env[k] = s.env[k]
        heap = {}
        locs = set()
        for s in g:
            locs |= set(s.heap)
        for k in sorted(locs, key=skey):
            vs = [s.heap.get(k, k) for s in g]
            heap[k] = vs[0] if all(v == vs[0] for v in vs) else mk_phi(vs)
        did = tuple(d for d in g[0].did if all(d in s.did for s in g[1:]))
        return State(env, heap, common, tuple(dis), did, g[0].exc)

    def stmt(self, n, s, f):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        self.collect.append([])
        try:
            outs = list(self._stmt(n, s, f))
        finally:
            raised = self.collect.pop()
        for rs, exc in raised:
            outs.append(("raise", rs, exc, n.lineno))
        return outs

    def _stmt(self, n, s, f):
        m = f.module
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return [("next", s, None, 0)]
            return [("next", s2, None, 0) for s2, _ in self.ev(n.value, s, f)]
        if isinstance(n, ast.Assign):
            outs = []
            for s2, v in self.ev(n.value, s, f):
                cur = [s2]
                for t in n.targets:
                    cur = [x for c in cur for x in self.assign(t, v, c, f)]
                outs.extend(("next", c, None, 0) for c in cur)
            return outs
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [("next", s, None, 0)]
            return [("next", c, None, 0) for s2, v in self.ev(n.value, s, f) for c in self.assign(n.target, v, s2, f)]
        if isinstance(n, ast.AugAssign):
            op = ast.BinOp(left=_load(n.target), op=n.op, right=n.value)
            ast.copy_location(op, n)
            ast.fix_missing_locations(op)
            return [("next", c, None, 0) for s2, v in self.ev(op, s, f) for c in self.assign(n.target, v, s2, f)]
        if isinstance(n, ast.Return):
            if n.value is None:
                return [("return", s, NONE, n.lineno)]
            if isinstance(n.value, ast.Call):
                n.value._tail = True
            return [("return", s2, v, n.lineno) for s2, v in self.ev(n.value, s, f)]
        if isinstance(n, ast.Raise):
            outs = []
            if n.exc is None:
                return [("raise", s, s.exc or ("exc", "?", None), n.lineno)]
            for s2, e in self.exc_term(n.exc, s, f):
                outs.append(("raise", s2, e, n.lineno))
            return outs
        if isinstance(n, ast.If):
            tr, fa = self.cond_split(n.test, s, f)
            outs = []
            if tr:
                outs.extend(self.block(n.body, self.merge_if_many(tr), f))
            if fa:
                if n.orelse:
                    outs.extend(self.block(n.orelse, self.merge_if_many(fa), f))
                else:
                    outs.extend(("next", x, None, 0) for x in self.merge_if_many(fa))
            return outs
        if isinstance(n, ast.Assert):
            tr, fa = self.cond_split(n.test, s, f)
            return [("next", x, None, 0) for x in tr] + [
                ("raise", x, ("exc", "AssertionError", None), n.lineno) for x in fa]
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return self.for_loop(n, s, f)
        if isinstance(n, ast.While):
            return self.while_loop(n, s, f)
        if isinstance(n, ast.Try):
            return self.try_stmt(n, s, f)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            cur = [s]
            for it in n.items:
                nx = []
                for c in cur:
                    for s2, v in self.ev(it.context_expr, c, f):
                        if it.optional_vars is not None:
                            nx.extend(self.assign(it.optional_vars, ("ctx", v), s2, f))
                        else:
                            nx.append(s2)
                cur = nx
            return self.block(n.body, cur, f)
        if isinstance(n, ast.Break):
            return [("break", s, None, n.lineno)]
        if isinstance(n, ast.Continue):
            return [("continue", s, None, n.lineno)]
        if isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal)):
            return [("next", s, None, 0)]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            s = s.copy()
            if isinstance(n, ast.Import):
                for al in n.names:
                    nm = al.asname or al.name.split(".")[0]
                    s.env[nm] = ("modref", al.name if al.asname else al.name.split(".")[0])
            else:
                for al in n.names:
                    r = None
                    if n.module in self.p.modules:
                        r = self.p.resolve(self.p.modules[n.module], al.name)
                    if r is None:
                        r = self.p.resolve_attr(n.module or "", al.name)
                    s.env[al.asname or al.name] = self.sym_term(r)
            return [("next", s, None, 0)]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s = s.copy()
            ck = f"{f.qual}:{ast.dump(n)}"
            s.env[n.name] = ("closure", n.name, ck)
            self._closures()[ck] = (n, f)
            return [("next", s, None, 0)]
        if isinstance(n, ast.ClassDef):
            s = s.copy()
            s.env[n.name] = ("localclass", n.name)
            return [("next", s, None, 0)]
        if isinstance(n, ast.Delete):
            s = s.copy()
            for t in n.targets:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                else:
                    for s2, loc in self.loc(t, s, f):
                        s = self.effect(s2, ("del", loc))
                        s = self.stale(s, loc)
            return [("next", s, None, 0)]
        if isinstance(n, ast.Match):
            return self.match_stmt(n, s, f)
        return [("next", s, None, 0)]

    def _closures(self):
        if not hasattr(self, "_clos"):
            self._clos = {}
        return self._clos

    def merge_if_many(self, states):
        if len(states) <= 1:
            return states
        return self.merge(states)

    def match_stmt(self, n, s, f):
        outs = []
        rest = [(s2, v) for s2, v in self.ev(n.subject, s, f)]
        for case in n.cases:
            nrest = []
            for s2, v in rest:
                bt, binds = self.pattern(case.pattern, v, f)
                for s3, b in self.decide(s2, bt):
                    if b:
                        s4 = s3.copy()
                        s4.env.update(binds)
                        if case.guard is not None:
                            tr, fa = self.cond_split(case.guard, s4, f)
                            outs.extend(self.block(case.body, tr, f) if tr else [])
                            nrest.extend((x, v) for x in fa)
                        else:
                            outs.extend(self.block(case.body, [s4], f))
                    else:
                        nrest.append((s3, v))
            rest = nrest
        outs.extend(("next", s2, None, 0) for s2, _ in rest)
        return outs

    def pattern(self, p, v, f):
        if isinstance(p, ast.MatchValue):
            for _, t in self.ev(p.value, State(), f):
                return simp_atom(("eq", v, t)), {}
        if isinstance(p, ast.MatchSingleton):
            return simp_atom(("eq", v, ("const", p.value))), {}
        if isinstance(p, ast.MatchOr):
            bs = [self.pattern(x, v, f)[0] for x in p.patterns]
            return bor(bs), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ({p.name: v} if p.name else {})
            b, bi = self.pattern(p.pattern, v, f)
            if p.name:
                bi = dict(bi)
                bi[p.name] = v
            return b, bi
        if isinstance(p, ast.MatchClass):
            cl = self.class_names(p.cls, State(), f)
            return simp_atom(("inst", v, cl)), {}
        return ("B", ("truth", ("match", ast.dump(p), v)), True), {}

    # -------- exceptions
    def exc_term(self, e, s, f):
        if isinstance(e, ast.Call):
            name = self.exc_name(e.func, s, f)
            fi = None
            outs = [(s, None)]
            for kw in e.keywords:
                if kw.arg == "failinfo":
                    outs = [(s2, v) for s2, v in self.ev(kw.value, s, f)]
            return [(s2, ("exc", name, v)) for s2, v in outs]
        if isinstance(e, ast.Name) and e.id in s.env and s.env[e.id] and s.env[e.id][0] == "exc":
            return [(s, s.env[e.id])]
        if isinstance(e, ast.Name) and e.id in s.env and s.env[e.id][0] == "implicit":
            return [(s, ("exc", s.env[e.id][1], None))]
        if isinstance(e, (ast.Name, ast.Attribute)):
            return [(s, ("exc", self.exc_name(e, s, f), None))]
        return [(s2, ("exc", "?", v)) for s2, v in self.ev(e, s, f)]

    def exc_name(self, node, s, f):
        if isinstance(node, ast.Name) and node.id in s.env:
            return skey(s.env[node.id])
        r = self.p.resolve_expr(f.module, node)
        if r is None:
            return node.id if isinstance(node, ast.Name) else ast.unparse(node)
        if r[0] in ("class", "func", "ext"):
            return r[1]
        return ast.unparse(node)

    def exc_mro(self, name):
        if name in self.p.classes:
            out = []
            for x in self.p.mro(name):
                out.append(x)
                if x not in self.p.classes:
                    out.extend(self.exc_mro(x)[1:])
            return out
        short = name.split(".")[-1]
        c = getattr(builtins, short, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return [name, short] + [b.__name__ for b in c.__mro__[1:] if b is not object]
        return [name, "Exception", "BaseException"]

    def exc_match(self, exc, handler_names):
        """'yes' / 'no' / 'maybe' for an exception term against handler class names."""
        if handler_names is None:
            return "yes"
        if exc is None:
            return "maybe"
        if exc[0] == "implicit" or exc[1] == "?":
            if "Exception" in handler_names or "BaseException" in handler_names:
                return "yes"
            return "maybe"
        mro = self.exc_mro(exc[1])
        shorts = {x.split(".")[-1] for x in mro}
        for h in handler_names:
            if h in mro or h.split(".")[-1] in shorts:
                return "yes"
        # a handler for a subclass of the raised class
        return "no"

    def try_stmt(self, n, s, f):
        outs = []
        has_handlers = bool(n.handlers)
        if has_handlers:
            self.try_depth += 1
        try:
            body = self.block(n.body, [s], f)
        finally:
            if has_handlers:
                self.try_depth -= 1
        res = []
        normal = []
        pend = []
        for o in body:
            if o[0] == "next":
                normal.append(o[1])
            elif o[0] == "raise":
                pend.append(o)
            else:
                res.append(o)
        if n.orelse and normal:
            res.extend(self.block(n.orelse, normal, f))
        else:
            res.extend(("next", x, None, 0) for x in normal)
        for o in pend:
            st, exc = o[1], o[2]
            remaining = True
            for h in n.handlers:
                names = None
                if h.type is not None:
                    names = self.handler_names(h.type, st, f)
                mt = self.exc_match(exc, names)
                if mt == "no":
                    continue
                hs = st.copy()
                e = exc
                if exc is not None and exc[0] == "implicit" and names:
                    e = ("implicit", names[0] if len(names) == 1 else "|".join(sorted(names)))
                    if exc[0] == "implicit" and len(exc) > 2:
                        a = ("failc", exc[2], frozenset(names))
                if exc is not None and exc[0] == "implicit" and len(exc) > 2:
                    pass
                hs.exc = e if e is not None and e[0] == "exc" else ("exc", e[1] if e else "?", None)
                if h.name:
                    hs.env[h.name] = hs.exc
                ho = self.block(h.body, [hs], f)
                for x in ho:
                    x[1].exc = s.exc
                res.extend(ho)
                if mt == "yes":
                    remaining = False
                    break
            if remaining:
                res.append(o)
        if n.finalbody:
            fin = []
            for o in res:
                for x in self.block(n.finalbody, [o[1]], f):
                    if x[0] == "next":
                        fin.append((o[0], x[1], o[2], o[3]))
                    else:
                        fin.append(x)
            res = fin
        # join handler continuations
        nx = [o[1] for o in res if o[0] == "next"]
        oth = [o for o in res if o[0] != "next"]
        if len(nx) > 1:
            nx = self.merge(nx)
        return oth + [("next", x, None, 0) for x in nx]

    def handler_names(self, t, s, f):
        if isinstance(t, ast.Tuple):
            out = []
            for e in t.elts:
                out.extend(self.handler_names(e, s, f))
            return out
        r = self.p.resolve_expr(f.module, t)
        if r is not None and r[0] == "assign" and isinstance(r[3], ast.Tuple):
            mod = self.p.modules[r[1]]
            out = []
            for e in r[3].elts:
                rr = self.p.resolve_expr(mod, e)
                out.append(rr[1] if rr else ast.unparse(e))
            return out
        if r is None:
            return [t.id if isinstance(t, ast.Name) else ast.unparse(t)]
        return [r[1]]

    # -------- loops
    def param_writes(self, fn):
        """Parameters a function of the repository changes in place (directly)."""
        c = self._pw.get(fn.qual)
        if c is None:
            c = self._pw[fn.qual] = set()
            names = self.assigned_names(fn.node.body, fn, True)
            c |= {x for x in names if x in fn.params}
        return c

    def assigned_names(self, body, f=None, inplace=False):
        names = set()
        for st in body:
            for x in ast.walk(st):
                if f is not None and isinstance(x, ast.Call) and self.known is not None:
                    fn = None
                    if isinstance(x.func, ast.Name):
                        r = self.p.resolve(f.module, x.func.id)
                        fn = self.p.funcs.get(r[1]) if r is not None and r[0] == "func" else None
                    elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                            and x.func.value.id in ("self", "cls") and f.cls is not None:
                        fn = self.p.find_method(f.cls.qual, x.func.attr)
                    if fn is not None and fn.qual not in self.known:
                        ps = fn.params[1:] if isinstance(x.func, ast.Attribute) and fn.kind != "static" else fn.params
                        w = self.param_writes(fn)
                        for prm, a in list(zip(ps, x.args)) + [(k.arg, k.value) for k in x.keywords]:
                            if prm in w and isinstance(a, ast.Name):
                                names.add(a.id)
                if inplace and isinstance(x, ast.Name):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                      and isinstance(x.func.value, ast.Name) and x.func.attr in MUTATORS):
                    names.add(x.func.value.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    names.add(x.value.id)
        return names

    def iter_info(self, it):
        """(base term, function elem_value) for an iterable term."""
        if it[0] == "call" and it[1] == "enumerate" and it[2]:
            base = self.iter_base(it[2][0][1])
            return base, ("tuple", (("idx", base), self.elem(it[2][0][1], base)))
        if it[0] == "call" and it[1] == "range":
            args = [a[1] for a in it[2]]
            stop = args[0] if len(args) == 1 else args[1]
            start = ("const", 0) if len(args) == 1 else args[0]
            if stop[0] == "call" and stop[1] == "len" and start == ("const", 0) and len(args) < 3:
                base = self.iter_base(stop[2][0][1])
                return base, ("idx", base)
            return it, ("elem", it)
        if it[0] == "call" and it[1] == "zip":
            bases = [self.iter_base(a[1]) for a in it[2]]
            return ("zip",) + tuple(bases), ("tuple", tuple(self.elem(a[1], b) for a, b in zip(it[2], bases)))
        if it[0] == "mcall" and it[2] in ("items", "values") and not it[3] and it[1][0] == "dictmap" and it[1][1][
                0] == "map" and not it[1][1][2] and it[1][1][3][0] == "tuple":
            m = it[1][1]
            return self.iter_base(m), m[3] if it[2] == "items" else m[3][1][1]
        if it[0] == "mcall" and it[2] == "items" and not it[3]:
            base = self.iter_base(it[1])
            return base, ("tuple", (("elem", base), ("item", it[1], ("elem", base))))
        if it[0] == "mcall" and it[2] == "values" and not it[3]:
            base = self.iter_base(it[1])
            return base, ("item", it[1], ("elem", base))
        base = self.iter_base(it)
        return base, self.elem(it, base)

    def iter_base(self, it):
        while True:
            if it[0] == "call" and it[1] in ("list", "tuple", "sorted", "reversed", "set", "iter") and len(it[2]) == 1:
                it = it[2][0][1]
            elif it[0] == "mcall" and it[2] == "keys" and not it[3]:
                it = it[1]
            elif it[0] == "map" and not it[2]:
                it = self.iter_base(it[1])
                return it
            elif it[0] == "dictmap":
                it = it[1]
            else:
                return it

    def elem(self, it, base):
        while it[0] == "call" and it[1] in ("list", "tuple", "sorted", "reversed", "set", "iter") and len(it[2]) == 1:
            it = it[2][0][1]
        if it[0] == "map" and not it[2]:
            return it[3]
        if it[0] == "dictmap":
            return it[1][3][1][0] if it[1][0] == "map" and not it[1][2] and it[1][3][0] == "tuple" else ("elem", it[1])
        if it[0] == "mcall" and it[2] == "keys":
            it = it[1]
        return ("elem", it)

    def for_loop(self, n, s, f):
        outs = []
        for s2, it in self.ev(n.iter, s, f):
            it = self.literal_iter(it)
            if it[0] in ("list", "tuple", "set") and len(it[1]) <= 8 and not any(
                    isinstance(x, tuple) and x and x[0] == "star" for x in it[1]):
                outs.extend(self.unroll(n, s2, it[1], f))
                continue
            if is_const(it) and isinstance(it[1], (tuple, str)) and isinstance(it[1], tuple) and len(it[1]) <= 8:
                outs.extend(self.unroll(n, s2, [("const", x) for x in it[1]], f))
                continue
            base, ev = self.iter_info(it)
            outs.extend(self.loop_core(n, s2, f, base, n.target, ev, n.body, n.orelse))
        return outs

    def literal_iter(self, it):
        """range, enumerate, zip and reversed over literals of known length, as the list of their elements."""
        if it[0] != "call" or it[1] not in ("range", "enumerate", "zip", "reversed", "list", "tuple") or not it[2] \
                or any(k == "*" for k, _ in it[2]):
            return it
        args = [a for _, a in it[2]]
        if it[1] == "range":
            if all(is_const(a) and isinstance(a[1], int) for a in args):
                r = range(*[a[1] for a in args])
                if len(r) <= 3:
                    return ("list", tuple(("const", x) for x in r))
            return it
        subs = [self.literal_iter(a) for a in args]
        lits = [a for a in subs if a[0] in ("list", "tuple") and not any(
            isinstance(x, tuple) and x and x[0] == "star" for x in a[1])]
        if it[1] == "enumerate" and len(it[2]) == 1 and len(lits) == 1:
            return ("list", tuple(("tuple", (("const", i), x)) for i, x in enumerate(lits[0][1])))
        if it[1] == "zip" and len(lits) == len(args) and all(k.isdigit() for k, _ in it[2]):
            return ("list", tuple(("tuple", x) for x in zip(*[a[1] for a in lits])))
        if it[1] == "reversed" and len(lits) == 1:
            return ("list", tuple(reversed(lits[0][1])))
        if it[1] in ("list", "tuple") and len(lits) == 1 and len(args) == 1:
            return lits[0]
        return it

    def unroll(self, n, s, elems, f):
        cur = [s]
        outs = []
        broke = []
        for e in elems:
            nx = []
            for c in cur:
                for c2 in self.assign(n.target, e, c, f):
                    for o in self.block(n.body, [c2], f):
                        if o[0] in ("next", "continue"):
                            nx.append(o[1])
                        elif o[0] == "break":
                            broke.append(o[1])
                        else:
                            outs.append(o)
            cur = self.merge(nx) if len(nx) > 1 else nx
        if n.orelse and cur:
            for o in self.block(n.orelse, cur, f):
                outs.append(o)
        else:
            outs.extend(("next", c, None, 0) for c in cur)
        outs.extend(("next", c, None, 0) for c in broke)
        return outs

    def loop_core(self, n, s, f, base, target, ev, body, orelse, extra=None, keep=frozenset()):
        assigned = self.assigned_names(body, f) - keep
        if target is not None:
            tn = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        else:
            tn = set()
        assigned |= extra or set()
        assigned -= tn
        h = s.copy()
        # drop facts about variables that change in the loop: rename them
        live = {}
        for v in sorted(assigned):
            init = s.env.get(v)
            if init is None:
                continue
            live[v] = init
            h.env[v] = ("acc", base, init)
        entry = [h] if target is None else self.assign(target, ev, h, f)
        outs = []
        normal, exits = [], []
        for e in entry:
            for o in self.block(body, [e], f):
                if o[0] in ("next", "continue"):
                    normal.append(o[1])
                else:
                    exits.append(o)
        if extra is None:
            changed = {k for st in normal for k, v in s.env.items() if k not in assigned and k not in tn
                       and k in st.env and st.env[k] != v}
            if changed:
                return self.loop_core(n, s, f, base, target, ev, body, orelse, changed, keep)
        if normal and not keep:
            # a variable changed only where the loop is left has its first value in every iteration
            # and so has one that every iteration sets back to it
            same = frozenset(v for v in live if all(st.env.get(v) in (("acc", base, live[v]), live[v]) for st in normal))
            if same:
                return self.loop_core(n, s, f, base, target, ev, body, orelse, extra, same)
        subs = tuple(base[1:]) if base[0] == "zip" else ()
        marks = (("elem", base), ("idx", base)) + tuple((k, b) for b in subs for k in ("elem", "idx"))

        def mentions(t):
            return any(contains(t, mk) for mk in marks) or contains_acc(t, base)

        def split_lits(st):
            inv, per = [], []
            for a, p in st.lits.items():
                if h.lits.get(a) == p:
                    continue
                if a[0] == "was" and mentions(a):
                    if lit_conflict(st.lits, a[1], p):
                        continue
                    a = a[1]
                (per if mentions(a) else inv).append((a, p))
            for d in st.dis:
                if d in h.dis:
                    continue
                (per if mentions(d) else inv).append(("dis", d))
            return inv, per

        def wit(t):
            for b in subs:
                t = subst(subst(t, ("elem", b), ("wit", b)), ("idx", b), ("widx", b))
            t = subst(t, ("elem", base), ("wit", base))
            return subst(t, ("idx", base), ("widx", base))

        def exit_state(st, env_src):
            inv, per = split_lits(st)
            r = s.copy()
            for x in inv:
                if x[0] == "dis":
                    r.dis = r.dis + (x[1],)
                else:
                    r2 = r.with_lit(*x)
                    if r2 is None:
                        return None, inv, per
                    r = r2
            if per:
                own = per
                for u in leave or ():
                    if u <= frozenset(inv + per):
                        own = [x for x in per if x in u]
                        break
                if own:
                    r2 = r.with_lit(("exists", base, norm_set(own)), True)
                else:
                    r2 = nonempty(r, base, True)
                if r2 is None:
                    return None, inv, per
                r = r2
                for x in per:
                    if x not in own:
                        r2 = r.with_lit(wit(x[0]), x[1])
                        if r2 is None:
                            return None, inv, per
                        r = r2
            r = r.copy()
            r.did = s.did + tuple(wit(d) for d in st.did if d not in s.did)
            r.heap = {wit(k): wit(v) for k, v in st.heap.items()}
            r.exc = st.exc
            if env_src is not None:
                r.env = {k: wit(v) for k, v in env_src.items()}
            return r, inv, per

        # the simplified conditions under which an iteration leaves the loop
        whole = []
        for o in exits:
            inv, per = split_lits(o[1])
            flat = [frozenset(x for x in inv + per if x[0] != "dis")]
            for x in inv + per:
                if x[0] == "dis":
                    flat = [a | b for a in flat for b in sorted(x[1], key=skey)]
            if len(flat) > 12:
                whole = None
                break
            whole.extend(flat)
        leave = None
        if whole and len(whole) <= 40:
            core = frozenset.intersection(*whole)
            if len(whole) > 1 and core and tautology([w - core for w in whole], {**s.lits, **dict(core)}):
                leave = [core]
            elif not any(x[0] == "dis" for o in exits for x in sum(split_lits(o[1]), [])):
                leave = simplify_alts(whole)

        exit_info = []
        breaks = []
        for o in exits:
            kind, st, v, ln = o
            r, inv, per = exit_state(st, st.env)
            exit_info.append((inv, per))
            if r is None:
                continue
            if kind == "break":
                breaks.append(r)
            else:
                outs.append((kind, r, wit(v) if v is not None else None, ln))
        # flag-style constant assignments in normal iterations
        flagged = []
        for st in normal:
            ch = {}
            for v, init in live.items():
                ev_ = st.env.get(v)
                if ev_ is not None and is_const(ev_) and (is_const(init) or init[0] == "acc" and len(init) == 3) \
                        and ev_ != init:
                    ch[v] = ev_
            if ch:
                flagged.append((st, ch))
        if len(flagged) > 4:
            flagged = []
        # exhaustion state
        ex = s.copy()
        ok = True

        def forbid(cur, inv, per):
            if any(x[0] == "dis" for x in inv):
                return cur
            if not inv and not per:
                return nonempty(cur, base, False)
            if not inv:
                return cur.with_lit(("exists", base, norm_set(per)), False)
            if not per:
                if len(inv) == 1:
                    a, p = inv[0]
                    b = ("truth", base)
                    if nonempty(cur, base, False) is None:
                        return cur.with_lit(a, not p)
                    cur = cur.copy()
                    cur.dis = cur.dis + (frozenset([frozenset([(a, not p)]), frozenset([(b, False)])]),)
                    return cur
                return cur
            alts = [frozenset([(a, not p)]) for a, p in inv] + [
                frozenset([(("exists", base, norm_set(per)), False)])]
            alts = [x for x in alts if not any(lit_conflict(cur.lits, a, p) for a, p in x)]
            if not alts:
                return None
            if len(alts) == 1:
                for a, p in next(iter(alts)):
                    cur = cur.with_lit(a, p)
                    if cur is None:
                        return None
                return cur
            cur = cur.copy()
            cur.dis = cur.dis + (frozenset(alts),)
            return cur

        if leave:
            exit_info = [([x for x in u if not mentions(x[0])], [x for x in u if mentions(x[0])])
                         for u in sorted(leave, key=skey)]
        for inv, per in exit_info:
            ex = forbid(ex, inv, per)
            if ex is None:
                ok = False
                break
        flag_states = []
        if ok:
            fl_infos = [(st, ch) + split_lits(st) for st, ch in flagged]
            for st, ch, inv, per in fl_infos:
                fs = ex
                for x in inv:
                    if fs is None:
                        break
                    if x[0] == "dis":
                        fs = fs.copy()
                        fs.dis += (x[1],)
                    else:
                        fs = fs.with_lit(*x)
                if fs is not None and per:
                    fs = fs.with_lit(("exists", base, norm_set(per)), True)
                if fs is None:
                    continue
                fs = fs.copy()
                for v, c in ch.items():
                    fs.env[v] = c
                flag_states.append((fs, set(ch)))
            for st, ch, inv, per in fl_infos:
                if ex is None:
                    break
                ex = forbid(ex, inv, per)
            finals = [(x, chs) for x, chs in flag_states]
            if ex is not None:
                finals.append((ex, set()))
            fl_ids = {id(st) for st, _ in flagged}
            for x, chs in finals:
                x = x.copy()
                for v, init in live.items():
                    if v in chs:
                        continue
                    ends = [st.env.get(v) for st in normal]
                    acc = ("acc", base, init)
                    if all(e == acc for e in ends if e is not None) or (
                            flagged and all(id(st) in fl_ids or st.env.get(v) == acc for st in normal)):
                        x.env[v] = init
                        continue
                    x.env[v] = self.acc_value(base, init, acc, normal, v, split_lits)
                    if not tracked(x.env[v]):
                        self.gate(acc, [(sum(split_lits(st), []), st.env.get(v)) for st in normal])
                # forall effects
                if normal:
                    self.loop_effects(x, s, base, normal, split_lits, mentions)
                # remember names newly defined in the loop body
                for st in normal:
                    for k, v in st.env.items():
                        if k not in x.env:
                            x.env[k] = ("last", base, v)
                if orelse:
                    outs.extend(self.block(orelse, [x], f))
                else:
                    outs.append(("next", x, None, 0))
        for b in breaks:
            for v in live:
                if b.env.get(v) == ("acc", base, live[v]):
                    b.env[v] = live[v] if not any(
                        st.env.get(v) != ("acc", base, live[v]) for st in normal) else b.env[v]
            outs.append(("next", b, None, 0))
        return outs

    def gate(self, key, pairs):
        """Note what one iteration of a loop does to a variable or container slot: {(condition, new value)}."""
        if not self.gates_on:
            return
        alts = frozenset((frozenset(x for x in c if x[0] != "dis" and x[0][0] not in ("was", "fail")), v)
                         for c, v in pairs if v is not None)
        if len(alts) <= 24 and any(v != key for _, v in alts):
            self.gates.setdefault(key, set()).add(alts)

    def loop_effects(self, x, s, base, normal, split_lits, mentions):
        """Record on exit state x what the iterations (ending in `normal`) did."""
        newd = []
        for st in normal:
            for d in st.did:
                if d not in s.did and d not in newd:
                    newd.append(d)
        for d in newd:
            having = [st for st in normal if d in st.did]
            if len(having) == len(normal):
                x.did = x.did + (("each", base, frozenset(), d),)
            elif mentions(d):
                cl = None
                for st in having:
                    per = frozenset(z for z in split_lits(st)[1])
                    cl = per if cl is None else cl & per
                x.did = x.did + (("each", base, norm_set(cl), d),)
        hl = set()
        for st in normal:
            hl |= {k for k in st.heap if st.heap[k] != s.heap.get(k)}
        for k in hl:
            vs = set()
            for st in normal:
                v = st.heap.get(k, k)
                vs |= set(v[1]) if v[0] == "phi" else {v}
            self.gate(("accw", base, k), [(sum(split_lits(st), []), st.heap.get(k, k)) for st in normal])
            x.heap[k] = ("accw", base, frozenset(vs - {k}))

    def acc_value(self, base, init, acc, normal, v, split_lits):
        ends = {}
        for st in normal:
            e = st.env.get(v)
            ends.setdefault(e, []).append(st)
        changed = [e for e in ends if e != acc and e is not None]
        if len(changed) == 1 and init in (("list", ()), ("call", "set", ()), ("set", ()), ("dict", ()), ("call", "dict", ())):
            e = changed[0]
            put = e[0] == "dput" and e[1] == acc and not contains(e[2:], acc)
            if put or e[0] == "app" and e[1] == acc and len(e[2]) == 1:
                per = None
                for st in ends[e]:
                    p = frozenset(split_lits(st)[1])
                    per = p if per is None else per & p
                if len(ends) == 1:
                    per = frozenset(x for x in per if len(ends[e]) == 1) if acc in ends else frozenset()
                val = ("tuple", e[2:]) if put else e[2][0]
                if base[0] == "map" and not contains((val, per), ("idx", base)):
                    # over the elements a comprehension picked: one comprehension
                    val = subst(val, ("elem", base), base[3])
                    per, base = base[2] | subst(frozenset(per), ("elem", base), base[3]), base[1]
                return ("dictmap", ("map", base, frozenset(per), val)) if put else ("map", base, frozenset(per), val)
        return ("acc", base, init, frozenset(changed))

    def while_loop(self, n, s, f, keep=frozenset()):
        # canonical index loop
        can = self.canon_while(n, s, f)
        if can is not None:
            return can
        assigned = self.assigned_names(n.body, f) - keep
        h = s.copy()
        base = ("while",)
        live = {}
        for v in sorted(assigned):
            init = s.env.get(v)
            if init is not None:
                live[v] = init
                h.env[v] = ("acc", base, init)
        outs = []
        tr, fa = self.cond_split(n.test, h, f)
        ends = []
        for e in tr:
            for o in self.block(n.body, [e], f):
                if o[0] in ("next", "continue"):
                    ends.append(o[1])
                elif o[0] == "break":
                    outs.append(("next", o[1], None, 0))
                else:
                    outs.append(o)
        if ends and not keep:
            same = frozenset(v for v in live if all(st.env.get(v) in (("acc", base, live[v]), live[v]) for st in ends))
            if same:
                return self.while_loop(n, s, f, same)

        def split_lits(st):
            return [], [(a, p) for a, p in st.lits.items() if h.lits.get(a) != p]

        for v, init in live.items():
            self.gate(("acc", base, init), [(split_lits(st)[1], st.env.get(v)) for st in ends])
        for x in fa:
            if ends:
                x = x.copy()
                self.loop_effects(x, h, base, ends, split_lits, lambda t: True)
            if n.orelse:
                outs.extend(self.block(n.orelse, [x], f))
            else:
                outs.append(("next", x, None, 0))
        return outs

    def canon_while(self, n, s, f):
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
                and isinstance(t.left, ast.Name) and n.body):
            return None
        i = t.left.id
        incs = [k for k, x in enumerate(n.body) if self._is_inc(x, i)]
        if len(incs) != 1:
            return None
        k = incs[0]
        for pos_, st in enumerate(n.body):
            if pos_ == k:
                continue
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and x.id == i and (isinstance(x.ctx, ast.Store) or pos_ > k):
                    return None
                if isinstance(x, ast.Continue) and pos_ < k:
                    return None
        body = n.body[:k] + n.body[k + 1:]
        if s.env.get(i) != ("const", 0):
            return None
        c = t.comparators[0]
        outs = []
        evs = self.ev(c, s, f)
        if any(not (lt[0] == "call" and lt[1] == "len") and not (
                is_const(lt) and isinstance(lt[1], int) and lt[1] <= 3) for _, lt in evs):
            return None
        for s2, lt in evs:
            if is_const(lt):
                loop = ast.For(ast.Name(id=i, ctx=ast.Store()), c, body or [ast.Pass()], n.orelse)
                ast.copy_location(loop, n)
                ast.fix_missing_locations(loop)
                outs.extend(self.unroll(loop, s2, [("const", x) for x in range(lt[1])], f))
                continue
            base = self.iter_base(lt[2][0][1])
            outs.extend(self.loop_core(n, s2, f, base, ast.Name(id=i, ctx=ast.Store()), ("idx", base),
                                       body or [ast.Pass()], n.orelse))
        return outs

    @staticmethod
    def _is_inc(x, i):
        if isinstance(x, ast.AugAssign):
            return (isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == i
                    and isinstance(x.value, ast.Constant) and x.value.value == 1)
        return (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                and x.targets[0].id == i and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add)
                and isinstance(x.value.left, ast.Name) and x.value.left.id == i
                and isinstance(x.value.right, ast.Constant) and x.value.right.value == 1)

    # ------------------------------------------------------------ assignment / effects
    def assign(self, t, v, s, f):
        if isinstance(t, ast.Name):
            s = s.copy()
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [s]
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if v[0] in ("tuple", "list") and len(v[1]) == len(t.elts) and not star:
                for e, x in zip(t.elts, v[1]):
                    cur = [y for c in cur for y in self.assign(e, x, c, f)]
                return cur
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    cur = [y for c in cur for y in self.assign(e.value, ("rest", v, i), c, f)]
                else:
                    cur = [y for c in cur for y in self.assign(e, self.item(v, ("const", i), None), c, f)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, s, f)
        outs = []
        for s2, loc in self.loc(t, s, f):
            if loc[0] == "item" and loc[1][0] == "dict" and isinstance(t.value, ast.Name) and is_const(loc[2]) and all(
                    is_const(k) for k, _ in loc[1][1]) and s2.env.get(t.value.id) == loc[1]:
                d = [(k, x) for k, x in loc[1][1] if k != loc[2]]
                if len(d) < len(loc[1][1]):
                    d = [(k, v if k == loc[2] else x) for k, x in loc[1][1]]
                else:
                    d.append((loc[2], v))
                s2 = s2.copy()
                s2.env[t.value.id] = ("dict", tuple(d))
                outs.append(s2)
                continue
            if loc[0] == "item" and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and local_dict(
                    loc[1]) and s2.env.get(t.value.id) == loc[1] and loc[2][0] not in ("slice", "idx"):
                s2 = s2.copy()
                s2.env[t.value.id] = ("dput", loc[1], loc[2], v)
                outs.append(s2)
                continue
            s2 = self.stale(s2, loc)
            s2 = s2.copy()
            s2.heap[loc] = v
            s2 = self.effect(s2, ("set", loc, v))
            outs.append(s2)
        return outs

    def loc(self, t, s, f):
        if isinstance(t, ast.Attribute):
            return [(s2, ("attr", b, t.attr)) for s2, b in self.ev(t.value, s, f)]
        if isinstance(t, ast.Subscript):
            return [(s3, ("item", b, i)) for s2, b in self.ev(t.value, s, f) for s3, i in self.ev(t.slice, s2, f)]
        return [(s, ("loc", ast.dump(t)))]

    def effect(self, s, term):
        return s.add_did(term)

    def stale(self, s, root):
        """A write to `root`: forget facts and cached reads that mention it."""
        bad = [a for a in s.lits if a[0] not in ("fail", "was") and contains(a, root)]
        hb = [k for k in s.heap if k != root and contains(k, root)]
        if not bad and not hb:
            return s
        s = s.copy()
        for a in bad:
            p = s.lits.pop(a)
            s.lits.setdefault(("was", a), p)
        for k in hb:
            del s.heap[k]
        return s

    # ------------------------------------------------------------ conditions
    def cond_split(self, test, s, f):
        tr, fa = [], []
        for s2, b in self.cond(test, s, f):
            (tr if b else fa).append(s2)
        return tr, fa

    def cond(self, e, s, f):
        """Evaluate a test short-circuiting; yields (state, bool)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s2, not b) for s2, b in self.cond(e.operand, s, f)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [s]
            outs = []
            for v in e.values:
                nx = []
                for c in cur:
                    for s2, b in self.cond(v, c, f):
                        if b == is_and:
                            nx.append(s2)
                        else:
                            outs.append((s2, not is_and))
                cur = nx
            outs.extend((c, is_and) for c in cur)
            return outs
        outs = []
        for s2, t in self.ev(e, s, f):
            outs.extend(self.decide(s2, truth(t)))
        return outs

    def decide(self, s, bt):
        """Split a state on a boolean term."""
        if is_const(bt):
            return [(s, bool(bt[1]))]
        if bt[0] == "B":
            if bt[1][0] == "vals" and bt[1][2] == ONLY_NONE and self.never_none(bt[1][1]):
                return [(s, not bt[2])]
            outs = []
            for b in (True, False):
                s2 = s.with_lit(bt[1], bt[2] if b else not bt[2])
                if s2 is not None:
                    outs.append((s2, b))
            return outs
        is_and = bt[0] == "Band"
        cur = [s]
        outs = []
        for x in bt[1]:
            nx = []
            for c in cur:
                for s2, b in self.decide(c, x):
                    if b == is_and:
                        nx.append(s2)
                    else:
                        outs.append((s2, not is_and))
            cur = nx
        outs.extend((c, is_and) for c in cur)
        return outs

    def never_none(self, t):
        """A result that is never None: of a function that says so and returns something everywhere, or a component
        of a message (addressed by name, below another one)."""
        if t[0] == "call" and isinstance(t[1], str):
            c = self._nn.get(t[1])
            if c is None:
                fn = self.p.funcs.get(t[1]) or self.p.funcs.get(self.unalias(t[1]))
                c = self._nn[t[1]] = fn is not None and self.says_value(fn.node)
            return c
        if t[0] == "item" and is_const(t[2]) and isinstance(t[2][1], str) and t[1][0] in ("wit", "elem"):
            x = t[1][1]
            return isinstance(x, tuple) and x and x[0] == "item" and is_const(x[2]) and isinstance(x[2][1], str)
        return False

    def unalias(self, q):
        for k, v in self.alias.items():
            if v == q:
                return k
        return q

    @staticmethod
    def says_value(node):
        if node.returns is None or isinstance(node, ast.AsyncFunctionDef):
            return False
        ann = ast.unparse(node.returns)
        if any(x in ann for x in ("Optional", "None", "Any", "object")):
            return False
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(x, ast.Return) and (x.value is None or isinstance(x.value, ast.Constant)
                                              and x.value.value is None):
                return False
        return any(isinstance(x, ast.Return) for x in ast.walk(node))

    # ------------------------------------------------------------ expressions
    def ev_many(self, exprs, s, f):
        cur = [(s, ())]
        for e in exprs:
            nx = []
            for c, ts in cur:
                if isinstance(e, ast.Starred):
                    for s2, t in self.ev(e.value, c, f):
                        if t[0] in ("list", "tuple"):
                            nx.append((s2, ts + tuple(t[1])))
                        else:
                            nx.append((s2, ts + (("star", t),)))
                else:
                    for s2, t in self.ev(e, c, f):
                        nx.append((s2, ts + (t,)))
            cur = nx
        return cur

    def ev(self, e, s, f):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = f.module
        if isinstance(e, ast.Constant):
            if e.value is Ellipsis:
                return [(s, ("const", "..."))]
            return [(s, ("const", e.value))]
        if isinstance(e, ast.Name):
            return [(s, self.name(e.id, s, f))]
        if isinstance(e, ast.Attribute):
            r = self.static_ref(e, s, f)
            if r is not None:
                return [(s, r)]
            return [(s2, self.attr(b, e.attr, s2)) for s2, b in self.ev(e.value, s, f)]
        if isinstance(e, ast.Subscript):
            outs = []
            for s2, b in self.ev(e.value, s, f):
                for s3, i in self.ev(e.slice, s2, f):
                    outs.extend(self.subscript(b, i, s3))
            return outs
        if isinstance(e, ast.Slice):
            outs = []
            parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
            for s2, ts in self.ev_many(parts, s, f):
                outs.append((s2, ("slice",) + ts))
            return outs
        if isinstance(e, ast.Call):
            return self.call(e, s, f)
        if isinstance(e, ast.BoolOp):
            return self.boolop_value(e, s, f)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return [(s2, neg(truth(t))) for s2, t in self.ev(e.operand, s, f)]
            outs = []
            for s2, t in self.ev(e.operand, s, f):
                if is_const(t) and isinstance(t[1], (int, float)):
                    v = -t[1] if isinstance(e.op, ast.USub) else (+t[1] if isinstance(e.op, ast.UAdd) else ~t[1])
                    outs.append((s2, ("const", v)))
                else:
                    outs.append((s2, ("un", type(e.op).__name__, t)))
            return outs
        if isinstance(e, ast.BinOp):
            return [(s2, self.binop(type(e.op).__name__, ts[0], ts[1]))
                    for s2, ts in self.ev_many([e.left, e.right], s, f)]
        if isinstance(e, ast.Compare):
            outs = []
            for s2, ts in self.ev_many([e.left] + list(e.comparators), s, f):
                bs = [self.compare(op, ts[i], ts[i + 1]) for i, op in enumerate(e.ops)]
                outs.append((s2, band(bs) if len(bs) > 1 else bs[0]))
            return outs
        if isinstance(e, ast.IfExp):
            tr, fa = self.cond_split(e.test, s, f)
            res = []
            for x in tr:
                res.extend(self.ev(e.body, x, f))
            for x in fa:
                res.extend(self.ev(e.orelse, x, f))
            return self.join_values(res, s)
        if isinstance(e, (ast.Tuple, ast.List)):
            k = "tuple" if isinstance(e, ast.Tuple) else "list"
            return [(s2, (k, ts)) for s2, ts in self.ev_many(e.elts, s, f)]
        if isinstance(e, ast.Set):
            return [(s2, ("set", tuple(sorted(ts, key=skey)))) for s2, ts in self.ev_many(e.elts, s, f)]
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return [(s2, ("dictx", ts)) for s2, ts in self.ev_many(e.values, s, f)]
            outs = []
            for s2, ks in self.ev_many(e.keys, s, f):
                for s3, vs in self.ev_many(e.values, s2, f):
                    outs.append((s3, ("dict", tuple(zip(ks, vs)))))
            return outs
        if isinstance(e, ast.JoinedStr):
            parts = []
            for v in e.values:
                parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
            return [(s2, self.fstr(ts)) for s2, ts in self.ev_many(parts, s, f)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.comp(e, s, f)
        if isinstance(e, ast.DictComp):
            fake = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
            return [(s2, ("dictmap", t)) for s2, t in self.comp(fake, s, f)]
        if isinstance(e, ast.Lambda):
            ck = f"{f.qual}:{ast.dump(e)}"
            self._closures()[ck] = (e, f)
            return [(s, ("lambda", ast.dump(e), ck))]
        if isinstance(e, ast.NamedExpr):
            outs = []
            for s2, t in self.ev(e.value, s, f):
                outs.extend((s3, t) for s3 in self.assign(e.target, t, s2, f))
            return outs
        if isinstance(e, ast.Starred):
            return [(s2, ("star", t)) for s2, t in self.ev(e.value, s, f)]
        if isinstance(e, (ast.Await, ast.Yield, ast.YieldFrom)):
            if e.value is None:
                return [(s, NONE)]
            return [(s2, ("yield", t)) for s2, t in self.ev(e.value, s, f)]
        return [(s, ("unk", type(e).__name__))]

    def fstr(self, ts):
        out = []
        for t in ts:
            if is_const(t) and isinstance(t[1], str) and out and is_const(out[-1]) and isinstance(out[-1][1], str):
                out[-1] = ("const", out[-1][1] + t[1])
            else:
                out.append(t)
        if len(out) == 1 and is_const(out[0]) and isinstance(out[0][1], str):
            return out[0]
        return ("fstr", tuple(out))

    def join_values(self, res, s):
        """Join expression results: states that agree except on branch facts are merged with a phi value."""
        if len(res) <= 1:
            return res
        if len(res) <= (self.lv[3] if len(self.stack) - self.tailn < 3 else min(2, self.lv[3])):
            return res
        groups = {}
        for st, t in res:
            c = t if is_const(t) or is_bool_term(t) else None
            groups.setdefault((self._sig(st, False), c), []).append((st, t))
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
            else:
                out.append((self.join([x for x, _ in g]), mk_phi([t for _, t in g])))
        return out

    def boolish(self, t):
        """Terms whose value is a bool (so `x or y` over them is a boolean term)."""
        if t[0] == "mcall" and t[2] in ("startswith", "endswith", "hasValue", "isdigit", "isSameTypeWith", "issubset"):
            return True
        if t[0] == "attr" and t[2] == "isValue":
            return True
        if t[0] == "call" and t[1] in ("any", "all", "bool", "hasattr", "issubclass", "callable"):
            return True
        q = t[1] if t[0] == "call" and isinstance(t[1], str) else None
        fn = self.p.funcs.get(q) if q else None
        r = fn.node.returns if fn is not None else None
        return isinstance(r, ast.Name) and r.id == "bool"

    def boolop_value(self, e, s, f):
        is_and = isinstance(e.op, ast.And)
        cur = [s]
        res = []
        for i, v in enumerate(e.values):
            nx = []
            last = i == len(e.values) - 1
            for c in cur:
                for s2, t in self.ev(v, c, f):
                    if self.boolish(t):
                        t = truth(t)
                    if last:
                        res.append((s2, t))
                        continue
                    for s3, b in self.decide(s2, truth(t)):
                        if b == is_and:
                            nx.append(s3)
                        else:
                            if is_bool_term(t):
                                t2 = ("const", b)
                            elif is_const(t):
                                t2 = t
                            else:
                                t2 = t if b else t
                            res.append((s3, t2))
            cur = nx
        return self.join_values(res, s)

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                x, y = a[1], b[1]
                if op == "Add" and type(x) is type(y):
                    return ("const", x + y)
                if op == "Sub":
                    return ("const", x - y)
                if op == "Mult" and not (isinstance(x, (str, bytes)) and y > 4096):
                    return ("const", x * y)
                if op == "FloorDiv":
                    return ("const", x // y)
                if op == "Pow" and isinstance(y, int) and abs(y) < 512:
                    return ("const", x ** y)
                if op == "LShift" and y < 4096:
                    return ("const", x << y)
            except Exception:
                pass
        if op == "Add":
            xs = (list(a[1]) if a[0] == "add" else [a]) + (list(b[1]) if b[0] == "add" else [b])
            xs = [x for x in xs if not (is_const(x) and isinstance(x[1], (bytes, str)) and len(x[1]) == 0)]
            if all(x[0] == "list" for x in xs) and xs:
                return ("list", tuple(z for x in xs for z in x[1]))
            out = []
            for x in xs:
                if out and is_const(x) and is_const(out[-1]) and type(x[1]) is type(out[-1][1]) and isinstance(
                        x[1], (bytes, str)):
                    out[-1] = ("const", out[-1][1] + x[1])
                else:
                    out.append(x)
            if not out:
                return a
            if len(out) == 1:
                return out[0]
            return ("add", tuple(out))
        if op in ("Mult", "BitOr", "BitAnd", "BitXor"):
            if skey(b) < skey(a):
                a, b = b, a
        return ("bin", op, a, b)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return simp_atom(("eq", a, b))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return neg(simp_atom(("eq", a, b)))
        if isinstance(op, ast.Lt):
            return simp_atom(("lt", a, b))
        if isinstance(op, ast.Gt):
            return simp_atom(("lt", b, a))
        if isinstance(op, ast.LtE):
            return neg(simp_atom(("lt", b, a)))
        if isinstance(op, ast.GtE):
            return neg(simp_atom(("lt", a, b)))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b)
            return r if isinstance(op, ast.In) else neg(r)
        return ("B", ("truth", ("cmp", type(op).__name__, a, b)), True)

    def member(self, a, c):
        if c[0] == "mcall" and c[2] == "keys" and not c[3]:
            c = c[1]
        if c[0] == "call" and c[1] in ("set", "list", "tuple", "frozenset", "sorted") and len(c[2]) == 1:
            c = c[2][0][1]
        if c[0] in ("list", "tuple", "set", "dict") and not c[1]:
            return FALSE
        if c[0] in ("list", "tuple", "set"):
            if all(is_const(x) for x in c[1]):
                if is_const(a):
                    return ("const", a[1] in [x[1] for x in c[1]])
                try:
                    return ("B", ("vals", a, frozenset(x[1] for x in c[1])), True)
                except TypeError:
                    pass
            return bor([simp_atom(("eq", a, x)) for x in c[1]])
        if c[0] == "dict" and all(is_const(k) for k, _ in c[1]):
            if is_const(a):
                return ("const", a[1] in [k[1] for k, _ in c[1]])
            return ("B", ("vals", a, frozenset(k[1] for k, _ in c[1])), True)
        if c[0] == "dict":
            return bor([simp_atom(("eq", a, k)) for k, _ in c[1]])
        if is_const(c) and is_const(a):
            try:
                return ("const", a[1] in c[1])
            except TypeError:
                pass
        if is_const(c) and isinstance(c[1], tuple):
            return ("B", ("vals", a, frozenset(c[1])), True)
        if c[0] == "dput":
            return bor([simp_atom(("eq", a, c[2])), self.member(a, c[1])])
        if c[0] == "dictmap" and c[1][0] == "map" and c[1][3][0] == "tuple" and len(c[1][3][1]) == 2:
            c = ("map", c[1][1], c[1][2], c[1][3][1][0])
        if c[0] == "map":
            at = simp_atom(("eq", a, c[3]))
            if at[0] == "B":
                return ("B", ("exists", c[1], c[2] | frozenset([(at[1], at[2])])), True)
        return ("B", ("in", a, c), True)

    def name(self, nm, s, f):
        if nm in s.env:
            return s.env[nm]
        r = self.p.resolve(f.module, nm)
        if r is not None:
            return self.sym_term(r)
        if nm in BUILTIN_NAMES:
            return ("builtin", nm)
        if nm in self.local_names(f):
            return ("undef",)
        return ("free", nm)

    def local_names(self, f):
        c = self._locals.get(id(f.node))
        if c is None:
            c = self._locals[id(f.node)] = (f.node, {
                x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        return c[1]

    def sym_term(self, r):
        k = r[0]
        if k == "func":
            return ("func", r[1])
        if k == "class":
            return ("classref", r[1])
        if k == "mod":
            return ("modref", r[1])
        if k == "ext":
            if isinstance(r[1], str) and r[1].startswith("pyasn1_alt_modules.") and r[1].count(".") == 2:
                return self.oid_of(r, r[1]) or ("ext", r[1])
            return ("ext", r[1])
        if k == "assign":
            g = f"{r[1]}.{r[2]}"
            if g in self.grown():
                return ("glob", g)
            if isinstance(r[3], (ast.Call, ast.Attribute, ast.Name, ast.BinOp)):
                c = self.oid_of(r, g)
                if c is not None:
                    return c
            c = self.fold(r[3], self.p.modules[r[1]], 0, self.new_global(g))
            if c is not None:
                return c
            return ("glob", g)
        if k == "classattr":
            ci = self.p.classes[r[1]]
            is_enum = any("Enum" in str(x) for x in self.p.mro(r[1]))
            if not is_enum:
                c = self.fold(r[3], ci.module, 0, self.new_global(f"{r[1]}.{r[2]}"))
                if c is not None:
                    return c
            return ("glob", f"{r[1]}.{r[2]}")
        return ("unk", "sym")

    def grown(self):
        """Module-level containers that some statement changes after their definition."""
        if self._grown is None:
            out = set()
            for m in self.p.modules.values():
                for x in ast.walk(m.tree):
                    t = None
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                        t = x.func.value
                    elif isinstance(x, ast.AugAssign):
                        t = x.target
                    elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        t = x.value
                    if isinstance(t, (ast.Name, ast.Attribute)):
                        r = self.p.resolve_expr(m, t)
                        if r is not None and r[0] == "assign":
                            out.add(f"{r[1]}.{r[2]}")
            self._grown = out
        return self._grown

    def oid_of(self, r, name):
        """An object identifier constant is its value, whatever name it is reached by."""
        if name not in self._oid:
            v = self.folder.sym(r, name)
            self._oid[name] = ("const", "oid:" + v[1]) if isinstance(v, list) and v[0] == "oid" else None
        return self._oid[name]

    def new_global(self, g):
        """A module-level or class-level name the reference does not have: its small table is read in place."""
        return self.atoms is not None and "*globals" in self.atoms and g not in self.globs

    def fold_el(self, e, mod, depth):
        x = self.fold(e, mod, depth)
        if x is None and isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(mod, e)
            if r is None:
                return ("builtin", e.id) if isinstance(e, ast.Name) and e.id in BUILTIN_NAMES else None
            x = self.sym_term(r)
        return x

    def fold(self, node, mod, depth, fresh=False):
        if depth > 3:
            return None
        if fresh and isinstance(node, ast.Dict) and 0 < len(node.keys) <= 16 and None not in node.keys:
            ps = [(self.fold_el(k, mod, depth + 1), self.fold_el(v, mod, depth + 1))
                  for k, v in zip(node.keys, node.values)]
            if all(k is not None and v is not None for k, v in ps):
                return ("dict", tuple(ps))
        if fresh and isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "frozenset" \
                and len(node.args) == 1 and not node.keywords:
            return self.fold(node.args[0], mod, depth)
        if isinstance(node, ast.Constant):
            return ("const", node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return ("const", -node.operand.value)
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)) and len(node.elts) <= 30:
            xs = []
            for e in node.elts:
                if isinstance(e, (ast.Name, ast.Attribute)):
                    r = self.p.resolve_expr(mod, e)
                    if r is None:
                        return None
                    x = self.sym_term(r)
                else:
                    x = self.fold(e, mod, depth + 1)
                if x is None:
                    return None
                xs.append(x)
            if isinstance(node, ast.Set):
                return ("set", tuple(sorted(xs, key=skey)))
            return ("tuple" if isinstance(node, ast.Tuple) else "list", tuple(xs))
        if isinstance(node, ast.Dict) and len(node.keys) <= 24 and all(
                isinstance(k, ast.Constant) for k in node.keys) and depth < 2:
            vs = []
            for k, v in zip(node.keys, node.values):
                x = self.fold(v, mod, depth + 1)
                if x is None:
                    if isinstance(v, (ast.Name, ast.Attribute)):
                        r = self.p.resolve_expr(mod, v)
                        x = self.sym_term(r) if r is not None else None
                    if x is None:
                        return None
                vs.append((("const", k.value), x))
            if all(x[0] in ("func", "classref") for _, x in vs):
                return ("dict", tuple(vs))
            return None
        if isinstance(node, ast.BinOp):
            a = self.fold(node.left, mod, depth + 1)
            b = self.fold(node.right, mod, depth + 1)
            if a is not None and b is not None and is_const(a) and is_const(b):
                r = self.binop(type(node.op).__name__, a, b)
                return r if is_const(r) else None
        return None

    def static_ref(self, e, s, f):
        """Resolve a dotted expression rooted at a module/class name."""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name):
            return None
        if root.id in s.env:
            t = s.env[root.id]
            if t[0] != "modref":
                return None
            chain = []
            x = e
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            r = ("mod", t[1])
            for a in reversed(chain):
                if r[0] == "mod":
                    r = self.p.resolve_attr(r[1], a)
                elif r[0] == "ext":
                    r = ("ext", r[1] + "." + a)
                elif r[0] == "class":
                    r = self._cls_attr(r[1], a)
                else:
                    return None
            return self.sym_term(r)
        r = self.p.resolve_expr(f.module, e)
        if r is None:
            if root.id in BUILTIN_NAMES:
                return ("ext", ast.unparse(e))
            return None
        if r[0] == "assign":
            return self.sym_term(r)
        if r[0] in ("func", "class", "mod", "ext", "classattr"):
            # attribute chain passing through an instance (assign) is not static
            return self.sym_term(r)
        return None

    def _cls_attr(self, q, a):
        fn = self.p.find_method(q, a)
        if fn is not None:
            return ("func", fn.qual)
        c = self.p.classes.get(q)
        if c is not None and a in c.attrs:
            return ("classattr", q, a, c.attrs[a])
        return ("ext", f"{q}.{a}")

    def attr(self, b, name, s):
        loc = ("attr", b, name)
        if loc in s.heap:
            return s.heap[loc]
        if b[0] == "phi":
            return mk_phi([self.attr(x, name, s) for x in b[1]])
        if b[0] == "new":
            for k, v in b[2]:
                if k == name and self._is_dataclass(b[1]):
                    return v
        if b[0] == "modref":
            return self.sym_term(self.p.resolve_attr(b[1], name))
        if b[0] == "classref":
            return self.sym_term(self._cls_attr(b[1], name))
        if b[0] == "ext":
            return self.sym_term(("ext", b[1] + "." + name))
        # private property / class constant on a typed receiver
        q = self.type_of(b, s)
        if q is not None:
            fn = self.p.find_method(q, name)
            if fn is None:
                for x in self.p.mro(q):
                    c = self.p.classes.get(x)
                    if c is not None and name in c.attrs and not c.fields and name not in self.p.class_attr_types(q):
                        v = self.fold(c.attrs[name], c.module, 0)
                        if v is not None and not self._assigned_attr(q, name) and len(self.p.subclasses(q)) <= 1:
                            return v
                        break
        return loc

    def _is_dataclass(self, q):
        c = self.p.classes.get(q)
        if c is None:
            return False
        return any("dataclass" in ast.dump(d) for d in c.node.decorator_list)

    def _assigned_attr(self, q, name):
        for x in self.p.mro(q):
            c = self.p.classes.get(x)
            if c is None:
                continue
            for fn in c.methods.values():
                for st in ast.walk(fn.node):
                    if isinstance(st, ast.Attribute) and isinstance(st.ctx, ast.Store) and st.attr == name:
                        return True
        return False

    def item(self, b, i, s):
        if s is not None and ("item", b, i) in s.heap:
            return s.heap[("item", b, i)]
        if b[0] in ("tuple", "list") and is_const(i) and isinstance(i[1], int) and not any(
                isinstance(x, tuple) and x and x[0] == "star" for x in b[1]):
            if -len(b[1]) <= i[1] < len(b[1]):
                return b[1][i[1]]
        if i[0] == "idx" and i[1] == self.iter_base(b):
            return self.elem(b, i[1])
        if b[0] == "phi":
            return mk_phi([self.item(x, i, s) for x in b[1]])
        if b[0] == "dput":
            if b[2] == i:
                return b[3]
            if is_const(i) and is_const(b[2]):
                return self.item(b[1], i, s)
        if b[0] == "dict" and is_const(i) and all(is_const(k) for k, _ in b[1]):
            for k, v in b[1]:
                if k == i:
                    return v
        return ("item", b, i)

    def subscript(self, b, i, s):
        if b[0] == "dict":
            if is_const(i):
                for k, v in b[1]:
                    if k == i:
                        return [(s, v)]
            else:
                return self.dict_dispatch(b, i, s, None)
        if i[0] == "slice" and is_const(b) and all(is_const(x) for x in i[1:]):
            try:
                return [(s, ("const", b[1][slice(*[x[1] for x in i[1:]])]))]
            except Exception:
                pass
        if i[0] == "slice":
            lo, hi, stp = i[1:]
            if lo == ("const", 0):
                lo = NONE
            return [(s, ("item", b, ("slice", lo, hi, stp)))]
        return [(s, self.item(b, i, s))]

    def dict_dispatch(self, d, i, s, default):
        outs = []
        cur = s
        for k, v in d[1]:
            bt = simp_atom(("eq", i, k))
            nxt = None
            for s2, b in self.decide(cur, bt):
                if b:
                    outs.append((s2, v))
                else:
                    nxt = s2
            if nxt is None:
                return outs
            cur = nxt
        if default is None:
            self.collect[-1].append((cur, ("exc", "KeyError", None)))
        else:
            outs.append((cur, default))
        return outs

    # ---- comprehension
    def comp(self, e, s, f):
        g = e.generators[0]
        outs = []
        for s2, it in self.ev(g.iter, s, f):
            it = self.literal_iter(it)
            if it[0] in ("list", "tuple", "set") and len(it[1]) <= 8 and len(e.generators) == 1 and not any(
                    isinstance(x, tuple) and x and x[0] == "star" for x in it[1]) and not g.ifs:
                cur = [(s2, ())]
                for el in it[1]:
                    nx = []
                    for c, ts in cur:
                        for c2 in self.assign(g.target, el, c, f):
                            for c3, t in self.ev(e.elt, c2, f):
                                nx.append((c3, ts + (t,)))
                    cur = nx
                own = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c, ts in cur:      # the comprehension's variable is its own
                    c = c.copy()
                    c.env = {k: v for k, v in c.env.items() if k not in own}
                    c.env.update((k, s2.env[k]) for k in own if k in s2.env)
                    outs.append((c, ("list", ts)))
                continue
            base, ev = self.iter_info(it)
            if len(e.generators) == 1 and not isinstance(e, ast.DictComp) and any(
                    isinstance(x, ast.Call) for y in [e.elt] + g.ifs for x in ast.walk(y)):
                lp = self.comp_loop(e, g, it, base, ev, s2, f)
                if lp is not None:
                    outs.extend(lp)
                    continue
            inner_lits0 = s2.lits
            if it[0] == "map":
                base = it[1]
                ev = it[3]
                pre = it[2]
            else:
                pre = frozenset()
            vals = []
            for c in self.assign(g.target, ev, s2, f):
                states = [c]
                for cond in g.ifs:
                    nx = []
                    for x in states:
                        nx.extend(y for y, b in self.cond(cond, x, f) if b)
                    states = nx
                for x in states:
                    if len(e.generators) > 1:
                        sub = type(e)(elt=e.elt, generators=e.generators[1:]) if not isinstance(
                            e, ast.GeneratorExp) else ast.GeneratorExp(elt=e.elt, generators=e.generators[1:])
                        vals.extend(self.comp(sub, x, f))
                    else:
                        vals.extend(self.ev(e.elt, x, f))
            alts = []
            s3 = s2
            for x, t in vals:
                per = frozenset((a, p) for a, p in x.lits.items() if inner_lits0.get(a) != p and a[0] != "was") | frozenset(
                    ("dis", d) for d in x.dis if d not in s2.dis)
                alts.append((per | pre, t, x))
                for d in x.did:
                    if d not in s2.did:
                        s3 = s3.add_did(("each", base, norm_set(per), d))
            if len(alts) == 1:
                outs.append((s3, ("map", base, alts[0][0], alts[0][1])))
            elif alts:
                outs.append((s3, ("maps", base, frozenset((p, t) for p, t, _ in alts))))
            else:
                outs.append((s3, ("list", ())))
        return outs

    def comp_loop(self, e, g, it, base, ev, s, f):
        """A comprehension whose element or condition can raise is the loop it abbreviates."""
        self.collect.append([])
        try:
            for c in self.assign(g.target, ev, s, f):
                states = [c]
                for cond in g.ifs:
                    states = [y for x in states for y, b in self.cond(cond, x, f) if b]
                for x in states:
                    self.ev(e.elt, x, f)
        finally:
            raised = self.collect.pop()
        if not raised:
            return None
        nm = "$c%d" % len(self.collect)
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [e.elt], []))]
        for cond in reversed(g.ifs):
            body = [ast.If(cond, body, [])]
        loop = ast.For(g.target, g.iter, body, [])
        ast.copy_location(loop, e)
        ast.fix_missing_locations(loop)
        h = s.copy()
        h.env[nm] = ("list", ())
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)} | {nm}
        outs = []
        for kind, st, v, ln in self.loop_core(loop, h, f, base, g.target, ev, body, []):
            r = st.copy()
            t = r.env.get(nm, ("list", ()))
            r.env = {k: x for k, x in r.env.items() if k not in names}
            for k in names:
                if k in s.env:
                    r.env[k] = s.env[k]
            if kind == "next":
                outs.append((r, t))
            elif kind == "raise":
                self.collect[-1].append((r, v))
        return outs

    # ---- calls
    def class_names(self, node, s, f):
        """frozenset of class names for an isinstance() second argument / annotation-like node."""
        if isinstance(node, ast.Tuple):
            out = frozenset()
            for e in node.elts:
                out |= self.class_names(e, s, f)
            return out
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.class_names(node.left, s, f) | self.class_names(node.right, s, f)
        if isinstance(node, ast.Name) and node.id in s.env:
            return self.term_classes(s.env[node.id], node)
        if isinstance(node, ast.Name) and node.id in BUILTIN_NAMES and self.p.resolve(f.module, node.id) is None:
            return frozenset([node.id])
        r = self.p.resolve_expr(f.module, node)
        return self._class_names_sym(r, node)

    def term_classes(self, t, node):
        """The class names a value handed on as an isinstance() argument stands for."""
        if t[0] in ("tuple", "list") and not any(isinstance(x, tuple) and x and x[0] == "star" for x in t[1]):
            out = frozenset()
            for x in t[1]:
                out |= self.term_classes(x, node)
            return out
        if t[0] == "classref":
            return self._class_names_sym(("class", t[1]), node)
        if t[0] == "ext" and isinstance(t[1], str):
            return self._class_names_sym(("ext", t[1]), node)
        if t[0] == "builtin":
            return frozenset([t[1]])
        if t[0] == "glob" and isinstance(t[1], str):
            m, _, nm = t[1].rpartition(".")
            r = self.p.resolve(self.p.modules[m], nm) if m in self.p.modules else None
            if r is not None:
                return self._class_names_sym(r, node)
        return frozenset([skey(t)])

    def _class_names_sym(self, r, node, depth=0):
        if r is None:
            return frozenset([ast.unparse(node)])
        if r[0] == "assign" and depth < 5:
            v = r[3]
            mod = self.p.modules[r[1]]
            if isinstance(v, ast.Subscript) and "Union" in ast.unparse(v.value):
                elts = v.slice.elts if isinstance(v.slice, ast.Tuple) else [v.slice]
            elif isinstance(v, ast.Tuple):
                elts = v.elts
            elif isinstance(v, (ast.Name, ast.Attribute)):
                elts = [v]
            else:
                return frozenset([f"{r[1]}.{r[2]}"])
            out = frozenset()
            for e in elts:
                out |= self._class_names_sym(self.p.resolve_expr(mod, e), e, depth + 1)
            return out
        if r[0] in ("class", "ext", "func"):
            nm = r[1]
            if nm in self.p.classes:
                return frozenset([nm])
            parts = nm.split(".")
            return frozenset([".".join(parts[-2:]) if len(parts) > 2 and not parts[-1][:1].isupper() else parts[-1]])
        return frozenset([ast.unparse(node)])

    def type_of(self, t, s):
        """Repository class of a term, if known."""
        k = t[0]
        if k == "new":
            return t[1]
        if k == "param" and self.stack:
            f = self.stack[0]
            if t[1] in ("self", "cls") and f.cls is not None:
                return f.cls.qual
            for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                if a.arg == t[1]:
                    return self.p.ann_class(f.module, a.annotation)
            return None
        if k == "attr":
            q = self.type_of(t[1], s)
            if q is not None:
                return self.p.class_attr_types(q).get(t[2])
            return None
        if k == "call":
            f = self.p.funcs.get(t[1])
            if f is not None:
                return self.p.ann_class(f.module, f.node.returns)
            return None
        if k == "mcall":
            q = self.type_of(t[1], s)
            if q is not None:
                fn = self.p.find_method(q, t[2])
                if fn is not None:
                    return self.p.ann_class(fn.module, fn.node.returns)
            return None
        if k == "phi":
            ts = {self.type_of(x, s) for x in t[1] if x != NONE}
            return ts.pop() if len(ts) == 1 else None
        if k in ("acc", "last"):
            return self.type_of(t[2], s) if isinstance(t[2], tuple) and t[2] else None
        return None

    def is_atom(self, fn):
        q = self.alias.get(fn.qual, fn.qual)
        if fn.cls is not None and unimplemented(fn.node):
            return True
        if self.atoms is not None:
            return q in self.atoms
        return fn.public

    def call(self, e, s, f):
        fe = e.func
        # logging and printing have no semantic effect
        head = fe
        while isinstance(head, ast.Attribute):
            head = head.value
        if isinstance(head, ast.Name) and head.id in LOG_HEADS and isinstance(fe, ast.Attribute):
            return [(s, NONE)]
        if isinstance(fe, ast.Name) and fe.id == "print":
            return [(s, NONE)]
        if isinstance(fe, ast.Name) and fe.id == "isinstance" and len(e.args) == 2 and "isinstance" not in s.env:
            cl = self.class_names(e.args[1], s, f)
            return [(s2, simp_atom(("inst", t, cl))) for s2, t in self.ev(e.args[0], s, f)]
        if isinstance(fe, ast.Name) and fe.id in ("any", "all") and len(e.args) == 1 and fe.id not in s.env:
            return self.any_all(e, s, f, fe.id == "any")
        if isinstance(fe, ast.Name) and fe.id == "next" and e.args and isinstance(e.args[0], ast.GeneratorExp):
            return self.next_gen(e, s, f)
        if (isinstance(fe, ast.Attribute) and isinstance(fe.value, ast.Call)
                and isinstance(fe.value.func, ast.Name) and fe.value.func.id == "super"):
            return self.super_call(e, s, f)
        # receiver / callee
        if isinstance(fe, ast.Name):
            callees = [(s, self.name(fe.id, s, f))]
            recv_mode = False
        elif isinstance(fe, ast.Attribute):
            r = self.static_ref(fe, s, f)
            if r is not None:
                callees = [(s, r)]
                recv_mode = False
            else:
                callees = [(s2, b) for s2, b in self.ev(fe.value, s, f)]
                recv_mode = True
        else:
            callees = self.ev(fe, s, f)
            recv_mode = False
        outs = []
        for s2, c in callees:
            for s3, args in self.ev_many(e.args, s2, f):
                kws = [(s3, ())]
                for kw in e.keywords:
                    nx = []
                    for s4, ks in kws:
                        for s5, v in self.ev(kw.value, s4, f):
                            nx.append((s5, ks + keyword_args(kw, v)))
                    kws = nx
                for s4, ks in kws:
                    if recv_mode:
                        outs.extend(self.call_method(e, c, fe, args, ks, s4, f))
                    else:
                        outs.extend(self.call_term(e, c, args, ks, s4, f))
        return outs

    def next_gen(self, e, s, f):
        outs = []
        for s2, t in self.ev(e.args[0], s, f):
            dflt = None
            if len(e.args) > 1:
                _, dflt = self.ev(e.args[1], s2, f)[0]
            if t[0] == "map":
                base, per, val = t[1], t[2], t[3]
                w = subst(subst(val, ("elem", base), ("wit", base)), ("idx", base), ("widx", base))
                bt = ("B", ("exists", base, norm_set(per)), True) if per else truth(base)
                for s3, b in self.decide(s2, bt):
                    if b:
                        outs.append((s3, w))
                    elif dflt is not None:
                        outs.append((s3, dflt))
                    else:
                        self.collect[-1].append((s3, ("exc", "StopIteration", None)))
            else:
                outs.append((s2, ("call", "next", (("0", t),))))
        return outs

    def any_all(self, e, s, f, is_any):
        a = e.args[0]
        if not isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            outs = []
            for s2, t in self.ev(a, s, f):
                if t[0] in ("list", "tuple", "set"):
                    bs = [truth(x) for x in t[1]]
                    outs.append((s2, bor(bs) if is_any else band(bs)))
                else:
                    outs.append((s2, ("B", ("truth", ("call", "any" if is_any else "all", (("0", t),))), True)))
            return outs
        outs = []
        for s2, t in self.comp(a, s, f):
            opts = []
            if t[0] == "list":
                bs = [truth(x) for x in t[1]]
                outs.append((s2, bor(bs) if is_any else band(bs)))
                continue
            if t[0] == "map":
                opts = [(t[2], t[3])]
                base = t[1]
            elif t[0] == "maps":
                opts = sorted(t[2], key=skey)
                base = t[1]
            else:
                outs.append((s2, ("B", ("truth", ("call", "any" if is_any else "all", (("0", t),))), True)))
                continue
            terms = []
            for per, val in opts:
                bt = truth(val)
                if not is_any:
                    bt = neg(bt)
                st0 = State(lits={x[0]: x[1] for x in per if x[0] != "dis"})
                for s3, b in self.decide(st0, bt):
                    if b:
                        fs = frozenset((k, v) for k, v in s3.lits.items()) | frozenset(
                            x for x in per if x[0] == "dis")
                        if fs:
                            terms.append(("B", ("exists", base, norm_set(fs)), True))
                        else:
                            terms.append(truth(base))
            r = bor(terms) if terms else FALSE
            outs.append((s2, r if is_any else neg(r)))
        return outs

    def super_call(self, e, s, f):
        outs = []
        cls = f.cls
        name = e.func.attr
        fn = None
        if cls is not None:
            for q in self.p.mro(cls.qual)[1:]:
                c = self.p.classes.get(q)
                if c is not None and name in c.methods:
                    fn = c.methods[name]
                    break
        selfv = s.env.get(f.params[0]) if f.params else ("param", "self")
        for s3, args in self.ev_many(e.args, s, f):
            ks = ()
            cur = [(s3, ())]
            for kw in e.keywords:
                cur = [(s5, k2 + keyword_args(kw, v)) for s4, k2 in cur for s5, v in self.ev(kw.value, s4, f)]
            for s4, ks in cur:
                if fn is not None:
                    outs.extend(self.invoke(e, fn, selfv, args, ks, s4, f, force=(name == "__init__")))
                else:
                    outs.extend(self.opaque(("mcall", ("super", selfv), name, pos(args) + ks), s4, name, None))
        return outs

    def bind(self, fn, selfv, args, ks, s, f):
        """Bind arguments to the callee's parameters -> tuple of (param, term)."""
        params = list(fn.params)
        if fn.kind in ("method", "classm", "prop") and params:
            params = params[1:]
        b = {}
        extra = []
        posn = [p for p in params if p in fn.posonly]
        ok = True
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == "star":
                extra.append(("*", a[1]))
                ok = False
                continue
            if not ok:
                extra.append(("*", a))
            elif i < len(posn):
                b[posn[i]] = a
            else:
                extra.append(("*", a))
        for k, v in ks:
            if k == "**":
                extra.append(("**", v))
            elif k in params:
                b[k] = v
            else:
                extra.append((k, v))
        has_star = any(x[0] in ("*", "**") for x in extra)
        for p in params:
            if p not in b and p in fn.defaults:
                d = self.fold(fn.defaults[p], fn.module, 0)
                if d is None:
                    d = ("default", ast.dump(fn.defaults[p]))
                b[p] = d
        return b, tuple(extra), has_star

    def call_term(self, e, c, args, ks, s, f):
        k = c[0]
        if k == "phi":
            outs = []
            for x in sorted(c[1], key=skey):
                outs.extend(self.call_term(e, x, args, ks, s, f))
            return outs
        if k == "func":
            fn = self.p.funcs.get(c[1])
            if fn is None:
                return self.opaque(("call", c[1], pos(args) + ks), s, c[1], None)
            if fn.kind == "method" and args:
                # unbound method call Class.m(obj, ...)
                return self.invoke(e, fn, args[0], args[1:], ks, s, f)
            selfv = ("classref", fn.cls.qual) if fn.kind == "classm" else None
            return self.invoke(e, fn, selfv, args, ks, s, f)
        if k == "classref":
            return self.construct(e, c[1], args, ks, s, f)
        if k == "bound":
            return self.invoke(e, self.p.funcs[c[2]], c[1], args, ks, s, f)
        if k == "builtin":
            return self.builtin(c[1], args, ks, s, f)
        if k == "closure" or k == "lambda":
            node, df = self._closures()[c[2]]
            return self.inline_closure(node, df, args, ks, s, f)
        if k == "partial":
            return self.call_term(e, c[1], c[2] + args, c[3] + ks, s, f)
        if k == "ext":
            nm = c[1]
            if nm in ("functools.partial",) and args:
                return [(s, ("partial", args[0], args[1:], ks))]
            if nm in ("copy.copy", "copy.deepcopy") and args:
                return [(s, ("call", nm, pos(args)))]
            short = nm.split(".")[-1]
            return self.opaque(("call", nm, pos(args) + tuple(sorted(ks))), s, short, None)
        if k in ("attr", "mcall", "item", "param", "call", "glob", "free", "unk", "acc", "localclass", "elem", "wit"):
            if k == "attr":
                return self.call_method_t(e, c[1], c[2], args, ks, s, f)
            return self.opaque(("dyn", c, pos(args) + tuple(sorted(ks))), s, "?", None)
        return self.opaque(("dyn", c, pos(args) + tuple(sorted(ks))), s, "?", None)

    def call_method(self, e, recv, fe, args, ks, s, f):
        # rebinding semantics for local containers / hash objects
        nm = fe.attr
        if isinstance(fe.value, ast.Name) and nm in ("append", "add", "extend", "update") and len(args) == 1 and not ks:
            var = fe.value.id
            cur = s.env.get(var)
            if cur is not None and cur[0] == "list" and nm == "append":
                s = s.copy()
                s.env[var] = ("list", cur[1] + (args[0],))
                return [(s, NONE)]
            if cur is not None and cur[0] == "list" and nm == "extend" and args[0][0] in ("list", "tuple"):
                s = s.copy()
                s.env[var] = ("list", cur[1] + tuple(args[0][1]))
                return [(s, NONE)]
            if cur is not None and nm in ("append", "add") and cur[0] in ("acc", "map", "app", "set") or (
                    cur is not None and cur == ("call", "set", ())):
                s = s.copy()
                s.env[var] = ("app", cur[1], cur[2] + (args[0],)) if cur[0] == "app" else ("app", cur, (args[0],))
                return [(s, NONE)]
            if cur is not None and nm in ("extend", "update") and local_container(cur) and (
                    nm == "extend" or args[0][0] in ("dict", "dictmap")):
                s = s.copy()
                s.env[var] = self.binop("Add", cur, args[0]) if nm == "extend" else ("merge", cur, args[0])
                return [(s, NONE)]
            if cur is not None and nm == "update" and self._hashlike(cur):
                s = s.copy()
                if cur[0] == "upd":
                    s.env[var] = ("upd", cur[1], self.binop("Add", cur[2], args[0]))
                else:
                    s.env[var] = ("upd", cur, args[0])
                return [(s, NONE)]
        if isinstance(fe.value, ast.Name) and nm in MUTATORS:
            var = fe.value.id
            cur = s.env.get(var)
            if cur is not None and local_container(cur):
                outs = []
                for s2, t in self.call_method_t(e, recv, nm, args, ks, s, f):
                    s2 = s2.copy()
                    s2.env[var] = ("mutd", cur, nm, pos(args))
                    outs.append((s2, t))
                return outs
        return self.call_method_t(e, recv, nm, args, ks, s, f)

    def _hashlike(self, t):
        if t[0] == "upd":
            return True
        if t[0] == "call" and isinstance(t[1], str):
            h = t[1].split(".")[-1].lower()
            return h in ("hash", "hmac", "sha256", "sha512", "sha3_256", "sha3_512", "shake_128", "shake_256", "new",
                         "sha1", "sha384", "cmac", "poly1305", "encryptor", "decryptor")
        return False

    def call_method_t(self, e, recv, nm, args, ks, s, f):
        if recv[0] == "phi" and len(recv[1]) <= 4:
            q = self.type_of(recv, s)
            if q is None:
                ts = [x for x in recv[1]]
                if not any(self.type_of(x, s) for x in ts):
                    return self.opaque(("mcall", recv, nm, pos(args) + tuple(sorted(ks))), s, nm, recv)
        if recv[0] == "dict" and nm == "get" and args and not is_const(args[0]):
            return self.dict_dispatch(recv, args[0], s, args[1] if len(args) > 1 else NONE)
        if recv[0] == "dict" and nm == "get" and args and is_const(args[0]):
            for k, v in recv[1]:
                if k == args[0]:
                    return [(s, v)]
            return [(s, args[1] if len(args) > 1 else NONE)]
        if nm == "join" and is_const(recv) and len(recv[1]) == 0 and args and args[0][0] in ("list", "tuple"):
            t = None
            for x in args[0][1]:
                t = x if t is None else self.binop("Add", t, x)
            return [(s, t if t is not None else recv)]
        if is_const(recv) and isinstance(recv[1], str) and all(is_const(a) for a in args) and not ks and nm in (
                "lower", "upper", "strip", "split", "startswith", "endswith", "replace"):
            try:
                v = getattr(recv[1], nm)(*[a[1] for a in args])
                if isinstance(v, list):
                    return [(s, ("list", tuple(("const", x) for x in v)))]
                return [(s, ("const", v))]
            except Exception:
                pass
        if recv[0] == "modref":
            r = self.p.resolve_attr(recv[1], nm)
            return self.call_term(e, self.sym_term(r), args, ks, s, f)
        if recv[0] == "classref":
            r = self._cls_attr(recv[1], nm)
            return self.call_term(e, self.sym_term(r), args, ks, s, f)
        q = self.type_of(recv, s)
        fn = self.p.find_method(q, nm) if q is not None else None
        if fn is not None and fn.kind in ("method", "classm", "static"):
            return self.invoke(e, fn, recv if fn.kind != "static" else None, args, ks, s, f, recv=recv)
        return self.opaque(("mcall", recv, nm, pos(args) + tuple(sorted(ks))), s, nm, recv)

    def construct(self, e, q, args, ks, s, f):
        init = self.p.find_method(q, "__init__")
        if init is not None:
            b, extra, _ = self.bind(init, None, args, ks, s, f)
        else:
            b = {}
            extra = ()
            flds = []
            for x in reversed(self.p.mro(q)):
                c = self.p.classes.get(x)
                if c is not None:
                    flds.extend(n for n, _, _ in c.fields)
            for i, a in enumerate(args):
                if i < len(flds):
                    b[flds[i]] = a
                else:
                    extra += (("*", a),)
            for k, v in ks:
                b[k] = v
        t = ("new", q, tuple(sorted(b.items())) + extra)
        return self.fallible(t, s, [(s, t)])

    def builtin(self, nm, args, ks, s, f):
        if nm == "len" and len(args) == 1:
            a = args[0]
            if a[0] in ("list", "tuple") and not any(isinstance(x, tuple) and x and x[0] == "star" for x in a[1]):
                return [(s, ("const", len(a[1])))]
            if is_const(a) and isinstance(a[1], (str, bytes, tuple)):
                return [(s, ("const", len(a[1])))]
            if a[0] == "map" and not a[2]:
                return [(s, ("call", "len", (("0", a[1]),)))]
            return [(s, ("call", "len", (("0", a),)))]
        if nm == "bool" and len(args) == 1:
            return [(s, truth(args[0]))]
        if nm in ("int", "str", "bytes") and len(args) == 1 and not ks:
            a = args[0]
            if is_const(a) and nm == "int" and isinstance(a[1], (int, str)):
                try:
                    return [(s, ("const", int(a[1])))]
                except ValueError:
                    pass
            if is_const(a) and nm == "str":
                return [(s, ("const", str(a[1])))]
            if a[0] == "call" and a[1] == nm:
                return [(s, a)]
            if nm == "int" and a[0] == "call" and a[1] == "len":
                return [(s, a)]
            t = ("call", nm, (("0", a),))
            return [(s, t)]
        if nm in ("list", "tuple") and len(args) == 1 and args[0][0] in ("list", "tuple"):
            return [(s, (nm, args[0][1]))]
        if nm in ("list", "dict", "tuple") and not args and not ks:
            return [(s, (nm, ()))]
        if nm == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str):
            if len(args) == 2:
                return [(s, self.attr(args[0], args[1][1], s))]
        t = ("call", nm, pos(args) + tuple(sorted(ks)))
        if nm in NOFAIL_BUILTINS:
            return [(s, t)]
        return self.opaque(t, s, nm, None)

    def fallible(self, t, s, normal):
        """A call that may raise: inside a handler scope, also produce the failing outcome."""
        if self.try_depth > 0 and ("fail", t) not in s.lits and t not in s.did:
            s2 = s.with_lit(("fail", t), True)
            if s2 is not None:
                self.collect[-1].append((s2, ("implicit", "?", t)))
            res = []
            for n, v in normal:
                n2 = n.with_lit(("fail", t), False)
                if n2 is not None:
                    res.append((n2, v))
            return res
        return normal

    def opaque(self, t, s, nm, recv):
        short = nm.split(".")[-1]
        if recv is not None and short in MUTATORS:
            s = self.stale(s, recv)
            s = self.effect(s, t)
            return [(s, t)]
        if recv is not None and short in NOFAIL_METHODS:
            return [(s, t)]
        if recv is None and short in NOFAIL_BUILTINS and "." not in nm:
            return [(s, t)]
        if s.lits.get(("fail", t)) is True:
            # this call is known to have failed on this path: it fails again
            if self.try_depth > 0:
                self.collect[-1].append((s, ("implicit", "?", t)))
            return []
        norm = s.add_did(t)
        return self.fallible(t, s, [(norm, t)])

    def invoke(self, e, fn, selfv, args, ks, s, f, recv=None, force=False):
        b, extra, has_star = self.bind(fn, selfv, args, ks, s, f)
        atom = self.is_atom(fn) and not force
        depth = len(self.stack)
        recursive = any(x.qual == fn.qual for x in self.stack)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)) if not atom else False
        if not atom:
            self.used.add(fn.qual)
        if not atom and not recursive and not gen and depth < 9 and not (has_star and any(
                x[0] == "*" for x in extra)):
            tail = self.known is not None and fn.qual not in self.known
            self.tailn += tail
            try:
                return self.inline(fn, selfv, b, extra, s, f, self.arg_vars(e, fn, args), tail,
                                   tail and getattr(e, "_tail", False))
            finally:
                self.tailn -= tail
        q = self.alias.get(fn.qual, fn.qual)
        bt = tuple(sorted(b.items())) + extra
        if self.atoms is not None and q in self.atoms:
            bt = self.trim(fn, bt, self.atoms[q])
        if fn.kind in ("method",) and selfv is not None:
            # name method calls by receiver so overriding does not matter
            t = ("mcall", selfv, fn.name, bt)
            if selfv == ("param", "self") or recv is not None or True:
                pass
        else:
            t = ("call", q, bt)
        if s.lits.get(("fail", t)) is True:
            if self.try_depth > 0:
                self.collect[-1].append((s, ("implicit", "?", t)))
            return []
        s2 = s
        if fn.kind == "method" and selfv is not None and self.mutates(fn):
            s2 = self.stale(s2, selfv)
        norm = s2.add_did(t)
        return self.fallible(t, s, [(norm, t)])

    def trim(self, fn, bt, params):
        """Drop parameters unknown to the frozen signature when they carry their default."""
        out = []
        for k, v in bt:
            if k in params or k in ("*", "**") or k not in fn.params:
                out.append((k, v))
            else:
                d = self.fold(fn.defaults[k], fn.module, 0) if k in fn.defaults else None
                if d is not None and d == v:
                    continue
                out.append((k, v))
        return tuple(out)

    def mutates(self, fn):
        c = getattr(self, "_mut", None)
        if c is None:
            c = self._mut = {}
        if fn.qual in c:
            return c[fn.qual]
        c[fn.qual] = False
        res = False
        selfn = fn.params[0] if fn.params else None
        for x in ast.walk(fn.node):
            t = None
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = x
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in MUTATORS:
                    t = x.func.value
                elif isinstance(x.func.value, ast.Name) and x.func.value.id == selfn and fn.cls is not None:
                    g = self.p.find_method(fn.cls.qual, x.func.attr)
                    if g is not None and g.qual != fn.qual and self.mutates(g):
                        res = True
                        break
                elif isinstance(x.func.value, ast.Attribute) and fn.cls is not None:
                    v = x.func.value
                    if isinstance(v.value, ast.Name) and v.value.id == selfn:
                        q = self.p.class_attr_types(fn.cls.qual).get(v.attr)
                        g = self.p.find_method(q, x.func.attr) if q else None
                        if g is not None and g.qual != fn.qual and self.mutates(g):
                            res = True
                            break
            if t is not None:
                r = t
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name) and r.id == selfn:
                    res = True
                    break
        c[fn.qual] = res
        return res

    def arg_vars(self, e, fn, args):
        """Caller variables passed by name to parameters the callee never rebinds (so it may mutate them)."""
        if not isinstance(e, ast.Call) or len(e.args) != len(args) or any(isinstance(a, ast.Starred) for a in e.args):
            return {}
        params = list(fn.posonly)
        if fn.kind in ("method", "classm", "prop"):
            params = params[1:]
        m = {}
        for prm, a in zip(params, e.args):
            if isinstance(a, ast.Name):
                m[prm] = a.id
        for k in e.keywords:
            if k.arg and isinstance(k.value, ast.Name):
                m[k.arg] = k.value.id
        if not m:
            return m
        st = {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return {k: v for k, v in m.items() if k not in st}

    def inline(self, fn, selfv, b, extra, s, f, argvars=None, tail=False, whole=False):
        env = {}
        for p in fn.params:
            if p in b:
                env[p] = b[p]
            else:
                env[p] = ("missing", p)
        if fn.kind in ("method", "prop", "classm") and fn.params:
            env[fn.params[0]] = selfv if selfv is not None else ("param", "self")
        if fn.vararg:
            env[fn.vararg] = ("tuple", tuple(v for k, v in extra if k == "*"))
        if fn.kwarg:
            kw = tuple((("const", k), v) for k, v in extra if k not in ("*", "**"))
            star = [v for k, v in extra if k == "**"]
            env[fn.kwarg] = star[0] if star and not kw else ("dict", kw)
        saved = s.env
        inner = State(env, dict(s.heap), dict(s.lits), s.dis, s.did, s.exc)
        self.stack.append(fn)
        try:
            outs = self.block(fn.node.body, [inner], fn)
        finally:
            self.stack.pop()
        res = []
        for kind, st, v, ln in outs:
            st2 = State(dict(saved), st.heap, st.lits, st.dis, st.did, s.exc)
            for prm, var in (argvars or {}).items():
                nv = st.env.get(prm)
                if nv is not None and nv != b.get(prm) and st2.env.get(var) == b.get(prm):
                    st2.env[var] = nv
            if kind == "next":
                res.append((st2, NONE))
            elif kind == "return":
                res.append((st2, v))
            elif kind == "raise":
                if v is not None and v[0] == "implicit" and self.try_depth == 0:
                    continue
                self.collect[-1].append((st2, v))
        if whole or tail and len(res) <= self.soft():
            return res
        return self.join_values(res, s)

    def inline_closure(self, node, df, args, ks, s, f):
        env = dict(s.env)
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for p, v in zip(ps, args):
            env[p] = v
        for k, v in ks:
            env[k] = v
        posd = a.posonlyargs + a.args
        for p, d in zip(posd[len(posd) - len(a.defaults):], a.defaults):
            if p.arg not in [x for x, _ in zip(ps, args)] and p.arg not in dict(ks):
                env[p.arg] = self.ev(d, s, df)[0][1]
        if len(self.stack) > 9:
            return [(s, ("unk", "closure"))]
        inner = State(env, dict(s.heap), dict(s.lits), s.dis, s.did, s.exc)
        if isinstance(node, ast.Lambda):
            return [(State(dict(s.env), st.heap, st.lits, st.dis, st.did, s.exc), v)
                    for st, v in self.ev(node.body, inner, df)]
        self.stack.append(df)
        try:
            outs = self.block(node.body, [inner], df)
        finally:
            self.stack.pop()
        res = []
        for kind, st, v, ln in outs:
            st2 = State(dict(s.env), st.heap, st.lits, st.dis, st.did, s.exc)
            if kind == "next":
                res.append((st2, NONE))
            elif kind == "return":
                res.append((st2, v))
            elif kind == "raise":
                self.collect[-1].append((st2, v))
        return self.join_values(res, s)


def nonempty(st, base, pol):
    """The state in which the collection has (pol) or has not any element."""
    t = truth(base) if base[0] == "call" and base[1] == "range" else ("B", ("truth", base), True)
    if is_const(t):
        return st if t[1] == pol else None
    return st.with_lit(t[1], t[2] == pol)


def unimplemented(node):
    """A method left to subclasses: nothing but a docstring and `raise NotImplementedError` or `pass`."""
    b = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(b) != 1:
        return not b
    x = b[0]
    if isinstance(x, ast.Raise) and x.exc is not None:
        return "NotImplementedError" in ast.unparse(x.exc)
    return isinstance(x, ast.Pass)


def pos(args):
    return tuple((str(i), a) if not (isinstance(a, tuple) and a and a[0] == "star") else ("*", a[1])
                 for i, a in enumerate(args))




def keyword_args(kw, v):
    if kw.arg is None and v[0] == "dict" and all(is_const(k) and isinstance(k[1], str) for k, _ in v[1]):
        return tuple((k[1], x) for k, x in v[1])
    return ((kw.arg or "**", v),)


def contains_acc(t, base):
    if isinstance(t, tuple):
        if len(t) >= 3 and t[0] == "acc" and t[1] == base:
            return True
        return any(contains_acc(x, base) for x in t)
    if isinstance(t, frozenset):
        return any(contains_acc(x, base) for x in t)
    return False


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2


def droppable_did(d):
    """Completed calls that are plain reads: they never distinguish paths."""
    if d[0] == "set":
        return True
    nm = did_name(d)
    return not is_guard_name(nm)


def did_name(d):
    if d[0] == "each":
        return did_name(d[3])
    if d[0] == "call":
        return str(d[1]).split(".")[-1]
    if d[0] == "mcall":
        return d[2]
    if d[0] == "new":
        return "new"
    if d[0] in ("del",):
        return "del"
    return d[0]


GUARD_PREFIX = ("verify", "validate", "check", "ensure", "must", "is_", "process", "sign", "protect", "add_", "remove_",
                "change_", "mark_", "revive", "update", "contains", "may_", "set_", "build_", "prepare_", "challenge",
                "certificates_", "certificate_", "cert_in", "perform", "compute", "encaps", "decaps", "issue", "del",
                "remove", "pop", "clear", "enforce", "compare", "derive", "exchange", "encrypt", "decrypt", "generate",
                "exclude", "_verify", "_validate", "_check", "_ensure", "_process", "aes_key", "finalize", "append",
                "extend", "add", "insert", "increment", "write", "register", "setComponent", "revoke", "handle", "run",
                "store_", "wrap_", "setParams", "save_")


def is_guard_name(nm):
    return nm.startswith(GUARD_PREFIX) or "_must_" in nm


def tautology(alts, lits, budget=None):
    """Does some alternative (conjunction of literals) hold whatever the open literals are?"""
    if budget is None:
        budget = [300]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    left = []
    for a in alts:
        if any(lit_conflict(lits, x, p) for x, p in a):
            continue
        a = [(x, p) for x, p in a if not lits_imply(lits, x, p)]
        if not a:
            return True
        left.append(a)
    if not left:
        return False
    x, p = min(min(left, key=len), key=skey)
    return all(tautology(left, {**lits, x: b}, budget) for b in (p, not p))


def simplify_alts(alts):
    """Simplify a disjunction of literal conjunctions. None = tautology."""
    alts = sorted(dict.fromkeys(alts), key=skey)
    changed = True
    while changed:
        changed = False
        # absorption
        keep = []
        for a in alts:
            if any(b < a for b in alts):
                changed = True
                continue
            keep.append(a)
        alts = keep
        if any(len(a) == 0 for a in alts):
            return None
        # (A & x) | (A & !x) -> A
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                a, b = alts[i], alts[j]
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1:
                    (x, p), (y, q) = next(iter(da)), next(iter(db))
                    if x == y and p != q:
                        m = a & b
                        alts = [z for k, z in enumerate(alts) if k not in (i, j)] + [m]
                        changed = True
                        break
                    if x[0] == "vals" and y[0] == "vals" and x[1] == y[1] and p and q:
                        m = (a & b) | {(("vals", x[1], x[2] | y[2]), True)}
                        alts = [z for k, z in enumerate(alts) if k not in (i, j)] + [m]
                        changed = True
                        break
                elif len(da) == 1 and len(db) > 1:
                    # x | (!x & B) -> x | B
                    (x, p) = next(iter(da))
                    if (x, not p) in db:
                        nb = b - {(x, not p)}
                        alts[j] = nb
                        changed = True
                        break
                elif len(db) == 1 and len(da) > 1:
                    (x, p) = next(iter(db))
                    if (x, not p) in da:
                        alts[i] = a - {(x, not p)}
                        changed = True
                        break
            if changed:
                alts = list(dict.fromkeys(alts))
                break
    if any(len(a) == 0 for a in alts):
        return None
    return alts
