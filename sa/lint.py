"""Rules over the whole source that need no reviewed table: the oracle is the message grammar, the list of failure
bits, the generators that count as cryptographic, or the arguments a keyword accepts."""
import ast
import glob
import os

# the choices of PKIBody (RFC 4210, RFC 9480) and the bits of PKIFailureInfo (RFC 4210, 5.2.3) with their positions
BODY = {"ir", "ip", "cr", "cp", "p10cr", "popdecc", "popdecr", "kur", "kup", "krr", "krp", "rr", "rp", "ccr", "ccp",
        "ckuann", "cann", "rann", "crlann", "pkiconf", "nested", "genm", "genp", "error", "certConf", "pollReq", "pollRep"}
FAIL = ["badAlg", "badMessageCheck", "badRequest", "badTime", "badCertId", "badDataFormat", "wrongAuthority",
        "incorrectData", "missingTimeStamp", "badPOP", "certRevoked", "certConfirmed", "wrongIntegrity",
        "badRecipientNonce", "timeNotAvailable", "unacceptedPolicy", "unacceptedExtension", "addInfoNotAvailable",
        "badSenderNonce", "badCertTemplate", "signerNotTrusted", "transactionIdInUse", "unsupportedVersion",
        "notAuthorized", "systemUnavail", "systemFailure", "duplicateCertReq"]
STATUS = {"accepted", "grantedWithMods", "rejection", "waiting", "revocationWarning", "revocationNotification",
          "keyUpdateWarning"}


# keys of configuration files, of liboqs' details and of sys.modules
OUTSIDE = {"ca_key_pwd", "conf_state", "length_signature", "length_ciphertext", "length_public_key", "length_secret_key",
           "oqs.StatefulSignature"}
SCOPE = ("mock_ca", "resources", "pq_logic")


def consts(node):
    """The string constants a comparison operand or argument may be."""
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return [node.value]
    if isinstance(node, (ast.Set, ast.List, ast.Tuple)):
        return [x for e in node.elts for x in consts(e)]
    if isinstance(node, ast.IfExp):
        return consts(node.body) + consts(node.orelse)
    return []


def name_of(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def scopes(p):
    """(module, function) for each function and method."""
    for m in p.modules.values():
        if not m.name.startswith(SCOPE):
            continue
        for fi in [*m.funcs.values(), *(x for c in m.classes.values() for x in c.methods.values())]:
            yield m, fi


# ------------------------------------------------------------------ the message grammar
class Grammar:
    """Component names of the ASN.1 types, read from the sources of the type modules."""

    def __init__(self, p):
        self.types = {}       # (module, class) -> {field: (module, class) or None}
        self.bases = {}
        self.mods = {}
        for base in glob.glob("/opt/venv/lib/python3*/site-packages/pyasn1_alt_modules"):
            for f in sorted(os.listdir(base)):
                if f.endswith(".py"):
                    with open(os.path.join(base, f), encoding="utf-8") as h:
                        self.read(f[:-3], ast.parse(h.read()))
        for m in p.modules.values():
            self.read(m.name.rsplit(".", 1)[-1], m.tree)
        self.fields = {}
        for t, fs in self.types.items():
            for k, v in fs.items():
                self.fields.setdefault(k, set()).add(v)

    def read(self, mod, tree):
        self.mods.setdefault(mod, {})
        for st in tree.body:
            if isinstance(st, ast.ClassDef):
                self.mods[mod][st.name] = (mod, st.name)
                fs = {}
                for b in ast.walk(st):
                    self.named(b, mod, fs)
                self.types[(mod, st.name)] = fs
                self.bases[(mod, st.name)] = [self.ref(x, mod) for x in st.bases]
            elif isinstance(st, ast.ImportFrom):
                for al in st.names:
                    self.mods[mod][al.asname or al.name] = ((st.module or "").rsplit(".", 1)[-1], al.name)
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Name, ast.Attribute)):
                t = st.targets[0]
                if isinstance(t, ast.Name):
                    r = self.ref(st.value, mod) if isinstance(st.value, (ast.Name, ast.Attribute)) else None
                    if r is not None:
                        self.mods[mod][t.id] = r
                elif t.attr == "componentType" and isinstance(t.value, ast.Name):
                    # CRLReason-style late definition
                    fs = {}
                    for b in ast.walk(st.value):
                        self.named(b, mod, fs)
                    self.types.setdefault((mod, t.value.id), {}).update(fs)

    def named(self, b, mod, fs):
        if isinstance(b, ast.Call) and name_of(b.func) in ("NamedType", "OptionalNamedType", "DefaultedNamedType") and b.args:
            for k in consts(b.args[0]):
                fs[k] = self.ref(b.args[1], mod) if len(b.args) > 1 else None

    def ref(self, e, mod):
        """The class a type expression names, if it names one."""
        while isinstance(e, ast.Call) or isinstance(e, ast.Attribute) and e.attr in ("subtype", "clone"):
            e = e.func if isinstance(e, ast.Call) else e.value
        if isinstance(e, ast.Name):
            return (mod, e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return (e.value.id, e.attr)
        return None

    def resolve(self, t, depth=0):
        while t is not None and t not in self.types and depth < 12:
            n = self.mods.get(t[0], {}).get(t[1])
            if n is None or n == t:
                return None
            t = n
            depth += 1
        return t

    def components(self, t, depth=0):
        """Field names of a type, with those of its bases and of its elements; None when unknown."""
        t = self.resolve(t)
        if t is None or depth > 8:
            return None
        fs = set(self.types[t])
        for b in self.bases.get(t, []):
            r = self.resolve(b)
            if r is not None:
                more = self.components(r, depth + 1)
                fs |= more or set()
        return fs or None


def grammar_rule(p, Finding, small=False):
    """Names used to address message parts exist in the grammar."""
    g = Grammar(p)
    if len(g.types) < 500:
        return [], 0, "the ASN.1 type modules were not found"
    every = set(g.fields)
    keys = set(OUTSIDE)
    for m in p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Dict):
                keys |= {k for e in x.keys if e is not None for k in consts(e)}
            elif isinstance(x, ast.keyword) and x.arg:
                keys.add(x.arg)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                keys |= set(consts(x.slice))
            elif isinstance(x, ast.Call) and name_of(x.func) in ("get", "pop", "setdefault") and x.args:
                keys |= set(consts(x.args[0]))
    res, n = [], 0
    for m, fi in scopes(p):
        holds = set()      # local names holding a body name
        fails = set()
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and is_body_name(x.value):
                holds.add(x.targets[0].id)
        for par in fi.params:
            if par in ("body_name", "body_type", "msg_type"):
                holds.add(par)
        for x in ast.walk(fi.node):
            # message["body"]["<choice>"]
            if isinstance(x, ast.Subscript) and consts(x.slice) and isinstance(x.value, ast.Subscript):
                inner = consts(x.value.slice)
                k = consts(x.slice)[0]
                if inner == ["body"]:
                    n += 1
                    if k not in BODY:
                        res.append(Finding(fi.qual, "NAME", f"no message body is called {k!r}", m.path, x.lineno))
                elif len(inner) == 1 and inner[0] in every:
                    n += 1
                    ts = [g.components(t) if t is not None else None for t in g.fields[inner[0]]]
                    if all(t is not None for t in ts) and not any(k in t for t in ts):
                        res.append(Finding(fi.qual, "NAME", f"no type with a component {inner[0]!r} has {k!r} below it",
                                           m.path, x.lineno))
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant) \
                    and isinstance(x.slice.value, str):
                n += 1
                if x.slice.value not in every and x.slice.value not in keys:
                    res.append(Finding(fi.qual, "NAME", f"nothing has a component or key {x.slice.value!r}", m.path, x.lineno))
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                a, b = x.left, x.comparators[0]
                for u, v in ((a, b), (b, a)):
                    if is_body_name(u) or isinstance(u, ast.Name) and u.id in holds:
                        for k in consts(v):
                            n += 1
                            if k not in BODY:
                                res.append(Finding(fi.qual, "NAME", f"a body name is compared with {k!r}", m.path, x.lineno))
                    if is_status(u):
                        for k in consts(v):
                            n += 1
                            if k not in STATUS:
                                res.append(Finding(fi.qual, "NAME", f"a PKIStatus is compared with {k!r}", m.path, x.lineno))
            if isinstance(x, ast.Call):
                for kw in x.keywords:
                    if kw.arg and kw.arg.lower() in ("failinfo", "fail_info"):
                        for k in consts(kw.value):
                            for one in k.split(","):
                                n += 1
                                if one.strip() not in FAIL:
                                    res.append(Finding(fi.qual, "NAME", f"{one.strip()!r} is no PKIFailureInfo bit",
                                                       m.path, x.lineno))
                    if kw.arg == "body_name":
                        for k in consts(kw.value):
                            n += 1
                            if k not in BODY:
                                res.append(Finding(fi.qual, "NAME", f"no message body is called {k!r}", m.path, x.lineno))
    return res, n, None


def failinfo_rule(p, Finding, small=False):
    """The failure name and bit of each error class, and the names set elsewhere."""
    res, n = [], 0
    for q, c in p.classes.items():
        v = c.attrs.get("failinfo")
        for k in consts(v) if v is not None else []:
            n += 1
            if k not in FAIL:
                res.append(Finding(q, "NAME", f"{k!r} is no PKIFailureInfo bit", c.module.path, c.node.lineno))
        b, up = c.attrs.get("bit_num"), v
        if b is None and v is None:
            continue
        for own in ("failinfo", "bit_num"):
            d = q
            got = c.attrs.get(own)
            for _ in range(6):
                if got is not None:
                    break
                rs = [p.resolve_expr(p.classes[d].module, x) for x in p.classes[d].bases]
                d = next((r[1] for r in rs if r is not None and r[0] == "class" and r[1] in p.classes), None)
                if d is None:
                    break
                got = p.classes[d].attrs.get(own)
            if own == "failinfo":
                up = got
            else:
                b = got
        if up is not None and b is not None and consts(up) and isinstance(b, ast.Constant):
            n += 1
            k = consts(up)[0]
            if k in FAIL and FAIL.index(k) != b.value:
                res.append(Finding(q, "NAME", f"{k} is bit {FAIL.index(k)}, not {b.value}", c.module.path, c.node.lineno))
    if not small and n < 20:
        return res, n, "the error classes were not found"
    return res, n, None


def is_body_name(e):
    """x["body"].getName() or get_cmp_message_type(x)."""
    if not isinstance(e, ast.Call):
        return False
    if name_of(e.func) == "get_cmp_message_type":
        return True
    return name_of(e.func) == "getName" and isinstance(e.func, ast.Attribute) and isinstance(
        e.func.value, ast.Subscript) and consts(e.func.value.slice) == ["body"]


def is_status(e):
    """str(x["status"]["status"])"""
    if isinstance(e, ast.Call) and name_of(e.func) == "str" and len(e.args) == 1:
        a = e.args[0]
        return isinstance(a, ast.Subscript) and consts(a.slice) == ["status"] and isinstance(
            a.value, ast.Subscript) and consts(a.value.slice) in (["status"], ["statusInfo"], ["pKIStatusInfo"])
    return False


# ------------------------------------------------------------------ randomness
GOOD = {"urandom", "token_bytes", "token_hex", "randbelow", "randbits", "random_serial_number", "getrandom",
        "SystemRandom", "choice", "generate_private_key", "generate"}
SECRETS = {"salt", "nonce", "iv", "cek", "seed", "challenge", "sender_nonce", "recip_nonce", "transaction_id", "transactionid",
           "senderNonce", "shared_secret", "sharedsecret", "content_encryption_key", "ukm", "entity_ukm", "rand", "kek"}
# (function, what): reviewed exceptions
RAND_OK = {"resources.cmputils.modify_random_str", "resources.ca_ra_utils.prepare_challenge"}


def external(p, m, node):
    r = p.resolve_expr(m, node)
    return r[1] if r is not None and r[0] in ("ext", "mod") else ""


def fixed(e):
    """A constant byte string (also repeated, sliced, or converted from a constant)."""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (bytes, str, int)) and not isinstance(e.value, bool) and bool(e.value)
    if isinstance(e, ast.BinOp):
        return fixed(e.left) and fixed(e.right)
    if isinstance(e, ast.Call):
        n = name_of(e.func)
        if n in ("bytes", "bytearray") and len(e.args) == 1 and not isinstance(e.args[0], ast.Name):
            return isinstance(e.args[0], ast.Constant) or fixed(e.args[0])
        if n in ("fromhex", "to_bytes", "encode", "OctetString"):
            base = e.func.value if isinstance(e.func, ast.Attribute) else None
            return all(fixed(a) for a in e.args if n != "to_bytes") and (
                n in ("fromhex", "OctetString") or base is not None and fixed(base)) and bool(e.args or n == "encode")
    return False


def random_rule(p, Finding, small=False):
    """Where random values come from."""
    res, n = [], 0
    for m in p.modules.values():
        if not m.name.startswith(SCOPE):
            continue
        owner = {}
        for fi in [*m.funcs.values(), *(x for c in m.classes.values() for x in c.methods.values())]:
            for x in ast.walk(fi.node):
                owner[id(x)] = fi.qual
            args = fi.node.args
            dflt = list(zip([a.arg for a in args.posonlyargs + args.args][-len(args.defaults):] if args.defaults else [], args.defaults)) + \
                [(a.arg, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]
            for par, d in dflt:
                for x in ast.walk(d):
                    owner.pop(id(x), None)
                    if isinstance(x, ast.Call) and draws(p, m, x):
                        res.append(Finding(fi.qual, "RANDOM", f"the default of {par} is drawn once for all calls", m.path, x.lineno))
                if par.lower() in SECRETS and isinstance(d, ast.Constant) and isinstance(d.value, bytes) and d.value:
                    n += 1
                    if fi.qual not in RAND_OK:
                        res.append(Finding(fi.qual, "RANDOM", f"the default of {par} is a constant", m.path, d.lineno))
        inside = set(owner)
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(getattr(x, "ctx", None), ast.Load):
                d = external(p, m, x)
                if d.startswith(("random.", "numpy.random")) and not d.startswith("random.SystemRandom"):
                    n += 1
                    f = owner.get(id(x), m.name)
                    if f not in RAND_OK:
                        res.append(Finding(f, "RANDOM", f"{d} is not a cryptographic generator", m.path, x.lineno))
            if isinstance(x, ast.Call):
                if draws(p, m, x):
                    n += 1
                    if id(x) not in inside:
                        res.append(Finding(m.name, "RANDOM", f"{ast.unparse(x)} is drawn once, when the module is loaded",
                                           m.path, x.lineno))
                for kw in x.keywords:
                    if kw.arg and kw.arg.lower() in SECRETS:
                        n += 1
                        if fixed(kw.value):
                            res.append(Finding(owner.get(id(x), m.name), "RANDOM",
                                               f"{kw.arg} is the constant {ast.unparse(kw.value)[:40]}", m.path, x.lineno))
            if isinstance(x, ast.Assign) and fixed(x.value) and id(x) in inside:
                for t in x.targets:
                    nm = t.id if isinstance(t, ast.Name) else consts(t.slice)[0] if isinstance(t, ast.Subscript) and consts(t.slice) else ""
                    if nm.lower() in SECRETS:
                        res.append(Finding(owner[id(x)], "RANDOM", f"{nm} is the constant {ast.unparse(x.value)[:40]}",
                                           m.path, x.lineno))
    return res, n, None


def draws(p, m, call):
    d = external(p, m, call.func)
    return d.split(".")[-1] in ("urandom", "token_bytes", "token_hex", "randbelow", "randbits", "random_serial_number",
                                "getrandom", "getrandbits")


# ------------------------------------------------------------------ the index of a request
INDEX = ("cert_req_id", "request_index", "cert_index", "cert_number")


def index_rule(p, Finding, small=False):
    """A function told which request to work on tells the functions it calls that are asked the same."""
    res, n = [], 0
    for m, fi in scopes(p):
        mine = [x for x in INDEX if x in fi.params]
        if not mine:
            continue
        # names that carry the index: the parameter itself and what is computed from it
        holds = {x: {x} for x in mine}
        for _ in range(2):
            for x in ast.walk(fi.node):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    used = {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        for z in ast.walk(t):
                            if isinstance(z, ast.Name):
                                for k in mine:
                                    if used & holds[k]:
                                        holds[k].add(z.id)
        carried = set().union(*holds.values())
        for x in ast.walk(fi.node):
            if not isinstance(x, ast.Call):
                continue
            r = p.resolve_expr(m, x.func)
            if r is None or r[0] != "func" or r[1] not in p.funcs:
                continue
            g = p.funcs[r[1]]
            for k in mine:
                if k not in g.params or g.qual == fi.qual:
                    continue
                n += 1
                if any(kw.arg is None for kw in x.keywords) or any(isinstance(a, ast.Starred) for a in x.args):
                    continue
                at = g.params.index(k)
                v = next((kw.value for kw in x.keywords if kw.arg == k), x.args[at] if at < len(x.args) else None)
                others = [a for a in [*x.args, *(kw.value for kw in x.keywords)]
                          if {y.id for y in ast.walk(a) if isinstance(y, ast.Name)} & carried]
                if v is None and not others:
                    res.append(Finding(fi.qual, "INDEX", f"{g.qual} is called without the {k} the caller was given", m.path, x.lineno))
                elif isinstance(v, ast.Constant) and not others:
                    res.append(Finding(fi.qual, "INDEX", f"{g.qual} is called with {k}={v.value!r}, not the caller's", m.path, x.lineno))
    return res, n, None
