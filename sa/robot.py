"""Calls of the robot suites checked against the Python keywords they name."""
import ast
import os
import re

from .lint import name_of

VAR = re.compile(r"^[$@&]\{.*\}(\[.*\])*\s?=?$")
SEP = re.compile(r"(?: {2,}|\t| \t)[ \t]*")
CONTROL = {"IF", "ELSE", "ELSE IF", "END", "FOR", "WHILE", "TRY", "EXCEPT", "FINALLY", "RETURN", "BREAK", "CONTINUE", "VAR"}
# keywords that run another keyword: how many arguments come before it
RUNNERS = {"runkeyword": 0, "runkeywordif": 1, "runkeywordunless": 1, "runkeywordandexpecterror": 1,
           "runkeywordandignoreerror": 0, "runkeywordandreturn": 0, "runkeywordandreturnif": 1,
           "runkeywordandreturnstatus": 0, "runkeywordandcontinueonfailure": 0, "runkeywordandwarnonfailure": 0,
           "waituntilkeywordsucceeds": 2, "repeatkeyword": 1, "runkeywordiftestfailed": 0, "runkeywordiftestpassed": 0,
           "runkeywordifanytestsfailed": 0, "runkeywordifalltestspassed": 0}
# keywords of Robot Framework's own libraries and of RequestsLibrary (see the robot files' Library settings)
EXTERNAL = set("""
appendtolist beempty callmethod catenate combinelists comment converttobytes converttointeger converttonumber
converttostring createdictionary createdirectory createfile createlist createsession decodebytestostring
dictionaryshouldcontainkey evaluate fail fatalerror fileshouldexist getbinaryfile getcount getcurrentdate getenvironmentvariable
getfile getfromdictionary getfromlist getlength getrandomnumber getregexpmatches getsubstring gettime getvariablevalue
importlibrary importresource insertintolist keywordshouldexist lengthshouldbe listfilesindirectory listshouldcontainsublist
listshouldcontainvalue listshouldnotcontainduplicates log logmany logtoconsole logvariables nooperation passexecution
passexecutionif pass post postonsession getonsession get removefile removefromdictionary removefromlist removevaluesfromlist
replacestring returnfromkeyword returnfromkeywordif runprocess setglobalvariable setsuitevariable settaskvariable
settestvariable setlocalvariable setloglevel settestmessage settodictionary setvariable setvariableif shouldbeempty
shouldbeequal shouldbeequalasintegers shouldbeequalasnumbers shouldbeequalasstrings shouldbetrue shouldcontain
shouldcontainany shouldmatchregexp shouldnotbeempty shouldnotbeequal shouldnotbeequalasintegers shouldnotbeequalasstrings
shouldnotbetrue shouldnotcontain shouldstartwith skip skipif sleep splitstring splitstringfromright startprocess stripstring
subtractdatefromdate terminateprocess variableshouldexist requestshouldbesuccessful logdictionary loglist deletefile
exitforloop exitforloopif continueforloopif waitforprocess converttolowercase shouldnotcontainany filesshouldnotexist
fileshouldnotexist copydictionary addtimetodate runandreturnrcandoutput copyfile directoryshouldexist encodestringtobytes generaterandomstring
""".split())


def norm(s):
    return s.lower().replace(" ", "").replace("_", "")


def rows(text):
    """(line number, cells) with continuations joined; the first cell is '' for indented lines."""
    out = []
    for i, ln in enumerate(text.splitlines(), 1):
        if not ln.strip() or ln.lstrip().startswith("#"):
            continue
        cells = SEP.split(ln.rstrip())
        for k, c in enumerate(cells):
            if c.startswith("#"):
                cells = cells[:k]
                break
        body = [c for c in cells if c != ""] if cells and cells[0] == "" else cells
        ind = bool(cells) and cells[0] == ""
        if body and body[0] == "..." and out:
            out[-1][2].extend(body[1:])
            continue
        if not body:
            continue
        out.append([i, ind, body])
    return out


class Kw:
    def __init__(self, fi, name):
        a = fi.node.args
        self.fi = fi
        self.name = name
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and self.pos and self.pos[0] in ("self", "cls"):
            self.pos = self.pos[1:]
        self.nreq = len(self.pos) - len(a.defaults)
        self.kwonly = {x.arg: d is not None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        self.star = a.vararg is not None
        self.kw = a.kwarg is not None


def python_keywords(p, path):
    """Keywords a module library offers: its functions, own and imported."""
    out = {}
    m = next((x for x in p.modules.values() if x.path == path), None)
    if m is None:
        return None
    names = {nm: m for nm in m.syms}
    todo, seen = [m], {m.name}
    while todo:
        x = todo.pop()
        for st in x.tree.body:
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                y = p.modules.get(st.module or "")
                if y is not None and y.name not in seen:
                    seen.add(y.name)
                    todo.append(y)
                    for nm in y.syms:
                        names.setdefault(nm, y)
    for nm, src in names.items():
        if nm.startswith("_"):
            continue
        r = p.resolve(src, nm)
        if r is None or r[0] != "func" or r[1] not in p.funcs:
            continue
        fi = p.funcs[r[1]]
        name = nm
        hide = False
        for d in fi.node.decorator_list:
            dn = name_of(d.func if isinstance(d, ast.Call) else d)
            if dn == "not_keyword":
                hide = True
            if dn == "keyword" and isinstance(d, ast.Call):
                v = [k.value for k in d.keywords if k.arg == "name"] + list(d.args[:1])
                if v and isinstance(v[0], ast.Constant) and isinstance(v[0].value, str):
                    name = v[0].value
        if not hide:
            out[norm(name)] = Kw(fi, name)
    return out


class File:
    def __init__(self, root, path):
        self.path = path
        self.libs, self.res, self.own, self.embedded, self.calls = [], [], set(), [], []
        with open(os.path.join(root, path), encoding="utf-8") as f:
            text = f.read()
        sec, template, tmpl_here = "", None, None
        for ln, ind, c in rows(text):
            if c[0].startswith("***"):
                sec = norm(c[0].strip("* "))
                tmpl_here = None
                continue
            here = os.path.dirname(path)
            if sec == "settings":
                k = norm(c[0])
                if k == "library" and len(c) > 1:
                    self.libs.append(os.path.normpath(os.path.join(here, c[1])) if c[1].endswith(".py") else c[1])
                elif k == "resource" and len(c) > 1:
                    self.res.append(os.path.normpath(os.path.join(here, c[1])))
                elif k in ("suitesetup", "suiteteardown", "testsetup", "testteardown") and len(c) > 1:
                    self.call(c[1:], ln)
                elif k == "testtemplate" and len(c) > 1:
                    template = c[1]
            elif sec in ("testcases", "keywords", "tasks"):
                if not ind:
                    if sec == "keywords":
                        if "${" in c[0]:
                            self.embedded.append(re.compile("^" + ".*".join(
                                re.escape(norm(x)) for x in re.split(r"\$\{[^}]*\}", c[0])) + "$"))
                        self.own.add(norm(c[0]))
                    tmpl_here = template if sec != "keywords" else None
                    c = c[1:]
                    if not c:
                        continue
                if c[0].startswith("["):
                    k = norm(c[0].strip("[]"))
                    if k in ("setup", "teardown") and len(c) > 1 and norm(c[1]) != "none":
                        self.call(c[1:], ln)
                    elif k == "template":
                        tmpl_here = c[1] if len(c) > 1 and norm(c[1]) != "none" else None
                    continue
                if tmpl_here is not None and c[0] not in CONTROL:
                    self.call([tmpl_here] + c, ln)
                else:
                    self.step(c, ln)

    def step(self, c, ln):
        while c and VAR.match(c[0]):
            c = c[1:]
        if not c:
            return
        if c[0] in ("IF", "ELSE IF"):
            if len(c) > 2:
                self.inline(c[2:], ln)
            return
        if c[0] == "ELSE":
            if len(c) > 1:
                self.inline(c[1:], ln)
            return
        if c[0] in CONTROL or c[0].startswith(":"):
            return
        self.call(c, ln)

    def inline(self, c, ln):
        """The keyword of a one-line IF, up to its ELSE."""
        for k, x in enumerate(c):
            if x in ("ELSE", "ELSE IF"):
                self.step(c[:k], ln)
                self.step(c[k:], ln)
                return
        self.step(c, ln)

    def call(self, c, ln):
        n = norm(c[0])
        for pre in ("builtin.", "collections.", "string.", "operatingsystem."):
            if n.startswith(pre):
                n = n[len(pre):]
        if n == "runkeywords":
            cur = []
            ands = "AND" in c
            for x in c[1:]:
                if x == "AND":
                    if cur:
                        self.call(cur, ln)
                    cur = []
                elif ands:
                    cur.append(x)
                elif not VAR.match(x):
                    self.call([x], ln)
            if cur:
                self.call(cur, ln)
            return
        if n in RUNNERS:
            rest = c[1 + RUNNERS[n]:]
            if n == "runkeywordif":
                for k, x in enumerate(rest):
                    if x in ("ELSE", "ELSE IF"):
                        tail = rest[k + 1:] if x == "ELSE" else None
                        if x == "ELSE IF":
                            self.call(["Run Keyword If"] + rest[k + 1:], ln)
                        elif tail:
                            self.call(tail, ln)
                        rest = rest[:k]
                        break
            if rest and not VAR.match(rest[0]):
                self.call(rest, ln)
            return
        if "${" in c[0]:
            return
        self.calls.append((ln, n, c[0], c[1:]))


def robot_files(root):
    out = []
    for d in ("config", "resources", "tests", "tests_mock_ca", "tests_pq_and_hybrid", "client_tests"):
        for dp, dn, fn in os.walk(os.path.join(root, d)):
            dn[:] = [x for x in dn if not x.startswith(".")]
            out += [os.path.relpath(os.path.join(dp, f), root) for f in fn if f.endswith((".robot", ".resource"))]
    return sorted(out)


def complaints(kw, args):
    """Why the keyword cannot take these arguments (None: it can)."""
    npos, named, unknown = 0, set(), False
    for a in args:
        m = re.match(r"^([A-Za-z_][A-Za-z0-9_ ]*?)(?<!\\)=", a)
        if a.startswith("@{") and a.endswith("}") or a.startswith("&{") and a.endswith("}"):
            unknown = True
            continue
        if m and (m.group(1) in kw.pos or m.group(1) in kw.kwonly or kw.kw):
            named.add(m.group(1))
        elif named and not unknown:
            return f"does not take the argument {a[:40]!r} (a positional value after named ones, or an unknown name)"
        else:
            npos += 1
    if npos > len(kw.pos) and not kw.star:
        return f"takes at most {len(kw.pos)} positional arguments, {npos} given"
    twice = named & set(kw.pos[:npos])
    if twice and not unknown:
        return f"gets {sorted(twice)[0]} twice"
    if not unknown:
        lacking = [x for x in kw.pos[:max(kw.nreq, 0)][npos:] if x not in named] + \
            [x for x, has in kw.kwonly.items() if not has and x not in named]
        if lacking:
            return f"needs {', '.join(lacking)}"
    return None


def robot_rule(p, Finding, small=False):
    files = {f: File(p.root, f) for f in robot_files(p.root)}
    if len(files) < 20 and not small:
        return [], 0, "the robot suites were not found"
    libs = {}
    res, n = [], 0
    for path, f in files.items():
        seen, todo, use = set(), [path], []
        while todo:
            x = todo.pop()
            if "${" in x:
                todo += [y for y in files if y.startswith("config/") and y not in seen]
                continue
            if x in seen or x not in files:
                continue
            seen.add(x)
            use.append(files[x])
            todo += files[x].res
        own = set().union(*(u.own for u in use))
        emb = [e for u in use for e in u.embedded]
        mine = {}
        for u in use:
            for lb in u.libs:
                if lb not in libs:
                    libs[lb] = python_keywords(p, lb) if lb.endswith(".py") else None
                for k, v in (libs[lb] or {}).items():
                    mine.setdefault(k, v)
        if any(lb.endswith(".py") and libs[lb] is None for u in use for lb in u.libs):
            continue
        for ln, k, text, args in f.calls:
            n += 1
            if k in own or k in EXTERNAL or any(e.match(k) for e in emb):
                continue
            kw = mine.get(k)
            if kw is None and "." in k:
                kw = mine.get(k.split(".", 1)[1])
                if kw is None and k.split(".", 1)[1] in EXTERNAL | own:
                    continue
            if kw is None:
                res.append(Finding(text, "KEYWORD", f"no imported library or resource has the keyword {text!r}", path, ln))
                continue
            why = complaints(kw, args)
            if why:
                res.append(Finding(kw.fi.qual, "KEYWORD", f"keyword {text!r} {why} ({path})", path, ln))
    return res, n, None
