"""C25: fetching hash lists covers every list in use, and only newer ones."""
import ast
from vfa.q import *

RULE = """The names of all lists that the package defines in the default hash directory are collected from the source, and each must be given, unconditionally, by the fetching command to the function that updates a list. In that function, the condition under
which the list is written is evaluated in the four possible situations: list missing, local modification time before, equal to, and after the server's Last-Modified, each being read as an instant in UTC. It must hold in the first two and not in the others;
what is written is the body of a successful request for the list of that name, to the file of that name in the default hash directory."""

UP, CMD = "hashes.update_default_hashfile", "__main__.command_fetch_hashes"
COVER, WHEN, WHAT = "every list in use is fetched", "a list is downloaded if missing or older than the server's, and not otherwise", "the list of that name is downloaded into the default hash directory"
DIR = mk("global", "cdtb.hashes", "default_hash_dir")


def check(c):
    r = c.r
    if c.prog.func(UP) is None or c.prog.func(CMD) is None:
        r.und(COVER, CMD, "not found")
        return
    lists(c)
    update(c)


def uses_dir(node):
    return any(isinstance(y, ast.Name) and y.id == "default_hash_dir" or isinstance(y, ast.Attribute) and y.attr == "default_hash_dir" for y in ast.walk(node))


def lists(c):
    r = c.r
    used = {}
    for m in c.prog.modules.values():
        for x in ast.walk(m.tree):
            where = None
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div) and uses_dir(x.left):
                s = x.right
                where = f"{m.rel}:{x.lineno}"
            elif isinstance(x, ast.Call) and any(uses_dir(a) for a in x.args[:1]) and len(x.args) > 1 and isinstance(x.func, ast.Attribute) and x.func.attr == "join":
                s = x.args[1]
                where = f"{m.rel}:{x.lineno}"
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "joinpath" and uses_dir(x.func.value) and x.args:
                s = x.args[0]
                where = f"{m.rel}:{x.lineno}"
            if where is None:
                continue
            if isinstance(s, ast.Constant) and isinstance(s.value, str):
                used.setdefault(s.value, where)
            elif enclosing_function(m, x) == "update_default_hashfile":
                continue
            else:
                # name given to a function or taken from a collection of constants
                names = constants_for(m, s)
                if names is None:
                    r.und(COVER, where, "name of a list not known: " + ast.unparse(s)[:60])
                for v in names or ():
                    used.setdefault(v, where)
    i = c.run(CMD, opaque={UP})
    fetched = {}
    unsure = False
    for e in calls(i, "repo:" + UP):
        v = norm(e.args[0]) if e.args else norm(next(iter(e.kw.values())))
        g = guard_of(e.guard, i)
        loops, vs = e.loops, [v]
        if v.op == "index" and v.args[0].op in ("list", "tuple") and v.args[1].op == "elem" and len(loops) == 1:
            k = v.args[1].args[0]
            if k.op == "rng" and all(x.op == "const" for x in k.args) and loops[0].args == (k, v.args[1].args[1]):
                vs, loops = [v.args[0].args[n] for n in range(*[x.args[0] for x in k.args]) if n < len(v.args[0].args)], ()
        for v in vs:
            if v.op != "const" or loops:
                unsure = True
                continue
            fetched[v.args[0]] = e
            if g is not TRUE:
                (r.bad if any(a.op != "exc" for a in tm.atoms(g)) else r.und)(COVER, e.where(), f"{v.args[0]} is fetched only if {text(g)[:100]}")
    for n, where in sorted(used.items()):
        if n in fetched:
            r.ok(COVER, where, n)
        elif unsure:
            r.und(COVER, where, f"{n} is perhaps not fetched")
        else:
            r.bad(COVER, where, f"{n} is never fetched")
    if not used:
        r.und(COVER, "cdtb", "no list found in the default hash directory")


def enclosing_function(m, x):
    best = None
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.lineno <= x.lineno <= f.end_lineno:
            if best is None or f.lineno > best.lineno:
                best = f
    return best.name if best is not None else None


def constants_for(m, s):
    """Values of a name that is a function's parameter given constants in the module, or of an f-string of one."""
    if isinstance(s, ast.JoinedStr):
        parts, var = [], None
        for p in s.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            elif isinstance(p, ast.FormattedValue) and isinstance(p.value, ast.Name) and var is None:
                var = p.value
                parts.append(None)
            else:
                return None
        vs = constants_for(m, var) if var is not None else [""]
        return None if vs is None else ["".join(v if p is None else p for p in parts) for v in vs]
    if not isinstance(s, ast.Name):
        return None
    out = []
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f.lineno <= s.lineno <= f.end_lineno and s.id in [a.arg for a in f.args.args]:
            k = [a.arg for a in f.args.args].index(s.id)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and isinstance(f, ast.FunctionDef) and x.func.id == f.name:
                    v = x.args[k] if k < len(x.args) else next((w.value for w in x.keywords if w.arg == s.id), None)
                    if not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
                        return None
                    out.append(v.value)
    return out or None


def guard_of(g, i):
    """Guard without the check for the bundled directory, which ends the command."""
    for e in i.events:
        if e.kind == "raise" and e.name == "SystemExit":
            for a in tm.atoms(e.guard):
                if tm.mentions(a, lambda x: x is DIR):
                    v = not tm.satisfiable(band(e.guard, bnot(a)))
                    g = assume(g, {a: not v})
    g = assume(g, {a: True for a in tm.atoms(g) if a.op == "ok"})
    return g


# ---- instants

def instant(t, path):
    """"local", "remote", "naive" (remote time read in the local time zone), "other", or None."""
    t0 = t
    if t.op == "attr" and str(t.args[1]).startswith("st_"):
        src = t.args[0]
        if src.op in ("mcall", "call") and tm.mentions(src, lambda x: same(x, path)):
            return "local" if t.args[1] == "st_mtime" else "other"
        return None
    if t.op == "call" and t.args[0] == "os.path.getmtime" and same(t.args[1], path):
        return "local"
    if t.op == "call" and t.args[0] in ("os.path.getatime", "os.path.getctime") and same(t.args[1], path):
        return "other"
    if t.op == "mcall" and t.args[1] == "timestamp":
        d = moment(t.args[0], path)
        return {"utc": "remote", "naive": "naive", "local": "local"}.get(d)
    if t.op == "call" and t.args[0] == "calendar.timegm":
        x = t.args[1]
        if x.op == "mcall" and x.args[1] in ("timetuple", "utctimetuple"):
            return "remote" if moment(x.args[0], path) in ("naive", "utc") else None
        if x.op == "call" and x.args[0] in ("time.strptime", "email.utils.parsedate") and is_header(x.args[1]):
            return "remote"
    if t.op == "call" and t.args[0] == "time.mktime":
        return "naive" if tm.mentions(t, is_header) else None
    if t.op == "call" and t.args[0] in ("int", "float", "round", "math.floor", "math.ceil"):
        return instant(t.args[1], path)
    d = moment(t0, path)
    return {"utc": "remote", "local": "local", "naive": "naive"}.get(d)


def is_header(x):
    if x.op == "index":
        b, k = x.args[:2]
    elif x.op == "mcall" and x.args[1] == "get" and len(x.args) > 2:
        b, k = x.args[0], x.args[2]
    else:
        return False
    return b.op == "attr" and b.args[1] == "headers" and k.op == "const" and str(k.args[0]).lower() == "last-modified" and b.args[0].op == "call" and b.args[0].args[0] in ("requests.head", "requests.get")


def utc(x):
    return x.op in ("lib", "attr", "global") and any(isinstance(a, str) and (a.endswith("timezone.utc") or a == "utc" or a.endswith("UTC")) for a in x.args)


def moment(t, path):
    """Kind of datetime: "utc" (aware), "naive" (remote without zone), "local" (local mtime, aware)."""
    if t.op == "call" and t.args[0] in ("datetime.datetime.strptime",) and is_header(t.args[1]):
        f = t.args[2]
        return "naive" if f.op == "const" and not str(f.args[0]).endswith("%z") else None
    if t.op == "call" and t.args[0] == "email.utils.parsedate_to_datetime" and is_header(t.args[1]):
        return "utc"
    if t.op == "mcall" and t.args[1] == "replace" and len(t.args) == 3 and t.args[2].op == "kw" and t.args[2].args[0] == "tzinfo":
        b = moment(t.args[0], path)
        if b in ("naive", "utc"):
            return "utc" if utc(t.args[2].args[1]) else "naive" if is_const(t.args[2].args[1], None) else None
        return None
    if t.op == "mcall" and t.args[1] == "astimezone":
        b = moment(t.args[0], path)
        return b if b in ("utc", "local") else "naive" if b == "naive" else None
    if t.op == "call" and t.args[0] == "datetime.datetime.fromtimestamp" and instant(t.args[1], path) == "local" and len(t.args) > 2:
        return "local"
    return None


def update(c):
    r = c.r
    i = c.run(UP)
    f = c.prog.func(UP)
    base = mk("param", f.node.args.args[0].arg)
    gets = calls(i, "requests.get")
    ws = [e for e in write_opens(i)]
    if not ws:
        (r.und if any(e.kind in ("mcall", "call") and ("write" in e.name or "copy" in e.name or e.name.startswith("shutil.") or e.name.endswith("urlretrieve")) for e in i.events) else r.bad)(WHAT, UP, "nothing is written")
        return
    for e in ws:
        w = e.where()
        path = norm(e.args[0]) if e.kind == "call" else norm(e.recv)
        want = norm(mk("call", "os.path.join", DIR, base))
        if not same(path, want):
            ps = pieces(path)
            (r.bad if tm.mentions(path, lambda x: x is DIR) and not tm.mentions(path, lambda x: x is base) or not tm.mentions(path, lambda x: x is DIR) else r.und)(WHAT, w, f"written to {text(path)[:100]}")
        else:
            r.ok(WHAT, w, text(path)[:60])
        when(c, i, e, path)
        out = written(i, e.result) if e.result is not None else []
        if not out:
            r.und(WHAT, w, "nothing written")
        for loops, g, v, x in out:
            src = v
            while src.op in ("attr", "mcall", "elem") and src.args[0].op in ("attr", "mcall", "elem", "call"):
                nm = src.args[1] if src.op in ("attr", "mcall") else None
                if nm == "text":
                    r.und(WHAT, x.where(), "text instead of bytes")
                src = src.args[0]
            if src.op == "call" and src.args[0] == "requests.get":
                url(c, src, base, x.where(), f)
            else:
                r.und(WHAT, x.where(), text(v)[:80])
            if src.op == "call":
                # the response is checked before anything is written
                seen = [a for a in tm.atoms(e.guard) if a.op == "ok" and strip_uid(a.args[0]) is strip_uid(src)] or [a for a in tm.atoms(x.guard) if a.op == "ok" and strip_uid(a.args[0]) is strip_uid(src)] or [a for a in tm.atoms(x.guard) if tm.mentions(a, lambda y: y.op == "attr" and y.args[1] in ("ok", "status_code"))]
                r.ob(bool(seen), WHAT, x.where(), "an error response would be saved as the list")


def url(c, req, base, w, f):
    r = c.r
    u = norm(req.args[1]) if len(req.args) > 1 else NONE
    ps = pieces(u)
    ok = len(ps) >= 2 and ps[-1] is base and ps[-2].op == "const" and str(ps[-2].args[0]).endswith("/")
    if ok:
        r.ok(WHAT, w, text(u)[:80])
    else:
        (r.bad if not tm.mentions(u, lambda x: x is base) else r.und)(WHAT, w, f"downloaded from {text(u)[:90]}")


def when(c, i, e, path):
    r = c.r
    w = e.where()
    g = norm(e.guard)
    g = assume(g, {a: True for a in tm.atoms(g) if a.op == "ok"})
    # what an exception means
    known = {k: {} for k in ("missing", "older", "equal", "newer")}
    for a in [x for x in tm.atoms(g) if x.op == "exc"] + [x for y in tm.atoms(g) for x in subterms(y) if x.op == "exc"]:
        names = str(a.args[0]).split("|")
        net = [x for x in i.events if x.kind == "call" and x.name.startswith("requests.") and in_zone(x, a.args[1], "body")]
        stat = [x for x in i.events if (x.kind == "mcall" and x.name in ("stat", "lstat") or x.kind == "call" and x.name in ("os.stat", "os.path.getmtime")) and in_zone(x, a.args[1], "body")]
        if net and names != ["FileNotFoundError"] and tm.satisfiable(tm.subst(g, {a: TRUE})):
            r.bad(WHEN, w, f"also downloaded when asking the server fails with {' or '.join(names)}")
            return
        for k in known:
            known[k][a] = TRUE if k == "missing" and stat and catches(c.prog, names, "FileNotFoundError") else FALSE
    res = {}
    for k, m in known.items():
        h = tm.subst(g, m) if m else g
        vals = {}
        for a in tm.atoms(h):
            if exists(a, path):
                vals[a] = k != "missing"
            elif a.op in ("<", "==") and k != "missing":
                x, y = (instant(z, path) for z in a.args)
                if "naive" in (x, y):
                    r.bad(WHEN, w, "the server's time is read in the local time zone")
                    return
                if "other" in (x, y):
                    r.bad(WHEN, w, f"compares {text(a)[:100]}")
                    return
                if {x, y} == {"local", "remote"}:
                    l = {"older": 0, "equal": 1, "newer": 2}[k]
                    p, q = (l, 1) if x == "local" else (1, l)
                    vals[a] = p < q if a.op == "<" else p == q
            elif a.op == "is" and is_const(a.args[1], None) and k != "missing" and (instant(a.args[0], path) or a.args[0].op in ("call", "attr")):
                vals[a] = False
        res[k] = assume(h, vals)
    for k, want in (("missing", True), ("older", True), ("equal", False), ("newer", False)):
        h = res[k]
        what = {"missing": "the list is missing", "older": "the local list is older", "equal": "the lists are of the same time", "newer": "the local list is more recent"}[k]
        if want and h is TRUE or not want and not tm.satisfiable(h):
            r.ok(WHEN, w, what)
        elif want and not tm.satisfiable(h) or k == "missing" and tm.mentions(h, lambda x: instant(x, path) == "local"):
            r.bad(WHEN, w, f"not downloaded when {what}")
        elif not want and h is TRUE:
            r.bad(WHEN, w, f"downloaded when {what}")
        else:
            r.und(WHEN, w, f"when {what}: {text(h)[:100]}")


def exists(a, path):
    if a.op == "truthy":
        x = a.args[0]
        if x.op == "mcall" and x.args[1] in ("exists", "is_file") and same(strip_uid(x.args[0]), path):
            return True
        if x.op == "call" and x.args[0] in ("os.path.exists", "os.path.isfile") and same(x.args[1], path):
            return True
    if a.op in ("isfile", "exists"):
        return True
    if a.op == "call" and a.args[0] in ("os.path.exists", "os.path.isfile"):
        return True
    return None
