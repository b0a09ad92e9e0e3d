"""C26: the hash directory follows the documented precedence."""
import ast
import itertools
from vfa.q import *

RULE = """The function that gives the module's hash directory is reduced to the term it returns, in terms of the environment variables and the home directory. Each variable is then taken as unset, empty or set, and the data directory of XDG as absolute or not,
in every combination; the term must reduce to the path that the documented order of precedence gives for it."""

WHAT = "the directory is the one the precedence gives"
VARS = ("CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA")
SUB = "cdragon/data/hashes/lol"


def check(c):
    r = c.r
    root = None
    for m in c.prog.modules.values():
        if not m.rel.endswith("hashes.py"):
            continue
        for x in m.tree.body:
            t = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
            if any(isinstance(y, ast.Name) and y.id == "default_hash_dir" for y in t):
                where = f"{m.rel}:{x.lineno}"
                v = x.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.args and not v.keywords:
                    root = "hashes." + v.func.id
                elif not any(isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id == "Path") for y in ast.walk(v)):
                    r.bad(WHAT, where, "the hash directory is fixed: " + ast.unparse(v)[:80])
                    return
    if root is None or c.prog.func(root) is None:
        r.und(WHAT, "hashes.default_hash_dir", "its definition is not a call of a function of the module")
        return
    i = c.run(root)
    res = i.result
    names = set()
    tm.rewrite(res, lambda x: (names.add(env_of(x)[0]) if env_of(x) else None, x)[1])
    for x in subterms(res):
        if x.op == "call" and x.args[0] in ("os.environ.get", "os.getenv") and x.args[1].op == "ite":
            names |= {v.args[0] for _, v in tm.cases(x.args[1]) if v.op == "const"}
    for n in sorted(names - set(VARS) - {None}):
        r.bad(WHAT, root, f"also depends on ${n}")
    if any(x.op == "exc" for x in subterms(res)):
        r.und(WHAT, root, "depends on an exception")
        return
    for states in itertools.product(("unset", "empty", "set"), repeat=4):
        st = dict(zip(VARS, states))
        for absolute in (True, False) if st["XDG_DATA_HOME"] == "set" else (False,):
            one(c, root, res, st, absolute)
    other_writes(c)


def env_of(x):
    """(variable, default term) read by a term."""
    if x.op == "call" and x.args[0] in ("os.environ.get", "os.getenv") and x.args[1].op == "const":
        return x.args[1].args[0], (x.args[2] if len(x.args) > 2 and x.args[2].op != "uid" else NONE)
    if x.op == "mcall" and x.args[1] == "get" and is_environ(x.args[0]) and x.args[2].op == "const":
        return x.args[2].args[0], (x.args[3] if len(x.args) > 3 and x.args[3].op != "uid" else NONE)
    if x.op == "index" and is_environ(x.args[0]) and x.args[1].op == "const":
        return x.args[1].args[0], NONE
    return None


def is_environ(x):
    return x.op in ("lib", "global") and str(x.args[-1]).endswith("environ")


def sym(v):
    return mk("param", "$" + v)


def one(c, root, res, st, absolute):
    r = c.r
    d = ", ".join(f"{v} {s}" for v, s in st.items()) + (", absolute" if absolute else "")

    def f(x):
        if x.op == "call" and x.args[0] in ("os.environ.get", "os.getenv") and x.args[1].op == "ite":
            g, p, q = x.args[1].args
            return tm.ite(g, mk("call", x.args[0], p, *x.args[2:]), mk("call", x.args[0], q, *x.args[2:]))
        e = env_of(x)
        if e and e[0] in st:
            s = st[e[0]]
            return sym(e[0]) if s == "set" else const("") if s == "empty" else e[1]
        if x.op == "in" and is_environ(x.args[1]) and x.args[0].op == "const" and x.args[0].args[0] in st:
            return const(st[x.args[0].args[0]] != "unset")
        if x.op == "truthy":
            y = x.args[0]
            if y.op == "param" and str(y.args[0]).startswith("$"):
                return TRUE
            if y.op == "mcall" and y.args[1] == "is_absolute" or y.op == "call" and y.args[0] == "os.path.isabs":
                return is_abs(y.args[0] if y.op == "mcall" else y.args[1], absolute) or x
            if y.op == "call" and y.args[0] in ("os.path.join", "pathlib.Path", "pathlib.Path.home"):
                return TRUE
        if x.op == "==" and any(y is const("") for y in x.args) and any(y.op == "param" for y in x.args):
            return FALSE
        if x.op == "is" and is_const(x.args[1], None) and (x.args[0].op == "param" or x.args[0].op == "call"):
            return FALSE
        if x.op == "isinst":
            return x
        return x
    v = res
    for _ in range(4):
        w = tm.rewrite(v, f)
        if w is v:
            break
        v = w
    plat = sorted({a for x in subterms(v) if x.op == "ite" for a in tm.atoms(x.args[0]) if tm.mentions(a, lambda y: y.op == "lib" and str(y.args[0]) in ("os.name", "sys.platform", "os.sep"))}, key=str)
    if plat and len(plat) < 4:
        for vals in itertools.product((TRUE, FALSE), repeat=len(plat)):
            judge(c, root, tm.subst(v, dict(zip(plat, vals))), st, absolute, d)
    else:
        judge(c, root, v, st, absolute, d)


def judge(c, root, v, st, absolute, d):
    r = c.r
    cs = tm.cases(v)
    base = st["XDG_DATA_HOME"] == "set" and absolute
    if st["CDTB_HASHES_DIR"] == "set":
        want = (sym("CDTB_HASHES_DIR"), "")
    elif st["CDRAGON_DATA"] == "set":
        want = (sym("CDRAGON_DATA"), "hashes/lol")
    elif base:
        want = (sym("XDG_DATA_HOME"), SUB)
    elif st["LOCALAPPDATA"] == "set":
        want = (sym("LOCALAPPDATA"), SUB)
    else:
        want = ("home", ".local/share/" + SUB)
    if len(cs) != 1:
        r.und(WHAT, root, d + ": depends on " + ", ".join(text(a)[:60] for a in tm.atoms(cs[0][0]))[:120])
        return
    got = path_of(cs[0][1])
    if got is None:
        (r.bad if is_const(cs[0][1], None) else r.und)(WHAT, root, d + ": " + text(cs[0][1])[:100])
    elif got[0] is want[0] or got[0] == want[0]:
        r.ob(got[1] == want[1], WHAT, root, d + f": subdirectory {got[1]!r}")
    else:
        r.bad(WHAT, root, d + f": {text(cs[0][1])[:100]}")


def is_abs(x, absolute):
    p = path_of(x)
    if p is None:
        return None
    if p[0] == "home":
        return TRUE
    if p[0] is sym("XDG_DATA_HOME"):
        return TRUE if absolute else FALSE
    if p[0] == "":
        return FALSE
    return None


def path_of(t):
    """(base, subdirectory) of a path term."""
    if t.op == "call" and t.args[0] in ("pathlib.Path", "str", "os.fspath", "pathlib.PurePath"):
        p = None
        for a in t.args[1:]:
            if isinstance(a, T) and a.op == "uid":
                continue
            q = path_of(a)
            p = q if p is None else join(p, q)
            if p is None:
                return None
        return p if p is not None else ("", "")
    if t.op == "call" and t.args[0] == "os.path.join" or t.op == "bin" and t.args[0] == "/":
        p = None
        for a in t.args[1:]:
            if isinstance(a, T) and a.op == "uid":
                continue
            q = path_of(a)
            p = q if p is None else join(p, q)
            if p is None:
                return None
        return p
    if t.op == "mcall" and t.args[1] == "joinpath":
        p = path_of(t.args[0])
        for a in t.args[2:]:
            if isinstance(a, T) and a.op != "uid" and p is not None:
                p = join(p, path_of(a))
        return p
    if t.op == "cat":
        n = norm(t)
        if n.op != "cat":
            return path_of(n)
        p = path_of(n.args[0])
        rest = n.args[1:]
        if p is not None and all(x.op == "const" for x in rest):
            s = "".join(str(x.args[0]) for x in rest)
            return join(p, ("", s.strip("/"))) if s.startswith("/") else None
        return None
    if t.op == "const" and isinstance(t.args[0], str):
        s = t.args[0]
        if s == "~" or s.startswith("~/"):
            return None
        return ("/", s) if s.startswith("/") else ("", s.strip("/"))
    if t.op == "param" and str(t.args[0]).startswith("$"):
        return (t, "")
    if t.op == "call" and t.args[0] == "pathlib.Path.home":
        return ("home", "")
    if t.op in ("call", "mcall") and "expanduser" in (str(t.args[0]), str(t.args[1]), str(t.args[0]).rsplit(".")[-1]):
        a = t.args[1] if t.op == "call" else t.args[0]
        while a.op == "call" and a.args[0] == "pathlib.Path":
            a = a.args[1]
        if a.op == "call" and a.args[0] == "os.path.join":
            a = norm(a)
        if a.op == "const" and str(a.args[0]).startswith("~"):
            return ("home", str(a.args[0])[1:].strip("/"))
        return path_of(a)
    return None


def join(p, q):
    if p is None or q is None:
        return None
    if q[0] != "":
        return q if q[0] in ("/", "home") else None
    return (p[0], "/".join(x for x in (p[1], q[1]) if x))


def other_writes(c):
    """The directory is not changed afterwards."""
    r = c.r
    for f in c.prog.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Global) and "default_hash_dir" in x.names or isinstance(x, ast.Attribute) and x.attr == "default_hash_dir" and isinstance(x.ctx, ast.Store):
                r.und(WHAT, f"{f.module.rel}:{x.lineno}", "the directory is changed after the start")
