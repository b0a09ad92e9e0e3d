"""C02: response data is only used where the status was checked."""
import ast
from vfa.q import *

RULE = """Every HTTP request of the package is found by its value (module functions of `requests`, methods of a
`requests.Session` held in an attribute or local). For every function containing one, and every caller of a function that hands an
unchecked response out, each later use of the response's data (content, text, json(), headers, streamed
chunks) as an argument, receiver, condition, return or yield value must be reachable only under a successful
status (raise_for_status(), .ok or a status_code comparison dominates it). Log messages and raised errors are no
use as data."""

VERBS = {"get", "head", "post", "put", "patch", "delete", "options", "request", "send"}
DATA = {"content", "text", "raw", "headers", "cookies", "links"}
METHODS = {"json", "iter_content", "iter_lines"}
LOG = {"debug", "info", "warning", "error", "exception", "critical", "warn", "log"}


def session_attrs(p):
    """Names of attributes that hold a requests session."""
    out = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call):
                f = n.value.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if nm in ("Session", "session"):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        out.add(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", None))
    out.discard(None)
    return out


def is_request(e, sess):
    if e.kind == "call" and e.name.startswith("requests.") and e.name.split(".")[-1] in VERBS:
        return True
    if e.kind == "mcall" and e.name in VERBS and e.recv is not None:
        r = e.recv
        if r.op == "attr" and r.args[1] in sess:
            return True
        if is_call(r, "requests.Session", "requests.session", "requests.sessions.Session"):
            return True
    return False


def data_terms(t, R):
    """Does t contain data of response R?"""
    def f(y):
        if y.op == "attr" and y.args[0] is R and y.args[1] in DATA:
            return True
        return y.op == "mcall" and any(a is R for a in y.args[:2]) and any(isinstance(a, str) and a in METHODS for a in y.args)
    return tm.mentions(t, f)


def checked(g, R):
    if tm.entails(g, mk("ok", R)):
        return True
    for a in tm.atoms(g):
        b = bare(a)
        if b.op == "attr" and b.args[0] is R and b.args[1] == "ok" and tm.entails(g, a):
            return True
        if a.op in ("==", "<", "in") and any(isinstance(x, T) and tm.mentions(x, lambda y: y.op == "attr" and y.args[0] is R and y.args[1] == "status_code") for x in a.args):
            ks = [x for x in a.args if isinstance(x, T) and is_const(x) and isinstance(x.args[0], int)]
            if tm.entails(g, a) and a.op == "==" and ks and 200 <= ks[0].args[0] < 300:
                return True
            if a.op == "<" and ks:
                k = ks[0].args[0]
                if tm.entails(g, a) and a.args[1] is ks[0] and k in (300, 400):
                    return True
                if tm.entails(g, bnot(a)) and a.args[0] is ks[0] and k in (299, 399):
                    return True
            if a.op == "in" and tm.entails(g, a):
                return None
    return False


def check(c):
    p = c.prog
    sess = session_attrs(p)
    funcs = {f.qual: f for f in p.funcs.values() if "<" not in f.qual}

    def names_called(f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                out.add(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", ""))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
        return out

    def direct(f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in VERBS:
                v = n.value
                if isinstance(v, ast.Name) and (v.id == "requests" or v.id in sess) or isinstance(v, ast.Attribute) and v.attr in sess:
                    return True
                if isinstance(v, ast.Call):
                    return "ession" in ast.dump(v.func)
            if isinstance(n, ast.Name) and str(f.module.imports.get(n.id, "")).startswith("requests."):
                return True
        return False

    imports_ok = all(hasattr(m, "imports") for m in p.modules.values())
    todo = [f for f in funcs.values() if direct(f)] if imports_ok else list(funcs.values())
    done, nreq, seen = set(), 0, set()
    while todo:
        f = todo.pop()
        if f.qual in done:
            continue
        done.add(f.qual)
        i = c.run(f, max_steps=60000)
        leaks = False
        for q in evs(i, pred=lambda e: is_request(e, sess)):
            R = q.result
            if R is None:
                continue
            nreq += 1
            bad = None
            used = 0
            for e in i.events:
                if e.seq < q.seq or e is q:
                    continue
                if e.kind == "mcall" and (e.name in LOG or e.name == "raise_for_status"):
                    continue
                if e.kind == "raise" or e.kind == "enter":
                    continue
                cond = False
                terms = [e.recv] + list(e.args or ()) + list((e.kw or {}).values())
                use = any(isinstance(t, T) and data_terms(t, R) for t in terms) \
                    or (e.kind == "mcall" and e.recv is R and e.name in METHODS) \
                    or (cond := guard_uses(e.guard, R))
                if not use:
                    continue
                if is_exception_arg(i, e):
                    continue
                used += 1
                ch = False if cond == "unchecked" else checked(e.guard, R) if cond is False else True
                if ch is None:
                    c.r.und("status test not understood", e.where(), text(e.guard)[:200])
                elif not ch:
                    bad = bad or e
            for g, v, _, _ in i.root_returns:
                if isinstance(v, T):
                    v = i.snap(v)
                    if data_terms(v, R):
                        used += 1
                        if not checked(g, R):
                            bad = bad or q
                    if any(leaf is R for _, leaf in tm.cases(v)) and not checked(g, R):
                        leaks = True
            if any(e.kind in ("yield", "return") and any(a is R for a in e.args) and not checked(e.guard, R) for e in i.events):
                leaks = True
            w = f"{f.qual}: {q.where()}"
            if bad is not None:
                if (q.loc, bad.loc) in seen:
                    continue
                seen.add((q.loc, bad.loc))
                c.r.bad("response data used without a status check", bad.where(), f"request at {q.where()} analysed from {f.qual}")
            elif used:
                c.r.ok(f"status checked before {used} uses", w)
            else:
                c.r.ok("response data not used here", w)
        if leaks:
            nm = f.name
            todo += [g for g in funcs.values() if g.qual not in done and nm in names_called(g)]
    if not nreq:
        c.r.und("no HTTP request found", "cdtb")


def is_exception_arg(i, e):
    return e.kind == "call" and e.name and (e.name.split(".")[-1].endswith(("Error", "Exception")))


def guard_uses(g, R):
    """Does a condition depend on the response's data; is it unchecked then?"""
    if not any(data_terms(a, R) for a in tm.atoms(g)):
        return False
    ok = mk("ok", R)
    if checked(g, R):
        return "checked"
    h = subst_atoms(g, lambda a: FALSE if a is ok else None)
    for a in tm.atoms(h):
        if data_terms(a, R) and not tm.equiv(tm.rewrite(h, lambda x: TRUE if x is a else x), tm.rewrite(h, lambda x: FALSE if x is a else x)):
            return "unchecked"
    return "checked"
