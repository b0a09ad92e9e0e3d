"""C16: an unavailable RADS manifest means 'no patch version'; other errors surface."""
from vfa.q import *

RULE = """The retrieval of a patch version from RADS game files is analysed with helpers inlined, the project list, the file list and the extraction being opaque calls that may raise an HTTP
error. Obligations: every handler that catches an HTTP error around one of these calls (or around the request inside them, or around a caller up to the listing) raises it again on each
path where the status is not known to be 404; on a path where the file list answers 404, the value returned is None; no 404 handling covers anything but the file list (an
HTTP error of another download is raised); a solution version without a patch version yields no element of the listing, every other one does."""

SV = "rads.RadsSolutionVersion"
EXC = "HTTPError"


def http_handlers(c, i, e):
    """(try id, handler index, names) of the handlers that would catch an HTTP error raised by an event, innermost first; stops at the first one."""
    for t in handlers_of(i, e):
        for k, names in enumerate(t.handlers):
            if names is None or catches(c.prog, names, EXC):
                return t, k, names
    return None


def excs(g, t, k):
    return [a for a in tm.atoms(g) if a.op == "exc" and a.args[1] == t.id and a.args[2] == k]


def status_atoms(g):
    out = []
    for a in tm.atoms(g):
        if tm.mentions(a, lambda x: x.op == "attr" and x.args[1] == "status_code"):
            out.append(a)
    return out


def settle(g, is404):
    """A condition when the error is (not) a 404."""
    m = {}
    for a in tm.atoms(g):
        if not tm.mentions(a, lambda x: x.op == "excval"):
            continue
        code = lambda x: x.op == "attr" and x.args[1] == "status_code"
        if a.op == "==" and any(code(x) for x in a.args) and any(is_const(x, 404) for x in a.args):
            m[a] = is404
        elif a.op == "==" and any(code(x) for x in a.args) and any(is_const(x) for x in a.args) and is404:
            m[a] = False
        elif a.op == "in" and code(a.args[0]) and a.args[1].op in ("list", "tuple", "set"):
            vs = [x.args[0] for x in a.args[1].args if is_const(x)]
            if len(vs) == len(a.args[1].args) and (is404 or 404 not in vs):
                m[a] = 404 in vs if is404 else None
                if m[a] is None:
                    del m[a]
        elif is404 and a.op in ("is", "==") and any(x.op == "attr" and x.args[1] == "response" for x in a.args) and any(is_const(x, None) for x in a.args):
            m[a] = False
        elif is404 and a.op == "truthy" and "hasattr" in text(a.args[0])[:8]:
            m[a] = True
        elif is404 and a.op == "truthy" and a.args[0].op == "attr" and a.args[0].args[1] == "response":
            m[a] = False  # a requests.Response of an error is falsy
    return assume(g, m) if m else g


def check(c):
    r = c.r
    q = f"{SV}._retrieve_patch_version"
    f = c.prog.func(q)
    if f is None:
        r.und("the retrieval of the patch version is found", q)
        return
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    op = {f"{SV}.projects", "rads.RadsProjectVersion.filepaths", "rads.RadsProjectVersion.extract", "storage.get_system_yaml_version", "storage.get_exe_version"}
    i = c.run(q, opaque=op)
    risky = [e for e in i.events if e.kind == "call" and e.name in {"repo:" + x for x in op if x.startswith("rads.")}]
    lists = [e for e in risky if e.name == "repo:rads.RadsProjectVersion.filepaths"]
    if not lists:
        r.und("the file list is requested", w)
    for e in risky:
        h = http_handlers(c, i, e)
        is_list = e in lists
        what = e.name.rsplit(".", 1)[1]
        if h is None:
            if is_list:
                r.bad("a file list that is gone means no patch version", e.where(), "a 404 is not handled")
            else:
                r.ok("other HTTP errors are raised", e.where(), f"{what}: no handler")
            continue
        t, k, names = h
        rets = [(g, v, nd) for g, v, ls, nd in i.root_returns if excs(g, t, k)]
        fall = [(g, v, nd) for g, v, ls, nd in i.root_returns if not excs(g, t, k)]
        if not rets and not [x for x in i.events if x.kind == "raise" and any(z == (t.id, f"handler{k}") for z in x.zones)]:
            # the error is absorbed and the function goes on
            r.bad("other HTTP errors are raised", e.where(), f"{what}: the error is dropped by a handler of {', '.join(names or ('everything',))}")
            continue
        if not is_list:
            n = [1 for g, v, nd in rets if tm.satisfiable(g)]
            r.ob(not n, "other HTTP errors are raised", e.where(), f"{what} is covered by the handler of a missing file list" if n else what)
            continue
        bad = [v for g, v, nd in rets if tm.satisfiable(settle(band(g, *excs(g, t, k)), False))]
        r.ob(not bad, "other HTTP errors are raised", e.where(), f"{what}: {text(bad[0])} is returned when the status is not 404" if bad else what)
        g404 = [(band(settle(g, True), *excs(g, t, k)), v) for g, v, nd in rets]
        good = [v for g, v in g404 if tm.satisfiable(g)]
        rs = [x for x in i.events if x.kind == "raise" and any(z == (t.id, f"handler{k}") for z in x.zones) and tm.satisfiable(settle(x.guard, True))]
        if rs:
            r.bad("a file list that is gone means no patch version", rs[0].where(), "raised although the status is 404")
        elif not good:
            r.bad("a file list that is gone means no patch version", e.where(), "nothing returned for a 404")
        else:
            for v in good:
                r.ob(is_const(v, None), "a file list that is gone means no patch version", e.where(), text(v)[:100])
    # the request itself and the callers
    for q2, opq in (("rads.RadsProjectVersion.filepaths", set()), (f"{SV}.projects", set())):
        if c.prog.func(q2) is None:
            continue
        j = c.run(q2, opaque=opq)
        reqs = [e for e in j.events if e.kind == "mcall" and e.name in ("get", "raise_for_status", "request") and e.recv is not None
                and (e.name != "get" or tm.mentions(e.recv, lambda x: x.op == "attr" and x.args[1] in ("s", "session")) or tm.mentions(e.recv, lambda x: x.op == "call" and x.args[0] == "requests.Session"))]
        if not reqs:
            r.und("other HTTP errors are raised", q2, "no request found")
        for e in reqs:
            propagates(c, j, e, f"the request of {q2.rsplit('.', 1)[1]}")
    for q2 in (f"{SV}.patch_version", "rads.RadsStorage.patch_elements"):
        j = c.run(q2, opaque={q} | ({f"{SV}.patch_version", "rads.RadsSolution.versions"} if "Storage" in q2 else set()))
        for e in [e for e in j.events if e.kind == "call" and e.name in (f"repo:{q}", f"repo:{SV}.patch_version", "repo:rads.RadsSolution.versions")]:
            propagates(c, j, e, f"{e.name.rsplit('.', 1)[1]} in {q2.split('.', 1)[1]}")
    listing(c)


def propagates(c, i, e, what):
    r = c.r
    h = http_handlers(c, i, e)
    if h is None:
        r.ok("other HTTP errors are raised", e.where(), f"{what}: no handler")
        return
    t, k, names = h
    rs = [x for x in i.events if x.kind == "raise" and any(z == (t.id, f"handler{k}") for z in x.zones)]
    ex = [a for x in rs for a in excs(x.guard, t, k)]
    if not rs:
        r.bad("other HTTP errors are raised", e.where(), f"{what}: dropped by a handler of {', '.join(names or ('everything',))}")
        return
    g = band(e.guard, ex[0]) if ex else e.guard
    esc = band(settle(g, False), bnot(bor(*[x.guard for x in rs])))
    r.ob(not tm.satisfiable(esc), "other HTTP errors are raised", e.where(), f"{what}: not raised when {text(esc)[-200:]}")


def listing(c):
    r = c.r
    q = "rads.RadsStorage.patch_elements"
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque={f"{SV}.patch_version", "rads.RadsSolution.versions"})
    news = [e for e in i.events if e.kind == "new" and e.name.endswith("RadsPatchElement")]
    pvs = {}
    for e in i.events:
        if e.kind == "call" and e.name == f"repo:{SV}.patch_version" and e.result is not None:
            pvs.setdefault(strip_uid(e.args[0]), e.result)
    if not news:
        r.und("a version without patch version is not listed", w, "no element built")
    for e in news:
        sv = strip_uid(e.args[0]) if e.args else None
        if sv in pvs:
            V = pvs[sv]
        else:
            V = None
            for a in tm.atoms(e.guard):
                for x in subterms(a):
                    if repo_call(x, f"{SV}.patch_version") and strip_uid(x.args[1]) is sv:
                        V = x
        if V is None:
            r.bad("a version without patch version is not listed", e.where(), "the patch version is not looked at")
            continue
        none = [a for a in tm.atoms(e.guard) if a.op == "is" and any(x is V for x in a.args) and any(is_const(x, None) for x in a.args)]
        tr = truth(V)
        m = {a: True for a in none}
        if tr.op == "truthy":
            m[tr] = False
        gone = assume(e.guard, m) if m else e.guard
        r.ob(not tm.satisfiable(gone), "a version without patch version is not listed", e.where(), text(e.guard)[-200:])
        m = {a: False for a in none}
        if tr.op == "truthy":
            m[tr] = True
        there = assume(e.guard, m) if m else e.guard
        r.ob(there is TRUE or tm.entails(TRUE, there), "every version with a patch version is listed", e.where(), text(there)[-200:])
