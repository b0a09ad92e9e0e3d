"""C19: WAD entries without readable data are skipped, never crash or fake data."""
import ast
from vfa.q import *

RULE = """Every function of the package that reads an entry's data, directly or through a helper that hands the data on, is analysed with its helpers inlined and the reading itself as one opaque call that may return None or raise a
malformed sub-chunk error. Obligations, per call: the error is caught (in the function, or in every function that calls it) by a handler placed inside the loop over the entries, which neither raises nor leaves the loop;
every later use of the data (call, write, comparison of content, stored value) is under conditions that imply that it is not None and that no such error occurred; no file is opened for writing for that entry otherwise; the loop
is not left on that account. In the reading itself, every failure that concerns sub-chunks (raise, decompression, decoding of a table row) surfaces as this error."""

Q = "wad.WadFileHeader.read_data"
ERR = "MalformedSubchunkError"
DONE, USED = "an unreadable entry is skipped", "data of an entry is used only if there is some"


def mentions_name(f, names):
    return any(isinstance(n, ast.Attribute) and n.attr in names or isinstance(n, ast.Name) and n.id in names for n in ast.walk(f.node))


def own_funcs(c):
    return [f for f in c.prog.funcs.values()]


def check(c):
    r = c.r
    if c.prog.func(Q) is None:
        r.und(DONE, Q, "no reader of data")
        return
    reader(c)
    names = {"read_data"}
    helpers = {Q}
    todo = True
    fakes = set()
    runs = {}
    def run(f):
        q = f.qual[5:] if f.qual.startswith("cdtb.") else f.qual
        if q not in runs:
            runs[q] = c.run(q, opaque={Q, "wad.Wad.sanitize_paths", "wad.Wad.set_unknown_paths", "wad.WadFileHeader.guess_extension", "wad.Wad.parse_headers", "wad.Wad.resolve_paths"})
        return q, runs[q]
    while todo:
        todo = False
        for f in own_funcs(c):
            if f.node.name in names or not mentions_name(f, names):
                continue
            q, i = run(f)
            rd = [e for e in i.events if e.kind == "call" and e.name == "repo:" + Q]
            if rd and any(tm.mentions(v, lambda x: repo_call(x, Q)) for g, v, ls, nd in i.root_returns) and all(plain(v) for g, v, ls, nd in i.root_returns):
                names.add(f.node.name)
                helpers.add(q)
                todo = True
            elif rd and q not in fakes and any(repo_call(x, Q) for g, v, ls, nd in i.root_returns for _, x in tm.cases(norm(v))):
                # a helper that hands the data on, but has something else to offer when there is none
                fakes.add(q)
                for g, v, ls, nd in i.root_returns:
                    for _, x in tm.cases(norm(v)):
                        if not (is_const(x, None) or repo_call(x, Q)):
                            w = f"{f.module.rel}:{nd.lineno} in {q}"
                            if x.op == "const" or tm.mentions(x, lambda y: y.op == "excval"):
                                r.bad(USED, w, f"data made up for an entry without data: {tm.show(x)[:80]}")
                            else:
                                r.und(USED, w, f"neither the data nor None: {tm.show(x)[:80]}")
    roots = [f for f in own_funcs(c) if mentions_name(f, names) and run(f)[0] not in helpers and not isinstance(f.node, ast.Lambda)]
    roots = [f for f in roots if f.parent is None] if hasattr(roots[0] if roots else c.prog.func(Q), "parent") else roots
    if not roots:
        r.und(DONE, Q, "no reader found")
    n = 0
    for f in roots:
        q, i = run(f)
        rd = [e for e in i.events if e.kind == "call" and e.name == "repo:" + Q]
        if not rd:
            if any(isinstance(x, ast.Attribute) and x.attr in names and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)):
                r.und(DONE, f"{f.module.rel}:{f.node.lineno} in {q}", "the read is not reached by the analysis")
            continue
        for e in rd:
            n += 1
            caught(c, f, q, i, e, run, names)
            uses(c, q, i, e)
    c.r.note(f"{len(roots)} functions read entry data ({n} reads)") if hasattr(c.r, "note") else None


def plain(v):
    """Is a returned value the data of the entry itself or None?"""
    return all(is_const(x, None) or repo_call(x, Q) for g, x in tm.cases(norm(v)))


def handler(c, i, e):
    for t in handlers_of(i, e):
        for k, ns in enumerate(t.handlers):
            if ns is None or catches(c.prog, ns, ERR):
                return t, k, ns
    return None


def entry_loops(e):
    """The loops that the entry being read is an element of."""
    keys = {(x.args[0].id, x.args[1]) for x in subterms(e.args[0]) if x.op in ("elem", "key", "val")}
    return [l for l in e.loops if l.op == "loop" and (l.args[0].id, l.args[1]) in keys]


def caught(c, f, q, i, e, run, names, depth=0):
    r = c.r
    h = handler(c, i, e)
    if h is None:
        short = f.node.name
        callers = []
        if depth < 3:
            for g in own_funcs(c):
                if g is f or not mentions_name(g, {short}):
                    continue
                q2, j = run(g)
                for x in j.events:
                    if x.kind == "call" and x.name == "repo:" + Q and x.loc == e.loc and any(s.endswith(q) for s in stack_names(x)):
                        callers.append((g, q2, j, x))
        if not callers:
            r.bad(DONE, e.where(), "a malformed sub-chunk error is not caught")
        for g, q2, j, x in callers:
            caught(c, g, q2, j, x, run, names, depth + 1)
        return
    t, k, ns = h
    el = entry_loops(e)
    inside = all(any(l is z for z in t.loops) for l in el)
    if el and not inside:
        r.bad(DONE, e.where(), "the error is caught outside of the loop over the entries")
        return
    zone = (t.id, f"handler{k}")
    out = [x for x in i.events if zone in x.zones and (x.kind == "raise" or x.kind == "break" and x.loops and any(l is x.loops[-1] for l in el))]
    if out:
        r.bad(DONE, out[0].where(), "the handler of the error raises" if out[0].kind == "raise" else "the handler of the error leaves the loop")
        return
    left = [(g, nd) for g, v, ls, nd in i.root_returns if any(l in el for l in ls) and excs(g, t, k) and tm.satisfiable(g) and not tm.satisfiable(assume(g, {a: False for a in excs(g, t, k)}))]
    if left:
        r.bad(DONE, e.where(), f"the loop is left at line {left[0][1].lineno} after the error")
        return
    r.ok(DONE, e.where(), f"caught as {', '.join(ns) if ns else 'any error'}")


def stack_names(e):
    return [getattr(s, "qual", None) or str(s) for s in (e.stack or ())] + [e.where()]


def excs(g, t, k):
    return [a for a in tm.atoms(g) if a.op == "exc" and a.args[1] == t.id and a.args[2] == k]


def uses(c, q, i, e):
    r = c.r
    V = e.result
    if V is None:
        r.und(USED, e.where())
        return
    isV = lambda x: x is V or strip_epoch(x) is strip_epoch(V)
    hs = handler(c, i, e)
    def skipped(x, g=None):
        """Is the event under conditions that exclude missing data?"""
        g = x.guard if g is None else g
        m = {}
        for a in tm.atoms(g):
            if a.op == "is" and any(isV(z) for z in a.args) and any(is_const(z, None) for z in a.args):
                m[a] = True
            elif a.op == "truthy" and isV(a.args[0]):
                m[a] = False
            elif a.op == "isinst" and isV(a.args[0]):
                m[a] = False
        ok = bool(m) and not tm.satisfiable(assume(g, m))
        if ok and hs is not None:
            ex = excs(g, hs[0], hs[1])
            if ex and x.kind != "return":
                ok = not tm.satisfiable(assume(g, {a: True for a in ex}))
        return ok
    n = 0
    later = [x for x in i.events if x.seq > e.seq]
    for x in later:
        if x.kind in ("enter", "cmp", "member", "return", "new", "unpackto") or hs and (hs[0].id, f"handler{hs[1]}") in x.zones:
            continue
        terms = list(x.args) + ([x.recv] if x.recv is not None else []) + [v for v in (x.kw or {}).values() if isinstance(v, T)]
        if not any(tm.mentions(strip_build(t), isV) for t in terms if isinstance(t, T)):
            continue
        if x.kind == "mcall" and x.name in ("debug", "info", "warning", "error", "exception", "log"):
            continue
        if x.kind in ("setattr", "setitem"):
            # keeping 'no data' as such is no use of it
            v = x.args[-1]
            if plain(v) and x.kind == "setattr":
                continue
        if x.kind == "raise":
            if not skipped(x):
                r.bad(DONE, x.where(), "missing data is an error here")
            continue
        n += 1
        if x.kind == "call" and x.name in ("isinstance", "type", "bool"):
            continue
        r.ob(skipped(x), USED, x.where(), f"{x.name}: {text(x.guard)[-150:]}")
    # nothing is opened for writing for that entry
    el = entry_loops(e)
    for o in write_opens(i):
        if el and not any(l in o.loops for l in el) or not el and o.seq < e.seq and not tm.satisfiable(band(o.guard, e.guard)):
            continue
        if not el and q.endswith("load_subchunk_toc"):
            continue
        n += 1
        r.ob(o.seq > e.seq and skipped(o), "nothing is written for an entry without data", o.where(), text(o.guard)[-150:])
    # the loop goes on
    for x in later:
        if x.kind == "break" and x.loops and x.loops[-1] in el and is_about(x.guard, isV):
            g = with_none(x.guard, isV)
            r.ob(not tm.satisfiable(g), DONE, x.where(), "the loop is left when there is no data")
    for g, v, ls, nd in i.root_returns:
        if any(l in el for l in ls) and is_about(g, isV):
            r.ob(not tm.satisfiable(with_none(g, isV)), DONE, f"line {nd.lineno} in {q}", "the function ends when there is no data")
    if not n:
        r.ok(USED, e.where(), "the data is only handed on")


def strip_build(t):
    """A collection made in other iterations is not a use of this entry's data."""
    return t if t.op != "content" else const(None)


def is_about(g, isV):
    return any(tm.mentions(a, isV) for a in tm.atoms(g))


def with_none(g, isV):
    m = {}
    for a in tm.atoms(g):
        if a.op == "is" and any(isV(z) for z in a.args) and any(is_const(z, None) for z in a.args):
            m[a] = True
        elif a.op == "truthy" and isV(a.args[0]):
            m[a] = False
    return assume(g, m)


def reader(c):
    r = c.r
    f = c.prog.func(Q)
    w = f"{f.module.rel}:{f.node.lineno} in {Q}"
    i = c.run(Q)
    typ = mk("attr", mk("param", "self"), "type")
    names = [a.arg for a in f.node.args.args]
    toc = mk("param", names[2]) if len(names) > 2 else None
    what = "failures of sub-chunked data are malformed sub-chunk errors"
    m = {typ: const(4)}
    live = lambda e: tm.satisfiable(tm.subst(e.guard, m))
    n = 0
    for e in i.events:
        if e.kind == "raise" and live(e):
            n += 1
            x = e.name or ""
            if not x or x == "None":
                t = [z for z in e.zones if z[1].startswith("handler")]
                r.und(what, e.where(), "re-raised") if t else r.bad(what, e.where(), "bare raise")
            else:
                r.ob(ERR in x or caught_as(c, i, e), what, e.where(), x)
        elif e.kind == "call" and e.name.endswith("decompress") and "zstd" in e.name and live(e):
            n += 1
            r.ob(caught_as(c, i, e), what, e.where(), "a decompression failure is not turned into it")
        elif e.kind == "call" and e.name.startswith("struct.unpack") and live(e) and toc is not None and any(tm.mentions(a, lambda x: x is toc) for a in e.args):
            n += 1
            if caught_as(c, i, e):
                r.ok(what, e.where())
                continue
            ln = [a for a in tm.atoms(e.guard) if a.op in ("<", "==") and tm.mentions(a, lambda x: is_call(x, "len") and tm.mentions(x, lambda y: y is toc))]
            good = False
            for a in ln:
                good = good or enough(a, e, toc, m)
            r.ob(good, what, e.where(), "a row missing from the table is not turned into it")
    if not n:
        r.und(what, w)


def enough(a, e, toc, m):
    """Does the path to the decoding of a row exclude that the table ends before the row's end?"""
    d = e.args[1]
    size = 16
    if d.op == "slice":
        base, lo, hi = d.args[0], d.args[1], d.args[2]
    elif len(e.args) > 2:
        base, lo, hi = d, e.args[2], None
    else:
        return False
    end = norm(mk("bin", "+", lo, const(size)))
    # the table ends one byte before the row's end
    def f(z):
        if is_call(z, "len") and strip_epoch(z.args[1]) is toc:
            return mk("bin", "-", end, const(1))
        if is_call(z, "len") and norm(z.args[1]) is norm(d):
            return const(size - 1)
        return z
    x, y = (tm.rewrite(t, f) for t in a.args)
    diff = mk("bin", "-", y, x)
    v = next((k for k in range(-64, 65) if tm.lin_eq(diff, const(k))), None)
    if v is None:
        return False
    val = v > 0 if a.op == "<" else v == 0
    return not tm.satisfiable(tm.subst(tm.subst(e.guard, m), {a: const(val)}))


def caught_as(c, i, e):
    for t in handlers_of(i, e):
        for k, ns in enumerate(t.handlers):
            if ns is not None and not any(n.split(".")[-1] in ("Exception", "BaseException", "ZstdError", "error", "struct.error") for n in ns):
                continue
            rs = [x for x in i.events if x.kind == "raise" and (t.id, f"handler{k}") in x.zones]
            return bool(rs) and all(ERR in (x.name or "") for x in rs)
    return False
