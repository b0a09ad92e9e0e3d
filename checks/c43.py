"""C43: file parsers accept a path or an open file alike."""
import ast
from vfa.q import *

RULE = """Every constructor of the package that opens its own parameter when it is a path (and those of the four file formats) is analysed once. Its effects (reads, calls of the parsing methods, attributes set) are compared between the two cases of the
parameter, with the opened file and the given file both written as one and the same file: they must be the same terms under the same conditions in the same order. The file must be opened for binary reading, by the very path, and nothing may be read
from it after it has been closed, nor kept to be read later."""

SAME, OPENED, LATE = "a path and an open file are decoded alike", "a path is opened for binary reading", "nothing is read after the file is closed"
ROOTS = [("PatcherManifest", "patcher"), ("BinFile", "binfile"), ("RstFile", "rstfile"), ("SknFile", "sknfile")]
FILE = mk("param", "<file>")


def check(c):
    seen = set()
    for k, mod in ROOTS:
        try:
            cls = c.prog.cls(f"{mod}.{k}")
        except AnalysisBroken:
            cls = None
        f = cls.method("__init__") if cls is not None else None
        if f is None:
            c.r.und(SAME, f"{mod}.{k}", "no constructor found")
            continue
        seen.add(f)
        ps = [a.arg for a in f.node.args.args][1:]
        if not ps:
            c.r.und(SAME, f.loc, "no parameter")
            continue
        c.part(constructor, f, ps[0], True)
    # any other constructor or function that opens its parameter if it is a path
    for f in sorted(c.prog.funcs.values(), key=lambda f: f.qual):
        if f in seen or f.node.name != "__init__":
            continue
        ps = [a.arg for a in f.node.args.args][1:]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[0], ast.Name) and n.args[0].id in ps and isinstance(n.args[1], ast.Name) and n.args[1].id == "str":
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "open" and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == n.args[0].id for x in ast.walk(f.node)):
                    c.part(constructor, f, n.args[0].id, False)
                    break


def constructor(c, f, p, must):
    r = c.r
    q = f.qual[5:]
    P = mk("param", p)
    i = c.run(q, opaque={g.qual[5:] for g in c.prog.funcs.values() if g.qual[5:] != q and (g.cls is not f.cls or ".parse" in g.qual or ".read" in g.qual)})
    atoms = {a for e in i.events for x in [e.guard, *e.args, *e.kw.values(), *([e.recv] if e.recv is not None else [])] for a in subterms(x) if a.op == "isinst" and a.args[0] is P}
    given = {a for e in i.events for a in subterms(e.guard) if a.op == "is" and any(z is P for z in a.args) and any(is_const(z, None) for z in a.args)}
    opens = [e for e in i.events if e.kind in ("call", "mcall") and e.result is not None and (e.name in ("open", "io.open") or e.name == "open") and tm.mentions(e.result, lambda x: x is P)]
    strs = {a for a in atoms if names_str(a)}
    if not opens:
        (r.bad if must and any(e.kind == "mcall" and e.recv is P and e.name in ("read", "seek", "tell", "readinto") for e in i.events) or must and not any(e.kind == "call" and e.name.startswith("repo:") and "parse" not in e.name and "read" not in e.name for e in i.events) else r.und)(OPENED, f.loc, "a path is never opened")
        return
    undecided = atoms - strs - {a for a in atoms if file_like(a)}
    if undecided:
        r.und(SAME, f.loc, f"depends on {text(next(iter(undecided)))[:80]}")
        return
    runs = {}
    for path in (True, False):
        vals = {a: path for a in strs} | {a: not path for a in atoms - strs} | {a: False for a in given}
        m = {a: const(v) for a, v in vals.items()}
        runs[path] = trace(i, m, {e.result: FILE for e in opens} if path else {P: FILE}, vals, opens)
    for e in opens:
        g = assume(norm(e.guard), {a: True for a in strs} | {a: False for a in atoms - strs} | {a: False for a in given})
        if not tm.satisfiable(g):
            continue
        mode = open_mode(e) if e.kind == "call" else (e.args[0] if e.args else const("r"))
        mode = mode.args[0] if mode.op == "const" else None
        a = norm(e.args[0]) if e.kind == "call" and e.args else norm(e.recv)
        r.ob(mode in ("rb", "br"), OPENED, e.where(), f"opened with mode {mode!r}")
        r.ob(a is P or a.op in ("call", "cat") and tm.mentions(a, lambda x: x is P) and a.args[-1] is P, OPENED, e.where(), text(a)[:80])
    op = [x for x in runs[True]]
    gv = [x for x in runs[False]]
    n = 0
    for (ka, ea), (kb, eb) in zip(op, gv):
        if ka != kb:
            r.bad(SAME, ea.where(), f"{describe(ea)} for a path, {describe(eb)} for a file")
            return
        n += 1
    if len(op) != len(gv):
        k = min(len(op), len(gv))
        e = (op if len(op) > k else gv)[k][1]
        r.bad(SAME, e.where(), f"{describe(e)} only for {'a path' if len(op) > k else 'an open file'}")
        return
    if not any(tm.mentions(T_, lambda x: x is FILE) for k, e in op for T_ in k[2:] if isinstance(T_, T)):
        r.bad(SAME, f.loc, "nothing is read")
        return
    r.ok(SAME, f.loc, f"{n} effects compared")
    late(c, f, i, opens, P)


def names_str(a):
    return str(a.args[1]).strip("'\"") in ("str", "str|os.PathLike", "str|Path", "str|PosixPath", "bytes|str")


def file_like(a):
    return any(x in str(a.args[1]) for x in ("IOBase", "BytesIO", "BufferedReader", "IO"))


def describe(e):
    return f"{e.kind} {e.name} {text(e.args[0])[:50] if e.args else ''}"


def trace(i, m, file, vals, opens):
    out = []
    os = {e.seq for e in opens}
    for e in sorted(i.events, key=lambda e: e.seq):
        if e.seq in os or e.kind in ("with", "withexit", "enter", "cmp", "member", "unpackto") or e.kind == "mcall" and e.name in ("close", "__exit__", "__enter__"):
            continue
        if e.kind == "call" and e.name == "isinstance":
            continue
        g = assume(norm(e.guard), vals)
        if not tm.satisfiable(g):
            continue
        def sub(t):
            return strip_uid(norm(fold(tm.subst(fold(tm.subst(t, m)), file))))
        ts = [sub(a) for a in e.args] + [mk("kw", k, sub(v)) for k, v in sorted(e.kw.items())] + ([sub(e.recv)] if e.recv is not None else [])
        out.append(((e.kind, e.name, *ts, strip_uid(fold(sub(g)))), e))
    return out


def late(c, f, i, opens, P):
    r = c.r
    res = {e.result for e in opens}
    ends = [e for e in i.events if e.kind == "withexit" and e.recv in res or e.kind == "mcall" and e.name == "close" and e.recv is not None and any(x in res for x in subterms(e.recv))]
    for x in ends:
        bad = [e for e in i.events if e.seq > x.seq and e.kind in ("call", "mcall", "vcall", "new") and e.name != "close" and tm.satisfiable(band(norm(e.guard), norm(x.guard))) and uses(i, e, res)]
        bad = [e for e in bad if not excluded(i, e, x)]
        r.ob(not bad, LATE, bad[0].where() if bad else x.where(), describe(bad[0]) if bad else "")
        # a parser that is a generator reads nothing until it is consumed
        for e in i.events:
            if e.seq < x.seq and e.kind == "call" and e.name.startswith("repo:"):
                g = c.prog.funcs.get("cdtb." + e.name[5:])
                if g is not None and g.is_gen and any(isinstance(a, T) and any(y in res for y in subterms(a)) for a in e.args):
                    used = [z for z in i.events if z.kind in ("consume", "call", "mcall") and z.seq > e.seq and z.seq < x.seq and any(a is e.result for a in z.args)] or [z for z in i.events if z.seq < x.seq and z.loops and any(l.op == "loop" and l.args[0] is e.result for l in z.loops)]
                    r.ob(bool(used), LATE, e.where(), "the parser is a generator, read after the file is closed")
    # nothing lazy is kept in an attribute
    j = c.run(f.qual[5:], f"{f.qual[5:]} in full")
    for e in j.events:
        if e.kind == "setattr" and e.args and isinstance(e.args[0], T) and e.recv is not None:
            v = e.args[0]
            if v.op == "gen" or v.op == "build" and v.args and v.args[0] in ("gen", "generator", "iter") or v.op == "call" and v.args[0] in ("map", "filter", "iter"):
                r.bad(LATE, e.where(), f"{e.name} is read when it is used, once the file is closed")


def uses(i, e, res):
    """The event reads from the file, directly or through an object made from it."""
    for a in list(e.args) + ([e.recv] if e.recv is not None else []):
        for y in subterms(a):
            if y in res and (a is y or a.op == "ite" or a.op == "obj"):
                return True
    return False


def excluded(i, e, x):
    return tm.entails(norm(x.guard), bnot(norm(e.guard)))
