"""C22: only real matches are added to the hash lists."""
import ast
from vfa.q import *

RULE = """Every function of the package is scanned for operations that modify a hash list or a guesser's `known`/`unknown` sets (stores, deletions, mutating methods, in-place operators, reassignment; aliases followed by value). Obligations: an
addition to the list stores, under the guard `xxh64(p) in unknown`, the path p itself under the very hash xxh64(p), and on the same path of control the hash is removed from `unknown`; a helper that records its parameters is judged in every
caller with itself inlined; nothing else changes or removes entries; `known` is the loaded list and `unknown` starts as the hashes of the archives minus the known ones, and is only ever reduced."""

MUT = {"pop", "popitem", "clear", "update", "setdefault", "remove", "discard", "add", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__"}
ADD, KEEP, LEAVE = "a path is recorded only under its own hash, if that was unknown", "existing entries are never changed or removed", "a recorded hash leaves the unknown ones"


def touches(f):
    """Quick filter: does the function mention one of the collections?"""
    return any(isinstance(n, ast.Attribute) and n.attr in ("known", "unknown", "hashes", "load") for n in ast.walk(f.node))


def kind(t):
    """Which collection is this? known / unknown / list / None"""
    if t is None:
        return None
    if t.op == "attr" and t.args[1] in ("known", "unknown"):
        return t.args[1]
    if t.op == "attr" and t.args[1] == "hashes" and (t.args[0].op == "param" and t.args[0].args[0] == "self" or t.args[0].op in ("global", "attr", "obj", "new")):
        return "list"
    if t.op == "mcall" and t.args[1] == "load" or t.op == "call" and str(t.args[0]).endswith("HashFile.load"):
        return "list"
    return None


def hash_of(p):
    return lambda h: any(x.op == "call" and str(x.args[0]).endswith("xxh64_intdigest") and same(x.args[1], p) for x in [norm(h)]) or any(x.op == "mcall" and x.args[1] == "intdigest" and x.args[0].op == "call" and "xxh64" in str(x.args[0].args[0]) and "128" not in str(x.args[0].args[0]) and same(x.args[0].args[1], p) for x in [norm(h)])


def mutations(i):
    out = []
    for e in i.events:
        if e.kind in ("setitem", "delitem") and kind(e.recv):
            out.append((e, kind(e.recv), e.kind))
        elif e.kind == "mcall" and e.name in MUT and kind(e.recv):
            out.append((e, kind(e.recv), e.name))
        elif e.kind == "setattr" and e.name in ("known", "unknown", "hashes"):
            own = e.name
            out.append((e, "list" if own == "hashes" else own, "set"))
        elif e.kind == "delattr" and e.name in ("known", "unknown", "hashes"):
            out.append((e, e.name, "delattr"))
    return out


def check(c):
    r = c.r
    funcs = [f for f in c.prog.funcs.values() if touches(f) and not isinstance(f.node, ast.Lambda) and f.module.rel.endswith(("hashes.py", "__main__.py", "wad.py", "export.py", "tools.py"))]
    everything = {f.qual[5:] for f in c.prog.funcs.values()}
    if not any(f.qual[5:].startswith("hashes.HashGuesser") for f in funcs):
        r.und(ADD, "hashes.HashGuesser")
        return
    recorders = {}       # helpers whose record is justified by their callers
    done = set()
    n = 0
    todo = list(funcs)
    inline = set()
    rounds = 0
    while todo and rounds < 4:
        rounds += 1
        new = set()
        for f in todo:
            q = f.qual[5:]
            i = c.run(q, f"round {rounds}", opaque=everything - {q} - inline)
            defer = analyse(c, f, q, i, recorders, rounds)
            if defer:
                new.add(q)
        inline |= new
        if not new:
            break
        names = {q.split(".")[-1] for q in new}
        todo = [f for f in c.prog.funcs.values() if not isinstance(f.node, ast.Lambda) and f.qual[5:] not in inline and any(isinstance(x, ast.Attribute) and x.attr in names or isinstance(x, ast.Name) and x.id in names for x in ast.walk(f.node))]
        if not todo:
            for q in new:
                r.und(ADD, q, "a recorder without callers")
    start(c)


def strip(t):
    return strip_uid(norm(t))


def analyse(c, f, q, i, recorders, rnd):
    """Judge the modifications of one function; True if its callers have to justify the record."""
    r = c.r
    ms = mutations(i)
    defer = False
    if rnd > 1:
        # only what the deferred helpers do here
        ms = [m for m in ms if "enter" and m[0].stack and len(m[0].stack) > 1]
    adds = [(e, k, op) for e, k, op in ms if op == "setitem" and k in ("known", "list")]
    removed = [e for e, k, op in ms if k == "unknown" and op in ("remove", "discard")]
    for e, k, op in ms:
        w = e.where()
        if k in ("known", "list"):
            if op == "setitem":
                h, p = e.args[0], e.args[-1]
                own = hash_of(p)(h)
                ins = [a for a in tm.atoms(e.guard) if a.op == "in" and same(a.args[0], h) and kind(a.args[1]) == "unknown"]
                guarded = any(not tm.satisfiable(assume(e.guard, {a: False})) for a in ins)
                if own and guarded:
                    r.ok(ADD, w)
                elif is_params(h, p) and f.node.name.startswith("_") or (is_params(h, p) and rnd == 1):
                    defer = True
                    continue
                elif own and h.op != "param":
                    r.bad(ADD, w, "recorded though the hash may not be unknown: " + text(e.guard)[-120:])
                else:
                    if guarded and not own and mentions_param(h, f) and rnd == 1:
                        defer = True
                        continue
                    r.bad(ADD, w, f"{text(p)[:80]} is recorded under {text(h)[:80]}")
                later = [x for x in removed if same(x.args[0], h) and tm.entails(e.guard, x.guard) and x.loops == e.loops]
                r.ob(later, LEAVE, w, "the hash stays in the set of unknown hashes")
            elif op == "setdefault" and len(e.args) > 1:
                h, p = e.args[0], e.args[1]
                r.ob(hash_of(p)(h), ADD, w, "recorded under another hash") if hash_of(p)(h) is False else r.und(ADD, w, "setdefault")
            elif op == "set":
                v = e.args[-1]
                if f.node.name == "__init__" and (kind(v) == "list" or is_const(v, None) or v.op == "param"):
                    r.ok(KEEP, w, "initial value")
                elif q.endswith("HashFile.load"):
                    r.ok(KEEP, w, "loaded from the file")
                elif kind(v) == "list" or v.op == "attr":
                    r.und(KEEP, w, text(v)[:80])
                else:
                    r.bad(KEEP, w, f"replaced by {text(v)[:80]}")
            else:
                r.bad(KEEP, w, f"{op} on the hash list")
        else:
            if op in ("remove", "discard"):
                h = e.args[0]
                if is_params(h, h) and rnd == 1:
                    continue
                paired = [x for x, k2, o2 in adds if same(x.args[0], h) and tm.equiv(x.guard, e.guard)]
                r.ob(paired, "only recorded hashes leave the unknown ones", e.where(), text(e.guard)[-100:])
            elif op == "set":
                if f.node.name == "__init__":
                    r.ok("unknown hashes are set when guessing starts", e.where())
                else:
                    v = norm(e.args[-1])
                    (r.und if v.op in ("setdiff", "bin", "build") else r.bad)("the unknown hashes are only reduced by matches", e.where(), text(v)[:80])
            else:
                r.bad("the unknown hashes are only reduced by matches", e.where(), f"{op}")
    if defer and rnd >= 3:
        r.und(ADD, q, "recorded through too many helpers")
    return defer


def is_params(*ts):
    return all(t.op == "param" for t in ts)


def mentions_param(t, f):
    return t.op == "param"


def start(c):
    """The unknown hashes a guesser starts from."""
    r = c.r
    what = "guessing starts from the archives' hashes that are not known"
    q = "hashes.HashGuesser.__init__"
    f = c.prog.func(q)
    if f is None:
        r.und(what, q)
        return
    i = c.run(q, "start", opaque={g.qual[5:] for g in c.prog.funcs.values()} - {q})
    sets = [e for e in i.events if e.kind == "setattr" and e.name == "unknown"]
    kn = [e for e in i.events if e.kind == "setattr" and e.name == "known"]
    par = [mk("param", a.arg) for a in f.node.args.args[1:]]
    if not sets or not kn or len(par) < 2:
        r.und(what, q)
        return
    known = kn[-1].args[-1]
    r.ob(kind(known) == "list" and tm.mentions(known, lambda x: x is par[0]), "the known paths are the hash list of the guesser", kn[-1].where(), text(known)[:80])
    v = sets[-1].args[-1]
    for g, x in tm.cases(norm(v)):
        x = norm(x)
        if x.op == "mcall" and x.args[1] == "difference":
            x = strip(x)
            x = mk("setdiff", x.args[0], x.args[2])
        if x.op in ("setdiff",) or x.op == "bin" and x.args[0] == "-":
            a, b = x.args[-2], x.args[-1]
            r.ob(tm.mentions(b, lambda y: strip(y) is strip(known)) and not tm.mentions(b, lambda y: y is par[1]) and tm.mentions(a, lambda y: y is par[1]), what, sets[-1].where(), text(x)[:120])
        elif x.op == "build" and tm.mentions(x, lambda y: y is par[1]):
            es = tm.entries_of(x)
            ok = all(any(a.op == "in" and strip_uid(norm(a.args[1])) is strip(known) and not tm.satisfiable(assume(en.args[1], {a: True})) for a in tm.atoms(en.args[1])) for en in es)
            r.ob(ok, what, sets[-1].where(), text(x)[:120])
        elif x is par[1] or not tm.mentions(x, lambda y: strip(y) is strip(known)):
            r.bad(what, sets[-1].where(), f"known hashes are not excluded: {text(x)[:80]}")
        else:
            r.und(what, sets[-1].where(), text(x)[:120])
    # from archives
    q = "hashes.HashGuesser.from_wads"
    f = c.prog.func(q)
    if f is None:
        return
    i = c.run(q, "start", opaque={"hashes.HashGuesser.__init__"})
    what = "the hashes are those of all entries of the archives"
    new = [e for e in i.events if e.kind in ("new", "dyncall", "vcall") or e.kind == "call" and e.name.endswith("HashGuesser.__init__")]
    ok = None
    for e in new:
        for a in e.args:
            for g, x in tm.cases(norm(a)):
                if x.op == "build":
                    es = tm.entries_of(x)
                    ok = bool(es) and all(en.args[2].op == "attr" and en.args[2].args[1] == "path_hash" and not tm.atoms(en.args[1]) and tm.mentions(en.args[2], lambda y: y.op == "param") for en in es)
                    r.ob(ok, what, e.where(), text(x)[:120])
        if ok is not None:
            break
    if ok is None:
        r.und(what, q)
