"""C07: a language selection means the same everywhere."""
from vfa.q import *

RULE = """Each selector is analysed once per kind of selection (False, True, one language as text or Language, a list).
Patcher (filter_files): the selected values are the manifest's files, each once, under a condition that must be, as a
condition on the file's flags: no locale flag (False), always (True), some flag equal, case ignored, to the given
language or to one of the given ones. RADS (projects, joined with dependencies): exactly the projects listed under None
(False), under any key (True), under the language or each of the languages, looked up with the key type the dependency
map is built with. Then every function with a language selection parameter passes that very value to its selector, and
the command line hands over True, False or the list of given languages."""

DEP = "rads.RadsSolutionVersion.dependencies"


def settle(t, L):
    """The selection is not a boolean."""
    def f(x):
        if x.op in ("is", "cmp") and L in x.args and any(is_const(a, True) or is_const(a, False) for a in x.args if isinstance(a, T)):
            return FALSE
        return x
    return tm.rewrite(t, f)


def is_lower(v, x):
    """v is x in lower case."""
    return v.op == "mcall" and v.args[0] is x and v.args[1] in ("lower", "casefold")


def check(c):
    p = c.prog
    c.LANG = p.cls("data.Language")
    c.lower_values = all(isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and s.value.value == s.value.value.lower()
                         for s in c.LANG.node.body if isinstance(s, ast.Assign))
    L = mk("param", "langs")
    for kind, arg, ty in (("False", const(False), None), ("True", const(True), None), ("one language (text)", L, ("lib", "str")),
                          ("one language (Language)", L, c.LANG), ("list of languages", L, ("lib", "list"))):
        c.part(patcher, kind, arg, ty)
        c.part(rads, kind, arg, ty)
    c.part(passing)
    c.part(cli)


import ast   # noqa


def selected(c, root, arg, ty, **opts):
    L = mk("param", "langs")
    f = c.prog.func(root)
    n = [a.arg for a in f.node.args.args][1]
    i = c.run(f, f"{root}({text(arg)}{'' if ty is None else ' ' + str(getattr(ty, 'name', ty))})", args={n: arg}, types={L: ty} if ty is not None else {}, collect=True, **opts)
    res = settle(strip_uid(norm(i.result)), L)
    es = tm.entries_of(res)
    return i, f, es, res


def patcher(c, kind, arg, ty):
    r = c.r
    root = "patcher.PatcherManifest.filter_files"
    i, f, es, res = selected(c, root, arg, ty)
    w = f"{root}, langs: {kind}"
    S = mk("param", f.node.args.args[0].arg)
    if es is None:
        r.und("selected files", w, text(res))
        return
    D = mk("attr", S, "files")
    es = [e for e in es if e.args[1] is not FALSE]
    vals = {e.args[2] for e in es}
    if len(es) != 1:
        dup = any(not tm.satisfiable(band(*[x.args[1] for x in es])) for _ in (0,))
        if not dup:
            r.und("each file is selected once", w, text(res))
            return
    loops = {e.args[0].args for e in es}
    if len(vals) != 1 or len(loops) != 1:
        r.und("the files selected are the manifest's", w, text(res))
        return
    F, lp = vals.pop(), loops.pop()
    lp = [x for x in lp]
    src = lp[0].args[0] if len(lp) == 1 and lp[0].op == "loop" else None
    if src is not None and src.op in ("values", "items"):
        src = src.args[0]
    ok = len(lp) == 1 and src is D and (F.op == "val" or F.op == "elem" or F.op == "index") and tm.mentions(F, lambda y: y is D)
    if not ok:
        r.bad("the files selected are the manifest's, each once", w, text(res))
        return
    r.ok("the files selected are the manifest's, each once", w)
    g = bor(*[e.args[1] for e in es])
    if kind == "True":
        r.ob(tm.equiv(g, TRUE), "every file is selected", w, text(g))
        return
    FL = mk("attr", F, "flags")
    none = mk("is", FL, NONE)
    none = next((a for a in tm.atoms(g) if a.op == "is" and FL in a.args and NONE in a.args), none)
    # flags are only iterated over when there are some
    g = tm.rewrite(g, lambda x: mk("any", x.args[0], assume(x.args[1], {none: False})) if x.op == "any" and x is not none else x)
    anys = [a for a in tm.atoms(g) if a.op == "any"]
    rest = [a for a in tm.atoms(g) if a is not none and a not in anys and bare(a) is not FL]
    if len(anys) != 1 or rest:
        about = all(tm.mentions(a, lambda y: y is FL) for a in rest)
        (r.bad if not anys and about else r.und)("selection by all flags of the file", w, text(g))
        return
    A = anys[0]
    # flags absent: truthiness and None alike
    g = subst_atoms(g, lambda b: bnot(none) if b is FL else None)
    al = A.args[0].args
    if not (len(al) == 1 and al[0].op == "loop" and len(al[0].args) == 2 and strip_default(al[0].args[0], FL) is FL):
        r.und("selection over all flags of the file", w, text(A))
        return
    cond = A.args[1]
    tr = [a for a in tm.atoms(cond) if bare(a) is FL and a.op == "truthy" or a is none]
    if strip_default(al[0].args[0], FL) is not al[0].args[0] or tr:
        # `flags or ()`: no flags, no match
        cond = assume(cond, {a: a.op == "truthy" for a in tr})
        g = band(bor(bnot(none), assume(g, {A: False})), bor(none, g))
    xs = [y for y in subterms(cond) if y.op == "elem" and strip_default(y.args[0], FL) is FL]
    if len(set(xs)) != 1:
        r.und("condition on a flag", w, text(cond))
        return
    X = xs[0]
    if kind == "False":
        want = bor(none, bnot(A))
        if not tm.equiv(band(bnot(none), g), band(bnot(none), want)) or not tm.equiv(band(none, g), none):
            r.bad("selected exactly when no flag is a locale", w, text(g))
            return
        locale_flag(c, cond, X, w)
        return
    # a missing flag list may also make the condition vacuous
    want = band(bnot(none), A)
    if not tm.equiv(g, want):
        r.bad("selected exactly when one of the flags is the language", w, text(g))
        return
    given_language(c, kind, cond, X, w)


def strip_default(t, FL):
    if t.op == "ite" and FL in t.args[1:]:
        return FL
    if t.op == "or" and FL in t.args:
        return FL
    return t


def locale_flag(c, cond, X, w):
    r = c.r
    ats = list(tm.atoms(cond))
    want = {"_": None, "5": None}
    for a in ats:
        if a.op == "in" and is_const(a.args[0], "_") and a.args[1] is X:
            want["_"] = a
        elif a.op == "==" and any(is_len(y, X) for y in a.args) and any(is_const(y, 5) for y in a.args):
            want["5"] = a
    got = [v for v in want.values() if v is not None]
    if len(got) == 2:
        r.ob(tm.equiv(cond, band(*got)), "a locale flag is a 5-character flag with an underscore", w, text(cond))
    elif got and len(ats) == len(got):
        r.bad("a locale flag is a 5-character flag with an underscore", w, text(cond))
    elif len(ats) == 2 and got and all(tm.mentions(a, lambda y: y is X) for a in ats):
        r.bad("a locale flag is a 5-character flag with an underscore", w, text(cond))
    else:
        r.und("a locale flag is a 5-character flag with an underscore", w, text(cond))


def lang_value(c, v, L, text_given):
    """Is v the lower-case name of the given language L? None: cannot tell."""
    if text_given:
        if is_lower(v, L):
            return True
        if v is L or tm.mentions(v, lambda y: y is mk("attr", L, "value") or y is mk("attr", L, "name")):
            return False
    else:
        a = mk("attr", L, "value")
        n = mk("attr", L, "name")
        if v in (a, n):
            return True if c.lower_values else None
        if is_lower(v, a) or is_lower(v, n):
            return True
        if v is L or is_lower(v, L):
            return False
    return None


def given_language(c, kind, cond, X, w):
    r = c.r
    what = "a flag matches when it is, case ignored, the (or a) given language"
    L = mk("param", "langs")
    lows = [y for y in subterms(cond) if is_lower(y, X)]
    direct = [a for a in tm.atoms(cond)]
    if len(direct) != 1:
        r.und(what, w, text(cond))
        return
    a = direct[0]
    if not lows:
        (r.bad if tm.mentions(a, lambda y: y is X) and a.op in ("in", "==") else r.und)(what, w, text(cond))
        return
    lx = lows[0]
    if not tm.equiv(cond, a):
        r.bad(what, w, text(cond))
        return
    many = None    # collection of accepted names
    if a.op == "in" and a.args[0] is lx:
        many = a.args[1]
    elif lx in a.args and a.op == "==":
        o = [y for y in a.args if y is not lx]
        if len(o) == 1:
            many = mk("list", *o)
    if many is None and a.op == "any" and kind.startswith("list"):
        # any(lower(flag) == lower(l) for l in langs)
        many = inner_any(a, lx)
    if many is None:
        r.und(what, w, text(cond))
        return
    if many.op == "build" and many.args[0] == "iter":
        r.bad(what, w, "the languages are kept in an iterator, which the first test consumes: " + text(many))
        return
    es = tm.entries_of(many)
    if es is None:
        (r.bad if many is L else r.und)(what, w, text(many))
        return
    es = [e for e in es if e.args[1] is not FALSE]
    if kind.startswith("one"):
        v = es[0].args[2] if len(es) == 1 and not es[0].args[0].args else None
        ok = lang_value(c, v, L, "text" in kind) if v is not None else (False if loops_over_text(es, L) and "text" in kind else None)
        r.ob(ok, what, w, text(many))
        return
    # list: for each element, whether it is a text or a Language
    if len({e.args[0].args for e in es}) != 1 or not plain_over(es[0].args[0].args, L) and not plain_set(es[0].args[0].args, L):
        r.ob(False if es and not any(e.args[0].args for e in es) else None, what, w, text(many))
        return
    el = [y for e in es for y in subterms(e.args[2]) + subterms(e.args[1]) if y.op == "elem" and y.args[0] is L]
    if len(set(el)) != 1:
        r.und(what, w, text(many))
        return
    E = el[0]
    verdict = True
    for istext in (True, False):
        def f(x):
            if x.op == "isinst" and x.args[0] is E:
                ns = set(x.args[1].split("|"))
                return const((("str" in ns) if istext else (c.LANG.qual in ns)) or "object" in ns)
            if x.op == "call" and x.args[0] in ("hasattr",) and x.args[1] is E:
                return const(not istext)
            return x
        vs = []
        for e in es:
            g = truth(tm.rewrite(e.args[1], f))
            if g is TRUE:
                vs.append(tm.rewrite(e.args[2], f))
            elif g is not FALSE:
                vs.append(None)
        oks = [lang_value(c, v, E, istext) if v is not None else None for v in vs]
        if not vs:
            verdict = False
        elif None in oks:
            verdict = None if verdict is True else verdict
        elif not all(oks):
            verdict = False
    r.ob(verdict, what, w, text(many))


def loops_over_text(es, L):
    return any(l.op == "loop" and l.args[0] is L for e in es for l in e.args[0].args)


def plain_set(loops, L):
    ls = [canon(l) for l in loops]
    return len(ls) == 1 and ls[0].op == "loop" and ls[0].args[0] is L and all(m.op in ("viaset", "sorted") for m in ls[0].args[2:] if isinstance(m, T))


def inner_any(a, lx):
    lps, g = a.args
    at = tm.atoms(g)
    if len(at) != 1:
        return None
    e = list(at)[0]
    if not tm.equiv(g, e) or lx not in e.args:
        return None
    o = [y for y in e.args if isinstance(y, T) and y is not lx]
    if len(o) != 1:
        return None
    return tm.build("list", [tm.entry(lps.args, TRUE, o[0])])


def rads(c, kind, arg, ty):
    r = c.r
    root = "rads.RadsSolutionVersion.projects"
    i, f, es, res = selected(c, root, arg, ty, opaque={DEP})
    w = f"{root}, langs: {kind}"
    what = {"False": "exactly the projects needed whatever the language", "True": "the projects of all languages and the required ones"}.get(kind, "the projects of the given language(s)")
    L = mk("param", "langs")
    if es is None:
        r.und(what, w, text(res))
        return
    es = [e for e in es if e.args[1] is not FALSE]
    if kind == "False":
        # not restricted to the entry without language
        for e in es:
            k = [a for a in tm.atoms(e.args[1]) if a.op == "is" and NONE in a.args]
            l = e.args[0].args
            if l and l[0].op == "loop" and (isdep(l[0].args[0]) or l[0].args[0].op in ("values", "items") and isdep(l[0].args[0].args[0])) and tm.satisfiable(assume(e.args[1], {a: False for a in k})):
                r.bad(what, w, text(res))
                return
    if any(e.args[1] is not TRUE for e in es):
        # membership tests before a look-up are harmless
        def harmless(e):
            return all(a.op == "in" and isdep(a.args[1]) for a in tm.atoms(e.args[1]))
        if not all(harmless(e) for e in es):
            r.und(what, w, text(res))
            return
    if kind == "True":
        r.ob(covers_all(es), what, w, text(res))
        return
    if len(es) != 1:
        r.ob(False if not es else None, what, w, text(res))
        return
    loops, v = es[0].args[0].args, es[0].args[2]
    inner = loops[-1].args[0] if loops and loops[-1].op == "loop" else None
    if inner is None or not (v.op == "elem" and v.args[0] is inner or v.op == "val"):
        r.und(what, w, text(res))
        return
    if isdep_values(inner) or v.op == "val":
        r.bad(what, w, text(res))
        return
    key = dep_key(inner)
    if key is None:
        r.und(what, w, text(res))
        return
    if kind == "False":
        r.ob(key is NONE and len(loops) == 1, what, w, text(res))
        return
    if kind.startswith("one"):
        if len(loops) != 1:
            bad = any(l.op == "loop" and l.args[0] is L for l in loops[:-1])
            r.ob(False if bad else None, what, w, text(res))
            return
        r.ob(key_ok(c, key, L, "text" in kind), what, w, text(res))
        return
    if len(loops) != 2 or loops[0].op != "loop" or loops[0].args[0] is not L or not plain_set(loops[:1], L):
        r.ob(False if key is L else None, what, w, text(res))
        return
    E = next((y for y in subterms(key) if y.op == "elem" and y.args[0] is L), None)
    if E is None:
        r.bad(what, w, text(res))
        return
    a, b = key_ok(c, key, E, True), key_ok(c, key, E, False)
    r.ob(False if a is False or b is False else None if a is None or b is None else True, what, w, text(res))


def isdep(t):
    return isinstance(t, T) and repo_call(t, "RadsSolutionVersion.dependencies") or t.op == "keys" and isdep(t.args[0])


def isdep_values(t):
    return t.op == "val" and isdep(t.args[0])


def dep_key(t):
    """Key with which the dependency map is accessed."""
    if t.op == "index" and isdep(t.args[0]):
        return t.args[1]
    if t.op == "mcall" and t.args[1] == "get" and isdep(t.args[0]):
        return t.args[2]
    if t.op in ("get", "slot", "dget") and isdep(t.args[0]):
        return t.args[1]
    if t.op == "ite":
        ks = [dep_key(x) for x in t.args[1:]]
        ks = [k for k in ks if k is not None]
        return ks[0] if len(set(ks)) == 1 else None
    return None


def key_ok(c, key, E, istext):
    """The key denotes the Language of E."""
    q = c.LANG.qual
    def f(x):
        if x.op == "isinst" and x.args[0] is E:
            ns = set(x.args[1].split("|"))
            return const(("str" in ns) if istext else (q in ns))
        return x
    key = tm.rewrite(key, f)
    if key.op == "ite":
        key = truth(key.args[0]) is TRUE and key.args[1] or truth(key.args[0]) is FALSE and key.args[2] or key
    conv = lambda k: k.op in ("call", "new", "obj", "enumval") and tm.mentions(k, lambda y: y is E) and "Language" in str(k.args[0])
    if key is E:
        return not istext
    if conv(key):
        return True
    if key.op == "index" and key.args[0].op == "class" and key.args[0].args[0] == q:
        return True if istext else None
    return None


def covers_all(es):
    """Union over all keys of the dependency map."""
    if len(es) != 1:
        return None
    loops, v = es[0].args[0].args, es[0].args[2]
    def ismods(l):
        return all(isinstance(m, T) and m.op in ("viaset", "sorted", "reversed") for m in l.args[2:])
    if len(loops) == 2 and all(l.op == "loop" and ismods(l) for l in loops):
        a, b = loops
        src = a.args[0].args[0] if a.args[0].op in ("values", "items") else a.args[0]
        if isdep(src) and v.op == "elem" and v.args[0] is b.args[0]:
            x = b.args[0]
            if isdep_values(x) or x.op == "index" and isdep(x.args[0]) and x.args[1].op in ("key", "elem"):
                return True
    if loops and not tm.mentions(loops[0].args[0], isdep):
        return False    # languages taken from elsewhere: the required projects are missed
    if len(loops) == 1 and dep_key(loops[0].args[0]) is not None:
        return False
    return None


# ---------------------------------------------------------------- the selection is passed on unchanged

SELECT = ("patcher.PatcherManifest.filter_files", "rads.RadsSolutionVersion.projects")
ROOTS = [
    "patcher.PatcherPatchElement.download", "patcher.PatcherPatchElement.fspaths", "patcher.PatcherPatchElement.relpaths", "patcher.PatcherPatchElement.paths",
    "rads.RadsPatchElement.download", "rads.RadsPatchElement.fspaths", "rads.RadsPatchElement.relpaths", "rads.RadsPatchElement.paths",
]


def passing(c):
    r, p = c.r, c.prog
    roots = list(ROOTS)
    # any other function of these modules taking a language selection
    for name in ("patcher", "rads"):
        for f in p.funcs:
            pass
    done = set()
    for f in all_funcs(p):
        short = f.qual.split(".", 1)[1]
        if short.split(".")[0] in ("patcher", "rads") and "langs" in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs] and short not in roots and f.cls is not None:
            if short not in SELECT and not f.qual.endswith(".__init__") and not f.is_static:
                roots.append(short)
    for root in roots:
        f = p.func(root) if root not in ROOTS else method_of(p, root)
        if f is None:
            r.und("selection passed on", root, "not found")
            continue
        st = p.cls(".".join(root.split(".")[:-1]))
        i = c.run(f, root, self_type=st, opaque=set(SELECT) | {DEP}, collect=True)
        L = mk("param", "langs")
        sel = [e for e in i.events if e.kind == "call" and e.name in {"repo:" + s for s in SELECT}]
        if not sel:
            r.und("selection passed on", root, "no selector reached")
            continue
        for e in sel:
            v = e.arg(1, "langs")
            if v is None:
                fn = p.func(e.name[5:])
                r.bad("the caller's language selection is passed on", f"{root}: {e.where()}", "default value used instead")
            elif norm(v) is L:
                r.ok("the caller's language selection is passed on", f"{root}: {e.where()}")
            elif tm.mentions(v, lambda y: y is L):
                r.und("the caller's language selection is passed on", f"{root}: {e.where()}", text(v))
            else:
                r.bad("the caller's language selection is passed on", f"{root}: {e.where()}", text(v))
    # a patch passes it to each of its elements
    i = c.run("storage.Patch.download")
    ev = [e for e in i.events if e.kind in ("vcall", "mcall", "enter", "call") and e.name.split(".")[-1] == "download"]
    L = mk("param", "langs")
    if not ev:
        r.und("the caller's language selection is passed on", "storage.Patch.download")
    for e in ev:
        v = e.kw.get("langs", e.args[-1] if e.args else None)
        r.ob(v is not None and norm(v) is L, "the caller's language selection is passed on", f"storage.Patch.download: {e.where()}", text(v) if v is not None else "")


def all_funcs(p):
    return list(p.funcs.values()) if isinstance(p.funcs, dict) else list(p.funcs)


def method_of(p, root):
    k = p.cls(".".join(root.split(".")[:-1]))
    return k.method(root.split(".")[-1])


def cli(c):
    r, p = c.r, c.prog
    for name in ("download", "files"):
        root = f"__main__.command_{name}"
        f = p.func(root)
        A = mk("attr", mk("param", f.node.args.args[1].arg), "langs")
        i = c.run(root, opaque={"__main__.parse_component_args", "__main__.parse_component_arg"})
        ms = {"download": ("download",), "files": ("relpaths", "fspaths", "paths")}[name]
        ev = [e for e in i.events if e.kind in ("vcall", "mcall", "enter") and e.name.split(".")[-1] in ms]
        if not ev:
            r.und("the command passes the language option on", root)
        for e in ev:
            v = e.kw.get("langs")
            if v is None:
                v = next((a for a in e.args if norm(a) is A), None)
            r.ob(v is not None and norm(v) is A, "the command passes the language option on", f"{root}: {e.where()}", text(v) if v is not None else "")
    # declaration of the options
    i = c.run("__main__.create_parser")
    adds = [e for e in i.events if e.kind == "mcall" and e.name == "add_argument"]
    got = {}
    for e in adds:
        for a in e.args:
            if is_const(a, "--lang") or is_const(a, "--no-lang"):
                got.setdefault(a.args[0], e)
    w = "__main__.create_parser"
    if "--lang" not in got or "--no-lang" not in got:
        r.und("language options declared", w, str(sorted(got)))
        return
    l, n = got["--lang"], got["--no-lang"]
    k = {x: (v.args[0] if v.op == "const" else v) for x, v in l.kw.items()}
    ok = k.get("dest") in ("langs",) and k.get("nargs") in ("*", "+") and k.get("action") in (None, "store") and "const" not in k
    t = k.get("type")
    if ok and t is not None:
        ok = True if isinstance(t, T) and (t.op == "class" and t.args[0] == c.LANG.qual or t.op == "lib" and t.args[0] == "str") else None
    if not ok and k.get("action") in ("append", "extend"):
        ok = None
    r.ob(ok, "--lang gives the list of languages", l.where(), str({a: str(b) for a, b in k.items() if a != "help"}))
    k = {x: (v.args[0] if v.op == "const" else v) for x, v in n.kw.items()}
    r.ob(k.get("dest") == "langs" and k.get("action") == "store_false" or k.get("dest") == "langs" and k.get("action") == "store_const" and k.get("const") is False,
         "--no-lang gives False", n.where(), str({a: str(b) for a, b in k.items() if a != "help"}))
    d = [x.kw["default"] for x in (n, l) if "default" in x.kw]
    dflt = d[0].args[0] if d and d[0].op == "const" else ("implicit" if not d else None)
    if dflt == "implicit" and n.kw.get("action") is not None and is_const(n.kw["action"], "store_false"):
        dflt = True
    r.ob(dflt is True, "all languages by default", n.where(), str(dflt))
