"""C20: every WAD entry gets one usable path."""
import ast
from vfa.q import *
from vfa.sim import Sim, Obj

RULE = """All assignments of an entry's `path` in the package are located. Obligations: resolving assigns, for every entry, exactly `hashes[entry hash]` exactly if the hash is in the list (the given one, else the default list of the file's kind);
unknown entries, and only these, get `<directory>/<16 hex digits>` plus `.ext` if an extension is known; the value left by sanitizing is computed case by case: unchanged if it has an extension and is short, with a constant suffix (then the guessed
extension) if it has none, and if its base name (suffix included) has 250 characters or more, a base name in the same directory made of a cut stem, the hash in 16 hex digits and the extension, whose length cannot exceed 255; any other
assignment may only put a directory in front. Orders of the calls: resolve after parsing; sanitize and name unknown entries before anything is written, sanitize first; guess extensions before both."""

HEX = "016x"


def check(c):
    resolve(c)
    unknown(c)
    sanitize(c)
    orders(c)
    others(c)


def sets(i, name="path"):
    return [e for e in i.events if e.kind == "setattr" and e.name == name and e.recv is not None and e.recv.op in ("elem", "val", "zelem")]


def files_loop(c, e, what):
    """Is the assignment made for every element of self.files?"""
    files = mk("attr", mk("param", "self"), "files")
    x = e.recv
    if not (x.op == "elem" and same(plain_coll(x.args[0]), files)):
        c.r.und(what, e.where(), f"entries of {text(x)[:80]}")
        return False
    return True


def plain_coll(t):
    while t.op in ("sorted", "rev", "list") or is_call(t, "list") or is_call(t, "tuple") or is_call(t, "sorted"):
        t = t.args[1] if t.op == "call" else t.args[0]
    return t


def no_break(c, i, es, what):
    ls = {l for e in es for l in e.loops}
    for x in i.events:
        if x.kind == "break" and x.loops and x.loops[-1] in ls:
            c.r.bad(what, x.where(), "the loop over the entries is left early")
    for g, v, loops, nd in i.root_returns:
        if any(l in ls for l in loops):
            c.r.bad(what, f"line {nd.lineno}", "the function returns in the loop over the entries")


def resolve(c):
    r = c.r
    what = "an entry's path is the one listed for its hash, and only that"
    q = "wad.Wad.resolve_paths"
    i = c.run(q, opaque={"hashes.default_hashfile", "hashes.HashFile.load"})
    es = sets(i)
    if not es:
        r.und(what, q, "no path is assigned")
        return
    f = c.prog.func(q)
    par = [a.arg for a in f.node.args.args][1:]
    given = mk("param", par[0]) if par else None
    for e in es:
        if not files_loop(c, e, what):
            continue
        h = mk("attr", e.recv, "path_hash")
        other = [a for a in tm.atoms(e.guard)]
        v = norm(e.args[-1])
        ok = True
        seen = []
        for g, x in cases_full(v, e.guard):
            if x.op == "index" and same(x.args[1], h) or x.op == "mcall" and x.args[1] == "get" and len(x.args) > 2 and same(x.args[2], h):
                seen.append((g, x.args[0]))
            elif x.op == "attr" and x.args[1] == "path" and x.args[0] is e.recv:
                seen.append((g, None))   # unchanged
            else:
                ok = False
                r.bad(what, e.where(), f"assigned: {text(x)[:120]}")
        if not ok:
            continue
        for g, d in seen:
            if d is None:
                continue
            # which table
            lists_ok(c, e, g, d, given, what)
            listed = lambda a: a.op == "in" and same(a.args[0], h) and same_cases(a.args[1], d, g)
            ins = [a for a in tm.atoms(g) if listed(a)]
            nonnone = [a for a in tm.atoms(g) if a.op in ("is", "truthy") and any(isinstance(z, T) and tm.mentions(z, lambda y: y.op == "mcall" and y.args[1] == "get") for z in a.args)]
            pre = drop(e.guard, ins + nonnone)
            if ins:
                r.ob(not tm.satisfiable(assume(g, {a: False for a in ins})), what, e.where(), "assigned though the hash is not listed")
            elif not nonnone and not any(x.op == "index" for gg, x in cases_full(v, e.guard)):
                r.bad(what, e.where(), "a path is replaced by nothing when the hash is not listed")
            elif not nonnone:
                r.und(what, e.where(), text(g)[-150:])
        extra = [a for a in tm.atoms(e.guard) if tm.mentions(a, lambda x: x is e.recv) and not (a.op == "in" and same(a.args[0], h)) and not (tm.mentions(a, lambda y: y.op == "mcall" and y.args[1] == "get"))]
        if extra:
            un = {a: bool(unres(a, e.recv)) for a in extra if unres(a, e.recv) is not None}
            left = [a for a in extra if a not in un and tm.satisfiable(assume(e.guard, {a: False})) != tm.satisfiable(assume(e.guard, {a: True}))]
            r.ob(not left and tm.satisfiable(assume(e.guard, un)), what, e.where(), f"depends on more than the list: {[text(a)[:60] for a in extra]}")
        else:
            r.ok(what, e.where())
    no_break(c, i, es, what)
    defaults(c)


def unres(a, entry):
    """Truth of a condition on the entry's path in its initial state (None), None if it is not such a condition."""
    p = mk("attr", entry, "path")
    if a.op == "is" and any(z is p for z in a.args) and any(is_const(z, None) for z in a.args):
        return True
    if a.op == "truthy" and a.args[0] is p:
        return False
    return None


def drop(g, ats):
    return g


def cases_full(v, g, depth=0):
    out = []
    for cg, x in tm.cases(v):
        gg = band(g, cg)
        if not tm.satisfiable(gg):
            continue
        ats = ite_atoms(x)
        if not ats or depth > 4:
            out.append((gg, x))
            continue
        a = ats[0]
        for val in (True, False):
            g2 = band(gg, a if val else bnot(a))
            if tm.satisfiable(g2):
                out += cases_full(norm(assume(x, {a: val})), g2, depth + 1)
    return out


def lists_ok(c, e, g, d, given, what):
    r = c.r
    isnone = [a for a in tm.atoms(g) if a.op == "is" and given is not None and any(z is given for z in a.args)]
    truthy = [a for a in tm.atoms(g) if a.op == "truthy" and given is not None and a.args[0] is given]
    for cg, x in cases_full(norm(d), g):
        if x is given:
            r.ob(all(not tm.satisfiable(band(cg, a)) for a in isnone), "the given hash list is the one used", e.where())
        elif x.op in ("mcall", "call") and "load" in (x.args[0] if x.op == "call" else x.args[1]):
            own = [y for y in subterms(x) if repo_call(y, "hashes.default_hashfile")]
            ok = bool(own) and same(own[0].args[1], mk("attr", mk("param", "self"), "path"))
            if truthy and not isnone:
                r.bad("the given hash list is the one used", e.where(), "an empty given list is replaced by the default one")
            else:
                r.ob(ok and all(tm.entails(cg, a) for a in isnone) and bool(isnone), "the given hash list is the one used", e.where(), text(x)[:120])
        elif x.op == "attr" and x.args[1] == "hashes":
            r.und("the given hash list is the one used", e.where(), text(x)[:120])
        else:
            r.bad("the given hash list is the one used", e.where(), f"paths come from {text(x)[:120]}")


def defaults(c):
    r = c.r
    what = "the default hash list is the one of the file's kind"
    q = "hashes.default_hashfile"
    i = c.run(q)
    f = c.prog.func(q)
    if f is None:
        r.und(what, q)
        return
    p = mk("param", f.node.args.args[0].arg)
    want = {"hashfile_game": ".wad.client", "hashfile_lcu": ".wad"}
    found = set()
    for g, v, ls, nd in i.root_returns:
        for cg, x in cases_full(norm(v), g):
            name = next((a for a in x.args if isinstance(a, str) and a in want), None) if x.op == "global" else None
            w = f"{f.module.rel}:{nd.lineno} in {q}"
            if name is None:
                (r.bad if x.op == "const" else r.und)(what, w, text(x)[:100])
                continue
            found.add(name)
            ends = {}
            for a in tm.atoms(cg):
                y = a.args[0] if a.op == "truthy" else a
                if y.op == "mcall" and y.args[1] == "endswith" and same(y.args[0], p) and is_const(y.args[2]):
                    ends[a] = y.args[2].args[0]
            if not ends:
                r.bad(what, w, "returned whatever the name") if not tm.atoms(cg) else r.und(what, w, text(cg)[:100])
                continue
            for kind in (".wad.client", ".wad"):
                m = {a: (kind.endswith(s) if isinstance(s, str) else any(kind.endswith(z) for z in s)) for a, s in ends.items()}
                r.ob(tm.satisfiable(assume(cg, m)) == (kind == want[name]), what, w, f"{name} for *{kind}")
    if found and found != set(want):
        r.bad(what, q, f"never returned: {sorted(set(want) - found)}")


def unknown(c):
    r = c.r
    what = "an entry without a path is named by its hash in the unknown-files directory"
    q = "wad.Wad.set_unknown_paths"
    i = c.run(q)
    es = sets(i)
    f = c.prog.func(q)
    if not es or f is None or len(f.node.args.args) < 2:
        r.und(what, q, "no path is assigned")
        return
    d = mk("param", f.node.args.args[1].arg)
    cover = FALSE
    for e in es:
        if not files_loop(c, e, what):
            return
        p, h, x = (mk("attr", e.recv, n) for n in ("path", "path_hash", "ext"))
        nopath = bnot(truth(p))
        isnone = cmp("is", p, const(None))
        first = norm(e.guard)
        g0 = tm.rewrite(first, lambda a: nopath if a is norm(isnone) else a)
        ok = tm.entails(g0, norm(nopath)) or tm.entails(first, norm(isnone))
        r.ob(ok, what, e.where(), "an entry that has a path gets another one")
        cover = bor(cover, g0)
        for g, v in cases_full(norm(e.args[-1]), g0):
            hasx = tm.entails(g, norm(truth(x)))
            nox = tm.entails(g, norm(bnot(truth(x)))) or not tm.satisfiable(band(g, norm(truth(x))))
            none_x = [a for a in tm.atoms(g) if a.op == "is" and any(z is x for z in a.args)]
            base = [norm(d), const("/"), tm.fmt(h, HEX) if hasattr(tm, "fmt") else None]
            a1 = norm(tm.cat(d, const("/"), fmtd(h, HEX)))
            a2 = norm(tm.cat(d, const("/"), fmtd(h, HEX), const("."), x))
            if same(v, a2):
                r.ob(hasx or (none_x and all(not tm.satisfiable(band(g, z)) for z in none_x)), what, e.where(), "an extension is appended when there is none")
            elif same(v, a1):
                r.ob(nox or bool(none_x), what, e.where(), "the extension is left out")
            else:
                r.bad(what, e.where(), text(v)[:150])
    p = mk("attr", es[0].recv, "path")
    r.ob(same_guard(cover, bnot(truth(p)), es[0].recv), what, es[0].where(), "not for every entry without a path: " + text(cover)[:150])
    no_break(c, i, es, what)


def fmtd(v, spec):
    return tm.fmt(v, spec)


def same_guard(g, want, recv):
    g = norm(g)
    return not tm.satisfiable(band(norm(want), bnot(g)))


def final(i, es, recv):
    """Value of the attribute after the assignments, for one entry."""
    v = mk("attr", recv, "path")
    for e in es:
        v = tm.ite(e.guard, e.args[-1], v)
    return norm(v)


def sanitize(c):
    r = c.r
    short, suf = "over-long names are shortened keeping hash and extension", "names without an extension get a suffix"
    q = "wad.Wad.sanitize_paths"
    i = c.run(q)
    es = sets(i)
    if not es:
        r.und(short, q, "no path is assigned")
        return
    if not all(files_loop(c, e, short) for e in es):
        return
    if len({e.recv for e in es}) > 1:
        r.und(short, q, "several loops")
        return
    E = es[0].recv
    w = es[-1].where()
    P, H, X = (mk("attr", E, n) for n in ("path", "path_hash", "ext"))
    v = final(i, es, E)
    A = norm(truth(P))
    v1 = assume(v, {A: True, **{a: False for a in all_atoms(v) if a.op == "is" and any(z is P for z in a.args) and any(is_const(z, None) for z in a.args)}})
    ext = mk("index", mk("call", "os.path.splitext", P), const(1))
    isE = lambda a: a.op == "truthy" and same(a.args[0], ext) or a.op == "==" and any(same(z, ext) for z in a.args) and any(is_const(z, "") for z in a.args)
    isX = lambda a: a.op == "truthy" and a.args[0] is X or a.op == "is" and any(z is X for z in a.args)
    n = 0
    for e_ in (True, False):
        for x_ in (True, False):
            m = {}
            for a in all_atoms(v1):
                if isE(a):
                    m[a] = e_ if a.op == "truthy" else not e_
                elif isX(a):
                    m[a] = x_ if a.op == "truthy" else not x_
            t = norm(assume(v1, m))
            # twice: conditions inside conditions
            t = norm(assume(t, {a: (e_ if a.op == "truthy" else not e_) for a in all_atoms(t) if isE(a)} | {a: (x_ if a.op == "truthy" else not x_) for a in all_atoms(t) if isX(a)}))
            cs = list(cases_full(t, TRUE))
            plain = [(g, y) for g, y in cs if not tm.mentions(y, lambda z: z.op == "slice")]
            cut = [(g, y) for g, y in cs if tm.mentions(y, lambda z: z.op == "slice")]
            n += 1
            sfx = None
            label = f"{'an' if e_ else 'no'} extension, {'one' if x_ else 'none'} guessed"
            full = P
            for g, y in plain:
                if e_:
                    if y is P:
                        r.ok(suf, w, label)
                    else:
                        r.bad(suf, w, f"{label}: becomes {text(y)[:120]}")
                else:
                    ps = cat_args(y)
                    if not (ps and ps[0] is P and len(ps) > 1):
                        if y is P and uncertain(g, isE, P):
                            r.und(suf, w, f"{label}: {text(g)[:120]}")
                        else:
                            r.bad(suf, w, f"{label}: {'left as it is' if y is P else text(y)[:120]}")
                        continue
                    s = ps[1:]
                    ok = s[0].op == "const" and isinstance(s[0].args[0], str) and s[0].args[0].startswith(".") and "/" not in s[0].args[0] and len(s[0].args[0].strip(".")) > 0
                    last = s[-1]
                    if x_:
                        ok = ok and len(s) == 2 and last is X and s[0].args[0].endswith(".")
                    else:
                        ok = ok and len(s) == 1
                    r.ob(ok, suf, w, f"{label}: suffix {text(tm.cat(*s))[:100]}")
                    full = y
            if not plain:
                r.bad(suf, w, f"{label}: always shortened")
            if not cut:
                r.bad(short, w, f"{label}: never shortened")
            sufx = [ext] if e_ else cat_args(full)[1:]
            for g, y in cut:
                shortened(c, w, label, g, y, P, H, full, sufx)
            # the threshold
            lens = [a for g, y in cut for a in tm.atoms(g)]
            names = [norm(mk("call", "len", b)) for b in bases(full)]
            ats = list(dict.fromkeys(lens))
            good = None
            for a in ats:
                if a.op == "<" and any(is_call(z, "len") for z in a.args):
                    L = next(z for z in a.args if is_call(z, "len"))
                    if not any(same(L, b) for b in names):
                        r.bad(short, w, f"{label}: measured is {text(L)[:100]}") if known_wrong(L, P, full) else r.und(short, w, f"{label}: measured is {text(L)[:100]}")
                        good = True
                        continue
                    for k in (249, 250):
                        val = lambda z: k if z is L else z.args[0] if is_const(z) else None
                        lo, hi = (val(z) for z in a.args)
                        if lo is None or hi is None:
                            r.und(short, w, text(a)[:100])
                            continue
                        iscut = tm.satisfiable(band(bor(*[assume(g, {a: lo < hi}) for g, y in cut])))
                        isplain = tm.satisfiable(band(bor(*[assume(g, {a: lo < hi}) for g, y in plain])))
                        r.ob(iscut == (k >= 250) and isplain == (k < 250), short, w, f"{label}: a name of {k} characters is {'cut' if iscut else 'left'}")
                        good = True
            if cut and not good:
                r.und(short, w, f"{label}: no comparison of the length found")
    no_break(c, i, es, short)


def uncertain(g, isE, P):
    """Does the condition contain something about the path that the rule does not understand?"""
    return any(tm.mentions(a, lambda z: z is P) and not isE(a) and not any(is_call(z, "len") for z in a.args if isinstance(z, T)) for a in tm.atoms(g))


def all_atoms(t):
    out = {}
    def f(x):
        if x.op == "ite":
            for a in tm.atoms(x.args[0]):
                out[a] = 1
        return x
    tm.rewrite(t, f)
    return list(out)


def cat_args(t):
    t = as_text(t)
    return list(t.args) if t.op == "cat" else [t]


def bases(full):
    """Forms of the base name of a path."""
    return [norm(mk("index", mk("call", "os.path.split", full), const(1))), norm(mk("call", "os.path.basename", full)),
            norm(mk("index", mk("mcall", full, "rsplit", const("/"), const(1)), const(-1))), norm(mk("index", mk("mcall", full, "rpartition", const("/")), const(2))), norm(mk("index", mk("mcall", full, "split", const("/")), const(-1)))]


def dirs(full):
    return [norm(mk("index", mk("call", "os.path.split", full), const(0))), norm(mk("call", "os.path.dirname", full))]


def known_wrong(L, P, full):
    x = L.args[1]
    return x is P or same(x, full) or (full is not P and any(same(x, b) for b in bases(P)))


def shortened(c, w, label, g, y, P, H, full, sufx):
    r = c.r
    what = "over-long names are shortened keeping hash and extension"
    y = loose(y)
    ps = cat_args(y)
    slash = next((k for k, p in enumerate(ps) if p.op == "const" and p.args[0] == "/"), None)
    if slash is None and y.op == "call" and y.args[0] == "os.path.join":
        r.und(what, w, f"{label}: {text(y)[:150]}")
        return
    ds = dirs(full) + dirs(P)
    if slash != 1 or not any(same(ps[0], d) for d in ds):
        if not any(tm.mentions(p, lambda z: any(same(z, d) for d in ds)) for p in ps[:2]):
            r.bad(what, w, f"{label}: not in the same directory: {text(y)[:120]}")
        else:
            r.und(what, w, f"{label}: {text(y)[:120]}")
        return
    rest = ps[2:]
    k = len(sufx)
    tail = rest[len(rest) - k:]
    flat = lambda ts: cat_args(tm.cat(*ts))
    # the constant before the extension may have been merged
    whole = flat(rest)
    want = flat(sufx)
    stripped = strip_suffix(whole, want)
    if stripped is None:
        r.bad(what, w, f"{label}: the extension is lost: {text(tm.cat(*rest))[:120]}")
        return
    hx = tm.fmt(H, HEX)
    if not any(p is hx for p in stripped):
        r.bad(what, w, f"{label}: the hash (16 digits) is lost: {text(tm.cat(*stripped))[:120]}")
        return
    total = const(0)
    und = False
    for p in stripped:
        if p is hx:
            total = add(total, const(16))
        elif p.op == "const":
            total = add(total, const(len(p.args[0])))
        elif p.op == "slice" and (p.args[1] is None or is_const(p.args[1], None) or is_const(p.args[1], 0)) and p.args[2] is not None:
            total = add(total, p.args[2])
            base = p.args[0]
            r.ob(tm.mentions(base, lambda z: z is P) and not base is P and not same(base, full), what, w, f"{label}: cut from {text(base)[:100]}")
        else:
            und = True
    for p in want:
        total = add(total, const(len(p.args[0])) if p.op == "const" else mk("call", "len", p))
    if und:
        r.und(what, w, f"{label}: {text(tm.cat(*stripped))[:120]}")
        return
    total = tm.rewrite(norm(total), expand_len)
    d = next((k for k in range(-250, 400) if tm.lin_eq(total, const(k))), None)
    if d is None:
        (r.bad if not bounded(total) else r.und)(what, w, f"{label}: the length of the name can be {text(total)[:120]}")
    else:
        r.ob(60 <= d <= 255, what, w, f"{label}: cut to {d} characters")


def loose(y):
    """os.path.join(split(p)[0], x): the parts."""
    return norm(y)


def add(a, b):
    return mk("bin", "+", a, b)


def expand_len(x):
    """len(a + b) = len(a) + len(b)"""
    if is_call(x, "len"):
        y = as_text(x.args[1])
        if y.op == "cat":
            t = const(0)
            for p in y.args:
                t = add(t, const(len(p.args[0])) if p.op == "const" else const(16) if p.op == "fmt" and is_const(p.args[1], HEX) else mk("call", "len", p))
            return t
        if y.op == "const" and isinstance(y.args[0], str):
            return const(len(y.args[0]))
        if y.op == "fmt" and is_const(y.args[1], HEX):
            return const(16)
    return x


def bounded(t):
    return not any(is_call(z, "len") for z in subterms(t))


def strip_suffix(whole, want):
    whole, want = list(whole), list(want)
    while want:
        if not whole:
            return None
        a, b = whole[-1], want[-1]
        if a is b or same(a, b):
            whole.pop(), want.pop()
        elif a.op == "const" and b.op == "const" and isinstance(a.args[0], str) and a.args[0].endswith(b.args[0]):
            whole[-1] = const(a.args[0][:len(a.args[0]) - len(b.args[0])])
            want.pop()
        else:
            return None
    return whole


SAN, UNK, GUE = "wad.Wad.sanitize_paths", "wad.Wad.set_unknown_paths", "wad.Wad.guess_extensions"


def rcalls(i, q):
    return [e for e in i.events if e.kind == "call" and e.name == "repo:" + q]


def orders(c):
    r = c.r
    # creation
    what = "paths are resolved when an archive is opened"
    OP = {"wad.Wad.resolve_paths", "wad.Wad.parse_headers", "wad.Wad.load_subchunk_toc", SAN, UNK, GUE}
    i = c.run("wad.Wad.__init__", opaque=OP)
    f = c.prog.func("wad.Wad.__init__")
    a, b = rcalls(i, "wad.Wad.parse_headers"), rcalls(i, "wad.Wad.resolve_paths")
    if a and b:
        r.ob(b[0].guard is TRUE and a[0].seq < b[0].seq, what, b[0].where())
        par = [x.arg for x in f.node.args.args]
        if len(par) > 2 and len(b[0].args) > 1:
            r.ob(same(b[0].args[1], mk("param", par[2])), what, b[0].where(), "not with the given hash list")
        elif len(par) > 2:
            r.bad(what, b[0].where(), "the given hash list is not passed on")
    elif a:
        r.bad(what, "wad.Wad.__init__", "paths are not resolved")
    else:
        r.und(what, "wad.Wad.__init__")
    # extraction
    what = "paths are made usable before anything is written"
    q = "wad.Wad.extract"
    i = c.run(q, opaque=OP | {"wad.WadFileHeader.extract", "wad.WadFileHeader.read_data"})
    s, u = rcalls(i, SAN), rcalls(i, UNK)
    out = rcalls(i, "wad.WadFileHeader.extract") or write_opens(i)
    prepared(c, q, s, u, out, what)
    for e in u:
        r.ob(len(e.args) > 1 and is_const(e.args[1], "unknown"), "unknown files go to the unknown-files directory", e.where(), text(e.args[-1])[:80])
    for e in out:
        p = [norm(x) for x in e.args if isinstance(x, T) and tm.mentions(x, lambda z: z.op == "attr" and z.args[1] == "path" and z.args[0].op == "elem")]
        par = mk("param", c.prog.func(q).node.args.args[1].arg)
        for x in p[:1]:
            el = next(z for z in subterms(x) if z.op == "attr" and z.args[1] == "path" and z.args[0].op == "elem")
            r.ob(same(x, mk("call", "os.path.join", par, el)), "an entry is written to its path in the output directory", e.where(), text(x)[:100])
        if not p:
            r.und("an entry is written to its path in the output directory", e.where())
    # the command
    q = "__main__.command_wad_extract"
    i = c.run(q, opaque={"wad.Wad.__init__", "wad.Wad.extract", GUE, "hashes.default_hashfile", "hashes.HashFile.load"})
    g, x = rcalls(i, GUE), rcalls(i, "wad.Wad.extract")
    what = "extensions are guessed before files are written"
    if x:
        r.ob(any(y.seq < x[0].seq and tm.entails(x[0].guard, y.guard) and same(y.args[0], x[0].args[0]) for y in g), what, x[0].where())
    else:
        r.und(what, q)
    # exporting
    q = "export.Exporter.add_path"
    i = c.run(q, opaque={"wad.Wad.__init__", GUE, SAN, UNK})
    st = [e for e in i.events if e.kind == "setitem" and tm.mentions(e.args[-1], lambda z: z.op == "new" or z.op == "obj") or e.kind == "setitem" and text(e.recv).endswith(".wads")]
    s, g = rcalls(i, SAN), rcalls(i, GUE)
    what = "archives to export have usable paths"
    if not st:
        r.und(what, q)
    for e in st:
        r.ob(any(tm.entails(e.guard, y.guard) for y in s), what, e.where(), "paths are not sanitized")
        r.ob(any(tm.entails(e.guard, y.guard) and all(y.seq < z.seq for z in s) for y in g), what, e.where(), "extensions are not guessed before")
    q = "export.CdragonRawPatchExporter._transform_exported_files"
    i = c.run(q, opaque={UNK, "export.Exporter.filter_export_paths", "export.Exporter.converted_exported_paths"})
    u = rcalls(i, UNK)
    what = "unknown files go to the unknown-files directory"
    if not u:
        r.bad(what, q, "unknown entries get no path")
    for e in u:
        ok = len(e.loops) == 1 and e.guard is TRUE and e.loops[0].op == "loop" and text(e.loops[0].args[0]).endswith(".wads") or e.loops and text(e.loops[-1].args[0]).endswith(".wads.values()")
        ok = ok or (len(e.loops) == 1 and e.loops[0].op == "loop" and tm.mentions(e.loops[0].args[0], lambda z: z.op == "attr" and z.args[1] == "wads") and e.guard is TRUE)
        r.ob(ok, what, e.where(), f"not for every archive: {text(e.guard)[:100]}")
        for g, v in cases_full(norm(e.args[1]), e.guard):
            ps = cat_args(v)
            ok = is_const(v, "unknown") or ps[-1].op == "const" and str(ps[-1].args[0]).endswith("/unknown")
            r.ob(ok, what, e.where(), text(v)[:100])
        if len(e.loops) == 1:
            c.part(plugin_names, i, e, what)
        later = [x for x in i.events if x.kind == "call" and x.name == "repo:export.Exporter.filter_export_paths" and x.seq < e.seq]
        r.ob(not later, what, e.where(), "entries without a path are filtered out before they get one")
        assigned = [x for x in sets(i) if x.seq < e.seq]
        r.ob(not assigned, what, e.where(), "paths are modified before the unknown ones are set")


def plugin_names(c, i, e, what):
    """The directory for sample archives: that of the plugin for plugin archives, however they are spelled."""
    for path, want in (("plugins/rcp-be-lol-game-data/default-assets.wad", "plugins/rcp-be-lol-game-data/unknown"), ("Plugins/rcp-fe-X/assets.wad", "plugins/rcp-fe-x/unknown"), ("plugins/rcp-fe-lol-loot/fr_FR-assets12.wad", "plugins/rcp-fe-lol-loot/unknown"),
                       ("PLUGINS/RCP-BE-A/ASSETS.WAD", "plugins/rcp-be-a/unknown"), ("game/data/final/champions/ahri.wad.client", "unknown"), ("other/plugins/rcp-x/assets.wad", "unknown"), ("plugins/other/assets.wad", "unknown")):
        wads = {path: Obj("wad", {"Wad"}, files=(), path="source of " + path)}

        def world(sim, x, nothing):
            if x.op == "attr" and x.args[1] == "wads":
                return wads
            return nothing
        where = f"{e.where()} ({path})"
        try:
            sim = Sim(i, world)
            got = []

            def do():
                if sim.true(e.guard):
                    got.append(sim.value(e.args[1]))
            sim.each(e.loops, do, e.guard)
        except (Unknown, Fails, IndexError):
            continue        # judged by its cases
        c.r.ob(got == [want], what, where, f"{got}" if got != [want] else want)


def prepared(c, q, s, u, out, what):
    r = c.r
    if not out:
        r.und(what, q, "nothing is written")
        return
    for e in out:
        okS = [y for y in s if y.seq < e.seq and tm.entails(e.guard, y.guard) and not y.loops]
        okU = [y for y in u if y.seq < e.seq and tm.entails(e.guard, y.guard) and not y.loops]
        r.ob(okS, what, e.where(), "paths are not sanitized before")
        r.ob(okU, what, e.where(), "unknown entries have no path")
        if okS and okU:
            r.ob(okS[0].seq < okU[0].seq, what, e.where(), "unknown entries get a suffix too: they are named before paths are sanitized")


def others(c):
    """Assignments of a path elsewhere: only a directory may be put in front."""
    r = c.r
    what = "no other path is given to an entry"
    done = {"wad.Wad.resolve_paths", SAN, UNK}
    n = 0
    for f in c.prog.funcs.values():
        q = f.qual[5:] if f.qual.startswith("cdtb.") else f.qual
        if q in done:
            continue
        hits = [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == "path" and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self")]
        own = q.startswith("wad.WadFileHeader.") and any(isinstance(x, ast.Attribute) and x.attr == "path" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))
        if not hits and not own:
            continue
        i = c.run(q, opaque=done | {GUE, "wad.Wad.__init__", "export.Exporter.filter_export_paths", "export.Exporter.converted_exported_paths"})
        for e in i.events:
            if e.kind != "setattr" or e.name != "path" or e.recv is None:
                continue
            if own and same(e.recv, mk("param", "self")):
                n += 1
                if f.node.name == "__init__":
                    r.ob(is_const(e.args[-1], None) or e.args[-1].op == "param", what, e.where(), text(e.args[-1])[:80])
                else:
                    r.und(what, e.where(), text(e.args[-1])[:80])
                continue
            if e.recv.op not in ("elem", "val", "zelem") or not tm.mentions(e.recv, lambda z: z.op == "attr" and z.args[1] == "files"):
                continue
            n += 1
            old = mk("attr", e.recv, "path")
            for g, v in cases_full(norm(e.args[-1]), e.guard):
                ps = cat_args(v)
                if v is old:
                    continue
                if ps[-1] is old and len(ps) > 1 and ps[-2].op == "const" and str(ps[-2].args[0]).endswith("/"):
                    r.ok(what, e.where(), text(v)[:80])
                elif tm.mentions(v, lambda z: z is old):
                    r.bad(what, e.where(), text(v)[:100]) if v.op in ("cat", "slice", "mcall") else r.und(what, e.where(), text(v)[:100])
                else:
                    r.bad(what, e.where(), text(v)[:100])
    if not n:
        r.ok(what, "cdtb", "no other assignment")
