"""C09: patches are listed latest first and looked up in listing order, without guessing."""
from vfa.q import *
from vfa.sim import Sim, Obj

RULE = """Listings and lookups are reduced to formulas (generators collected, helpers inlined). A storage's releases: one entry per
directory entry, compared as integers and sorted in decreasing order, kept if its release.json is a file. RADS
solution versions: sorted so that, under their own ordering, the latest comes first; and at each step the element
yielded is the one with the greater version of the two peeked, the one then consumed. Patches: the elements are grouped
by version, and of each group only the first of each name is kept; this is
followed over sample listings (several patches, sub-patches, one name several times), as is Patch.latest. patch() and patch_element(): the first element of the
listing meeting exactly the requested conditions, or None. Command line and component parsing: no result of a lookup
is dereferenced where it may be None."""

LOOKUPS = {"storage.Storage.patch", "storage.Storage.patches", "storage.Storage.patch_element", "storage.parse_storage_component",
           "export.CdragonRawPatchExporter.from_directory", "export.CdragonRawPatchExporter.process", "patcher.PatcherPatchElement.fspaths"}


def check(c):
    for f in (releases, patcher_elements, rads_versions, rads_elements, groups, sample_latest, one_element, one_patch, callers):
        c.part(f)


# ---------------------------------------------------------------- sorted listings

def sort_order(mods):
    """(what is compared, descending?) of the outermost sort of a walk, None if there is none, False if the order is lost."""
    down = False
    for m in mods:
        if not isinstance(m, T):
            continue
        if m.op == "reversed":
            down = not down
        elif m.op == "viaset":
            return False
        elif m.op == "bysort":
            if m.args[1] not in (TRUE, FALSE):
                return None
            return m.args[0], down != (m.args[1] is TRUE)
    return None


def numeric(key, down, prog):
    """Does the comparison order by number / version, latest first? True, False or None (unknown)."""
    while key.op == "neg":
        key, down = key.args[0], not down
    if key.op in ("tuple", "list") and key.args:
        return numeric(key.args[0], down, prog)
    if is_call(key, "int"):
        return down
    if key.op in ("elem", "cat", "fmt") or is_call(key, "str"):
        return False
    if key.op == "obj":
        name = str(key.args[0])
        if "Version" in name and ("RadsVersion" in name or "PatchVersion" in name):
            return down
        k = next((x for n, x in prog.classes.items() if n in name.split(".")), None)
        return None
    if key.op == "attr" and key.args[1] in ("version", "t"):
        return down
    if key.op == "attr" and key.args[1] == "s":
        return False
    return None


def releases(c):
    r = c.r
    w = "patcher.PatcherStorage.iter_releases"
    i = c.run(w, collect=True)
    es = tm.entries_of(i.result)
    if not es or len(es) != 1:
        r.und("releases of the storage", w, text(i.result)[:300])
        return
    loops, g, v = es[0].args[0].args, norm(es[0].args[1]), es[0].args[2]
    if len(loops) != 1:
        r.und("releases of the storage", w, str([text(l) for l in loops]))
        return
    o = sort_order(loops[0].args[2:])
    if not o:
        r.bad("releases are listed from the latest", w, "directory listings have no order")
    else:
        r.ob(numeric(o[0], o[1], c.prog), "releases are listed from the numerically latest", w, f"compares {text(o[0])}, {'descending' if o[1] else 'ascending'}")
    at = new_attrs(i, v) if v.op == "obj" else {}
    ver = at.get("version") if at else (v.args[2] if len(v.args) > 2 else None)
    args = [x for x in v.args if isinstance(x, T)]
    num = [x for x in subterms(v) if is_call(x, "int")] or [x for x in subterms(v) if x.op == "elem"]
    if not num:
        r.und("version of a release", w, text(v))
        return
    n = num[0]
    need = [a for a in tm.atoms(g) if is_call(bare(a), "os.path.isfile", "os.path.exists") and cat_consts(bare(a).args[1])[-1:] and cat_consts(bare(a).args[1])[-1].endswith("/release.json")]
    mine = [a for a in need if any(strip_epoch(x) is strip_epoch(norm(n)) for x in subterms(bare(a).args[1]))]
    r.ob(bool(mine) and all(tm.entails(g, a) for a in mine[:1]), "only releases whose information is stored are listed", w, text(g))
    rest = subst_atoms(g, lambda a: TRUE if a.op == "call" and a.args[0] in ("os.path.isdir", "os.path.exists", "os.path.isfile") or a.op == "mcall" and a.args[1] in ("isdigit", "isdecimal", "isnumeric") else None)
    rest = subst_atoms(rest, lambda a: FALSE if a.op == "exc" else None)
    r.ob(True if tm.equiv(rest, TRUE) else None, "every stored release is listed", w, text(rest))


def patcher_elements(c):
    r = c.r
    w = "patcher.PatcherStorage.patch_elements"
    i = c.run(w, opaque={"patcher.PatcherStorage.iter_releases", "patcher.PatcherStorage.fetch_latest_update", "patcher.PatcherReleaseElement.patch_version"}, collect=True)
    es = tm.entries_of(i.result)
    if not es:
        r.und("elements of the releases", w, text(i.result)[:200])
        return
    names = set()
    for e in es:
        loops, g, v = e.args[0].args, e.args[1], e.args[2]
        rel = [l for l in loops if repo_call(l.args[0], "iter_releases")]
        if not rel:
            cut = [l for l in loops if tm.mentions(l, lambda x: repo_call(x, "iter_releases"))]
            (r.bad if cut and tm.mentions(cut[0], lambda x: x.op in ("slice", "rev") or is_call(x, "itertools.islice", "reversed", "set")) else r.und)(
                "elements are listed in the order of the releases", w, str([text(l) for l in loops])[:300])
            return
        r.ob(loops[0] is rel[0] and len(rel[0].args) == 2, "elements are listed in the order of the releases", w, str([text(l) for l in loops])[:300])
        el = mk("elem", rel[0].args[0], rel[0].args[1])
        for n in ("game", "client"):
            u = [a for a in tm.atoms(strip_uid(strip_epoch(g))) if f"{n}_patch_url" in text(a)]
            if u:
                names.add(n)
                rest = assume(strip_uid(strip_epoch(g)), {x: True for x in u})
                r.ob(True if tm.equiv(rest, TRUE) else False if not tm.satisfiable(rest) or any("name" in text(a) for a in tm.atoms(rest)) else None,
                     "every element of a release is listed", w, text(rest)[:200])
    r.ob(True if names == {"game", "client"} else None if not names else False, "the game and client of each release are listed", w, str(names))


def rads_versions(c):
    r = c.r
    w = "rads.RadsSolution.versions"
    down_lt = lt_descending(c)
    for st in (TRUE, FALSE):
        i = c.run(w, f"{w}(stored={st is TRUE})", args={"stored": st}, collect=True)
        res = i.result
        es = [e for e in (tm.entries_of(res) or []) if e.args[0].args]
        if len(es) != 1:
            r.und("versions of a solution", w, text(res)[:200])
            continue
        o = sort_order(es[0].args[0].args[0].args[2:])
        if o is None or o is False:
            (r.bad if o is False or not any(isinstance(m, T) for m in es[0].args[0].args[0].args[2:]) else r.und)(
                "versions of a solution are listed from the latest", w, "not sorted")
            continue
        key, dn = o
        if key.op == "obj" and "RadsSolutionVersion" in text(key).split("(")[0]:
            ok = None if down_lt is None else dn != down_lt
        else:
            ok = numeric(key, dn, c.prog)
        r.ob(ok, "versions of a solution are listed from the latest", w, f"compares {text(key)[:100]}, {'descending' if dn else 'ascending'}")


def lt_descending(c):
    """Under its own ordering, does a solution version with a greater number come first?"""
    k = c.prog.cls("rads.RadsSolutionVersion")
    f = k.method("__lt__")
    if f is None:
        return None
    s, o = (mk("param", a.arg) for a in f.node.args.args[:2])
    i = c.run(f, "rads.RadsSolutionVersion.__lt__", types={o: k}, opaque={"rads.RadsSolution.__lt__", "rads.RadsSolution.__eq__", "storage.BaseVersion.__gt__", "storage.BaseVersion.__lt__", "storage.BaseVersion.__ge__", "storage.BaseVersion.__le__"})
    res = truth(i.result)
    m = {}
    for a in tm.atoms(res):
        t = text(a)
        if "version" in t:
            continue
        if a.op == "<" or "__lt__" in t or "__gt__" in t:
            m[a] = False
        else:
            m[a] = True
    res = assume(res, m)
    ats = tm.atoms(res)
    if len(ats) != 1:
        return None
    a, pos = ats[0], tm.equiv(res, ats[0])
    x, y = None, None
    if a.op == "<":
        x, y = a.args
    elif bare(a).op == "call" and str(bare(a).args[0]).endswith(("__gt__", "__lt__")):
        x, y = bare(a).args[1:3]
        if str(bare(a).args[0]).endswith("__gt__"):
            x, y = y, x
    if x is None:
        return None
    r = c.r
    less_first = tm.mentions(x, lambda z: z is s) and tm.mentions(y, lambda z: z is o)     # self.version < other.version
    if not pos:
        less_first = not less_first
    return not less_first


def rads_elements(c):
    r = c.r
    w = "rads.RadsStorage.patch_elements"
    i = c.run(w, collect=True, opaque={"rads.RadsSolution.versions", "rads.RadsSolutionVersion.patch_version", "rads.RadsSolutionVersion.__init__", "storage.PatchVersion.__init__"})
    es = tm.entries_of(i.result)
    if not es or len(es) != 1:
        r.und("merged elements", w, text(i.result)[:200])
        return
    v, g = strip_uid(es[0].args[2]), strip_uid(es[0].args[1])
    peeks = []
    for x in subterms(v):
        if x.op == "mcall" and x.args[1] == "peek" and x not in peeks:
            peeks.append(x)
    if len(peeks) < 2:
        (r.und if not peeks else r.bad)("the greatest version of both solutions comes first", w, text(v)[:300])
        return
    none = {a: False for a in ite_atoms(v, g) + tm.atoms(g) if a.op == "is"}
    v0 = assume(v, none)
    lts = [a for a in ite_atoms(v0) if a.op == "<"]
    if not lts:
        r.bad("the greatest version of both solutions comes first", w, text(v0)[:300])
        return
    for a in lts:
        x, y = ([p for p in peeks if tm.mentions(t, lambda z: z is p)] for t in a.args)
        if len(x) != 1 or len(y) != 1 or not all(t.op == "attr" and t.args[1] == "version" or t.op == "attr" and t.args[1] == "t" for t in a.args):
            r.und("the greatest version of both solutions comes first", w, text(a)[:200])
            continue
        hi, lo = assume(v0, {a: True}), assume(v0, {a: False})
        r.ob(hi is y[0] and lo is x[0], "the greatest version of both solutions comes first", w, f"when {text(a)}: {text(hi)}, else {text(lo)}")
    # the element yielded is the one consumed
    cons = mcalls(i, "consume")
    if not cons:
        r.und("the element listed is consumed", w)
    for e in cons:
        rc = strip_uid(e.recv)
        m = {a: False for a in ite_atoms(rc, v) if a.op == "is"}
        ok = by_cases([assume(rc, m), assume(v, m)], lambda x, y: y.op == "mcall" and same(x, y.args[0]))
        r.ob(ok, "the element listed is the one consumed", e.where(), f"{text(rc)[:300]} / {text(v)[:300]}")


# ---------------------------------------------------------------- patches

LISTED = "a patch holds the first element of each name of its version"


def sample_patches(c):
    """The listing of patches followed over sample elements: whether everything was understood."""
    cls = c.prog.cls("storage.Storage")
    f = cls.method("patches")
    i = c.run(f, self_type=cls, collect=True, opaque={"storage.Storage.patch_elements", "storage.Patch._create"})
    v = {n: Obj(n, {"PatchVersion"}, s=n, t=tuple(int(x) for x in n.split(".")) if n != "main" else (10 ** 6,)) for n in ("main", "14.10", "14.2", "14.1", "9.24")}

    def el(name, version, n=0):
        return Obj(f"{name}@{version}#{n}", {"PatchElement"}, name=name, version=v[version])
    g, cl = "game", "client"
    lists = {
        "nothing": (), "one element": (el(g, "14.2"),), "one patch": (el(g, "14.2"), el(cl, "14.2")), "client first": (el(cl, "14.2"), el(g, "14.2")),
        "several patches": (el(g, "14.10"), el(cl, "14.10"), el(g, "14.2"), el(g, "14.1"), el(cl, "14.1"), el(cl, "9.24")),
        "sub-patches": (el(g, "14.2", 3), el(cl, "14.2", 2), el(g, "14.2", 1), el(cl, "14.2", 0)),
        "sub-patches of several": (el(cl, "main", 9), el(g, "main", 8), el(g, "main", 7), el(g, "14.10", 6), el(g, "14.10", 5), el(cl, "14.10", 4), el(g, "14.2", 3), el(cl, "14.1", 2), el(cl, "14.1", 1)),
        "three of a name": (el(g, "14.1", 3), el(g, "14.1", 2), el(g, "14.1", 1), el(cl, "14.1", 0)),
    }
    me = mk("param", f.node.args.args[0].arg)
    fine = True
    for name, elems in lists.items():
        where = f"{f.loc} ({name})"
        asked = []

        def world(sim, x, nothing):
            if x.op == "mcall" and x.args[1] == "patch_elements" or x.op == "call" and str(x.args[0]).endswith("patch_elements"):
                ys = [y.args[1] if y.op == "kw" else y for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "epoch") and y is not me]
                asked.append([sim.value(y) for y in ys])
                return elems
            if x.op == "param" and x.args[0] == "stored":
                return "as asked"
            if x.op == "call" and str(x.args[0]).endswith("Patch._create"):
                y = [y for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "epoch") and y.op != "class"]
                return ("patch", *sorted((o if k is None else k for o, k in sim.elements(y[-1].args[1] if y[-1].op == "kw" else y[-1])), key=str))
            return nothing
        want = {}
        for e in elems:
            want.setdefault(id(e.attrs["version"]), {}).setdefault(e.attrs["name"], e)
        want = [("patch", *sorted(es.values(), key=str)) for es in want.values()]
        try:
            got = [o if k is None else k for o, k in Sim(i, world).elements(i.result)]
            if any(len({e.attrs["name"] for e in x[1:]}) < len(x) - 1 for x in got if isinstance(x, tuple)):
                raise Unknown       # entries of a dictionary that replace each other are not told apart here
            bad = "the elements are not those asked for" if asked and any(q != ["as asked"] for q in asked) else str(got) if got != want else None
            c.r.ob(bad is None, LISTED, where, bad or f"{len(got)} patches")
        except Unknown:
            fine = False
        except Fails:
            c.r.bad(LISTED, where, "raises an error")
    return fine


def sample_latest(c):
    """Patch.latest keeps the latest element of each name."""
    cls = c.prog.cls("storage.Patch")
    f = cls.method("latest")
    if f is None:
        return
    i = c.run(f, self_type=cls, opaque={"storage.Patch._create"})
    me = mk("param", f.node.args.args[0].arg)

    def el(name, n):
        return Obj(f"{name}#{n}", {"PatchElement"}, name=name, version=n)
    for elems, want in (((), ()), (("a1",), ("a1",)), (("a1", "b1"), ("a1", "b1")), (("b1", "a1"), ("b1", "a1")), (("a1", "b1", "c1"), ("a1", "b1", "c1")), (("a2", "a3", "a1", "b1", "b2"), ("a3", "b2"))):
        objs = {x: el(x[0], int(x[1])) for x in elems}
        where = f"{f.loc} ({', '.join(elems) or 'no element'})"

        def world(sim, x, nothing):
            if x.op == "attr" and x.args[0] is me and x.args[1] == "elements":
                return tuple(objs.values())
            if x.op == "attr" and x.args[0] is me and x.args[1] == "version":
                return 1
            if x is me:
                return "patch"
            if x.op == "call" and str(x.args[0]).endswith("Patch._create") or x.op == "mcall" and x.args[1] == "_create":
                y = [y for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "epoch", "class")]
                return tuple(o if k is None else k for o, k in sim.elements(y[-1].args[1] if y[-1].op == "kw" else y[-1]))
            return nothing
        what = "a patch reduced to its latest elements has one of each name"
        try:
            got = Sim(i, world).value(i.snap(i.result))
            if got == "patch":
                got = tuple(objs.values())
            if not isinstance(got, tuple):
                c.r.bad(what, where, str(got))
                continue
            c.r.ob(sorted(got, key=str) == sorted((objs[x] for x in want), key=str), what, where, str(got))
        except Unknown:
            c.r.und(what, where, "not understood")
        except Fails:
            c.r.bad(what, where, "raises an error")


def groups(c):
    r = c.r
    if sample_patches(c):
        return
    w = "storage.Storage.patches"
    i = c.run(w, collect=True, opaque={"storage.Storage.patch_elements", "storage.Patch._create"})
    es = tm.entries_of(i.result)
    if not es or len(es) != 1 or not repo_call(es[0].args[2], "_create"):
        r.und("grouping of elements", w, text(i.result)[:300])
        return
    loops, g, v = es[0].args[0].args, es[0].args[1], es[0].args[2]
    if len(loops) != 1 or not is_call(loops[0].args[0], "itertools.groupby"):
        r.und("grouping of elements", w, str([text(l) for l in loops])[:300])
        return
    gb = loops[0].args[0]
    arg0 = mk("arg", 0)
    key = next((x.args[1] for x in gb.args if isinstance(x, T) and x.op == "kw"), None)
    if key is not None:
        ver = mk("attr", arg0, "version")
        k = key
        while k.op == "cat" and len(k.args) == 1 or k.op == "attr" and k.args[1] in ("t", "s") or is_call(k, "str"):
            k = k.args[0] if isinstance(k.args[0], T) else k.args[1]
        used = [x for x in subterms(key) if x.op == "attr" and x.args[0] is arg0]
        r.ob(True if k is ver else False if used and (ver not in used or k.op == "index") else None, "a patch is made of the elements of one version", w, text(key))
    r.ob(len(loops[0].args) == 2 and tm.equiv(g, TRUE), "every patch is listed, in the order of the elements", w, text(loops[0])[:100] + text(g)[:100])
    src = gb.args[1]
    plain = src.op == "mcall" and src.args[1] == "patch_elements" or repo_call(src, "patch_elements")
    r.ob(True if plain else False if src.op in ("sorted", "rev") else None, "patches are grouped in listing order", w, text(src)[:200])
    el = v.args[2] if len(v.args) > 2 else v.args[1]
    ee = tm.entries_of(el)
    if not ee or len(ee) != 1 or len(ee[0].args[0].args) != 1:
        r.und("elements of a patch", w, text(el)[:300])
        return
    lp, ge, ve = ee[0].args[0].args[0], ee[0].args[1], ee[0].args[2]
    mods = [m for m in lp.args[2:] if isinstance(m, T)]
    if not same(ve, mk("elem", lp.args[0], lp.args[1])):
        r.und("elements of a patch", w, text(ve)[:200])
        return
    name = mk("attr", ve, "name")
    firsts = [a for a in tm.atoms(ge) if a.op == "in" and strip_epoch(a.args[0]) is strip_epoch(name) and tm.mentions(a.args[1], lambda x: x.op in ("carry", "carryval"))]
    if firsts and tm.equiv(ge, bnot(firsts[0])) and not mods:
        r.ok("only the latest element of each name is kept", w, text(ge)[:200])
    elif mods:
        r.und("only the latest element of each name is kept", w, text(lp)[:200])
    else:
        r.bad("only the latest element of each name is kept", w, f"kept if {text(ge)[:300]}")


# ---------------------------------------------------------------- lookups

def first_of(t, src, want, elem_pred):
    """Is the value 'the first element of the listing for which `want` holds, or None'? -> (verdict, why)"""
    t = tm.rewrite(t, lambda x: FALSE if x.op == "any" and x.args[-1] is FALSE else x)
    if is_call(t, "max", "min"):
        return False, "the listing order is not used"
    if t is NONE:
        return False, "nothing is ever found"
    if tm.mentions(t, lambda x: x.op == "last"):
        return False, "the last match is returned"
    if t.op == "ite" and t.args[2] is NONE:
        g, v = t.args[0], t.args[1]
    elif t.op == "ite" and t.args[1] is NONE:
        g, v = bnot(t.args[0]), t.args[2]
    else:
        if tm.mentions(t, lambda x: x.op == "first" or is_call(x, "next") or x.op == "index"):
            return False, "fails when there is no match"
        return None, text(t)
    coll = None
    if v.op == "first" or is_call(v, "next"):
        coll = v.args[0] if v.op == "first" else v.args[1]
    if coll is None:
        return None, text(v)
    if src(coll):
        loops, gg, val = None, TRUE, None
    else:
        es = tm.entries_of(coll)
        if not es or len(es) != 1 or len(es[0].args[0].args) != 1:
            return None, text(coll)
        lp = es[0].args[0].args[0]
        if not src(lp.args[0]):
            return None, text(lp)
        if len(lp.args) > 2:
            return False, f"the listing order is changed: {text(lp)}"
        e = mk("elem", lp.args[0], lp.args[1])
        if es[0].args[2] is not e:
            return None, text(es[0].args[2])
        gg = tm.rewrite(es[0].args[1], lambda x: mk("param", "<e>") if x is e else x)
    ok = tm.equiv(gg, want)
    return ok, f"first element such that {text(gg)}"


def lookup(c, fn, listing):
    i = c.run(fn, opaque={f"storage.Storage.{listing}"})
    f = c.prog.func(fn)
    src = lambda x: x.op == "mcall" and x.args[1] == listing or repo_call(x, listing)
    V = mk("param", "version")
    E = mk("param", "<e>")
    none = [a for a in tm.atoms(mk("is", V, NONE))] if False else None
    isnone = cmp("is", V, NONE)
    out = []
    for nn in (True, False):
        t = tm.rewrite(i.result, lambda x: (TRUE if nn else FALSE) if x is isnone else x)
        t = tm.rewrite(t, lambda x: (TRUE if not nn else FALSE) if x.op == "truthy" and x.args[0] is V else x)
        w = TRUE if nn else cmp("==", mk("attr", E, "version"), V)
        if listing == "patch_elements":
            w = band(w, cmp("==", mk("attr", E, "name"), mk("param", "name")))
        ok, why = first_of(t, src, w, None)
        c.r.ob(ok, f"the first match {'of any version' if nn else 'of the given version'} is returned, or None", f"{f.module.rel}:{f.node.lineno} {fn}", why[:400])


def one_element(c):
    lookup(c, "storage.Storage.patch_element", "patch_elements")


def one_patch(c):
    lookup(c, "storage.Storage.patch", "patches")


# ---------------------------------------------------------------- uses of lookups

def found(x):
    return repo_call(x, "Storage.patch", "Storage.patch_element", "parse_storage_component") or \
        is_call(x, "next") and any(y is NONE for y in x.args)


def callers(c):
    r, p = c.r, c.prog
    st = {mk("attr", mk("param", "args"), "storage"): p.cls("storage.Storage")}
    for root in ("storage.parse_storage_component", "rads.parse_rads_component", "__main__.parse_component_arg", "__main__.command_export", "__main__.command_hashes_guess"):
        ops = {o for o in LOOKUPS if o != root}
        if root == "__main__.command_hashes_guess":
            ops |= {"hashes.HashGuesser.from_wads", "hashes.LcuHashGuesser.from_wads", "hashes.GameHashGuesser.from_wads", "wad.Wad.__init__"}
        c.part(deref, root, ops, st)
    i = c.run("__main__.parse_component_arg", opaque=LOOKUPS, types=st)
    for e in [e for e in i.events if e.kind == "call" and e.name == "repo:storage.parse_storage_component"]:
        reported(c, i, e)
    i = c.run("__main__.command_export", opaque=LOOKUPS, types=st)
    for e in [e for e in i.events if e.kind == "call" and e.name == "repo:storage.Storage.patch"]:
        v = e.args[1]
        given = mk("attr", mk("param", "args"), "patch")
        if not tm.mentions(v, lambda x: x is given):
            reported(c, i, e)
            continue
        lat = assume(v, {cmp("==", given, const("latest")): True})
        reported(c, i, e)
        r.ob(lat is NONE, "'latest' asks for the latest patch", e.where(), text(v))


def reported(c, i, e):
    """A lookup on the command line that finds nothing ends with an error message."""
    x = strip_uid(e.result)
    isn = cmp("is", x, NONE)
    noexc = lambda g: subst_atoms(strip_uid(g), lambda a: FALSE if a.op == "exc" else None)
    stop = noexc(bor(*[z.guard for z in i.events if z.kind == "raise" and z.seq > e.seq]))
    g = band(noexc(e.guard), isn, bnot(truth(x)))
    ats = [a for a in tm.atoms(stop) if a.op == "isinst" and a.args[0] is x]
    stop = assume(stop, {a: False for a in ats})
    c.r.ob(tm.entails(g, stop), "a failed lookup is reported", e.where(), f"stops only if {text(stop)[:400]}")


def outside(t):
    """Subterms evaluated where the term is: not those inside collections or conditions."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x.op in ("build", "any", "all", "ite", "closure", "entry"):
            continue
        todo += [y for y in x.args if isinstance(y, T)]
    return out


def deref(c, root, ops, types):
    r = c.r
    f = c.prog.func(root)
    i = c.run(f, root, opaque=ops, types=types)
    n, bad = 0, set()
    for e in i.events:
        if e.func is not f or e.kind not in ("enter", "mcall", "call", "iter", "setattr", "new"):
            continue
        used = []
        if e.recv is not None and e.kind in ("mcall", "setattr"):
            used.append(e.recv)
        if e.kind == "enter" and e.args and e.name.count(".") > 1 and not e.name.endswith(".__init__"):
            used.append(e.args[0])
        if e.kind == "iter":
            used += [l.args[0] for l in e.loops]
        hit = [t for t in used if found(t)]
        for t in used + [a for a in list(e.args) + list((e.kw or {}).values()) if isinstance(a, T)]:
            hit += [x.args[0] for x in outside(t) if x.op in ("attr", "mcall") and isinstance(x.args[0], T) and found(x.args[0])]
        g = strip_uid(e.guard)
        for x in set(hit):
            n += 1
            y = strip_uid(x)
            isn = cmp("is", y, NONE)
            h = band(g, *[bor(bnot(a), bnot(isn)) for a in tm.atoms(g) if a.op == "isinst" and a.args[0] is y])
            if tm.entails(h, bnot(isn)) or tm.entails(h, truth(y)) or (e.loc, y) in bad:
                continue
            bad.add((e.loc, y))
            r.bad("a failed lookup is reported", e.where(), f"{text(y)[:200]} may be None here: {text(g)[-300:]}")
    if n and not bad:
        r.ok("a failed lookup is reported", root, f"{n} uses")
