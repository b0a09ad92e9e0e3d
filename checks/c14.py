"""C14: the cached patch version never hides or invents a version."""
from vfa.q import *
from vfa.sim import Sim, Obj
from checks.c01 import check_open

RULE = """The patch version of a release element and of a solution version are analysed with their helpers inlined, the retrieval from the game files being one opaque value. Obligations:
the file written is the file read, and no two builds have the same; what is written is the text of the retrieved version (followed by white space only), under a condition that entails
that this version is not None; the write removes what it leaves behind when it fails; the retrieval is reached only when the cache is not there (and not for
the PBE); the value returned is the PBE version when the storage is the PBE, whatever the cache holds, the version made from the stripped content of the cache if the cache exists (None only if empty), and
else the retrieved version."""

SITES = (("patcher.PatcherReleaseElement", "_retrieve_patch_version"), ("rads.RadsSolutionVersion", "_retrieve_patch_version"))
VER = "storage.PatchVersion.__init__"
SLOW = {"patcher.PatcherReleaseElement.manif", "patcher.PatcherReleaseElement.extract_file", "patcher.PatcherReleaseElement.is_extracted_file", "storage.get_system_yaml_version",
        "storage.get_content_metadata_version", "storage.get_exe_version", "rads.RadsProjectVersion.extract", "rads.RadsProjectVersion.filepaths",
        "rads.RadsSolutionVersion.projects", "patcher.PatcherStorage.download_bundle"}


def is_pbe(a):
    """A test that the storage is the PBE one."""
    return a.op == "==" and any(is_const(x) and isinstance(x.args[0], str) and x.args[0].rstrip("/").split("/")[-1].lower() == "pbe" for x in a.args)


def text_of(v, i):
    """What a text is the text of (ignoring white space around it)."""
    v = strip_epoch(v)
    ps = [p for p in pieces(v) if not (is_const(p) and isinstance(p.args[0], str) and not p.args[0].strip())]
    if len(ps) != 1:
        return None
    x = ps[0]
    while x.op == "cat" and len(x.args) == 1 or x.op == "attr" and x.args[1] == "s" or x.op == "call" and x.args[0] == "str":
        x = x.args[0] if x.op != "call" else x.args[1]
    return x


def version_of(v):
    """What a PatchVersion object is made from."""
    if v.op == "obj" and v.args[0] == "PatchVersion":
        a = [x for x in v.args[1:] if not (isinstance(x, T) and x.op == "uid") and not isinstance(x, int)]
        return a[0] if a else None
    return None


def own_cache(c, i, cls, meth, cache, where):
    """No two builds of a storage have the same cache."""
    st = Obj("storage", path="S", url="http://h/x/", patchline="live")
    sv = {"patcher.PatcherReleaseElement": [dict(name=n, manif_url=f"{n}{v}", release=Obj("release", version=v, storage=st, storage_dir=f"S/releases/{v}", data={})) for v in (1, 2, 11) for n in ("game", "client")],
          "rads.RadsSolutionVersion": [dict(path=f"solutions/{n}/releases/{v}", version=v, solution=Obj("solution", name=n, path=f"solutions/{n}/releases", storage=st)) for v in ("0.0.0.1", "0.0.0.10", "0.0.0.11") for n in ("a_sln", "b_sln")]}[cls]
    paths = []
    for at in sv:
        def world(sim, x, nothing):
            if x.op == "attr" and x.args[0] is mk("param", "self"):
                return at.get(x.args[1], nothing)
            if x.op == "call" and str(x.args[0]).endswith(".fspath"):
                return "S/" + str([sim.value(y) for y in x.args[1:] if y.op not in ("uid", "epoch")][-1])
            if x.op == "mcall" and x.args[1] == "fspath":
                return "S/" + sim.value(x.args[2])
            return nothing
        try:
            paths.append(Sim(i, world).value(strip_epoch(cache)))
        except (Unknown, Fails, TypeError, AttributeError):
            c.r.und("every build has a cache of its own", where, text(cache)[:100])
            return
    bad = next((p for n, p in enumerate(paths) if p in paths[:n]), None)
    c.r.ob(bad is None, "every build has a cache of its own", where, f"{bad} is that of several" if bad else f"{len(paths)} paths")


def site(c, cls, meth):
    r = c.r
    q = f"{cls}.patch_version"
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    ret = f"{cls}.{meth}"
    known = any(x.qual == "cdtb." + ret for x in c.prog.funcs.values())
    i = c.run(q, opaque={ret, VER} if known else SLOW | {VER})
    wr = write_opens(i)
    rd = [e for e in i.events if e.kind == "call" and e.name in ("open", "io.open") and not is_write_open(e)]
    if known:
        rs = [e for e in i.events if e.kind == "call" and e.name == "repo:" + ret]
        if not rs:
            r.und("the version is retrieved", w)
            return
        V = rs[0].result
        if any(e.result is not V and strip_uid(e.result) is not strip_uid(V) for e in rs):
            r.und("the version is retrieved once", w)
            return
    else:
        rs, V = [], None
    isV = (lambda x: V is not None and strip_uid(strip_epoch(x)) is strip_uid(strip_epoch(V)))
    if not wr:
        r.ok("nothing is cached", w)
        cache = None
    else:
        cache = wr[0].args[0]
        own_cache(c, i, cls, meth, cache, wr[0].where())
    # ---- written
    for e in wr:
        check_open(c, i, e, q, e.arg(0, "file"))
        ws = [x for x in written(i, e.result)]
        if not ws:
            ws = [((), x.guard, x.args[0], x) for x in i.events if x.kind == "call" and x.name == "print" and "file" in x.kw and strip_epoch(x.kw["file"]) is strip_epoch(e.result)]
        if not ws:
            r.bad("the version retrieved is written to the cache", e.where(), "nothing written")
        r.ob(all(same(e.args[0], x.args[0]) for x in rd) if rd else False, "the cache written is the one read", e.where(), text(e.args[0]))
        v0 = None
        for _, g, v, x in ws:
            if not pieces(v) or all(is_const(p) and not str(p.args[0]).strip() for p in pieces(v)):
                continue
            t = text_of(v, i)
            v0 = t
            if V is None:
                r.und("the version retrieved is written to the cache", x.where(), text(v))
                continue
            if t is None or not isV(t):
                # conditional on something?
                r.ob(False, "the version retrieved is written to the cache", x.where(), text(v)) if t is None or not any(isV(s) for s in subterms(t)) or is_const(t) else r.und("the version retrieved is written to the cache", x.where(), text(v))
                continue
            r.ok("the version retrieved is written to the cache", x.where())
        if V is not None:
            none = cmp("is", strip_epoch(V), NONE)
            g = e.guard
            ok = tm.entails(g, bnot(none)) or tm.entails(g, truth(strip_epoch(V))) or entails_cases(g, bnot(none))
            r.ob(ok, "an unknown version is not cached", e.where(), text(g)[-200:])
    # ---- retrieved only when needed
    res = i.result
    ats = list(dict.fromkeys(ite_atoms(res) + [a for e in rs + wr for a in tm.atoms(e.guard)]))
    pbe = [a for a in ats if is_pbe(a)]
    if not pbe:
        r.bad("the PBE always has the PBE version", w, "no test of the storage")
    ex = [a for a in ats if exists_test(a)]
    notpbe = {a: False for a in pbe}
    for m, note in (({a: True for a in pbe}, "pbe"),):
        if not pbe:
            break
        v = assume(res, m)
        good = version_of(v) is not None and is_const(version_of(v), "main")
        if not good and tm.mentions(v, lambda x: x.op == "ite"):
            good = all(version_of(l) is not None and is_const(version_of(l), "main") for g, l in tm.cases(v) if tm.satisfiable(g))
        r.ob(good, "the PBE always has the PBE version", w, text(v)[:200])
        for e in rs + wr:
            r.ob(not tm.satisfiable(assume(e.guard, m)), "nothing is retrieved or cached for the PBE", e.where(), text(e.guard)[-200:])
    if wr:
        if not ex:
            r.bad("an existing cache is used", w, "no test of the cache")
            return
        for a in ex:
            p = exists_path(a)
            r.ob(same(p, cache), "the test is on the cache", w, text(a))
        yes = {**notpbe, **{a: True for a in ex}}
        no = {**notpbe, **{a: False for a in ex}}
        for e in rs:
            r.ob(not tm.satisfiable(assume(e.guard, yes)), "an existing cache is used", e.where(), "retrieved again")
        v = assume(res, yes)
        for g, l in tm.cases(v):
            if not tm.satisfiable(g):
                continue
            s = version_of(l)
            if s is not None:
                ok = reading(s, rd)
                (r.ob(ok, "the version cached is the version returned", w, text(s)[:200]) if ok or is_const(s) or s.op in ("slice", "index") or not any(tm.mentions(s, lambda x: x is strip_epoch(o.result) or x is norm(o.result)) for o in rd) else r.und("the version cached is the version returned", w, text(s)[:200]))
            elif is_const(l, None):
                # only when there is no content
                ok = all(tm.entails(g, bnot(truth(x))) or entails_cases(g, bnot(truth(x))) for x in contents(g, rd)[:1]) and bool(contents(g, rd))
                r.ob(ok, "a cached version is not hidden", w, text(g)[:200])
            else:
                r.ob(not isV(l), "an existing cache is used", w, text(l)[:100]) if isV(l) else r.und("the version cached is the version returned", w, text(l)[:200])
        v = assume(res, no)
        if V is not None:
            by = [(g, l) for g, l in tm.cases(v) if tm.satisfiable(g)]
            none = cmp("is", strip_epoch(V), NONE)
            for g, l in by:
                ok = isV(l) or is_const(l, None) and (tm.entails(g, none) or entails_cases(g, none))
                r.ob(ok, "without cache the retrieved version is returned", w, text(l)[:200])


def exists_test(a):
    return exists_path(a) is not None


def exists_path(a):
    x = a.args[0] if a.op == "truthy" else a
    if isinstance(x, T) and x.op == "call" and x.args[0] in ("os.path.isfile", "os.path.exists", "os.path.lexists"):
        return x.args[1]
    if isinstance(x, T) and x.op == "mcall" and x.args[1] in ("is_file", "exists"):
        return x.args[0]
    if a.op == "exc" and any("FileNotFound" in str(z) or "OSError" in str(z) for z in a.args):
        return None
    return None


def contents(g, rd):
    """Texts read from the cache that a condition tests."""
    out = []
    for a in tm.atoms(g):
        x = a.args[0] if a.op == "truthy" else None
        if x is not None and reading(x, rd):
            out.append(x)
    return out


def reading(s, rd):
    """Is it the whole content of the file, but for the white space around it?"""
    s = strip_epoch(s)
    for _ in range(6):
        if s.op == "mcall" and s.args[1] in ("strip", "rstrip") and all(not isinstance(x, T) or x.op == "uid" or is_const(x, "\n") for x in s.args[2:]):
            s = s.args[0]
        elif s.op == "mcall" and s.args[1] in ("read", "readline") and all(not isinstance(x, T) or x.op == "uid" for x in s.args[2:]):
            return any(strip_epoch(s.args[0]) is strip_epoch(o.result) for o in rd)
        else:
            return False
    return False


def check(c):
    for cls, m in SITES:
        c.part(lambda c: site(c, cls, m))
