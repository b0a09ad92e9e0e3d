"""C12: working on stored data discovers nothing new."""
from vfa.q import *
from vfa import cli

RULE = """The patch listing of each storage type is analysed once with the restriction to stored data and once without. With it, no request
may be reached other than the ones that retrieve a patch version's own files, neither the fetch of the latest release nor a release listing nor a write of
release information; without it, fetching the latest release (or the release listing of every solution) is unconditional and precedes the listing. Every lookup
built on the listing (patches, patch, patch_element, component parsing, the version listing, the previous patch of an export, exporting a directory) must hand
on the restriction it was given: the value passed for `stored` must be equivalent to the parameter, option or condition it stands for."""

NET = {"storage.Storage.download", "storage.Storage.request_get", "storage.Storage.request_text", "storage.Storage.stream"}
PE = {"storage.Storage.patch_elements", "patcher.PatcherStorage.patch_elements", "rads.RadsStorage.patch_elements"}
LOOK = {"storage.Storage.patches", "storage.Storage.patch", "storage.Storage.patch_element"}
LATEST = {"patcher.PatcherStorage.fetch_latest_update"}
HTTP = {"get", "post", "head", "request", "put"}


def network(i):
    """Requests: of the session, of the requests module or through the storage."""
    out = []
    for e in i.events:
        if e.kind == "call" and e.name.startswith("repo:") and e.name[5:] in NET:
            out.append(e)
        elif e.kind == "call" and e.name.startswith(("requests.", "urllib.request.")) and e.name.rsplit(".", 1)[-1] in HTTP | {"urlopen", "urlretrieve"}:
            out.append(e)
        elif e.kind == "mcall" and e.name in HTTP and e.recv is not None and (e.recv.op == "attr" and e.recv.args[1] == "s" or "Session" in str(text(e.recv))):
            out.append(e)
    return out


def listing_patcher(c):
    r = c.r
    q = "patcher.PatcherStorage.patch_elements"
    ops = NET | {"patcher.PatcherReleaseElement.patch_version"}
    i = c.run(q, f"{q}(stored)", args={"stored": TRUE}, opaque=ops, collect=True)
    reached(c, q, i)
    j = c.run(q, f"{q}(not stored)", args={"stored": FALSE}, opaque=LATEST | {"patcher.PatcherStorage.iter_releases", "patcher.PatcherReleaseElement.patch_version"}, collect=True)
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    fe = [e for e in j.events if e.name == "repo:patcher.PatcherStorage.fetch_latest_update"]
    it = [e for e in j.events if e.name == "repo:patcher.PatcherStorage.iter_releases"]
    if not fe:
        k = c.run(q, f"{q}(not stored, inlined)", args={"stored": FALSE}, opaque=NET | {"patcher.PatcherReleaseElement.patch_version"}, collect=True)
        net = network(k)
        (r.und if net else r.bad)("the latest release is fetched when not restricted", w, "no call of fetch_latest_update")
        return
    r.ob(any(tm.equiv(e.guard, TRUE) and not e.loops for e in fe), "the latest release is fetched when not restricted", fe[0].where(), text(fe[0].guard))
    if it:
        r.ob(min(e.seq for e in fe) < min(e.seq for e in it), "the latest release is fetched before listing", fe[0].where())
    else:
        r.und("the latest release is fetched before listing", w)


def reached(c, q, i):
    r = c.r
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    bad = [e for e in network(i) if tm.satisfiable(e.guard)]
    r.ob(not bad, "no request when restricted to stored data", bad[0].where() if bad else w, text(bad[0].guard)[-200:] if bad else "")
    lk = [e for e in i.events if e.kind == "call" and e.name.startswith("repo:") and e.name[5:] in PE | LOOK | {"rads.RadsSolution.versions"}]
    for e in lk:
        v = arg_of(c, e)
        if v is None or not tm.entails(e.guard, truth(v)):
            r.ob(not (v is not None and tm.satisfiable(band(e.guard, bnot(truth(v))))), "no unrestricted lookup when restricted to stored data", e.where(), text(v) if v is not None else "")
    wr = [e for e in write_opens(i) if tm.satisfiable(e.guard)]
    r.ob(not wr, "nothing is written to the storage when restricted to stored data", wr[0].where() if wr else w, text(wr[0].args[0]) if wr else "")


def listing_rads(c):
    r = c.r
    q = "rads.RadsSolution.versions"
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, f"{q}(stored)", args={"stored": TRUE}, opaque=NET, collect=True)
    reached(c, q, i)
    j = c.run(q, f"{q}(not stored)", args={"stored": FALSE}, opaque=NET, collect=True)
    net = [e for e in network(j) if tm.equiv(e.guard, TRUE)]
    r.ob(bool(net), "the release listing is requested when not restricted", net[0].where() if net else w)
    q = "rads.RadsStorage.patch_elements"
    k = c.run(q, q, opaque=NET | {"rads.RadsSolution.versions", "rads.RadsSolutionVersion.patch_version"}, collect=True)
    given(c, k, q, {"rads.RadsSolution.versions"}, truth(mk("param", "stored")), 1)
    for e in network(k):
        r.ob(not tm.satisfiable(band(e.guard, truth(mk("param", "stored")))), "no request when restricted to stored data", e.where())


def arg_of(c, e, name="stored"):
    if name in e.kw:
        return e.kw[name]
    if e.kind in ("mcall", "vcall"):
        f = [f for f in c.prog.funcs.values() if f.node.name == e.name.rsplit(".", 1)[-1] and f.cls is not None and any(k.name == "Storage" for k in f.cls.mro())]
        n, args = 1, e.args
    else:
        short = e.name[5:] if e.name.startswith("repo:") else e.name
        f = [f for f in c.prog.funcs.values() if f.qual.split(".", 1)[1] == short]
        n, args = 0, e.args
    if not f:
        return None
    a = f[0].node.args
    names = [x.arg for x in a.args]
    if name not in names:
        return None
    k = names.index(name) - n
    if k < len(args):
        return args[k]
    d = k + n - (len(names) - len(a.defaults))
    import ast
    return const(a.defaults[d].value) if 0 <= d < len(a.defaults) and isinstance(a.defaults[d], ast.Constant) else None


def given(c, i, root, names, want, least=1, note="the restriction to stored data is handed on", pick=None):
    """Every lookup made passes a value for `stored` equivalent to `want`."""
    r = c.r
    f = c.prog.func(root)
    w = f"{f.module.rel}:{f.node.lineno} in {root}"
    short = {n.rsplit(".", 1)[1] for n in names}
    found = [e for e in i.events if e.kind == "call" and e.name.startswith("repo:") and e.name[5:] in names or e.kind in ("mcall", "vcall") and e.name.rsplit(".", 1)[-1] in short]
    if pick:
        found = [e for e in found if pick(e)]
    if len(found) < least:
        r.und(note, w, f"{len(found)} lookups")
    for e in found:
        v = arg_of(c, e)
        if v is None:
            r.und(note, e.where(), "value passed unknown")
            continue
        wt = want(e) if callable(want) else want
        if wt is None:
            r.und(note, e.where(), text(v))
            continue
        r.ob(tm.equiv(band(e.guard, truth(v)), band(e.guard, wt)) or equiv_cases(truth(v), wt, e.guard), f"{note}", e.where(), f"stored={text(v)}, expected {text(wt)}")


def handing(c):
    st = truth(mk("param", "stored"))
    i = c.run("storage.Storage.patches", opaque=PE | {"storage.Patch._create"}, collect=True)
    given(c, i, "storage.Storage.patches", PE, st)
    i = c.run("storage.Storage.patch", opaque=PE | LOOK)
    given(c, i, "storage.Storage.patch", {"storage.Storage.patches"}, st)
    i = c.run("storage.Storage.patch_element", opaque=PE | LOOK)
    given(c, i, "storage.Storage.patch_element", PE, st)


def component(c):
    q = "storage.parse_storage_component"
    i = c.run(q, opaque=PE | LOOK | {"storage.Patch.latest"})
    def want(e):
        v = e.kw.get("version") or (e.args[2] if len(e.args) > 2 else None)
        if e.kind == "mcall":
            v = e.kw.get("version") or (e.args[1] if len(e.args) > 1 else None)
        return bnot(cmp("is", v, NONE)) if v is not None else None
    given(c, i, q, {"storage.Storage.patch_element"}, want, note="an element with an explicit version is looked up in stored data only")


def commands(c):
    q = "__main__.command_versions"
    i = c.run(q, opaque=PE | LOOK)
    args = mk("param", c.prog.func(q).node.args.args[1].arg)
    given(c, i, q, {"storage.Storage.patches"}, truth(mk("attr", args, "stored")), note="the version listing uses the option given")
    option(c)
    q = "__main__.command_export"
    i = c.run(q, opaque=PE | LOOK | {f.qual.split(".", 1)[1] for f in c.prog.funcs.values() if f.qual.startswith("cdtb.export.")})
    args = mk("param", c.prog.func(q).node.args.args[1].arg)
    given(c, i, q, {"storage.Storage.patches", "storage.Storage.patch"}, TRUE, note="the previous patch is looked up in stored data only",
          pick=lambda e: previous(c, e, args))
    q = "export.CdragonRawPatchExporter.from_directory"
    i = c.run(q, opaque=PE | LOOK | {"export.CdragonRawPatchExporter.__init__"})
    given(c, i, q, {"storage.Storage.patches", "storage.Storage.patch"}, TRUE, note="exporting a directory uses stored data only")


def previous(c, e, args):
    """Not the lookup of the patch to export itself, which is the one made with args.patch."""
    v = arg_of(c, e, "version")
    if e.name.endswith("patches"):
        return True
    return v is None or not tm.mentions(v, lambda x: x is mk("attr", args, "patch"))


def option(c):
    """The version listing is restricted to stored data by default, one option lifts the restriction."""
    r = c.r
    m = cli.model(c)
    os = [o for o in m.options("versions") if o.dest == "stored"] if m else []
    if not os:
        r.und("the version listing is restricted by default", m.where.get("versions", "__main__.main") if m else "__main__.main")
        return
    r.ob(tm.equiv(truth(os[0].default), TRUE), "the version listing is restricted by default", os[0].e.where(), f"default {text(os[0].default)}")
    lift = [o for o in os if o.given() is not None and tm.equiv(truth(o.given()), FALSE)]
    r.ob(bool(lift), "an option lifts the restriction", os[0].e.where(), str([o.flags for o in os]))


def check(c):
    c.part(lambda c: listing_patcher(c))
    c.part(lambda c: listing_rads(c))
    c.part(lambda c: handing(c))
    c.part(lambda c: component(c))
    c.part(lambda c: commands(c))
