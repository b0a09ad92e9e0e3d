"""C08: the listings of disk paths, of export paths and of pairs agree."""
from vfa.q import *
from checks.c06 import OP

RULE = """For both patch element classes, the three listings (generators and helpers inlined, their results collected) are
reduced to one formula each: the walk they make, the files they keep and the value they list. The walk and the files kept
must be the same for the three, the pair must be made of exactly the values of the two others, the walk must depend on
the languages given, and the export path must be lower-cased. The disk path listed must be the path given to the
extraction function by download (patcher), or the storage path of the key under which package files are indexed,
which must be the attribute extraction writes to (RADS)."""

CASES = (("patcher.PatcherPatchElement", {"patcher.PatcherManifest.filter_files", "patcher.PatcherReleaseElement.manif"}),
         ("rads.RadsPatchElement", {"rads.RadsSolutionVersion.filepaths"}))


def lowered(t):
    """Is the text certainly in lower case?"""
    if t.op == "mcall":
        if t.args[1] in ("lower", "casefold"):
            return True
        if t.args[1] in ("split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace"):
            return lowered(t.args[0]) and all(lowered(a) for a in t.args[2:] if t.args[1] == "replace" and isinstance(a, T))
        return False
    if t.op == "const":
        return isinstance(t.args[0], str) and t.args[0] == t.args[0].lower()
    if t.op in ("cat", "join"):
        return all(lowered(a) for a in t.args if isinstance(a, T))
    if t.op in ("index", "slice", "unp", "fld"):
        return lowered(t.args[0])
    if t.op == "ite":
        return lowered(t.args[1]) and lowered(t.args[2])
    if t.op == "call" and t.args[0] in ("os.path.normpath", "os.path.join", "posixpath.join", "str", "os.fspath", "os.path.relpath"):
        return all(lowered(a) for a in t.args[1:] if isinstance(a, T))
    return False


def nolower(t):
    return tm.rewrite(norm(t), lambda x: x.args[0] if x.op == "mcall" and x.args[1] == "lower" else x)


def single(i):
    """The one formula of a collected listing: (loops, guard, value)."""
    es = tm.entries_of(i.result)
    if not es:
        return None
    if len(es) > 1:
        # alternatives under exclusive conditions are not merged
        return None
    e = es[0]
    return tuple(strip_epoch(canon(l)) for l in e.args[0].args), strip_epoch(e.args[1]), strip_epoch(canon(e.args[2]))


def check(c):
    for cls, op in CASES:
        c.part(listings, cls, op)
    c.part(base)
    c.part(patcher_disk)
    c.part(rads_disk)


def listings(c, cls, op):
    r = c.r
    k = c.prog.cls(cls)
    got = {}
    for m in ("fspaths", "relpaths", "paths"):
        f = k.method(m)
        if f is None:
            r.und("listing", f"{cls}.{m}")
            return
        i = c.run(f, f"{cls}.{m}", opaque=op, collect=True, self_type=k)
        got[m] = single(i), f, i.result
    w = lambda m: f"{got[m][1].module.rel}:{got[m][1].node.lineno} {cls}.{m}"
    for m in ("fspaths", "relpaths"):
        if got[m][0] is None:
            r.und("listing", w(m), text(got[m][2])[:300])
            return
    F, R, P = (got[m][0] for m in ("fspaths", "relpaths", "paths"))
    one = lambda a, b: len(a[0]) == len(b[0]) and all(same(x, y) for x, y in zip(a[0], b[0]))
    r.ob(one(F, R) and tm.equiv(norm(F[1]), norm(R[1])), "disk and export paths list the same files in the same order", w("relpaths"),
         f"{[text(x) for x in F[0]]} if {text(F[1])} / {[text(x) for x in R[0]]} if {text(R[1])}")
    r.ob(lowered(R[2]), "export paths are lower-cased", w("relpaths"), text(R[2]))
    for x, m in ((F, "fspaths"), (R, "relpaths")):
        r.ob(any(tm.mentions(l, lambda y: y.op == "param" and y.args[0] == "langs") for l in x[0]) or tm.mentions(x[1], lambda y: y.op == "param" and y.args[0] == "langs"),
             "the files listed depend on the languages", w(m), str([text(x) for x in x[0]]))
    if P is None:
        z = zipped(got["paths"][2], got["fspaths"][2], got["relpaths"][2])
        r.ob(z, "pairs are the zipped listings", w("paths"), text(got["paths"][2])[:300])
        return
    z = P[0][0].args[0] if len(P[0]) == 1 and P[0][0].args[0].op == "zip" else None
    if z is not None:
        v = P[2]
        good = v.op in ("tuple", "list") and [x.op == "zelem" and x.args[0] is z and x.args[2] for x in v.args] == [0, 1] or v.op == "elem" and v.args[0] is z
        r.ob(bool(good) and zipped(z, got["fspaths"][2], got["relpaths"][2]) and tm.equiv(P[1], TRUE), "pairs are the zipped listings", w("paths"), text(got["paths"][2])[:300])
        return
    r.ob(one(F, P) and tm.equiv(norm(F[1]), norm(P[1])), "pairs list the same files in the same order", w("paths"),
         f"{[text(x) for x in P[0]]} if {text(P[1])}")
    v = P[2]
    if v.op not in ("tuple", "list") or len(v.args) != 2:
        if v.op == "zelem":
            r.ob(zipped(v, got["fspaths"][2], got["relpaths"][2]), "pairs are the zipped listings", w("paths"), text(v)[:300])
            return
        r.und("pairs", w("paths"), text(v)[:300])
        return
    r.ob(same_cases(v.args[0], F[2]), "the disk path of a pair is the one listed", w("paths"), f"{text(v.args[0])} / {text(F[2])}")
    r.ob(same_cases(nolower(v.args[1]), nolower(R[2])) and lowered(v.args[1]), "the export path of a pair is the one listed", w("paths"), f"{text(v.args[1])} / {text(R[2])}")


def zipped(t, a, b):
    """Is the term the zip of two listings?"""
    if t.op == "zip" and len(t.args) >= 2:
        return listing_is(t.args[0], a, "fspaths") and listing_is(t.args[1], b, "relpaths")
    es = tm.entries_of(t)
    if es is not None and len(es) == 1:
        return zipped(es[0].args[2], a, b)
    return None


def listing_is(x, want, name):
    if same(x, want):
        return True
    if x.op == "mcall" and x.args[1] == name or repo_call(x, name):
        return [a.args[1] if a.op == "kw" else a for a in x.args[2:] if isinstance(a, T) and a.op != "uid"] == [mk("param", "langs")]
    return False


def base(c):
    r = c.r
    f = c.prog.func("storage.PatchElement.paths")
    i = c.run(f, "storage.PatchElement.paths", collect=True, opaque={"storage.PatchElement.fspaths", "storage.PatchElement.relpaths"})
    cs = [e for e in i.events if e.name.split(".")[-1] in ("fspaths", "relpaths")]
    names = {e.name.split(".")[-1] for e in cs}
    if names != {"fspaths", "relpaths"}:
        r.und("default pairs", f.qual, text(i.result)[:200])
        return
    langs = mk("param", "langs")
    for e in cs:
        a = [x for x in list(e.args) + list((e.kw or {}).values()) if x is not mk("param", "self")]
        r.ob(a == [langs], "default pairs use the requested languages", e.where(), str([text(x) for x in a]))


def patcher_disk(c):
    r = c.r
    k = c.prog.cls("patcher.PatcherPatchElement")
    i = c.run(k.method("fspaths"), "PatcherPatchElement.fspaths", opaque=OP, collect=True, self_type=k)
    F = single(i)
    d = c.run("patcher.PatcherPatchElement.download", opaque=OP)
    X = [e for e in d.events if e.kind == "call" and e.name == "repo:patcher.PatcherStorage.extract_file"]
    if F is None or not X:
        r.und("extraction path", "patcher.PatcherPatchElement.download")
        return
    ph = mk("param", "<file>")
    g = lambda t: tm.rewrite(norm(t), lambda x: ph if x.op == "elem" and repo_call(x.args[0], "filter_files") else x)
    for e in X:
        out = e.args[2]
        r.ob(same(g(out), g(F[2])), "files are extracted where they are listed", e.where(), f"{text(g(out))} / {text(g(F[2]))}")


def rads_disk(c):
    r = c.r
    op = {"rads.RadsProjectVersion._get_package_files"}
    f = c.prog.func("rads.RadsProjectVersion.extract")
    i = c.run(f, "rads.RadsProjectVersion.extract", opaque=op)
    attr = None
    for e in write_opens(i):
        path = norm(e.arg(0, "file"))
        vs = [x for x in pieces(path) if x.op == "attr"]
        last = vs[-1] if vs else None
        good = len(pieces(path)) == 3 and last is not None and pieces(path)[0].op == "attr" and pieces(path)[0].args[1] == "path" and is_const(pieces(path)[1], "/")
        if not good:
            r.bad("files are extracted to the storage path of their extraction path", e.where(), text(path))
            continue
        attr = last.args[1]
        r.ok("files are extracted to a storage path", e.where(), text(path))
    g = c.run("rads.RadsProjectVersion._get_package_files")
    bs = [x for x in subterms(g.result) if x.op == "build" and x.args[0] == "dict"]
    es = tm.entries_of(bs[0]) if bs else None
    if attr is None or not es or len(es) != 1:
        r.und("index of package files", "rads.RadsProjectVersion._get_package_files", text(g.result)[:200])
    else:
        key, val = es[0].args[3], es[0].args[2]
        at = new_attrs(g, val).get(attr) if val.op == "obj" else None
        good = at is not None and same_cases(at, key) or same(mk("attr", val, attr), key)
        r.ob(good, "package files are indexed by the path they are extracted to", "rads.RadsProjectVersion._get_package_files", f"{text(key)[:200]} / {text(val)[:200]}.{attr}")
    k = c.prog.cls("rads.RadsPatchElement")
    h = c.run(k.method("fspaths"), "RadsPatchElement.fspaths", opaque={"rads.RadsSolutionVersion.filepaths"}, collect=True, self_type=k)
    F = single(h)
    if F is None:
        r.und("RADS disk paths", "rads.RadsPatchElement.fspaths")
        return
    ps = pieces(F[2])
    good = len(ps) == 3 and ps[0].op == "attr" and ps[0].args[1] == "path" and is_const(ps[1], "/") and ps[2].op == "elem"
    r.ob(good, "RADS disk paths are the storage paths of the extraction paths", "rads.RadsPatchElement.fspaths", text(F[2]))
    h = c.run("rads.RadsSolutionVersion.filepaths", opaque=op | {"rads.RadsSolutionVersion.projects"}, collect=True)
    es = tm.entries_of(h.result)
    if es is None or len(es) != 1:
        r.und("RADS file paths", "rads.RadsSolutionVersion.filepaths", text(h.result)[:200])
        return
    v = es[0].args[2]
    r.ob(v.op == "key" and repo_call(v.args[0], "_get_package_files") and tm.equiv(es[0].args[1], TRUE), "RADS listings contain the extraction path of every file", "rads.RadsSolutionVersion.filepaths", text(v))
