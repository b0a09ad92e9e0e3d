"""C06: bundles first, complete and only once; only complete files are skipped."""
import ast
from vfa.q import *
from checks.c01 import falls_through, dead

RULE = """Downloading a release element (helpers inlined): every extraction event must come after the bundle downloads, which
must be waited for with their errors not swallowed; for an arbitrary file of the (same) selection, the condition under
which it is extracted must imply the condition under which the bundle of each of its chunks is downloaded, and must
be equivalent to: not a link and (overwriting or not already extracted). Already extracted means isfile(path) and
size equal to the manifest's, for the path that is then extracted. The downloaded identifiers must form a set.
The same implication holds for the single file used to find the patch version."""

OP = {"patcher.PatcherStorage.download_bundle", "patcher.PatcherStorage.extract_file", "patcher.PatcherManifest.filter_files", "patcher.PatcherReleaseElement.manif"}


def gen(t, coll, memo=None):
    """Replace elements of `coll` by a placeholder."""
    ph = mk("param", "<file>")
    ck = strip_uid(norm(coll))
    return tm.rewrite(norm(t), lambda x: ph if x.op == "elem" and strip_uid(norm(x.args[0])) is ck else x)


def elems(t):
    return [x for x in subterms(t) if x.op == "elem"]


def check(c):
    element(c)
    single(c)
    version_file(c)
    ids(c)


def pools(i, d):
    return [e for e in i.events if e.kind == "mcall" and str(e.name).startswith("pool.") and e.seq < d.seq][-1:]


def complete(path, f):
    return band(truth(mk("call", "os.path.isfile", path)), cmp("==", mk("call", "os.path.getsize", path), mk("attr", f, "size")))


def swallowed(i, d):
    for info in handlers_of(i, d):
        for k, ns in enumerate(info.handlers):
            if not dead(info, k) and tm.satisfiable(falls_through(i, info, k)):
                return f"{ns} handled at {info.module.rel}:{getattr(info.node, 'lineno', '?')}"
    return None


def waited(c, i, d):
    """Is the download synchronous, or waited for with its errors raised?"""
    pl = pools(i, d)
    if not pl:
        return True, ""
    e = pl[0]
    m = e.name.split(".", 1)[1]
    if m in ("map", "starmap") and "Executor" not in text(e.recv):
        return True, ""
    if m in ("map", "imap", "imap_unordered"):
        return value_used(e), f"{m}: the results are never read, so errors are lost and nothing is waited for"
    for x in i.events:
        if x.seq > e.seq and x.kind == "mcall" and x.name in ("get", "result") and x.recv is not None:
            if tm.mentions(x.recv, lambda y: is_call(y, "pool.async")):
                return True, ""
    return False, f"{m}: the results are never read, so errors are lost"


def value_used(e):
    """Is the value of the call used by its statement?"""
    for n in ast.walk(e.module.tree):
        if isinstance(n, ast.Expr) and n.value is e.node:
            return False
    return True


def element(c):
    r = c.r
    root = "patcher.PatcherPatchElement.download"
    i = c.run(root, opaque=OP)
    D = [e for e in i.events if e.kind == "call" and e.name == "repo:patcher.PatcherStorage.download_bundle"]
    X = [e for e in i.events if e.kind == "call" and e.name == "repo:patcher.PatcherStorage.extract_file"]
    if not X:
        r.bad("downloading an element extracts its files", root)
        return
    if not D:
        mapped = [e for e in i.events if "download_bundle" in " ".join(text(a) for a in e.args)]
        (r.und if mapped else r.bad)("downloading an element fetches its bundles", (mapped or X)[0].where())
        return
    for d in D:
        ok, why = waited(c, i, d)
        r.ob(ok, "bundle downloads are waited for and their errors raised", d.where(), why)
        sw = swallowed(i, d)
        r.ob(sw is None, "a failed bundle download prevents extraction", d.where(), sw or "")
        distinct(c, i, d)
    for x in X:
        r.ob(all(d.seq < x.seq for d in D), "bundles are fetched before files are extracted", x.where())
        f = x.args[1]
        if f.op != "elem":
            r.und("extracted file", x.where(), text(f))
            continue
        coll = f.args[0]
        gx = gen(x.guard, coll)
        ph = mk("param", "<file>")
        path = gen(x.args[2], coll)
        want = band(bnot(truth(mk("attr", ph, "link"))), bnot(complete(path, ph)))
        r.ob(tm.equiv(gx, norm(want)), "a file is extracted unless it is a link or already complete", x.where(), text(gx))
        lang = mk("param", "langs")
        r.ob(selection(coll, lang), "files selected by the requested languages", x.where(), text(coll))
        hit, why = None, "the identifiers do not come from the selected files"
        for d in D:
            b = d.args[1]
            fs = [y for y in elems(b) if same(y.args[0], coll)]
            if not fs:
                others = [y for y in elems(b) if repo_call(y.args[0], "filter_files")]
                if others:
                    why = f"bundles of {text(others[0].args[0])} instead of {text(coll)}"
                continue
            y = fs[0]
            chunk = mk("elem", mk("attr", y, "chunks"), 0)
            want = mk("attr", mk("attr", chunk, "bundle"), "bundle_id")
            if tm.rewrite(canon(b), noidx) is not tm.rewrite(want, noidx):
                why = f"downloads {text(b)}"
                continue
            gd = gen(d.guard, coll)
            hit = tm.entails(gx, gd)
            why = f"extracted if {text(gx)}, downloaded if {text(gd)}"
            if any(tm.mentions(l, lambda z: z.op == "slice") for l in d.loops):
                hit, why = False, "only a part of the chunks or files"
        r.ob(bool(hit), "the bundles of all chunks of an extracted file are fetched", x.where(), why)


def noidx(x):
    return mk("elem", x.args[0]) if x.op == "elem" else x


def selection(coll, lang):
    for y in subterms(coll):
        if repo_call(y, "filter_files"):
            return any(a is lang for a in y.args)
    return None


def distinct(c, i, d):
    r = c.r
    pl = pools(i, d)
    if not pl:
        ok = any(l.op == "loop" and "viaset" in [text(a) if isinstance(a, T) else str(a) for a in l.args[2:]] or tm.mentions(l, lambda y: y.op == "build" and y.args[0] == "set") for l in d.loops)
        r.ob(True, "no bundle is worked on twice at the same time", d.where(), "sequential")
        return
    coll = next((a for a in pl[0].args[1:] if isinstance(a, T) and a.op not in ("const",)), None)
    while coll is not None and (coll.op in ("sorted", "rev") or is_call(coll, "list", "tuple", "sorted", "iter")):
        coll = coll.args[0] if isinstance(coll.args[0], T) else coll.args[1]
    if coll is None:
        r.und("no bundle is worked on twice", d.where())
    elif coll.op == "build" and coll.args[0] in ("set", "dict") or coll.op in ("set", "keys") or is_call(coll, "set", "frozenset", "dict.fromkeys"):
        r.ok("no bundle is worked on twice at the same time", d.where())
    elif coll.op in ("build", "list"):
        r.bad("no bundle is worked on twice at the same time", d.where(), f"the identifiers are not deduplicated: {text(coll)[:200]}")
    else:
        r.und("no bundle is worked on twice", d.where(), text(coll)[:200])


def single(c):
    r = c.r
    f = c.prog.func("patcher.PatcherReleaseElement.extract_file")
    i = c.run(f, "patcher.PatcherReleaseElement.extract_file", opaque=OP)
    X = [e for e in i.events if e.kind == "call" and e.name == "repo:patcher.PatcherStorage.extract_file"]
    F, O = (mk("param", a.arg) for a in f.node.args.args[1:3])
    if not X:
        r.bad("extract_file extracts the file", f.qual)
    for x in X:
        path = norm(x.args[2])
        want = bor(truth(O), bnot(complete(path, F)))
        r.ob(x.args[1] is F and tm.equiv(norm(x.guard), norm(want)), "skipped only if complete and not overwriting", x.where(), text(x.guard))
    g = c.prog.func("patcher.PatcherReleaseElement.is_extracted_file")
    j = c.run(g, "patcher.PatcherReleaseElement.is_extracted_file")
    F = mk("param", g.node.args.args[1].arg)
    k = c.run("patcher.PatcherReleaseElement.extract_path", args={"file": F} if "file" in [a.arg for a in c.prog.func("patcher.PatcherReleaseElement.extract_path").node.args.args] else None)
    got = norm(truth(j.result))
    r.ob(tm.equiv(got, norm(complete(norm(k.result), F))), "already extracted means: a file of exactly the manifest's size", g.qual, text(got))


def version_file(c):
    r = c.r
    root = "patcher.PatcherReleaseElement._retrieve_patch_version"
    i = c.run(root, opaque=OP)
    D = [e for e in i.events if e.kind == "call" and e.name == "repo:patcher.PatcherStorage.download_bundle"]
    X = [e for e in i.events if e.kind == "call" and e.name == "repo:patcher.PatcherStorage.extract_file"]
    for x in X:
        f = x.args[1]
        gx = norm(x.guard)
        ok, why = False, "no bundle downloaded before"
        for d in D:
            if d.seq > x.seq:
                continue
            want = mk("attr", mk("attr", mk("elem", mk("attr", f, "chunks"), 0), "bundle"), "bundle_id")
            if strip_uid(norm(tm.rewrite(canon(d.args[1]), noidx))) is not strip_uid(norm(tm.rewrite(want, noidx))):
                why = text(d.args[1])
                continue
            if tm.entails(gx, norm(d.guard)) and swallowed(i, d) is None:
                ok = True
            else:
                why = f"downloaded only if {text(d.guard)}"
        r.ob(ok, "the bundles of the version file are fetched before it is extracted", x.where(), why)


def ids(c):
    """Without skipping, bundle_ids covers every file that can be extracted."""
    r = c.r
    g = c.prog.func("patcher.PatcherReleaseElement.bundle_ids")
    names = [a.arg for a in g.node.args.args]
    if "skip_extracted" not in names:
        r.und("bundle_ids parameters", g.qual)
        return
    i = c.run(g, "bundle_ids(skip_extracted=False)", args={"skip_extracted": FALSE}, opaque=OP)
    es = tm.entries_of(i.result)
    if es is None or len(es) != 1:
        r.und("bundle identifiers", g.qual, text(i.result)[:200])
        return
    e = es[0]
    fs = [y for y in elems(e.args[2]) if repo_call(y.args[0], "filter_files")]
    if not fs:
        r.und("bundle identifiers", g.qual, text(i.result)[:200])
        return
    coll = fs[0].args[0]
    gd = gen(e.args[1], coll)
    nl = bnot(truth(mk("attr", mk("param", "<file>"), "link")))
    r.ob(tm.entails(nl, gd), "all files are covered when extracted files are not skipped", g.qual, text(gd))
