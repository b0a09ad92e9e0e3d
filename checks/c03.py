"""C03: what is requested, when, and where it is stored and read back."""
from vfa.q import *

RULE = """In Storage.download (helpers inlined) the value of the requested URL must be base URL + path, the value of
the written file name must be the storage path joined with the requested destination (the URL path by default),
the written data must be the response body, and the condition of the request must be equivalent to
`force or not isfile(destination)`, the write following whenever the request succeeded. Storage.stream and
request_text request the same URL. For manifests, bundles, package and solution manifests the opened file name
must be the same value as the destination of the download that precedes it (bundles: for equal identifiers), the download
must be attempted on every path to the reading, and the path returned by a download method is the stored one."""

VERBS = {"get", "request"}


def reqs(i):
    return [e for e in i.events if e.kind == "mcall" and e.name in VERBS and e.recv is not None and not e.recv.op == "param"
            and (e.recv.op == "attr" and e.recv.args[1] in ("s", "session", "_session") or is_call(e.recv, "requests.Session"))
            or e.kind == "call" and e.name in ("requests.get", "requests.request")]


def url_of(e):
    if e.name.split(".")[-1] == "request":
        return e.arg(1, "url")
    return e.arg(0, "url")


def body(t, R):
    """Is t the body of response R (or a part of it, in a loop over its parts)?"""
    t, r = strip_uid(t), strip_uid(R)
    if t.op == "attr" and t.args[0] is r:
        return t.args[1] == "content"
    if t.op == "elem":
        if tm.mentions(t.args[0], lambda y: y.op == "mcall" and "iter_content" in y.args and r in y.args):
            return True
    if tm.mentions(t, lambda y: y.op == "attr" and y.args[0] is r and y.args[1] in ("text", "headers", "url", "reason")):
        return False
    return None


def check(c):
    download(c)
    urls(c)
    readback(c)


def download(c):
    r = c.r
    i = c.run("storage.Storage.download")
    S, U, P, F = (mk("param", n) for n in ("self", "urlpath", "path", "force"))
    ps = [a.arg for a in c.prog.func("storage.Storage.download").node.args.args]
    if ps[:1] != ["self"] or len(ps) < 4:
        r.und("Storage.download signature", "storage.Storage.download", str(ps))
        return
    S, U, P, F = (mk("param", n) for n in ps[:4])
    dest = norm(mk("call", "os.path.join", mk("attr", S, "path"), ite(cmp("is", P, NONE), U, P)))
    w0 = "storage.Storage.download"
    q = reqs(i)
    if len(q) != 1:
        (r.bad if not q else r.und)("one request per download", w0, f"{len(q)} request sites")
        return
    q = q[0]
    want = tm.cat(mk("attr", S, "url"), U)
    got = as_text(url_of(q))
    r.ob(same_cases(got, norm(want)), "requested URL is the base URL followed by the path", q.where(), text(got))
    wo = write_opens(i)
    if not wo:
        r.und("response stored by an unrecognised construct", w0)
        return
    for e in wo:
        got = norm(e.arg(0, "file"))
        r.ob(same_cases(got, dest), "stored under the requested destination", e.where(), f"{text(got)} instead of {text(dest)}")
        m = open_mode(e)
        r.ob(all(is_const(l) and "w" in str(l.args[0]) and "b" in str(l.args[0]) for _, l in tm.cases(m)), "stored file replaced, in binary", e.where(), text(m))
        ws = [x for x in i.events if x.kind == "mcall" and x.recv is e.result and x.name in ("write", "writelines")]
        cp = [x for x in i.events if x.kind == "call" and x.name == "shutil.copyfileobj" and x.arg(1, "fdst") is e.result]
        if not ws and not cp:
            r.und("what is written", e.where())
        for x in ws:
            v = body(x.args[0], q.result)
            if v is False:
                r.bad("the stored data is the response body", x.where(), text(x.args[0]))
            elif v is None:
                r.und("the stored data is the response body", x.where(), text(x.args[0]))
            else:
                r.ok("the stored data is the response body", x.where())
        if len(ws) > 1 and all(not x.loops for x in ws):
            r.und("several writes", e.where())
        # once the request succeeded, the file is written
        ok = mk("ok", q.result)
        g = e.guard
        need = band(q.guard, ok)
        v = entails_cases(need, g)
        if not v and not tm.mentions(g, lambda y: y.op == "ok"):
            v = None
        if v:
            r.ok("every successful answer is stored", e.where())
        elif v is None:
            r.und("every successful answer is stored", e.where(), text(g)[:200])
        else:
            r.bad("every successful answer is stored", e.where(), text(g)[:300])
    isf = truth(mk("call", "os.path.isfile", dest))
    spec = bor(truth(F), bnot(isf))
    g = norm(q.guard)
    r.ob(equiv_cases(g, spec), "requested unless the destination is already a file and the download is not forced", q.where(), f"condition: {text(g)}")
    # nothing else is touched
    for x in calls(i, "os.remove", "os.unlink", "os.rename", "os.replace", "shutil.move"):
        if not x.zones or not any(z[1].startswith("handler") for z in x.zones):
            r.und("other file operation in download", x.where())


def urls(c):
    S = mk("param", "self")
    for root, key in (("storage.Storage.stream", "urlpath"), ("storage.Storage.request_text", "path"), ("storage.Storage.request_get", "path")):
        f = c.prog.func(root)
        i = c.run(root)
        arg = mk("param", f.node.args.args[1].arg)
        for q in reqs(i):
            want = norm(tm.cat(mk("attr", S, "url"), arg))
            c.r.ob(same_cases(as_text(url_of(q)), want), f"{f.name} requests the base URL followed by the path", q.where(), text(as_text(url_of(q))))


def read_opens(i, name=None):
    return [e for e in calls(i, "open", "io.open") if not is_write_open(e)]


def destinations(i):
    """Stored files a run may download: [(path, event)]."""
    return [(norm(e.arg(0, "file")), e) for e in write_opens(i)]


def readback(c):
    r, p = c.r, c.prog
    # (root, self name, description, opaque)
    def pair(root, what, rd, **o):
        i = c.run(root, **o)
        wr = destinations(i)
        rs = rd(i)
        if not wr or not rs:
            r.und(f"{what}: download and reading not both found", root, f"{len(wr)} writes, {len(rs)} reads")
            return
        for e in rs:
            path = norm(e.arg(0, "file"))
            hit = [x for d, x in wr if same_cases(path, d)]
            r.ob(bool(hit), f"{what} read back from where it was downloaded", e.where(), f"opens {text(path)}, downloaded to {text(wr[0][0])}")
            if hit:
                x = hit[0]
                # the download was attempted before: without the file, the reading is only reached through the request
                isf = lambda a: is_call(a, "os.path.isfile") and same_cases(a.args[1], path)
                g = subst_atoms(e.guard, lambda a: FALSE if isf(a) else None)
                v = x.seq < e.seq and tm.entails(norm(g), norm(bor(*[a for a in tm.atoms(x.guard) if a.op == "ok"])))
                r.ob(v, f"{what} downloaded before it is read", e.where(), text(g)[:300])
        return i

    stop = {"patcher.PatcherManifest.parse_rman"}
    pair("patcher.PatcherReleaseElement.manif", "manifest", read_opens, opaque=stop)
    pair("rads.RadsSolutionVersion.dependencies", "solution manifest", read_opens)
    pair("rads.RadsProjectVersion._get_package_files", "package manifest", read_opens)

    # bundles
    ids = mk("attr", mk("attr", mk("param", p.func("patcher.PatcherStorage.load_chunk").node.args.args[1].arg), "bundle"), "bundle_id")
    f = p.func("patcher.PatcherStorage.download_bundle")
    i1 = c.run(f, "patcher.PatcherStorage.download_bundle", args={f.node.args.args[1].arg: ids})
    i2 = c.run("patcher.PatcherStorage.load_chunk")
    wr = destinations(i1)
    rs = read_opens(i2)
    if not wr or not rs:
        r.und("bundle download and reading", "patcher.PatcherStorage", f"{len(wr)} {len(rs)}")
    for e in rs:
        r.ob(any(same_cases(e.arg(0, "file"), d) for d, _ in wr), "bundle read back from where it was downloaded", e.where(),
             f"opens {text(norm(e.arg(0, 'file')))}, downloaded to {text(wr[0][0]) if wr else '?'}")
    # the path returned by a download method
    S = mk("param", "self")
    for root in ("patcher.PatcherStorage.download_bundle", "patcher.PatcherStorage.download_manifest"):
        i = c.run(root)
        for d, e in destinations(i):
            got = norm(mk("call", "os.path.join", mk("attr", S, "path"), i.result))
            r.ob(same_cases(got, d, e.guard), "returned path is the stored one", e.where(), f"returns {text(i.result)}, stored in {text(d)}")
        for q in reqs(i):
            got = as_text(url_of(q))
            want = norm(tm.cat(mk("attr", S, "url"), i.result))
            r.ob(same_cases(got, want, q.guard), "stored under the same relative path as on the server", q.where(), text(got))
    # different identifiers never share a path
    for root, k in (("patcher.PatcherStorage.download_bundle", 1),):
        f = p.func(root)
        a = mk("param", f.node.args.args[k].arg)
        for d, e in destinations(c.run(root)):
            fm = [x for x in pieces(d) if tm.mentions(x, lambda y: y is a)]
            r.ob(any(injective(x, a) for x in fm), "the stored name identifies the bundle", e.where(), text(d))


def injective(x, a):
    if x is a:
        return True
    if x.op == "fmt" and x.args[0] is a:
        s = x.args[1] if isinstance(x.args[1], str) else (x.args[1].args[0] if is_const(x.args[1]) else "")
        return s[-1:] in ("x", "X", "d", "b", "o", "s", "")
    return False
