"""C01: every data write sits in a region that removes its output on any exception and re-raises."""
from vfa.q import *

RULE = """For each download, extraction and conversion root (callees inlined), every file opened for writing and every
directory created as an output must lie in a try region whose handlers catch every exception (BaseException),
remove that same path (or a directory above it) on every path of the handler, do so without letting a failing
removal replace the original error, and re-raise on every path; the writes to the file must lie in the same
region; no enclosing region may swallow the error (except for a platform specific rejection of the path itself);
the file must not be removed after a successful write; its parent directories must be created before."""

EXISTS = ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.isdir")
REMOVE = ("os.remove", "os.unlink")


def under(path, d):
    """Is `path` inside directory `d` (both in path normal form)?"""
    a, b = pieces(path), pieces(d)
    if len(a) > len(b) and all(x is y for x, y in zip(a, b)):
        nxt = a[len(b)]
        return nxt.op == "const" and isinstance(nxt.args[0], str) and nxt.args[0].startswith("/")
    if len(b) <= len(a) and b and all(x is y for x, y in zip(a, b[:-1])):
        x, y = a[len(b) - 1], b[-1]
        if x.op == "const" and y.op == "const" and isinstance(x.args[0], str) and isinstance(y.args[0], str):
            return x.args[0].startswith(y.args[0] + "/")
    return False


def removals(i):
    """[(event, path, recursive)] of calls that remove a file or a tree."""
    out = []
    for e in i.events:
        if e.kind == "call" and e.name in REMOVE:
            out.append((e, norm(e.arg(0, "path")), False))
        elif e.kind == "call" and e.name == "shutil.rmtree":
            out.append((e, norm(e.arg(0, "path")), True))
        elif e.kind == "mcall" and e.name == "unlink" and e.recv is not None:
            out.append((e, norm(e.recv), False))
    return out


def masked(i, e, tid):
    """Can a failing removal not replace the original error?"""
    if e.kind == "call" and e.name == "shutil.rmtree":
        ig = e.arg(1, "ignore_errors")
        if ig is not None and is_const(ig) and ig.args[0]:
            return True
        if e.arg(2, "onerror") is not None or e.arg(3, "onexc") is not None:
            return None
    inside = False
    for z in e.zones:
        if z[0] == tid:
            inside = True
            continue
        if inside and z[1] == "body":
            info = i.tries[z[0]]
            if any(ns is None or catches(i.prog, ns, "FileNotFoundError") for ns in info.handlers):
                return True
    return False


def no_exists(g, path, i):
    """The guard without tests for the existence of the path (nothing to remove when there is nothing)."""
    return subst_atoms(g, lambda a: TRUE if is_call(a, *EXISTS) and same(a.args[1], path) else None)


def falls_through(i, info, k):
    """Condition under which handler k of a region ends without raising."""
    entry = strip_epoch(band(*info.reach0, info.conds[k]))
    rs = [e.guard for e in i.events if e.kind == "raise" and in_zone(e, info.id, f"handler{k}")
          and not any(z[1] == "body" for z in after(e.zones, info.id))]
    return band(entry, bnot(bor(*rs)))


def after(zones, tid):
    out, on = [], False
    for z in zones:
        if on:
            out.append(z)
        if z[0] == tid:
            on = True
    return out


def dead(info, k):
    return info.conds[k] is FALSE


def check_open(c, i, e, what, path, is_dir=False, conv=False):
    r = c.r
    w = e.where()
    rem = removals(i)
    regions = handlers_of(i, e)
    prot = None
    why = "no enclosing region removes it"
    for info in regions:
        covered = False
        for k, ns in enumerate(info.handlers):
            if dead(info, k):
                continue
            here = [(x, p, rec) for x, p, rec in rem if in_zone(x, info.id, f"handler{k}")
                    and (same(p, path) and (not is_dir or rec) or rec and under(path, p))]
            if here:
                entry = strip_epoch(band(*info.reach0, info.conds[k]))
                g = bor(*[no_exists(x.guard, p, i) for x, p, _ in here])
                if not tm.entails(no_exists(entry, path, i), g):
                    why = f"the removal at {here[0][0].loc} is skipped on some paths"
                    continue
                if not all(masked(i, x, info.id) or guard_exists(x, p) for x, p, _ in here):
                    why = f"a failing removal at {here[0][0].loc} replaces the original error"
                    continue
                left = falls_through(i, info, k)
                if tm.satisfiable(left):
                    why = f"the handler at {here[0][0].loc} does not re-raise the original error"
                    continue
                if any(x == "BaseException" for n in ns for x in n.split(".")[-1:]):
                    covered = True
            else:
                why_k = f"handler {ns} of the region at {i.tries[info.id].module.rel}:{getattr(info.node, 'lineno', '?')} does not remove it"
                if any(n.split(".")[-1] == "BaseException" for n in ns):
                    break
                # an earlier handler that neither cleans nor leaves through an inner clean-up
                why = why_k
                if any(True for x, p, rec in rem if in_zone(x, info.id, "handler") and same(p, path)):
                    covered = False
                    break
        if covered:
            prot = info
            break
        fin = [x for x, p, rec in rem if in_zone(x, info.id, "finally") and (same(p, path) or rec and under(path, p))]
        if fin:
            r.und(f"{what}: clean-up in a finally clause", w, "the flag that tells success from failure is not modelled")
            return
        part = [ns for k, ns in enumerate(info.handlers)
                if any(in_zone(x, info.id, f"handler{k}") and (same(p, path) or rec and under(path, p)) for x, p, rec in rem)]
        if part and why.startswith("no enclosing"):
            why = f"only {part} remove it, other exceptions (e.g. KeyboardInterrupt) do not"
    if prot is None:
        r.bad(f"{what}: a failed write leaves partial output", w, f"{text(norm(path))}: {why}")
        return
    r.ok(f"{what}: partial output removed, error re-raised", w)
    # writes in the same region
    if e.result is not None and not is_dir:
        out = [x for x in i.events if x.kind in ("mcall", "call", "withexit") and x is not e and x.seq > e.seq
               and (x.recv is e.result or any(a is e.result for a in x.args)) and not in_zone(x, prot.id)
               and x.name not in ("close",)]
        if out:
            r.bad(f"{what}: written outside of the protected region", out[0].where(), text(norm(path)))
        else:
            r.ok(f"{what}: writes inside the protected region", w)
        # inner handlers that swallow a failing write
        for x in i.events:
            if x.kind in ("mcall", "call") and x.seq > e.seq and (x.recv is e.result or any(a is e.result for a in x.args)):
                for info in handlers_of(i, x):
                    if info.id == prot.id:
                        break
                    sw(c, i, info, f"{what}: error of the write", x)
    # outer regions
    seen = False
    for info in regions:
        if info is prot:
            seen = True
            continue
        if seen:
            sw(c, i, info, f"{what}: original error", e)
        else:
            sw(c, i, info, f"{what}: error of the write", e)
    # success path
    for x, p, rec in rem:
        if x.seq > e.seq and not any(in_zone(x, t.id, "handler") for t in regions) and (same(p, path) or rec and under(path, p)) \
                and tm.satisfiable(band(x.guard, e.guard)):
            if any(o.seq > x.seq and (is_write_open(o) and same(o.arg(0, "file"), path)) for o in i.events):
                continue
            r.bad(f"{what}: removed after it was written", x.where(), text(norm(path)))
    # parents
    mk_ = [x for x in i.events if x.seq <= e.seq and (x.kind == "call" and x.name in ("os.makedirs",) or x.kind == "mcall" and x.name == "mkdir")]
    def covers(x):
        d = norm(x.arg(0, "name")) if x.kind == "call" else norm(x.recv)
        ok = x.arg(2, "exist_ok")
        if x.kind == "mcall":
            ok = x.kw.get("exist_ok", None) if isinstance(x.kw, dict) else None
        tolerant = ok is not None and is_const(ok) and bool(ok.args[0]) or any(
            any(catches(i.prog, ns, "FileExistsError") for ns in t.handlers if ns) for t in handlers_of(i, x) if t not in regions) \
            or guard_has(x.guard, lambda a: is_call(bare(a), *EXISTS))
        good = d.op == "call" and d.args[0] == "os.path.dirname" and same(d.args[1], path) or under(path, d) or (is_dir and same(d, path))
        g = subst_atoms(x.guard, lambda a: FALSE if is_call(a, *EXISTS) and same(a.args[1], d) else None)
        return good, tolerant and tm.entails(e.guard, g)
    cov = [covers(x) for x in mk_]
    if any(g and t for g, t in cov):
        r.ok(f"{what}: parent directories created before", w)
    elif any(g for g, t in cov):
        r.bad(f"{what}: creating the parent directory fails when it exists or is conditional", w, text(norm(path)))
    else:
        r.bad(f"{what}: missing parent directories are not created", w, text(norm(path)))


def guard_exists(x, p):
    return guard_has(x.guard, lambda a: is_call(bare(a), *EXISTS) and same(bare(a).args[1], p))


def sw(c, i, info, what, e):
    for k, ns in enumerate(info.handlers):
        if dead(info, k):
            continue
        left = falls_through(i, info, k)
        if not tm.satisfiable(left):
            continue
        if all(any(is_platform(a) for a in tm.atoms(x)) for x in dnf(left)):
            continue
        c.r.bad(f"{what} swallowed by a handler of {'/'.join(ns)}", e.where(),
                f"region at {info.module.rel}:{getattr(info.node, 'lineno', '?')}")


def dnf(g):
    return list(g.args) if g.op == "or" else [g]


def is_platform(a):
    t = text(a)
    return "os.name" in t or "errno" in t or "sys.platform" in t


def sites(c, root, name=None, skip=(), dirs=False, **opts):
    i = c.run(root, name, **opts)
    n = 0
    for e in write_opens(i):
        path = e.arg(0, "file")
        n += 1
        check_open(c, i, e, f"{name or root}", path)
    for e in mcalls(i, "write_bytes", "write_text"):
        n += 1
        check_open(c, i, e, f"{name or root}", e.recv)
    if dirs:
        for e in calls(i, "os.makedirs"):
            d = norm(e.arg(0, "name"))
            inside = [x for x in write_opens(i) if x.seq > e.seq and under(norm(x.arg(0, "file")), d)]
            if inside and d.op != "call":
                n += 1
                check_open(c, i, e, f"{name or root} directory", d, is_dir=True)
    if i.truncated:
        c.r.und(f"{name or root}: analysis budget", root if isinstance(root, str) else root.qual)
    if not n:
        other = entered(i, "shutil.copyfile", "shutil.copy", "shutil.copy2", "shutil.move") or calls(i, "shutil.copyfile", "shutil.copy", "shutil.copy2", "shutil.move", "os.replace", "os.rename")
        if other:
            c.r.und(f"{name or root}: written by another route", other[0].where())
    return n


def check(c):
    p = c.prog
    n = sites(c, "storage.Storage.download")
    if not n:
        c.r.und("Storage.download writes no file", "storage.Storage.download")
    sites(c, "patcher.PatcherStorage.extract_file")
    sites(c, "patcher.PatcherStorage.fetch_latest_update")
    sites(c, "wad.WadFileHeader.extract")
    sites(c, "rads.RadsProjectVersion.extract", opaque={"rads.RadsProjectVersion._get_package_files"})
    sites(c, "hashes.update_default_hashfile")
    base = p.cls("export.FileConverter")
    for k in base.all_subclasses():
        m = k.method("convert")
        if m is not None and m.cls is not base:
            sites(c, m, f"{k.name}.convert", self_type=k, dirs=True)
