"""C05: extraction writes all chunks in order, and shared copies are named by content."""
from vfa.q import *
from checks.c04 import column, fmt_of

RULE = """PatcherStorage.extract_file (helpers inlined, load_chunk and hexdigest by name): the data written is, part for part,
load_chunk(chunk) for one unfiltered in-order walk over file.chunks, to a file whose name is the storage path of the
digest when sharing is on and the output path when it is off; it is skipped only when sharing is on and the
shared copy exists. With sharing on, a symbolic link from the output to the relative path of the shared copy is
made on every path, after removing whatever is there. hexdigest feeds the hash with a fixed-width
rendering of the identifier of every chunk, in order, and nothing else. parse_body keeps identifier lists in order,
and indexes the chunks of all bundles by their identifier."""


def check(c):
    r, p = c.r, c.prog
    f = p.func("patcher.PatcherStorage.extract_file")
    a = [x.arg for x in f.node.args.args]
    S, F, O = (mk("param", n) for n in a[:3])
    i = c.run(f, "patcher.PatcherStorage.extract_file", opaque={"patcher.PatcherStorage.load_chunk", "patcher.PatcherFile.hexdigest"})
    w = "patcher.PatcherStorage.extract_file"
    share = truth(mk("attr", S, "use_extract_symlinks"))
    chunks = mk("attr", F, "chunks")
    # --- what is written, and where
    wo = write_opens(i)
    if not wo:
        r.und("extraction writes a file", w)
    real = None
    for e in wo:
        path = norm(e.arg(0, "file"))
        on = assume(path, {x: True for x in tm.atoms(share)})
        off = assume(path, {x: False for x in tm.atoms(share)})
        pon = tm.satisfiable(band(e.guard, share))
        poff = tm.satisfiable(band(e.guard, bnot(share)))
        if poff:
            r.ob(same_cases(off, O, bnot(share)), "written to the file's own path when files are not shared", e.where(), text(off))
        if pon:
            dg = [x for x in subterms(on) if repo_call(x, "PatcherFile.hexdigest", "hexdigest")]
            rest = [x for x in pieces(on) if x not in dg]
            good = len(dg) == 1 and all(x.op == "const" or x is mk("attr", S, "path") for x in rest)
            r.ob(good, "the name of the shared copy depends on the digest only", e.where(), text(on))
            real = on
        m = open_mode(e)
        r.ob(is_const(m) and "w" in m.args[0] and "b" in m.args[0], "the previous content is replaced", e.where(), text(m))
        ws = written(i, e.result)
        if not ws:
            r.und("written data", e.where())
        elif len(ws) > 1:
            r.und("several writes", ws[1][3].where())
        for loops, g, v, ev in ws:
            skip = e.loops
            v = canon(v)
            if not repo_call(v, "load_chunk"):
                vv = [x for x in subterms(v) if repo_call(x, "load_chunk")]
                (r.bad if not tm.mentions(v, lambda y: y.op in ("mu", "build", "carry")) else r.und)("the decompressed data of each chunk is written", ev.where(), text(v))
                continue
            r.ob(elem_of(v.args[2], chunks), "the decompressed data of each chunk is written", ev.where(), text(v))
            r.ob(plain_over(loops, chunks, skip), "all chunks, once each, in manifest order", ev.where(), str([text(l) for l in loops]))
            r.ob(tm.equiv(g, e.guard), "no chunk is left out", ev.where(), text(g))
    # --- when
    if wo:
        g = norm(bor(*[e.guard for e in wo]))
        g = by_share(g, share)
        off = g[False]
        r.ob(tm.equiv(off, TRUE), "always written when files are not shared", wo[0].where(), f"written only if {text(off)}")
        on = g[True]
        if real is not None:
            exists = bnot(bor(*[x for x in tm.atoms(on) if is_call(bare(x), "os.path.isfile", "os.path.exists", "os.path.lexists") and same_cases(bare(x).args[1], real)]))
            strict = [x for x in tm.atoms(on) if is_call(bare(x), "os.path.exists", "os.path.lexists")]
            r.ob(tm.entails(exists, on), "written when the shared copy does not exist", wo[0].where(), f"written only if {text(on)}")
    # --- the link
    sl = [e for e in calls(i, "os.symlink")] + mcalls(i, "symlink_to")
    if not sl:
        r.und("symbolic link", w) if calls(i, "os.link", "os.replace", "os.rename", "shutil.copyfile") else r.bad("a symbolic link is created when files are shared", w)
    for e in sl:
        src, dst = (e.arg(0, "src"), e.arg(1, "dst")) if e.kind == "call" else (e.args[0], e.recv)
        g = by_share(norm(e.guard), share)
        need = g[True]
        need = drop_exc(need)
        r.ob(tm.equiv(need, TRUE), "the link is made whether or not the shared copy existed", e.where(), text(need)[:300])
        r.ob(not tm.satisfiable(g[False]), "no link when files are not shared", e.where(), text(g[False])[:200])
        if not same(dst, O):
            if calls(i, "os.replace", "os.rename"):
                r.und("link created elsewhere and moved", e.where())
                continue
            r.bad("the link is the file's own path", e.where(), text(dst))
            continue
        r.ok("the link is the file's own path", e.where())
        s = norm(src)
        s = assume(s, {x: True for x in tm.atoms(share)})
        if is_call(s, "os.path.relpath"):
            start = s.args[2] if len(s.args) > 2 else None
            good = real is not None and same_cases(s.args[1], real, share) and start is not None and is_call(norm(start), "os.path.dirname") and same(norm(start).args[1], O)
            r.ob(good, "the link resolves to the shared copy", e.where(), text(s))
        elif is_call(s, "os.path.abspath", "os.path.realpath"):
            r.ob(real is not None and same_cases(s.args[1], real, share), "the link resolves to the shared copy", e.where(), text(s))
        else:
            r.bad("the link resolves to the shared copy", e.where(), f"{text(s)} is not relative to the link")
        rm = [x for x in calls(i, "os.remove", "os.unlink") if x.seq < e.seq and same(x.arg(0, "path"), O)] + \
             [x for x in mcalls(i, "unlink") if x.seq < e.seq and same(x.recv, O)]
        good = False
        for x in rm:
            h = subst_atoms(x.guard, lambda t: TRUE if is_call(t, "os.path.lexists") and same(t.args[1], O) else None)
            isl = [y for y in tm.atoms(h) if is_call(bare(y), "os.path.exists", "os.path.isfile", "os.path.islink") and same(bare(y).args[1], O)]
            k = {is_n: bare(y).args[0] for y in isl for is_n in [y]}
            if {"os.path.islink"} & set(k.values()) and len(set(k.values())) > 1:
                h = subst_atoms(h, lambda t: TRUE if is_call(t, *set(k.values())) and same(t.args[1], O) else None)
            if tm.entails(drop_exc(e.guard), drop_exc(h)):
                good = True
        r.ob(good, "whatever is at the file's path is replaced", e.where(), f"{len(rm)} removals")
    digest(c)
    manifest(c)


def drop_exc(g):
    return subst_atoms(g, lambda a: FALSE if a.op == "exc" else None)


def by_share(g, share):
    return {v: assume(g, {x: v for x in tm.atoms(share)}) for v in (True, False)}


def digest(c):
    r = c.r
    f = c.prog.func("patcher.PatcherFile.hexdigest")
    i = c.run(f, "patcher.PatcherFile.hexdigest")
    S = mk("param", f.node.args.args[0].arg)
    chunks = mk("attr", S, "chunks")
    res = i.result
    if res.op == "fmt" or not (res.op == "mcall" and res.args[1] in ("hexdigest", "digest", "hex")):
        r.und("digest construction", "patcher.PatcherFile.hexdigest", text(res))
        return
    h = res.args[0]
    if not (h.op == "call" and str(h.args[0]).startswith("hashlib.")):
        r.und("digest construction", "patcher.PatcherFile.hexdigest", text(res))
        return
    seq = []
    for a in h.args[1:]:
        if isinstance(a, T) and a.op not in ("uid", "kw"):
            seq += [(*x, None) for x in parts((), TRUE, a)]
    for e in mcalls(i, "update"):
        if strip_epoch(e.recv) is strip_epoch(h):
            seq += [(*x, e) for x in parts(e.loops, e.guard, e.args[0])]
    seq = [s for s in seq if s[2].op != "const"]
    if not seq:
        r.bad("the digest covers the chunk identifiers", "patcher.PatcherFile.hexdigest", text(res))
    if len(seq) > 1:
        r.und("several digest updates", "patcher.PatcherFile.hexdigest")
        return
    for loops, g, v, e in seq:
        w = e.where() if e else "patcher.PatcherFile.hexdigest"
        v = canon(v)
        at = [x for x in subterms(v) if x.op == "attr"]
        used = {x.args[1] for x in at if elem_of(x.args[0], chunks)}
        extra = [x for x in at if not elem_of(x.args[0], chunks) and x is not chunks]
        r.ob(used == {"chunk_id"} and not extra, "the digest covers the chunk identifiers and nothing else", w, text(v))
        r.ob(plain_over(loops, chunks) and tm.equiv(g, TRUE), "of all chunks, in order", w, str([text(l) for l in loops]) + text(g))
        r.ob(fixed_width(v), "identifiers cannot run into each other", w, text(v))


def fixed_width(v):
    if v.op == "fmt":
        s = v.args[1]
        s = s if isinstance(s, str) else s.args[0] if is_const(s) else ""
        return s.startswith("0") and s[1:-1].isdigit() and int(s[1:-1]) >= 16 and s[-1] in "xX"
    if v.op == "call" and v.args[0] == "struct.pack":
        return is_const(v.args[1]) and str(v.args[1].args[0]).strip("<>!=") == "Q"
    if v.op == "mcall" and v.args[1] == "to_bytes":
        return is_const(v.args[2]) and v.args[2].args[0] >= 8
    if v.op == "mcall" and v.args[1] == "encode":
        return fixed_width(v.args[0])
    if v.op == "cat":
        return any(fixed_width(x) for x in v.args if x.op != "const")
    return False


def manifest(c):
    """parse_body: files get their own chunks in order."""
    r = c.r
    i = c.run("patcher.PatcherManifest.parse_body")
    w = "patcher.PatcherManifest.parse_body"
    ns = [e for e in i.events if e.kind == "new" and e.name == "PatcherFile"]
    if len(ns) != 1:
        r.und("release files built from the manifest", w, str(len(ns)))
        return
    e = ns[0]
    at = new_attrs(i, e.recv)
    v = strip_epoch(i.snap(at.get("chunks", NONE)))
    es = tm.entries_of(v)
    if not es or len(es) != 1:
        r.und("chunks of a file", e.where(), text(v)[:200])
        return
    loops, g, val = es[0].args[0].args, es[0].args[1], es[0].args[2]
    r.ob(g is TRUE or tm.equiv(g, TRUE), "no chunk identifier is dropped", e.where(), text(g)[:200])
    val = canon(val)
    if val.op == "index" and val.args[1].op == "elem":
        ids = val.args[1].args[0]
        r.ob(plain_over(loops, ids), "chunks in the order of the identifiers", e.where(), str([text(l)[:80] for l in loops]))
        u = [y for y in subterms(ids) if y.op == "unpack" or y.op == "mcall" and "unpack" in y.args]
        fm = norm(u[0].args[0]) if u else None
        r.ob(bool(u) and cat_consts(fm)[-1:] == ["Q"] and cat_consts(fm)[:1] == ["<"], "chunk identifiers are 64 bit little-endian", e.where(), text(ids)[:200])
        d = val.args[0]
        de = tm.entries_of(d)
        if not de or len(de) != 1:
            r.und("index of chunks", e.where(), text(d)[:200])
        else:
            key, vv, gg = de[0].args[3], de[0].args[2], de[0].args[1]
            ka = new_attrs(i, vv).get("chunk_id") if vv.op == "obj" else mk("attr", vv, "chunk_id")
            r.ob(gg is TRUE or tm.equiv(gg, TRUE), "every chunk of every bundle is indexed", e.where(), text(gg)[:200])
            ls = de[0].args[0].args
            r.ob(not any(len(l.args) > 2 or tm.mentions(l, lambda y: y.op == "slice") for l in ls), "the chunks of all bundles are indexed", e.where(), str([text(l)[:100] for l in ls]))
            ids2 = strip_uid(strip_epoch(key))
            good = ka is not None and strip_uid(strip_epoch(ka)) is ids2 or vv.op == "obj" and len(vv.args) > 2 and any(isinstance(x, T) and strip_uid(strip_epoch(x)) is ids2 for x in vv.args) or key is mk("attr", vv, "chunk_id")
            r.ob(bool(good) or None, "chunks are indexed by their own identifier", e.where(), f"{text(key)[:150]} -> {text(vv)[:150]}")
    else:
        r.bad("chunks looked up by identifier", e.where(), text(val)[:300])
    for k, n, fm in (("size", 2, "<L"),):
        v = at.get(k)
        col = column(strip_epoch(v)) if v is not None else None
        if col is None:
            # buffered reader forms
            ks = {y.args[1].args[0] if isinstance(y.args[1], T) and is_const(y.args[1]) else y.args[1] for y in subterms(v.args[0]) if y.op == "fld" and "H" in text(y.args[0] if isinstance(y.args[0], T) else const(y.args[0]))} if v is not None and v.op == "ite" else set()
            leaf = v.args[2] if v is not None and v.op == "ite" and is_const(v.args[1], None) else None
            if leaf is None or leaf.op != "fld":
                r.und(f"file {k} column", e.where(), text(v)[:200] if v is not None else "")
                continue
            ks.discard(0) if n else None
            r.ob(n in ks and len(ks) == 1 and fmt_leaf(leaf) == fm, f"file {k} from column {n} ({fm})", e.where(), f"columns {ks} {fmt_leaf(leaf)}")
        else:
            r.ob(col[0] == n and fmt_of(col[1]) == fm, f"file {k} from column {n} ({fm})", e.where(), f"column {col[0]}")


def fmt_leaf(leaf):
    a = leaf.args[0]
    return a if isinstance(a, str) else a.args[0] if is_const(a) else None
