"""C37: an export cleans, then writes, then links, and lists everything it contains."""
import os
from vfa.q import *
from vfa.sim import Obj
from vfa.tape import Play
from checks.c36 import process, exporters, pathset, consumed, minus, empty, CR, EX, SELF

RULE = """CdragonRawPatchExporter.process is analysed as a sequence of effects on its exporters (created, unknown hashes collected, named and filtered, compared with the previous patch,
output cleaned, exported, linked), each placed by when it takes place, generators when they are consumed. The order, the conditions, and the collections given to the clean-up and
written to the lists are checked as terms: kept files are exactly the paths still exported (all paths if there are no links) and the directory of generated files, kept links are
exactly the links; the list of exported files holds all paths of the patch, the list of unknown hashes every hash of an entry without a path. In _create_symlinks, a link is only made
where nothing exists, anything else there is an error, and it leads to the same path of the previous patch. `process` is also followed over sample patches (with and without previous patch and links, into a
new or an existing output): what is cleaned, exported and linked in which order, the files that are written and their lines, and the directories they are written to must be as documented."""

ORDER, KEPT, LISTS, LINK = ("clean-up, export and links in this order", "the clean-up keeps exactly what is exported, linked or generated", "the lists are complete", "links only where nothing exists, to the same path of the previous patch")
PREV, CREATE = mk("truthy", mk("attr", SELF, "prev_patch")), mk("truthy", mk("attr", SELF, "create_symlinks"))
PREVS = [mk("is", mk("attr", SELF, "prev_patch"), NONE)]


def check(c):
    f = c.prog.func(CR + "process")
    if f is None:
        c.r.und(ORDER, "export", "not found")
        return
    i = process(c)
    new, old, by = exporters(i)
    if new is None:
        c.r.und(ORDER, f.loc, "the exporter of the patch is not recognised")
        return
    order(c, f, i, new, by)
    kept(c, f, i, new, by)
    lists(c, f, i, new, by)
    sources(c)
    symlinks(c)
    c.part(sample_process, f, i)


def one(by, name, new, arg=0):
    es = [e for e in by.get(name, []) if e.args and strip_epoch(e.args[arg]) is new]
    return es[0] if len(es) == 1 and not es[0].loops else None


def order(c, f, i, new, by):
    r = c.r
    unk, tr, clean, exp = (one(by, n, new) for n in ("unknown_hashes", "_transform_exported_files", "clean_output_dir", "export"))
    for n, e in (("unknown_hashes", unk), ("_transform_exported_files", tr), ("clean_output_dir", clean), ("export", exp)):
        if e is None:
            r.ob(None if by.get(n) else False, ORDER, f.loc, f"{n} is not called once, for the patch")
        else:
            g = noerr(e.guard)
            r.ob(g is TRUE or not tm.satisfiable(bnot(g)), ORDER, e.where(), f"{n} is always called" + ("" if g is TRUE else f": {text(g)[:80]}"))
    if None in (unk, tr, clean, exp):
        return
    r.ob(consumed(i, unk) < tr.seq, LISTS, unk.where(), "unknown hashes are collected before unknown entries are named or filtered")
    r.ob(clean.seq < exp.seq, ORDER, clean.where(), "clean-up before the export")
    r.ob(tr.seq < clean.seq and tr.seq < exp.seq, ORDER, tr.where(), "paths are filtered before the export")
    over = f.node.args.args[1].arg if len(f.node.args.args) > 1 else None
    if over is not None:
        given = exp.args[1] if len(exp.args) > 1 else exp.kw.get("overwrite") if exp.kw else None
        r.ob(given is mk("param", over), ORDER, exp.where(), "files are overwritten as asked for")
    ls = by.get("_create_symlinks", [])
    common = by.get("reduce_common_paths", [])
    if not ls:
        r.ob(False if common else None, ORDER, f.loc, "links are not created")
        return
    for e in ls:
        r.ob(e.seq > exp.seq, ORDER, e.where(), "links after the export")
    done = bor(*[noerr(e.guard) for e in ls if not e.loops])
    for e in common:
        want = band(noerr(e.guard), truth(strip_epoch(e.result)))
        r.ob(entails_cases(want, done), ORDER, ls[0].where(), f"links are created if there are any: {text(done)[:80]}")


def noerr(g):
    return strip_epoch(norm(tm.rewrite(g, lambda x: FALSE if x.op == "exc" else TRUE if x.op == "ok" else x)))


def collections(t):
    """[(condition, parts)] of a set: known path sets, constants and links it is made of."""
    t = strip_epoch(norm(t))
    out = []
    for g, v in tm.cases(t):
        if v is NONE:
            out.append((g, ()))
            continue
        out += [(band(g, g2), p) for g2, p in parts_of(v)]
    return out


def parts_of(v):
    if v.op == "call" and v.args[0] in ("set", "frozenset", "list", "tuple", "sorted") and len(v.args) == 2:
        return collections(v.args[1])
    if v.op == "bin" and v.args[0] == "|":
        return [(band(g, h), p + q) for g, p in collections(v.args[1]) for h, q in collections(v.args[2])]
    if v.op == "mcall" and v.args[1] == "union":
        return [(band(g, h), p + q) for g, p in collections(v.args[0]) for h, q in collections(v.args[2])]
    if repo_call(v, "all_converted_exported_paths", "reduce_common_paths"):
        return [(TRUE, (v,))]
    if v.op == "or" and len(v.args) == 2:
        return [(TRUE, ("?",))]
    es = tm.entries_of(v)
    if v.op in ("set", "list", "tuple"):
        return [(TRUE, tuple(v.args))]
    if v.op == "build" and es is not None:
        out = [(TRUE, ())]
        for e in es:
            if e.op != "entry":
                return [(TRUE, ("?",))]
            ls, g, x = e.args[0].args, e.args[1], e.args[2]
            if not ls:
                part = [(TRUE, (x,))]
            elif len(ls) == 1 and ls[0].op == "loop" and x is mk("elem", *ls[0].args[:2]):
                part = collections(ls[0].args[0])
            else:
                part = [(TRUE, ("?",))]
            if g is not TRUE:
                part = [(band(g, h), p) for h, p in part] + [(bnot(g), ())]
            out = [(band(a, b), p + q) for a, p in out for b, q in part]
        return [(g, p) for g, p in out if tm.satisfiable(g)]
    return [(TRUE, ("?",))]


def world(g, prev, create):
    """Is a condition possible with or without a previous patch and links?"""
    def f(x):
        if x is PREV:
            return TRUE if prev else FALSE
        if x is CREATE:
            return TRUE if create else FALSE
        if x in PREVS:
            return FALSE if prev else TRUE
        return x
    return tm.rewrite(noerr(g), f)


def kept(c, f, i, new, by):
    r = c.r
    clean, flt = one(by, "clean_output_dir", new), by.get("filter_exporter", [])
    if clean is None or len(clean.args) < 3:
        r.und(KEPT, f.loc, "clean-up not recognised")
        return
    fs = flt[0].seq if flt else 10 ** 9
    when = {strip_epoch(e.result): consumed(i, e) for e in by.get("all_converted_exported_paths", [])}
    links = [strip_epoch(e.result) for e in by.get("reduce_common_paths", [])]
    for prev, create in ((False, False), (True, False), (True, True)):
        what = "with links" if create else "with a previous patch, without links" if prev else "without a previous patch"
        n = 0
        for g, ps in collections(clean.args[1]):
            g = world(g, prev, create)
            if not tm.satisfiable(g):
                continue
            n += 1
            if "?" in ps:
                r.und(KEPT, clean.where(), f"kept files {what}: {text(clean.args[1])[:100]}")
                continue
            consts = {x.args[0] for x in ps if is_const(x)}
            paths = [x for x in ps if repo_call(x, "all_converted_exported_paths")]
            other = [x for x in ps if not is_const(x) and x not in paths]
            mine = [x for x in paths if x.args[1] is new]
            late = [when.get(x, -1) > fs for x in mine]
            good = "cdragon" in consts and len(mine) >= 1 and not other and len(paths) == len(mine) and (all(late) if create else not all(late))
            r.ob(good, KEPT, clean.where(), f"kept files {what}: {[text(x)[:60] for x in ps]}" + ("" if good else
                 ": the directory of generated files is removed" if "cdragon" not in consts else ", files replaced by links are kept" if create else ""))
        if not n:
            r.und(KEPT, clean.where(), f"kept files {what}")
        n = 0
        for g, ps in collections(clean.args[2]):
            g = world(g, prev, create)
            if not tm.satisfiable(g):
                continue
            if "?" in ps:
                r.und(KEPT, clean.where(), f"kept links {what}: {text(clean.args[2])[:100]}")
                continue
            if create:
                # an empty collection where there are no links is the collection of links
                nolinks = band(*[bnot(truth(x)) for x in links])
                r.ob(bool(ps) and all(x in links for x in ps) or entails_cases(g, nolinks), KEPT, clean.where(), f"kept links {what}: {[text(x)[:60] for x in ps]}")
            else:
                r.ob(not ps, KEPT, clean.where(), f"no kept links {what}")


FILES = {"cdragon/files.exported.txt": "exported", "cdragon/files.unknown.txt": "unknown"}


def file_of(h):
    h = strip_epoch(norm(h))
    for x in subterms(h):
        if is_const(x) and isinstance(x.args[0], str) and "files." in x.args[0]:
            for k, v in FILES.items():
                if x.args[0].endswith(k.split("/")[-1]):
                    return v
    return None


def lists(c, f, i, new, by):
    r = c.r
    flt = by.get("filter_exporter", [])
    fs = flt[0].seq if flt else 10 ** 9
    when = {strip_epoch(e.result): (consumed(i, e), e) for n in ("all_converted_exported_paths", "unknown_hashes") for e in by.get(n, [])}
    tr = one(by, "_transform_exported_files", new)
    found = {"exported": [], "unknown": []}
    for e in i.events:
        h = None
        if e.kind == "call" and e.name == "print" and e.kw and "file" in e.kw:
            h = e.kw["file"]
        elif e.kind in ("mcall", "vcall") and e.name in ("write", "writelines", "write_text"):
            h = e.recv
        k = file_of(h) if h is not None else None
        if k is not None:
            found[k].append(e)
    for k, es in found.items():
        src = "all_converted_exported_paths" if k == "exported" else "unknown_hashes"
        if not es:
            r.und(LISTS, f.loc, f"the list of {k} is not recognised")
            continue
        n = 0
        for e in es:
            g = noerr(e.guard)
            arg = e.args[0] if e.args else NONE
            loops = [l for l in e.loops]
            calls = [x for x in subterms(strip_epoch(norm(arg))) + [y for l in loops for y in subterms(strip_epoch(norm(l)))] if repo_call(x, src)]
            if not calls:
                if not is_const(arg) and not tm.mentions(arg, lambda x: x.op in ("call", "build", "mcall")):
                    r.und(LISTS, e.where(), f"{k}: writes {text(arg)[:60]}")
                else:
                    r.ob(False if is_const(arg) else None, LISTS, e.where(), f"{k}: also holds {text(arg)[:60]}")
                continue
            n += 1
            x = calls[0]
            w, ce = when.get(x, (None, None))
            if w is None:
                r.und(LISTS, e.where(), f"{k}: {text(x)[:60]}")
                continue
            r.ob(x.args[1] is new, LISTS, e.where(), f"{k}: of the exported patch")
            r.ob(g is TRUE or not tm.satisfiable(bnot(g)), LISTS, e.where(), f"{k}: always written" + ("" if g is TRUE else f" if {text(g)[:80]}"))
            if k == "exported" and tr is not None:
                r.ob(tr.seq < w < fs, LISTS, ce.where(), "exported: all paths of the patch, after they were named and before unchanged ones are left out")
            cut = cut_short(i, e.loops)
            if cut:
                r.bad(LISTS, cut[0].where(), f"{k}: the list is cut short")
            # the whole collection, one per line
            ls = [l for l in e.loops]
            if len(ls) == 1:
                bad = [m for m in ls[0].args[2:] if m.op not in ("bysort", "viaset", "reversed")]
                el = [y for y in subterms(strip_epoch(norm(arg))) if y.op == "elem"]
                base = strip_epoch(norm(ls[0].args[0]))
                whole = base is x or pathset(base) is x
                r.ob(False if bad and any(m.op == "slice" for m in bad) else whole and bool(el) or None, LISTS, e.where(), f"{k}: one line for each of {text(base)[:60]}")
                if k == "unknown":
                    t = strip_epoch(norm(arg))
                    if t.op == "cat":
                        t = t.args[0]
                    ok = t.op == "fmt" and is_const(t.args[1]) and t.args[1].args[0] == "016x"
                    r.ob(True if ok else None, LISTS, e.where(), f"unknown: written as {text(arg)[-30:]}")
            elif not ls:
                t = strip_epoch(norm(arg))
                r.ob(True if any(y.op == "join" for y in subterms(t)) or e.name == "writelines" else None, LISTS, e.where(), f"{k}: {text(t)[:80]}")
            else:
                r.und(LISTS, e.where(), f"{k}: nested loops")
        if n != 1:
            r.ob(None, LISTS, f.loc, f"{k}: {n} places")


def sources(c):
    """What the generators of the exporter yield."""
    r = c.r
    files = mk("attr", SELF, "wads")
    f = c.prog.func(EX + "unknown_hashes")
    if f is not None:
        i = c.run(f)
        ys = [e for e in i.events if e.kind == "yield"]
        ok = True
        got = FALSE
        for e in ys:
            ls = e.loops
            v = strip_epoch(norm(e.args[0]))
            if len(ls) != 2 or v.op != "attr" or v.args[1] != "path_hash":
                r.ob(False if v.op == "attr" and v.args[1] != "path_hash" else None, LISTS, e.where(), f"yields {text(v)[:60]}")
                ok = False
                continue
            wf = v.args[0]
            if not same(ls[0].args[0], files) or cut_short(i, ls):
                r.ob(False if cut_short(i, ls) else None, LISTS, e.where(), f"over {[text(l)[:50] for l in ls]}")
                ok = False
            p = mk("attr", wf, "path")
            got = bor(got, tm.rewrite(strip_epoch(norm(e.guard)), lambda x: bnot(truth(p)) if x is mk("is", p, NONE) else x))
        if ys and ok:
            want = bnot(truth(p))
            r.ob(True if tm.equiv(got, want) else None if [x for x in tm.atoms(got) if x is not truth(p)] and tm.entails(want, got) else False, LISTS, f.loc, f"unknown: entries for which {text(got)[:80]}")
        elif not ys:
            r.und(LISTS, f.loc, "not a generator")
    f = c.prog.func(EX + "all_converted_exported_paths")
    if f is not None:
        i = c.run(f, opaque=[q for q in [EX + "_get_converter"] if c.prog.func(q) is not None])
        ys = [e for e in i.events if e.kind == "yield"]
        for coll, depth in (("plain_files", 1), ("wads", 2)):
            es = [e for e in ys if e.loops and e.loops[0].op == "loop" and same(e.loops[0].args[0], mk("attr", SELF, coll))]
            if not es:
                r.ob(False if ys and all(e.loops for e in ys) else None, LISTS, f.loc, f"the paths of {coll} are not listed")
                continue
            for e in es:
                if cut_short(i, e.loops):
                    r.bad(LISTS, cut_short(i, e.loops)[0].where(), "the list of paths is cut short")
                g = noerr(e.guard)
                r.ob(True if g is TRUE else None, LISTS, e.where(), f"all paths of {coll}" + ("" if g is TRUE else f" for which {text(g)[:60]}"))


def flat(t):
    """(path term, was resolved)"""
    t = strip_epoch(norm(t))
    res = False
    while t.op == "call" and t.args[0] in ("os.path.realpath", "os.path.abspath", "os.path.normpath"):
        res = res or t.args[0] == "os.path.realpath"
        t = strip_epoch(norm(t.args[1]))
    return t, res


def symlinks(c):
    r = c.r
    f = c.prog.func(CR + "_create_symlinks")
    if f is None:
        r.und(LINK, "export", "not found")
        return
    links = mk("param", f.node.args.args[1].arg)
    i = c.run(f)
    es = [e for e in i.events if e.kind in ("call", "mcall") and e.name in ("os.symlink", "os.link", "pathlib.Path.symlink_to", "symlink_to")]
    out = mk("attr", SELF, "output")
    if not es:
        r.und(LINK, f.loc, "no link is made")
        return
    for e in es:
        if e.name != "os.symlink" or len(e.args) < 2:
            r.ob(False if e.name == "os.link" else None, LINK, e.where(), e.name)
            continue
        dst = strip_epoch(norm(e.args[1]))
        ls = [l for l in e.loops if l.op == "loop"]
        if len(e.loops) != 1 or not ls or not same(canon(ls[0]).args[0], links):
            r.und(LINK, e.where(), f"links {[text(l)[:60] for l in e.loops]}")
            continue
        cut = cut_short(i, e.loops)
        if cut:
            r.bad(LINK, cut[0].where(), "the links after this one are not made")
        el = mk("elem", *ls[0].args[:2])
        want = norm(mk("call", "os.path.join", out, el))
        r.ob(True if same(dst, want) else None if place(dst) is None else place(dst) == place(want), LINK, e.where(), f"made at {text(dst)[:60]}")
        g = strip_epoch(norm(e.guard))

        def f2(x):
            if x.op == "truthy" and x.args[0].op == "call" and x.args[0].args[0] in ("os.path.lexists", "os.path.exists", "os.path.islink") and same(x.args[0].args[1], dst):
                return mk("truthy", mk("sym", x.args[0].args[0][8:]))
            return x
        g = tm.rewrite(g, f2)
        LE, EXI, ISL = (mk("truthy", mk("sym", n)) for n in ("lexists", "exists", "islink"))
        facts = band(bor(bnot(EXI), LE), bor(bnot(ISL), LE), bor(bnot(LE), EXI, ISL))
        safe = not tm.satisfiable(band(g, facts, LE))
        handled = [n for tid, part in e.zones if part == "body" and tid in i.tries for hs in i.tries[tid].handlers for n in hs]
        r.ob(True if safe else False if "FileExistsError" not in handled else None, LINK, e.where(), f"made if {text(g)[:100]}")
        # every link that does not exist
        nothing = band(bnot(LE), bnot(EXI), bnot(ISL), tm.rewrite(truth(links), lambda x: x))
        rest = tm.rewrite(bnot(g), lambda x: FALSE if x.op == "exc" else x)
        left = band(nothing, rest)
        r.ob(True if not tm.satisfiable(left) else None, LINK, e.where(), "made wherever nothing exists")
        src = strip_epoch(norm(e.args[0]))
        prevdir = norm(mk("call", "os.path.join", mk("call", "os.path.join", mk("call", "os.path.dirname", out), tm.cat(mk("attr", mk("attr", SELF, "prev_patch"), "version"))), el))
        ddir = norm(mk("call", "os.path.dirname", dst))
        if src.op == "call" and src.args[0] == "os.path.relpath" and len(src.args) > 2:
            a, ra = flat(src.args[1])
            b, rb = flat(src.args[2])
            target(r, e, a, prevdir, out)
            r.ob(True if same(b, ddir) else False if same(b, out) or same(b, dst) else None, LINK, e.where(), f"relative to {text(b)[:60]}")
            r.ob(ra == rb, LINK, e.where(), "both paths are resolved, or none")
        else:
            a, ra = flat(src)
            if same(a, prevdir):
                r.ob(True if src is not a else False, LINK, e.where(), "absolute path" if src is not a else "the target is relative to the current directory, not to the link")
            else:
                target(r, e, a, prevdir, out)
    # something else is there
    rs = [e for e in i.events if e.kind == "raise" and e.loops and not any(z[1].startswith("handler") for z in e.zones)]
    err = FALSE
    for e in rs:
        err = bor(err, tm.rewrite(strip_epoch(norm(e.guard)), f2))
    if tm.satisfiable(band(LE, bnot(ISL), facts, truth(links), bnot(err))) and es:
        unk = [x for x in tm.atoms(err) if x not in (LE, EXI, ISL, truth(links))]
        r.ob(None if unk else False, LINK, f.loc, "a file or directory where a link is to be made is an error")
    elif es:
        r.ok(LINK, f.loc, "a file or directory where a link is to be made is an error")


def target(r, e, a, want, out):
    if same(a, want):
        r.ok(LINK, e.where(), "leads to the same path of the previous patch")
        return
    x, y = place(a), place(want)
    r.ob(None if x is None or y is None else x == y, LINK, e.where(), f"leads to {text(a)[:100]}")


def place(t):
    """Example of a path."""
    def leaf(x, nothing):
        if x is mk("attr", SELF, "output"):
            return "/exports/13.2"
        if x.op == "attr" and x.args[1] == "version":
            return "13.1" if x.args[0] is mk("attr", SELF, "prev_patch") else "13.2"
        if x.op == "elem" and x.args[0].op == "param":
            return "game/assets/x.png"
        if x.op == "call" and x.args[0] in ("os.path.dirname", "os.path.basename", "os.path.normpath", "os.path.abspath", "os.path.realpath"):
            return getattr(os.path, x.args[0][8:].replace("realpath", "normpath"))(calc(x.args[1], leaf))
        if x.op == "call" and x.args[0] == "os.path.join":
            return os.path.join(*[calc(y, leaf) for y in x.args[1:] if y.op not in ("uid", "epoch")])
        if x.op == "call" and x.args[0] == "os.path.relpath":
            return os.path.relpath(*[calc(y, leaf) for y in x.args[1:] if y.op not in ("uid", "epoch")])
        return nothing
    try:
        return os.path.normpath(calc(t, leaf))
    except (Unknown, Fails, Exception):
        return None


SAMPLE = "the export of a sample patch does what is documented, in order"


def sample_process(c, f, i):
    me = mk("param", f.node.args.args[0].arg)
    over = mk("param", f.node.args.args[1].arg) if len(f.node.args.args) > 1 else None
    ext = [q for q in ("export_tft_data", "export_arena_data", "_create_exporter", "_transform_exported_files", "_create_symlinks") if c.prog.func(CR + q) is None]
    if ext:
        return
    lazy = [e for e in i.events if e.kind == "call" and e.name.split(".")[-1] in ("all_converted_exported_paths", "unknown_hashes") and e.name.startswith("repo:") and e.result is not None]
    when = {id(e): consumed(i, e) for e in lazy}
    RAW, NEW, CHANGED, PREV_ = ("raw",), ("b", "a", "c/d", "c/e", "\u00e9"), ("a", "\u00e9"), ("z", "c/e", "b", "c/d")
    HASHES = (0xFEDCBA9876543210, 0xA)
    for prev, create, links, changed in ((False, False, (), NEW), (True, False, (), NEW), (True, True, ("c", "b"), CHANGED), (True, True, (), CHANGED)):
        for there in ((), ("o",), ("o", "o/cdragon")):
            for ow in ((True, False) if there else (True,)):
                P1, P2 = Obj("patch", {"Patch"}, version="v2"), (Obj("previous patch", {"Patch"}, version="v1") if prev else None)
                new, old = Obj("exporter", {"Exporter"}, named=False, filtered=False, patch=P1), Obj("exporter of the previous patch", {"Exporter"}, named=False, filtered=False, patch=P2)
                done, files, dirs, taken = [], {}, set(there), {}

                def paths(o):
                    if o is old:
                        return PREV_ if o.attrs["named"] else RAW
                    return RAW if not o.attrs["named"] else CHANGED if o.attrs["filtered"] else NEW

                def rargs(sim, x):
                    return [sim.value(y.args[1] if y.op == "kw" else y) for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "epoch")]

                def world(sim, x, nothing):
                    if x is me:
                        return "patch exporter"
                    if over is not None and x is over:
                        return ow
                    if x.op == "attr" and x.args[0] is me:
                        return {"output": "o", "patch": P1, "prev_patch": P2, "create_symlinks": create}.get(x.args[1], nothing)
                    if x.op == "isinst":
                        return nothing
                    if x.op == "call":
                        n = str(x.args[0])
                        k = strip_epoch(x)
                        if k in taken:
                            return taken[k]
                        if n.endswith("._create_exporter"):
                            a = rargs(sim, x)[-1]
                            return new if a is P1 else old if a is P2 and prev else nothing
                        if n.endswith(".reduce_common_paths"):
                            a = rargs(sim, x)
                            return links if [set(y) for y in a] == [set(NEW) - set(CHANGED), set(PREV_), set(CHANGED)] else ("wrong",)
                        if n in ("open", "io.open"):
                            return ("file", sim.value(x.args[1]))
                        if n in ("os.path.exists", "os.path.isdir", "os.path.lexists"):
                            return sim.value(x.args[1]) in dirs
                    return nothing

                def extra(sim, e):
                    for p in lazy:
                        if id(p) not in done_ids and when[id(p)] <= e.seq and sim.true(p.guard):
                            done_ids.add(id(p))
                            o = sim.value(p.args[0])
                            taken[strip_epoch(p.result)] = (frozenset(paths(o)) if p.name.endswith("paths") else (HASHES if not o.attrs["named"] and not o.attrs["filtered"] else ()))
                    n = e.name.split(".")[-1]
                    if e.kind == "call" and e.name.startswith("repo:"):
                        a = [sim.value(y) for y in e.args] if n in ("_transform_exported_files", "filter_exporter", "clean_output_dir", "export", "_create_symlinks") else []
                        kw = {k: sim.value(v) for k, v in (e.kw or {}).items()} if a else {}
                        if n == "_transform_exported_files":
                            o = next(y for y in a if isinstance(y, Obj) and y in (new, old))
                            if o.attrs["patch"].attrs["version"] not in a + list(kw.values()) or o.attrs["filtered"] or o.attrs["named"]:
                                raise Fails
                            o.attrs["named"] = True
                        elif n == "filter_exporter":
                            if a != [new, old] or not old.attrs["named"] or not new.attrs["named"]:
                                raise Fails
                            new.attrs["filtered"] = True
                        elif n == "clean_output_dir":
                            done.append(("clean", a[0], set(a[1]), set(a[2])) if len(a) == 3 else ("clean", a[0], *(set(kw[k]) for k in ("kept_files", "kept_symlinks") if k in kw)))
                        elif n == "export":
                            done.append(("export", a[0], a[1] if len(a) > 1 else kw.get("overwrite", True)))
                            dirs.add("o")
                        elif n == "_create_symlinks":
                            ls = a[-1] if len(a) > 1 else next(iter(kw.values()), None)
                            if ls:
                                done.append(("links", set(ls)))
                        elif n in ("export_tft_data", "export_arena_data"):
                            done.append((n,))
                    elif e.kind == "call" and e.name in ("os.makedirs", "os.mkdir"):
                        d = os.path.normpath(sim.value(e.args[0]))
                        if d in dirs and not (e.name == "os.makedirs" and e.kw and "exist_ok" in e.kw and sim.value(e.kw["exist_ok"])):
                            raise Fails
                        while d:
                            dirs.add(d)
                            d = os.path.dirname(d)
                    elif e.kind == "call" and e.name in ("open", "io.open"):
                        p = sim.value(e.args[0])
                        if os.path.dirname(os.path.normpath(p)) not in dirs or os.path.normpath(p) in dirs:
                            raise Fails
                        files[os.path.normpath(p)] = ""
                    elif e.kind == "call" and e.name == "print" and e.kw and "file" in e.kw:
                        put(sim.value(e.kw["file"]), (sim.value(e.kw["sep"]) if "sep" in e.kw else " ").join(str(sim.value(y)) for y in e.args) + (sim.value(e.kw["end"]) if "end" in e.kw else "\n"))
                    elif e.kind == "mcall" and e.name in ("write", "writelines"):
                        v = sim.value(e.args[0])
                        put(sim.value(e.recv), v if isinstance(v, str) else "".join(v))
                    elif e.kind == "mcall" and e.name in ("mkdir", "open", "write_text"):
                        raise Unknown

                def put(h, v):
                    if not (isinstance(h, tuple) and h[:1] == ("file",)):
                        raise Unknown
                    files[os.path.normpath(h[1])] += v
                done_ids = set()
                where = f"{f.loc} ({'previous patch, ' if prev else ''}{'links, ' if create else ''}{len(links)} common, {'existing' if there else 'new'} output{' with lists' if len(there) > 1 else ''}{'' if ow else ', lazy'})"
                try:
                    e = Play(i, world, extra=extra).play()
                    if e is not None:
                        c.r.bad(SAMPLE, where, f"raises {e.name}")
                        continue
                except Fails:
                    c.r.bad(SAMPLE, where, "raises an error, or is done too early or too late")
                    continue
                except (Unknown, KeyError, StopIteration, AttributeError, TypeError, ValueError, IndexError) as x:
                    c.r.und(SAMPLE, where, f"not understood {x}")
                    continue
                want = [("clean", new, set(changed) | {"cdragon"}, set(links)), ("export", new, ow)] + ([("links", set(links))] if links else [])
                if done[:len(want)] != want or sorted(done[len(want):]) != [("export_arena_data",), ("export_tft_data",)]:
                    c.r.bad(SAMPLE, where, f"does {done}, not {want}")
                    continue
                lists_ = {"o/cdragon/files.exported.txt": set(NEW), "o/cdragon/files.unknown.txt": {f"{h:016x}" for h in HASHES}}
                if links:
                    lists_["o/cdragon/files.links.txt"] = set(links)
                bad = [k for k in lists_ if k not in files or not (files[k].endswith("\n") and len(files[k].splitlines()) == len(lists_[k]) and set(files[k].splitlines()) == lists_[k])] + \
                    [k for k in files if k not in lists_ and not (k == "o/cdragon/files.links.txt" and not files[k])]
                c.r.ob(not bad, SAMPLE, where, f"{bad[0]} holds {files.get(bad[0])!r}" if bad else f"{len(files)} lists")
