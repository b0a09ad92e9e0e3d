"""C36: an incremental export omits only what the previous patch already has."""
from vfa.q import *
from vfa.sim import Obj
from vfa.tape import Play

RULE = """From Exporter.filter_exporter, everything removed from the files to export (deleted or left out keys of the two mappings, shortened lists of archive entries) is collected with
its condition, over the terms of the two exporters for the same export path and the same entry hash: a plain file may only go if the sources at that path are equal, an archive only if
its source is the same or nothing is left in it, an entry only if it has a checksum and the other archive, at the same export path, has the same checksum for the same path hash. In
CdragonRawPatchExporter.process, the links must be computed from the paths of the new patch minus those that are still exported after filtering, the paths of the previous patch, and
the paths that are still exported; the recursion that groups common paths may only report a directory that is the same in both patches and holds nothing that is exported. Exporter.export
must convert every file that is left. The filter is also followed over sample contents of two patches (same, changed, new and dropped files, archives and entries, with and without checksum): what
is left must be exactly what the previous patch does not have, without an error."""

PLAIN, WAD, ENTRY, LINKS, GROUP, EXPORT = ("a plain file is left out only if it has the same source at the same path", "an archive is left out only if it is the same, or nothing is left of it",
                                           "an archive entry is left out only if its known checksum is the same", "links are for unchanged files of both patches",
                                           "only identical directories without changes are linked as a whole", "every other file is exported")
SELF = mk("param", "self")
CR = "export.CdragonRawPatchExporter."
EX = "export.Exporter."


def check(c):
    f = c.prog.func(EX + "filter_exporter")
    if f is None:
        c.r.und(PLAIN, "export.Exporter", "no filter")
    else:
        filtering(c, f)
        c.part(sample_filter, f)
    links(c)
    grouping(c)
    exporting(c)


# ---------------------------------------------------------------- filter

class Side:
    """Canonical form of the values at one key in the mappings of the two exporters."""

    def __init__(self, attr, key, other):
        self.mine, self.his = mk("attr", SELF, attr), mk("attr", other, attr)
        self.key = key
        self.S, self.O, self.IS, self.IO = mk("sym", "mine"), mk("sym", "his"), mk("truthy", mk("sym", "in mine")), mk("truthy", mk("sym", "in his"))

    def canon(self, t):
        def f(x):
            for coll, v, has in ((self.mine, self.S, self.IS), (self.his, self.O, self.IO)):
                if x.op == "index" and same(x.args[0], coll) and same(x.args[1], self.key):
                    return v
                if x.op == "val" and same(x.args[0], coll) and self.key.op == "key" and self.key.args[0] is x.args[0] and self.key.args[1:] == x.args[1:]:
                    return v
                if x.op == "in" and same(x.args[0], self.key) and same(x.args[1], coll):
                    return TRUE if self.key.op == "key" and same(self.key.args[0], coll) else has
            if x.op == "is" and x.args[0] in (self.S, self.O) and x.args[1] is NONE:
                return FALSE
            if x.op == "==" and set(x.args) in ({self.S, NONE}, {self.O, NONE}):
                return FALSE
            return x
        t = norm(t)
        return tm.rewrite(tm.rewrite(t, f), f)


def known(g, allowed):
    """Are all the parts of a condition understood?"""
    for a in tm.atoms(g):
        for x in subterms(a):
            if x in allowed or plain_call(x):
                continue
            if x.op in ("call", "mcall", "vcall", "opaque", "mu", "post", "popped", "any"):
                return False
    return True


def plain_call(x):
    """Calls that say little about the contents of files."""
    if x.op == "call":
        return x.args[0] in ("len", "abs", "int", "os.path.basename", "os.path.dirname", "os.path.splitext", "os.path.split", "os.path.getsize", "os.path.exists", "os.path.normpath", "os.path.getmtime")
    return x.op == "mcall" and x.args[1] in ("lower", "upper", "endswith", "startswith", "split", "rsplit", "strip", "replace")


def implies(g, want):
    return entails_cases(g, want)


def filtering(c, f):
    r = c.r
    ps = [a.arg for a in f.node.args.args]
    other = mk("param", ps[1])
    i = c.run(f)
    lists = {}       # term of an archive -> kept-entry conditions
    for e in i.events:
        if e.kind == "setattr" and e.name == "files":
            entries_kept(r, i, e, other, lists)
    gone = 0
    for attr, what in (("plain_files", PLAIN), ("wads", WAD)):
        mine = mk("attr", SELF, attr)
        n = 0
        for e in i.events:
            if e.recv is not None and same(e.recv, mine) and (e.kind == "delitem" or e.kind == "mcall" and e.name == "pop" and e.args):
                n += 1
                removal(r, e.where(), what, Side(attr, strip_epoch(norm(e.args[0])), other), strip_epoch(e.guard), lists, what is WAD)
            elif e.recv is not None and same(e.recv, mine) and e.kind == "mcall" and e.name in ("clear", "popitem"):
                r.bad(what, e.where(), f"{e.name}()")
            elif e.kind == "setattr" and e.name == attr and e.recv is SELF:
                n += 1
                rebuilt(r, e, what, attr, other, lists)
        if not n:
            r.bad(what, f.loc, f"nothing is ever removed from {attr}")
        gone += n
    if not any(o[1] == ENTRY for o in r.obligations):
        r.bad(ENTRY, f.loc, "unchanged entries of changed archives are not left out")


def rebuilt(r, e, what, attr, other, lists):
    """self.attr = {k: v for ... if kept}"""
    v = strip_epoch(norm(e.args[0]))
    es = tm.entries_of(v)
    mine = mk("attr", SELF, attr)
    if v.op != "build" or not es or len(es) != 1 or es[0].op != "entry":
        r.und(what, e.where(), f"{attr} = {text(v)[:80]}")
        return
    loops, g, value, key = es[0].args[0].args, es[0].args[1], es[0].args[2], es[0].args[3]
    if len(loops) != 1 or loops[0].op != "loop" or not same(loops[0].args[0], mine) or len(loops[0].args) != 2:
        r.und(what, e.where(), f"{attr} = {text(v)[:80]}")
        return
    n = loops[0].args[1]
    side = Side(attr, mk("key", loops[0].args[0], n), other)
    if side.canon(value) is not side.S or key is not side.key:
        r.bad(what, e.where(), f"{text(key)[:40]} -> {text(value)[:60]}")
        return
    removal(r, e.where(), what, side, band(e.guard, bnot(g)), lists, what is WAD)


def removal(r, where, what, side, g, lists, wad):
    g = side.canon(g)
    want = eq(side, wad)
    empties = []

    def emptied(x):
        # no entry is left: every entry is one that may be left out
        if x.op == "any" and wad:
            for l in x.args[0].args:
                if l.op == "loop" and same(l.args[0], mk("attr", side.S, "files")):
                    empties.append(x)
        return x
    tm.rewrite(g, emptied)
    ok = FALSE
    for x in empties:
        good = dropped_ok(side, x.args[1], x.args[0].args)
        if good:
            ok = bor(ok, bnot(x))
    for x in tm.atoms(g):
        if wad and x.op == "truthy" and side.S in subterms(x) and x.args[0].op == "attr" and x.args[0].args[1] == "files":
            ok = bor(ok, bnot(x))
        if wad and x.op == "==" and const(0) in x.args and any(is_len(y) for y in x.args):
            ok = bor(ok, x)
    somethings = [bnot(f(x, NONE)) for x in (side.S, side.O) for f in (lambda a, b: tm.cmp("==", a, b), lambda a, b: mk("is", a, b))]
    if implies(band(g, *somethings), bor(want, ok)):
        r.ok(what, where, "same source")
        return
    ex = [y for x in empties for y in subterms(x)]
    r.ob(False if known(g, set(ex)) else None, what, where, f"removed if {text(g)[:140]}")


def eq(side, wad):
    a, b = (mk("attr", side.S, "path"), mk("attr", side.O, "path")) if wad else (side.S, side.O)
    return band(tm.cmp("==", a, b), side.IO if not (side.key.op == "key" and same(side.key.args[0], side.his)) else TRUE)


def dropped_ok(side, keep, loops):
    """Does an entry that is not kept have the known checksum of the entry with the same hash in the other archive?"""
    el = [mk("elem", *l.args) for l in loops if l.op == "loop"]
    if len(el) != 1:
        return None
    wf = el[0]
    h, sha = mk("attr", wf, "path_hash"), mk("attr", wf, "sha256")
    there, hers = mk("truthy", mk("sym", "entry there")), mk("sym", "checksum there")
    both = mk("truthy", mk("sym", "same hash and checksum there"))

    def table(d):
        """'map' {path_hash: sha256}, 'pairs' {(path_hash, sha256)} of the other archive"""
        es = tm.entries_of(d)
        if not es or len(es) != 1 or es[0].op != "entry" or len(es[0].args[0].args) != 1:
            return None
        l = es[0].args[0].args[0]
        if l.op != "loop" or not same(l.args[0], mk("attr", side.O, "files")):
            return None
        w2 = mk("elem", *l.args)
        v, k = es[0].args[2], es[0].args[3]
        if d.op == "build" and d.args[0] == "dict":
            return "map" if k is mk("attr", w2, "path_hash") and v is mk("attr", w2, "sha256") else None
        if v.op == "tuple":
            return "pairs" if v.args == (mk("attr", w2, "path_hash"), mk("attr", w2, "sha256")) else "swapped" if v.args == (mk("attr", w2, "sha256"), mk("attr", w2, "path_hash")) else None
        return None

    def f(x):
        if x.op == "in":
            t = table(x.args[1])
            if t == "map" and x.args[0] is h:
                return there
            if t == "pairs" and x.args[0].op == "tuple" and x.args[0].args == (h, sha) or t == "swapped" and x.args[0].op == "tuple" and x.args[0].args == (sha, h):
                return both
        if x.op == "index" and x.args[1] is h and table(x.args[0]) == "map":
            return hers
        return x
    keep = tm.rewrite(side.canon(keep), f)
    keep = tm.rewrite(keep, f)
    drop = bnot(keep)
    want = band(bnot(mk("is", sha, NONE)), bor(both, band(there, tm.cmp("==", sha, hers))))
    # truthiness of a checksum implies that there is one
    facts = band(*[bor(bnot(x), bnot(mk("is", sha, NONE))) for x in tm.atoms(keep) if x.op == "truthy" and x.args[0] is sha])
    if implies(band(drop, facts), want):
        return True
    return False if known(keep, set()) else None


def entries_kept(r, i, e, other, lists):
    v = strip_epoch(norm(e.args[0]))
    recv = strip_epoch(norm(e.recv))
    keys = [x.args[1] for x in subterms(recv) if x.op == "index" and same(x.args[0], mk("attr", SELF, "wads"))] + \
        [mk("key", *x.args) for x in subterms(recv) if x.op == "val" and same(x.args[0], mk("attr", SELF, "wads"))]
    es = tm.entries_of(v)
    if not keys or v.op != "build" or not es or len(es) != 1 or es[0].op != "entry" or len(es[0].args[0].args) != 1:
        r.und(ENTRY, e.where(), f"files = {text(v)[:100]}")
        return
    side = Side("wads", keys[0], other)
    loop, g, value = es[0].args[0].args[0], es[0].args[1], es[0].args[2]
    if side.canon(recv) is not side.S:
        r.und(ENTRY, e.where(), f"the archive {text(recv)[:80]}")
        return
    l = side.canon(loop)
    if l.op != "loop" or len(l.args) != 2 or not same(l.args[0], mk("attr", side.S, "files")) or side.canon(value) is not mk("elem", *l.args):
        r.ob(None if any(x.op in ("call", "mcall", "opaque") for x in subterms(l)) else False, ENTRY, e.where(), f"entries of {text(l)[:80]}")
        return
    cut = cut_short(i, [*e.loops, loop])
    if cut:
        r.bad(ENTRY, cut[0].where(), "the entries after this one are left out")
    r.ob(dropped_ok(side, g, [l]), ENTRY, e.where(), f"kept if {text(side.canon(g))[:140]}")
    # not reachable for an archive that the other exporter does not have
    gd = side.canon(strip_epoch(e.guard))
    if not implies(gd, eq(side, True).args[0] if False else (side.IO if not (side.key.op == "key" and same(side.key.args[0], side.his)) else TRUE)):
        r.ob(None, ENTRY, e.where(), f"compared if {text(gd)[:100]}")


SAMPLE = "what is left to export is exactly what the previous patch does not have"


def sample_filter(c, f):
    """filter_exporter followed over sample contents of two patches."""
    i = c.run(f, self_type=c.prog.cls("export.Exporter"))
    me, ot = (mk("param", a.arg) for a in f.node.args.args[:2])

    def wad(src, *es):
        return src, tuple(es)
    new_p = {"a": "s1/a", "b": "s2/b", "c": "s2/c", "d/e": "s2/e"}
    old_p = {"a": "s1/a", "b": "s1/b", "gone": "s1/gone", "d/x": "s2/e"}
    new_w = {"same.wad": wad("s1/same", (1, b"x")), "mod.wad": wad("s2/mod", (1, b"x"), (2, b"y"), (3, None), (4, b"w"), (5, b"v")), "new.wad": wad("s2/new", (1, b"x")), "all.wad": wad("s2/all", (1, b"x"), (2, b"y")), "none.wad": wad("s2/none", (7, b"q"))}
    old_w = {"gone.wad": wad("s1/gone", (1, b"x")), "same.wad": wad("s1/same", (1, b"x")), "mod.wad": wad("s1/mod", (1, b"x"), (2, b"Y"), (3, None), (5, b"w"), (6, b"v")), "all.wad": wad("s1/all", (2, b"y"), (1, b"x"), (3, b"z")), "none.wad": wad("s1/none")}
    late = {"zz.wad": wad("s1/zz", (1, b"x")), **{k: old_w[k] for k in reversed(old_w)}, "last.wad": wad("s1/last", (2, b"y"))}
    samples = [({}, {}, {}, {}), (new_p, {}, {}, {}), (new_p, {}, old_p, {}), ({}, {}, old_p, old_w), ({}, new_w, {}, {}), ({}, new_w, {}, old_w), (new_p, new_w, old_p, late), (old_p, old_w, new_p, new_w), (new_p, new_w, new_p, new_w)]
    for n, (p1, w1, p2, w2) in enumerate(samples):
        where = f"{f.loc} (sample {n})"

        def made(w, tag):
            return {k: Obj(f"{tag} {k}", {"Wad"}, path=src, files=tuple(Obj(f"{tag} {k} {h}", {"WadFileHeader"}, path_hash=h, sha256=x, path=None, type=0) for h, x in es)) for k, (src, es) in w.items()}
        mine, his = {"plain_files": dict(p1), "wads": made(w1, "new")}, {"plain_files": dict(p2), "wads": made(w2, "old")}

        def world(sim, x, nothing):
            if x is me or x is ot:
                return "exporter"
            if x.op == "attr" and x.args[0] in (me, ot) and x.args[1] in mine:
                return (mine if x.args[0] is me else his)[x.args[1]]
            return nothing

        def extra(sim, e):
            if e.kind == "setattr":
                v = sim.value(e.args[0])
                if e.recv is me and e.name in mine:
                    mine[e.name] = v
                else:
                    o = sim.value(e.recv)
                    if not isinstance(o, Obj):
                        raise Unknown
                    o.attrs[e.name] = v
            elif e.kind == "delitem" or e.kind == "mcall" and e.name in ("pop", "remove", "clear", "discard", "popitem", "update"):
                d = sim.value(e.recv)
                if not isinstance(d, dict) or e.name not in ("pop", "[]") and e.kind != "delitem":
                    raise Unknown
                k = sim.value(e.args[0])
                if k in d:
                    del d[k]
                elif len(e.args) < 2:
                    raise Fails
        want_p = {k: v for k, v in p1.items() if p2.get(k) != v}
        want_w = sorted((k, h) for k, (src, es) in w1.items() for h, x in es if not (k in w2 and (w2[k][0] == src or x is not None and dict(w2[k][1]).get(h) == x)))
        try:
            e = Play(i, world, extra=extra).play()
            if e is not None:
                c.r.bad(SAMPLE, where, f"raises {e.name}")
                continue
            got_p = dict(mine["plain_files"])
            got_w = sorted((k, x.attrs["path_hash"]) for k, w in mine["wads"].items() for x in w.attrs["files"])
        except Fails:
            c.r.bad(SAMPLE, where, "raises an error")
            continue
        except (Unknown, AttributeError, KeyError, TypeError):
            c.r.und(SAMPLE, where, "not understood")
            continue
        ok = got_p == want_p and got_w == want_w
        c.r.ob(ok, SAMPLE, where, f"{len(got_p)} files and {len(got_w)} entries" if ok else f"leaves {got_p} and {got_w}, not {want_p} and {want_w}")


# ---------------------------------------------------------------- links

OPAQUE = [CR + "_create_exporter", CR + "_transform_exported_files", CR + "export_tft_data", CR + "export_arena_data", "export.reduce_common_paths", EX + "clean_output_dir", EX + "export",
          EX + "filter_exporter", EX + "all_converted_exported_paths", EX + "unknown_hashes", CR + "_create_symlinks"]
STAMP = [EX + "all_converted_exported_paths", EX + "unknown_hashes"]


def process(c):
    return c.run(CR + "process", opaque=[q for q in OPAQUE if c.prog.func(q) is not None], stamp=STAMP)


def consumed(i, e):
    """When are the elements of a stamped result looked at: the call itself, or the first iteration if it is a generator."""
    f = e.extra
    if f is None or not getattr(f, "is_gen", False):
        return e.seq
    r = strip_epoch(e.result)
    uses = [x.seq for x in i.events if x.seq > e.seq and (x.kind == "consume" or x.kind == "call" and not x.name.startswith("repo:")) and any(isinstance(a, T) and strip_epoch(a) is r for a in x.args)]
    return min(uses) if uses else 10 ** 9


def pathset(t):
    """The call whose paths make up a set (or list) exactly; None otherwise."""
    t = strip_epoch(norm(t))
    if t.op == "call" and t.args[0] in ("set", "frozenset", "list", "sorted", "tuple") and len(t.args) == 2:
        return pathset(t.args[1])
    if repo_call(t, "all_converted_exported_paths"):
        return t
    es = tm.entries_of(t)
    if t.op == "build" and es and len(es) == 1 and es[0].op == "entry":
        ls, g, v = es[0].args[0].args, es[0].args[1], es[0].args[2]
        if len(ls) == 1 and ls[0].op == "loop" and len(ls[0].args) == 2 and v is mk("elem", *ls[0].args) and g is TRUE:
            return pathset(ls[0].args[0])
    return None


def minus(t):
    """(a, b) of a set difference a - b."""
    t = strip_epoch(norm(t))
    if t.op == "setdiff":
        return t.args
    if t.op == "bin" and t.args[0] == "-":
        return t.args[1:]
    if t.op == "mcall" and t.args[1] == "difference":
        return t.args[0], t.args[2]
    es = tm.entries_of(t)
    if t.op == "build" and es and len(es) == 1 and es[0].op == "entry":
        ls, g, v = es[0].args[0].args, es[0].args[1], es[0].args[2]
        if len(ls) == 1 and ls[0].op == "loop" and v is mk("elem", *ls[0].args) and g.op == "not" and g.args[0].op == "in" and g.args[0].args[0] is v:
            return ls[0].args[0], g.args[0].args[1]
    return None


def empty(t):
    t = strip_epoch(norm(t))
    return t.op == "build" and len(t.args) == 1 or t.op in ("list", "tuple", "set") and not t.args


def setop(t):
    """An intersection or union of known sets of paths."""
    t = strip_epoch(norm(t))
    return t.op == "bin" and t.args[0] in ("&", "|") and all(pathset(x) is not None or setop(x) for x in t.args[1:]) or \
        t.op in ("and", "or") and any(pathset(y) is not None for x in t.args for y in subterms(x))


def exporters(i):
    """(exporter of the patch, exporter of the previous patch, calls by name)"""
    by = {}
    for e in i.events:
        if e.kind == "call" and e.name.startswith("repo:"):
            by.setdefault(e.name.split(".")[-1], []).append(e)
    new = old = None
    for e in by.get("_create_exporter", []):
        a = e.args[-1]
        if a is mk("attr", SELF, "patch"):
            new = e.result
        elif a is mk("attr", SELF, "prev_patch"):
            old = e.result
    return new, old, by


def links(c):
    r = c.r
    f = c.prog.func(CR + "process")
    if f is None:
        r.und(LINKS, "export", "not found")
        return
    i = process(c)
    new, old, by = exporters(i)
    if new is None or old is None or len(by.get("filter_exporter", [])) != 1 or not by.get("reduce_common_paths"):
        miss = [n for n in ("filter_exporter", "reduce_common_paths") if not by.get(n)]
        r.ob(False if new is not None and old is not None and miss else None, LINKS, f.loc, f"exporters of the patch and of the previous patch, {', '.join(miss)} not used" if miss else "calls not recognised")
        return
    fe = by["filter_exporter"][0]
    r.ob(fe.args == [new, old] and not fe.loops, LINKS, fe.where(), "the previous patch is filtered out of the new one")
    seq = {strip_epoch(e.result): consumed(i, e) for e in by.get("all_converted_exported_paths", [])}
    for e in by.get("_transform_exported_files", []):
        r.ob(e.seq < fe.seq, LINKS, e.where(), "both patches are filtered and named before they are compared")
    for e in by["reduce_common_paths"]:
        if len(e.args) != 3:
            r.und(LINKS, e.where(), "arguments")
            continue
        d = minus(e.args[0])
        prev, ex = pathset(e.args[1]), pathset(e.args[2])
        if d is None:
            r.ob(False if pathset(e.args[0]) is not None or setop(e.args[0]) else None, LINKS, e.where(), f"paths to link: {text(e.args[0])[:100]}")
            continue
        a, b = pathset(d[0]), pathset(d[1])
        for what, t, exporter, late in (("all paths of the new patch", a, new, False), ("paths still exported", b, new, True), ("paths of the previous patch", prev, old, None), ("paths still exported (excluded)", ex, new, True)):
            if t is None:
                whole = e.args[2] if exporter is new and late and "excluded" in what else NONE
                r.ob(False if empty(whole) else None, LINKS, e.where(), f"{what}: " + ("nothing" if empty(whole) else "not recognised"))
                continue
            good = t.args[1] is exporter and (late is None or (seq.get(t, -1) > fe.seq) == late)
            r.ob(good, LINKS, e.where(), f"{what}: {text(t)[:80]}" + ("" if good else ", before filtering" if late and t.args[1] is exporter else ""))
    for e in by.get("_create_symlinks", []):
        ls = [v for g, v in tm.cases(strip_epoch(norm(e.args[-1]))) if v is not NONE and tm.satisfiable(band(g, strip_epoch(norm(e.guard))))]
        r.ob(all(repo_call(v, "reduce_common_paths") for v in ls) if ls else None, LINKS, e.where(), "links are made for the common paths")


# ---------------------------------------------------------------- grouping

def grouping(c):
    r = c.r
    f, g = c.prog.func("export.reduce_common_trees"), c.prog.func("export.reduce_common_paths")
    if f is None or g is None or c.prog.func("export.paths_to_tree") is None:
        r.und(GROUP, "export.reduce_common_paths", "not recognised")
        return
    ps = [mk("param", a.arg) for a in f.node.args.args]
    i = c.run(f)
    parts, t1, t2, ex = ps
    leaf, equal, clean = mk("is", t1, NONE), tm.cmp("==", t1, t2), mk("is", ex, NONE)
    rec = [e for e in i.events if e.kind == "call" and e.name == "repo:export.reduce_common_trees"]
    inner = {e.result for e in rec}
    ys = [e for e in i.events if e.kind == "yield"]
    own = [e for e in ys if not e.loops]
    for e in own:
        gd = norm(e.guard)
        v = norm(e.args[0])
        r.ob(v is mk("join", const("/"), parts) or None, GROUP, e.where(), f"reports {text(v)[:60]}")
        if implies(gd, bor(leaf, band(equal, bor(clean, bnot(truth(ex)))))):
            r.ok(GROUP, e.where(), "a file, or a directory that is the same in both and holds no change")
        else:
            extra = [x for x in tm.atoms(gd) if x not in (leaf, equal, clean)]
            r.ob(None if any(x.op == "call" and str(x.args[0]).startswith("repo:") for a in extra for x in subterms(a)) else False, GROUP, e.where(), f"a directory is reported as common if {text(gd)[:100]}")
    if not own:
        r.und(GROUP, f.loc, "nothing reported directly")
    if not rec:
        r.und(GROUP, f.loc, "no recursion")
    for e in rec:
        a = [strip_epoch(norm(x)) for x in e.args]
        name = None
        if len(e.loops) == 1 and e.loops[0].op == "loop" and same(e.loops[0].args[0], t1):
            name = mk("elem", *e.loops[0].args)
        names = {name, mk("key", *e.loops[0].args)} if name is not None else set()
        if name is None or len(a) != 4:
            r.und(GROUP, e.where(), "recursion not over the names of the tree")
            continue
        def at(t, tree):
            if t.op == "val" and t.args[0] is tree:
                return True
            return t.op == "index" and t.args[0] is tree and t.args[1] in names
        ok = at(a[1], t1) and at(a[2], t2)
        r.ob(ok or (False if all(x.op == "index" for x in a[1:3]) else None), GROUP, e.where(), f"compares {text(a[1])[:50]} with {text(a[2])[:50]}")
        pre = a[0].op == "bin" and a[0].args[0] == "+" and a[0].args[1] is parts and a[0].args[2].op in ("list", "build") or a[0].op == "build"
        last = any(x in names for x in subterms(a[0]))
        r.ob((pre and last) or None, GROUP, e.where(), f"path of a member: {text(a[0])[:60]}")
        # changes below are only forgotten where there are none
        forget = FALSE
        for gg, v in tm.cases(a[3]):
            if v is NONE:
                forget = bor(forget, gg)
            elif not at(v, ex):
                r.ob(False if v.op in ("index", "const", "param", "build") and v is not ex or v is ex else None, GROUP, e.where(), f"changes below a member: {text(v)[:60]}")
        has = [mk("in", n, ex) for n in names]
        okf = implies(norm(forget), bor(clean, bnot(truth(ex)), *[bnot(h) for h in has]))
        r.ob(okf or False, GROUP, e.where(), f"no changes below a member if {text(forget)[:100]}")
    j = c.run(g, opaque=["export.reduce_common_trees", "export.paths_to_tree"])
    qs = [mk("param", a.arg) for a in g.node.args.args]
    top = [e for e in j.events if e.kind == "call" and e.name == "repo:export.reduce_common_trees"]
    for e in top:
        a = [strip_epoch(norm(x)) for x in e.args]
        r.ob(len(a) == 4 and all(repo_call(x, "paths_to_tree") and x.args[1] is q for x, q in zip(a[1:], qs)), GROUP, e.where(), f"trees of {[text(x.args[1]) if repo_call(x, 'paths_to_tree') else text(x)[:40] for x in a[1:]]}")
    if not top:
        r.und(GROUP, g.loc, "trees are not compared")
    k = c.run("export.paths_to_tree")
    sp = [e for e in k.events if e.kind == "mcall" and e.name in ("split", "rsplit", "partition", "rpartition")]
    for e in sp:
        if e.name == "split":
            r.ob(e.args == [const("/")] and not e.kw, GROUP, e.where(), f"paths are split at each slash: {text(e.result)[:60] if e.result is not None else ''}")
    if not sp:
        r.und(GROUP, "export.paths_to_tree", "paths are not split")


# ---------------------------------------------------------------- export

def exporting(c):
    r = c.r
    f = c.prog.func(EX + "export")
    if f is None:
        r.und(EXPORT, "export.Exporter", "no export")
        return
    over = mk("param", f.node.args.args[1].arg) if len(f.node.args.args) > 1 else TRUE
    op = [q for q in ("wad.Wad.read_file_data", EX + "_get_converter", "export.FileConverter.converted_paths_exist") if c.prog.func(q) is not None]
    i = c.run(f, opaque=op)
    conv = [e for e in i.events if e.kind in ("call", "mcall", "vcall") and e.name.split(".")[-1] == "convert"]
    plain, wads = mk("attr", SELF, "plain_files"), mk("attr", SELF, "wads")
    for coll, what in ((plain, "plain file"), (wads, "archive entry")):
        es = [e for e in conv if e.loops and e.loops[0].op == "loop" and same(e.loops[0].args[0], coll)]
        if not es:
            r.ob(False if conv and len({e.loops for e in conv}) and any(e.loops for e in conv) else None, EXPORT, f.loc, f"no {what} is converted")
            continue
        done = FALSE
        bad = None
        for e in es:
            ls = e.loops
            cut = cut_short(i, ls)
            if cut:
                r.bad(EXPORT, cut[0].where(), "the files after this one are not exported")
            if any(l.op != "loop" or len(l.args) != 2 for l in ls) or len(ls) != (1 if coll is plain else 2):
                bad = e
                continue
            g = strip_epoch(norm(e.guard))
            none = []
            def f(x):
                if x.op == "exc" or x.op == "ok":
                    return FALSE if x.op == "exc" else TRUE
                if x.op == "truthy" and (repo_call(x.args[0], "converted_paths_exist")):
                    none.append(x)
                    return x
                if x.op == "is" and x.args[1] is NONE and (x.args[0].op == "attr" and x.args[0].args[1] == "path" or repo_call(x.args[0], "read_file_data")):
                    return FALSE
                if x.op == "truthy" and x.args[0].op == "attr" and x.args[0].args[1] == "path":
                    return TRUE
                return x
            g = tm.rewrite(g, f)
            done = bor(done, g)
        if bad is not None:
            r.und(EXPORT, bad.where(), f"loops {[text(l)[:60] for l in bad.loops]}")
            continue
        done = tm.rewrite(done, lambda x: TRUE if x.op == "any" and False else x)
        want = truth(over)
        left = bnot(done)
        g2 = band(want, left)
        if not tm.satisfiable(norm(g2)):
            r.ok(EXPORT, es[0].where(), f"every {what}, unless existing files are kept")
        else:
            r.ob(False if known(g2, {y for x in subterms(g2) if repo_call(x, 'converted_paths_exist') or x.op == 'any' for y in subterms(x)}) else None, EXPORT, es[0].where(), f"a {what} is not exported if {text(left)[:120]}")
