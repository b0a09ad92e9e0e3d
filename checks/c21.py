"""C21: lazy mode never touches existing output, normal mode always refreshes it."""
import ast
from vfa.q import *
from vfa import cli
from vfa.sim import Obj
from vfa.tape import Play

RULE = """For every event that reads the source of, converts or writes one file during extraction (Wad.extract) and export (Exporter.export, helpers inlined), the guard must be: independent of what exists when `overwrite` holds, and unsatisfiable
under `not overwrite` if the file's own output exists (the very path that is written, or all converted paths of the same path for the same converter), and not narrowed otherwise; the loop may not be left on that account. The existence test of
converters must be 'all announced paths exist below the output' for every kind of path. No converter tests for existing output itself or appends to it. `process` hands its flag on; the commands pass exactly `not args.lazy`, where --lazy is a
false-by-default flag declared for both; the default everywhere is to overwrite. Wad.extract and Exporter.export are also followed
over sample archives and plain files (0, 1 and several entries, both modes, with nothing, one output or all outputs there): the files produced are exactly the selected ones, each once, from its own data and to its own path."""

EXISTS = {"os.path.exists", "os.path.lexists", "os.path.isfile", "os.path.isdir", "os.path.islink", "os.access", "os.stat", "os.lstat", "os.path.getsize", "os.path.getmtime"}
CPE = "export.FileConverter.converted_paths_exist"
LAZY, NORMAL = "an existing output is left alone in lazy mode", "whatever exists is refreshed in normal mode"
MISSING = "a missing output is produced in lazy mode"


EVERY = "every selected file is produced, from its own data, unless it is there in lazy mode"


def opened(t, sim):
    return ("file", sim.value(t.args[1])) if len(t.args) > 2 and sim.value(t.args[2].args[1] if t.args[2].op == "kw" else t.args[2]) == "rb" else ("text",)


def repo_args(t, sim):
    return [sim.value(y.args[1] if y.op == "kw" else y) for y in t.args[1:] if not isinstance(y, T) or y.op not in ("uid", "epoch")]


def compare(c, where, run, want):
    try:
        got = run()
        bad = next((f"{x} is missing" for x in want if x not in got), None) or next((f"{x} as well" for x in got if x not in want), None) or ("something comes twice" if len(got) != len(want) else None)
        c.r.ob(bad is None, EVERY, where, bad or f"{len(want)} files")
    except Unknown:
        c.r.und(EVERY, where, "not understood")
    except Fails:
        c.r.bad(EVERY, where, "raises an error")


def sample_extraction(c):
    """Wad.extract followed over sample archives."""
    cls = c.prog.cls("wad.Wad")
    f = cls.method("extract")
    p = param(c, "wad.Wad.extract")
    if f is None or p is None:
        return
    ex = "wad.WadFileHeader.extract"
    if c.prog.cls("wad.WadFileHeader").method("extract") is None:
        return
    i = c.run(f, self_type=cls, opaque={"wad.Wad.sanitize_paths", "wad.Wad.set_unknown_paths", ex})
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    me, out = mk("param", ps[0]), mk("param", ps[1])
    fs = [Obj(n, {"WadFileHeader"}, path=n, path_hash=k, type=0, ext="e", size=1) for k, n in enumerate(("a/b.bin", "c.png", "unknown/0123.dds", "a/d"))]
    for files in ((), fs[:1], fs):
        for ow in (True, False):
            for there in (set(), {"o/c.png"}, {"o/" + x.attrs["path"] for x in fs}, {"c.png", "o", "o/a"}):
                def world(sim, x, nothing):
                    if x is me:
                        return "wad"
                    if x is out:
                        return "o"
                    if x is p:
                        return ow
                    if x.op == "attr" and x.args[0] is me:
                        return {"files": tuple(files), "path": "x.wad", "subchunk_toc": "table"}.get(x.args[1], nothing)
                    if x.op == "exc":
                        return False
                    if x.op == "call" and x.args[0] in EXISTS:
                        return sim.value(x.args[1]) in there
                    if x.op == "call" and x.args[0] in ("open", "io.open"):
                        return opened(x, sim)
                    return nothing
                got = []

                def extra(sim, e):
                    if e.kind == "call" and e.name == "repo:" + ex:
                        ys = [sim.value(y) for y in e.args] + [sim.value(y) for y in (e.kw or {}).values()]
                        got.append(tuple(ys))

                def run():
                    got.clear()
                    e = Play(i, world, extra=extra).play()
                    if e is not None:
                        raise Fails
                    return got
                want = [(x, ("file", "x.wad"), "o/" + x.attrs["path"], "table") for x in files if ow or "o/" + x.attrs["path"] not in there]
                compare(c, f"{f.loc} ({len(files)} entries, {len(there)} there, {'normal' if ow else 'lazy'})", run, want)


def sample_export(c):
    """Exporter.export followed over sample files and archives."""
    cls = c.prog.cls("export.Exporter")
    f = cls.method("export")
    p = param(c, "export.Exporter.export")
    if f is None or p is None or cls.method("_get_converter") is None or c.prog.cls("wad.Wad").method("read_file_data") is None:
        return
    i = c.run(f, self_type=cls, opaque={"export.Exporter._get_converter", "wad.Wad.read_file_data"})
    me = mk("param", f.node.args.args[0].arg)
    plain = {"a.txt": "s/a", "b/c.tex": "s/c", "d.two": "s/d"}

    def ent(path, data):
        return Obj(f"entry {path}", {"WadFileHeader"}, path=path, data=data, path_hash=len(str(path)), type=0, ext="e")
    e1, e2, e3, e4, e5 = ent("w/a.bin", b"1"), ent(None, b"2"), ent("w/b.two", b"3"), ent("w/gone.bin", None), ent("w/empty.bin", b"")
    w1, w2, w3 = (Obj(n, {"Wad"}, path=n + ".wad", files=fs) for n, fs in (("w1", (e2, e4, e1, e3)), ("w2", ()), ("w3", (e5,))))

    def outputs(path):
        if not isinstance(path, str):
            raise Unknown
        return (path + ".1", path + ".2") if path.endswith(".two") else (path,)
    worlds = [({}, {}), (plain, {}), ({}, {"w1": w1}), (plain, {"w1": w1, "w2": w2, "w3": w3}), ({"d.two": "s/d"}, {"w3": w3, "w1": w1})]
    sets = [set(), {"o/a.txt", "o/w/a.bin"}, {"o/d.two.1", "o/w/b.two.2"}, {"o/d.two.1", "o/d.two.2", "o/w/b.two.1", "o/w/b.two.2"}, {"a.txt", "s/a", "w/a.bin", "o/d.two", "o/w/b.two", "o/w"}]
    for nw, (files, wads) in enumerate(worlds):
        for ow, there, failing in [(True, s, ()) for s in sets[:4]] + [(False, s, ()) for s in sets] + [(True, set(), ("FileConversionError", None)), (True, set(), ("OSError", 36)), (True, set(), ("OSError", 22))]:
            if failing and failing[0] == "OSError" and files:
                continue

            def current(sim):
                return next((fr[2] if isinstance(fr[2], Obj) else fr[3] for fr in reversed(sim.env) if isinstance(fr[2], Obj) and "data" in fr[2].attrs or isinstance(fr[3], str) and fr[3] in plain), None)

            def world(sim, x, nothing):
                if x.op == "attr" and x.args[0] is me:
                    return {"plain_files": files, "wads": wads, "output": "o"}.get(x.args[1], nothing)
                if x is me:
                    return "exporter"
                if x is p:
                    return ow
                if x.op == "exc":
                    return bool(failing) and current(sim) in (e1, "a.txt") and bool(catches(c.prog, x.args[0].split("|"), failing[0]))
                if x.op == "attr" and x.args[0].op == "excval" and x.args[1] == "errno":
                    return failing[1]
                if x.op == "call" and x.args[0] in EXISTS:
                    return sim.value(x.args[1]) in there
                if x.op == "call" and x.args[0] in ("open", "io.open"):
                    return opened(x, sim)
                if x.op == "call" and x.args[0] in ("io.BytesIO", "BytesIO"):
                    return ("bytes", sim.value(x.args[1]))
                if x.op == "call" and str(x.args[0]).endswith("Exporter._get_converter"):
                    return ("converter", [y for y in repo_args(x, sim) if y != "exporter"][0])
                if x.op == "call" and str(x.args[0]).endswith("Wad.read_file_data"):
                    w, h, e = repo_args(x, sim)
                    return e.attrs["data"] if h == ("file", w.attrs["path"]) else b"of another archive"
                if x.op == "mcall" and x.args[1] == "converted_paths":
                    return outputs(sim.value(x.args[2]))
                if x.op == "isinst":
                    return True
                return nothing
            got = []

            def extra(sim, e):
                if e.kind in ("vcall", "mcall") and e.name == "convert":
                    ys = [sim.value(y) for y in e.args] + [sim.value(y) for y in (e.kw or {}).values()]
                    got.append((sim.value(e.recv), *ys))

            def run():
                got.clear()
                e = Play(i, world, extra=extra).play()
                if e is not None:
                    raise Fails
                return got

            def needed(path):
                return ow or any("o/" + x not in there for x in outputs(path))
            want = [(("converter", k), ("file", v), "o", k) for k, v in files.items() if needed(k)]
            want += [(("converter", e.attrs["path"]), ("bytes", e.attrs["data"]), "o", e.attrs["path"]) for w in wads.values() for e in w.attrs["files"] if e.attrs["path"] is not None and e.attrs["data"] is not None and needed(e.attrs["path"])]
            compare(c, f"{f.loc} (sample {nw}, {len(there)} there, {'normal' if ow else 'lazy'}{', ' + failing[0] + ' in one' if failing else ''})", run, want)


def check(c):
    c.part(sample_extraction)
    c.part(sample_export)
    extraction(c)
    exporting(c)
    existence(c)
    converters(c)
    wiring(c)


def ow_atoms(g, p):
    return {a: True for a in tm.atoms(g) if a.op == "truthy" and a.args[0] is p} | {a: False for a in tm.atoms(g) if a.op == "is" and any(z is p for z in a.args) and any(is_const(z, None) for z in a.args)}


def fsatoms(g):
    """Conditions about what exists on disk."""
    return [a for a in tm.atoms(g) if tm.mentions(a, lambda x: x.op == "call" and (x.args[0] in EXISTS or x.args[0] == "repo:cdtb." + CPE) or x.op == "mcall" and x.args[1] in ("exists", "is_file", "converted_paths_exist"))]


def judge(c, e, p, mine, label):
    """mine(atom) -> True/False if the atom (or its negation) says that this file's output exists, None if unrelated."""
    r = c.r
    g = norm(e.guard)
    ow = ow_atoms(g, p)
    neg = {a: not v for a, v in ow.items()}
    fs = fsatoms(g)
    own = {}
    alien = []
    for a in fs:
        v = mine(a)
        if v is None:
            alien.append(a)
        else:
            own[a] = v
    gone = {a: not v for a, v in own.items()}
    # conditions of other files left behind by earlier loops
    keys = {(l.args[0].id, l.args[1]) for l in e.loops if l.op == "loop"}
    def outer(a):
        es = [x for x in subterms(a) if x.op in ("elem", "key", "val") and isinstance(x.args[0], T)]
        return bool(es) and all((x.args[0].id, x.args[1]) not in keys for x in es)
    drop = [a for a in alien if outer(a)]
    alien = [a for a in alien if a not in drop]
    for a in drop:
        g = bor(assume(g, {a: True}), assume(g, {a: False}))
    if alien:
        t = {a: True for a in alien}
        f = {a: False for a in alien}
        if not tm.equiv(assume(g, ow | t), assume(g, ow | f)):
            r.bad(NORMAL, e.where(), f"{label}: depends on {text(alien[0])[:120]}")
        elif not own:
            r.bad(LAZY, e.where(), f"{label}: the test is about something else: {text(alien[0])[:150]}")
        else:
            r.und(LAZY, e.where(), f"{label}: also depends on {text(alien[0])[:120]}")
        return
    if not own:
        if tm.satisfiable(assume(g, ow)):
            r.bad(LAZY, e.where(), f"{label}: done whatever exists")
        return
    yes, no = assume(g, ow | own), assume(g, ow | gone)
    r.ob(tm.satisfiable(yes) and tm.equiv(yes, no), NORMAL, e.where(), f"{label}: {text(e.guard)[:150]}")
    r.ob(not tm.satisfiable(assume(g, neg | own)), LAZY, e.where(), f"{label}: {text(e.guard)[:150]}")
    r.ob(tm.satisfiable(assume(g, neg | gone)) and tm.equiv(assume(g, neg | gone), no), MISSING, e.where(), f"{label}: {text(e.guard)[:150]}")


def left_early(c, i, loops, what):
    for x in i.events:
        if x.kind == "break" and x.loops and x.loops[-1] in loops and fsatoms(x.guard):
            c.r.bad(what, x.where(), "the loop over the files is left when an output exists")
    for g, ls, nd in i.loop_returns:
        if any(l in loops for l in ls) and fsatoms(g):
            c.r.bad(what, f"line {nd.lineno}", "the function returns when an output exists")


def param(c, q, name="overwrite"):
    f = c.prog.func(q)
    if f is None:
        return None
    a = f.node.args
    for x in a.args + a.kwonlyargs:
        if x.arg == name:
            return mk("param", x.arg)
    return None


def extraction(c):
    r = c.r
    q = "wad.Wad.extract"
    p = param(c, q)
    if p is None:
        r.und(LAZY, q, "no overwrite parameter")
        return
    i = c.run(q, opaque={"wad.Wad.sanitize_paths", "wad.Wad.set_unknown_paths", "wad.WadFileHeader.extract", "wad.WadFileHeader.read_data", "wad.Wad.read_file_data"})
    es = [e for e in i.events if e.kind == "call" and e.name in ("repo:wad.WadFileHeader.extract", "repo:wad.WadFileHeader.read_data", "repo:wad.Wad.read_file_data")]
    outs = [norm(e.args[2]) for e in es if e.name.endswith("WadFileHeader.extract") and len(e.args) > 2] + [norm(e.args[0]) for e in write_opens(i)]
    outs += [norm(e.args[0]) for e in i.events if e.kind == "enter" and e.name.endswith("write_file_or_remove") and e.args]
    if not es or not outs:
        r.und(LAZY, q, "no extraction of an entry found")
        return
    def mine(a):
        if a.op == "truthy" and a.args[0].op == "call" and a.args[0].args[0] in ("os.path.exists", "os.path.lexists", "os.path.isfile") and any(same(a.args[0].args[1], o) for o in outs):
            return True
        if a.op == "truthy" and a.args[0].op == "mcall" and a.args[0].args[1] in ("exists", "is_file") and any(same(a.args[0].args[0], o) for o in outs):
            return True
        return None
    for e in es + write_opens(i):
        judge(c, e, p, mine, "extraction of an entry")
    left_early(c, i, {l for e in es for l in e.loops}, MISSING)


OP = {CPE, "export.Exporter._get_converter", "wad.Wad.read_file_data", "wad.WadFileHeader.read_data"}


def exporting(c):
    r = c.r
    q = "export.Exporter.export"
    p = param(c, q)
    if p is None:
        r.und(LAZY, q, "no overwrite parameter")
        return
    i = c.run(q, opaque=OP)
    conv = [e for e in i.events if e.kind in ("vcall", "mcall") and e.name == "convert" or e.kind == "call" and e.name.endswith(".convert")]
    if not conv:
        r.und(LAZY, q, "no conversion found")
        return
    r.ob(len(conv) >= 2 or any(len(e.loops) > 1 for e in conv), NORMAL, q, "both plain files and archive entries are converted") if len(conv) >= 2 else r.und(NORMAL, q, "one conversion only")
    loops = set()
    for e in conv:
        loops |= set(e.loops)
        args = list(e.args)
        recv = e.recv if e.recv is not None else args.pop(0)
        if len(args) < 3:
            r.und(LAZY, e.where(), "arguments of the conversion")
            continue
        src, out, path = args[0], args[1], args[2]
        mine = lambda a, recv=recv, out=out, path=path: own_exists(a, recv, out, path)
        judge(c, e, p, mine, "conversion")
        # reading the source
        for s in i.events:
            if s.seq >= e.seq or s.kind != "call":
                continue
            rd = s.name in ("repo:wad.Wad.read_file_data", "repo:wad.WadFileHeader.read_data") or s.name in ("open", "io.open") and not is_write_open(s)
            if rd and s.result is not None and tm.mentions(src, lambda x: x is s.result):
                if s.name.startswith("repo:") or s.loops == e.loops:
                    judge(c, s, p, mine, "reading of the source")
    left_early(c, i, loops, MISSING)
    # conditions on the way that an exit of the function adds
    for g, v, ls, nd in i.root_returns:
        if not ls and fsatoms(g) and tm.satisfiable(g) and nd.__class__.__name__ == "Return":
            es = [x for x in conv if x.node.lineno > nd.lineno]
            if es:
                r.und(MISSING, f"line {nd.lineno}", text(g)[:120])


def own_exists(a, recv, out, path):
    if a.op == "truthy":
        x = a.args[0]
        if repo_call(x, CPE):
            return True if len(x.args) > 3 and same(x.args[1], recv) and same(x.args[2], out) and same(x.args[3], path) else None
        if x.op == "mcall" and x.args[1] == "converted_paths_exist":
            return True if same(x.args[0], recv) and same(x.args[2], out) and same(x.args[3], path) else None
        return None
    if a.op == "any" and all_exist(bnot(a), recv, out, path) is True:
        return False
    return None


def all_exist(v, recv, out, path):
    """Is the condition 'every announced path exists below `out`'? True, False or None (unknown form)."""
    if not (isinstance(v, T) and v.op == "not" and v.args[0].op == "any"):
        return None
    a = v.args[0]
    ls, g = a.args[0], a.args[1]
    ls = ls.args if isinstance(ls, T) else ls
    if len(ls) != 1 or ls[0].op != "loop":
        return None
    coll = ls[0].args[0]
    while coll.op == "call" and coll.args[0] in ("list", "tuple", "set", "sorted") or coll.op in ("sorted", "list"):
        coll = coll.args[1] if coll.op == "call" else coll.args[0]
    ok = coll.op == "mcall" and coll.args[1] == "converted_paths" and same(coll.args[0], recv) and same(coll.args[2], path) or coll.op == "call" and str(coll.args[0]).endswith(".converted_paths") and same(coll.args[1], recv) and same(coll.args[2], path)
    if not ok:
        return None
    g = norm(g)
    if not (g.op == "not" and g.args[0].op == "truthy"):
        return False
    x = g.args[0].args[0]
    el = [y for y in subterms(x) if y.op == "elem" and same(y.args[0], ls[0].args[0])]
    if x.op == "call" and x.args[0] in ("os.path.exists", "os.path.lexists") and el:
        return bool(same(x.args[1], mk("call", "os.path.join", out, el[0])))
    if x.op == "call" and x.args[0] in ("os.path.isfile", "os.path.isdir", "os.path.islink"):
        return False
    return None


def existence(c):
    """The test itself, for the base class and every override."""
    r = c.r
    what = "an output exists when all announced paths exist"
    base = c.prog.classes.get("FileConverter")
    if base is None:
        r.und(what, "export.FileConverter")
        return
    n = 0
    for k in [base] + base.all_subclasses():
        f = k.methods.get("converted_paths_exist")
        if f is None:
            continue
        n += 1
        q = f.qual[5:]
        i = c.run(q, opaque={m.methods["converted_paths"].qual[5:] for m in [base] + base.all_subclasses() if "converted_paths" in m.methods})
        names = [a.arg for a in f.node.args.args]
        slf, out, path = (mk("param", x) for x in names[:3])
        v = i.result
        w = f"{f.module.rel}:{f.node.lineno} in {q}"
        t = truth(v) if v is not None and v.op not in ("not", "any") else v
        res = all_exist(t, slf, out, path)
        if res is None and t is not None and t.op == "any":
            r.bad(what, w, "one of several outputs is enough")
        elif res is None:
            fs = t is not None and [x for x in subterms(t) if x.op == "any"]
            if t is not None and not fs and not i.mus and fsatoms(t) and not any(x.op == "elem" for x in subterms(t)):
                r.bad(what, w, f"only one path is tested: {text(t)[:120]}")
            elif t is not None and t.op == "const":
                r.bad(what, w, f"constant: {text(t)[:50]}")
            else:
                r.und(what, w, text(v)[:150])
        else:
            r.ob(res, what, w, text(v)[:200])
    if not n:
        r.und(what, "export.FileConverter.converted_paths_exist")


def converters(c):
    r = c.r
    what = "converters write their output whatever exists"
    base = c.prog.classes.get("FileConverter")
    roots = [k.methods["convert"] for k in ([base] + base.all_subclasses() if base else []) if "convert" in k.methods]
    f = c.prog.func("wad.WadFileHeader.extract")
    if f:
        roots.append(f)
    for f in roots:
        q = f.qual[5:]
        i = c.run(q, opaque={"wad.WadFileHeader.read_data"} | {g.qual[5:] for g in c.prog.funcs.values() if g.module.rel.split("/")[-1] not in ("export.py", "tools.py", "wad.py")})
        k = 0
        for e in write_opens(i):
            k += 1
            m = open_mode(e)
            modes = [l.args[0] for _, l in tm.cases(m) if l.op == "const"]
            r.ob(not any(set(x) & set("ax") for x in modes if isinstance(x, str)), what, e.where(), f"opened with mode {modes}")
            r.ob(not fsatoms(e.guard), what, e.where(), text(e.guard)[:150])
        for g, v, ls, nd in i.root_returns:
            if fsatoms(g):
                r.bad(what, f"{f.module.rel}:{nd.lineno} in {q}", f"returns depending on {text(g)[:120]}")


def wiring(c):
    r = c.r
    what = "the flag is handed on"
    q = "export.CdragonRawPatchExporter.process"
    p = param(c, q)
    own = {f.qual[5:] for f in c.prog.funcs.values() if f.module.rel.endswith("export.py") and not f.qual[5:].startswith(q)}
    i = c.run(q, opaque=own)
    es = [e for e in i.events if e.kind == "call" and e.name == "repo:export.Exporter.export"]
    if not es:
        (r.und if p is None else r.bad)(what, q, "nothing is exported")
    for e in es:
        r.ob(p is not None and len(e.args) > 1 and same(e.args[1], p) and not fsatoms(e.guard), what, e.where(), text(e.args[-1])[:100])
    for q in ("wad.Wad.extract", "export.Exporter.export", "export.CdragonRawPatchExporter.process"):
        f = c.prog.func(q)
        if f is None:
            continue
        d = default(f, "overwrite")
        r.ob(d is True, "overwriting is the default", f"{f.module.rel}:{f.node.lineno} in {q}", f"default is {d}") if d is not ... else r.und("overwriting is the default", q)
    # the commands
    what = "the lazy option is exactly what disables overwriting"
    m = cli.model(c)
    lazy = mk("attr", mk("param", "args"), "lazy")
    for cmd in ("wad-extract", "export"):
        q = "__main__.command_" + cmd.replace("-", "_")
        f = c.prog.func(q)
        if f is None:
            r.und(what, q)
            continue
        names = [a.arg for a in f.node.args.args]
        lazy = mk("attr", mk("param", names[1] if len(names) > 1 else "args"), "lazy")
        i = c.run(q, opaque={g.qual[5:] for g in c.prog.funcs.values() if not g.module.rel.endswith("__main__.py")})
        es = [e for e in i.events if e.kind == "call" and e.name in ("repo:wad.Wad.extract", "repo:export.CdragonRawPatchExporter.process", "repo:export.Exporter.export")]
        es += [e for e in i.events if e.kind in ("mcall", "vcall") and e.name in ("process",) and "Exporter" in text(e.recv)]
        if not es:
            r.und(what, q, "no export found")
        for e in es:
            pos = 2 if e.name.endswith("Wad.extract") else 1
            v = e.args[pos] if e.kind == "call" and len(e.args) > pos else e.kw.get("overwrite") if e.kw else (e.args[0] if e.args else None)
            if v is None:
                r.bad(what, e.where(), "the option is not used")
                continue
            ok = tm.equiv(truth(v), bnot(truth(lazy))) if v.op != "const" else False
            r.ob(ok, what, e.where(), text(v)[:100])
        if m is None or cmd not in m.commands:
            r.und(what, f"command {cmd}", "not in the model of the command line")
            continue
        o = [x for x in m.options(cmd) if x.dest == "lazy"]
        if not o:
            r.bad(what, f"command {cmd}", "no such option")
        else:
            r.ob("--lazy" in o[0].flags and o[0].given() is TRUE and o[0].default in (FALSE, const(False)), what, o[0].e.where(), f"{o[0].flags}, {o[0].action}")


def default(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name:
            return d.value if isinstance(d, ast.Constant) else ...
    return None
