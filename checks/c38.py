"""C38: files of a patch are decoded by the rules of that patch."""
from vfa.q import *
from checks import c28
from checks.c28 import VERSION, functions_naming, own, origin

RULE = """The version of every construction of a string table, a converter and a TFT or Arena transformer in the package, and of every choice of a hash list, is traced backwards through attributes, constructors and callers as in C28: it must be the integer
form of the version of the patch being handled, never a constant, an omitted argument or another patch. From CdragonRawPatchExporter.process, the version given to the converters of an exporter must be the version of the very patch whose files are
added to that exporter. On the command line, the term of the version is evaluated for an option that is given ("9.5") and one that is not: it must be that version, or the latest."""

PAIR, USER = "an exporter decodes files of a patch with its own version", "the version given by the user is used"
CR = "export.CdragonRawPatchExporter."


def check(c):
    seen = set()
    for cls, param in (("BinFile", "btype_version"), ("RstFile", "game_version"), ("BinConverter", "btype_version"), ("RstConverter", "game_version"), ("TftTransformer", "game_version"), ("ArenaTransformer", "game_version")):
        if not c28.trace_class(c, cls, param, seen):
            c.r.und(VERSION, cls, "never constructed")
    f = c.prog.func("rstfile.get_hashfile")
    if f is None:
        c.r.und(VERSION, "rstfile.get_hashfile", "not found")
    else:
        ps = [a.arg for a in f.node.args.args]
        c28.caller(c, f, ps[0], f.loc, "the hash list", seen)
    pairs(c)
    data(c)
    user(c)
    c28.as_int(c)


def version_owner(i, t):
    """The patch of which a term is the integer version."""
    t = norm(t)
    if t.op == "call" and str(t.args[0]).endswith("PatchVersion.as_int") and len(t.args) > 1:
        t = t.args[1]
    elif t.op == "mcall" and t.args[1] == "as_int":
        t = t.args[0]
    else:
        return None
    t = norm(t)
    return norm(t.args[0]) if t.op == "attr" and t.args[1] == "version" else None


def pairs(c):
    r = c.r
    q = CR + "process"
    if c.prog.func(q) is None:
        r.und(PAIR, q, "not found")
        return
    i = c.run(q, "pairs", opaque={f.qual[5:] for f in c.prog.funcs.values() if f.cls is None or f.cls.name != "CdragonRawPatchExporter"} | {CR + "export_tft_data", CR + "export_arena_data"})
    added = {}
    for e in i.events:
        if e.kind == "call" and e.name == "repo:export.Exporter.add_patch_files" and len(e.args) > 1:
            added.setdefault(norm(e.args[0]), []).append(e)
    if not added:
        r.und(PAIR, q, "no patch is added to an exporter")
    for x, es in added.items():
        patches = {norm(e.args[1]) for e in es}
        if len(patches) > 1:
            r.bad(PAIR, es[1].where(), "files of two patches are added to one exporter")
            continue
        patch = patches.pop()
        conv = final_attr(i, x, "converters") if x.op == "obj" else None
        made = {y for y in subterms(conv if conv is not None else NONE) if y.op == "obj"}
        n = 0
        for e in i.events:
            if e.kind == "new" and e.recv in made and (e.name.endswith(".BinConverter") or e.name.endswith(".RstConverter") or e.name in ("BinConverter", "RstConverter")):
                k = c.prog.classes.get(e.name.rsplit(".")[-1])
                k = k[0] if isinstance(k, list) else k
                ip = c28.init_params(k)
                name = "btype_version" if "btype_version" in ip[1] else "game_version"
                if name not in ip[1]:
                    continue
                n += 1
                a = c28.argument(e, ip[1][1:], name)
                o = version_owner(i, a) if a is not None else None
                if a is None or a.op == "const":
                    r.bad(PAIR, e.where(), f"no version of the patch for {e.name}")
                elif o is None:
                    r.und(PAIR, e.where(), text(a)[:80])
                else:
                    r.ob(o is patch, PAIR, e.where(), f"files of {text(patch)[:60]} are decoded with the version of {text(o)[:60]}")
        if n < 2:
            r.und(PAIR, es[0].where(), f"converters of {text(patch)[:60]} not known")


def data(c):
    """TFT and Arena data of the patch that is exported."""
    r = c.r
    for name, cls in (("export_tft_data", "TftTransformer"), ("export_arena_data", "ArenaTransformer")):
        f = c.prog.func(CR + name)
        if f is None:
            r.und(PAIR, CR + name, "not found")
            continue
        i = own(c, CR + name)
        es = [e for e in i.events if e.kind == "new" and e.name.rsplit(".")[-1] == cls]
        if not es:
            r.und(PAIR, f.loc, f"no {cls}")
        for e in es:
            ip = c28.init_params(c28.klass(c, cls))
            a = c28.argument(e, ip[1][1:], "game_version")
            o = version_owner(i, a) if a is not None else None
            if a is None or o is None and a.op == "const":
                r.bad(PAIR, e.where(), "no version")
            elif o is None:
                r.und(PAIR, e.where(), text(a)[:80])
            else:
                r.ob(o is mk("attr", mk("param", "self"), "patch"), PAIR, e.where(), f"decoded with the version of {text(o)[:60]}")


def option_of(t):
    """An attribute of the parsed arguments that holds the version."""
    return [x for x in subterms(t) if x.op == "attr" and (x.args[0].op == "param" and x.args[0].args[0] != "self" or "parse_args" in text(x.args[0]) or "parse_known_args" in text(x.args[0]))]


def user(c):
    r = c.r
    n = 0
    for q, cls in (("__main__.command_bin_dump", "BinFile"), ("tftdata.main", "TftTransformer"), ("arenadata.main", "ArenaTransformer")):
        f = c.prog.func(q)
        if f is None:
            r.und(USER, q, "not found")
            continue
        i = c.run(q, "options", opaque={g.qual[5:] for g in c.prog.funcs.values() if g.module is not f.module or g.cls is not None or g.node.name == "create_parser"})
        es = [e for e in i.events if e.kind == "new" and e.name.rsplit(".")[-1] == cls]
        if not es:
            r.und(USER, f.loc, f"no {cls}")
        for e in es:
            ip = c28.init_params(c28.klass(c, cls))
            a = c28.argument(e, ip[1][1:], "btype_version" if cls == "BinFile" else "game_version")
            if a is None or a.op == "const":
                r.bad(USER, e.where(), "the version given by the user is not used")
                continue
            a = norm(a)
            made = {x.recv: x for x in i.events if x.kind == "new" and x.name.endswith("PatchVersion") and x.args}
            whole = [a, e.guard] + [x.args[0] for x in made.values()]
            opts = {o for t in whole for o in option_of(norm(t)) if "version" in str(o.args[1])}
            if not opts:
                r.und(USER, e.where(), text(a)[:80])
                continue
            for given, want in (("9.5", 905), ("14.15", 1415), (None, 9999)):
                sub = {o: const(given) for o in opts}
                if strip_epoch(tm.subst(norm(e.guard), sub)) is FALSE:
                    continue

                def leaf(x, nothing):
                    if x in opts:
                        return given
                    if x.op in ("call", "mcall") and str(x.args[0 if x.op == "call" else 1]).endswith("as_int"):
                        o = x.args[1 if x.op == "call" else 0]
                        v = calc(norm(o), leaf)
                        return 9999 if v == "main" else number(v)
                    if x in made:
                        return calc(norm(made[x].args[0]), leaf)
                    return nothing
                try:
                    got = calc(a, leaf)
                except Unknown:
                    r.und(USER, e.where(), text(a)[:100])
                    break
                except Fails:
                    got = "an error"
                n += 1
                good = got == want or given is None and isinstance(got, int) and got >= 9999
                r.ob(good, USER, e.where(), f"with option {given!r}, files are decoded with version {got}")


def number(v):
    if not isinstance(v, str):
        raise Fails
    try:
        x = tuple(map(int, v.split(".")))
    except ValueError:
        raise Fails
    if len(x) != 2:
        raise Fails
    return x[0] * 100 + x[1]
