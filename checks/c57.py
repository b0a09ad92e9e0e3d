"""C57: every exported file gets the conversion of its kind."""
import posixpath
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play

RULE = """The converters given to the exporters of a patch and of the patch before it are read from the terms of CdragonRawPatchExporter.process, with the attributes their constructors set. For a table of paths of every kind of file (and near misses), what each of these converters says of the path
is evaluated: the first one that handles it must be the converter of that kind of file, or none for files that are exported as they are, and the outputs it announces must be the expected ones. The paths announced by the exporter are evaluated for sample
lists of converters: those of the first converter that handles the path, or the path itself if there is none."""

KIND, NAMES, FIRST = "every kind of file has its conversion", "the outputs are named after the path", "the first converter that handles a path is used"
CR, EX = "export.CdragonRawPatchExporter.", "export.Exporter."
IMG, TEX, ATLAS, BIN, SKN, RST, SKINS = "ImageConverter", "TexConverter", "AtlasInfoConverter", "BinConverter", "SknConverter", "RstConverter", "ChampionSkinInfoConverter"


def table():
    """(path, converter or None, what is written)"""
    for d in ("game/assets/characters/ahri/", "game/data/", "plugins/rcp-be-lol-game-data/global/default/v1/", "game/unknown/", ""):
        for n in ("ahri", "a.b", "0123456789abcdef", "x-_ (1)"):
            p = d + n
            for e in ("dds", "tga"):
                yield f"{p}.{e}", IMG, {p + ".png"}
            yield f"{p}.tex", TEX, {p + ".png"}
            yield f"{p}.skn", SKN, {p + ".skn", p}
            for e in ("png", "jpg", "json", "bnk", "wpk", "skl", "anm", "js", "texture", "ddsx", "dds.txt", "bin.ogg", "skn.png", "cdtb.lua"):
                yield f"{p}.{e}", None, {f"{p}.{e}"}
    for p in ("game/data/characters/ahri/ahri", "game/data/final/x_1", "game/a", "game/unknown/0123456789abcdef", "game/assets/items/icons2d/atlas_info", "game/assets/items/icons2d/autoatlas/other"):
        yield p + ".bin", BIN, {p + ".bin", p + ".bin.json"}
    for p in ("plugins/rcp-be-lol-game-data/global/default/data", "lol-gamedata/x"):
        yield p + ".bin", None, {p + ".bin"}
        yield p + ".cdtb", None, {p + ".cdtb"}
        yield p + ".stringtable", None, {p + ".stringtable"}
    for p in ("game/assets/items/icons2d/autoatlas/largeicons/atlas_info.bin", "game/assets/items/icons2d/autoatlas/smallicons/atlas_info.bin", "game/assets/x/y.cdtb", "game/y.cdtb"):
        yield p, ATLAS, {p + ".json"}
    for p in ("game/data/menu/fontconfig_en_us.txt", "game/data/menu/main_fr_fr.stringtable", "game/en_us/data/menu/en_us/lol.stringtable", "game/zh_cn/data/menu/en_us/tft.stringtable", "game/de_de/data/menu/x.txt"):
        yield p, RST, {p, p + ".json"}
    for p in ("game/data/fontconfig_en_us.txt", "game/en_us/other/lol.stringtable", "game/data/menu/x.png", "game/data/menu/x.txt.lua", "game/menu/x.txt"):
        yield p, None, {p}
    p = "game/global/champions/championskins.info"
    yield p, SKINS, {p + ".json"}
    for p in ("game/global/champions/other.info", "game/global/champions/championskins.info.lua", "game/championskins.info"):
        yield p, None, {p}


def exporters(c):
    """The interpretation and the exporters that files of a patch are added to, with what is said of the patch."""
    q = CR + "process"
    keep = {f.qual[5:] for f in c.prog.funcs.values() if f.cls is None or f.cls.name != "CdragonRawPatchExporter" and f.name != "__init__"}
    i = c.run(q, "converters", opaque=keep | {CR + "export_tft_data", CR + "export_arena_data"})
    out = {}
    for e in i.events:
        if e.kind == "call" and e.name == "repo:" + EX + "add_patch_files" and len(e.args) > 1:
            out.setdefault(norm(e.args[0]), (e, text(norm(e.args[1]))))
    return i, out


def check(c):
    c.part(first)
    i, found = exporters(c)
    if not found:
        c.r.und(KIND, CR + "process", "no patch is added to an exporter")
    for x, (e, patch) in found.items():
        conv = final_attr(i, x, "converters") if x.op == "obj" else None
        conv = next((v for g, v in tm.cases(i.snap(conv)) if v.op in ("list", "tuple")), None) if conv is not None else None
        conv = i.snap(conv) if conv is not None else None
        if conv is None or conv.op not in ("list", "tuple") or any(y.op != "obj" for y in conv.args):
            c.r.und(KIND, e.where(), "the list of converters is not known")
            continue
        one(c, i, list(conv.args), f"{e.loc} ({patch[:40]})")


def one(c, i, conv, where):
    ks = []
    for x in conv:
        k = c.prog.classes.get(str(x.args[0]).rsplit(".", 1)[-1])
        k = k[0] if isinstance(k, list) else k
        if k is None or k.method("is_handled") is None or k.method("converted_paths") is None:
            c.r.und(KIND, where, f"unknown converter {x.args[0]}")
            return
        ks.append(k)
    kinds = {}
    for path, want, names in table():
        got, und = None, False
        for x, k in zip(conv, ks):
            v = asked(c, i, x, k, "is_handled", path)
            if v is None:
                und = True
                break
            if v:
                got = (x, k)
                break
        if und:
            kinds.setdefault((want, None), []).append(path)
            continue
        kinds.setdefault((want, got[1].name if got else "nothing"), []).append(path)
        if got and got[1].name == want:
            out = asked(c, i, got[0], got[1], "converted_paths", path)
            if out is None:
                c.r.und(NAMES, where, f"{path}: not understood")
            elif set(out) != names or len(out) != len(names):
                c.r.bad(NAMES, where, f"{path} is written to {', '.join(map(str, out)) or 'nothing'} instead of {', '.join(sorted(names))}")
            else:
                c.r.ok(NAMES, where, f"{path}: {', '.join(out)}")
    for (want, got), paths in sorted(kinds.items(), key=str):
        if got is None:
            c.r.und(KIND, where, f"{paths[0]}: not understood")
        else:
            ok = got == (want or "nothing")
            c.r.ob(ok, KIND, where, f"{len(paths)} kinds of paths: {want or 'exported as they are'}" if ok else f"{paths[0]}: converted by {got} instead of {want or 'being exported as it is'}")


def asked(c, i, x, k, name, path):
    """What a converter says of a path: a truth value, the list of its outputs, or None if it is not understood."""
    f = k.method(name)
    if len(f.node.args.args) != 2:
        return None
    gen = name == "converted_paths"
    j = c.run(f, f"{name}.{k.name}", self_type=k, collect=gen and f.is_gen)
    me, p = (mk("param", a.arg) for a in f.node.args.args)

    def world(sim, t, nothing):
        if t is p:
            return path
        if t.op == "attr" and t.args[1] == "prev_patch":
            return Obj("Patch", {"Patch"})
        if t.op == "attr" and t.args[0] is me:
            v = final_attr(i, x, t.args[1]) if i is not None else None
            if v is None:
                return nothing
            return sim.value(i.snap(v))
        return nothing
    sim = Play(j, world, {})
    try:
        if sim.play() is not None:
            return "an error" if not gen else ["an error"]
        t = j.snap(j.result)
        if not gen:
            return bool(sim.true(t))
        return [v if kk is None else kk for v, kk in sim.elements(t)] if t.op not in ("list", "tuple", "set") else list(sim.value(t))
    except (Unknown, Fails):
        return None


# ---------------------------------------------------------------- the choice

def first(c):
    f = c.prog.func(EX + "converted_exported_paths")
    k = c.prog.cls("export.Exporter")
    copy = c.prog.cls("export.FileConverter")
    i = c.run(f, self_type=k, collect=f.is_gen, opaque=[])
    me, p = (mk("param", a.arg) for a in f.node.args.args[:2])
    for handled in ((), (False,), (True,), (False, True), (True, True), (True, False), (False, False), (False, True, True), (False, False, True)):
        conv = tuple(Obj("FileConverter", {"FileConverter"}, name=f"converter {n}", handled=h) for n, h in enumerate(handled))

        def made(o):
            if o.attrs["handled"] is None:
                out = asked(c, None, None, o.attrs["of"], "converted_paths", "a/b.x")
                if out is None:
                    raise Unknown
                return out
            return [f"{o.attrs['name']}:a/b.x", f"{o.attrs['name']}:other"]

        def world(sim, x, nothing):
            op, a = x.op, x.args
            if x is p:
                return "a/b.x"
            if op == "attr" and a[0] is me and a[1] == "converters":
                return conv
            if op == "attr" and a[0].op == "class" or op == "obj":
                k = c.prog.classes.get(str((a[0].args if op == "attr" else a)[0]).rsplit(".", 1)[-1])
                k = k[0] if isinstance(k, list) else k
                if k is None or k.method("converted_paths") is None:
                    return nothing
                return Obj("FileConverter", {"FileConverter"}, name=k.name, handled=None, of=k)
            who = None
            if op == "mcall" or op == "vcall":
                who, name = a[0], a[1]
            elif op == "call" and str(a[0]).startswith("repo:") and len(a) > 1 and isinstance(a[1], T):
                who, name = a[1], str(a[0]).rsplit(".", 1)[-1]
            if who is not None and name in ("is_handled", "converted_paths"):
                o = sim.value(who)
                if isinstance(o, Obj) and "handled" in o.attrs:
                    return o.attrs["handled"] if name == "is_handled" else made(o)
            return nothing
        sim = Play(i, world, {})
        at = next((o for o in conv if o.attrs["handled"]), None)
        want = made(at) if at is not None else ["a/b.x"]
        where = f"{f.loc} (converters that handle it: {', '.join(str(n) for n, h in enumerate(handled) if h) or 'none'} of {len(handled)})"
        try:
            if sim.play() is not None:
                got = ["an error"]
            else:
                t = i.snap(i.result)
                got = [v if kk is None else kk for v, kk in sim.elements(t)]
        except Unknown:
            c.r.und(FIRST, where, "not understood")
            continue
        except Fails:
            got = ["an error"]
        c.r.ob(got == want, FIRST, where, f"announces {', '.join(map(str, got))}" if got == want else f"announces {', '.join(map(str, got)) or 'nothing'} instead of {', '.join(want)}")
