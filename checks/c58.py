"""C58: an export covers every file of its patch."""
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play
from checks.c56 import V

RULE = """Exporter.add_patch_files is followed over sample patches (elements in several versions, with files of every kind), with the downloads, the opened archives and the calls on them recorded in order: every element of the latest version of the patch is downloaded with all languages
before its files are listed with all languages, every file is there under its export path at the end - archives as archives without their redirections, whose extensions are guessed before their paths are made usable, others with their source -, and nothing else. From
CdragonRawPatchExporter.process, the files of the exported patch must always be added to the exporter that is exported, and those of the previous patch whenever there is one. The exports of TFT and Arena data are followed for sample versions: from 9.14 and 13.14 on and for main, and not before,
from the exported game files, for the number of the version, into their directory and in every language."""

FILES, ADDED, DATA = "every file of a patch is there to be exported", "an export starts from the files of its patches", "TFT and Arena data are made for the patches that have them"
EX, CR = "export.Exporter.", "export.CdragonRawPatchExporter."
OPAQUE = ["storage.Patch.latest", "wad.Wad.__init__", "wad.Wad.guess_extensions", "wad.Wad.sanitize_paths"]


def check(c):
    c.part(files)
    c.part(added)
    c.part(data)


# ---------------------------------------------------------------- files

SOURCES = {
    "game 1.2": [("s/g/DATA/FINAL/Champions/Ahri.wad.client", "game/data/final/champions/ahri.wad.client"), ("s/g/Ahri.en_US.wad.client", "game/ahri.en_us.wad.client"), ("s/g/a.exe", "game/a.exe"), ("s/g/wad.txt", "game/wad.txt")],
    "client 3": [("s/c/Plugins/x/assets.wad", "plugins/x/assets.wad"), ("s/c/description.json", "plugins/x/description.json"), ("s/c/x.wad.old", "plugins/x/x.wad.old"), ("s/c/mywad", "plugins/x/mywad"), ("s/c/client", "plugins/x/y.wad")],
    "empty": [],
}
OLD = {"game 1.1": [("s/g1/old.wad", "game/old.wad"), ("s/g1/a.exe", "game/a.exe")]}


def patches():
    g, h, e, o = "game 1.2", "client 3", "empty", "game 1.1"
    yield "two elements", [g, h], [g, h]
    yield "an element without files", [e, g], [e, g]
    yield "one element", [h], [h]
    yield "elements in several versions", [o, g, h], [g, h]
    yield "no elements", [], []


def files(c):
    f = c.prog.func(EX + "add_patch_files")
    k = c.prog.cls("export.Exporter")
    names = [a.arg for a in f.node.args.args]
    if len(names) != 2:
        c.r.und(FILES, f.loc, "takes other parameters")
        return
    i = c.run(f, self_type=k, opaque=OPAQUE)
    for what, everything, latest in patches():
        where = f"{f.loc} ({what})"
        got = follow(i, mk("param", names[0]), mk("param", names[1]), everything, latest)
        if got is None:
            c.r.und(FILES, where, "not understood")
            continue
        wrong = judge(latest, *got)
        c.r.ob(wrong is None, FILES, where, wrong or f"{sum(len(SOURCES[e]) for e in latest)} files of {len(latest)} elements")


def judge(latest, end, log, wads, plain):
    if end is not None:
        return f"ends with {end}"
    down, at = {}, {}
    for n, (kind, who, *more) in enumerate(log):
        if kind == "download":
            down.setdefault(who, n)
            if not more[0]:
                return f"{who} is not downloaded with all languages"
        elif kind == "paths":
            if not more[0]:
                return f"files of {who} are not listed for all languages"
            if who not in down:
                return f"files of {who} are listed before it is downloaded"
    other = sorted({x[1] for x in log if x[0] in ("download", "paths")} - set(latest))
    if other:
        return f"{other[0]} is not in the latest version of the patch"
    missing = [e for e in latest if e not in down]
    if missing:
        return f"{missing[0]} is not downloaded"
    want = {d: s for e in latest for s, d in SOURCES[e]}
    for d, s in want.items():
        if s.endswith((".wad", ".wad.client")):
            if d not in wads:
                return f"the archive {s} is not exported" + (" as an archive" if d in plain else "")
            w = wads[d]
            if w.attrs["path"] != s:
                return f"{d} is exported from {w.attrs['path']}"
            steps = [x[0] for x in log if x[0] in ("files", "guess_extensions", "sanitize_paths") and x[1] is w]
            final = [x[2] for x in log if x[0] == "files" and x[1] is w]
            entries = final[-1] if final else w.attrs["files"]
            if [y.attrs["type"] for y in entries] != [0, 1, 3, 4]:
                return f"the entries of type {', '.join(str(y.attrs['type']) for y in entries)} of an archive are exported, instead of all but redirections"
            if "guess_extensions" not in steps:
                return "the extensions of unknown files are not guessed"
            if "sanitize_paths" not in steps:
                return "the paths of an archive are not made usable"
            if steps.index("guess_extensions") > len(steps) - 1 - steps[::-1].index("sanitize_paths"):
                return "the paths of an archive are made usable before the extensions are guessed"
        elif plain.get(d) != s:
            return f"{s} is not exported" if d not in plain else f"{d} is exported from {plain[d]}"
    more = sorted((set(wads) | set(plain)) - set(want)) or sorted(set(wads) & set(plain))
    return f"{more[0]} is exported as well" if more else None


def follow(i, me, patch, everything, latest):
    """(how it ends or None, what was done in order, archives, plain files), or None if not understood."""
    els = {e: Obj("PatchElement", {"PatchElement"}, label=e, name=e.split()[0], version=e.split()[-1]) for e in (*SOURCES, *OLD)}
    last = Obj("Patch", {"Patch"}, elements=[els[e] for e in latest], version="1.2", old=False)
    full = Obj("Patch", {"Patch"}, elements=[els[e] for e in everything], version="1.2", old=True)
    log, made, wads, plain = [], {}, {}, {}

    def truth(sim, x, a):
        kw = {y.args[0]: y.args[1] for y in a if isinstance(y, T) and y.op == "kw"}
        pos = [y for y in a if isinstance(y, T) and y.op not in ("kw", "uid", "epoch")]
        v = kw.get("langs", pos[0] if pos else None)
        return v is not None and bool(sim.value(v))

    def listed(sim, x):
        o = sim.value(x.args[0])
        if not isinstance(o, Obj) or "label" not in o.attrs:
            raise Unknown
        return o, truth(sim, x, x.args[2:])

    def wad(sim, x):
        args = [y for y in x.args[2:] if isinstance(y, T) and y.op not in ("uid", "epoch")]
        if not args:
            raise Unknown
        src = sim.value(args[0].args[1] if args[0].op == "kw" else args[0])
        if src not in made:
            made[src] = Obj("Wad", {"Wad"}, path=src, files=[Obj("WadFileHeader", {"WadFileHeader"}, type=n, ext=None, path=f"f{n}") for n in range(5)], version=(3, 0))
        return made[src]

    def world(sim, x, nothing):
        op, a = x.op, x.args
        if x is patch:
            return full
        if op == "call" and a[0] == "repo:cdtb.storage.Patch.latest":
            return last
        if op == "mcall" and a[1] == "latest" and sim.value(a[0]) in (full, last):
            return last
        if op == "mcall" and a[1] == "paths":
            o, langs = listed(sim, x)
            return tuple({**SOURCES, **OLD}[o.attrs["label"]])
        if op == "obj" and str(a[0]).rsplit(".", 1)[-1] == "Wad":
            return wad(sim, x)
        return nothing

    class Scene(Play):
        def elements(self, coll):
            if coll.op == "mcall" and coll.args[1] == "paths":
                return [(v, None) for v in self.value(coll)]
            return super().elements(coll)

    def extra(sim, e):
        if e.kind in ("vcall", "mcall") and e.name in ("download", "paths") and e.recv is not None:
            o = sim.value(e.recv)
            if isinstance(o, Obj) and "label" in o.attrs:
                v = e.kw.get("langs", e.args[0] if e.args else None) if e.kw or e.args else None
                log.append((e.name, o.attrs["label"], v is not None and bool(sim.value(v))))
        elif e.kind == "call" and e.name in ("repo:wad.Wad.guess_extensions", "repo:wad.Wad.sanitize_paths"):
            log.append((e.name.rsplit(".", 1)[-1], sim.value(e.args[0])))
        elif e.kind == "setattr" and e.name == "files" and e.recv is not None and e.recv.op == "obj":
            log.append(("files", sim.value(e.recv), [v if kk is None else kk for v, kk in sim.elements(e.args[0])]))
        elif e.kind in ("setitem", "delitem") and e.recv is not None and e.recv.op == "attr" and e.recv.args[0] is me:
            d = {"wads": wads, "plain_files": plain}.get(e.recv.args[1])
            if d is None:
                raise Unknown
            if e.kind == "delitem":
                d.pop(sim.value(e.args[0]), None)
            else:
                d[sim.value(e.args[0])] = sim.value(e.args[1])
        elif e.kind == "mcall" and e.recv is not None and e.recv.op == "attr" and e.recv.args[0] is me and e.recv.args[1] in ("wads", "plain_files"):
            d = wads if e.recv.args[1] == "wads" else plain
            if e.kw or e.name not in ("update", "setdefault", "pop", "__setitem__", "get", "keys", "items", "values"):
                raise Unknown
            if e.name in ("get", "keys", "items", "values"):
                return
            args = [sim.value(a) for a in e.args]
            if e.name == "update" and not (len(args) == 1 and isinstance(args[0], dict)):
                raise Unknown
            getattr(d, e.name)(*args)
    sim = Scene(i, world, {}, extra=extra)
    try:
        e = sim.play()
    except Unknown:
        return None
    except Fails:
        return "an error", log, wads, plain
    return None if e is None else str(e.name), log, wads, plain


# ---------------------------------------------------------------- the patches

def added(c):
    k = c.prog.cls("export.CdragonRawPatchExporter")
    keep = [EX + n for n in c.prog.cls("export.Exporter").methods]
    i = c.run(CR + "process", "added", self_type=k, opaque=keep + [CR + "export_tft_data", CR + "export_arena_data", "hashes.HashFile.load"])
    es = [e for e in i.events if e.kind == "call" and e.name == "repo:" + EX + "add_patch_files" and len(e.args) > 1]
    out = [e for e in i.events if e.kind == "call" and e.name == "repo:" + EX + "export"]
    me = mk("param", "self")
    where = k.method("process").loc
    if not out:
        c.r.und(ADDED, where, "nothing is exported")
    prev = norm(mk("attr", me, "prev_patch"))
    for o in out:
        mine = [e for e in es if norm(e.args[0]) is norm(o.args[0])]
        ok = [e for e in mine if norm(e.args[1]) is norm(mk("attr", me, "patch")) and not e.loops and e.seq < o.seq and tm.entails(o.guard, e.guard)]
        if not ok and (any(e.loops or not same(e.args[1], mk("attr", me, "patch")) for e in mine) or not es):
            c.r.und(ADDED, o.where(), "the files of the patch are not known to be added") if es else c.r.bad(ADDED, o.where(), "no files are added to what is exported")
        else:
            c.r.ob(bool(ok), ADDED, o.where(), "the files of the patch are added before" if ok else "the files of the patch are not always added to what is exported")
    of = [e for e in i.events if e.kind == "call" and e.name == "repo:" + EX + "filter_exporter" and len(e.args) > 1]
    for o in of:
        mine = [e for e in es if norm(e.args[0]) is norm(o.args[1])]
        ok = [e for e in mine if norm(e.args[1]) is prev and not e.loops and e.seq < o.seq and tm.entails(o.guard, e.guard)]
        c.r.ob(True if ok else False if all(not e.loops for e in mine) else None, ADDED, o.where(), "the files of the previous patch are added before" if ok else "the files of the previous patch are not always added to what it is compared with")


# ---------------------------------------------------------------- data

VERSIONS = ["main", "9.13", "9.14", "9.15", "10.1", "13.13", "13.14", "13.15", "13.2", "14.1", "15.10", "9.2", "8.24"]


def data(c):
    k = c.prog.cls("export.CdragonRawPatchExporter")
    keep = [EX + n for n in c.prog.cls("export.Exporter").methods] + [CR + "_create_symlinks"]
    op = ["tftdata.TftTransformer.__init__", "tftdata.TftTransformer.export", "arenadata.ArenaTransformer.__init__", "arenadata.ArenaTransformer.export", "storage.PatchVersion.as_int", "storage.PatchVersion.__init__"]
    whole = c.run(CR + "process", "data", self_type=k, opaque=keep + [CR + "export_tft_data", CR + "export_arena_data", "hashes.HashFile.load", CR + "_create_exporter", "export.reduce_common_paths"])
    for name, game, since, d in (("export_tft_data", "TftTransformer", "9.14", "tft"), ("export_arena_data", "ArenaTransformer", "13.14", "arena")):
        f = c.prog.func(CR + name)
        ends = [e for e in whole.events if e.kind == "call" and e.name == f"repo:{CR}{name}"]
        done = [e for e in whole.events if e.kind == "call" and e.name == f"repo:{EX}export"]
        where = k.method("process").loc
        if not ends:
            c.r.bad(DATA, where, f"{d} data are not exported")
        elif done:
            ok = all(e.seq > done[0].seq for e in ends)
            always = tm.equiv(tm.bor(*[e.guard for e in ends]), reach(whole))
            c.r.ob(ok and (True if always else None), DATA, ends[0].where(), f"{d} data are made from exported files" if ok and always else f"{d} data are made before the files are exported" if not ok else f"{d} data may not be exported")
        i = c.run(f, name, self_type=k, opaque=op)
        me = mk("param", f.node.args.args[0].arg)
        for v in VERSIONS:
            where = f"{f.loc} (patch {v})"
            got = data_for(i, me, v, game)
            if got is None:
                c.r.und(DATA, where, "not understood")
                continue
            yes = v == "main" or tuple(map(int, v.split("."))) >= tuple(map(int, since.split(".")))
            n = 9999 if v == "main" else int(v.split(".")[0]) * 100 + int(v.split(".")[1])
            want = [("work/out/game", n, f"work/out/cdragon/{d}", None)] if yes else []
            c.r.ob(got == want, DATA, where, ("makes them" if yes else "none") if got == want else f"{describe(got)} instead of {describe(want)}")


def reach(i):
    """The condition under which the end of the export is reached."""
    return tm.bor(*[g for g, *_ in i.root_returns]) if i.root_returns else TRUE


def describe(got):
    return "; ".join(f"data of version {n} from {a} into {b}" + ("" if l is None else f" for {l}") for a, n, b, l in got) if isinstance(got, list) and got else got or "none"


def data_for(i, me, version, game):
    out = []
    patch = Obj("Patch", {"Patch"}, version=V(version))
    num = 9999 if version == "main" else V(version)

    def world(sim, x, nothing):
        op, a = x.op, x.args
        if op == "attr" and a[0] is me:
            return {"patch": patch, "output": "work/out", "prev_patch": None}.get(a[1], nothing)
        if op == "call" and a[0] == "os.path.join":
            import posixpath
            return posixpath.join(*[sim.value(y) for y in a[1:] if y.op not in ("uid", "kw")])
        if op == "obj" and str(a[0]).rsplit(".", 1)[-1] == "PatchVersion":
            args = [y for y in a[2:] if y.op not in ("uid", "epoch", "kw")]
            return V(sim.value(args[0]))
        if op == "call" and a[0] == "repo:cdtb.storage.PatchVersion.as_int" or op == "mcall" and a[1] == "as_int":
            v = sim.value(a[1] if op == "call" else a[0])
            if not isinstance(v, V):
                raise Unknown
            return 9999 if str(v) == "main" else int(str(v).split(".")[0]) * 100 + int(str(v).split(".")[1])
        return nothing

    def extra(sim, e):
        if e.kind == "call" and e.name.endswith(f".{game}.export"):
            x = e.args[0]
            if x.op != "obj":
                raise Unknown
            args = [y for y in x.args[2:] if y.op not in ("uid", "epoch")]
            if len(args) != 2:
                raise Unknown
            by = {y.args[0]: y.args[1] for y in args if y.op == "kw"}
            pos = [y for y in args if y.op != "kw"]
            if set(by) - {"input_dir", "game_version", "input"}:
                raise Unknown
            src = sim.value(pos[0] if pos else next(v for n, v in by.items() if n != "game_version"))
            num = sim.value(pos[1] if len(pos) > 1 else by["game_version"])
            rest = list(e.args[1:])
            dst = e.kw.get("output", rest[0] if rest else None)
            langs = e.kw.get("langs", rest[1] if len(rest) > 1 else None)
            out.append((src, num, sim.value(dst), sim.value(langs) if langs is not None else None))
    sim = Play(i, world, {}, extra=extra)
    try:
        e = sim.play()
    except Unknown:
        return None
    except Fails:
        return "an error"
    return out if e is None else f"{e.name}"
