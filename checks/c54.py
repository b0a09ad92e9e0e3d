"""C54: the patch version of a build is the one its own files state."""
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play

RULE = """The retrieval of patch versions is interpreted and followed for sample builds. A release element must take the file that states its version (system.yaml of the client, content-metadata.json of the game) from its own manifest, bring it into the storage, and read it at the path it is extracted to;
a solution version must take the file of its main project (system.yaml, League of Legends.exe), extracted first when it is not there, and read it where the storage has it; a build without that project or file has no version and must not get one.
The readers of system.yaml and content-metadata.json, followed over sample files, must give the version of the first branch line and the first two numbers of the version."""

FILE, READY, RESULT, ABSENT, YAML, META, EXE = ("the version is read from the file of the element", "the file is in the storage before it is read", "the version is what the file states", "a build that does not state a version gets none", "version of a system.yaml", "version of a content-metadata.json",
                                                "version of an executable")
READERS = {"get_system_yaml_version": "yaml", "get_content_metadata_version": "meta", "get_exe_version": "exe"}
OPAQUE = ["patcher.PatcherStorage.download_bundle", "patcher.PatcherReleaseElement.extract_file", "patcher.PatcherReleaseElement.is_extracted_file", "storage.get_system_yaml_version", "storage.get_content_metadata_version", "storage.get_exe_version", "rads.RadsProjectVersion.extract",
          "rads.RadsProjectVersion.filepaths", "rads.RadsSolutionVersion.projects", "storage.PatchVersion.__init__", "patcher.PatcherReleaseElement.manif"]


def check(c):
    c.part(element)
    c.part(solution)
    c.part(yaml)
    c.part(metadata)
    c.part(exe)


def short(e):
    return str(e.name).rsplit(".", 1)[-1]


def reader(x):
    """The reader a call term is of."""
    return next((n for n in READERS if isinstance(x, T) and x.op in ("call", "dyncall") and str(x.args[0]).endswith(n)), None)


def version(v):
    """What a PatchVersion is made of."""
    if isinstance(v, Obj) and "PatchVersion" in v.kinds and len(v.attrs.get("args", ())) + len(v.attrs.get("kw", ())) == 1:
        x = (v.attrs["args"] or list(v.attrs["kw"].values()))[0]
        if isinstance(x, Exception):
            raise x
        return x
    raise Unknown


# ---------------------------------------------------------------- release elements

def element(c):
    f = c.prog.func("patcher.PatcherReleaseElement._retrieve_patch_version")
    i = c.run(f, self_type=c.prog.cls("patcher.PatcherReleaseElement"), opaque=OPAQUE)
    me = mk("param", f.node.args.args[0].arg)
    for name, file_name, rd in (("client", "system.yaml", "yaml"), ("game", "content-metadata.json", "meta")):
        for there in (False, True):
            where = f"{f.loc} ({name}, {'already extracted' if there else 'not extracted'})"
            files = {n: Obj(n, name=n, size=3, chunks=tuple(Obj(f"c{k}", bundle=Obj("b", bundle_id=b)) for k, b in enumerate(bs))) for n, bs in (("system.yaml", (7, 8, 7)), ("content-metadata.json", (9, 10)), ("a.wad", (1,)))}
            release = Obj("release", storage=Obj("storage", path="st"), storage_dir="st/rel", version=5)
            log = []

            def world(sim, x, nothing):
                op, a = x.op, x.args
                if op == "attr" and a[0] is me and a[1] in ("name", "release"):
                    return name if a[1] == "name" else release
                if op == "attr" and a[0] is me and a[1] == "manif" or op == "call" and str(a[0]).endswith("PatcherReleaseElement.manif"):
                    return Obj("manif", files=files)
                if op == "call" and str(a[0]).endswith("is_extracted_file"):
                    return there
                if reader(x):
                    return (READERS[reader(x)], sim.value([y for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "kw")][-1]))
                if op == "call" and a[0] in ("os.path.isfile", "os.path.exists"):
                    return there
                return nothing

            def effect(sim, e):
                n = short(e)
                if n in ("download_bundle", "extract_file") and e.kind in ("call", "vcall", "mcall"):
                    log.append((n, [sim.value(y) if k else None for k, y in enumerate(e.args)] if e.recv is None else [None] + [sim.value(y) for y in e.args]))
                elif n in READERS and e.kind in ("call", "vcall"):
                    log.append((READERS[n], sim.value(e.args[-1])))
            try:
                sim = Play(i, world, extra=effect)
                e = sim.play()
                if e is not None:
                    c.r.bad(RESULT, where, f"is refused: {e.name}")
                    continue
                v = version(sim.value(i.snap(i.result)))
            except Unknown:
                c.r.und(FILE, where, "not understood")
                continue
            except Fails:
                c.r.bad(RESULT, where, "raises an error")
                continue
            at = next((k for k, x in enumerate(log) if x[0] in READERS.values()), None)
            want = f"st/rel/files/{file_name}"
            c.r.ob(v == (rd, want), FILE, where, f"{v[1]}" if v == (rd, want) else f"is {v}, not what the {rd} reader gives for {want}")
            before = log[:at] if at is not None else log
            ex = next((k for k, x in enumerate(before) if x[0] == "extract_file" and x[1][1] is files[file_name]), None)
            got = {x[1][1] for x in before[:ex] if x[0] == "download_bundle"} if ex is not None else set()
            need = {ch.attrs["bundle"].attrs["bundle_id"] for ch in files[file_name].attrs["chunks"]}
            if there:
                c.r.ob(at is not None, READY, where, "" if at is not None else "is not read")
            else:
                c.r.ob(ex is not None and got >= need, READY, where, f"bundles {sorted(got)} are downloaded, then it is extracted" if ex is not None and got >= need else "is read without being extracted" if ex is None else f"is extracted with bundles {sorted(got)} of {sorted(need)}")
            extra = [x for x in log if x[0] == "extract_file" and x[1][1] is not files[file_name] or x[0] == "download_bundle" and x[1][1] not in need]
            c.r.ob(not extra, READY, where + " nothing else", "" if not extra else f"also {extra[0]}")


# ---------------------------------------------------------------- solutions

def solution(c):
    f = c.prog.func("rads.RadsSolutionVersion._retrieve_patch_version")
    i = c.run(f, self_type=c.prog.cls("rads.RadsSolutionVersion"), opaque=OPAQUE)
    me = mk("param", f.node.args.args[0].arg)

    def pv(name, v, *paths):
        return Obj(f"{name}={v}", project=Obj(name, name=name), version=tuple(int(x) for x in v.split(".")), paths={f"projects/{name}/releases/{v}/files/{p}": None for p in paths})
    cl = pv("league_client", "0.0.1.9", "a/xsystem.yaml", "system.yaml.txt", "x/system.yaml/z", "system.yaml", "z.txt")
    fr = pv("league_client_fr_fr", "0.0.1.9", "system.yaml", "League of Legends.exe")
    gm = pv("lol_game_client", "0.0.2.3", "x/My League of Legends.exe", "League of Legends.exe", "z.txt")
    old = pv("league_client", "0.0.0.43", "other.txt")
    older = pv("league_client", "0.0.0.9", "other.txt")
    new = pv("league_client", "0.0.0.44", "other.txt")
    new1 = pv("league_client", "0.0.1.0", "other.txt")
    nogame = pv("lol_game_client", "0.0.0.3", "other.txt", "system.yaml")
    samples = [("the client", "league_client_sln", (fr, cl), "yaml", cl, "system.yaml"), ("the game", "lol_game_client_sln", (gm, fr), "exe", gm, "League of Legends.exe"), ("both projects", "lol_game_client_sln", (cl, gm), "exe", gm, "League of Legends.exe"),
               ("a client up to 0.0.0.43 without the file", "league_client_sln", (old,), None, None, None), ("a client up to 0.0.0.43 without the file", "league_client_sln", (fr, older), None, None, None),
               ("a later client without the file", "league_client_sln", (new,), "error", None, None), ("a later client without the file", "league_client_sln", (new1,), "error", None, None), ("a game without the file", "lol_game_client_sln", (nogame,), "error", None, None),
               ("no such project", "league_client_sln", (fr, gm), "error", None, None), ("another solution", "lol_other_sln", (cl, gm), "error", None, None)]
    for what, sln, pvs, rd, main, name in samples:
        for there in ((False, True) if main is not None else (False,)):
            where = f"{f.loc} ({what}{': already extracted' if there else ''})"
            log = []
            storage = Obj("storage", path="st")
            own = {"solution": Obj("sln", name=sln, storage=storage, path="s"), "version": "0.0.1.1", "path": "s/v"}

            def world(sim, x, nothing):
                op, a = x.op, x.args
                if op == "attr" and a[0] is me and a[1] in own:
                    return own[a[1]]
                if op == "call" and str(a[0]).endswith("RadsSolutionVersion.projects"):
                    return pvs
                if op == "call" and str(a[0]).endswith("RadsProjectVersion.filepaths"):
                    return sim.value(a[1]).attrs["paths"]
                if reader(x):
                    return (READERS[reader(x)], sim.value([y for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "kw")][-1]))
                if op == "call" and a[0] in ("os.path.isfile", "os.path.exists"):
                    return there
                if op == "obj" and str(a[0]).endswith("RadsVersion"):
                    s = sim.value([y for y in a[2:] if isinstance(y, T) and y.op not in ("uid", "kw")][0])
                    if isinstance(s, str):
                        return tuple(int(p) for p in s.split("."))
                return nothing

            def effect(sim, e):
                n = short(e)
                if n == "extract" and e.kind in ("call", "vcall", "mcall") and (e.recv is None and e.args or e.recv is not None):
                    a = list(e.args) if e.recv is None else [e.recv] + list(e.args)
                    ps = a[1] if len(a) > 1 else (e.kw or {}).get("paths")
                    log.append(("extract", sim.value(a[0]), tuple(sim.value(ps)) if ps is not None and sim.value(ps) is not None else None))
                elif n in READERS and e.kind in ("call", "vcall"):
                    log.append((READERS[n], sim.value(e.args[-1])))
            try:
                sim = Play(i, world, extra=effect)
                e = sim.play()
                if e is None:
                    v = sim.value(i.snap(i.result))
                    v = None if v is None else version(v)
                    err = None
                else:
                    v, err = None, str(e.name)
            except Unknown:
                c.r.und(FILE, where, "not understood")
                continue
            except Fails:
                v, err = None, "an error"
            if rd == "error":
                c.r.ob(err is not None, ABSENT, where, err or f"gives {v}")
                continue
            if err:
                c.r.bad(RESULT if rd else ABSENT, where, f"is refused: {err}")
                continue
            if rd is None:
                c.r.ob(v is None, ABSENT, where, "no version" if v is None else f"gives {v}")
                continue
            path = next(p for p in main.attrs["paths"] if p.endswith("/files/" + name))
            ok = v == (rd, "st/" + path)
            c.r.ob(ok, FILE, where, f"{path}" if ok else f"is {v}, not what the {rd} reader gives for st/{path}")
            at = next((k for k, x in enumerate(log) if x[0] in READERS.values()), len(log))
            if not there:
                got = [x for x in log[:at] if x[0] == "extract" and x[1] is main and (x[2] is None or path in x[2])]
                c.r.ob(bool(got), READY, where, "is extracted first" if got else "is read without being extracted")


# ---------------------------------------------------------------- readers

YAMLS = [("game-branch: a quoted version", 'a: 1\n  game-branch: "9.24"\nx: 2\n', "9.24"), ("a release branch", "build:\n    branch: Releases/10.1\n", "10.1"), ("a quoted release branch", "    branch: 'Release/8.23'\nbranch: \"main\"\n", "8.23"), ("no indentation", 'branch: "7.1"\n', "7.1"),
         ("the first branch", 'branch: "7.1"\nbranch: "7.2"\n', "7.1"), ("a branch without a number first", 'branch: "main"\ngame-branch: "9.3"\n', "9.3"), ("other keys", 'x-branch: "1.1"\nbranch-x: "1.2"\nbranches: "1.3"\ngame_branch: "1.4"\n  branch: "9.5"\n', "9.5"),
         ("three numbers", 'branch: "9.10.1"\n', "9.10.1"), ("the last line", 'a: b\nbranch: "10.25"', "10.25"), ("a branch that is not a version", 'branch: "Releases/9.1/x"\ngame-branch: "10.7-x"\nbranch: "9.2"\n', "9.2"), ("nothing", "", None), ("no branch", "a: 1\nversion: \"9.1\"\n", None), ("only a named branch", "branch: main\n", None)]


def yaml(c):
    f = c.prog.func("storage.get_system_yaml_version")
    i = c.run(f)
    for what, text_, want in YAMLS:
        reads(c, YAML, f, i, what, text_, want)


METAS = [("a game version", {"version": "13.1.487.9641+branch.releases-13-1.code.public"}, "13.1"), ("two digits", {"version": "10.25.345"}, "10.25"), ("no version", {"version": "main"}, None), ("no dots", {"version": "131"}, None), ("a number later", {"version": "v9.1.2"}, None)]


def metadata(c):
    f = c.prog.func("storage.get_content_metadata_version")
    i = c.run(f)
    for what, doc, want in METAS:
        reads(c, META, f, i, what, doc, want)


def reads(c, name, f, i, what, data, want):
    where = f"{f.loc} ({what})"
    arg = mk("param", f.node.args.args[0].arg)
    asked = []

    def world(sim, x, nothing):
        if x is arg:
            return "p"
        if x.op == "call" and x.args[0] in ("json.load", "json.loads"):
            return data
        return nothing

    def opens(sim, t):
        if t.op == "call" and t.args[0] in ("open", "io.open", "codecs.open"):
            asked.append(sim.value(t.args[1]))
            return data if isinstance(data, str) else "{}"
        return None
    try:
        sim = Play(i, world, opens=opens)
        e = sim.play()
        v = sim.value(i.snap(i.result)) if e is None else None
        err = None if e is None else str(e.name)
    except Unknown:
        c.r.und(name, where, "not understood")
        return
    except Fails:
        v, err = None, "an error"
    if want is None:
        c.r.ob(v is None, name, where, err or "none" if v is None else f"gives {v}")
    else:
        c.r.ob(v == want, name, where, f"{v}" if v == want else f"raises {err}" if err else f"gives {v}, not {want}")


def exe(c):
    f = c.prog.func("storage.get_exe_version")
    i = c.run(f)
    arg = mk("param", f.node.args.args[0].arg)
    r = i.snap(i.result)
    ok = r.op == "mcall" and r.args[1] in ("get", "getText") and is_const(r.args[2], "version") and tm.mentions(r.args[0], lambda x: x.op == "call" and str(x.args[0]).endswith("extractMetadata")) and tm.mentions(r.args[0], lambda x: x.op == "call" and str(x.args[0]).endswith("createParser") and len(x.args) > 1 and x.args[1] is arg)
    if ok:
        c.r.ok(EXE, f.loc, "the version of the metadata of the file")
    elif not tm.mentions(r, lambda x: is_const(x, "version")):
        c.r.bad(EXE, f.loc, f"gives {text(r)[:100]}")
    else:
        c.r.und(EXE, f.loc, text(r)[:100])
