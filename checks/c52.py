"""C52: a storage is opened as its path and configuration say."""
import copy
import posixpath
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play

RULE = """Storage.from_path and the from_conf_data of every storage class are interpreted and evaluated over sample paths (a directory with a configuration file, with a 'channels' directory, with both, with none; a configuration file; 'type:path'; a path that does not exist) and
sample configurations. The configuration opened must have the type and options of the file and a path relative to the directory of that file; a file without a type, a directory that nothing tells about and an unknown type must be refused.
Every storage class with a type must be registered under it, and every option must reach the storage that is made, with its documented default."""

PATH, REFUSED, TYPE, OPTION = "the configuration is that of the path", "a path without a configuration is refused", "the type selects its storage class", "the options of a configuration reach the storage"

FILES = {"d1/cdtb.storage.conf": {"type": "rads", "path": "sub", "cdn": "kr"}, "d4/cdtb.storage.conf": {"type": "patcher", "patchline": "pbe"}, "d5/cdtb.storage.conf": {"type": "rads", "url": "http://x/"}, "etc/a.conf": {"type": "patcher", "path": "../cdn", "use_extract_symlinks": False},
         "b.conf": {"type": "rads", "path": "rads"}, "c.conf": {"type": "patcher"}, "/etc/c.conf": {"type": "patcher", "path": "/data/cdn"}, "etc/bad.conf": {"path": "x"}, "bad/cdtb.storage.conf": {"patchline": "live"}, "e:f": {"type": "rads", "path": "g"}, "/r/d/cdtb.storage.conf": {"type": "patcher", "path": "cdn/"}}
DIRS = {"d1", "d2", "d2/channels", "d3", "d4", "d5", "d5/channels", "etc", "bad", "bad/channels", "a:b", "a:c", "a:c/channels", "d1/sub", "/r/d", "cdn", "rads"}

GOOD = [("d1", {"type": "rads", "path": "d1/sub", "cdn": "kr"}), ("d2", {"type": "patcher", "path": "d2"}), ("d4", {"type": "patcher", "path": "d4", "patchline": "pbe"}), ("d5", {"type": "rads", "path": "d5", "url": "http://x/"}),
        ("etc/a.conf", {"type": "patcher", "path": "cdn", "use_extract_symlinks": False}), ("b.conf", {"type": "rads", "path": "rads"}), ("c.conf", {"type": "patcher", "path": "."}), ("/etc/c.conf", {"type": "patcher", "path": "/data/cdn"}), ("/r/d", {"type": "patcher", "path": "/r/d/cdn"}),
        ("rads:some/dir", {"type": "rads", "path": "some/dir"}), ("patcher:x:y", {"type": "patcher", "path": "x:y"}), ("e:f", {"type": "rads", "path": "g"}), ("a:c", {"type": "patcher", "path": "a:c"}), ("new/dir", {"type": "patcher", "path": "new/dir"}), ("what:ever", {"type": "what", "path": "ever"})]
BAD = [("etc/bad.conf", "a configuration without a type"), ("bad", "a directory whose configuration has no type"), ("d3", "a directory without configuration nor channels"), ("a:b", "a directory without configuration nor channels, with a ':'")]


def check(c):
    c.part(paths)
    c.part(types)
    c.part(options)


def inside(p):
    return posixpath.normpath(p)


def fs_world(files, tail):
    def world(sim, x, nothing):
        op, a = x.op, x.args
        v = tail(sim, x, nothing)
        if v is not nothing:
            return v
        if op == "call" and a[0] in ("os.path.isdir", "os.path.isfile", "os.path.exists", "os.path.lexists") or op == "mcall" and a[1] in ("is_dir", "is_file", "exists"):
            p = sim.value(a[1] if op == "call" else a[0])
            if not isinstance(p, str):
                raise Fails
            p = inside(p)
            n = a[0] if op == "call" else a[1]
            return (p in DIRS if n in ("os.path.isdir", "is_dir") else p in files if n in ("os.path.isfile", "is_file") else p in DIRS or p in files)
        if op == "call" and a[0] in ("json.load", "json.loads"):
            p = opened(sim, a[1])
            if p not in files:
                raise Fails
            return files[p]
        if op == "call" and a[0] in ("os.path.abspath", "os.path.realpath"):
            return sim.value(a[1])
        return nothing
    return world


def opened(sim, t):
    """The path of the file a term is read from."""
    if t.op == "mcall" and t.args[1] in ("read", "read_text"):
        t = t.args[0]
        if t.op not in ("call", "mcall"):
            return inside(sim.value(t))
    if t.op == "call" and t.args[0] in ("open", "io.open", "codecs.open"):
        return inside(sim.value(t.args[1]))
    if t.op == "mcall" and t.args[1] == "open":
        return inside(sim.value(t.args[0]))
    raise Unknown


def resolved(sim, d):
    return {k: sim.value(v) if isinstance(v, T) else v for k, v in d.items()} if isinstance(d, dict) else d


class Asked(Exception):
    pass


def follow(i, tail, raises=(), stop=None):
    """(simulation, what ended it): "" for the end of the function."""
    files = copy.deepcopy(FILES)
    out = []

    def effect(sim, e):
        if stop is not None and stop(e):
            out.append(resolved(sim, sim.value(e.args[-1])) if e.args else None)
            raise Asked
        if e.kind == "setitem" and e.recv is not None:
            d = sim.value(e.recv)
            if isinstance(d, dict):
                d[sim.value(e.args[0])] = sim.value(e.args[1])
        if e.kind == "delitem" and e.recv is not None:
            d = sim.value(e.recv)
            if isinstance(d, dict):
                d.pop(sim.value(e.args[0]), None)
        if e.kind == "mcall" and e.name in ("update", "setdefault", "pop") and e.recv is not None:
            d = sim.value(e.recv)
            args = [resolved(sim, sim.value(y)) for y in e.args]
            if isinstance(d, dict):
                if e.name == "update" and (e.kw or len(args) != 1 or not isinstance(args[0], dict)):
                    raise Unknown
                getattr(d, e.name)(*args)
    sim = Play(i, fs_world(files, tail), raises=raises, extra=effect)
    try:
        e = sim.play()
    except Asked:
        return sim, "asked", out[0]
    return sim, "" if e is None else str(e.name), None


def paths(c):
    f = c.prog.func("storage.Storage.from_path")
    ps = f.node.args.args
    me = mk("param", ps[-1].arg)
    i = c.run(f, opaque=["storage.Storage.from_conf"])

    def ends(e):
        return e.kind in ("call", "vcall", "mcall") and (e.name.endswith("Storage.from_conf") or e.name == "from_conf")
    if not [e for e in i.events if ends(e)]:
        c.r.und(PATH, f.loc, "the storage is not made with from_conf")
        return
    for p, want in GOOD + BAD:
        why = want if isinstance(want, str) else None
        where = f"{f.loc} ({p})"
        try:
            sim, end, conf = follow(i, lambda s, x, nothing: p if x is me else nothing, stop=ends)
        except Unknown:
            c.r.und(REFUSED if why else PATH, where, "not understood")
            continue
        except Fails:
            sim, end, conf = None, "an error", None
        if why:
            c.r.ob(end not in ("", "asked"), REFUSED, where, end if end not in ("", "asked") else f"{why} is opened as {conf}")
            continue
        if end != "asked":
            c.r.bad(PATH, where, f"is refused: {end}" if end else "no storage is made")
            continue
        if not isinstance(conf, dict):
            c.r.und(PATH, where, "configuration not known")
            continue
        got = dict(conf)
        if isinstance(got.get("path"), str):
            got["path"] = inside(got["path"])
        w = dict(want, path=inside(want["path"]))
        c.r.ob(got == w, PATH, where, f"{w}" if got == w else f"is opened as {got}, not {w}")


# ---------------------------------------------------------------- types

def storages(c):
    """{type: class}"""
    out = {}
    for k in c.prog.cls("storage.Storage").all_subclasses():
        if "storage_type" in k.attrs:
            v = c.prog and k.attrs["storage_type"]
            try:
                import ast
                v = ast.literal_eval(v)
            except (ValueError, TypeError, SyntaxError):
                v = None
            if isinstance(v, str):
                out.setdefault(v, []).append(k)
    return out


def types(c):
    ks = storages(c)
    base = c.prog.cls("storage.Storage")
    for n in ("patcher", "rads"):
        c.r.ob(len(ks.get(n, ())) == 1, TYPE, base.loc, f"{n}: {[k.qual for k in ks.get(n, ())]}")
    # modules that define storages are loaded with the storage module
    mods = {x.name for x in reach(c.prog, base.module)}
    for n, l in ks.items():
        for k in l:
            c.r.ob(k.module.name in mods, TYPE, k.loc, f"{n}: {k.module.name} is imported with {base.module.name}" if k.module.name in mods else f"nothing imports {k.module.name}: {n} is unknown")
    f = c.prog.func("storage.Storage.from_conf")
    me = mk("param", f.node.args.args[-1].arg)
    i = c.run(f, opaque=["patcher.PatcherStorage.from_conf_data", "rads.RadsStorage.from_conf_data"])
    reg = {n: Obj(l[0].qual, cls=l[0]) for n, l in ks.items()}
    for n in list(ks) + ["what", "", "Patcher"]:
        got = []

        def world(sim, x, nothing):
            if x is me:
                return {"type": n, "path": "p", "x": 1}
            if x.op == "global" and x.args[-1] == "_storage_registry" or x.op == "build" and not x.args[1:]:
                return reg
            return nothing

        def call(e):
            return e.name == "from_conf_data" or e.name.endswith(".from_conf_data")
        where = f"{f.loc} (type {n!r})"
        try:
            files = None
            conf = None
            end = ""

            def effect(sim, e):
                if call(e) and e.kind in ("call", "vcall", "mcall"):
                    if e.recv is None:
                        got.append((e.name, resolved(sim, sim.value(e.args[-1]))))
                    else:
                        o = sim.value(e.recv)
                        if not isinstance(o, Obj):
                            raise Unknown
                        got.append((o.name, resolved(sim, sim.value(e.args[-1]))))
            sim = Play(i, world, raises=() if n in reg else ("KeyError",), extra=effect)
            e = sim.play()
            end = "" if e is None else str(e.name)
        except Unknown:
            c.r.und(TYPE, where, "not understood")
            continue
        except Fails:
            end = "an error"
        if n not in reg:
            c.r.ob(bool(end) and not got, TYPE, where, f"refused: {end}" if end else f"an unknown type opens {got}")
            continue
        if end:
            c.r.bad(TYPE, where, f"is refused: {end}")
            continue
        name = ks[n][0].qual
        ok = len(got) == 1 and name.split(".", 1)[1] in got[0][0] and got[0][1] == {"type": n, "path": "p", "x": 1}
        if not got:
            c.r.und(TYPE, where, "call of from_conf_data not found")
        else:
            c.r.ob(ok, TYPE, where, name if ok else f"made by {got}")
    register(c, ks)


def register(c, ks):
    """The metaclass enters each class under its type."""
    m = next((k for k in c.prog.classes.values() if k.method("__new__") is not None and "type" in k.lib_bases(c.prog)), None)
    if m is None:
        c.r.und(TYPE, c.prog.cls("storage.Storage").loc, "registration of storage classes not found")
        return
    f = m.method("__new__")
    i = c.run(f, self_type=m)
    sets = [e for e in i.events if e.kind == "setitem" and e.recv is not None and (tm.mentions(e.recv, lambda x: x.op == "global" and x.args[-1] == "_storage_registry") or e.recv.op == "build")]
    if not sets:
        c.r.bad(TYPE, f.loc, "classes are not entered in the registry")
        return
    for n in [*ks, None]:
        where = f"{f.loc} (type {n!r})"

        def world(sim, x, nothing):
            if x.op == "attr" and x.args[1] == "storage_type":
                return n
            if x.op in ("mcall", "index") and tm.mentions(x, lambda y: y is mk("const", "storage_type")) and x.op == "mcall" and x.args[1] == "get":
                return n
            if x.op == "param":
                return f"<{x.args[0]}>"
            return nothing
        s = Play(i, world)
        try:
            done = [(s.value(e.args[0]), e.args[1]) for e in sets if s.true(e.guard)]
        except (Unknown, Fails):
            c.r.und(TYPE, where, "not understood")
            continue
        if n is None:
            c.r.ob(not done, TYPE, where, "a class without a type is not entered")
        else:
            ok = [k for k, _ in done] == [n] and same(done[0][1], i.result)
            c.r.ob(ok, TYPE, where, "entered under its type" if ok else f"is entered as {[k for k, _ in done]}")


def reach(prog, m):
    """The modules that are loaded with a module (imports at its top level)."""
    import ast
    seen, todo = [m], [m]
    while todo:
        x = todo.pop()
        for st in ast.walk(x.tree):
            names = []
            if isinstance(st, ast.ImportFrom) and st.col_offset == 0:
                pkg = x.name.rsplit(".", st.level)[0] if st.level else ""
                b = ".".join(p for p in (pkg, st.module) if p)
                names = [b] + [f"{b}.{a.name}" for a in st.names]
            elif isinstance(st, ast.Import) and st.col_offset == 0:
                names = [a.name for a in st.names]
            for n in names:
                y = prog.modules.get(n)
                if y is not None and y not in seen:
                    seen.append(y)
                    todo.append(y)
    return seen


# ---------------------------------------------------------------- options

LOL = "https://lol.dyn.riotcdn.net/"
SAMPLES = {
    "patcher": [({}, dict(patchline="live", use_extract_symlinks=True, clientconfig_data=None, url=LOL)), ({"patchline": "pbe"}, dict(patchline="pbe", use_extract_symlinks=True, clientconfig_data=None)), ({"use_extract_symlinks": False}, dict(patchline="live", use_extract_symlinks=False)),
                ({"use_extract_symlinks": True, "patchline": "live"}, dict(use_extract_symlinks=True, patchline="live")), ({"clientconfig_data": "cc.json"}, dict(clientconfig_data="cc.json", use_extract_symlinks=True)), ({"clientconfig_data": "http://x/cc", "patchline": "beta", "use_extract_symlinks": False}, dict(clientconfig_data="http://x/cc", patchline="beta", use_extract_symlinks=False))],
    "rads": [({}, dict(url="http://l3cdn.riotgames.com/releases/live/")), ({"cdn": "default"}, dict(url="http://l3cdn.riotgames.com/releases/live/")), ({"cdn": "kr"}, dict(url="http://l3cdn.riotgames.com/KR_CBT/")), ({"cdn": "pbe"}, dict(url="http://l3cdn.riotgames.com/releases/pbe/")),
             ({"url": "http://h/p/"}, dict(url="http://h/p/")), ({"url": "http://h/p/", "cdn": "kr"}, None)]}


def options(c):
    for n, l in storages(c).items():
        for k in l:
            for conf, want in SAMPLES.get(n, ()):
                one(c, n, k, conf, want)


def one(c, n, k, extra, want):
    f = k.method("from_conf_data")
    if f is None:
        c.r.bad(OPTION, k.loc, "no from_conf_data")
        return
    i = c.run(f, self_type=k)
    me = mk("param", f.node.args.args[-1].arg)
    conf = {"type": n, "path": "st/x", **extra}
    where = f"{f.loc} ({extra})"

    def world(sim, x, nothing):
        if x is me:
            return conf
        if x.op == "dynattr":
            name = sim.value(x.args[1])
            a = k.class_attr(name) if isinstance(name, str) else None
            if a is None:
                raise Fails
            return sim.value(i.snap(i.getattr(mk("class", k.qual), name, None)))
        return nothing
    try:
        sim = Play(i, world)
        e = sim.play()
        if want is None:
            c.r.ob(e is not None, OPTION, where, "refused" if e is not None else "options that exclude each other are accepted")
            return
        if e is not None:
            c.r.bad(OPTION, where, f"is refused: {e.name}")
            return
        o = sim.value(i.snap(i.result))
        if not isinstance(o, Obj):
            raise Unknown
        for a, v in dict(want, path="st/x").items():
            if a not in o.attrs:
                raise Unknown
            got = o.attrs[a]
            if isinstance(got, Exception):
                raise got
            ok = got == v and type(got) is type(v)
            c.r.ob(ok, OPTION, f"{where} {a}", f"{v!r}" if ok else f"{a} is {got!r}, not {v!r}")
    except Unknown:
        c.r.und(OPTION, where, "not understood")
    except Fails:
        if want is None:
            c.r.ok(OPTION, where, "an error")
        else:
            c.r.bad(OPTION, where, "raises an error")
