"""C56: patches are exported each from the one before it."""
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play
import posixpath

RULE = """The export command is interpreted down to the patch exporters it makes and runs, and followed over sample storages and output directories: directories of several patches, of patches that are not in the storage, other
directories, files named as a patch, no directory at all; every combination of --from, --patch, --previous and --symlinks. The exporters that are run must be, from the oldest to the latest, one for each patch that
has a directory (or the requested one), with the next older of them (or the requested one, or the next older stored patch) as the patch to compare with and to link to, in the directory of its version; what cannot be found
must be refused before anything is exported. CdragonRawPatchExporter must link by default exactly when it has a previous patch, and refuse to link without one."""

MANY, SINGLE, REFUSED, LINKS, OVERWRITE = ("every patch with a directory is exported from the one before it", "a requested patch is exported from its previous one", "what cannot be found is refused before anything is exported",
                                           "links need a previous patch", "existing files are replaced unless asked otherwise")
CR = "export.CdragonRawPatchExporter"
OPAQUE = ["storage.PatchVersion.__init__", "storage.Storage.patches", "storage.Storage.patch", "storage.PatchVersion.__lt__", "storage.PatchVersion.__eq__", CR + ".process"]


class V:
    """A version as the storage gives it."""

    def __init__(self, s):
        if isinstance(s, V):
            self.t = s.t
        elif s == "main":
            self.t = s
        else:
            t = tuple(int(x) for x in s.split("."))[:2]
            if len(t) != 2:
                raise ValueError(s)
            self.t = t

    def __str__(self):
        return self.t if self.t == "main" else ".".join(map(str, self.t))
    __repr__ = __str__

    def __eq__(self, o):
        return str(self) == str(o) if isinstance(o, (str, V)) else self.t == o

    def __hash__(self):
        return hash(str(self))

    def order(self, o):
        if not isinstance(o, V) or (self.t == "main") != (o.t == "main"):
            raise Fails
        return self.t, o.t

    def __lt__(self, o):
        a, b = self.order(o)
        return a < b

    def __gt__(self, o):
        a, b = self.order(o)
        return a > b

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o


class Store:
    def __init__(self, patches):
        """patches: [(version, is it stored)], latest first."""
        self.all = [(Obj("Patch", {"Patch"}, version=V(v)), s) for v, s in patches]

    def stored(self, only):
        return tuple(p for p, s in self.all if s or not only)

    def patch(self, v, only):
        ps = self.stored(only)
        return (ps[0] if ps else None) if v is None else next((p for p in ps if p.attrs["version"] == v), None)


def check(c):
    f = c.prog.func("__main__.command_export")
    names = [a.arg for a in f.node.args.args]
    if len(names) != 2:
        c.r.und(MANY, f.loc, "takes other parameters")
        return

    i = c.run(f, opaque=OPAQUE, nesting=3)
    for what, opts, dirs, store, want in samples():
        rule = REFUSED if isinstance(want, str) else MANY if opts.get("patch") is None else SINGLE
        got = follow(c, i, mk("param", names[1]), opts, dirs, store)
        where = f"{f.loc} ({what})"
        if got is None:
            c.r.und(rule, where, "not understood")
            continue
        end, runs = got
        if rule is REFUSED:
            ok = end is not None and not runs
            c.r.ob(ok, rule, where, str(end) if ok else f"exports {show(runs)}" if runs else "nothing is reported")
            continue
        if end is not None:
            c.r.bad(rule, where, f"is refused: {end}")
            continue
        ok = [r[:4] for r in runs] == want
        c.r.ob(ok, rule, where, show(runs) if ok else f"exports {show(runs)} instead of {show(want)}")
        if runs and all(r[4] is not None for r in runs):
            ok = all(r[4] is (not opts["lazy"]) for r in runs)
            c.r.ob(ok, OVERWRITE, where, f"overwrite={runs[0][4]}")
        elif runs:
            c.r.und(OVERWRITE, where, "not understood")
    links(c)
    c.part(all_of_directory)


def show(runs):
    return "; ".join(f"{r[1]} from {r[2]} into {r[0]}{' with links' if r[3] else ''}" for r in runs) or "nothing"


def opt(**kw):
    return {**{"patch": None, "previous": None, "first": None, "symlinks": None, "lazy": False}, **kw}


def samples():
    """(what, options, directories, storage, runs or the reason of the refusal)"""
    dirs = {"14.1", "13.24", "13.23", "main", "cdragon", "x.y", ""}
    files = {"13.22", "notes.txt"}
    store = [("main", True), ("14.2", False), ("14.1", True), ("13.24", True), ("13.23", True), ("13.22", True), ("13.21", True)]

    def run(v, p, links, d="out"):
        return (f"{d}/{v}", v, p, links)
    for sym in (True, False):
        for lazy in (True, False):
            o = dict(symlinks=sym, lazy=lazy)
            yield f"--from 13.24, links {sym}, lazy {lazy}", opt(first="13.24", **o), (dirs, files), store, [run("13.24", None, False), run("14.1", "13.24", sym), run("main", "14.1", sym)]
        o = dict(symlinks=sym)
        yield f"--from 13.1, links {sym}", opt(first="13.1", **o), ({"14.1", "13.23"}, files), store, [run("13.23", None, False), run("14.1", "13.23", sym)]
        yield f"--from the only directory, links {sym}", opt(first="14.1", **o), ({"14.1", "z"}, files), store, [run("14.1", None, False)]
        yield f"--from after every directory, links {sym}", opt(first="14.2", **o), ({"14.1", "13.23"}, set()), [x for x in store if x[0] != "main"], []
        yield f"a patch directory and 'main', links {sym}", opt(first="13.23", **o), ({"main", "13.23"}, set()), store, [run("13.23", None, False), run("main", "13.23", sym)]
        yield f"no patch directory, links {sym}", opt(first="13.1", **o), ({"cdragon"}, {"13.23"}), store, []
    yield "the directory of a patch that is not stored", opt(first="13.1", symlinks=False), ({"14.1", "14.2"}, set()), store, "not stored"
    yield "the directory of an unknown patch", opt(first="13.1", symlinks=True), ({"14.1", "9.13"}, set()), store[:4], "unknown"
    yield "neither --from nor a patch", opt(), (dirs, files), store, "no patch"
    yield "--previous without a patch", opt(first="13.1", previous="13.23"), (dirs, files), store, "no patch"
    yield "--previous without a patch nor --from", opt(previous="none"), (dirs, files), store, "no patch"
    yield "--from with a patch", opt(patch="14.1", first="13.1"), (dirs, files), store, "both"
    for sym in (True, False):
        o = dict(symlinks=sym)
        yield f"a patch, links {sym}", opt(patch="13.24", **o), (dirs, files), store, [run("13.24", "13.23", sym)]
        yield f"a patch without a directory, links {sym}", opt(patch="13.22", **o), ({"14.1"}, set()), store, [run("13.22", "13.21", sym)]
        yield f"'main', links {sym}", opt(patch="main", **o), (dirs, files), store, [run("main", "14.1", sym)]
        yield f"the latest patch, links {sym}", opt(patch="latest", **o), (dirs, files), store, [run("main", "14.1", sym)]
        yield f"a patch and its previous one, links {sym}", opt(patch="14.1", previous="13.22", **o), (dirs, files), store, [run("14.1", "13.22", sym)]
        yield f"a patch that is not stored and a previous one, links {sym}", opt(patch="14.2", previous="14.1", **o), (dirs, files), store, [run("14.2", "14.1", sym)]
        yield f"a patch that is unknown, links {sym}", opt(patch="9.1", **o), (dirs, files), store, "unknown"
        yield f"a patch that is unknown, without a previous one, links {sym}", opt(patch="9.1", previous="none", **o), (dirs, files), store, "unknown"
        yield f"a previous patch that is unknown, links {sym}", opt(patch="14.1", previous="9.1", **o), (dirs, files), store, "unknown"
        yield f"a previous patch that is not stored, links {sym}", opt(patch="14.1", previous="14.2", **o), (dirs, files), store, "not stored"
        yield f"the oldest patch, links {sym}", opt(patch="13.21", **o), (dirs, files), store, "no previous patch"
        yield f"a single patch, links {sym}", opt(patch="13.21", **o), (dirs, files), store[-1:], "no previous patch"
    yield "a patch without a previous one", opt(patch="14.1", previous="none", symlinks=False), (dirs, files), store, [run("14.1", None, False)]
    yield "the oldest patch without a previous one", opt(patch="13.21", previous="none", symlinks=False, lazy=True), (dirs, files), store, [run("13.21", None, False)]
    yield "links to no patch", opt(patch="14.1", previous="none", symlinks=True), (dirs, files), store, "links to nothing"
    yield "the latest patch of an empty storage", opt(patch="latest", symlinks=False), (dirs, files), [], "unknown"


class Scene(Play):
    def version(self, x):
        """The version a construction makes; Fails if it is no version."""
        args = [y for y in x.args[2:] if y.op not in ("uid", "epoch", "kw")]
        try:
            return V(self.value(args[0]))
        except (ValueError, TypeError, AttributeError):
            raise Fails

    def excs(self, x):
        """Does the body of a `try` raise for the current element?"""
        for e in self.i.events:
            if e.kind == "new" and e.name == "PatchVersion" and any(z == (x.args[1], "body") for z in e.zones):
                try:
                    if self.true(e.guard):
                        self.version(e.recv)
                except Fails:
                    return True
        return False


def scenery(opts, store, there, files, args=None):
    def world(sim, x, nothing):
        op, a = x.op, x.args
        if op == "attr" and args is not None and a[0] is args:
            return store if a[1] == "storage" else "out" if a[1] == "output" else opts.get(a[1], nothing)
        if op == "call" and a[0] in ("os.listdir", "os.scandir") and sim.value(a[1]) == "out":
            return tuple(sorted(x for x in there | files if x))
        if op == "call" and a[0] in ("os.path.isdir", "os.path.isfile", "os.path.exists", "os.path.lexists"):
            p = sim.value(a[1])
            if not isinstance(p, str):
                raise Fails
            p = posixpath.relpath(p, "out") if posixpath.normpath(p).startswith("out/") else None
            return p in there if a[0].endswith("isdir") else p in files if a[0].endswith("isfile") else p in there | files
        if op == "call" and a[0] == "os.path.join":
            return posixpath.join(*[sim.value(y) for y in a[1:] if y.op not in ("uid", "kw")])
        if op == "call" and a[0] == "os.path.normpath":
            return posixpath.normpath(sim.value(a[1]))
        if op == "call" and str(a[0]) in ("repo:cdtb.storage.Storage.patches", "repo:cdtb.storage.Storage.patch"):
            vs = [y for y in a[1:] if y.op not in ("uid", "epoch")]
            kw = {y.args[0]: sim.value(y.args[1]) for y in vs if y.op == "kw"}
            pos = [sim.value(y) for y in vs if y.op != "kw"]
            if a[0].endswith("patches"):
                return store.stored(bool(kw.get("stored", pos[1] if len(pos) > 1 else False)))
            v = kw.get("version", pos[1] if len(pos) > 1 else None)
            return store.patch(v, bool(kw.get("stored", pos[2] if len(pos) > 2 else False)))
        if op == "obj" and str(a[0]).rsplit(".", 1)[-1] == "PatchVersion":
            return sim.version(x)
        if op == "exc":
            return sim.excs(x)
        if op == "ok":
            return True
        return nothing
    return world


def follow(c, i, args, opts, dirs, store, me=None):
    """(how it ends or None, [(directory, version, previous version, links, overwrite)]), or None if not understood."""
    store = Store(store)
    world = scenery(opts, store, *dirs, args)
    runs = []

    def extra(sim, e):
        if e.kind == "call" and e.name == "repo:" + CR + ".process" or e.kind in ("mcall", "vcall") and e.name == "process":
            who = sim.value(e.args[0] if e.kind == "call" else e.recv)
            vs = e.args[1:] if e.kind == "call" else e.args
            over = e.kw.get("overwrite", vs[0] if vs else None) if e.kw or vs else None
            at = getattr(who, "attrs", {})
            if any(n not in at for n in ("output", "patch", "prev_patch", "create_symlinks")):
                raise Unknown
            ver = [None if at[n] is None else str(at[n].attrs["version"]) for n in ("patch", "prev_patch")]
            runs.append((at["output"], *ver, bool(at["create_symlinks"]), True if over is None else bool(sim.value(over))))
    sim = Scene(i, world, {}, extra=extra)
    try:
        e = sim.play()
    except Unknown:
        return None
    except Fails:
        return "an error", runs
    return (None if e is None else f"{e.name}"), runs


def all_of_directory(c):
    """from_directory, called without a first patch: every directory counts."""
    f = c.prog.cls(CR).method("from_directory")
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs] if f is not None else []
    if not {"storage", "output", "first", "symlinks"} <= set(ps):
        return
    i = c.run(f, opaque=OPAQUE, nesting=3)
    store = [("main", True), ("14.2", False), ("14.1", True), ("13.24", True), ("13.23", True)]
    for dirs, first, sym in (({"14.1", "13.23", "cdragon"}, None, True), ({"main", "14.1", "13.24"}, None, False), ({"main"}, None, None), ({"14.1", "13.24", "13.23"}, "13.24", None), (set(), None, None), ({"13.23", "13.24"}, None, None)):
        want = [v for v, s in reversed(store) if v in dirs and (first is None or v in ("main", "14.1", "13.24"))]
        want = [(f"out/{v}", v, want[k - 1] if k else None, bool(k and sym is not False)) for k, v in enumerate(want)]
        where = f"{f.loc} ({sorted(dirs)}, first={first}, symlinks={sym})"
        base = scenery({}, Store(store), dirs, set())

        def world(sim, x, nothing):
            if x.op == "param" and x.args[0] in ps:
                return {"output": "out", "first": V(first) if first else None, "symlinks": sym, "storage": "the storage"}.get(x.args[0], nothing)
            return base(sim, x, nothing)
        sim = Scene(i, world, {})
        try:
            e = sim.play()
            if e is not None:
                c.r.bad(MANY, where, f"is refused: {e.name}")
                continue
            got = []
            for o in sim.value(i.snap(i.result)):
                at = o.attrs
                got.append((at["output"], str(at["patch"].attrs["version"]), None if at["prev_patch"] is None else str(at["prev_patch"].attrs["version"]), bool(at["create_symlinks"])))
        except Fails:
            c.r.bad(MANY, where, "raises an error")
            continue
        except (Unknown, AttributeError, KeyError, TypeError):
            c.r.und(MANY, where, "not understood")
            continue
        c.r.ob(got == want, MANY, where, show([(*x, None) for x in got]) + ("" if got == want else f" instead of {show(want)}"))


def links(c):
    k = c.prog.cls(CR)
    f = k.method("__init__")
    names = [a.arg for a in f.node.args.args]
    i = c.run(f, self_type=k)
    if not {"prev_patch", "symlinks", "patch", "output"} <= set(names):
        c.r.und(LINKS, f.loc, "takes other parameters")
        return
    me = mk("param", names[0])
    for prev in (None, Obj("Patch", {"Patch"}, version=V("1.1"))):
        for sym in (None, True, False):
            def world(sim, x, nothing):
                if x.op == "param":
                    return {"prev_patch": prev, "symlinks": sym, "output": "out/1.2", "patch": 1}.get(x.args[0], nothing)
                if x.op == "call" and x.args[0] == "os.path.normpath":
                    return "out/1.2"
                return nothing
            where = f"{f.loc} ({'no' if prev is None else 'a'} previous patch, symlinks={sym})"
            sim = Play(i, world, {})
            try:
                e = sim.play()
                t = i.st.store.get(("f", me, "create_symlinks"))
                got = e.name if e is not None else bool(sim.value(i.snap(t))) if t is not None else "unset"
            except Unknown:
                c.r.und(LINKS, where, "not understood")
                continue
            except Fails:
                got = "an error"
            want = (prev is not None if sym is None else "ValueError" if sym and prev is None else sym)
            c.r.ob(got == want or isinstance(got, str) and isinstance(want, str), LINKS, where, f"{got}" if got == want else f"{got} instead of {want}")
