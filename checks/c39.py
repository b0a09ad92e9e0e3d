"""C39: the export filter keeps what is published and drops what is not."""
from vfa.q import *
from checks.c36 import process, exporters, consumed, CR, EX

RULE = """The changes that CdragonRawPatchExporter._transform_exported_files makes to an exporter (the two mappings and the lists of entries replaced or shortened, the paths of entries set) are extracted as terms with their conditions, in order, and
evaluated for a table of export paths: plain files, entries of client and game archives of each kind (with what the converters make of them), archives with and without a language, and versions on both sides of 14.4. What is left, and under which path,
must be what is published. In process(), the function must be applied to the exporter of the patch and to the one of the previous patch, with the version of that patch, before anything is compared or listed."""

DROP, KEEP, PLACE, BOTH = "what is not published is dropped", "what is published is kept", "files of game archives are placed under their directory", "both patches are filtered by the same rules"
X = mk("param", "exporter")
FN = CR + "_transform_exported_files"

# client archives: (path, kept)
LCU = [("plugins/rcp-be-a/global/default/x.json", True), ("plugins/rcp-be-a/global/default/b.exe", False), ("plugins/rcp-be-a/c.dll", False), ("plugins/rcp-be-a/description.json", True), ("plugins/rcp-fe-a/x.js", True),
       ("plugins/rcp-fe-a/sound.webm", True), ("plugins/rcp-fe-a/x.bin", True), ("plugins/rcp-fe-a/exe", True), ("plugins/rcp-fe-a/a.dll.png", True)]
PLAIN = [("League of Legends.exe", False), ("game/a.dll", False), ("plugins/rcp-be-a/description.json", False), ("plugins/rcp-be-a/other.json", True), ("content-metadata.json", True), ("game/data/x.txt", True), ("a.exe.txt", True), ("system.yaml", True),
         ("plugins/xdescription.json", True)]


def png(p):
    return [p.rsplit(".", 1)[0] + ".png"]


# game archives: (path, what the converters make of it, kept)
GAME = [("assets/a.dds", png, True), ("assets/b.tex", png, True), ("assets/c.png", None, True), ("assets/c.jpg", None, False), ("data/characters/ahri/ahri.bin", "json", True), ("data/ahri_skins_skin0_skins_skin1.bin", "json", False),
        ("data/x_skins_root.bin", None, False), ("data/y.bin", None, True), ("assets/ahri.skn", lambda p: [p, p[:-4]], True), ("data/a.txt", None, True), ("data/menu/en_us/lol.stringtable", "json", True), ("data/b.json", None, True), ("data/other.stringtable", None, True), ("ux/f.ttf", None, True),
        ("ux/f.otf", None, True), ("assets/sound.bnk", None, False), ("assets/a.wpk", None, False), ("assets/a.skl", None, False), ("assets/a.anm", None, False), ("assets/a.scb", None, False), ("data/a.luaobj", None, False), ("shaders/a", None, False),
        ("data/a.cdtb", lambda p: [p + ".json"], True), ("assets/pngs/a.troybin", None, False), ("data/json", None, False), ("data/a.exe", None, False), ("data/menu/fontconfig_en_us.txt", "json", True), ("assets/dds_png.mapgeo", None, False)]
LANGS = [("game/data/final/champions/ahri.wad.client", ""), ("game/data/final/ui.wad.client", ""), ("game/data/final/champions/ahri.en_us.wad.client", "en_us"), ("game/data/final/ui.zh_CN.wad.client", "zh_cn"), ("game/data/final/champions/ahri.es_mx.wad.client", "es_mx")]
VERSIONS = [("main", True), ((14, 4), True), ((15, 1), True), ((14, 15), True), ((14, 3), False), ((9, 14), False), ((10, 6), False)]


class Ver:
    """Value of a patch version."""
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        o = o.t if isinstance(o, Ver) else parse(o)
        return self.t == o

    def __hash__(self):
        return hash(self.t)

    def __lt__(self, o):
        o = o.t if isinstance(o, Ver) else parse(o)
        if o == "main":
            return self.t != "main"
        return self.t != "main" and self.t < o


def parse(o):
    if o == "main" or isinstance(o, tuple):
        return o
    if isinstance(o, str) and o.count(".") == 1 and o.replace(".", "").isdigit():
        return tuple(map(int, o.split(".")))
    return o


class Entry:
    def __init__(self, path):
        self.path = self.base = path
        self.hash = 0x1234


class World:
    """One archive with two entries, one plain file; the effects of the function are applied in order."""

    def __init__(self, i, ver, archive=None, entries=(), plain=None, conv=None):
        self.i, self.ver, self.archive, self.plain, self.conv = i, Ver(ver), archive, plain, conv
        self.all = [Entry(p) for p in entries]
        self.files = list(self.all)
        self.wad = archive is not None
        self.vers = {e.recv: e for e in i.events if e.kind == "new" and e.name.endswith("PatchVersion") and e.args}
        self.env = []
        self.alias, self.carried = {}, []

    # ---- evaluation
    def value(self, t):
        return calc(t, self.leaf)

    def kind(self, coll):
        c = strip_epoch(norm(coll))
        if c in self.alias:
            return self.alias[c]
        while c.op == "call" and c.args[0] in ("list", "tuple", "sorted", "set") and len(c.args) == 2 or c.op == "mcall" and c.args[1] in ("copy", "items", "keys", "values") and len(c.args) == 2:
            c = c.args[1] if c.op == "call" else c.args[0]
        if c.op == "attr" and c.args[0] is X and c.args[1] in ("wads", "plain_files"):
            return c.args[1]
        if c.op == "attr" and c.args[1] == "files" and c.args[0].op in ("val", "index") and self.kind(c.args[0].args[0]) == "wads":
            return "files"
        if c.op == "mu" and str(c.args[1]).endswith(".files"):
            return "now"
        if c.op == "mu" and str(c.args[1]).endswith("wads"):
            return "wads"
        if c.op == "mu" and "plain_files" in str(c.args[1]):
            return "plain_files"
        return None

    def elements(self, coll):
        """[(value, key)] of the elements of a collection."""
        k = self.kind(coll)
        if k == "wads":
            return [("WAD", self.archive)] if self.archive is not None else []
        if k == "plain_files":
            return [("SRC", self.plain)] if self.plain is not None else []
        if k == "files":
            return [(x, None) for x in self.all]
        if k == "now":
            return [(x, None) for x in self.files]
        if repo_call(coll, "converted_exported_paths"):
            p = self.value(coll.args[2])
            return [(x, None) for x in self.conv(p)]
        c = norm(coll)
        es = tm.entries_of(c) if c.op == "build" else None
        if es:
            out = []
            for e in es:
                if e.op != "entry":
                    raise Unknown
                self.each(e.args[0].args, lambda: out.append((self.value(e.args[2]), self.value(e.args[3]))) if self.value(e.args[1]) else None)
            return out
        v = self.value(c)
        if isinstance(v, (tuple, list, frozenset, dict, str)):
            return [(x, None) for x in v]
        raise Unknown

    def each(self, loops, do):
        """Run do() for each element of the nested loops; stops if it returns True."""
        if not loops:
            return do()
        l = loops[0]
        if l.op != "loop":
            raise Unknown
        for v, k in list(self.elements(l.args[0])):
            self.env.append((l.args[0], l.args[1], v, k))
            try:
                if self.each(loops[1:], do):
                    return True
            finally:
                self.env.pop()

    def leaf(self, x, nothing):
        op, a = x.op, x.args
        if op in ("elem", "key", "val", "zelem"):
            for coll, n, v, k in reversed(self.env):
                if n == a[1] and (coll is a[0] or strip_epoch(coll) is strip_epoch(a[0])):
                    return k if op == "key" or op == "elem" and k is not None else v
            kd = self.kind(a[0])
            if kd == "wads" and self.archive is not None:
                return "WAD" if op == "val" else self.archive
            if kd == "plain_files" and self.plain is not None:
                return "SRC" if op == "val" else self.plain
            raise Unknown
        if op == "any":
            return bool(self.each(a[0].args, lambda: bool(self.value(a[1]))))
        if op in ("first", "last") and a[0].op == "build":
            out = []
            es = tm.entries_of(a[0])
            for e in es:
                if e.op != "entry":
                    raise Unknown
                self.each(e.args[0].args, lambda: out.append(self.value(e.args[2])) if self.value(e.args[1]) else None)
            if not out:
                raise Fails
            return out[0 if op == "first" else -1]
        if op == "attr":
            if a[1] in ("path", "path_hash", "ext"):
                o = self.value(a[0])
                if isinstance(o, Entry):
                    return {"path": o.base, "path_hash": o.hash, "ext": "bin"}[a[1]]
            raise Unknown
        if op == "param":
            if a[0] == "patch_version":
                return self.ver
            raise Unknown
        if op == "obj" and x in self.vers:
            return Ver(parse(self.value(self.vers[x].args[0])))
        if op == "truthy" and (a[0].op == "build" or self.kind(a[0])):
            return bool(self.elements(a[0]))
        if op == "call" and a[0] == "len" and (a[1].op == "build" or self.kind(a[1])):
            return len(self.elements(a[1]))
        if op == "post" and a[0] in self.i.mus:
            init, step, loops = self.i.mus[a[0]]
            cur = [self.value(init)]

            def turn():
                self.carried.append((a[0], cur[0]))
                try:
                    cur[0] = self.value(step)
                finally:
                    self.carried.pop()
            self.each(loops[-1:], turn)
            return cur[0]
        if op == "mu":
            for m, v in reversed(self.carried):
                if m is x:
                    return v
        if op == "isinst":
            v = self.value(a[0])
            if isinstance(v, Ver):
                return "PatchVersion" in str(a[1])
        return strcalc(x, self.value, nothing)

    # ---- effects
    def run(self):
        for e in self.i.events:
            if e.kind == "setattr" and e.name in ("files", "path", "plain_files", "wads") or e.kind == "delitem" or e.kind == "mcall" and e.name in ("pop", "remove", "clear", "popitem") or e.kind == "setitem" or \
                    e.kind == "call" and e.name == "repo:wad.Wad.set_unknown_paths":
                self.apply(e)

    def apply(self, e):
        ls = [l for l in e.loops if l.op == "loop"]
        if len(ls) != len(e.loops):
            raise Unknown
        if e.kind == "delitem" or e.kind == "mcall" or e.kind == "setitem":
            k = self.target(e.recv)
            if k is None:
                if e.recv is not None and (e.recv.op in ("build", "obj", "cobj") or e.kind == "setitem"):
                    return      # a local collection
                if e.recv is not None and e.recv.op == "attr":
                    raise Unknown
                return
            if e.kind == "setitem" or e.name in ("clear", "popitem"):
                raise Unknown
        out = []

        def do():
            if self.value(e.guard):
                out.append(self.effect(e))
        # the loops are walked over what there is at this point
        self.each(ls, do)

    def target(self, t):
        """The mapping that is changed: what it was made from, if it was filtered before."""
        if t is None:
            return None
        t = strip_epoch(norm(t))
        es = tm.entries_of(t) if t.op == "build" else None
        if es and all(x.op == "entry" for x in es) and not any(x.args[0].args for x in es[1:]) and len(es[0].args[0].args) == 1 and es[0].args[2].op == "val" and es[0].args[3].op in ("key", "elem"):
            return self.kind(es[0].args[0].args[0].args[0])
        return self.kind(t)

    def effect(self, e):
        if e.kind == "call":
            for x in self.all:
                if not x.base:
                    x.path = x.base = f"{self.value(e.args[1])}/{x.hash:016x}"
        elif e.name == "files" and e.kind == "setattr":
            v = norm(e.args[0])
            got = [x for x, _ in self.elements(v)]
            if any(not isinstance(x, Entry) for x in got):
                raise Unknown
            self.files = [x for x in got if x in self.files]
            self.alias[strip_epoch(v)] = "now"
        elif e.name == "path":
            o = self.value(e.recv)
            if not isinstance(o, Entry):
                raise Unknown
            o.path = self.value(e.args[0])
        elif e.name == "plain_files":
            got = self.elements(norm(e.args[0]))
            if self.plain is not None and not any(k == self.plain and v == "SRC" for v, k in got):
                self.plain = None
            self.alias[strip_epoch(norm(e.args[0]))] = "plain_files"
        elif e.name == "wads" and e.kind == "setattr":
            if self.wad and not any(k == self.archive for v, k in self.elements(norm(e.args[0]))):
                self.wad = False
            self.alias[strip_epoch(norm(e.args[0]))] = "wads"
        else:
            k = self.target(e.recv)
            if k == "wads" and self.value(e.args[0]) == self.archive:
                self.wad = False
            elif k == "plain_files" and self.value(e.args[0]) == self.plain:
                self.plain = None
            elif k in ("files", "now"):
                o = self.value(e.args[0])
                self.files = [x for x in self.files if x is not o]


def check(c):
    r = c.r
    f = c.prog.func(FN)
    if f is None:
        r.und(DROP, FN, "not found")
        return
    i = c.run(FN, "filter", args={f.node.args.args[0].arg: X, f.node.args.args[1].arg: mk("param", "patch_version")}, opaque=[EX + "converted_exported_paths", "wad.Wad.set_unknown_paths"])
    try:
        table(r, f, i)
    except Unknown:
        r.und(DROP, f.loc, "the effects on the exporter are not understood")
    except Fails:
        r.und(DROP, f.loc, "the effects on the exporter fail for a path of the table")
    whole(r, i)
    both(c)


def whole(r, i):
    """No loop over what is filtered ends early."""
    cut = []
    for e in i.events:
        if e.kind == "setattr" and e.name in ("files", "path", "plain_files", "wads") or e.kind == "delitem" or e.kind == "call" and e.name == "repo:wad.Wad.set_unknown_paths":
            cut += cut_short(i, e.loops)
            if e.kind == "setattr" and e.args[0].op == "build":
                for x in tm.entries_of(norm(e.args[0])) or ():
                    if x.op == "entry":
                        cut += cut_short(i, [*e.loops, *x.args[0].args])
    for b in dict.fromkeys(cut):
        r.bad(DROP, b.where(), f"what comes after is not filtered, when {text(b.guard)[-80:]}")


def table(r, f, i):
    bad = {}
    n = 0

    def ob(good, label, what):
        nonlocal n
        n += 1
        if not good:
            bad.setdefault(label, what)

    for ver, _ in VERSIONS[:1] + VERSIONS[4:5]:
        for p, kept in PLAIN:
            w = World(i, ver, plain=p, conv=lambda x: [x])
            w.run()
            ob((w.plain is not None) is kept, KEEP if kept else DROP, f"the file {p} outside archives is {'dropped' if kept else 'exported'}")
    for archive in ("plugins/rcp-be-a/default-assets.wad", "plugins/rcp-be-a/assets2.wad", "plugins/rcp-be-a/en_us-assets.wad", "other/a.wad"):
        for p, kept in LCU + [(None, None)]:
            w = World(i, "main", archive, [p, "plugins/rcp-be-a/keep.json"], conv=lambda x: [x])
            e, o = w.all
            w.run()
            there = e in w.files and w.wad
            if kept is None:
                ob(not there or bool(e.path), DROP, "an entry without a path is exported")
                continue
            ob(there is kept, KEEP if kept else DROP, f"the entry {p} of a client archive is {'dropped' if kept else 'exported'}")
            ob(o in w.files and w.wad, KEEP, "the other entries of the archive of a dropped one are dropped")
            ob(not there or e.path == p, PLACE, f"the entry {p} of a client archive is exported as {e.path}")
    for archive, lang in LANGS:
        for ver, recent in VERSIONS:
            few = archive != LANGS[0][0] and ver not in ("main", (14, 3))
            for p, conv, kept in GAME[:3] if few else GAME:
                fn = (lambda x: [x]) if conv is None else (lambda x: [x, x + ".json"]) if conv == "json" else conv
                w = World(i, ver, archive, [p, "assets/keep.png"], conv=lambda x: [x] if "keep.png" in x else fn(x))
                e, o = w.all
                w.run()
                there = e in w.files and w.wad
                want = f"game/{lang}/{p}" if lang and recent else f"game/{p}"
                ob(there is kept, KEEP if kept else DROP, f"the entry {p} of a game archive is {'dropped' if kept else 'exported'}")
                ob(o in w.files and w.wad, KEEP, f"the other entries of the archive of {p} are dropped")
                ob(not there or e.path == want, PLACE, f"in version {ver}, {p} of {archive} is exported as {e.path}, not {want}")
            w = World(i, ver, archive, [None, "assets/keep.png"], conv=lambda x: [x])
            w.run()
            ob(w.all[0] not in w.files or w.all[0].path and "None" not in w.all[0].path, DROP, "an entry without a path is exported")
    for label in (DROP, KEEP, PLACE):
        if label in bad:
            r.bad(label, f.loc, bad[label])
        else:
            r.ok(label, f.loc, f"{n} cases of the table")


def both(c):
    r = c.r
    f = c.prog.func(CR + "process")
    if f is None:
        r.und(BOTH, CR + "process", "not found")
        return
    i = process(c)
    new, old, by = exporters(i)
    ts = by.get("_transform_exported_files", [])
    self_ = mk("param", "self")
    prev = mk("truthy", mk("attr", self_, "prev_patch"))
    later = [e for n in ("filter_exporter", "all_converted_exported_paths", "export", "clean_output_dir") for e in by.get(n, [])]
    for x, name, need in ((new, "patch", TRUE), (old, "prev_patch", prev)):
        if x is None:
            r.und(BOTH, f.loc, f"exporter of {name} not recognised")
            continue
        mine = [e for e in ts if any(strip_epoch(a) is x for a in e.args)]
        if not mine:
            r.ob(None if any(strip_epoch(a) not in (new, old) for e in ts for a in e.args[:1] if a.op != "param") else False, BOTH, f.loc, f"files of self.{name} are not filtered")
            continue
        if len(mine) > 1:
            r.bad(BOTH, mine[1].where(), f"files of self.{name} are filtered twice: they are placed under game/ twice")
            continue
        e = mine[0]
        ver = [a for a in e.args if strip_epoch(a) is not x and a is not self_] + list((e.kw or {}).values())
        v = next((strip_epoch(norm(a)) for a in ver if strip_epoch(a) is not x), None)
        if v is None:
            r.und(BOTH, e.where(), "no version")
        else:
            want = mk("attr", mk("attr", self_, name), "version")
            r.ob(True if v is want else False if v.op in ("const", "attr") else None, BOTH, e.where(), f"files of self.{name} are filtered by the rules of {text(v)[:60]}")
        noerr = band(need, *[a for a in tm.atoms(e.guard) if a.op == "ok"])
        # needed wherever the exporter is used
        for u in later:
            if any(strip_epoch(a) is x for a in u.args):
                at = consumed(i, u)
                r.ob(e.seq < min(at, u.seq if not getattr(u.extra, "is_gen", False) else at), BOTH, u.where(), f"files of self.{name} are filtered before {u.name.split('.')[-1]}")
                # under the condition of its use
                g = band(u.guard, bnot(e.guard))
                facts = [bnot(a) if a.op == "exc" else a for a in tm.atoms(g) if a.op in ("ok", "exc")]
                r.ob(not tm.satisfiable(band(g, *facts)), BOTH, e.where(), f"files of self.{name} are filtered whenever they are used")
