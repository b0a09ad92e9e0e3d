"""C53: the manifests of a release are those of its patchline and element."""
from urllib.parse import urlsplit, parse_qsl
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play

RULE = """The functions that look up the current manifests are interpreted and followed with sample answers of the configuration servers. For every patchline the client manifest must be the one configured for its region under its own patchline, taken from the file or URL given as clientconfig_data,
else from the official URL; the game manifest the only release published for its platform. An answer without such an entry must be refused. A manifest is taken from a URL of the storage's server that names a manifest, or from its identifier, else it is refused.
A release has exactly the elements it has a manifest URL for, and each one reads the manifest of its own URL, once; without URL it is an error."""

CLIENT, GAME, SOURCE, NONE_SUCH, NAMED, OTHER, ELEMENTS = ("client manifest of the patchline and its region", "game manifest of the platform", "the configuration comes from where it should", "an answer without the entry is refused", "a manifest is found by URL or identifier", "another URL is refused",
                                                           "a release has the elements it lists")
ST = "patcher.PatcherStorage"
BASE = "https://lol.dyn.riotcdn.net/"


def check(c):
    c.part(client)
    c.part(game)
    c.part(manifest)
    c.part(elements)
    c.part(own_manifest)


class Net:
    """What the servers answer and the files hold; records what is asked for."""

    def __init__(self, urls, files=()):
        self.urls, self.files = urls, dict(files)
        self.asked, self.read = [], []

    def world(self, tail):
        def world(sim, x, nothing):
            v = tail(sim, x, nothing)
            if v is not nothing:
                return v
            op, a = x.op, x.args
            if op == "call" and a[0] in ("os.path.exists", "os.path.isfile", "os.path.lexists"):
                return sim.value(a[1]) in self.files
            if op == "mcall" and a[1] == "get" and a[0].op == "attr" and a[0].args[1] == "s" or op == "call" and a[0] == "requests.get":
                args = [y for y in (a[2:] if op == "mcall" else a[1:]) if y.op not in ("uid", "epoch", "kw")]
                u = sim.value(args[0])
                ps = [y.args[1] for y in a if isinstance(y, T) and y.op == "kw" and y.args[0] == "params"]
                if ps:
                    q = sim.value(ps[0])
                    if not isinstance(q, dict):
                        raise Unknown
                    u += "?" + "&".join(f"{k}={sim.value(v) if isinstance(v, T) else v}" for k, v in q.items())
                return Obj("response", url=u)
            if op == "mcall" and a[1] == "json" or op == "call" and a[0] in ("json.load", "json.loads"):
                return self.document(sim, a[0] if op == "mcall" else a[1])
            return nothing
        return world

    def document(self, sim, t):
        while t.op == "attr" and t.args[1] in ("text", "content") or t.op == "mcall" and t.args[1] in ("read", "decode"):
            t = t.args[0]
        if t.op == "call" and t.args[0] in ("open", "io.open"):
            p = sim.value(t.args[1])
            if p not in self.files:
                raise Fails
            self.read.append(p)
            return self.files[p]
        r = sim.value(t)
        if not isinstance(r, Obj) or "url" not in r.attrs:
            raise Unknown
        return self.answer(r.attrs["url"])

    def answer(self, u):
        self.asked.append(u)
        for k, v in self.urls.items():
            if alike(k, u):
                return v
        raise Fails


def alike(p, q):
    p, q = urlsplit(p), urlsplit(q)
    return (p.scheme, p.netloc, p.path, sorted(parse_qsl(p.query))) == (q.scheme, q.netloc, q.path, sorted(parse_qsl(q.query)))


def me_of(f):
    return mk("param", f.node.args.args[0].arg)


def result(sim, i):
    v = sim.value(i.snap(i.result))
    return v


def run(c, f, i, net, attrs, more=lambda sim, x, nothing: nothing):
    """(value, None) or (None, what ended it)"""
    me = me_of(f)

    def tail(sim, x, nothing):
        if x.op == "attr" and x.args[0] is me and x.args[1] in attrs:
            return attrs[x.args[1]]
        return more(sim, x, nothing)
    sim = Play(i, net.world(tail))
    try:
        e = sim.play()
        if e is not None:
            return None, str(e.name)
        return result(sim, i), None
    except Fails:
        return None, "an error"


# ---------------------------------------------------------------- client

OFFICIAL = "https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines"


def doc(tag, lines=("live", "pbe", "beta"), regions=("NA", "EUW", "PBE", "KR"), win=True):
    def conf(line, plat):
        return {"configurations": [{"id": r, "patch_url": f"{tag}/{line}/{plat}/{r}", "valid_shards": {}} for r in regions]}
    return {f"keystone.products.league_of_legends.patchlines.{n}": {"platforms": {p: conf(n, p) for p in (("mac", "win") if win else ("mac",))}, "version": "1"} for n in lines}


def client(c):
    f = c.prog.func(f"{ST}.get_latest_client_manifest")
    i = c.run(f, self_type=c.prog.cls(ST))
    region = {"live": "EUW", "pbe": "PBE", "beta": "EUW"}
    for line, r in region.items():
        for data, src in ((None, "web"), ("", "web"), ("http://h/cc.json", "http://h/cc.json"), ("https://h/cc.json", "https://h/cc.json"), ("cc.json", "file"), ("http.json", "file")):
            net = Net({OFFICIAL: doc("web"), "http://h/cc.json": doc("http://h/cc.json"), "https://h/cc.json": doc("https://h/cc.json")}, {"cc.json": doc("file"), "http.json": doc("file"), "http://h/cc.json": doc("trap")})
            where = f"{f.loc} ({line}, clientconfig_data {data!r})"
            try:
                v, err = run(c, f, i, net, {"patchline": line, "clientconfig_data": data, "url": BASE})
            except Unknown:
                c.r.und(CLIENT, where, "not understood")
                continue
            want = f"{src}/{line}/win/{r}"
            if err:
                c.r.bad(CLIENT, where, f"is refused: {err}" + (f" (asked for {net.asked[-1]})" if net.asked and src == "file" else ""))
                continue
            ok = v == want
            if not ok and isinstance(v, str) and not v.startswith(src):
                c.r.bad(SOURCE, where, f"taken from {v}, not from {src}")
            else:
                c.r.ob(ok, CLIENT, where, f"{v}" if ok else f"is {v}, not {want}")
    for what, d, line in (("another patchline only", doc("web", lines=("pbe",)), "live"), ("no configuration of the region", doc("web", regions=("NA", "KR", "PBE")), "live"), ("no configuration of the region", doc("web", regions=("NA", "EUW")), "pbe"),
                          ("no configuration at all", doc("web", regions=()), "live"), ("no Windows platform", doc("web", win=False), "live")):
        where = f"{f.loc} ({line}, {what})"
        try:
            v, err = run(c, f, i, Net({OFFICIAL: d}), {"patchline": line, "clientconfig_data": None, "url": BASE})
        except Unknown:
            c.r.und(NONE_SUCH, where, "not understood")
            continue
        c.r.ob(err is not None, NONE_SUCH, where, err or f"gives {v}")


# ---------------------------------------------------------------- game

def game(c):
    f = c.prog.func(f"{ST}.get_latest_game_manifest")
    i = c.run(f, self_type=c.prog.cls(ST))

    def url(p):
        return f"https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/{p}?q[platform]=windows&q[published]=true"

    def rel(*us):
        return {"releases": [{"release": {"product": "lol"}, "download": {"url": u, "size": 1}} for u in us]}
    for line, p in (("live", "EUW1"), ("pbe", "PBE1"), ("beta", "EUW1")):
        where = f"{f.loc} ({line})"
        net = Net({url("EUW1"): rel("EUW1"), url("PBE1"): rel("PBE1"), url("NA1"): rel("NA1")})
        try:
            v, err = run(c, f, i, net, {"patchline": line, "clientconfig_data": None, "url": BASE})
        except Unknown:
            c.r.und(GAME, where, "not understood")
            continue
        ok = v == p
        c.r.ob(ok, GAME, where, f"{v}" if ok else f"is refused: {err} (asked for {net.asked})" if err else f"is that of {v}, not of {p}")
    for what, d in (("no release", rel()), ("several releases", rel("a", "b"))):
        where = f"{f.loc} ({what})"
        try:
            v, err = run(c, f, i, Net({url("EUW1"): d}), {"patchline": "live", "clientconfig_data": None, "url": BASE})
        except Unknown:
            c.r.und(NONE_SUCH, where, "not understood")
            continue
        c.r.ob(err is not None, NONE_SUCH, where, err or f"gives {v}")


# ---------------------------------------------------------------- manifests

def manifest(c):
    f = c.prog.func(f"{ST}.download_manifest")
    i = c.run(f, self_type=c.prog.cls(ST), opaque=["storage.Storage.download"])
    arg = mk("param", f.node.args.args[1].arg)
    path = "channels/public/releases/%016X.manifest"
    dl = [e for e in i.events if e.kind in ("call", "vcall", "mcall") and (e.name.endswith("Storage.download") or e.name == "download")]
    for x, n in ((BASE + path % 0x0123456789ABCDEF, 0x0123456789ABCDEF), ("https://lol.secure.dyn.riotcdn.net/" + path % 0xFEDCBA9876543210, 0xFEDCBA9876543210), (BASE + path % 0xA, 0xA), (0x1F, 0x1F), (0, 0), (2 ** 64 - 1, 2 ** 64 - 1)):
        where = f"{f.loc} ({x!r})"
        try:
            v, err = run(c, f, i, Net({}), {"url": BASE, "path": "st"}, lambda sim, y, nothing: x if y is arg else nothing)
            if err:
                c.r.bad(NAMED, where, f"is refused: {err}")
                continue
            ok = v == path % n
            c.r.ob(ok, NAMED, where, f"{v}" if ok else f"is {v}, not {path % n}")
        except Unknown:
            c.r.und(NAMED, where, "not understood")
            continue
        if len(dl) != 1 or not dl[0].args[1:]:
            c.r.und(NAMED, where, "download not found")
            continue
        s = Play(i, lambda sim, y, nothing: x if y is arg else BASE if y.op == "attr" and y.args[1] == "url" else nothing)
        try:
            a = dl[0].args
            u = s.value(a[1])
            p = s.value(a[2]) if len(a) > 2 else s.value(dl[0].kw["path"]) if "path" in dl[0].kw else None
            ok = s.true(dl[0].guard) and u == path % n and p in (None, path % n)
            c.r.ob(ok, NAMED, where + " download", "" if ok else f"{u} is downloaded to {p}")
        except (Unknown, Fails, KeyError):
            c.r.und(NAMED, where + " download", "not understood")
    good = path % 0x0123456789ABCDEF
    for x in ("https://evil.example/" + good, "https://lol.dyn.riotcdm.net/" + good, "http://lol.dyn.riotcdn.net//" + good, "http://lol.dyn.riotcdn.net/" + good, BASE + "channels/public/bundles/0123456789ABCDEF.bundle", BASE + good + ".txt", BASE + "x/" + good, BASE + "channels/public/releases/123.manifest", BASE + "channels/public/releases/../../0123456789ABCDEF.manifest", BASE + "channels/public/releases/0123456789ABCDEFG.manifest",
              BASE + "channels/public/releases/0123456789ABCDEFXmanifest", good, ""):
        where = f"{f.loc} ({x!r})"
        try:
            v, err = run(c, f, i, Net({}), {"url": BASE, "path": "st"}, lambda sim, y, nothing: x if y is arg else nothing)
        except Unknown:
            c.r.und(OTHER, where, "not understood")
            continue
        c.r.ob(err is not None, OTHER, where, err or f"is taken for {v}")


# ---------------------------------------------------------------- elements

def elements(c):
    k = c.prog.cls("patcher.PatcherRelease")
    f = c.prog.func("patcher.PatcherRelease.elements")
    g = c.prog.func("patcher.PatcherRelease.element")
    h = c.prog.func("patcher.PatcherRelease.available_elements")
    for data, want in (({"game_patch_url": "G", "client_patch_url": "C"}, {"game": "G", "client": "C"}), ({"game_patch_url": "G"}, {"game": "G"}), ({"client_patch_url": "C", "game_patch_url": None}, {"client": "C"}), ({"client_patch_url": "", "game_patch_url": "G"}, {"game": "G"}), ({}, {}), ({"other_patch_url": "O", "game_patch_url": "G"}, {"game": "G"})):
        for q in (f, h, g):
            i = c.run(q, self_type=k, collect=q is not g)
            for name in (("game", "client") if q is g else (None,)):
                where = f"{q.loc} ({data}{', ' + name if name else ''})"
                me = me_of(q)
                arg = mk("param", q.node.args.args[1].arg) if q is g else None
                try:
                    sim = Play(i, lambda sim, x, nothing: data if x.op == "attr" and x.args[1] == "data" and x.args[0] is me else name if arg is not None and x is arg else nothing)
                    e = sim.play()
                    if e is not None:
                        c.r.bad(ELEMENTS, where, f"is refused: {e.name}")
                        continue
                    v = sim.value(i.snap(i.result))
                    if q is h:
                        got, exp = sorted(v), sorted(want)
                    elif q is g:
                        got, exp = made(v), ((name, want[name]) if name in want else None)
                    else:
                        got, exp = sorted(made(x) for x in v), sorted(want.items())
                    c.r.ob(got == exp, ELEMENTS, where, f"{got}" if got == exp else f"gives {got}, not {exp}")
                except Unknown:
                    c.r.und(ELEMENTS, where, "not understood")
                except Fails:
                    c.r.bad(ELEMENTS, where, "raises an error")


def made(o):
    if o is None:
        return None
    if not isinstance(o, Obj):
        raise Unknown
    n, u = o.attrs.get("name"), o.attrs.get("manif_url")
    if not isinstance(n, str) or not isinstance(u, str):
        raise Unknown
    return n, u


OWN = "an element reads the manifest of its own URL"


def own_manifest(c):
    """PatcherReleaseElement.manif followed with and without a URL."""
    k = c.prog.cls("patcher.PatcherReleaseElement")
    f = k.method("manif")
    if f is None or c.prog.func(f"{ST}.download_manifest") is None or k.method("__init__") is None:
        return
    i = c.run(f, self_type=k, opaque=[f"{ST}.download_manifest", f"{ST}.fspath", "storage.Storage.fspath", "patcher.PatcherManifest.__init__"], types={})
    me = me_of(f)
    st = Obj("storage", {"PatcherStorage"}, path="S", url=BASE)
    done = Obj("manifest", {"PatcherManifest"})
    for url in ("U1", None, ""):
        for have in (None, done):
            where = f"{f.loc} (URL {url!r}, {'already read' if have else 'not read yet'})"
            got = []

            def world(sim, x, nothing):
                if x.op == "attr" and x.args[0] is me:
                    return {"_manif": have, "manif_url": url, "name": "game", "release": Obj("release", {"PatcherRelease"}, storage=st, data={"game_patch_url": url, "client_patch_url": "U2"})}.get(x.args[1], nothing)
                if x is me:
                    return "element"
                if x.op == "call" and str(x.args[0]).endswith(".download_manifest"):
                    got.append(args(x, sim)[-1])
                    return ("stored", got[-1])
                if x.op == "mcall" and x.args[1] == "download_manifest":
                    got.append(sim.value(x.args[2]))
                    return ("stored", got[-1])
                if x.op == "call" and str(x.args[0]).endswith(".fspath"):
                    return ("at", args(x, sim)[-1])
                if x.op == "mcall" and x.args[1] == "fspath":
                    return ("at", sim.value(x.args[2]))
                if x.op == "obj" and x.args[0] == "PatcherManifest":
                    return ("manifest", args(x, sim)[-1])
                return nothing
            try:
                e = Play(i, world).play()
                err = e is not None and str(e.name)
                v = None if err else Play(i, world).value(i.snap(i.result))
            except Fails:
                err, v = "an error", None
            except (Unknown, IndexError):
                c.r.und(OWN, where, "not understood")
                continue
            if have is not None:
                c.r.ob(not err and v is done, OWN, where, err or f"{v}")
            elif url:
                c.r.ob(not err and v == ("manifest", ("at", ("stored", url))), OWN, where, err or f"{v}")
            else:
                c.r.ob(bool(err), OWN, where, err or f"gives {v}")


def args(x, sim):
    return [sim.value(y.args[1] if y.op == "kw" else y) for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "epoch")]
