"""C51: RADS manifests are decoded in full."""
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play

RULE = """The readers of solution manifests, package manifests and release listings are interpreted and followed over sample documents. A solution manifest must give, for every language,
exactly the project versions it lists and, for None, exactly the required ones; another magic line, format version, solution name or solution version must be refused. A package manifest must give every file
with its path, package, offset, size and compression, named for extraction without the '.compressed' suffix; another magic line must be refused. A release listing must give every version, the
latest first for solutions."""

SOLUTION, REFUSED, PACKAGE, LISTING = "projects of every language", "another document is refused", "files of a package manifest", "versions of a release listing"


def check(c):
    c.part(solution)
    c.part(package)
    c.part(listing)


def follow(i, text_, world, handle=None):
    """(sim, value of the result) over a document; the error that ends it, or None."""
    def opens(sim, t):
        return text_ if t.op == "call" and t.args[0] in ("open", "io.open", "codecs.open") else None

    def w(sim, x, nothing):
        op, a = x.op, x.args
        v = world(sim, x, nothing)
        if v is not nothing:
            return v
        if op == "call" and a[0] in ("os.path.isfile", "os.path.exists", "os.path.lexists"):
            return True
        if op == "call" and a[0] == "os.path.isdir":
            return True
        if op == "obj":
            n = str(a[0]).rsplit(".", 1)[-1]
            if n in ("RadsVersion", "Language"):
                args = [y.args[1] if y.op == "kw" else y for y in a[2:] if y.op not in ("uid", "epoch")]
                return (n, sim.value(args[0])) if len(args) == 1 else nothing
        return nothing
    sim = Play(i, w, opens=opens)
    try:
        e = sim.play()
        if e is not None:
            return f"{e.name}"
        return sim, i
    except Unknown:
        return None
    except Fails:
        return "an error"


# ---------------------------------------------------------------- solutions

def document(required, optional, langs, name="lol_game_client_sln", version="0.0.1.68", magic="RADS Solution Manifest", fmt="1.0.0.0", first=()):
    ls = [magic, fmt, name, version, str(len(required) + len(optional))]
    ps = [(n, v, "0") for n, v in required] + [(n, v, "10") for n, v in optional]
    for k in first:
        ps.insert(0, ps.pop(k))
    for n, v, u in ps:
        ls += [n, v, u, "0"]
    ls.append(str(len(langs)))
    for lang, names in langs:
        ls += [lang, "0", str(len(names)), *names]
    return "\r\n".join(ls) + "\r\n"


REQ = [("lol_game_client", "0.0.1.7"), ("lol_common", "0.0.0.12")]
OPT = [("lol_game_client_en_us", "0.0.1.3"), ("lol_game_client_fr_fr", "0.0.2.4"), ("lol_audio_en_us", "0.0.0.9")]
LANGS = [("en_us", ["lol_game_client_en_us", "lol_audio_en_us"]), ("fr_fr", ["lol_game_client_fr_fr", "lol_common", "lol_game_client"])]
GOOD = [("a manifest", (REQ, OPT, LANGS), {}), ("projects in another order", (REQ, OPT, LANGS), {"first": (3, 1)}), ("no language", (REQ, [], []), {}), ("a language without projects", (REQ[:1], OPT, [("en_us", []), ("fr_fr", ["lol_audio_en_us"])]), {}),
        ("no project", ([], [], []), {})]
WRONG = [("another magic line", {"magic": "RADS Project Manifest"}), ("another format version", {"fmt": "1.0.0.1"}), ("another solution", {"name": "league_client_sln"}), ("another solution version", {"version": "0.0.1.69"})]


def solution(c):
    f = c.prog.func("rads.RadsSolutionVersion.dependencies")
    i = c.run(f, self_type=c.prog.cls("rads.RadsSolutionVersion"))
    me = mk("param", f.node.args.args[0].arg)
    w = f.loc

    def world(sim, x, nothing):
        if x.op == "attr" and x.args[0] is me:
            return {"version": "0.0.1.68", "path": "solutions/s/releases/0.0.1.68", "solution": Obj("solution", name="lol_game_client_sln", path="solutions/s/releases", storage=STORAGE)}.get(x.args[1], nothing)
        return nothing
    for what, m, o in GOOD:
        got = follow(i, document(*m, **o), world)
        where = f"{w} ({what})"
        if got is None:
            c.r.und(SOLUTION, where, "not understood")
            continue
        if isinstance(got, str):
            c.r.bad(SOLUTION, where, f"is refused: {got}")
            continue
        sim, _ = got
        try:
            v = sim.value(i.snap(i.result))
            v = {} if v == () else v
            if not isinstance(v, dict):
                raise Unknown
            out = {}
            for k, ps in v.items():
                out[k[1] if isinstance(k, tuple) else k] = [plain(p) for p in ps]
        except Unknown:
            c.r.und(SOLUTION, where, "not understood")
            continue
        except Fails:
            c.r.bad(SOLUTION, where, "an error")
            continue
        vs = dict(m[0] + m[1])
        want = {lang: [(n, vs[n]) for n in names] for lang, names in m[2]}
        want[None] = m[0]
        ok = set(out) == set(want) and all(sorted(out[k]) == sorted(want[k]) for k in want)
        c.r.ob(ok, SOLUTION, where, f"{len(want)} selection(s)" if ok else f"gives {str(out)[:150]}, not {str(want)[:150]}")
    for what, o in WRONG:
        got = follow(i, document(REQ, OPT, LANGS, **o), world)
        where = f"{w} ({what})"
        if got is None:
            c.r.und(REFUSED, where, "not understood")
        else:
            c.r.ob(isinstance(got, str), REFUSED, where, got if isinstance(got, str) else "is read as if nothing was wrong")


STORAGE = Obj("storage", path="st", url="http://x/")


def plain(p):
    """(project name, version) of a project version."""
    try:
        pr, v = p.attrs["project"], p.attrs["version"]
        return pr.attrs["name"], v[1] if isinstance(v, tuple) else v
    except (AttributeError, KeyError, TypeError, IndexError):
        raise Unknown


# ---------------------------------------------------------------- packages

FILES = [("projects/lol_game_client/releases/0.0.1.7/files/DATA/Menu.dds.compressed", "BIN_0x00000001", 0, 100), ("projects/lol_game_client/releases/0.0.1.7/files/DATA/a.compressed.txt", "BIN_0x00000002", 4294967296, 0),
         ("projects/p/releases/0.0.0.1/files/Lvl Ü.bin", "BIN_0x00000001", 100, 7), ("projects/p/releases/0.0.0.1/files/.compressed", "BIN_0x00000001", 107, 1), ("projects/p/releases/0.0.0.1/files/compressed", "BIN_0x00000001", 108, 5), ("projects/p/releases/0.0.0.1/files/x.compressed.Y.compressed", "BIN_0x00000003", 1, 2)]


def package(c):
    f = c.prog.func("rads.RadsProjectVersion._get_package_files")
    i = c.run(f, self_type=c.prog.cls("rads.RadsProjectVersion"))
    me = mk("param", f.node.args.args[0].arg)
    w = f.loc

    def world(sim, x, nothing):
        if x.op == "attr" and x.args[0] is me:
            return {"version": "0.0.1.7", "path": "projects/p/releases/0.0.1.7", "_package_files": None, "project": Obj("project", name="p", path="projects/p/releases", storage=STORAGE)}.get(x.args[1], nothing)
        return nothing
    for what, magic, files, end in (("a manifest", "PKG1", FILES, "\n"), ("no file", "PKG1", [], "\n"), ("one file", "PKG1", FILES[:1], "\n"), ("another magic line", "PKG2", FILES, "\n"), ("no magic line", None, FILES, "\n")):
        doc = end.join(([] if magic is None else [magic]) + [f"/{p},{b},{o},{z},{k}" for k, (p, b, o, z) in enumerate(files)]) + end
        got = follow(i, doc, world)
        where = f"{w} ({what})"
        if magic != "PKG1":
            if got is None:
                c.r.und(REFUSED, where, "not understood")
            else:
                c.r.ob(isinstance(got, str), REFUSED, where, got if isinstance(got, str) else "is read as if nothing was wrong")
            continue
        if got is None:
            c.r.und(PACKAGE, where, "not understood")
            continue
        if isinstance(got, str):
            c.r.bad(PACKAGE, where, f"is refused: {got}")
            continue
        try:
            v = got[0].value(i.snap(i.result))
            v = {} if v == () else v
            if not isinstance(v, dict):
                raise Unknown
            out = {k: tuple(o.attrs[n] for n in ("path", "package", "offset", "size", "compressed", "extract_path")) for k, o in v.items()}
        except (Unknown, AttributeError, KeyError):
            c.r.und(PACKAGE, where, "not understood")
            continue
        except Fails:
            c.r.bad(PACKAGE, where, "an error")
            continue
        want = {}
        for p, b, o, z in files:
            x = p[:-len(".compressed")] if p.endswith(".compressed") else p
            want[x] = (p, b, o, z, x != p, x)
        bad = next((k for k in {**want, **out} if out.get(k) != want.get(k)), None)
        c.r.ob(bad is None, PACKAGE, where, f"{len(want)} file(s)" if bad is None else f"{bad!r}: {out.get(bad)}, not {want.get(bad)}")


# ---------------------------------------------------------------- listings

def listing(c):
    want = ["0.0.1.10", "0.0.1.9", "0.0.0.200", "0.0.1.2"]
    for name, cls in (("rads.RadsSolution.versions", "rads.RadsSolution"), ("rads.RadsProject.versions", "rads.RadsProject")):
        f = c.prog.func(name)
        i = c.run(f, self_type=c.prog.cls(cls))
        me = mk("param", f.node.args.args[0].arg)
        for what, lines in (("a listing", want), ("nothing", [])):
            doc = "".join(x + "\r\n" for x in lines)

            def world(sim, x, nothing):
                op, a = x.op, x.args
                if op == "param" and a[0] == "stored":
                    return False
                if op == "attr" and a[0] is me:
                    return {"path": "projects/p/releases", "name": "p", "storage": STORAGE}.get(a[1], nothing)
                if op == "attr" and a[1] == "text":
                    return doc
                if op == "ok":
                    return True
                return nothing
            where = f"{f.loc} ({what})"
            try:
                sim = Play(i, world)
                es = sim.elements(listed(sim, i.snap(i.result)))
                out = []
                for o, k in es:
                    v = o.attrs["version"]
                    out.append(".".join(str(x) for x in v.attrs["args"]) if isinstance(v, Obj) else v[1] if isinstance(v, tuple) else v)
            except (Unknown, AttributeError, KeyError):
                c.r.und(LISTING, where, "not understood")
                continue
            except Fails:
                c.r.bad(LISTING, where, "an error")
                continue
            c.r.ob(sorted(out) == sorted(lines), LISTING, where, f"{len(lines)} version(s)" if sorted(out) == sorted(lines) else f"gives {out}, not {lines}")


def listed(sim, t):
    """What is given, before it is sorted."""
    while t.op in ("ite", "sorted"):
        t = t.args[0] if t.op == "sorted" else t.args[1] if sim.true(t.args[0]) else t.args[2]
    return t
