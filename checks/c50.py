"""C50: a release manifest is decoded in full."""
import struct
from vfa.q import *
from vfa import terms as tm
from vfa.tape import Play, Raised

RULE = """Reading a manifest is interpreted as one sequence of reads and seeks, which is then followed over sample manifests: tables in any order, offset tables before or after
their entries, missing columns, nested directories, names with non-ASCII characters, language masks up to bit 63, several bundles, shared chunks, files without chunks, empty tables, a header
with unknown values. For each, the files the manifest then has must be exactly those of the sample: their full path (directories joined by '/'), size, link, flag names and chunks in order.
Manifests with another magic code, an unsupported version, another kind of body, or a chunk, flag or directory that is not there must be refused with an error."""

FILES, BUNDLES, REFUSED = "files are those of the manifest", "bundles are those of the manifest", "a manifest that cannot be read is refused"
ROOT = "patcher.PatcherManifest.parse_rman"


# ---------------------------------------------------------------- sample manifests

class Body:
    def __init__(self, lead=4):
        self.lead = lead
        self.b = bytearray()

    def pad(self, n, x=0xee):
        self.b += bytes([x]) * n

    def put(self, x):
        at = len(self.b)
        self.b += x
        return at

    def string(self, s):
        s = s.encode("utf-8")
        return self.put(struct.pack("<L", len(s)) + s)

    def entry(self, columns, after=False, size=None):
        """An entry with the given columns: None (absent), (format, value), or ("rel", position)."""
        size = len(columns) if size is None else size
        width = {None: 0}
        body = bytearray(4)
        offs = []
        rel = []
        for col in columns:
            if col is None:
                offs.append(0)
                continue
            kind, v = col
            offs.append(len(body))
            if kind == "rel":
                rel.append((len(body), v))
                body += bytes(4)
            else:
                body += struct.pack(kind, v)
        offs = offs[:size]
        table = struct.pack("<HH", 4 + 2 * size, len(body)) + b"".join(struct.pack("<H", x) for x in offs)
        if after:
            at = self.put(bytes(body))
            self.pad(3)
            vt = self.put(table)
        else:
            vt = self.put(table)
            self.pad(2)
            at = self.put(bytes(body))
        self.b[at:at + 4] = struct.pack("<l", at - vt)
        for k, v in rel:
            self.b[at + k:at + k + 4] = struct.pack("<l", v - (at + k))
        return at

    def table(self, entries):
        at = self.put(struct.pack("<l", len(entries)))
        for e in entries:
            p = len(self.b)
            self.put(struct.pack("<l", e - p))
        return at


def manifest(m, magic=b"RMAN", version=(2, 0), flags=1 << 9, lead=0, order=(0, 1, 2, 3), after=False, offset=28):
    """Bytes of a manifest; the body comes after the marker that the decompression takes off."""
    head = 4 + lead + 24
    b = Body()
    b.put(struct.pack("<l", lead))
    b.pad(lead)
    b.pad(24)

    def bundles():
        es = []
        for bid, chunks in m["bundles"]:
            cs = [b.entry([("<Q", c), ("<L", z), ("<L", u)], after) for c, z, u in chunks]
            b.pad(1)
            t = b.table(cs)
            es.append(b.entry([("<Q", bid), ("rel", t)], after))
        return b.table(es)

    def flags_():
        es = []
        for n, name in m["flags"]:
            b.pad(5)
            s = b.string(name)
            at = b.put(struct.pack("<l", 0x01010101) + bytes([9, 9, 9, n]) + bytes(4))
            b.b[at + 8:at + 12] = struct.pack("<l", s - (at + 8))
            es.append(at)
        return b.table(es)

    def files():
        es = []
        for k, f in enumerate(m["files"]):
            name = b.string(f["name"])
            link = b.string(f["link"]) if f.get("link") is not None else None
            ch = b.put(struct.pack("<L", len(f["chunks"])) + b"".join(struct.pack("<Q", x) for x in f["chunks"]))
            cols = [("<Q", 0x1000 + k), None if f.get("dir") is None else ("<Q", f["dir"]), ("<L", f["size"]), ("rel", name), None if f.get("mask") is None else ("<Q", f["mask"]), ("<B", 7), ("<B", 8),
                    ("rel", ch), None, None if link is None else ("rel", link), None, ("<L", 5), ("<B", 1)]
            es.append(b.entry(cols, after, f.get("columns")))
        return b.table(es)

    def dirs():
        es = []
        for did, parent, name in m["dirs"]:
            n = b.string(name)
            es.append(b.entry([None if did is None else ("<Q", did), None if parent is None else ("<Q", parent), ("rel", n)], after))
        return b.table(es)
    made = (bundles, flags_, files, dirs)
    at = {}
    for k in order:
        b.pad(3)
        at[k] = made[k]()
    at[4] = at[5] = b.table([])
    for k in range(6):
        p = 4 + lead + 4 * k
        b.b[p:p + 4] = struct.pack("<l", at[k] - p)
    body = b"ZSTD" + bytes(b.b)
    return magic + bytes(version) + struct.pack("<HLLQL", flags, offset, len(body), 0xab, len(b.b)) + bytes(offset - 28) + body + b"\x55" * 16


BIG = 0xfedcba9876543210
M1 = {"bundles": [(BIG, [(0x11, 100, 200), (BIG + 1, 50, 0xfffffff0)]), (2, [(0x12, 7, 8)])],
      "flags": [(1, "windows"), (2, "en_US"), (64, "fr_FR"), (3, "macos")],
      "dirs": [(0xd1, None, "DATA"), (BIG, 0xd1, "Fïnal"), (0xd3, BIG, "Champions"), (0xd4, None, "Plugins")],
      "files": [{"name": "root.txt", "size": 200, "chunks": [0x11]},
                {"name": "Ahri.wad.client", "dir": 0xd3, "size": 0xfffffff0, "mask": (1 << 1) | (1 << 63), "chunks": [BIG + 1, 0x11, 0x12, 0x11]},
                {"name": "a.dll", "dir": 0xd1, "size": 8, "mask": 1, "chunks": [0x12]},
                {"name": "link", "dir": 0xd4, "size": 1, "link": "a/böb", "chunks": [0x12], "mask": 4 | 1},
                {"name": "empty", "dir": BIG, "size": 0, "chunks": []},
                {"name": "short", "dir": 0xd4, "size": 9, "chunks": [0x12], "columns": 8},
                {"name": "root.txt", "dir": 0xd1, "size": 1, "mask": 0, "chunks": [0x11]}]}
M2 = {"bundles": [], "flags": [], "dirs": [], "files": []}
M3 = {"bundles": [(9, [(1, 2, 3)])], "flags": [(5, "x")], "dirs": [(7, None, "a"), (8, 7, "b")], "files": [{"name": "f", "dir": 8, "size": 3, "mask": 16, "chunks": [1]}]}
GOOD = [("a manifest", M1, {}), ("version 2.1", M1, {"version": (2, 1)}), ("tables in another order", M1, {"order": (3, 2, 0, 1)}), ("offset tables after their entries", M1, {"after": True}),
        ("other header values", M1, {"lead": 12}), ("empty tables", M2, {}), ("one file", M3, {"lead": 4, "after": True, "order": (2, 3, 1, 0)}), ("other flags", M3, {"flags": (1 << 9) | 1})]
NODIR = {**M3, "dirs": [(7, None, "a")]}
NOPARENT = {**M3, "dirs": [(8, 7, "b")]}
NOCHUNK = {**M3, "bundles": [(9, [(2, 2, 3)])]}
NOFLAG = {**M3, "flags": [(4, "x")]}
WRONG = [("another magic code", M3, {"magic": b"RLSM"}), ("another magic code, lowercased", M3, {"magic": b"rman"}), ("version 1.0", M3, {"version": (1, 0)}), ("version 2.2", M3, {"version": (2, 2)}),
         ("version 3.0", M3, {"version": (3, 0)}), ("version 0.2", M3, {"version": (0, 2)}), ("another kind of body", M3, {"flags": 1 << 8}), ("an unknown directory", NODIR, {}), ("an unknown parent directory", NOPARENT, {}),
         ("an unknown chunk", NOCHUNK, {}), ("an unknown flag", NOFLAG, {})]


def expected(m):
    dirs = {d: (p, n) for d, p, n in m["dirs"]}
    flags = dict(m["flags"])
    out = {}
    for f in m["files"]:
        name, d = f["name"], f.get("dir")
        while d is not None:
            d, n = dirs[d]
            name = f"{n}/{name}"
        out[name] = (f["size"], f.get("link"), tuple(flags[k + 1] for k in range(64) if f["mask"] >> k & 1) if f.get("mask") else None, tuple(f["chunks"]))
    return out


# ---------------------------------------------------------------- reading

def check(c):
    f = c.prog.func(ROOT)
    i = c.run(f, nesting=2, max_steps=400000)
    names = [a.arg for a in f.node.args.args]
    w = f.loc
    if len(names) < 2:
        c.r.und(FILES, w, "takes other parameters")
        return
    for what, m, o in GOOD:
        got = follow(i, names, manifest(m, **o))
        where = f"{w} ({what})"
        if got is None:
            c.r.und(FILES, where, "not understood")
            continue
        if isinstance(got, str):
            c.r.bad(FILES, where, f"is refused: {got}")
            continue
        sim, files, bundles = got
        want = expected(m)
        v, why = compare(sim, files, want)
        c.r.ob(v, FILES, where, why)
        v, why = compare_bundles(sim, bundles, m)
        c.r.ob(v, BUNDLES, where, why)
    for what, m, o in WRONG:
        got = follow(i, names, manifest(m, **o))
        where = f"{w} ({what})"
        if got is None:
            c.r.und(REFUSED, where, "not understood")
        else:
            c.r.ob(isinstance(got, str), REFUSED, where, got if isinstance(got, str) else "is read as if nothing was wrong")


def follow(i, names, data):
    """(sim, files, bundles) after reading, the error that ends it, or None."""
    me = mk("param", names[0])

    def world(sim, x, nothing):
        op, a = x.op, x.args
        if op == "call" and str(a[0]).endswith("decompress"):
            d = sim.value(a[1])
            k = data.find(b"ZSTD")
            if d != data[k:-16]:
                raise Fails     # something else than the compressed body
            return d[4:]
        if op == "ok":
            return True
        return nothing
    sim = Play(i, world, {mk("param", names[1]): data})
    try:
        e = sim.play()
        if e is not None:
            return f"{e.name}"
        out = []
        for n in ("files", "bundles"):
            t = i.st.store.get(("f", me, n))
            out.append(None if t is None else sim.value(i.snap(t)))
        return (sim, *out)
    except Unknown:
        return None
    except Fails:
        return "an error"


def compare(sim, files, want):
    if files is None:
        return False, "no files"
    if files == ():
        files = {}
    if not isinstance(files, dict):
        return None, "not a mapping of files"
    if set(files) != set(want):
        return False, f"files {str(sorted(map(str, set(files) ^ set(want))))[:150]} are missing or not expected"
    for k, o in files.items():
        at = getattr(o, "attrs", None)
        if at is None or any(n not in at for n in ("name", "size", "link", "flags", "chunks")):
            return None, f"attributes of {k!r}"
        size, link, flags, chunks = want[k]
        if at["name"] != k:
            return False, f"{k!r} is named {at['name']!r}"
        if at["size"] != size:
            return False, f"{k!r} has size {at['size']!r}, not {size}"
        if (at["link"] or None) != link:
            return False, f"{k!r} links to {at['link']!r}, not {link!r}"
        got = at["flags"]
        if (None if got is None else tuple(got)) != flags:
            return False, f"{k!r} has flags {got!r}, not {flags!r}"
        ids = []
        for x in at["chunks"]:
            n = getattr(x, "attrs", {}).get("chunk_id")
            if n is None:
                return None, f"chunks of {k!r}"
            ids.append(n)
        if tuple(ids) != chunks:
            return False, f"{k!r} has chunks {[hex(x) for x in ids]}, not {[hex(x) for x in chunks]}"
    return True, f"{len(want)} file(s)"


def compare_bundles(sim, bundles, m):
    if bundles is None:
        return False, "no bundles"
    ids = []
    for x in bundles:
        n = getattr(x, "attrs", {}).get("bundle_id")
        if n is None:
            return None, "identifier of a bundle"
        ids.append(n)
    want = [b for b, _ in m["bundles"]]
    return ids == want, f"{len(want)} bundle(s)" if ids == want else f"bundles {ids}, not {want}"
