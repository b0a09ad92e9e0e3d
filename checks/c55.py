"""C55: converted tables hold everything the binary file holds."""
import struct
from base64 import b64encode
from vfa.q import *
from vfa import terms as tm
from vfa.tape import Play
from vfa.sim import Obj
from checks.c34 import fate

RULE = """Each converter of a binary table (string tables, texture atlases, champion skins) is interpreted from its convert() method down to the document it dumps, as one sequence of reads. These reads are
followed over sample files, built here from the layout of the format: string tables of versions 2 to 5 before and after game version 15.2, with and without a font configuration and encrypted strings, texts shared by
several keys and out of order, undecodable bytes, known and unknown keys; atlases by name and by hash, with one or several textures and images; skins of several champions, with every flag. The document must be
the one the sample stands for, entry for entry. Another magic code or version must be refused with the error conversions are reported by."""

DOC, REFUSED, LOOKUP = "the converted document holds what the file holds", "a file of another kind or version is refused", "a string table opened from a file holds its strings"


# ---------------------------------------------------------------- string tables

def rst(version, bits, strings, font=None, trenc=None, magic=b"RST", gap=b"", order=None):
    """strings: [(hash, bytes with its terminator)]; the same bytes are stored once."""
    data, at = bytearray(gap), {}
    for h, s in (strings if order is None else [strings[k] for k in order]):
        if s not in at:
            at[s] = len(data)
            data += s
    out = magic + bytes([version])
    if version == 2:
        out += b"\0" if font is None else b"\1" + struct.pack("<L", len(font)) + font
    out += struct.pack("<L", len(strings))
    for h, s in strings:
        out += struct.pack("<Q", at[s] << bits | h)
    if version < 5:
        out += bytes([trenc or 0])
    return out + bytes(data)


def enc(b):
    return b"\xff" + struct.pack("<H", len(b)) + b


def bits_of(version, game):
    return 40 if version < 4 else 39 if game < 1502 else 38


TOP = (1 << 40) - 1


def text(s, trenc):
    if trenc and s[:1] == b"\xff":
        n = struct.unpack("<H", s[1:3])[0]
        return b64encode(s[3:3 + n]).decode()
    return s[:s.index(b"\0")].decode("utf-8", "replace")


def tables():
    """(what, bytes, game version, hash bits, {hash: text})"""
    plain = [(0x1, b"one\0"), (0x123456789, "d\u00e9j\u00e0 \u4e2d\0".encode()), (0x2fffffffff, b"last\0"), (0x5, b"one\0"), (0x6, b"\0"), (0x7, b"it\x92s\0"), (0x8, b"  spaces \t\0"), (0x80000000, b"line\nline <b>&\0")]
    for version, game in ((2, 1414), (2, 1502), (3, 1415), (4, 1501), (4, 1502), (5, 1501), (5, 1502), (5, 1610)):
        bits = bits_of(version, game)
        full = plain + [((1 << bits) - 1, b"highest\0")]
        samples = [("strings", full, {}), ("strings in another order, after unused bytes", full, {"order": tuple(reversed(range(len(full)))), "gap": b"unused\0\xff"}), ("no string", [], {}), ("one string", full[1:2], {})]
        if version == 2:
            samples.append(("with a font configuration", full, {"font": "a = \"\u00e9\"\n".encode()}))
        if version < 5:
            samples.append(("with encrypted strings", full + [(0x9, enc(bytes(range(256)) + bytes(44))), (0xa, enc(b"\0\xff\0")), (0xb, enc(b""))], {"trenc": 1}))
        samples.append(("with strings starting with 0xFF", full + [(0x9, b"\xff\x01\x41\x42\0")], {}))
        for what, s, kw in samples:
            yield f"version {version}, game version {game}, {what}", rst(version, bits, s, **kw), game, bits, version, {h: text(x, kw.get("trenc")) for h, x in s}


def wrong_tables():
    s = [(1, b"a\0")]
    yield "another magic code", rst(5, 38, s, magic=b"RSU"), 1502
    yield "magic code in lower case", rst(5, 38, s, magic=b"rst"), 1502
    for v in (0, 1, 6, 255):
        yield f"version {v}", rst(v, 38, s), 1502


def rst_json(version, bits, entries, known):
    names = {h & ((1 << bits) - 1): k for h, k in known.items()}
    return {"entries": {names.get(h, f"{{{h:010x}}}"): s for h, s in entries.items()}, "version": version}


KNOWN = {0xabc0000000000001: "game_key_one", 0xffff_ffff_ffff_ffff: "generatedtip_highest", 0x1230000000000007 | 0x5a << 40: "seven", 0x4000000000: "elsewhere"}


# ---------------------------------------------------------------- atlases and skins

def string(s):
    b = s.encode("utf-8")
    return struct.pack("<L", len(b)) + b


def atlas(images, textures):
    out = struct.pack("<L", len(images)) + b"".join(string(x) for x in images) + struct.pack("<L", len(textures))
    return out + b"".join(string(n) + struct.pack("<ffffL", *r, k) for n, r, k in textures)


def hashed_atlas(images, textures, magic=b"IMAA"):
    out = magic + struct.pack("<L", len(images)) + b"".join(struct.pack("<Q", x) for x in images) + struct.pack("<L", len(textures))
    return out + b"".join(struct.pack("<Q", n) + struct.pack("<ffffL", *r, k) for n, r, k in textures)


def png(p):
    stem, dot, ext = p.lower().rpartition(".")
    return stem + ".png" if dot and ext in ("dds", "tex") else p.lower()


def atlas_doc(images, textures, names=None):
    name = (lambda h: h) if names is None else (lambda h: names.get(h, f"{{{h:016x}}}"))
    paths = [png(name(x)) if names is None or x in names else name(x) for x in images]
    return {name(n): {"atlasPath": paths[k], "startX": r[0], "startY": r[1], "endX": r[2], "endY": r[3]} for n, r, k in textures}


R1, R2, R3 = (0.0, 0.25, 0.5, 0.75), (0.125, 0.0, 1.0, 0.5), (-1.5, 2.0, 1024.0, 0.0625)
GAME = {0x1: "assets/UX/Atlas1.tex", 0xfedcba9876543210: "assets/ux/atlas2.dds", 0x3: "assets/ux/icon.png", 0x0000000100000000: "assets/ux/Caf\u00e9.tex"}


def atlases():
    """(what, bytes, document)"""
    a = (["ASSETS/UX/Atlas1.tex", "assets/ux/\u00e9t\u00e9.dds", "assets/ux/c.png"], [("Icon_A", R1, 0), ("Icon_B", R2, 1), ("\u4e2d", R3, 2), ("d", R1, 1)])
    one = (["a.tex"], [("x", R3, 0)])
    for what, (i, t) in (("by name", a), ("by name, one texture", one), ("by name, no texture", (["a.tex"], [])), ("by name, nothing", ([], []))):
        yield what, atlas(i, t), atlas_doc(i, t)
    h = ([0x1, 0xfedcba9876543210, 0x77], [(0x3, R1, 1), (0xffffffffffffffff, R2, 2), (0x0000000100000000, R3, 0), (0x5, R2, 1)])
    for what, (i, t) in (("by hash", h), ("by hash, one texture", ([0x5], [(0x1, R3, 0)])), ("by hash, no texture", ([0x1, 0x2], [])), ("by hash, nothing", ([], []))):
        yield what, hashed_atlas(i, t), atlas_doc(i, t, GAME)


def skins(champions, magic=b"mahC", version=2):
    out = magic + struct.pack("<LL", version, len(champions))
    for name, sk in champions:
        out += string(name) + struct.pack("<L", len(sk)) + b"".join(struct.pack("<LB", i, flag) + string(n) for i, flag, n in sk)
    return out


def skins_doc(champions):
    return {name: {i: {"name": n, "prestige": flag == 4} for i, flag, n in sk} for name, sk in champions}


CHAMPIONS = [[("Aatrox", [(0, 0, "base"), (1, 1, "skin01"), (0xfffffffe, 4, "prestige \u00e9")]), ("Kai'Sa", []), ("Zo\u00e9", [(14, 5, "a"), (15, 4, ""), (16, 255, "b"), (2, 2, "c"), (3, 3, "d"), (4, 12, "e")])], [], [("Ahri", [(1, 4, "x")])]]


# ---------------------------------------------------------------- checks

def check(c):
    strings(c)
    table(c, "AtlasInfoConverter", [(w, b, {}, d) for w, b, d in atlases()], [])
    good = [(f"{len(x)} champion(s)", skins(x), {}, skins_doc(x)) for x in CHAMPIONS]
    x = CHAMPIONS[2]
    wrong = [("another magic code", skins(x, b"CHAM"), {}), ("magic code in upper case", skins(x, b"MAHC"), {})] + [(f"version {v}", skins(x, version=v), {}) for v in (0, 1, 3, 0x10002, 0x2000000)]
    table(c, "ChampionSkinInfoConverter", good, wrong)
    table(c, "RstConverter", [(w, b, {"game_version": g, "hashes": KNOWN}, rst_json(v, bits, d, KNOWN)) for w, b, g, bits, v, d in tables()], [(w, b, {"game_version": g, "hashes": KNOWN}) for w, b, g in wrong_tables()])


def table(c, cls, good, wrong):
    k = c.prog.cls(f"export.{cls}")
    f = k.method("convert")
    names = [a.arg for a in f.node.args.args]
    w = f"{f.loc} {cls}"
    if len(names) < 4:
        c.r.und(DOC, w, "takes other parameters")
        return
    i = c.run(f, self_type=k, nesting=3, max_steps=400000)
    dumps = [e for e in i.events if e.kind == "call" and e.name in ("json.dump", "json.dumps", "ujson.dump", "ujson.dumps") or e.kind == "mcall" and e.name in ("encode", "iterencode") and e.args and "JSONEncoder" in str(i.typeof(e.recv))]
    for what, data, attrs, want in good:
        got = follow(i, names, data, attrs, dumps)
        where = f"{w} ({what})"
        if got is None:
            c.r.und(DOC, where, "not understood")
        elif isinstance(got, str):
            c.r.bad(DOC, where, f"fails: {got}")
        else:
            v, why = same_doc(got[0], want)
            c.r.ob(v, DOC, where, why)
    for what, data, attrs in wrong:
        zones_of = []
        got = follow(i, names, data, attrs, dumps, zones_of)
        where = f"{w} ({what})"
        if got is None or got == "an error":
            c.r.und(REFUSED, where, "not understood")
        elif not isinstance(got, str):
            c.r.bad(REFUSED, where, "is converted as if nothing was wrong")
        else:
            v, why = fate(c, i, got, zones_of[0])
            c.r.ob(v, REFUSED, where, why if not v else f"with {got}")


def same_doc(got, want):
    if got == ():
        got = {}
    if not isinstance(got, dict):
        return None, "not a document"
    if norm_doc(got) == want:
        return True, f"{len(want.get('entries', want))} entries"
    return False, difference(norm_doc(got), want)


def norm_doc(v):
    if isinstance(v, dict):
        return {k: norm_doc(x) for k, x in v.items()}
    return v


def difference(got, want, at=""):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in list(want) + list(got):
            if k not in got:
                return f"{at}[{k!r}] is missing"
            if k not in want:
                return f"{at}[{k!r}] is not expected"
            if got[k] != want[k] or type(got[k]) is not type(want[k]):
                return difference(got[k], want[k], f"{at}[{k!r}]")
    return f"{at} is {str(got)[:80]!r}, not {str(want)[:80]!r}"


def follow(i, names, data, attrs, dumps, zones=None):
    """[document] when it is dumped, the error that ends it, or None."""
    me, fin = mk("param", names[0]), mk("param", names[1])
    out, path = mk("param", names[2]), mk("param", names[3])
    target = mk("call", "os.path.join", out, path)

    def world(sim, x, nothing):
        op, a = x.op, x.args
        if op == "attr" and a[0] is me:
            return attrs.get(a[1], nothing)
        if x is out:
            return "OUT"
        if x is path:
            return "game/file.x"
        if op == "attr" and a[1] == "hashes" and a[0].op == "global":
            return GAME if str(a[0].args[1]) == "hashfile_game" else {}
        if op == "call" and str(a[0]) == "os.path.join":
            return "/".join(sim.value(y) for y in a[1:] if y.op not in ("uid", "kw"))
        return nothing

    def opens(sim, t):
        if t.op == "call" and t.args[0] in ("open", "io.open") and not is_write_open_term(t):
            if sim.value(t.args[1]) == "OUT/game/file.x":
                return data
        if t.op == "call" and t.args[0] == "io.BytesIO":
            v = sim.value(t.args[1])
            return v if isinstance(v, bytes) else None
        return None
    got = []

    def extra(sim, e):
        if e in dumps:
            got.append(sim.value(e.args[0]))
        return None
    sim = Play(i, world, {fin: data}, opens=opens, extra=extra)
    try:
        e = sim.play()
        if e is not None:
            if zones is not None:
                zones.append(e.zones)
            return str(e.name)
        return got if len(got) == 1 else None
    except Unknown:
        return None
    except Fails:
        return "an error"


def is_write_open_term(t):
    modes = [y.args[0] for y in t.args[2:] if y.op == "const"] + [y.args[1].args[0] for y in t.args[1:] if y.op == "kw" and y.args[0] == "mode" and y.args[1].op == "const"]
    return any(isinstance(m, str) and set(m) & set("wax+") for m in modes)


def strings(c):
    """RstFile(handle, game_version).entries"""
    k = c.prog.cls("rstfile.RstFile")
    f = k.method("__init__")
    names = [a.arg for a in f.node.args.args]
    if len(names) < 3:
        c.r.und(LOOKUP, f.loc, "takes other parameters")
        return
    me = mk("param", names[0])
    i = c.run(f, self_type=k, nesting=3, max_steps=400000)
    for what, data, game, bits, version, want in tables():
        for given in ("an open file", "a path"):
            where = f"{f.loc} ({given}, {what})"
            got = init(i, me, names, data, game, given == "a path")
            if got is None:
                c.r.und(LOOKUP, where, "not understood")
            elif isinstance(got, str):
                c.r.bad(LOOKUP, where, f"fails: {got}")
            else:
                want_ = {"entries": want, "hash_bits": bits, "version": version, "game_version": game}
                c.r.ob(got == want_, LOOKUP, where, f"{len(want)} strings" if got == want_ else difference(got, want_))
    for what, data, game in wrong_tables():
        got = init(i, me, names, data, game, False)
        where = f"{f.loc} ({what})"
        if got is None:
            c.r.und(REFUSED, where, "not understood")
        else:
            c.r.ob(isinstance(got, str), REFUSED, where, f"with {got}" if isinstance(got, str) else "is read as if nothing was wrong")


def init(i, me, names, data, game, by_path):
    h, g = mk("param", names[1]), mk("param", names[2])

    def world(sim, x, nothing):
        if x is g:
            return game
        if x is h:
            return "TABLE" if by_path else Obj("handle", {"BufferedReader"})
        return nothing

    def opens(sim, t):
        if t.op == "call" and t.args[0] in ("open", "io.open") and not is_write_open_term(t) and sim.value(t.args[1]) == "TABLE":
            return data
        return None
    sim = Play(i, world, {} if by_path else {h: data}, opens=opens)
    try:
        e = sim.play()
        if e is not None:
            return str(e.name)
        out = {}
        for n in ("entries", "hash_bits", "version", "game_version"):
            t = i.st.store.get(("f", me, n))
            if t is None:
                return None
            out[n] = sim.value(i.snap(t))
        if out["entries"] == ():
            out["entries"] = {}
        return out
    except Unknown:
        return None
    except Fails:
        return "an error"
