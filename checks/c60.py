"""C60: files without a name get the extension their content shows."""
from vfa.q import *
from vfa.interp import strip_epoch
from vfa import terms as tm
from vfa.terms import T, mk
from vfa.sim import Obj
from vfa.tape import Play

RULE = """guess_extension is evaluated, from its source, for sample data of every format the toolbox names (with the signatures the formats define, near misses, signatures at another place, contents whose signature starts like that of another
format) and for data that is JSON, is not, or is such that the JSON parser fails in one of the ways it can (invalid syntax, invalid encoding, oversized numbers, excessive nesting): the result must be the format's extension, 'json', or nothing,
and every failure of the parser must reach a handler that catches it. Wad.guess_extensions is followed over sample archives (entries whose extension is known, was guessed before for the same hash, must be guessed, cannot be read or are empty):
known extensions are left alone, those guessed before are taken without reading, the archive is not opened when there is nothing to guess, each guess is made from the entry's own data and kept under the entry's own hash."""

GUESS, JSONS, SURVIVES, EACH = "content with a signature has its format's extension", "what is JSON is recognised as JSON", "guessing never fails", "an entry without extension gets that of its content"

SAMPLES = [
    ("JPEG", b"\xff\xd8\xff\xdb\x00\x43\x00", "jpg"),
    ("JPEG with Exif", b"\xff\xd8\xff\xe1\x12\x34Exif\0\0", "jpg"),
    ("JPEG with other marker", b"\xff\xd8\xff\xe1\x12\x34http:", "jpg"),
    ("JFIF", b"\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01", "jpg"),
    ("Exif after another marker", b"\xff\xd8\xff\xe0\x00\x10Exif\x00\x01", "jpg"),
    ("PNG", b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR", "png"),
    ("GIF 87", b"GIF87a\x01\x00", "gif"),
    ("GIF 89", b"GIF89a\x01\x00", "gif"),
    ("Ogg", b"OggS\0\x02", "ogg"),
    ("TrueType", b"\0\x01\0\0\0\x0c", "ttf"),
    ("TrueType (Apple)", b"true\0\x0c", "ttf"),
    ("OpenType", b"OTTO\0\x0c", "otf"),
    ("WebM", b"\x1a\x45\xdf\xa3\x01", "webm"),
    ("script", b'"use strict";var a=1', "min.js"),
    ("template", b'<template id="a">', "template.html"),
    ("template with elements", b"<!-- Elements -->\n", "template.html"),
    ("HTML", b"<!DOCTYPE html>\n<html>", "html"),
    ("HTML without doctype", b"<html><head>", "html"),
    ("SVG", b"<svg xmlns=", "svg"),
    ("DDS", b"DDS |\0\0\0", "dds"),
    ("BIN", b"PROP\x03\0\0\0", "bin"),
    ("BIN patch", b"PTCH\x01\0\0\0", "bin"),
    ("sound bank", b"BKHD\x18\0", "bnk"),
    ("static mesh", b"r3d2Mesh\x02\0", "scb"),
    ("animation", b"r3d2anmd\x05\0", "anm"),
    ("compressed animation", b"r3d2canm\x03\0", "anm"),
    ("skeleton", b"r3d2sklt\x01\0", "skl"),
    ("sound package", b"r3d2\x01\0\0\0\x05", "wpk"),
    ("skinned mesh", b"\x33\x22\x11\x00\x04\0", "skn"),
    ("preload", b"PreLoadBuildingBlocks = {\n", "preload"),
    ("Lua (32 bits)", b"\x1bLuaQ\0\x01\x04\x04\x04", "luabin"),
    ("Lua (64 bits)", b"\x1bLuaQ\0\x01\x04\x08\x04", "luabin64"),
    ("Troy", b"\x02\x3d\x00\x28\x01", "troybin"),
    ("text mesh", b"[ObjectBegin]\r\nName= a", "sco"),
    ("map geometry", b"OEGM\x0d\0", "mapgeo"),
    ("texture", b"TEX\0\x04\0", "tex"),
    ("WebAssembly", b"\0asm\x01\0\0\0", "wasm"),
    ("Unity bundle", b"UnityFS\0\0", "bundle"),
    ("Unity data", b"UnityWebData1.0\0", "data"),
    ("signature alone", b"OEGM", "mapgeo"),
]
TEXTS = [
    ("object", b'{"a": [1, 2]}', None, "json"),
    ("array", b"[]", None, "json"),
    ("object after white space", b' \n{"GIF89a": 1}', None, "json"),
    ("text", b"GIF is short", "JSONDecodeError", None),
    ("cut signature", b"\x89PN", "UnicodeDecodeError", None),
    ("signature at another place", b" DDS |", "JSONDecodeError", None),
    ("signature in lower case", b"oegm\x0d", "JSONDecodeError", None),
    ("JFIF at another place", b"aaaaaJFIFJFIF", "JSONDecodeError", None),
    ("cut object", b'{"a": [1,', "JSONDecodeError", None),
    ("one byte", b"\0", "JSONDecodeError", None),
    ("invalid encoding", b'{"a": "\xff"}', "UnicodeDecodeError", None),
    ("oversized number", b"1" * 5000, "ValueError", None),
    ("excessive nesting", b"[" * 300, "RecursionError", None),
]


def recognised(c):
    f = c.prog.func("wad.WadFileHeader.guess_extension")
    i = c.run(f)
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    data = mk("param", ps[0 if f.is_static else 1])
    loads = [e for e in i.events if e.kind == "call" and e.name in ("json.loads", "json.load", "ujson.loads")]

    def follow(blob, failing):
        def world(sim, x, nothing):
            if x is data:
                return blob
            if x.op == "exc":
                return failing is not None and bool(catches(c.prog, x.args[0].split("|"), failing))
            if x.op == "ok":
                return failing is None
            return nothing
        return Play(i, world)
    for name, blob, failing, want in [(n, b, "JSONDecodeError", w) for n, b, w in SAMPLES] + TEXTS:
        where = f"{f.loc} ({name})"
        what = GUESS if name in {n for n, *_ in SAMPLES} else JSONS
        try:
            sim = follow(blob, failing)
            e = sim.play()
            if e is not None:
                c.r.bad(SURVIVES, where, e.name)
                continue
            tried = [x for x in loads if sim.true(x.guard)]
            if failing and what is JSONS and tried:
                safe = [any(names is None or catches(c.prog, names, failing) for t in handlers_of(i, x) for names in t.handlers) for x in tried]
                c.r.ob(all(safe), SURVIVES, where, f"{failing} of the JSON parser")
                if not all(safe):
                    continue
            got = sim.value(i.snap(i.result))
            c.r.ob(got == want, what, where, f"{got!r} instead of {want!r}" if got != want else str(got))
        except Unknown:
            c.r.und(what, where, "not understood")
        except Fails:
            c.r.bad(SURVIVES, where, "raises an error")


READ, GUESSER = "wad.Wad.read_file_data", "wad.WadFileHeader.guess_extension"


def entries(c):
    cls = c.prog.cls("wad.Wad")
    f = cls.method("guess_extensions")
    i = c.run(f, self_type=cls, opaque={READ, GUESSER})
    me = mk("param", f.node.args.args[0].arg)

    def ent(name, ext, h, data=b"d"):
        return Obj(name, {"WadFileHeader"}, ext=ext, path_hash=h, path=None, data=data, offset=h + 50, compressed_size=h + 70, size=h + 90, type=0, subchunk_count=0)
    a, b = ent("named", "txt", 1), ent("guessed before", None, 2)
    x, y, z = ent("png", None, 3, b"P"), ent("unreadable", None, 4, None), ent("empty", None, 5, b"")
    u, v, w = ent("unrecognised", None, 6, b"?"), ent("without", "", 7, b"J"), ent("zero", None, 0, b"Z")
    known, guess = {2: "skn", 1: "bin", 99: "tex"}, {b"P": "png", b"J": "jpg", b"Z": "zip", b"?": None}
    for name, files in (("nothing to guess", (a,)), ("no entry", ()), ("all guessed before", (a, b)), ("one to guess", (x,)), ("one of several", (a, b, x, a)), ("unreadable first", (y, x, v)), ("empty first", (z, x, b)),
                        ("unrecognised", (u, x)), ("all", (z, v, a, w, u, b, y, x))):
        where = f"{f.loc} ({name})"
        now, kept, read, opened = {}, {}, [], []

        def world(sim, t, nothing):
            if t.op == "attr" and t.args[0] is me:
                if t.args[1] in ("files", "path"):
                    return files if t.args[1] == "files" else "q.wad"
            if t.op == "global" and t.args[1] == "_hash_to_guessed_extensions":
                return known
            if t.op == "mu" and str(t.args[1]).endswith(".ext") and t in i.mus:
                o = next((fr[2] for fr in reversed(sim.env) if isinstance(fr[2], Obj)), None)
                if o is not None:
                    return now.get(o, o.attrs["ext"])
            if t.op == "exc":
                return False
            if t.op == "call" and str(t.args[0]).startswith("repo:cdtb."):
                ys = [sim.value(q.args[1] if q.op == "kw" else q) for q in t.args[1:] if not isinstance(q, T) or q.op not in ("uid", "epoch")]
                if str(t.args[0]).endswith(READ):
                    if ys[:2] not in (["handle"], [None]) and ys[0] != "wad" and ys[1] != "handle":
                        raise Unknown
                    return next(q for q in ys if isinstance(q, Obj)).attrs["data"]
                return guess.get(ys[-1], ("guess of", ys[-1]))
            if t is me:
                return "wad"
            if t.op == "call" and t.args[0] in ("open", "io.open"):
                return "handle" if sim.value(t.args[1]) == "q.wad" and (len(t.args) > 2 and sim.value(t.args[2].args[1] if t.args[2].op == "kw" else t.args[2]) == "rb") else ("other file",)
            return nothing

        def extra(sim, e):
            if e.kind == "setattr" and e.name == "ext":
                now[sim.value(e.recv)] = sim.value(e.args[0])
            elif e.kind == "setitem" and e.recv is not None and strip_epoch(e.recv).op == "global" and strip_epoch(e.recv).args[1] == "_hash_to_guessed_extensions":
                kept[sim.value(e.args[0])] = sim.value(e.args[1])
            elif e.kind == "mcall" and e.name == "setdefault" and e.recv is not None and strip_epoch(e.recv).op == "global":
                kept.setdefault(sim.value(e.args[0]), sim.value(e.args[1]))
            elif e.kind == "call" and e.name == "repo:" + READ:
                read.append(next(q for q in (sim.value(q) for q in e.args) if isinstance(q, Obj)))
            elif e.kind == "call" and e.name in ("open", "io.open"):
                opened.append(1)
        try:
            sim = Play(i, world, extra=extra)
            e = sim.play()
            if e is not None:
                c.r.bad(EACH, where, e.name)
                continue
            todo = [o for o in files if not o.attrs["ext"] and o.attrs["path_hash"] not in known]
            wants = {o: o.attrs["ext"] or known.get(o.attrs["path_hash"]) or (guess[o.attrs["data"]] if o.attrs["data"] else None) for o in files}
            bad = next((f"{o} gets {now.get(o, o.attrs['ext'])!r}" for o, want in wants.items() if (now.get(o, o.attrs["ext"]) or None) != want), None)
            if bad is None and set(read) - set(todo):
                bad = f"{next(o for o in read if o not in todo)} is read"
            if bad is None and opened and not todo:
                bad = "the archive is opened for nothing"
            must = {o.attrs["path_hash"]: wants[o] for o in todo if wants[o]}
            if bad is None and {k: q for k, q in kept.items() if q and known.get(k) != q} != must:
                bad = f"keeps {kept}"
            c.r.ob(bad is None, EACH, where, bad or f"{len(todo)} guessed")
        except Unknown:
            c.r.und(EACH, where, "not understood")
        except Fails:
            c.r.bad(EACH, where, "raises an error")


def check(c):
    c.part(recognised)
    c.part(entries)
