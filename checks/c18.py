"""C18: WAD entry data is what the archive stores, or an error."""
import struct
import zlib
from vfa.q import *
from vfa.sim import Obj
from vfa.tape import Play
from vfa.terms import entry

RULE = """The reading of an entry's data is analysed for each type value 0..15, with and without a sub-chunk table, by evaluating its path conditions for that type. Obligations: the only bytes used are one read of the entry's
compressed size made just after seeking to the entry's offset; the value returned for types 0, 1, 2 and 3 is these bytes, their gzip decompression, None and their zstd decompression; every other type value raises. For
sub-chunked entries with a table: the value is the in-order concatenation of one piece per index of exactly [first index, first index + count); sizes and checksum are the little-endian fields at 16 * index of the table; piece
number n is the slice that starts where piece n-1 ended (an inductive offset: 0, then plus each recorded compressed size) of the recorded compressed size; a piece that is incomplete or whose xxh3 differs from the recorded
checksum always raises, and nothing else does but an unreadable table or piece; the piece is used as is exactly when its two sizes are equal, and decompressed with zstd otherwise. The sub-chunk table is the data of an entry whose
path ends with '.subchunktoc', and every read of an archive's entry is given the archive's table.
The reading is also followed over the bytes of sample entries of every type and of sub-chunked entries with one, several and no sub-chunks, stored as they are or compressed, good and damaged (decompression and digests are stand-ins that keep their input recognisable)."""

Q = "wad.WadFileHeader.read_data"
SELF, TOC = mk("param", "self"), None
TABLE = "a sub-chunk's sizes and checksum come from its own table row"
OFF = "sub-chunks are contiguous"


def is_zstd(t):
    return t.op == "call" and isinstance(t.args[0], str) and ("zstd" in t.args[0]) and t.args[0].endswith("decompress") and len(t.args) >= 2


def live(g, m):
    x = tm.subst(g, m)
    return x is not FALSE and tm.satisfiable(x)


DATA, DAMAGED, OF = "the data of a sample entry is what is stored", "a damaged sub-chunk is an error", "the sample archive's table is used"
DIGEST = lambda b: zlib.crc32(b) * 0x100000001 ^ 0x5555


class Reading(Play):
    cells = True

    def __init__(self, i, me, f, attrs, data, toc, broken=False):
        self.me, self.given, self.toc, self.broken = me, attrs, toc, broken
        super().__init__(i, self.look, files={f: data})

    def look(self, sim, x, nothing):
        op, a = x.op, x.args
        if op == "attr" and a[0] is self.me and a[1] in self.given:
            return self.given[a[1]]
        if op == "param" and a[0] == "subchunk_toc":
            return self.toc
        if op == "exc":
            return self.broken
        if op == "call" and isinstance(a[0], str):
            n = a[0].rsplit(".", 1)[-1]
            ys = [y for y in a[1:] if not isinstance(y, T) or y.op not in ("uid", "epoch", "kw")]
            if n == "decompress" or n == "zstd_decompress":
                b = sim.value(ys[0])
                if not isinstance(b, bytes) or self.broken:
                    raise Fails
                return (b"gz(" if "gzip" in a[0] else b"zstd(" if "zstd" in a[0] else b"other(") + b + b")"
            if n == "xxh3_64_intdigest":
                b = sim.value(ys[0])
                if not isinstance(b, bytes):
                    raise Fails
                return DIGEST(b)
            if n == "xxh3_64_hexdigest":
                return f"{DIGEST(sim.value(ys[0])):016x}"
        return nothing


def table(*rows):
    return b"".join(struct.pack("<IIQ", *x) for x in rows)


def samples(c):
    cls = c.prog.cls("wad.WadFileHeader")
    f = cls.method("read_data")
    i = c.run(f, self_type=cls, nesting=3)
    me, src = (mk("param", x.arg) for x in f.node.args.args[:2])
    tape = b"header--" + bytes(range(100, 200)) + b"trailer."
    at = lambda off, n: tape[off:off + n]
    pieces = [(at(20, 8), True), (at(28, 5), False), (at(33, 12), True), (at(45, 1), False), (at(46, 7), True)]
    rows = [(len(b), len(b) * 3 if z else len(b), DIGEST(b)) for b, z in pieces]
    pre, post = [(3, 9, 1), (4, 4, 2)], [(1, 2, 3)]
    toc = table(*pre, *rows, *post)
    join = lambda ps: b"".join(b"zstd(" + b + b")" if z else b for b, z in ps)

    def entry_of(type_, off, n, first=0, count=0):
        return dict(type=type_, offset=off, compressed_size=n, size=999, first_subchunk_index=first, subchunk_count=count, path="p", path_hash=5, sha256=1, duplicate=False, ext=None)
    link = b"header--" + struct.pack("<L", 5) + b"a/b.c" + b"\0" * 9
    good = [("stored as it is", entry_of(0, 8, 30), tape, None, at(8, 30)), ("stored as it is, nothing in it", entry_of(0, 12, 0), tape, toc, b""), ("compressed with gzip", entry_of(1, 9, 31), tape, None, b"gz(" + at(9, 31) + b")"),
            ("redirection", entry_of(2, 8, 9), link, None, None), ("compressed with zstd", entry_of(3, 70, 20), tape, toc, b"zstd(" + at(70, 20) + b")"),
            ("five sub-chunks", entry_of(4, 20, 33, 2, 5), tape, toc, join(pieces)), ("one sub-chunk", entry_of(4, 45, 1, 5, 1), tape, toc, join(pieces[3:4])), ("last three sub-chunks", entry_of(4, 33, 20, 4, 3), tape, toc, join(pieces[2:])),
            ("first sub-chunks of the table", entry_of(4, 20, 13, 0, 2), tape, table(*rows), join(pieces[:2])), ("no sub-chunk", entry_of(4, 45, 0, 5, 0), tape, toc, b""), ("sub-chunked without a table", entry_of(4, 60, 11), tape, None, b"zstd(" + at(60, 11) + b")")]
    bad = [("a sub-chunk with another checksum", entry_of(4, 20, 33, 2, 5), tape[:30] + b"!" + tape[31:], toc, False), ("the last sub-chunk with another checksum", entry_of(4, 20, 33, 2, 5), tape[:50] + b"!" + tape[51:], toc, False),
           ("a sub-chunk that is stored as it is with another checksum", entry_of(4, 45, 1, 5, 1), tape[:45] + b"!" + tape[46:], toc, False),
           ("data that ends within a sub-chunk", entry_of(4, 20, 30, 2, 5), tape, toc, False), ("data that ends before a sub-chunk", entry_of(4, 20, 26, 2, 5), tape, toc, False), ("a table that ends before the sub-chunks", entry_of(4, 20, 33, 2, 5), tape, toc[:16 * 6], False),
           ("a table that ends within a row", entry_of(4, 46, 7, 6, 1), tape, toc[:16 * 7 - 1], False), ("an empty table", entry_of(4, 46, 7, 0, 1), tape, b"", False),
           ("a sub-chunk that cannot be decompressed", entry_of(4, 46, 7, 6, 1), tape, toc, True), ("an entry without a table that cannot be decompressed", entry_of(4, 46, 7, 6, 1), tape, None, True)]
    for name, attrs, data, tc, want in good:
        where = f"{f.loc} ({name})"
        try:
            sim = Reading(i, me, src, attrs, data, tc)
            e = sim.play()
            if e is not None:
                c.r.bad(DATA, where, f"is refused: {e.name}")
                continue
            got = sim.value(i.snap(i.result))
            if got is not None and not isinstance(got, (bytes, bytearray)):
                raise Unknown
            c.r.ob(got == want and type(got) is type(want), DATA, where, f"{len(want) if want is not None else 0} bytes" if got == want else f"{got!r} instead of {want!r}"[:250])
        except Unknown:
            c.r.und(DATA, where, "not understood")
        except Fails:
            c.r.bad(DATA, where, "raises an error")
    for name, attrs, data, tc, broken in bad:
        where = f"{f.loc} ({name})"
        try:
            e = Reading(i, me, src, attrs, data, tc, broken).play()
            ok = e is not None and str(e.name).rsplit(".", 1)[-1] == "MalformedSubchunkError"
            c.r.ob(ok, DAMAGED, where, e.name if ok else "raises " + e.name if e is not None else "gives data")
        except Unknown:
            c.r.und(DAMAGED, where, "not understood")
        except Fails:
            c.r.bad(DAMAGED, where, "raises another error")
    for type_ in range(5, 16):
        where = f"{f.loc} (type {type_})"
        try:
            e = Reading(i, me, src, entry_of(type_, 8, 30, 0, 1), tape, toc).play()
            c.r.ob(e is not None, DATA, where, e.name if e is not None else "gives data")
        except Unknown:
            c.r.und(DATA, where, "not understood")
        except Fails:
            c.r.ok(DATA, where, "an error is raised")


def archive_table(c):
    """The table of an archive is read and handed on."""
    cls = c.prog.cls("wad.Wad")
    f = cls.method("load_subchunk_toc")
    g = cls.method("read_file_data")
    if f is None or g is None:
        return
    i = c.run(f, self_type=cls, opaque={Q})
    me = mk("param", f.node.args.args[0].arg)
    ent = lambda p: Obj(str(p), {"WadFileHeader"}, path=p, path_hash=len(str(p)))
    a, b, t, t2 = ent("a.bin"), ent(None), ent("x/y.subchunktoc"), ent("z.subchunktoc")
    d, e_ = ent("x.subchunktoc/a.txt"), ent("subchunktoc")

    def world_for(files, failing=False):
        def world(sim, x, nothing):
            if x.op == "attr" and x.args[0] is me:
                if x.args[1] in ("files", "path"):
                    return files if x.args[1] == "files" else "q.wad"
            if x.op == "exc":
                return failing
            if x.op == "call" and str(x.args[0]) == "repo:cdtb." + Q:
                ys = [y for y in x.args[1:] if not isinstance(y, T) or y.op not in ("uid", "epoch")]
                return ("data of", sim.value(ys[0]))
            if x.op == "call" and x.args[0] in ("open", "io.open"):
                return ("handle", sim.value(x.args[1]))
            return nothing
        return world
    for name, files, failing, want in (("no table", (a, b, d, e_), False, None), ("one table", (a, b, t, d), False, t), ("first entry", (t, a), False, t), ("only a table", (t,), False, t), ("no entry", (), False, None), ("entries without path", (b, b, e_, t), False, t)):
        where = f"{f.loc} ({name})"
        try:
            sim = Play(i, world_for(files, failing))
            e = sim.play()
            v = i.st.store.get(("f", me, "subchunk_toc"))
            if v is None:
                raise Unknown
            got = sim.value(i.snap(v)) if e is None else e.name
            c.r.ob(got == (("data of", want) if want is not None else None), OF, where, str(got))
        except Unknown:
            c.r.und(OF, where, "not understood")
        except Fails:
            c.r.bad(OF, where, "raises an error")
    i = c.run(g, self_type=cls, opaque={Q})
    me2, h, wf = (mk("param", x.arg) for x in g.node.args.args[:3])
    for name, failing in (("readable", False), ("with a damaged sub-chunk", True)):
        where = f"{g.loc} ({name} entry)"
        asked = []

        def world(sim, x, nothing):
            if x is h:
                return "handle"
            if x is wf:
                return a
            if x.op == "attr" and x.args[0] is me2 and x.args[1] == "subchunk_toc":
                return "table"
            if x.op == "exc":
                return failing
            if x.op == "call" and str(x.args[0]) == "repo:cdtb." + Q:
                ys = [sim.value(y.args[1] if y.op == "kw" else y) for y in x.args[1:] if not isinstance(y, T) or y.op not in ("uid", "epoch")]
                return ("data of", *ys)
            return nothing
        try:
            sim = Play(i, world)
            e = sim.play()
            got = sim.value(i.snap(i.result)) if e is None else e.name
            want = None if failing else ("data of", a, "handle", "table")
            c.r.ob(got == want, OF, where, str(got))
        except Unknown:
            c.r.und(OF, where, "not understood")
        except Fails:
            c.r.bad(OF, where, "raises an error")


def check(c):
    c.part(samples)
    c.part(archive_table)
    r = c.r
    f = c.prog.func(Q)
    w = f"{f.module.rel}:{f.node.lineno} in {Q}"
    i = c.run(Q)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    ps = [mk("param", n) for n in names]
    fobj = ps[1]
    toc = ps[2] if len(ps) > 2 else None
    typ = mk("attr", SELF, "type")
    reads = [e for e in i.events if e.kind == "mcall" and e.recv is not None and strip_epoch(e.recv) is fobj and e.name.startswith("read")]
    seeks = [e for e in i.events if e.kind == "mcall" and e.recv is not None and strip_epoch(e.recv) is fobj and e.name == "seek"]
    if not reads:
        r.und("the entry's bytes are read", w)
        return
    for e in reads:
        if e.loops:
            r.und("exactly the compressed size is read", e.where(), "in a loop")
            continue
        n = strip_epoch(e.args[0]) if e.args else None
        r.ob(n is mk("attr", SELF, "compressed_size"), "exactly the compressed size is read", e.where(), text(n) if n is not None else "everything")
        prev = [x for x in seeks if x.seq < e.seq and tm.entails(e.guard, x.guard)]
        between = [x for x in reads if prev and prev[-1].seq < x.seq < e.seq and tm.satisfiable(band(x.guard, e.guard))]
        if not prev:
            r.bad("the read is at the entry's offset", e.where(), "no seek before")
        else:
            s = prev[-1]
            wh = s.args[1] if len(s.args) > 1 else const(0)
            r.ob(strip_epoch(s.args[0]) is mk("attr", SELF, "offset") and is_const(wh, 0) and not between, "the read is at the entry's offset", s.where(), text(s.args[0]))
    datas = {strip_epoch(e.result) for e in reads}
    isdata = lambda t: t in datas or strip_epoch(t) in datas
    have = [cmp("is", toc, NONE)] if toc is not None else []
    for k in range(16):
        for has in (False, True):
            m = {typ: const(k)}
            if toc is not None:
                m[cmp("is", toc, NONE)] = const(not has)
                m[truth(toc)] = const(has)
            rets = [(tm.subst(g, m), tm.subst(v, m), nd) for g, v, ls, nd in i.root_returns if live(g, m)]
            rs = [e for e in i.events if e.kind == "raise" and live(e.guard, m)]
            what = f"type {k}" + (f" {'with' if has else 'without'} a sub-chunk table" if k == 4 else "")
            if k > 4:
                r.ob(not rets and rs, "an unknown type is an error", w, f"{what} returns {text(rets[0][1])[:80]}" if rets else what)
                continue
            if k != 4 and has:
                continue
            if not rets:
                r.bad(f"{what} is decoded", w, "nothing is returned")
                continue
            if k == 4 and has:
                subchunks(c, i, rets, m, toc, isdata, w)
                continue
            for g, v, nd in rets:
                at = f"{f.module.rel}:{nd.lineno} in {Q}"
                v = norm(v)
                if k == 0:
                    good = isdata(v)
                elif k == 1:
                    good = is_call(v, "gzip.decompress") and isdata(v.args[1])
                elif k == 2:
                    good = is_const(v, None)
                    if not good and v.op == "mcall":
                        r.bad(f"{what} has no data", at, text(v)[:120])
                        continue
                else:
                    good = is_zstd(v) and isdata(v.args[1])
                if not good and v.op in ("mcall", "call") and not is_zstd(v) and not is_call(v, "gzip.decompress") and not isdata(v):
                    r.und(f"{what} is decoded", at, text(v)[:120])
                else:
                    r.ob(good, f"{what} is decoded", at, text(v)[:120])
            extra = [e for e in rs if not any(z[1].startswith("handler") for z in e.zones)]
            if k != 4:
                r.ob(not extra, f"{what} is decoded", (extra or reads)[0].where(), "raises" if extra else "")
    wiring(c)


def subchunks(c, i, rets, m, toc, isdata, w):
    r = c.r
    g, v, nd = rets[0]
    v = norm(v)
    if len(rets) > 1:
        r.und("sub-chunks are concatenated", w, f"{len(rets)} results")
        return
    body = None
    if v.op == "join" and is_const(v.args[0], b""):
        body = v.args[1]
    elif is_call(v, "bytes", "bytearray") and len(v.args) == 2:
        body = v.args[1]
    if body is None and v.op == "join":
        r.bad("sub-chunks are concatenated", w, f"joined with {text(v.args[0])}")
        return
    if body is not None and body.op in ("rev", "sorted", "slice", "set"):
        r.bad("sub-chunks are concatenated", w, f"{body.op} of the sub-chunks")
        return
    es = tm.entries_of(body) if body is not None and body.op in ("build", "list", "tuple") else None
    if not es or any(len(e.args[0].args) != 1 for e in es):
        if is_call(v, "bytes") and len(v.args) == 2:
            v = v.args[1]
        if v.op == "post":
            es = accumulated(i, v)
        if not es:
            if isdata(v) or is_zstd(v) or is_const(v) or is_call(v, "gzip.decompress"):
                r.bad("sub-chunks are concatenated", w, text(v)[:120])
            else:
                r.und("sub-chunks are concatenated", w, text(v)[:120])
            return
    r.ok("sub-chunks are concatenated", w)
    loop = es[0].args[0].args[0]
    if any(e.args[0].args[0].args[:2] != loop.args[:2] for e in es):
        r.und("sub-chunks of the entry's index range", w, "several loops")
        return
    if loop.op != "loop":
        r.und("sub-chunks of the entry's index range", w, text(loop)[:120])
        return
    mods = [x for e in es for x in e.args[0].args[0].args[2:]]
    r.ob(not mods, "sub-chunks are taken in table order", w, text(loop)[:120])
    coll = loop.args[0]
    first, count = mk("attr", SELF, "first_subchunk_index"), mk("attr", SELF, "subchunk_count")
    idx = None
    if coll.op == "rng":
        step = coll.args[2] if len(coll.args) > 2 else const(1)
        lo, hi = coll.args[0], coll.args[1]
        full = is_const(step, 1) and tm.lin_eq(mk("bin", "-", hi, lo), count)
        shift = mk("bin", "-", first, lo)  # index = each + shift
        each = mk("elem", coll, loop.args[1])
        if not is_const(step, 1):
            r.bad("sub-chunks of the entry's index range", w, text(coll)[:150])
            return
        idx = each
        if not full:
            r.bad("sub-chunks of the entry's index range", w, f"{text(coll)[:150]}")
            return
        idx = norm(mk("bin", "+", each, shift))
        r.ok("sub-chunks of the entry's index range", w, text(coll)[:150])
    else:
        r.und("sub-chunks of the entry's index range", w, text(coll)[:150])
        return

    def row(t):
        """(byte offset in the row, width, ok) of a field of the table."""
        p = fld_place(t)
        if p is None:
            return None
        data, off, ch, wd, order = p
        if data.op == "slice":
            base, lo = data.args[0], data.args[1]
            if lo.op == "const" and lo.args[0] is None:
                lo = const(0)
        else:
            return None
        if strip_epoch(base) is not toc:
            return None
        diff = mk("bin", "-", lo, mk("bin", "*", const(16), idx))
        d = lin_const(diff)
        if d is None and all(x.op in ("const", "bin", "elem", "rng", "uid", "loop") or x in (first, count, SELF) for x in subterms(diff)):
            d = 1 << 20  # another place
        return (off + d if d is not None else None, ch, order)

    pieces_ = []
    guards = {}
    for e in es:
        val = norm(e.args[2])
        g = tm.subst(e.args[1], m)
        z = is_zstd(val)
        s = norm(val.args[1]) if z else val
        if s.op != "slice" or not isdata(s.args[0]):
            (r.bad if isdata(s) or is_call(val, "gzip.decompress") else r.und)("a sub-chunk is a slice of the entry's data", w, text(s)[:120])
            return
        pieces_.append((z, s, g))
    slices = {strip_uid(s) for z, s, g in pieces_}
    if len(slices) > 1:
        r.und("a sub-chunk is a slice of the entry's data", w, "several slices")
        return
    s = pieces_[0][1]
    lo, hi = s.args[1], s.args[2]
    csize = norm(mk("bin", "-", hi, lo))
    # the difference must be the first u32 of the row
    flds = [x for e in es for t in (e.args[1], e.args[2], hi) for x in subterms(t) if x.op == "fld"]
    flds += [x for e in i.events for x in subterms(e.guard) if x.op == "fld"]
    rows = {}
    for x in set(flds):
        p = row(x)
        if p is not None:
            rows[x] = p
    C = [x for x, p in rows.items() if p == (0, "I", "<") or p == (0, "L", "<")]
    U = [x for x, p in rows.items() if p == (4, "I", "<") or p == (4, "L", "<")]
    H = [x for x, p in rows.items() if p == (8, "Q", "<")]
    if not rows:
        r.und(TABLE, w, "no field found")
        return
    wrong = {x: p for x, p in rows.items() if x not in C + U + H}
    if wrong or not (C and U and H):
        known = all(p[0] is not None for p in wrong.values())
        (r.bad if known else r.und)(TABLE, w, "; ".join(f"{p[1]} at {p[0]} ({p[2]})" for p in wrong.values())[:200] or f"sizes and checksum are not all used ({len(C)}, {len(U)}, {len(H)})")
        if not (C and U and H):
            return
    else:
        r.ok(TABLE, w)
    cs = [x for x in C if tm.lin_eq(csize, x)]
    if not cs:
        (r.bad if lin_fields(csize, rows) else r.und)("a sub-chunk has its recorded compressed size", w, text(csize)[:150])
        return
    r.ok("a sub-chunk has its recorded compressed size", w)
    C0 = cs[0]
    # offset: inductive
    if lo.op == "mu":
        init, step, loops = i.mus[lo]
        r.ob(is_const(init, 0) and tm.lin_eq(step, mk("bin", "+", lo, C0)), OFF, w, f"starts at {text(init)}, then {text(step)[:150]}")
    else:
        (r.bad if lo.op == "const" or lin_fields(lo, rows) else r.und)(OFF, w, text(lo)[:150])
        if lo.op == "const":
            return
    # completeness and checksum
    D = strip_epoch(s.args[0])
    short = cmp("<", mk("call", "len", s.args[0]), hi)
    rs = [e for e in i.events if e.kind == "raise" and e.loops and e.loops[-1].args[:2] == loop.args[:2] and live(e.guard, m) and not any(z[1].startswith("handler") for z in e.zones)]
    R = bor(*[tm.subst(e.guard, m) for e in rs]) if rs else FALSE
    ats = [a for e in i.events if e.loops and e.loops[-1].args[:2] == loop.args[:2] for a in tm.atoms(e.guard)]
    longs = [a for a in ats if a.op == "<" and lin_short(a, s.args[0], hi)] + [a for a in ats if a.op in ("==", "<") and any(is_call(x, "len") and norm(x.args[1]) is norm(s) for x in a.args)]
    sums = [a for a in ats if a.op == "==" and any(x in H for x in a.args) and any(digest_of(x) for x in a.args)]
    dig = [(a, next(digest_of(x) for x in a.args if digest_of(x))) for a in sums]
    def at(k):
        """The values of the length tests when the data ends k bytes after the sub-chunk."""
        out = {}
        for a in longs:
            v = value_at(a, s, hi, C0, k)
            if v is not None:
                out[a] = const(v)
        return out
    first_ev = [e for e in i.events if e.loops and e.loops[-1].args[:2] == loop.args[:2] and live(e.guard, m) and e.kind == "call" and "unpack" in e.name]
    first_ev = first_ev or [e for e in i.events if e.loops and e.loops[-1].args[:2] == loop.args[:2] and live(e.guard, m)]
    if not sums:
        r.bad("a sub-chunk matches its checksum", w, "the recorded checksum is not compared")
    for a, (name, arg) in dig[:1]:
        if "xxh3_64" not in name:
            r.bad("a sub-chunk matches its checksum", w, f"compared with {name}")
            continue
        if norm(arg) is not norm(s):
            r.bad("a sub-chunk matches its checksum", w, f"the checksum is of {text(arg)[:100]}")
            continue
        for z, s_, g in pieces_:
            ok = raised_with(i, m, first_ev, loop, R, {a: FALSE, **at(0)})
            r.ob(ok, "a sub-chunk matches its checksum", w, "a mismatch does not always raise" if not ok else "")
    if not longs:
        r.bad("a sub-chunk is complete", w, "the length of the data is not checked")
    elif len(at(-1)) != len(set(longs)):
        r.und("a sub-chunk is complete", w, text(longs[0])[:120])
    else:
        ok = raised_with(i, m, first_ev, loop, R, at(-1))
        r.ob(ok, "a sub-chunk is complete", w, f"{text(longs[0])[:120]}: not always an error" if not ok else "")
    # nothing else raises
    mm = dict(m)
    mm.update(at(0))
    for a in sums:
        mm[a] = TRUE
    for e in rs:
        g = tm.subst(e.guard, mm)
        if g is FALSE or not tm.satisfiable(g):
            continue
        others = [a for a in tm.atoms(g) if not tm.mentions(a, lambda x: is_call(x, "len") and strip_epoch(x.args[1]) is toc) and a not in m]
        if others and not any(tm.mentions(a, lambda x: is_call(x, "len") and strip_epoch(x.args[1]) is toc) for a in tm.atoms(g)):
            r.bad("valid sub-chunks are not rejected", e.where(), text(g)[-200:])
        else:
            for a in tm.atoms(g):
                if a.op == "<" and tm.mentions(a, lambda x: is_call(x, "len") and strip_epoch(x.args[1]) is toc):
                    # raised when the table is too short for the row: len < n with n <= 16 * (index + 1)
                    b = norm(a.args[1])
                    d = lin_const(mk("bin", "-", b, mk("bin", "*", const(16), idx)))
                    r.ob(is_call(a.args[0], "len") and (d is None or d <= 16), "valid sub-chunks are not rejected", e.where(), text(a)[:150])
    # raw exactly when the sizes are equal
    for z, s_, g in pieces_:
        eqs = [a for a in tm.atoms(g) if a.op == "==" and any(x in C for x in a.args) and any(x in U for x in a.args)]
        lts = [a for a in tm.atoms(g) if a.op == "<" and any(x in C for x in a.args) and any(x in U for x in a.args)]
        if not z:
            if eqs:
                good = not tm.satisfiable(tm.subst(g, {a: FALSE for a in eqs}))
            else:
                good = False
            r.ob(good, "a sub-chunk is returned as is only if its sizes are equal", w, text(g)[-200:])
        else:
            sat = tm.satisfiable(tm.subst(g, {a: TRUE for a in eqs})) if eqs else True
            r.ob(not sat, "a sub-chunk with equal sizes is not decompressed", w, text(g)[-200:])
    if not any(not z for z, s_, g in pieces_) or not any(z for z, s_, g in pieces_):
        r.bad("compressed and uncompressed sub-chunks are both supported", w)
    # every index gives a piece
    tot = bor(*[g for z, s_, g in pieces_])
    tot = tm.subst(tot, mm)
    keepm = {a: FALSE for a in tm.atoms(tot) if a.op == "exc" or tm.mentions(a, lambda x: is_call(x, "len") and strip_epoch(x.args[1]) is toc)}
    tot = tm.subst(tot, keepm)
    (r.ok if tot is TRUE or tm.entails(TRUE, tot) else r.bad)("every sub-chunk of the range is used", w, text(tot)[-200:])


def lin_const(t):
    """The integer value of a linear expression, if constant."""
    l = tm.lin(t)
    if l is None:
        return None
    t = norm(t)
    for n in range(-64, 65):
        if tm.lin_eq(t, const(n)):
            return n
    return None


def lin_fields(t, rows):
    """Is the term made of fields of the table and loop values only?"""
    return all(x in rows or x.op in ("const", "bin", "mu", "elem", "rng", "attr", "param", "loop", "call", "slice", "uid", "post") for x in [t] + [y for y in getattr(t, "args", ()) if isinstance(y, T)])


def digest_of(x):
    x = norm(x)
    if x.op == "call" and isinstance(x.args[0], str) and "digest" in x.args[0] and len(x.args) >= 2:
        return x.args[0], x.args[1]
    if x.op == "mcall" and x.args[1] in ("intdigest", "digest", "hexdigest") and x.args[0].op == "call" and len(x.args[0].args) >= 2:
        return str(x.args[0].args[0]) + "_" + x.args[1], x.args[0].args[1]
    return None


def lin_short(a, data, hi):
    ln = mk("call", "len", data)
    x, y = a.args
    return any(is_call(z, "len") and strip_epoch(z.args[1]) is strip_epoch(data) for t in (x, y) for z in subterms(t))


def value_at(a, s, hi, csize, k):
    """The value of a test of the data's length (or of the slice's) when the data ends k bytes after the end of the slice."""
    x, y = a.args
    def conv(t):
        def f(z):
            if is_call(z, "len") and norm(z.args[1]) is norm(s):
                return mk("bin", "+", csize, const(min(k, 0)))
            if is_call(z, "len") and strip_epoch(z.args[1]) is strip_epoch(s.args[0]):
                return mk("bin", "+", hi, const(k))
            return z
        return tm.rewrite(t, f)
    d = lin_const(mk("bin", "-", conv(y), conv(x)))
    if d is None:
        return None
    return d > 0 if a.op == "<" else d == 0


def raised_with(i, m, first_ev, loop, R, vals):
    """Is an error raised in each iteration that reaches the checks when the atoms have these values?"""
    if not first_ev:
        return False
    g = tm.subst(tm.subst(first_ev[0].guard, m), vals)
    return not tm.satisfiable(band(g, bnot(tm.subst(R, vals))))


def accumulated(i, v):
    """Entries of a byte string built by appending in a loop."""
    mu = v.args[0]
    if mu not in i.mus:
        return None
    init, step, loops = i.mus[mu]
    if not (is_const(init, b"") or is_call(init, "bytearray") and len(init.args) == 1) or len(loops) != 1:
        return None
    out = []
    for g, x in tm.cases(step):
        if x.op == "bin" and x.args[0] == "+" and x.args[1] is mu:
            out.append(entry(loops, g, x.args[2]))
        elif x is not mu:
            return None
    return out


def wiring(c):
    r = c.r
    # the archive's table
    q = "wad.Wad.load_subchunk_toc"
    if c.prog.func(q) is not None and (any(o[1] == OF and o[0] is None for o in c.r.obligations) or not any(o[1] == OF for o in c.r.obligations)):
        f = c.prog.func(q)
        w = f"{f.module.rel}:{f.node.lineno} in {q}"
        i = c.run(q, opaque={Q})
        fin = final_attr(i, SELF, "subchunk_toc")
        rd = [e for e in i.events if e.kind == "call" and e.name == "repo:" + Q]
        if fin is None or not rd:
            r.und("the sub-chunk table is the data of the table's entry", w)
        for e in rd:
            ent = e.args[0]
            pth = mk("attr", ent, "path")
            suf = [a for a in tm.atoms(e.guard) if a.op == "truthy" and a.args[0].op == "mcall" and a.args[0].args[1] == "endswith" and strip_epoch(a.args[0].args[0]) is strip_epoch(pth)]
            good = [a for a in suf if is_const(a.args[0].args[2], ".subchunktoc")]
            if good:
                r.ob(tm.entails(e.guard, good[0]), "the sub-chunk table is the data of the table's entry", e.where(), text(e.guard)[-150:])
            else:
                ext = [a for a in tm.atoms(e.guard) if tm.mentions(a, lambda x: x.op == "const" and isinstance(x.args[0], str) and "subchunktoc" in x.args[0])]
                (r.und if ext else r.bad)("the sub-chunk table is the data of the table's entry", e.where(), text(e.guard)[-150:])
            r.ob(fin is not None and tm.mentions(fin, lambda x: repo_call(x, Q)), "the sub-chunk table is the data of the table's entry", e.where(), text(fin)[:100] if fin is not None else "not kept")
    # reads are given the table
    for q, ent in (("wad.Wad.read_file_data", None), ("wad.Wad.extract", None)):
        f = c.prog.func(q)
        if f is None:
            continue
        w = f"{f.module.rel}:{f.node.lineno} in {q}"
        i = c.run(q, opaque={Q, "wad.Wad.sanitize_paths", "wad.Wad.set_unknown_paths"})
        rd = [e for e in i.events if e.kind == "call" and e.name == "repo:" + Q]
        if not rd:
            r.und("reads are given the archive's sub-chunk table", w, "no read")
        for e in rd:
            t = strip_epoch(e.args[2]) if len(e.args) > 2 else None
            r.ob(t is mk("attr", SELF, "subchunk_toc"), "reads are given the archive's sub-chunk table", e.where(), text(t) if t is not None else "not given")
