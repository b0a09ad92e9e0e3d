"""C17: WAD tables of contents are decoded by their format version."""
import struct
from vfa.q import *
from vfa.sim import Obj
from vfa.tape import Play

RULE = """The header parser is analysed with its helpers inlined. For each major version 0..255 (with minor versions from every range the code distinguishes; all 256 for version 3) the conditions of the parser are evaluated for that
version and the reads of the file are placed by following seeks and read sizes. Obligations: the magic is compared with 'RW' and the version with the supported ones before anything else is decoded, every other
major version or magic raises; the entry count is the little-endian u32 at the table's position (8, 100 or 268), and that many consecutive records are read, each of the version's record size and one entry each, kept in order;
each field of an entry consists of exactly the bits of that version's field: this is decided bit by bit, by tracking which input bit each bit of the value comes from.
The parser is also followed over sample archives of every layout with none, one and several entries, whose tables must come out entry by entry, and over files that are no supported archive, which must be refused."""

LAYOUT = {
    1: (8, 24, {"path_hash": (0, 64), "offset": (64, 32), "compressed_size": (96, 32), "size": (128, 32), "type": (160, 4), "subchunk_count": (164, 4)}, {}),
    2: (100, 32, {"path_hash": (0, 64), "offset": (64, 32), "compressed_size": (96, 32), "size": (128, 32), "type": (160, 4), "subchunk_count": (164, 4), "first_subchunk_index": (176, 16), "sha256": (192, 64)}, {}),
    3: (268, 32, {"path_hash": (0, 64), "offset": (64, 32), "compressed_size": (96, 32), "size": (128, 32), "type": (160, 4), "subchunk_count": (164, 4), "first_subchunk_index": (176, 16), "sha256": (192, 64)}, {}),
    # the sub-chunk index has its high byte first
    4: (268, 32, {"path_hash": (0, 64), "offset": (64, 32), "compressed_size": (96, 32), "size": (128, 32), "type": (160, 4), "subchunk_count": (164, 4), "sha256": (192, 64)}, {"first_subchunk_index": [(176, 16), (168, 8)]}),
}


def layout(major, minor):
    return LAYOUT[4 if major == 3 and minor >= 4 else major]


SAMPLE, REFUSED = "the table of a sample archive is decoded entry by entry", "a file that is no supported archive is refused"
NAMES = ("path_hash", "offset", "compressed_size", "size", "type", "subchunk_count", "first_subchunk_index", "sha256")


def archive(major, minor, rows, magic=b"RW"):
    """Bytes of a table, and what its entries are."""
    out = magic + bytes((major, minor))
    out = out.ljust({1: 8, 2: 100}.get(major, 268), b"\x07") + struct.pack("<I", len(rows))
    want = []
    for h, off, csize, size, type_, sub, first, sha in rows:
        want.append({"path_hash": h, "offset": off, "compressed_size": csize, "size": size, "type": type_, "subchunk_count": sub})
        t = type_ | sub << 4
        if major == 1:
            out += struct.pack("<QIIII", h, off, csize, size, t)
            continue
        if (major, minor) >= (3, 4):
            out += struct.pack("<QIIIBBHQ", h, off, csize, size, t, first >> 16, first & 0xffff, sha)
        else:
            first &= 0xffff
            out += struct.pack("<QIIIB?HQ", h, off, csize, size, t, bool(h & 1), first, sha)
        want[-1].update(first_subchunk_index=first, sha256=sha)
    return out + b"\x55" * 70, want


ROWS = [(0xfedcba9876543210, 300, 20, 40, 3, 0, 0, 0x1122334455667788), (0x0000000000000001, 0xfffffff0, 5, 5, 0, 0, 1, 2), (0x8000000000000000, 0, 0x80000000, 0x90000000, 4, 15, 0x12345, 0xffffffffffffffff), (0xfedcba9876543210, 301, 20, 40, 4, 3, 0xff0001, 0)]


def samples(c):
    cls = c.prog.cls("wad.Wad")
    f = cls.method("parse_headers") or cls.method("__init__")
    i = c.run(f, self_type=cls, opaque={"wad.Wad.resolve_paths", "wad.Wad.load_subchunk_toc"}, nesting=3)
    me = mk("param", f.node.args.args[0].arg)

    def follow(data):
        def world(sim, x, nothing):
            if x.op == "attr" and x.args[0] is me and x.args[1] == "path" or x.op == "param" and x.args[0] == "path":
                return "a.wad"
            return nothing

        def opens(sim, t):
            if t.op == "call" and t.args[0] in ("open", "io.open"):
                return data if sim.value(t.args[1]) == "a.wad" else None
        sim = Play(i, world, opens=opens)
        sim.cells = True
        return sim, sim.play()
    for major, minor in ((1, 0), (1, 9), (2, 0), (2, 200), (3, 0), (3, 1), (3, 3), (3, 4), (3, 255)):
        for rows in ([], ROWS[:1], ROWS, ROWS[::-1] * 2):
            where = f"{f.loc} (version {major}.{minor}, {len(rows)} entries)"
            data, want = archive(major, minor, rows)
            try:
                sim, e = follow(data)
                if e is not None:
                    c.r.bad(SAMPLE, where, f"is refused: {e.name}")
                    continue
                def of(name):
                    t = i.st.store.get(("f", me, name))
                    if t is None:
                        raise Unknown
                    return sim.value(i.snap(t))
                got, ver = of("files"), of("version")
                if not isinstance(got, (list, tuple)) or any(not isinstance(x, Obj) for x in got):
                    raise Unknown
                if len(got) != len(want):
                    c.r.bad(SAMPLE, where, f"{len(got)} entries")
                    continue
                bad = None
                for n, (x, y) in enumerate(zip(got, want)):
                    for k, v in y.items():
                        g = x.attrs.get(k, Unknown())
                        if isinstance(g, Exception):
                            raise g
                        if g != v:
                            bad = bad or f"{k} of entry {n} is {g}, not {v}"
                c.r.ob(bad is None and ver == (major, minor), SAMPLE, where, bad or f"version {ver}")
            except Unknown:
                c.r.und(SAMPLE, where, "not understood")
            except Fails:
                c.r.bad(SAMPLE, where, "raises an error")
    for name, data in (("no archive", archive(3, 1, ROWS, magic=b"RX")[0]), ("version 0.0", archive(0, 0, ROWS)[0]), ("version 4.0", archive(4, 0, ROWS)[0]), ("version 255.3", archive(255, 3, ROWS)[0])):
        where = f"{f.loc} ({name})"
        try:
            e = follow(data)[1]
            c.r.ob(e is not None, REFUSED, where, e.name if e is not None else "is taken for an archive")
        except Unknown:
            c.r.und(REFUSED, where, "not understood")
        except Fails:
            c.r.ok(REFUSED, where, "an error is raised")


def check(c):
    c.part(samples)
    r = c.r
    q = "wad.Wad.parse_headers"
    f = c.prog.func(q)
    if f is None:
        q = "wad.Wad.__init__"
        f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque={"wad.Wad.resolve_paths", "wad.Wad.load_subchunk_toc"})
    op = [e for e in i.events if e.kind == "call" and e.name in ("open", "io.open") and e.args and strip_epoch(e.args[0]).op == "attr" and strip_epoch(e.args[0]).args[1] == "path"]
    op = op or [e for e in i.events if e.kind == "call" and e.name in ("open", "io.open")]
    if len(op) != 1:
        r.und("the archive is opened once", w, f"{len(op)} opens")
        return
    r.ob(is_const(op[0].args[1] if len(op[0].args) > 1 else (op[0].kw or {}).get("mode", const("r")), "rb"), "the archive is read as binary", op[0].where())
    h = strip_epoch(op[0].result)
    # the version fields: positions 2 and 3 of the file
    cur0 = Cursor(i, h, lambda e: not e.loops)
    pieces_ = {}
    everything = {x for e in i.events for t in (e.guard, *e.args) if isinstance(t, T) for x in subterms(t) if x.op in ("fld", "index")}
    for x in everything:
        if x.op == "fld":
            p = fld_place(x)
            if p is None:
                continue
            at = cur0.place(p[0])
            if at is None:
                continue
            pieces_.setdefault((at[0], at[1] + p[1], p[3], p[2]), []).append(x)
        else:
            at = cur0.place(x.args[0])
            if at and x.args[1].op == "const" and isinstance(x.args[1].args[0], int):
                pieces_.setdefault((at[0], at[1] + x.args[1].args[0], 1, "B"), []).append(x)
    S = ("start",)
    whole = {(k[1], k[2], k[3]): v for k, v in pieces_.items() if k[0] == S}
    majors = [x for (o, wd, ch), v in whole.items() if (o, wd) == (2, 1) for x in v if ch == "B"]
    minors = [x for (o, wd, ch), v in whole.items() if (o, wd) == (3, 1) for x in v if ch == "B"]
    magics = [x for (o, wd, ch), v in whole.items() if (o, wd) == (0, 2) for x in v] + [x for x, p in cur0.at.items() if p == (S, 0)]
    if not majors or not minors:
        got = sorted((o, wd, ch) for (o, wd, ch) in whole)
        anyv = [e for e in i.events if e.kind == "setattr" and e.name == "version"]
        if anyv and got and all(wd <= 4 for o, wd, ch in got) and len(got) >= 2:
            r.bad("the version is the third and fourth bytes", anyv[0].where(), f"decoded fields: {got[:6]}")
        else:
            r.und("the version is the third and fourth bytes", w, f"decoded fields: {got[:6]}")
        return
    news = [e for e in i.events if e.kind == "new" and e.name.endswith("WadFileHeader")]
    if not news:
        r.und("entries are built", w)
        return
    # magic
    isrw = [a for e in i.events for a in tm.atoms(e.guard) if a.op == "==" and (any(is_const(z, b"RW") for z in a.args)) and any(z in magics for z in a.args)]
    if not isrw:
        isrw = [a for e in i.events for a in tm.atoms(e.guard) if a.op == "==" and any(z.op == "const" and isinstance(z.args[0], bytes) for z in a.args) and tm.mentions(a, lambda x: x in magics)]
        (r.bad if isrw or not any(tm.mentions(a, lambda x: x in magics) and not tm.mentions(a, lambda x: x in majors or x in minors) for e in news for a in tm.atoms(e.guard)) else r.und)("only archives starting with RW are decoded", news[0].where(), text(isrw[0]) if isrw else "")
        isrw = []
    else:
        a = isrw[0]
        for e in news:
            r.ob(tm.entails(e.guard, a), "only archives starting with RW are decoded", e.where(), text(e.guard)[:100])
        rs = [e for e in i.events if e.kind == "raise" and tm.satisfiable(band(e.guard, bnot(a)))]
        norm_end = [g for g, v, ls, nd in i.root_returns]
        lets = [g for g in norm_end if tm.satisfiable(assume(g, {a: False}))]
        r.ob(rs and not lets, "a file that is not a WAD is rejected", w, "the parser ends normally" if lets else "")
    magic = isrw[0] if isrw else None
    todo = [(m, n) for m in (1, 2) for n in (0, 1, 3, 4, 5, 255)] + [(3, n) for n in range(256)]
    bad_majors = [0] + list(range(4, 256))
    # classes of minor versions with the same live events are examined once
    classes = {}
    for major, minor in todo:
        mp, keep = scenario_keep(i, majors, minors, magic, major, minor)
        live = tuple(e.seq for e in i.events if e.kind in ("mcall", "new", "raise", "setattr") and keep(e))
        classes.setdefault((major, layout(major, minor)[3] != {}, live), []).append((minor, mp, keep))
    for (major, hi, live), ms in classes.items():
        version(c, i, h, f"{major}.{ms[0][0]}" + (f" to {major}.{ms[-1][0]}" if len(ms) > 1 else ""), layout(major, ms[0][0]), ms[0][1], ms[0][2], news, w)
    for major in bad_majors:
        mp, keep = scenario_keep(i, majors, minors, magic, major, 0)
        got = [e for e in news if keep(e)]
        rs = [e for e in i.events if e.kind == "raise" and keep(e)]
        if got or not rs:
            r.bad("other versions are rejected", (got or news)[0].where(), f"version {major}.0 is decoded" if got else f"version {major}.0 raises nothing")
            break
    else:
        r.ok("other versions are rejected", w, f"{len(bad_majors)} versions")


def scenario_keep(i, majors, minors, magic, major, minor):
    m = {x: const(major) for x in majors}
    m.update({x: const(minor) for x in minors})
    memo = {k.id: v for k, v in m.items()}
    cache, rw = {}, {}
    def keep(e):
        g = e if isinstance(e, T) else e.guard
        k = g.id
        if k not in cache:
            g = tm.rewrite(g, lambda x: memo.get(x.id, x), rw)
            if magic is not None:
                g = assume(g, {magic: True})
            cache[k] = g is TRUE or g is not FALSE and tm.satisfiable(g)
        return cache[k]
    return m, keep


def version(c, i, h, v, lay, mp, keep, news, w):
    r = c.r
    tpos, rec, fields, composed = lay
    rs = [e for e in i.events if e.kind == "raise" and not e.loops and keep(e)]
    mine = [e for e in news if keep(e)]
    if rs and not mine:
        r.bad(f"version {v} is decoded", rs[0].where(), "raises")
        return
    if not mine:
        r.bad(f"version {v} is decoded", w, "no entry")
        return
    cur = Cursor(i, h, keep, lambda t: norm(tm.subst(t, mp)))
    if len(mine) > 1:
        r.und(f"version {v}: one entry per record", mine[1].where(), f"{len(mine)} constructions")
        return
    e = mine[0]
    sub = lambda t: tm.subst(t, mp)
    # the count
    if len(e.loops) != 1:
        r.und(f"version {v}: one entry per record", e.where(), f"{len(e.loops)} loops")
        return
    loop = e.loops[0]
    coll = sub(loop.args[0]) if loop.op == "loop" else None
    cnt = None
    if coll is not None and coll.op == "rng":
        cnt = coll.args[1] if is_const(coll.args[0], 0) else None
    elif loop.op == "while":
        cond = i.whiles.get(loop)
        cond = norm(sub(cond)) if cond is not None else None
        if cond is not None and cond.op == "<":
            a, b = cond.args
            steps = a.op == "mu" and is_const(i.mus[a][0], 0) and i.mus[a][1] is norm(mk("bin", "+", a, const(1)))
            if steps or is_call(a, "len"):
                cnt = b
    if cnt is None:
        r.und(f"version {v}: the table has as many entries as announced", e.where(), text(loop)[:150])
    else:
        b = bits(cnt, cur.place)
        want = [(("start",), tpos + k // 8, k % 8) for k in range(32)]
        if b is None:
            (r.bad if coll is not None and coll.op == "rng" and cnt.op in ("bin", "fld") else r.und)(f"version {v}: the table has as many entries as announced", e.where(), text(cnt)[:150])
        else:
            r.ob(b == want, f"version {v}: the table has as many entries as announced", e.where(), f"the count is {show_bits(b)}, expected bits {tpos * 8}..{tpos * 8 + 31}")
    # record size
    n = cur.sizes.get(e.loops)
    if n is None:
        r.und(f"version {v}: records have the version's size", e.where())
        return
    seeks = [x for x in i.events if x.kind == "mcall" and x.name == "seek" and x.loops == e.loops and keep(x) and strip_epoch(x.recv) is h]
    end = cur.pos.get(e.loops, (None, None))
    r.ob(end[0] == (e.loops,) and end[1] == rec, f"version {v}: records have the version's size", e.where(), f"{end[1]} bytes, expected {rec}")
    # the table follows the count
    p0 = cur.pos.get((), (None, 0))
    r.ob(p0 == (("start",), tpos + 4), f"version {v}: records follow the count", e.where(), f"the table starts at {p0[1]}, expected {tpos + 4}")
    got = new_attrs(i, e.recv)
    src = (e.loops,)
    for name, where in list(fields.items()) + list(composed.items()):
        parts_ = where if isinstance(where, list) else [where]
        want = trim([(src, (o + k) // 8, (o + k) % 8) for o, n_ in parts_ for k in range(n_)])
        val = got.get(name)
        if val is None:
            r.und(f"version {v}: {name}", e.where(), "not set")
            continue
        val = sub(val)
        b = bits(val, cur.place)
        if b is None:
            t = val
            signed = any(x.op == "fld" and (fld_place(x) or (0, 0, "?", 0, 0))[2] in "bhilqfd" for x in subterms(t))
            native = any(x.op == "fld" and (fld_place(x) or (0, 0, "?", 0, "<"))[4] in "@=" for x in subterms(t))
            (r.bad if signed or native or val.op == "const" or val.op == "fld" else r.und)(f"version {v}: {name}", e.where(), text(val)[:150])
        else:
            r.ob(b == want, f"version {v}: {name}", e.where(), f"is {show_bits(b)} of the record, expected {show_bits(want)}")
    # one entry each, all kept, in order
    fin = final_attr(i, T_self(i), "files")
    fin = sub(fin) if fin is not None else None
    if fin is not None:
        fin = resolve(fin, keep)
    es = tm.entries_of(fin) if fin is not None and fin.op == "build" else None
    if not es:
        r.und(f"version {v}: every record is kept, in order", e.where(), text(fin)[:120] if fin is not None else "")
        return
    ok = len(es) == 1 and es[0].args[0].args and len(es[0].args[0].args) == 1
    if not ok:
        r.und(f"version {v}: every record is kept, in order", e.where(), text(fin)[:120])
        return
    l, g, val = es[0].args[0].args[0], es[0].args[1], es[0].args[-1]
    mods = [m for m in l.args[2:]]
    same_loop = l.args[:2] == sub(loop).args[:2] or l.args[:2] == loop.args[:2]
    g = sub(g)
    if l.op == "while":
        g = TRUE if tm.equiv(g, sub(i.whiles.get(l, TRUE))) else g
        (r.ok if g is TRUE else r.und)(f"version {v}: every record is kept, in order", e.where(), text(g)[:160])
        return
    r.ob(not mods and g is TRUE, f"version {v}: every record is kept, in order", e.where(), text(fin)[:160])


def T_self(i):
    return mk("param", "self")


def resolve(t, keep):
    """Resolve the conditional values of a term by the path conditions of the examined version."""
    while t.op == "ite":
        g = t.args[0]
        a, b = keep(g), keep(bnot(g))
        if a and not b:
            t = t.args[1]
        elif b and not a:
            t = t.args[2]
        else:
            break
    return t
