"""C04: chunk offsets, sizes and identifiers keep their meaning from the manifest to the bundle."""
from vfa.q import *

RULE = """load_chunk: on every path the bundle opened is the chunk's own (by its identifier), one absolute seek to an
attribute A of the chunk precedes one read of an attribute B of the chunk, and the result is the zstd decompression
of exactly that data. add_chunk: the value stored in attribute A of the added chunk must be, as a value, the
previous chunk's A + B, and 0 for the first one (or an equivalent running total); the bundle keeps all chunks in order.
_parse_bundle: attribute B must come from column 1 ('<L'), the identifier from column 0 ('<Q'), the uncompressed
size from column 2 ('<L') of the chunk table, each read at entry position + its own offset; the bundle identifier
from column 0 ('<Q') of the bundle table, the chunk list from the position column 1 points to, one chunk per
table entry."""


def column(t):
    """(column, format) of a value read from an offset table entry."""
    if t.op != "ite":
        return None
    cond, a, b = t.args
    leaf = b if is_const(a, None) else a if is_const(b, None) else None
    if leaf is None:
        return None
    ks = set()
    for x in tm.atoms(cond):
        x = bare(x)
        for y in ([x] + list(x.args)):
            if isinstance(y, T) and y.op == "index" and is_const(y.args[1]) and y.args[0].op == "mcall" and "unpack" in y.args[0].args:
                ks.add(y.args[1].args[0])
    if len(ks) != 1:
        return None
    return ks.pop(), leaf


def fmt_of(leaf):
    """Format of a value that is the first item of one unpack call."""
    if leaf.op == "index" and is_const(leaf.args[1], 0) or leaf.op == "fld":
        m = leaf.args[0] if leaf.op == "index" else None
        if leaf.op == "fld":
            return leaf.args[0] if isinstance(leaf.args[0], str) else (leaf.args[0].args[0] if is_const(leaf.args[0]) else None)
        if m.op == "mcall" and "unpack" in m.args:
            f = m.args[2]
            return f.args[0] if isinstance(f, T) and is_const(f) else None
    return None


def new_attrs(i, obj):
    """Attributes given to an object: {name: last value}."""
    out = {}
    for e in i.events:
        if e.kind == "setattr" and e.recv is obj:
            out[e.name] = e.args[0]
    return out


def check(c):
    r, p = c.r, c.prog
    f = p.func("patcher.PatcherStorage.load_chunk")
    i = c.run(f, "patcher.PatcherStorage.load_chunk")
    C = mk("param", f.node.args.args[1].arg)
    w = "patcher.PatcherStorage.load_chunk"
    A = B = None
    opens = [e for e in calls(i, "open", "io.open")]
    if len(opens) != 1:
        r.und("one bundle opened", w, str(len(opens)))
        return
    o = opens[0]
    path = norm(o.arg(0, "file"))
    ids = {y for x in pieces(path) for y in subterms(x) if y.op == "attr" and y.args[0] is mk("attr", C, "bundle")}
    other = [y for x in pieces(path) for y in subterms(x) if y.op == "attr" and y.args[0] is C and y.args[1] != "bundle"]
    r.ob(bool(ids) and not other, "the bundle opened is the chunk's own", o.where(), text(path))
    r.ob(is_const(open_mode(o)) and "b" in open_mode(o).args[0], "bundle opened in binary", o.where(), text(open_mode(o)))
    res = i.result
    if res.op == "call" and res.args[0] in ("pyzstd.decompress", "zstd.decompress", "pyzstd.ZstdDecompressor.decompress"):
        d = res.args[1]
    elif tm.mentions(res, lambda y: y.op == "call" and "decompress" in str(y.args[0])):
        r.und("result is the decompressed chunk", w, text(res))
        return
    else:
        r.bad("result is the decompressed chunk", w, text(res))
        return
    reads = [e for e in mcalls(i, "read") if e.recv is o.result]
    seeks = [e for e in mcalls(i, "seek") if e.recv is o.result]
    if d.op == "mcall" and d.args[0] is strip(o.result) and d.args[1] == "read":
        if len(reads) == 1 and len(d.args) >= 3 and isinstance(d.args[2], T) and d.args[2].op == "attr" and d.args[2].args[0] is C:
            B = d.args[2].args[1]
            r.ok("reads exactly the compressed size", reads[0].where())
        else:
            r.bad("reads exactly the compressed size", (reads or [o])[0].where(), text(d))
        sk = [e for e in seeks if not reads or e.seq < reads[0].seq]
        if not sk:
            r.bad("seeks to the chunk's offset before reading", o.where(), "no seek")
        elif len(sk) > 1:
            r.und("one seek before reading", o.where())
        else:
            s = sk[0]
            wh = s.arg(1, "whence")
            off = s.arg(0, "offset")
            if off.op == "attr" and off.args[0] is C and (wh is None or is_const(wh, 0)) and tm.entails(reads[0].guard if reads else TRUE, s.guard):
                A = off.args[1]
                r.ok("seeks to the chunk's offset before reading", s.where())
            else:
                r.bad("seeks to the chunk's offset before reading", s.where(), text(off))
    else:
        r.und("data read from the bundle", w, text(d))
    if A is None or B is None:
        return
    r.ob(A != B, "offset and size are different attributes", w, A)

    add(c, A, B)
    parse(c, A, B, ids)


def strip(t):
    return strip_epoch(t)


def subterms(t):
    out = []
    tm.rewrite(t, lambda x: (out.append(x), x)[1])
    return out


def add(c, A, B):
    r, p = c.r, c.prog
    f = p.func("patcher.PatcherBundle.add_chunk")
    i = c.run(f, "patcher.PatcherBundle.add_chunk")
    w = "patcher.PatcherBundle.add_chunk"
    S = mk("param", f.node.args.args[0].arg)
    aps = [e for e in mcalls(i, "append") if e.recv.op == "attr" and e.recv.args[0] is S]
    if len(aps) != 1:
        (r.bad if not aps and not evs(i, "setattr") else r.und)("one chunk added at the end", w, f"{len(aps)} appends")
        return
    ap = aps[0]
    r.ob(tm.equiv(ap.guard, TRUE), "every chunk is added", ap.where(), text(ap.guard))
    L = ap.recv
    obj = ap.args[0]
    at = new_attrs(i, obj)
    if A not in at or B not in at:
        r.und("attributes of the added chunk", ap.where(), str(sorted(at)))
        return
    off = at[A]
    last = mk("index", L, const(-1))
    lastn = mk("index", L, mk("bin", "-", lenof(L), const(1)))
    n = norm(strip_epoch(off))
    n = tm.rewrite(n, lambda x: last if x is lastn else x)
    zero = assume(n, {a: False for a in tm.atoms(truth(L))})
    full = assume(n, {a: True for a in tm.atoms(truth(L))})
    known = lambda x: x.op == "param" or x is last or x is L or x.op == "attr" and closed_over(x, S)
    if is_sum(full, last, A, B) and is_const(zero, 0):
        r.ok("a chunk starts where the previous one ends, the first at 0", ap.where())
    elif n.op == "attr" and n.args[0] is S and running_total(c, f, i, n.args[1], B, at):
        r.ok("a chunk starts where the previous one ends, the first at 0", ap.where())
    elif closed(full, known) and closed(zero, known):
        r.bad("a chunk starts where the previous one ends, the first at 0", ap.where(), text(n))
    elif n.op == "build" or tm.mentions(n, lambda y: y.op in ("build", "mu", "fold", "sum")) or tm.mentions(n, lambda y: y.op == "call"):
        r.und("a chunk starts where the previous one ends", ap.where(), text(n))
    else:
        r.bad("a chunk starts where the previous one ends, the first at 0", ap.where(), text(n))
    bun = [k for k, v in at.items() if v is S]
    r.ob("bundle" in bun, "the chunk belongs to its bundle", ap.where(), str(bun))


def closed_over(x, S):
    """An attribute of a chunk (the last one, or one of the chunks), not a counter kept by the bundle itself."""
    return x.args[0] is not S and not (x.args[0].op == "param")


def is_sum(t, last, A, B):
    if t.op != "bin" or t.args[0] != "+":
        return False
    return set(t.args[1:]) == {mk("attr", last, A), mk("attr", last, B)}


def running_total(c, f, i, X, B, at):
    """offset = self.X; self.X starts at 0 and grows by the chunk's size after each addition."""
    S = mk("param", f.node.args.args[0].arg)
    sets = [e for e in i.events if e.kind == "setattr" and e.recv is S and e.name == X]
    if len(sets) != 1 or not tm.equiv(sets[0].guard, TRUE):
        return False
    v = sets[0].args[0]
    if not (v.op == "bin" and v.args[0] == "+" and set(v.args[1:]) == {mk("attr", S, X), at[B]}):
        return False
    k = f.cls.method("__init__")
    if k is None:
        return False
    j = c.run(k, "PatcherBundle.__init__")
    ini = [e for e in j.events if e.kind == "setattr" and e.name == X]
    return bool(ini) and is_const(ini[-1].args[0], 0)


def parse(c, A, B, ids):
    r = c.r
    i = c.run("patcher.PatcherManifest._parse_bundle")
    w = "patcher.PatcherManifest._parse_bundle"
    res = i.result
    at = new_attrs(i, res)
    idn = {y.args[1] for y in ids}
    for k in idn:
        v = at.get(k)
        col = column(strip_epoch(v)) if v is not None else None
        if col is None:
            r.und("bundle identifier column", w, text(v) if v is not None else "not set")
        else:
            r.ob(col[0] == 0 and fmt_of(col[1]) == "<Q", "bundle identifier from column 0 (<Q)", w, f"column {col[0]} {fmt_of(col[1])}")
    aps = [e for e in mcalls(i, "append") if e.recv.op == "attr" and e.recv.args[0] is res or (e.loops and e.kind == "mcall" and e.name == "append" and any(e.args and e.args[0] is n.recv for n in i.events if n.kind == "new"))]
    aps = [e for e in aps if any(n.kind == "new" and n.name == "PatcherChunk" and n.recv is e.args[0] for n in i.events)]
    if len(aps) != 1:
        r.und("one chunk added per table entry", w, f"{len(aps)} additions")
        return
    ap = aps[0]
    g = ap.guard
    r.ob(len(ap.loops) >= 1 and tm.equiv(g, TRUE), "one chunk added per table entry", ap.where(), text(g)[:200])
    at = new_attrs(i, ap.args[0])
    spec = {B: (1, "<L", "compressed size"), "chunk_id": (0, "<Q", "chunk identifier"), "target_size": (2, "<L", "uncompressed size")}
    for k, (n, fm, what) in spec.items():
        v = at.get(k)
        if v is None:
            if k != B:
                continue
        col = column(strip_epoch(v)) if v is not None else None
        if col is None:
            r.und(f"{what} column", ap.where(), text(v)[:200] if v is not None else "")
            continue
        r.ob(col[0] == n and fmt_of(col[1]) == fm, f"{what} from column {n} ({fm})", ap.where(), f"column {col[0]} {fmt_of(col[1])}")
        position(r, i, col, what)
    # the chunk table is where column 1 of the bundle points to
    cnt = [e for e in mcalls(i, "unpack") + evs(i, "enter", "tools.BinaryParser.unpack") if e.seq < ap.seq]
    lp = ap.loops[-1] if ap.loops else None
    if lp is not None:
        count = [y for y in subterms(lp) if y.op == "mcall" and "unpack" in y.args]
        ev = [e for e in mcalls(i, "unpack") if any(strip(e.result) is strip(y) for y in count)]
        sk = [e for e in mcalls(i, "seek") if ev and e.seq < ev[0].seq]
        if not ev or not sk:
            r.und("position of the chunk table", ap.where())
        else:
            col = column(strip_epoch(sk[-1].args[0]))
            if col is None:
                r.und("position of the chunk table", sk[-1].where(), text(sk[-1].args[0])[:200])
            else:
                r.ob(col[0] == 1 and col[1].op == "bin" and col[1].args[0] == "+", "chunk table found through column 1 of the bundle entry", sk[-1].where(), f"column {col[0]}")


def position(r, i, col, what):
    """The value was read at entry position + its own offset."""
    leaf = col[1]
    m = [y for y in subterms(leaf) if y.op == "mcall" and "unpack" in y.args]
    ev = [e for e in mcalls(i, "unpack") if any(strip(e.result) is strip(y) for y in m)]
    if not ev:
        return
    sk = [e for e in mcalls(i, "seek") if e.seq < ev[0].seq]
    if not sk:
        r.und(f"{what}: position", ev[0].where())
        return
    a = norm(sk[-1].args[0])
    def test(a, _):
        own = lambda x: x.op == "index" and is_const(x.args[1], col[0]) and tm.mentions(x, lambda y: y.op == "mcall" and "unpack" in y.args)
        return a.op == "bin" and a.args[0] == "+" and len(a.args) == 3 and any(own(x) for x in a.args[1:]) \
            and any(x.op == "mcall" and "tell" in x.args for x in a.args[1:])
    good = by_cases([a, col[1]], test, norm(sk[-1].guard))
    r.ob(good, f"{what} read at the entry position plus its own offset", sk[-1].where(), text(a))
