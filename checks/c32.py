"""C32: extracted meshes are well-formed and self-consistent."""
import struct
from vfa.q import *
from vfa.q import _fold as fold1
from vfa.sim import Obj
from vfa.tape import Play, Stream
from vfa import terms as tm

RULE = """The mesh reader is interpreted and specialised for every supported major version and vertex kind: the reads must follow the layout of that version, each vertex attribute must come from its place in the vertex, and
the vertices and indices of each sub-mesh, evaluated on the terms of the analysis for several ranges, must be exactly those of its range, with indices rebased to the sub-mesh. The produced text is decomposed in its parts:
for each vertex exactly one `v`, `vt` and `vn` line (in this order) with the position, texture coordinates and normal of that vertex; for each three consecutive indices one `f` line whose three groups repeat the same index,
separated by slashes; nothing else. The exporter must write the text of each sub-mesh into the file of that sub-mesh."""

LAYOUT, ATTRS, RANGE, REJECT, VERTEX, FACE, FILES = ("the layout of the version is read", "vertex attributes are read from their place", "each sub-mesh gets its own range", "other files are rejected",
                                                    "vertex lines carry the attributes of each vertex", "face lines repeat each index for the three lists", "each sub-mesh is written to its own file")
MESH, TEXT = "a sample file is decoded into its sub-meshes", "the text of a sample sub-mesh is complete"
SELF = mk("param", "self")
INIT = "sknfile.SknFile.__init__"
OBJ = "sknfile.SknFile.to_obj"
MAGIC = b"\x33\x22\x11\x00"


def check(c):
    f = c.prog.func(INIT)
    if f is None:
        c.r.und(LAYOUT, INIT, "not found")
    else:
        reading(c, f)
        c.part(sample_files)
    f = c.prog.func(OBJ)
    if f is None:
        c.r.und(FACE, OBJ, "not found")
    else:
        text_of(c, f)
        c.part(sample_texts)
    files(c)


# ---------------------------------------------------------------- samples

class Reading(Play):
    cells = True

    def __init__(self, i, f, data):
        self.f = f
        self.one = Stream(data)
        super().__init__(i, self.look)

    def stream(self, recv, make=True):
        v = self.value(recv)
        return self.one if isinstance(v, Obj) and v.name == "stream" else None

    def look(self, sim, x, nothing):
        op, a = x.op, x.args
        if x is self.f:
            return Obj("stream")
        if op == "isinst" and isinstance(sim.value(a[0]), Obj):
            return False
        if op == "hasattr" and a[0] is SELF:
            return False        # what is set on the way, the analysis knows
        if op == "attr" and a[0] is SELF:
            raise Fails
        return nothing


def vertex(k):
    """What is stored of the k-th vertex."""
    return {"position": (k + 0.5, -k * 2.0, k * 0.25), "normal": (k * 0.5, 1.0, -k - 0.125), "uv": (k * 0.125, 1 - k * 0.25)}


def file_of(major, vtype, objects, idx, nvert):
    out = MAGIC + struct.pack("<HH", major, 1)
    if major:
        out += struct.pack("<I", len(objects)) + b"".join(struct.pack("<64sIIII", n.encode() + b"\0junk", *o) for n, *o in objects)
    if major == 4:
        out += struct.pack("<I", 77)
    out += struct.pack("<II", len(idx), nvert)
    if major == 4:
        out += struct.pack("<II10f", {0: 52, 1: 56, 2: 72}[vtype], vtype, *range(10))
    out += struct.pack(f"<{len(idx)}H", *idx)
    for k in range(nvert):
        v = vertex(k)
        out += struct.pack("<3f4B4f3f2f", *v["position"], 1, 2, 3, 4, 5, 6, 7, 8, *v["normal"], *v["uv"])
        out += struct.pack("<4B", 9, 10, 11, 12) if vtype and vtype >= 1 else b""
        out += struct.pack("<4f", 13, 14, 15, 16) if vtype == 2 else b""
    return out + b"tail"


def sample_files(c):
    cls = c.prog.cls("sknfile.SknFile")
    f = cls.method("__init__")
    i = c.run(f, self_type=cls, nesting=3)
    src = mk("param", f.node.args.args[1].arg)
    for major in (0, 1, 2, 4):
        for vtype in ((0, 1, 2) if major == 4 else (None,)):
            for objects, nvert in SAMPLES:
                if major == 0:
                    objects = [(0, nvert, 0, 12)]
                idx = [0] * (12 if major == 0 else 24)
                for sv, vc, si, ic in objects:
                    for k in range(ic):
                        idx[si + k] = sv + (k * 2 + 1) % vc
                named = [(f"part{k}.é" if k else "a b", *o) for k, o in enumerate(objects)]
                where = f"{f.loc} (version {major}" + (f", vertex type {vtype}" if vtype is not None else "") + f", {len(objects)} sub-meshes, {nvert} vertices)"
                try:
                    sim = Reading(i, src, file_of(major, vtype, named, idx, nvert))
                    e = sim.play()
                    if e is not None:
                        c.r.bad(MESH, where, f"is refused: {e.name}")
                        continue
                    t = i.st.store.get(("f", SELF, "entries"))
                    if t is None:
                        raise Unknown
                    got = sim.value(i.snap(t))
                    if not isinstance(got, (list, tuple)) or any(not isinstance(x, dict) for x in got):
                        raise Unknown
                    got = [{k: plain(x.get(k)) for k in ("name", "vertices", "indices")} for x in got]
                except Unknown:
                    c.r.und(MESH, where, "not understood")
                    continue
                except Fails:
                    c.r.bad(MESH, where, "raises an error")
                    continue
                want = [{"name": n if major else "Unknown", "vertices": [vertex(k) for k in range(sv, sv + vc)], "indices": [idx[k] + 1 - sv for k in range(si, si + ic)]} for n, sv, vc, si, ic in named]
                bad = next(((n, k, g, w) for n, (x, y) in enumerate(zip(got, want)) for k in y if (g := x[k]) != (w := y[k])), None)
                if len(got) != len(want):
                    c.r.bad(MESH, where, f"{len(got)} sub-meshes")
                else:
                    c.r.ob(bad is None, MESH, where, "" if bad is None else f"sub-mesh {bad[0]}: {bad[1]} are {str(bad[2])[:120]}, not {str(bad[3])[:120]}")


def plain(v):
    """A value without what is not compared."""
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, dict) for x in v):
        return [{k: tuple(x[k]) if isinstance(x.get(k), (list, tuple)) else x.get(k) for k in ("position", "normal", "uv")} for x in v]
    return list(v) if isinstance(v, (list, tuple)) else v


def sample_texts(c):
    f = c.prog.func(OBJ)
    i = c.run(f, self_type=c.prog.cls("sknfile.SknFile"))
    src = mk("param", f.node.args.args[-1].arg)
    for nvert, idx in ((3, (1, 2, 3)), (5, (1, 3, 2, 5, 4, 3, 1, 1, 5)), (1, ()), (4, (4, 3, 2, 2, 1, 4)), (0, ())):
        vs = [vertex(k + 2) for k in range(nvert)]
        where = f"{f.loc} ({nvert} vertices, {len(idx) // 3} faces)"
        data = {"name": "x", "vertices": tuple(vs), "indices": tuple(idx)}
        try:
            sim = Play(i, lambda sim, x, nothing: data if x is src else nothing)
            e = sim.play()
            got = sim.value(i.snap(i.result)) if e is None else None
        except Unknown:
            c.r.und(TEXT, where, "not understood")
            continue
        except Fails:
            c.r.bad(TEXT, where, "raises an error")
            continue
        if not isinstance(got, str):
            c.r.bad(TEXT, where, f"is refused: {e.name}" if e is not None else f"the text is {got!r}")
            continue
        lines = [l.split() for l in got.split("\n") if l.split() and not l.startswith("#")]
        try:
            have = {k: [tuple(map(float, l[1:])) for l in lines if l[0] == k] for k in ("v", "vt", "vn")}
            faces = [tuple(tuple(map(int, g.split("/"))) for g in l[1:]) for l in lines if l[0] == "f"]
        except ValueError:
            c.r.bad(TEXT, where, f"the text is {got[:150]!r}")
            continue
        want = {"v": [v["position"] for v in vs], "vt": [v["uv"] for v in vs], "vn": [v["normal"] for v in vs]}
        other = [l for l in lines if l[0] not in (*want, "f")]
        wrong = next((k for k in want if have[k] != want[k]), None)
        fw = [tuple((n, n, n) for n in idx[k:k + 3]) for k in range(0, len(idx), 3)]
        c.r.ob(wrong is None and faces == fw and not other, TEXT, where, f"{wrong!r} lines are {have[wrong]} for {want[wrong]}"[:200] if wrong else f"faces are {faces} for {fw}"[:200] if faces != fw else f"also holds {other[0]}" if other else "")


# ---------------------------------------------------------------- reading

class Mesh:
    """Reads and terms for one major version and vertex type."""

    def __init__(self, i, major, vtype):
        self.i, self.major, self.vtype = i, major, vtype
        self.segs, self.at, self.memo = [], {}, {}
        self.problem = None
        for e in i.events:
            if e.kind != "mcall" or e.name not in ("read", "seek"):
                continue
            g = self.sub(e.guard)
            if g is FALSE:
                continue
            if g is not TRUE:
                self.problem = e, f"read only if {text(g)[:100]}"
                return
            loops = tuple(self.sub(l) for l in e.loops)
            n = self.sub(e.args[0]) if e.args else NONE
            if e.name == "seek" and not (len(e.args) > 1 and is_const(e.args[1], 1)) or n.op != "const" or not isinstance(n.args[0], int):
                self.problem = e, f"{e.name} of {text(n)[:60]}"
                return
            if not self.segs or self.segs[-1][0] != loops:
                self.segs.append([loops, 0])
            res = self.sub(e.result)
            self.at[e.result] = self.at[res] = (len(self.segs) - 1, self.segs[-1][1])
            self.segs[-1][1] += n.args[0]
            self.memo = {}

    def rule(self, x):
        if x.op == "ok":
            return TRUE
        if x.op == "exc":
            return FALSE
        if x.op == "isinst" and x.args[0] is mk("param", "file"):
            return TRUE
        if x.op == "truthy" and x.args[0].op == "hasattr" and x.args[0].args[1] == "vertex_type":
            return TRUE if self.major == 4 else FALSE
        if x in self.at and self.at[x] == (0, 0):
            return const(MAGIC)
        if x.op == "fld":
            p = fld_place(x)
            if p is not None and p[0] in self.at:
                seg, off = self.at[p[0]]
                off += p[1]
                if seg == 0 and off == 4:
                    return const(self.major)
                if self.major == 4 and seg == 2 and off == 16:
                    return const(self.vtype)
        return fold1(x)

    def sub(self, t):
        return tm.rewrite(t, self.rule, self.memo)

    def place(self, t):
        """(segment, offset, format) of a field or of an unpacked tuple."""
        if t.op == "fld":
            p = fld_place(t)
            if p is not None and p[0] in self.at:
                seg, off = self.at[p[0]]
                return seg, off + p[1], p[2]
        if t.op == "unpack" and t.args[1] in self.at and t.args[0].op == "const":
            return (*self.at[t.args[1]], t.args[0].args[0])
        if t.op == "tuple" and t.args and all(x.op == "fld" for x in t.args):
            ps = [self.place(x) for x in t.args]
            if all(ps) and all(p[0] == ps[0][0] for p in ps) and [p[1] for p in ps] == [ps[0][1] + k * struct.calcsize("<" + p[2]) for k, p in enumerate(ps)]:
                return ps[0][0], ps[0][1], "<" + "".join(p[2] for p in ps)
        return None


def reading(c, f):
    r = c.r
    i = c.run(f)
    for major in (0, 1, 2, 4):
        for vtype in ((0, 1, 2) if major == 4 else (None,)):
            what = f"version {major}" + (f", vertex type {vtype}" if vtype is not None else "")
            m = Mesh(i, major, vtype)
            if m.problem:
                r.und(LAYOUT, m.problem[0].where(), f"{what}: {m.problem[1]}")
                continue
            if layout(r, f, m, what):
                attributes(r, f, m, what)
                ranges(r, f, m, what)
    # rejection: every read but the first and every stored attribute is under the magic test
    first = next((e for e in i.events if e.kind == "mcall" and e.name == "read"), None)
    if first is None:
        r.und(REJECT, f.loc, "nothing read")
        return
    m = Mesh(i, 4, 0)
    for bad in (b"\0\0\0\0", b"TEX\0", b""):
        rule = lambda x: const(bad) if x is first.result else fold1(x)
        memo = {}
        g = lambda t: tm.rewrite(t, rule, memo)
        raised = [e for e in i.events if e.kind == "raise" and g(e.guard) is TRUE and not e.loops]
        done = [e for e in i.events if e.kind == "setattr" and e.name == "entries" and g(e.guard) is not FALSE]
        if not raised and done:
            r.ob(False if all(g(e.guard) is TRUE or m.sub(g(e.guard)) is TRUE for e in done) or not any(e.kind == "raise" for e in i.events) else None, REJECT, done[0].where(), f"a file starting with {bad!r} is decoded")
            break
    else:
        r.ok(REJECT, first.where(), "decoded only after the signature")


def layout(r, f, m, what):
    segs = m.segs
    v = {None: 52, 0: 52, 1: 56, 2: 72}[m.vtype]
    want = [("", 16), ("loop", 2), ("loop", v)] if m.major == 0 else [("", 12), ("loop", 80), ("", 8 if m.major < 4 else 60), ("loop", 2), ("loop", v)]
    got = [("loop" if l else "", n) for l, n in segs]
    if got != want:
        r.bad(LAYOUT, f.loc, f"{what}: reads {got}, expected {want}")
        return False
    # counts of the loops
    if m.major == 0:
        counts = {1: (0, 8), 2: (0, 12)}
    else:
        k = 4 if m.major == 4 else 0
        counts = {1: (0, 8), 3: (2, k), 4: (2, k + 4)}
    for s, (seg, off) in counts.items():
        l = segs[s][0]
        n = trips(l[-1]) if len(l) == 1 else None
        p = m.place(n) if n is not None else None
        if p is None:
            r.und(LAYOUT, f.loc, f"{what}: repeated {[text(x)[:80] for x in l]}")
            return False
        if p[:2] != (seg, off) or p[2] not in "IL":
            r.bad(LAYOUT, f.loc, f"{what}: repeated as many times as the field at {p}, expected {(seg, off)}")
            return False
    r.ok(LAYOUT, f.loc, what)
    return True


def trips(l):
    if l.op != "loop" or l.args[0].op != "rng":
        return None
    a = l.args[0].args
    if not is_const(a[0], 0) or len(a) > 2 and not is_const(a[2], 1):
        return None
    return a[1]


def vertex_dict(i, m, seg):
    """Terms of the decoded vertex: dicts holding a position read in the vertex segment."""
    out = []
    for t in subterms(mk("tuple", *[m.sub(x) for e in i.events if m.sub(e.guard) is not FALSE for x in (e.args or []) if isinstance(x, T)])):
        if t.op == "dict" and any(p.op == "pair" and is_const(p.args[0], "position") for p in t.args):
            out.append(t)
    out = list(dict.fromkeys(out))
    return [t for t in out if not any(t is not y and tm.mentions(y, lambda z: z is t) for y in out)] if len(out) > 1 else out


def attributes(r, f, m, what):
    seg = len(m.segs) - 1
    ds = vertex_dict(m.i, m, seg)
    if len(ds) != 1:
        r.und(ATTRS, f.loc, f"{what}: {len(ds)} kinds of vertices")
        return
    m.vertex = ds[0]
    pairs = {p.args[0].args[0]: p.args[1] for p in ds[0].args if p.op == "pair" and p.args[0].op == "const"}
    for k, off, fmt in (("position", 0, "fff"), ("normal", 32, "fff"), ("uv", 44, "ff")):
        p = m.place(pairs[k]) if k in pairs else None
        if p is None:
            r.und(ATTRS, f.loc, f"{what}: {k} is {text(pairs.get(k, NONE))[:80]}")
        elif (p[0], p[1]) != (seg, off) or p[2].lstrip("<").replace("3f", "fff").replace("2f", "ff") != fmt:
            r.bad(ATTRS, f.loc, f"{what}: {k} is read at offset {p[1]} as {p[2]!r}, expected {off} as {fmt!r}")
        else:
            r.ok(ATTRS, f.loc, f"{what}: {k} at offset {off}")


class Env:
    """Evaluation of collection terms for chosen contents of the file."""

    def __init__(self, m, objects, indices, nvert):
        self.m = m
        self.objects, self.indices, self.nvert = objects, indices, nvert
        self.iters = {}      # segment -> current iteration
        self.binds = {}      # element term -> value

    def leaf(self, t, nothing):
        if t in self.binds:
            return self.binds[t]
        m = self.m
        if t is m.vertex:
            s = len(m.segs) - 1
            return ("vertex", self.iters.get(s))
        p = m.place(t) if t.op == "fld" else None
        if p is not None:
            seg, off = p[:2]
            if m.major and seg == 1:
                o = self.objects[self.iters[1]] if 1 in self.iters else None
                k = {64: 0, 68: 1, 72: 2, 76: 3}.get(off)
                if o is None or k is None:
                    raise Unknown
                return o[k]
            if m.segs[seg][1] == 2 and m.segs[seg][0]:
                if seg not in self.iters:
                    raise Unknown
                return self.indices[self.iters[seg]]
            cnt = {(0, 8): len(self.indices), (0, 12): self.nvert} if m.major == 0 else {(0, 8): len(self.objects), (2, 4 if m.major == 4 else 0): len(self.indices), (2, 8 if m.major == 4 else 4): self.nvert}
            if (seg, off) in cnt:
                return cnt[seg, off]
            raise Unknown
        if t.op in ("build", "slice", "rng"):
            return self.list(t)
        if t.op == "call" and t.args[0] == "len":
            return len(self.list(t.args[1]))
        if t.op == "call" and t.args[0] in ("list", "tuple"):
            return self.list(t.args[1])
        return nothing

    def value(self, t):
        return calc(t, self.leaf)

    def list(self, t):
        if t.op == "slice":
            b = self.list(t.args[0])
            return b[slice(*[self.value(x) for x in t.args[1:]])]
        if t.op == "rng":
            return list(range(*[self.value(x) for x in t.args]))
        if t.op in ("list", "tuple"):
            return [self.value(x) for x in t.args]
        if t.op == "call" and t.args[0] in ("list", "tuple") and len(t.args) == 2:
            return self.list(t.args[1])
        es = tm.entries_of(t)
        if es is None:
            raise Unknown
        out = []
        for e in es:
            if e.op != "entry":
                raise Unknown
            self.each(e.args[0].args, lambda: out.append(self.value(e.args[2])) if self.value(e.args[1]) else None)
        return out

    def each(self, loops, f):
        if not loops:
            f()
            return
        l = loops[0]
        if l.op != "loop" or len(l.args) > 2:
            raise Unknown
        seg = next((k for k, s in enumerate(self.m.segs) if s[0] and s[0][-1] is l), None)
        el = mk("elem", l.args[0], l.args[1])
        old, oldb = dict(self.iters), dict(self.binds)
        for k, x in enumerate(self.list(l.args[0])):
            self.binds[el] = x
            if seg is not None:
                self.iters[seg] = k
            self.each(loops[1:], f)
        self.iters, self.binds = old, oldb


SAMPLES = [([(0, 3, 0, 6)], 9), ([(0, 4, 0, 3), (4, 3, 3, 9)], 8), ([(2, 3, 6, 3), (5, 2, 0, 6), (0, 2, 9, 3)], 7), ([(7, 1, 3, 0), (1, 6, 0, 9)], 8)]


def ranges(r, f, m, what):
    if not hasattr(m, "vertex"):
        return
    i = m.i
    loc = f.loc
    got = {}
    if m.major == 0:
        v = next((m.sub(e.args[0]) for e in reversed(i.events) if e.kind == "setattr" and e.name == "entries" and m.sub(e.guard) is TRUE), None)
        es = tm.entries_of(v) if v is not None and v.op != "list" else [mk("entry", mk("loops"), TRUE, x, NONE) for x in v.args] if v is not None else None
        if es is None or len(es) != 1 or es[0].args[0].args or es[0].args[2].op != "dict":
            (r.bad if es is not None and not es else r.und)(RANGE, loc, f"{what}: sub-meshes are {text(v)[:100] if v is not None else None}")
            return
        for p in es[0].args[2].args:
            if p.op == "pair" and p.args[0].op == "const":
                got[p.args[0].args[0]] = (p.args[1], ())
    else:
        final = next((m.sub(e.args[0]) for e in reversed(i.events) if e.kind == "setattr" and e.name == "entries" and m.sub(e.guard) is TRUE), None)
        es = tm.entries_of(final) if final is not None else None
        if es is not None and len(es) == 1 and es[0].args[2].op == "dict":
            for p in es[0].args[2].args:
                if p.op == "pair" and p.args[0].op == "const":
                    got[p.args[0].args[0]] = (p.args[1], es[0].args[0].args)
        for e in i.events:
            if e.kind == "setitem" and e.args and e.args[0].op == "const" and e.args[0].args[0] in ("vertices", "indices"):
                g = m.sub(e.guard)
                if g is FALSE:
                    continue
                if g is not TRUE:
                    r.und(RANGE, e.where(), f"{what}: {e.args[0].args[0]} set only if {text(g)[:80]}")
                    return
                got[e.args[0].args[0]] = (m.sub(e.args[1]), tuple(m.sub(l) for l in e.loops))
                loc = e.where()
    if "vertices" not in got or "indices" not in got:
        r.und(RANGE, loc, f"{what}: vertices or indices of the sub-meshes are not set")
        return
    for objects, nvert in SAMPLES:
        if m.major == 0:
            objects = [(0, nvert, 0, 12)]
        idx = [0] * 24
        for sv, vc, si, ic in objects:
            for k in range(ic):
                idx[si + k] = sv + (k * 2 + 1) % vc
        for name, (t, loops) in got.items():
            if name not in ("vertices", "indices"):
                continue
            n_idx = idx[:12] if m.major == 0 else idx
            env = Env(m, objects, n_idx, nvert)
            out = []
            try:
                env.each(loops, lambda: out.append(env.list(t)))
            except (Unknown, Fails, KeyError, IndexError, TypeError) as e:
                r.und(RANGE, loc, f"{what}: {name} is {text(t)[:120]}")
                return
            want = [[("vertex", k) for k in range(sv, sv + vc)] if name == "vertices" else [n_idx[k] + 1 - sv for k in range(si, si + ic)] for sv, vc, si, ic in objects]
            out = [[tuple(x) if isinstance(x, list) else x for x in o] for o in out]
            if out != want:
                r.bad(RANGE, loc, f"{what}: for sub-meshes {objects} (start and count of vertices and indices) over indices {n_idx}, {name} are {out}, expected {want}")
                return
    r.ok(RANGE, loc, f"{what}: vertices and indices of each sub-mesh")


# ---------------------------------------------------------------- text

def text_of(c, f):
    r = c.r
    i = c.run(f)
    entry = mk("param", f.node.args.args[-1].arg)
    d = doc(i, strip_epoch(norm(i.result)))
    if d is None:
        r.und(FACE, f.loc, f"the text is {text(i.result)[:120]}")
        return
    verts, faces = [], []
    for x in d:
        if isinstance(x, str) and not x.strip():
            continue
        if not isinstance(x, tuple) or len(x[1]) != 1 or x[2] is not TRUE:
            if isinstance(x, str):
                r.bad(FACE, f.loc, f"the text also holds {x[:60]!r}")
            else:
                r.und(FACE, f.loc, f"part {str(x)[:120]}")
            return
        lines = split(x[3] + ([x[4]] if x[4] else []))
        if lines is None:
            known = all(isinstance(p, str) or isinstance(p, T) and p.op in ("index", "fmt") for p in x[3])
            (r.bad if known else r.und)(FACE, f.loc, "parts do not end with a line break")
            return
        for l in lines:
            if not l or not isinstance(l[0], str):
                r.und(FACE, f.loc, f"line {str(l)[:100]}")
                return
            kind = l[0].split(" ")[0]
            if kind in ("v", "vt", "vn"):
                verts.append((kind, l, x[1][0]))
            elif kind == "f":
                faces.append((l, x[1][0]))
            else:
                r.bad(FACE, f.loc, f"lines starting with {l[0]!r}")
                return
    vertices(r, f, verts, entry)
    face(r, f, faces, entry)


def split(parts):
    """Lines of a sequence of parts, each ended by a line break."""
    lines, cur = [], []
    for p in parts:
        if isinstance(p, tuple):
            return None
        if isinstance(p, str):
            bits_ = p.split("\n")
            for k, b in enumerate(bits_):
                if k:
                    lines.append(cur)
                    cur = []
                if b:
                    cur = cur + [b]
        else:
            cur = cur + [p]
    return None if cur else lines


def tokens(line):
    """Blank-separated tokens of a line, as lists of parts."""
    out, cur = [], []
    for p in line:
        if isinstance(p, str):
            ws = p.split(" ")
            for k, w in enumerate(ws):
                if k:
                    if cur:
                        out.append(cur)
                    cur = []
                if w:
                    cur = cur + [w]
        else:
            cur = cur + [p]
    if cur:
        out.append(cur)
    return out


def vertices(r, f, verts, entry):
    coll = mk("index", entry, const("vertices"))
    want = {"v": ("position", 3), "vt": ("uv", 2), "vn": ("normal", 3)}
    for kind, (attr, n) in want.items():
        ls = [x for x in verts if x[0] == kind]
        if len(ls) != 1:
            (r.bad if len(ls) > 1 or not any(x[0] == kind for x in verts) and verts else r.und)(VERTEX, f.loc, f"{len(ls)} {kind!r} lines for each vertex")
            continue
        _, line, loop = ls[0]
        loop = canon(strip_epoch(loop))
        if not (loop.op == "loop" and len(loop.args) == 2 and same(loop.args[0], coll)):
            bad = loop.op == "loop" and (len(loop.args) > 2 or loop.args[0].op in ("slice", "rev", "sorted"))
            (r.bad if bad else r.und)(VERTEX, f.loc, f"{kind!r} lines are written over {text(loop)[:80]}")
            continue
        el = mk("elem", loop.args[0], loop.args[1])
        toks = tokens(line)[1:]
        vals = []
        for t in toks:
            x = canon(strip_epoch(t[0])) if len(t) == 1 and isinstance(t[0], T) else None
            if x is not None and x.op == "fmt":
                if is_const(x.args[1]) and str(x.args[1].args[0])[-1:] in "dixX":
                    r.bad(VERTEX, f.loc, f"{kind!r}: formatted with {x.args[1].args[0]!r}")
                x = x.args[0]
            if x is not None and x.op == "index" and x.args[0].op == "rev" and x.args[1].op == "const" and x.args[1].args[0] in range(n):
                x = mk("index", x.args[0].args[0], const(n - 1 - x.args[1].args[0]))
            vals.append(x)
        exp = [mk("index", mk("index", el, const(attr)), const(k)) for k in range(n)]
        if any(v is None for v in vals):
            r.und(VERTEX, f.loc, f"{kind!r} line {str(line)[:120]}")
        elif len(vals) != n or any(not same(v, e) for v, e in zip(vals, exp)):
            known = all(v.op == "index" and v.args[1].op == "const" and v.args[0].op == "index" and v.args[0].args[0] is el for v in vals)
            (r.bad if known else r.und)(VERTEX, f.loc, f"{kind!r} line writes {[text(v)[:40] for v in vals]}, expected the {n} components of {attr!r}")
        else:
            r.ok(VERTEX, f.loc, f"{kind!r} writes {attr!r}")
    order = [x[0] for x in verts]
    if sorted(order) == ["v", "vn", "vt"] and len({x[2] for x in verts}) == 1 and order != ["v", "vt", "vn"]:
        r.bad(VERTEX, f.loc, f"lines are written in the order {order}")


class Pos:
    """Positions, in the list of indices, of what is written in the k-th face."""

    def __init__(self, coll, n, loop, k):
        self.coll, self.n = coll, n
        self.el, self.cur = mk("elem", loop.args[0], loop.args[1]), None
        self.loop = loop
        seq = self.seq(loop.args[0])
        self.count = len(seq)
        if 0 <= k < len(seq):
            self.cur = seq[k]

    def leaf(self, t, nothing):
        if t is self.el:
            return self.cur
        if t.op == "call" and t.args[0] == "len" and same(t.args[1], self.coll):
            return self.n
        if same(t, self.coll):
            return list(range(self.n))
        if t.op in ("slice", "zip", "rng") or t.op == "call" and t.args[0] in ("zip", "list", "tuple"):
            return self.seq(t)
        if t.op == "zelem":
            return self.zel(t)
        return nothing

    def zel(self, t):
        if t.args[0] is self.loop.args[0] and isinstance(self.cur, tuple):
            return self.cur[t.args[2].args[0] if isinstance(t.args[2], T) else t.args[2]]
        raise Unknown

    def seq(self, t):
        if same(t, self.coll):
            return list(range(self.n))
        if t.op == "slice":
            return list(self.seq(t.args[0]))[slice(*[calc(x, self.leaf) for x in t.args[1:]])]
        if t.op == "rng":
            return list(range(*[calc(x, self.leaf) for x in t.args]))
        if t.op in ("zip",) or t.op == "call" and t.args[0] == "zip":
            return list(zip(*[self.seq(x) for x in t.args if isinstance(x, T) and x.op != "uid"][0 if t.op == "zip" else 0:]))
        if t.op == "call" and t.args[0] in ("list", "tuple", "iter") and len(t.args) == 2:
            return self.seq(t.args[1])
        raise Unknown


def face(r, f, faces, entry):
    coll = mk("index", entry, const("indices"))
    if len(faces) != 1:
        (r.bad if not faces else r.und)(FACE, f.loc, f"{len(faces)} kinds of face lines")
        return
    line, loop = faces[0]
    loop = strip_epoch(loop)
    toks = tokens(line)[1:]
    if loop.op != "loop" or len(loop.args) > 2:
        r.und(FACE, f.loc, f"faces are written over {text(loop)[:80]}")
        return
    if len(toks) != 3:
        r.bad(FACE, f.loc, f"a face has {len(toks)} groups")
        return
    for n in (3, 9, 12):
        for k in range(n // 3):
            try:
                p = Pos(coll, n, loop, k)
                if p.count != n // 3:
                    r.bad(FACE, f.loc, f"{p.count} faces are written for {n} indices")
                    return
            except (Unknown, Fails, TypeError, ValueError):
                r.und(FACE, f.loc, f"faces are written over {text(loop)[:80]}")
                return
            for j, t in enumerate(toks):
                if len(t) != 5 or t[1] != "/" or t[3] != "/":
                    shape = "".join(x if isinstance(x, str) else "#" for x in t)
                    (r.bad if shape != "#" else r.und)(FACE, f.loc, f"group {j + 1} of a face is written as {shape!r}, expected '#/#/#'")
                    return
                for x in t[::2]:
                    if not isinstance(x, T):
                        r.bad(FACE, f.loc, f"group {j + 1} holds {x!r}")
                        return
                    x = strip_epoch(x)
                    while x.op == "fmt":
                        x = x.args[0]
                    try:
                        got = calc(x, p.leaf)
                    except (Unknown, Fails):
                        r.und(FACE, f.loc, f"group {j + 1} holds {text(x)[:80]}")
                        return
                    if got != 3 * k + j:
                        r.bad(FACE, f.loc, f"face {k + 1}, group {j + 1} refers to index number {got}, expected {3 * k + j}: {text(x)[:80]}")
                        return
    r.ok(FACE, f.loc, "three groups '#/#/#' of consecutive indices")


# ---------------------------------------------------------------- files

def files(c):
    r = c.r
    conv = [f for f in c.prog.funcs.values() if f.cls is not None and f.node.name == "convert" and any(g.endswith("SknFile") for g in names(f))]
    if not conv:
        r.und(FILES, "export", "no converter of meshes")
    for f in conv:
        i = c.run(f, opaque=[OBJ, INIT])
        found = False
        for e in i.events:
            if not (is_write_open(e) and any(x.op == "attr" and x.args[1] == "entries" for l in e.loops for x in subterms(l))):
                continue
            ws = written(i, e.result)
            if not ws:
                continue
            found = True
            ent = [l for l in e.loops]
            if len(ent) != 1 or ent[0].op != "loop" or ent[0].args[0].op != "attr":
                (r.bad if ent and ent[0].op == "loop" and ent[0].args[0].op == "slice" else r.und)(FILES, e.where(), f"written over {[text(l)[:60] for l in ent]}")
                continue
            el = mk("elem", ent[0].args[0], ent[0].args[1])
            name = strip_epoch(e.args[0])
            if not tm.mentions(name, lambda y: y.op == "index" and strip_epoch(y.args[0]) is strip_epoch(el) and is_const(y.args[1], "name")):
                r.bad(FILES, e.where(), f"the name {text(name)[:80]} does not hold the name of the sub-mesh")
            elif len(ws) != 1 or ws[0][0] != e.loops:
                r.und(FILES, e.where(), f"{len(ws)} writes")
            else:
                v = strip_epoch(ws[0][2])
                if v.op == "call" and str(v.args[0]).endswith("to_obj") and len(v.args) >= 3 and v.args[2] is strip_epoch(el):
                    r.ok(FILES, e.where(), "text of the sub-mesh")
                else:
                    (r.bad if v.op == "call" and str(v.args[0]).endswith("to_obj") else r.und)(FILES, e.where(), f"writes {text(v)[:100]}")
        if not found:
            r.und(FILES, f.loc, "no file written for sub-meshes")


def names(f):
    import ast
    return [n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)] + [n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)]
