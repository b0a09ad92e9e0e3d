"""C27: every BIN value type has a reader of the right width."""
import ast
from vfa.q import *

RULE = """For each member of the enumeration of BIN types, the value reader is analysed with that type as argument, recursive reads being opaque. The sequence of reads it makes on the file, for each outcome of the conditions on the header (null structure or not,
option set or not), is laid out as byte positions, and must be that of the type: the exact number of bytes, the values decoded from exactly these bytes with the right sign, kind and byte order, and for containers the header followed by as many elements or
fields as its count says, each read with the type found in the header, all kept in order. The same is done for fields, entries (which must be refused when the length read is not the length consumed), the header and the patch section."""

OP = {"binfile.BinReader.read_bvalue", "binfile.BinReader.read_field"}
VAL, FIELD = "repo:binfile.BinReader.read_bvalue", "repo:binfile.BinReader.read_field"
SELF = mk("param", "self")
F = mk("attr", SELF, "f")
HAS, BYTES, VALUE, REJECT = "the type has a reader", "a value of the type takes its own number of bytes", "a value is decoded from its own bytes", "an entry of the wrong length is refused"

SCALARS = {  # name: (kind, bytes)
    "BOOL": ("bool", 1), "S8": ("int", 1), "U8": ("uint", 1), "S16": ("int", 2), "U16": ("uint", 2), "S32": ("int", 4), "U32": ("uint", 4), "S64": ("int", 8), "U64": ("uint", 8), "FLOAT": ("float", 4), "FLAG": ("uint", 1),
    "HASH": ("BinHashValue", 4), "PATH": ("BinPathValue", 8), "LINK": ("BinEntryPath", 4),
}
VECTORS = {"EMPTY": ("uint", 2, 3), "VEC2_FLOAT": ("float", 4, 2), "VEC3_FLOAT": ("float", 4, 3), "VEC4_FLOAT": ("float", 4, 4), "MATRIX4X4": ("float", 4, 16), "RGBA": ("uint", 1, 4)}


def members(c):
    k = c.prog.classes.get("BinType")
    k = k[0] if isinstance(k, list) else k
    if k is None:
        return None
    out = {}
    for s in k.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            out[s.targets[0].id] = (s.value.value, f"{k.module.rel}:{s.lineno}")
    return out


def check(c):
    r = c.r
    ms = members(c)
    if not ms or c.prog.func("binfile.BinReader.read_bvalue") is None:
        r.und(HAS, "binfile.BinType", "not found")
        return
    for name, (n, where) in ms.items():
        one(c, name, n, where)
    for q, fn in (("read_field", field), ("read_binfile_entry", entry), ("read_binfile_header", header), ("read_patch_section", patches)):
        if c.prog.func("binfile.BinReader." + q) is None:
            r.und(BYTES, "binfile.BinReader." + q, "not found")
        else:
            fn(c, "binfile.BinReader." + q)


# ---- reads, laid out

class Tape:
    """Reads of one path: items (loops, kind, term, event), positions of constant reads relative to the previous variable item."""

    def __init__(self, i, m, handle=F, other=()):
        self.m = {a: (TRUE if v else FALSE) for a, v in m.items()}
        self.items = []
        self.place = {}
        self.problem = None
        for e in i.events:
            w = self.sub(e.guard)
            if w is FALSE or not tm.satisfiable(w):
                continue
            loops = tuple(self.sub(l) for l in e.loops)
            if any(l.op == "loop" and l.args[0].op == "rng" and len(l.args[0].args) > 1 and l.args[0].args[0] is l.args[0].args[1] for l in loops):
                continue
            if e.kind == "mcall" and e.recv is not None and strip_epoch(e.recv) is handle:
                if e.name == "read":
                    n = self.sub(e.args[0]) if e.args else None
                    if n is None:
                        self.problem = e, "reads the rest of the file"
                        return
                    self.add(loops, n, e)
                elif e.name == "seek" and len(e.args) > 1 and is_const(e.args[1], 1):
                    self.add(loops, self.sub(e.args[0]), e)
                elif e.name == "tell":
                    pass
                else:
                    self.problem = e, f"calls {e.name} on the file"
                    return
                if w is not TRUE and not self.benign(w):
                    self.problem = e, f"read only if {text(w)[:80]}"
                    return
            elif e.kind == "call" and (e.name in (VAL, FIELD) or e.name in other):
                k = "value" if e.name == VAL else "field" if e.name == FIELD else e.name
                t = self.sub(e.args[1]) if len(e.args) > 1 else next(iter(self.sub(x) for x in e.kw.values()), None)
                self.items.append((loops, k, t, e))
                if w is not TRUE and not self.benign(w):
                    self.problem = e, f"read only if {text(w)[:80]}"
                    return

    def benign(self, w):
        return all(a.op == "ok" for a in tm.atoms(w))

    def sub(self, t):
        return tm.subst(t, self.m) if self.m else t

    def add(self, loops, n, e):
        off = 0
        if self.items and self.items[-1][1] == "bytes" and self.items[-1][0] == loops and n.op == "const":
            last = self.items.pop()
            off = last[2].args[0]
            self.items.append((loops, "bytes", const(off + n.args[0]), last[3]))
        else:
            self.items.append((loops, "bytes" if n.op == "const" else "data", n, e))
        if e.result is not None:
            self.place[e.result] = (self.items[-1][3].seq, off)

    def at(self, data):
        if data.op == "slice" and data.args[1].op == "const":
            p = self.at(data.args[0])
            lo = data.args[1].args[0] or 0
            return None if p is None or lo < 0 else (p[0], p[1] + lo)
        return self.place.get(data)

    def num(self, t):
        """(kind, item start, offset, width) of a number term."""
        t = self.sub(t)
        if t.op == "call" and t.args[0] == "bool" and len(t.args) == 2:
            k = self.num(t.args[1])
            return k and ("bool",) + k[1:]
        if t.op in ("truthy",):
            k = self.num(t.args[0])
            return k and ("bool",) + k[1:]
        if t.op == "not" and t.args[0].op == "==" and any(is_const(x, 0) for x in t.args[0].args):
            k = self.num(next(x for x in t.args[0].args if not is_const(x, 0)))
            return k and ("bool",) + k[1:]
        if t.op == "not" and t.args[0].op == "truthy":
            return None
        p = fld_place(t)
        if p is not None:
            data, off, ch, w, order = p
            q = self.at(data)
            if q is None:
                return None
            kind = "bool" if ch == "?" else "float" if ch in "efd" else "uint" if ch in "BHILQN" else "int" if ch in "bhilqn" else ch
            if order in "@=" or order in ">!" and w > 1:
                kind = "host " + kind if order in "@=" else "big-endian " + kind
            return kind, q[0], q[1] + off, w
        if t.op == "mcall" and t.args[1] == "from_bytes" or t.op == "call" and str(t.args[0]).endswith("from_bytes"):
            a = list(t.args[2:]) if t.op == "mcall" else list(t.args[1:])
            pos = [x for x in a if x.op not in ("kw", "uid")]
            kw = {x.args[0]: x.args[1] for x in a if x.op == "kw"}
            order = pos[1] if len(pos) > 1 else kw.get("byteorder")
            sg = kw.get("signed", FALSE)
            q = self.at(pos[0])
            ln = next((e for e in self.place if e is pos[0]), None)
            if q is None or ln is None or ln.op not in ("mcall", "call") or not is_const(order, "little"):
                return None
            size = next((x for x in ln.args if isinstance(x, T) and x.op == "const" and isinstance(x.args[0], int)), None)
            if size is None:
                return None
            return ("int" if is_const(sg, True) or sg is TRUE else "uint"), q[0], q[1], size.args[0]
        if t.op == "index" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int) and t.args[1].args[0] >= 0:
            q = self.at(t.args[0])
            return q and ("uint", q[0], q[1] + t.args[1].args[0], 1)
        b = bits(t, self.at)
        if b and all(isinstance(x, tuple) for x in b) and len(b) % 8 == 0 and [x[1] * 8 + x[2] for x in b] == list(range(b[0][1] * 8 + b[0][2], b[0][1] * 8 + b[0][2] + len(b))) and b[0][2] == 0:
            return "uint", b[0][0], b[0][1], len(b) // 8
        return None

    def flat(self, t):
        """Numbers of a tuple or list, nested ones included; None if not known."""
        t = self.sub(t)
        if t.op in ("tuple", "list"):
            out = []
            for x in t.args:
                y = self.flat(x)
                if y is None:
                    return None
                out += y
            return out
        if t.op == "slice" and len(t.args) >= 3 and all(isinstance(x, T) and x.op == "const" for x in t.args[1:]):
            y = self.flat(t.args[0])
            return None if y is None else y[slice(*[x.args[0] for x in t.args[1:]])]
        if t.op == "unpack" or t.op == "call" and t.args[0] == "struct.unpack":
            f, d = t.args[-2:] if t.op == "unpack" else t.args[1:3]
            f = f.args[0] if isinstance(f, T) and f.op == "const" else f
            if not isinstance(f, (str, bytes)):
                return None
            out = []
            while True:
                x = mk("fld", const(f), const(len(out)), d)
                if fmt_place(f, len(out), d) is None:
                    return out
                k = self.num(x)
                if k is None:
                    return None
                out.append(k)
        k = self.num(t)
        return None if k is None else [k]

    def show(self):
        return [(f"{it[2].args[0]} bytes" if it[1] == "bytes" else "data" if it[1] == "data" else it[1].rsplit(".")[-1]) + (" in a loop" if it[0] else "") for it in self.items]


# ---- values

def one(c, name, n, where):
    r = c.r
    q = "binfile.BinReader.read_bvalue"
    f = c.prog.func(q)
    ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    i = c.run(q, f"type {n}", args={ps[0]: const(n)}, opaque=OP)
    res = i.result
    raised = [e for e in i.events if e.kind == "raise" and e.guard is TRUE]
    if raised or res is None or is_const(res, None) and not i.events:
        r.bad(HAS, where, f"{name} has no reader")
        return
    if any(x.op == "missing" and x.args[0].op == "dict" for x in subterms(res)):
        r.bad(HAS, where, f"{name} has no reader")
        return
    if any(x.op in ("dyncall", "unknown", "missing") for x in subterms(res)) or res.op == "index":
        lk = next((x for x in subterms(res) if x.op == "index"), None)
        (r.bad if lk is not None and lk.args[0].op == "dict" or res.op == "dyncall" and res.args[0].op == "index" and res.args[0].args[0].op == "dict" else r.und)(HAS, where, f"{name}: {text(res)[:100]}")
        return
    r.ok(HAS, where, name)
    w = where
    for e in i.events:
        if e.kind == "enter" and e.name != "binfile.BinReader.read_fmt":
            g = c.prog.func(e.name)
            if g is not None:
                w = f"{g.module.rel}:{g.node.lineno} in {e.name}"
            break
    if name in SCALARS or name in VECTORS or name == "STRING":
        flat(c, name, i, w)
    elif name in CONTAINERS:
        CONTAINERS[name](c, i, w, name)
    else:
        r.und(BYTES, where, f"width of {name} not known")


def tape(c, i, m, w, fixed=True, **kw):
    t = Tape(i, m, **kw)
    if t.problem is not None:
        # a type of fixed layout: what is read does not depend on what was read
        g = t.sub(t.problem[0].guard)
        depends = fixed and t.problem[1].startswith("read only if") and any(x.op == "fld" and t.at(x.args[2]) for x in subterms(g))
        (c.r.bad if depends else c.r.und)(BYTES, w if depends else t.problem[0].where(), t.problem[1])
        return None
    return t


def flat(c, name, i, w):
    r = c.r
    t = tape(c, i, {}, w)
    if t is None:
        return
    if name == "STRING":
        ok = len(t.items) == 2 and t.items[0][1] == "bytes" and t.items[1][1] == "data"
        if not ok:
            (r.bad if all(it[1] == "bytes" for it in t.items) else r.und)(BYTES, w, f"{name}: {t.show()}")
            return
        k = t.num(t.items[1][2])
        good = k is not None and k[0] == "uint" and k[1:] == (t.items[0][3].seq, 0, 2) and t.items[0][2].args[0] == 2
        r.ob(good, BYTES, w, f"{name}: length is {k}") if k is not None or t.items[0][2].args[0] != 2 else r.und(BYTES, w, text(t.items[1][2])[:80])
        v = i.result
        dec = None
        if v.op == "mcall" and v.args[1] == "decode":
            dec = v.args[0]
            a = [x for x in v.args[2:] if x.op not in ("uid",)]
        elif v.op == "call" and v.args[0] == "str" and len(v.args) > 2:
            dec = v.args[1]
            a = [x for x in v.args[2:] if x.op != "uid"]
        if dec is None:
            (r.und if v.op not in ("mcall",) else r.bad)(VALUE, w, text(v)[:80])
            return
        enc = [x.args[1] if x.op == "kw" else x for x in a]
        names = [str(x.args[0]).lower().replace("-", "") for x in enc if x.op == "const"]
        r.ob(dec is t.items[1][3].result and (not names or names[0] in ("utf8",)), VALUE, w, f"{name}: {text(v)[-60:]}")
        return
    total = VECTORS[name][1] * VECTORS[name][2] if name in VECTORS else SCALARS[name][1]
    if any(it[1] in ("value", "field") for it in t.items):
        r.bad(BYTES, w, f"{name} is read as a container")
        return
    if len(t.items) != 1 or t.items[0][1] != "bytes" or t.items[0][0]:
        (r.bad if not t.items else r.und)(BYTES, w, f"{name}: {t.show()}")
        return
    n = t.items[0][2].args[0]
    r.ob(n == total, BYTES, w, f"{name} takes {total} bytes, {n} are read")
    if n != total:
        return
    v = i.result
    s = t.items[0][3].seq
    if name in VECTORS:
        kind, wd, cnt = VECTORS[name]
        got = t.flat(v)
        want = [(kind, s, k * wd, wd) for k in range(cnt)]
        if got is None:
            r.und(VALUE, w, f"{name}: {text(v)[:80]}")
        else:
            r.ob(got == want, VALUE, w, f"{name}: {describe(got, want)}")
        if name == "MATRIX4X4" and v.op in ("tuple", "list"):
            r.ob(len(v.args) == 4, VALUE, w, f"{name} has {len(v.args)} rows")
        return
    kind, wd = SCALARS[name]
    if kind.startswith("Bin"):
        ok, d = hashed(c, i, t, v, kind, wd, s, 0)
        if ok is None:
            r.und(VALUE, w, f"{name}: {d}")
        else:
            r.ob(ok, VALUE, w, f"{name}: {d}")
        return
    k = t.num(v)
    if k is None:
        r.und(VALUE, w, f"{name}: {text(v)[:80]}")
    elif k == ("bool", s, 0, 1) and name == "FLAG":
        r.und(VALUE, w, f"{name} is decoded as a boolean")
    else:
        r.ob(k == (kind, s, 0, wd), VALUE, w, f"{name}: {describe([k], [(kind, s, 0, wd)])}")


def describe(got, want):
    for a, b in zip(got, want):
        if a != b:
            return f"{a[0]} of {a[3]} bytes at {a[2]}, not {b[0]} of {b[3]} bytes at {b[2]}"
    return f"{len(got)} values, not {len(want)}" if len(got) != len(want) else f"{len(got)} x {want[0][0]} of {want[0][3]} bytes"


def class_of(v):
    if v.op == "obj":
        return str(v.args[0]).rsplit(".")[-1]
    return None


def hashed(c, i, t, v, kind, wd, s, off):
    cls = next((e for e in i.events if e.kind == "new" and e.recv is v), None)
    if cls is None:
        return None, text(v)[:80]
    if cls.name.rsplit(".")[-1] != kind:
        return False, f"a {cls.name}, not a {kind}"
    h = new_attrs(i, v).get("h")
    if h is None:
        return None, "hash not known"
    k = t.num(h)
    if k is None:
        return None, text(h)[:80]
    return k == ("uint", s, off, wd), describe([k], [("uint", s, off, wd)])


# ---- containers

def is_entries(t, loops_want, val):
    es = tm.entries_of(t)
    if es is None:
        return None
    if len(es) != 1:
        return False
    e = es[0]
    return tuple(e.args[0].args) == tuple(loops_want) and e.args[1] is TRUE and strip_uid(e.args[2]) is strip_uid(val)


def head(c, t, w, name, sizes):
    """Check the header size; start of the header or None."""
    r = c.r
    if not t.items or t.items[0][1] != "bytes" or t.items[0][0]:
        r.und(BYTES, w, f"{name}: {t.show()}")
        return None
    n = t.items[0][2].args[0]
    r.ob(n == sizes, BYTES, w, f"the header of {name} takes {sizes} bytes, {n} are read")
    return t.items[0][3].seq if n == sizes else None


def counted(c, t, w, name, items, s, off, wd):
    """The loop of the items is over the count found at the offset."""
    r = c.r
    loops = items[0][0]
    if any(it[0] != loops for it in items):
        r.und(BYTES, w, f"{name}: {t.show()}")
        return False
    if len(loops) != 1 or loops[0].op != "loop" or loops[0].args[0].op != "rng" or len(loops[0].args) > 2:
        if not loops:
            r.bad(BYTES, w, f"{name}: a single element is read")
        else:
            r.und(BYTES, w, f"{name}: {text(loops[0])[:80]}")
        return False
    rg = loops[0].args[0].args
    k = t.num(rg[1]) if len(rg) > 1 else None
    if k is None or not is_const(rg[0], 0) or len(rg) > 2 and not is_const(rg[2], 1):
        r.und(BYTES, w, f"{name}: number of elements {text(loops[0].args[0])[:80]}") if not (len(rg) > 1 and rg[1].op == "bin") else r.bad(BYTES, w, f"{name}: {text(loops[0].args[0])[:80]} elements")
        return False
    r.ob(k == ("uint", s, off, wd), BYTES, w, f"{name}: count is {describe([k], [('uint', s, off, wd)])}")
    return k == ("uint", s, off, wd)


def type_at(t, term, s, off):
    """Is the term computed from the type byte at the offset (and the version)?"""
    if term is None:
        return None
    srcs = set()
    for x in subterms(term):
        if x.op == "fld" or x.op == "index" and t.at(x.args[0]):
            srcs.add(t.num(x))
        if x.op == "param" and x is not SELF:
            srcs.add(("param", x.args[0]))
    if not srcs or None in srcs:
        return None
    return srcs == {("uint", s, off, 1)}


def typed(c, t, w, name, term, s, off):
    ok = type_at(t, term, s, off)
    if ok is None:
        c.r.und(VALUE, w, f"{name}: type of the elements {text(term)[:80] if term is not None else '?'}")
    else:
        c.r.ob(ok, VALUE, w, f"{name}: elements are read with the type found at byte {off} of the header")


def kept(c, i, t, w, name, cls, attr):
    """All items are kept, in order, in an attribute of the object that is returned."""
    r = c.r
    v = t.sub(i.result)
    e = next((e for e in i.events if e.kind == "new" and (e.recv is v or t.sub(e.recv) is v)), None)
    if e is None or e.name.rsplit(".")[-1] != cls:
        (r.bad if e is not None else r.und)(VALUE, w, f"{name}: a {e.name if e is not None else text(v)[:60]} is made")
        return None
    x = new_attrs(i, e.recv).get(attr)
    if x is None:
        r.und(VALUE, w, f"{name}: {attr} not known")
        return None
    return i.snap(x)


def c_list(c, i, w, name):
    r = c.r
    t = tape(c, i, {}, w)
    if t is None:
        return
    s = head(c, t, w, name, 9)
    if s is None:
        return
    rest = t.items[1:]
    if len(rest) != 1 or rest[0][1] != "value":
        (r.bad if not rest else r.und)(BYTES, w, f"{name}: {t.show()}")
        return
    if not counted(c, t, w, name, rest, s, 5, 4):
        return
    typed(c, t, w, name, rest[0][2], s, 0)
    x = kept(c, i, t, w, name, "BinList", "values")
    if x is not None:
        ok = is_entries(x, rest[0][0], rest[0][3].result)
        (r.und if ok is None else r.ok if ok else r.bad)(VALUE, w, f"{name}: values {text(x)[:80]}")


def nonzero(i, t0):
    """Conditions on the type of a structure being null: {atom: value when it is null}."""
    out = {}
    for e in i.events:
        for g in [e.guard] + list(e.loops) + list(e.args):
            for x in subterms(g) if isinstance(g, T) else ():
                if x.op == "==" and any(y.op == "const" for y in x.args) and any(y.op != "const" for y in x.args):
                    k = t0.num(next(y for y in x.args if y.op != "const"))
                    if k and k[0] == "uint" and k[2] == 0:
                        out[x] = any(is_const(y, 0) for y in x.args)
                if x.op == "truthy":
                    k = t0.num(x.args[0])
                    if k and k[0] in ("uint", "bool") and k[2] == 0:
                        out[x] = False
    return out


def c_struct(c, i, w, name):
    r = c.r
    t0 = Tape(i, {})
    if not t0.items:
        r.und(BYTES, w, "nothing read")
        return
    null = nonzero(i, t0)
    if not null:
        r.bad(BYTES, w, f"{name}: the header does not depend on the type being null") if t0.problem is None else r.und(BYTES, t0.problem[0].where(), t0.problem[1])
        return
    t = tape(c, i, null, w, False)
    if t is not None:
        n = t.items[0][2].args[0] if t.items and t.items[0][1] == "bytes" else None
        r.ob(n == 4 and len(t.items) == 1, BYTES, w, f"a null {name} takes 4 bytes, {t.show()} read")
    t = tape(c, i, {a: a.op == "truthy" for a in null}, w, False)
    if t is not None:
        fields(c, i, t, w, name, 10, 8, "BinStruct")


def c_embedded(c, i, w, name):
    t = tape(c, i, {}, w)
    if t is not None:
        fields(c, i, t, w, name, 10, 8, "BinEmbedded")


def fields(c, i, t, w, name, size, off, cls):
    r = c.r
    s = head(c, t, w, name, size)
    if s is None:
        return
    rest = t.items[1:]
    if len(rest) != 1 or rest[0][1] != "field":
        (r.bad if not rest or rest[0][1] == "value" else r.und)(BYTES, w, f"{name}: {t.show()}")
        return
    if not counted(c, t, w, name, rest, s, off, 2):
        return
    x = kept(c, i, t, w, name, cls, "fields")
    if x is not None:
        x = t.sub(x)
        ok = is_entries(x, rest[0][0], rest[0][3].result)
        (r.und if ok is None else r.ok if ok else r.bad)(VALUE, w, f"{name}: fields {text(x)[:80]}")
    v = t.sub(i.result)
    v = next((e.recv for e in i.events if e.kind == "new" and t.sub(e.recv) is v), v)
    h = new_attrs(i, v).get("type")
    if h is None:
        r.und(VALUE, w, f"{name}: type not known")
    else:
        at = {"BinStruct": 0, "BinEmbedded": 0}.get(cls)
        if at is not None:
            ok, d = hashed(c, i, t, h, "BinTypeName", 4, s, at)
            (r.und if ok is None else r.ok if ok else r.bad)(VALUE, w, f"type of {name}: {d}")


def c_option(c, i, w, name):
    r = c.r
    t0 = Tape(i, {})
    flag = {}
    for e in i.events:
        for g in [e.guard] + list(e.args):
            for x in subterms(g) if isinstance(g, T) else ():
                if x.op == "truthy" or x.op == "==" and any(is_const(y, 0) or is_const(y, 1) for y in x.args):
                    y = x.args[0] if x.op == "truthy" else next(y for y in x.args if y.op != "const")
                    k = t0.num(y)
                    if k and k[2] == 1 and k[3] == 1:
                        flag[x] = not any(is_const(y, 0) for y in x.args)
    if not flag:
        (r.bad if t0.problem is None else r.und)(BYTES, w, f"{name}: {t0.show()}, whether the option is set or not")
        return
    for on in (True, False):
        t = tape(c, i, {a: v is on for a, v in flag.items()}, w, False)
        if t is None:
            return
        s = head(c, t, w, name, 2)
        if s is None:
            return
        rest = t.items[1:]
        if on:
            if len(rest) != 1 or rest[0][1] != "value" or rest[0][0]:
                (r.bad if not rest else r.und)(BYTES, w, f"{name} that is set: {t.show()}")
                return
            typed(c, t, w, name, rest[0][2], s, 0)
            r.ok(BYTES, w, f"{name} that is set")
        else:
            r.ob(not rest, BYTES, w, f"{name} that is not set: {t.show()}")
        x = kept(c, i, t, w, name, "BinOption", "value")
        if x is not None:
            x = t.sub(x)
            want = rest[0][3].result if rest else NONE
            (r.ok if strip_uid(x) is strip_uid(t.sub(want)) else r.und if not x.op == "const" and not on else r.bad)(VALUE, w, f"{name} {'set' if on else 'not set'}: {text(x)[:60]}")


def c_map(c, i, w, name):
    r = c.r
    t = tape(c, i, {}, w)
    if t is None:
        return
    s = head(c, t, w, name, 10)
    if s is None:
        return
    rest = t.items[1:]
    if len(rest) != 2 or any(x[1] != "value" for x in rest):
        (r.bad if len(rest) < 2 else r.und)(BYTES, w, f"{name}: {t.show()}")
        return
    if not counted(c, t, w, name, rest, s, 6, 4):
        return
    for it, off, d in zip(rest, (0, 1), ("key", "value")):
        typed(c, t, w, f"{d} of {name}", it[2], s, off)
    x = kept(c, i, t, w, name, "BinMap", "values")
    if x is None:
        return
    es = tm.entries_of(x)
    if es is None or len(es) != 1:
        r.und(VALUE, w, f"{name}: {text(x)[:80]}")
        return
    e = es[0]
    same_call = rest[0][3].result is rest[1][3].result
    ok = tuple(e.args[0].args) == tuple(rest[0][0]) and e.args[1] is TRUE
    if not ok:
        r.und(VALUE, w, f"{name}: {text(x)[:80]}")
    elif same_call:
        r.und(VALUE, w, f"{name}: keys and values not told apart")
    else:
        r.ob(e.args[3] is rest[0][3].result and e.args[2] is rest[1][3].result, VALUE, w, f"{name}: keys are read before values")


CONTAINERS = {"LIST": c_list, "LIST2": c_list, "STRUCT": c_struct, "EMBEDDED": c_embedded, "OPTION": c_option, "MAP": c_map}


# ---- fields, entries, file

def field(c, q):
    r = c.r
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque={"binfile.BinReader.read_bvalue"})
    t = tape(c, i, {}, w)
    if t is None:
        return
    s = head(c, t, w, "a field", 5)
    if s is None:
        return
    rest = t.items[1:]
    if len(rest) != 1 or rest[0][1] != "value" or rest[0][0]:
        (r.bad if not rest else r.und)(BYTES, w, f"a field: {t.show()}")
        return
    typed(c, t, w, "a field", rest[0][2], s, 4)
    v = i.result
    a = new_attrs(i, v) if v is not None else {}
    if "value" not in a or "name" not in a:
        r.und(VALUE, w, text(v)[:80])
        return
    r.ob(strip_uid(a["value"]) is strip_uid(rest[0][3].result), VALUE, w, "value of a field")
    ok, d = hashed(c, i, t, a["name"], "BinFieldName", 4, s, 0)
    (r.und if ok is None else r.ok if ok else r.bad)(VALUE, w, f"name of a field: {d}")


def entry(c, q):
    r = c.r
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque=OP)
    t = tape(c, i, {}, w)
    if t is None:
        return
    s = head(c, t, w, "an entry", 10)
    if s is None:
        return
    rest = t.items[1:]
    if len(rest) != 1 or rest[0][1] != "field":
        (r.bad if not rest or rest[0][1] == "value" else r.und)(BYTES, w, f"an entry: {t.show()}")
        return
    if not counted(c, t, w, "an entry", rest, s, 8, 2):
        return
    v = i.result
    a = new_attrs(i, v) if v is not None else {}
    if "fields" in a and "path" in a:
        ok = is_entries(i.snap(a["fields"]), rest[0][0], rest[0][3].result)
        (r.und if ok is None else r.ok if ok else r.bad)(VALUE, w, "fields of an entry")
        ok, d = hashed(c, i, t, a["path"], "BinEntryPath", 4, s, 4)
        (r.und if ok is None else r.ok if ok else r.bad)(VALUE, w, f"path of an entry: {d}")
    else:
        r.und(VALUE, w, text(v)[:80])
    # positions: tell() before the header, after the header, and after the fields
    tells = [e for e in i.events if e.kind == "mcall" and e.name == "tell" and e.recv is not None and strip_epoch(e.recv) is F]
    reads = [e for e in i.events if e.kind == "mcall" and e.name in ("read", "seek") and e.recv is not None and strip_epoch(e.recv) is F]
    last = max(e.seq for e in i.events if e.kind == "call" and e.name == FIELD)
    start, end = mk("param", "$start"), mk("param", "$consumed")
    m = {}
    for e in tells:
        if e.loops:
            continue
        before = [x for x in reads if x.seq < e.seq]
        n = sum(x.args[0].args[0] if x.args and x.args[0].op == "const" and isinstance(x.args[0].args[0], int) else 10 ** 6 for x in before)
        m[e.result] = mk("bin", "+", start, end) if e.seq > last else mk("bin", "+", start, const(n)) if n else start
    fails = [e for e in i.events if e.kind == "raise" and e.seq > last]
    if not fails or not any(e.seq > last for e in tells):
        (r.bad if not any(e.seq > last for e in tells) else r.und)(REJECT, w, "the length of an entry is not checked")
        return
    g = FALSE
    for e in fails:
        g = bor(g, e.guard)
    verdict = None
    forms = {}
    for a in tm.atoms(g):
        if a.op in ("<", "=="):
            x, y = (tm.subst(z, m) for z in a.args)
            forms[a] = diff(t, x, y, s, start, end)
    g = assume(g, {a: True for a in tm.atoms(g) if a.op == "ok"})
    if not forms or any(forms.get(a) is None for a in tm.atoms(g)):
        r.und(REJECT, w, text(g)[:150])
        return
    for delta in (-5, -4, -2, -1, 0, 1, 2, 4, 5, 8):
        vals = {}
        for a, (k, n) in forms.items():
            # x - y = k * (bytes read since the start of the entry - length) + n
            v = k * (delta + 4) + n
            vals[a] = v < 0 if a.op == "<" else v == 0
        h = assume(g, vals)
        if delta == 0 and h is not FALSE:
            r.bad(REJECT, fails[0].where(), "an entry of the right length is refused")
            return
        if delta and h is not TRUE:
            r.bad(REJECT, fails[0].where(), f"an entry that takes {abs(delta)} bytes {'more' if delta > 0 else 'less'} than its length is accepted")
            return
    r.ok(REJECT, fails[0].where(), text(g)[:100])


def diff(t, x, y, s, start, end):
    """(k, n) if x - y is k * (bytes consumed - length) + n."""
    tot = {}

    def go(z, k):
        if z.op == "const" and isinstance(z.args[0], int):
            tot[1] = tot.get(1, 0) + k * z.args[0]
            return True
        if z.op == "bin" and z.args[0] in "+-" and len(z.args) == 3:
            return go(z.args[1], k) and go(z.args[2], k if z.args[0] == "+" else -k)
        if z.op == "fld":
            n = t.num(z)
            z = mk("param", "$length") if n == ("uint", s, 0, 4) else z
        tot[z] = tot.get(z, 0) + k
        return True
    go(x, 1)
    go(y, -1)
    one = tot.pop(1, 0)
    tot = {k: v for k, v in tot.items() if v}
    ln = mk("param", "$length")
    if set(tot) == {end, ln} and tot[end] == -tot[ln] and abs(tot[end]) == 1:
        return tot[end], one
    return None


STR = "binfile.BinReader.read_string"


def header(c, q):
    r = c.r
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque=OP | {STR})
    t0 = Tape(i, {}, other={"repo:" + STR})
    if not t0.items or t0.items[0][1] != "bytes":
        r.und(BYTES, w, "nothing read")
        return
    s = t0.items[0][3].seq
    vers = {}
    for e in i.events:
        for x in tm.atoms(e.guard):
            if x.op in ("<", "=="):
                ks = [t0.num(y) for y in x.args]
                if any(k and k[:3] == ("uint", s, 0) for k in ks):
                    vers[x] = None
    for ver in (1, 2, 3, 4):
        m = {}
        for x in vers:
            p, k = (y.args[0] if y.op == "const" else ver for y in x.args)
            if not all(isinstance(z, int) for z in (p, k)):
                r.und(BYTES, w, text(x))
                return
            m[x] = p < k if x.op == "<" else p == k
        t = tape(c, i, m, w, other={"repo:" + STR})
        if t is None:
            return
        d = f"version {ver}: {t.show()}"
        items = t.items
        n = items[0][2].args[0]
        if n != 8:
            r.bad(BYTES, w, d)
            continue
        s = items[0][3].seq
        rest = items[1:]
        if ver >= 2:
            if not rest or not rest[0][1].endswith("read_string"):
                r.bad(BYTES, w, d)
                continue
            if not counted(c, t, w, f"linked files of version {ver}", rest[:1], s, 4, 4):
                continue
            rest = rest[1:]
            if not rest or rest[0][1] != "bytes" or rest[0][0]:
                r.und(BYTES, w, d)
                continue
            r.ob(rest[0][2].args[0] == 4, BYTES, w, d)
            cs, co = rest[0][3].seq, 0
            rest = rest[1:]
        else:
            cs, co = s, 4
        types(c, t, w, ver, rest, cs, co, d)


def types(c, t, w, ver, rest, cs, co, d):
    r = c.r
    if len(rest) != 1:
        (r.bad if not rest else r.und)(BYTES, w, d)
        return
    loops, kind, n, e = rest[0]
    if kind == "bytes":
        k = t.num(loops[0].args[0].args[1]) if len(loops) == 1 and loops[0].op == "loop" and loops[0].args[0].op == "rng" else None
        r.ob(n.args[0] == 4 and k == ("uint", cs, co, 4), BYTES, w, d) if k else r.und(BYTES, w, d)
        return
    # calcsize of "<{count}L", or 4 * count
    k = None
    wd = None
    if n.op == "call" and n.args[0] == "struct.calcsize" and n.args[1].op == "cat":
        ps = n.args[1].args
        if len(ps) == 3 and is_const(ps[0], "<") and ps[2].op == "const":
            k = t.num(ps[1].args[0] if ps[1].op == "fmt" else ps[1])
            wd = {"L": 4, "I": 4}.get(ps[2].args[0], 0)
    elif n.op == "bin" and n.args[0] == "*":
        k = t.num(next(x for x in n.args[1:] if x.op != "const")) if any(x.op != "const" for x in n.args[1:]) else None
        wd = next((x.args[0] for x in n.args[1:] if x.op == "const"), None)
    if k is None or wd is None:
        r.und(BYTES, w, f"{d}: {text(n)[:80]}")
    else:
        r.ob(k == ("uint", cs, co, 4) and wd == 4, BYTES, w, f"version {ver}: entry types")


def patches(c, q):
    r = c.r
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque=OP | {STR})
    t = tape(c, i, {}, w, other={"repo:" + STR})
    if t is None:
        return
    s = head(c, t, w, "the patch section", 4)
    if s is None:
        return
    rest = t.items[1:]
    shape = [x[1] if x[1] != "repo:" + STR else "string" for x in rest]
    if shape != ["bytes", "string", "value"]:
        (r.bad if len(shape) < 3 or sorted(shape) == ["bytes", "string", "value"] else r.und)(BYTES, w, f"a patch entry: {t.show()}")
        return
    if not counted(c, t, w, "the patch section", rest, s, 0, 4):
        return
    n = rest[0][2].args[0]
    r.ob(n == 9, BYTES, w, f"a patch entry starts with 9 bytes, {n} are read")
    typed(c, t, w, "a patch entry", rest[2][2], rest[0][3].seq, 8)
