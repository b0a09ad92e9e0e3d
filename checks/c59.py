"""C59: a BIN file is decoded whole: version, linked files, entries, fields and patches are those the bytes hold."""
import struct
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Obj
from vfa.tape import Play, Stream

RULE = """The construction of a BinFile is interpreted with everything it reads but single values (whose layout C29 decides), and followed over sample files, plain and patch files of several versions, with none, one and several linked files, entries, fields and patches.
The result must hold exactly what the bytes state: the version, whether it is a patch, the linked files in order (none for a version that has no list), each entry with its own path hash, the type of its place in the list of types and its fields in order with name, type and value,
and for patch files the patches gathered by the entry they apply to, in order. Files with other magic codes, another patch header or an entry that does not have the length it states must be refused, and types must be read the way of the patch the file is from."""

HEAD, LINKS, ENTRIES, PATCHES, REFUSED, OLD = "version and kind of the file", "linked files", "entries and their fields", "patches of the entries", "a file that is not as it should be is refused", "types of older patches"
SCALARS = {1: "<?", 2: "<b", 3: "<B", 4: "<h", 5: "<H", 6: "<i", 7: "<I", 8: "<q", 9: "<Q", 10: "<f", 11: "<2f", 17: "<L", 0x84: "<L", 0x87: "<B"}


def check(c):
    c.part(files)


def s(x):
    b = x.encode()
    return struct.pack("<H", len(b)) + b


def value(t, v):
    if t == 16:
        return s(v)
    if t in (0x80, 0x81):
        body = b"".join(value(v[0], x) for x in v[1])
        return struct.pack("<BLL", v[0], len(body) + 4, len(v[1])) + body
    return struct.pack(SCALARS[t], *(v if isinstance(v, tuple) else (v,)))


def entry(path, fields, off=0):
    body = struct.pack("<LH", path, len(fields)) + b"".join(struct.pack("<LB", n, t) + value(t, v) for n, t, v in fields)
    return struct.pack("<L", len(body) + off) + body


def make(version, linked, entries, patches=None, magic=b"PROP", outer=b"PTCH", header=(1, 0), off=0):
    out = b"" if patches is None else outer + struct.pack("<2L", *header)
    out += magic + struct.pack("<L", version)
    if version >= 2:
        out += struct.pack("<L", len(linked)) + b"".join(map(s, linked))
    out += struct.pack("<L", len(entries)) + b"".join(struct.pack("<L", t) for _, t, _ in entries)
    for k, (p, _, fs) in enumerate(entries):
        out += entry(p, fs, off if k == len(entries) - 1 else 0)
    if patches is not None and version >= 3:
        out += struct.pack("<L", len(patches)) + b"".join(struct.pack("<2LB", p, n, t) + s(q) + value(t, v) for p, n, q, t, v in patches)
    return out


E1 = (0x90001001, 0x80002001, [(0xf1000031, 3, 7), (0x32000000, 16, "abc"), (0xfe000033, 7, 70000)])
E2 = (0x1002, 0x2002, [(0x340000, 0x80, (3, (1, 2, 3)))])
E3 = (0x1003, 0x80002001, [])
E5 = (0xa0001005, 5, [(n, 3, n % 251) for n in range(300)])
E4 = (0x1004, 0x2003, [(0x31, 17, 0x99), (0x31, 1, True), (0x35, 16, "é")])
SAMPLES = [
    ("version 1", 1, None, [E1], None, None),
    ("version 2, no linked file", 2, (), [E1, E2], None, None),
    ("version 2, one linked file", 2, ("DATA/a.bin",), [E2, E1, E3, E4], None, None),
    ("version 3, three linked files", 3, ("DATA/a.bin", "", "b/é.bin"), [E3, E1], None, None),
    ("version 3, nothing in it", 3, (), [], None, None),
    ("patch file of version 3", 3, ("x.bin",), [E1], [(0xf0000071, 9, "a.b", 3, 1), (0x72, 9, "c", 16, "hi"), (0xf0000071, 5, "d[0]", 7, 8), (0x73, 5, "", 3, 4), (0x72, 5, "c", 3, 9)], None),
    ("patch file without patches", 3, (), [E4], [], None),
    ("patch file of version 2", 2, ("y.bin",), [E1], [], None),
    ("many fields", 3, ("a",), [E5, E1], None, None),
    ("patch file without entries", 4, (), [], [(0xf0000071, 1, "p", 3, 1)], None),
]
BAD = [
    ("other magic code", make(2, (), [E1], magic=b"PROB")),
    ("other outer magic code", make(3, (), [E1], [], outer=b"PTCX")),
    ("other magic code in a patch", make(3, (), [E1], [], magic=b"PTCH")),
    ("other patch header", make(3, (), [E1], [], header=(2, 0))),
    ("other second number of the patch header", make(3, (), [E1], [], header=(1, 1))),
    ("longer entry", make(2, (), [E1, E2], off=1)),
    ("shorter entry", make(2, (), [E1, E2], off=-1)),
    ("entry of four bytes less", make(2, (), [E1], off=-4)),
    ("entry of four bytes more", make(3, (), [E1], off=4)),
]
# types written by older patches: what is stored, and what it stands for
TYPES = [(900, 18, 0x80), (900, 19, 0x82), (900, 23, 0x86), (900, 24, 0x87), (900, 16, 16), (900, 3, 3), (923, 18, 18), (923, 0x80, 0x80), (1000, 0x81, 0x82), (1000, 0x86, 0x87), (1000, 17, 17), (1008, 0x81, 0x81), (1008, 0x87, 0x87), (None, 0x82, 0x82), (1200, 18, 18)]


def decode(st, t):
    """The value the layout of its type gives (C29 decides the repository's own)."""
    if t == 16:
        n, = struct.unpack("<H", st.do("read", [2]))
        return st.do("read", [n]).decode()
    if t in (0x80, 0x81):
        v, _, n = struct.unpack("<BLL", st.do("read", [9]))
        return ("list", v, tuple(decode(st, v) for _ in range(n)))
    if t not in SCALARS:
        return ("value of type", t)
    r = struct.unpack(SCALARS[t], st.do("read", [struct.calcsize(SCALARS[t])]))
    return r[0] if len(r) == 1 else r


def given(t, v):
    return ("list", v[0], tuple(v[1])) if t in (0x80, 0x81) else v


class Reading(Play):
    cells = True

    def __init__(self, i, f, data, btv, plain=False, path=False):
        self.f, self.btv, self.plain, self.path = f, btv, plain, path
        self.asked = []
        self.one = Stream(data)
        super().__init__(i, self.look, extra=self.effect)

    def stream(self, recv, make=True):
        v = self.value(recv)
        return self.one if isinstance(v, Obj) and v.name == "stream" else None

    def look(self, sim, x, nothing):
        op, a = x.op, x.args
        if x is self.f:
            return Obj("path" if self.path else "stream")
        if op == "call" and a[0] in ("open", "io.open") and sim.value(a[1]).name == "path":
            return Obj("stream")
        if op == "param" and a[0] == "btype_version":
            return self.btv
        if op == "isinst" and sim.value(a[0]).__class__ is Obj and sim.value(a[0]).name in ("path", "stream"):
            return any(x == "str" for x in a[1:]) if self.path else False
        if op == "mcall" and a[1] in ("load", "load_zones"):
            return {}
        if op == "attr" and a[1] == "hashfile":
            return Obj("hashes")
        if op == "obj" and str(a[0]).rsplit(".", 1)[-1] == "BinType":
            ys = [y for y in a[2:] if y.op not in ("uid", "kw", "epoch")]
            return sim.value(ys[0])
        if op == "attr" and a[1] == "value" and isinstance(a[0], T) and a[0].op == "obj" and str(a[0].args[0]).rsplit(".", 1)[-1] == "BinType":
            return sim.value(a[0])
        return nothing

    def effect(self, sim, e):
        n = str(e.name)
        if e.kind in ("call", "vcall") and n.endswith("read_bvalue"):
            t = kind(sim.value(e.args[-1]))
            self.asked.append(t)
            try:
                v = decode(self.one, t) if not self.plain else 0
            except (struct.error, UnicodeDecodeError):
                raise Fails
            self.results[strip_epoch(e.result), self.rounds(e.loops)] = v


def kind(t):
    if type(t) is not int:
        raise Unknown
    return t


def attr(o, name):
    if not isinstance(o, Obj):
        raise Unknown
    if name not in o.attrs:
        raise Unknown
    v = o.attrs[name]
    if isinstance(v, Exception):
        raise v
    return v


def hashed(o):
    return o if type(o) is int else attr(o, "h")


def plain(vs):
    if not isinstance(vs, (list, tuple)):
        raise Unknown
    return list(vs)


def files(c):
    cls = c.prog.cls("binfile.BinFile")
    f = cls.method("__init__")
    i = c.run(f, self_type=cls, opaque=["binfile.BinReader.read_bvalue"], nesting=3)
    me, src = mk("param", f.node.args.args[0].arg), mk("param", f.node.args.args[1].arg)

    def of(sim, name):
        t = i.st.store.get(("f", me, name))
        if t is None:
            raise Unknown
        return sim.value(i.snap(t))

    for name, version, linked, entries, patches, btv in SAMPLES:
        where = f"{f.loc} ({name})"
        data = make(version, linked, entries, patches)
        try:
            sim = Reading(i, src, data, btv)
            e = sim.play()
        except Unknown:
            c.r.und(HEAD, where, "not understood")
            continue
        except Fails:
            c.r.bad(HEAD, where, "raises an error")
            continue
        if e is not None:
            c.r.bad(HEAD, where, f"is refused: {e.name} at {e.loc}")
            continue

        def head():
            got = (of(sim, "version"), bool(of(sim, "is_patch")))
            return got, (version, patches is not None)

        def links():
            got = of(sim, "linked_files")
            return None if got is None else plain(got), None if linked is None else list(linked)

        def content():
            got = [(hashed(attr(o, "path")), hashed(attr(o, "type")), [(hashed(attr(x, "name")), kind(attr(x, "type")), attr(x, "value")) for x in plain(attr(o, "fields"))]) for o in plain(of(sim, "entries"))]
            return got, [(p, t, [(n, k, given(k, v)) for n, k, v in fs]) for p, t, fs in entries]

        def patch():
            got = of(sim, "patch_entries")
            want = None
            if patches is not None and version >= 3:
                want = {}
                for p, n, q, t, v in patches:
                    want.setdefault(p, []).append((q, t, given(t, v)))
                want = list(want.items())
            return None if got is None else [(hashed(attr(o, "path")), [(attr(x, "path"), kind(attr(x, "type")), attr(x, "value")) for x in plain(attr(o, "fields"))]) for o in plain(got)], want
        for aspect, h in ((HEAD, head), (LINKS, links), (ENTRIES, content), (PATCHES, patch)):
            try:
                got, want = h()
            except Unknown:
                c.r.und(aspect, where, "not understood")
                continue
            except Fails:
                c.r.bad(aspect, where, "raises an error")
                continue
            c.r.ob(got == want, aspect, where, "" if got == want else f"{got} instead of {want}"[:300])
    for name, data in BAD:
        where = f"{f.loc} ({name})"
        try:
            e = Reading(i, src, data, None).play()
        except Unknown:
            c.r.und(REFUSED, where, "not understood")
            continue
        except Fails:
            c.r.ok(REFUSED, where, "an error is raised while reading")
            continue
        c.r.ob(e is not None, REFUSED, where, f"{e.name}" if e is not None else "is taken for a good file")
    for btv, stored, want in TYPES:
        for where, data in ((f"{f.loc} (type {stored:#x} of a field, patch {btv})", b"PROP" + struct.pack("<LL", 1, 1) + struct.pack("<L", 5) + struct.pack("<LLH", 11, 9, 1) + struct.pack("<LB", 8, stored)),
                            (f"{f.loc} (type {stored:#x} of a patch, patch {btv})", b"PTCH" + struct.pack("<LL", 1, 0) + b"PROP" + struct.pack("<LLL", 3, 0, 0) + struct.pack("<LLLBH", 1, 7, 8, stored, 0))):
            try:
                sim = Reading(i, src, data, btv, plain=True)
                e = sim.play()
                if e is not None:
                    c.r.bad(OLD, where, f"is refused: {e.name} at {e.loc}")
                    continue
                kinds = [kind(attr(x, "type")) for o in plain(of(sim, "entries")) + plain(of(sim, "patch_entries") or ()) for x in plain(attr(o, "fields"))]
            except Unknown:
                c.r.und(OLD, where, "not understood")
                continue
            except Fails:
                c.r.bad(OLD, where, "raises an error")
                continue
            ok = sim.asked == [want] and kinds == [want]
            c.r.ob(ok, OLD, where, f"is {want:#x}" if ok else f"is read as {sim.asked}, and stated as {kinds}, instead of {want:#x}")
