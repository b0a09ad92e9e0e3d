"""C28: BIN type codes are interpreted by the patch they come from."""
import ast
from vfa.q import *
from checks.c27 import Tape, members, OP, STR, SELF, F

RULE = """At every place where the BIN reader reads a value with a type found in the file, the term that gives the type from the raw byte and the version is evaluated for the 256 bytes and for a version on each side of every version the term compares
with; the result must be the member of the enumeration that the numbering of that version gives, or an error. The version itself is traced backwards from every construction of a BIN reader, through attributes, constructors and callers: it must be the
integer form of the version of the patch being handled, never a constant or an omitted argument. That integer form is 100 * major + minor, and "main" is above all of them."""

CODES, VERSION, INT = "raw type bytes mean the types of their version", "the version is the one of the patch", "the integer form of a version orders versions"
VER = mk("attr", SELF, "btype_version")


def expected(v, ver, m):
    """Type for a raw byte, None for an unknown code."""
    simple = set(range(m["HASH"] + 1))
    old = [m[x] for x in ("LIST", "STRUCT", "EMBEDDED", "LINK", "OPTION", "MAP", "FLAG")]
    if ver < 923:
        return v if v in simple else old[v - 18] if 18 <= v < 18 + len(old) else None
    if ver < 1008:
        return v if v in simple or v == m["PATH"] else old[v - 0x80] if 0x80 <= v < 0x80 + len(old) else None
    return v if v in m.values() else None


def check(c):
    r = c.r
    ms = members(c)
    if not ms or c.prog.func("binfile.BinReader.read_bvalue") is None:
        r.und(CODES, "binfile.BinType", "not found")
        return
    codes(c, {k: v[0] for k, v in ms.items()})
    version_of(c, "BinFile", "btype_version")
    reader_version(c)
    as_int(c)


def codes(c, m):
    r = c.r
    known = {"EMPTY": 0, "BOOL": 1, "S8": 2, "U8": 3, "S16": 4, "U16": 5, "S32": 6, "U32": 7, "S64": 8, "U64": 9, "FLOAT": 10, "VEC2_FLOAT": 11, "VEC3_FLOAT": 12, "VEC4_FLOAT": 13, "MATRIX4X4": 14, "RGBA": 15, "STRING": 16, "HASH": 17, "PATH": 18,
             "LIST": 0x80, "LIST2": 0x81, "STRUCT": 0x82, "EMBEDDED": 0x83, "LINK": 0x84, "OPTION": 0x85, "MAP": 0x86, "FLAG": 0x87}
    for k, v in known.items():
        r.ob(m.get(k) == v, CODES, "binfile.BinType", f"{k} is {m.get(k)}, its code since 10.8 is {v}")
    if any(m.get(k) != v for k, v in known.items()):
        return
    f = c.prog.func("binfile.BinReader.read_bvalue")
    ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    n = 0
    for name in ("LIST", "LIST2", "OPTION", "MAP"):
        i = c.run("binfile.BinReader.read_bvalue", f"type {m[name]}", args={ps[0]: const(m[name])}, opaque=OP)
        n += sites(c, i, m)
    for q in ("read_field", "read_patch_section"):
        if c.prog.func("binfile.BinReader." + q) is not None:
            i = c.run("binfile.BinReader." + q, opaque={"binfile.BinReader.read_bvalue", STR})
            n += sites(c, i, m)
    if not n:
        r.und(CODES, "binfile.BinReader", "no type is read")


def sites(c, i, m):
    n = 0
    t0 = Tape(i, {}, other={"repo:" + STR})
    place = Place(i)
    done = {}
    for e in i.events:
        if e.kind == "call" and e.name == "repo:binfile.BinReader.read_bvalue":
            t = e.args[1] if len(e.args) > 1 else next(iter(e.kw.values()), None)
            n += 1
            if t is None or t in done:
                continue
            done[t] = True
            site(c, i, e, t, m, place)
    return n


class Place:
    def __init__(self, i):
        self.reads = {e.result for e in i.events if e.kind == "mcall" and e.name == "read" and e.recv is not None and strip_epoch(e.recv) is F}

    def byte(self, x):
        """Is the term a byte of the file?"""
        p = fld_place(x)
        if p is not None:
            return p[0] in self.reads and p[2] == "B"
        return x.op == "index" and x.args[0] in self.reads and x.args[1].op == "const"


def raw_of(i, t):
    """The term that is made into a type."""
    for _ in range(3):
        if t.op == "obj":
            e = next((e for e in i.events if e.kind == "new" and e.recv is t), None)
            if e is None or not e.name.endswith("BinType") or not e.args:
                return None
            t = e.args[0]
        elif t.op == "index" and t.args[0].op == "class":
            return None
    return t


def site(c, i, e, t, m, place):
    r = c.r
    # the exceptions that may be raised when the code is unknown
    raised = {x.recv: x for x in i.events if x.kind == "new" and x.name.endswith("BinType")}
    srcs = [x for x in subterms(t) if place.byte(x)] + [x for o in raised for x in subterms(raised[o].args[0]) if raised[o].args and place.byte(x)]
    consts = {x.args[k].args[0] for y in [t] + [z.args[0] for z in raised.values() if z.args] for x in subterms(y) if x.op in ("<", "==") for k in (0, 1) if x.args[1 - k] is VER and x.args[k].op == "const" and isinstance(x.args[k].args[0], int)}
    if not srcs:
        r.und(CODES, e.where(), text(t)[:100])
        return
    names = set(m.values())
    if any(x.op == "exc" for x in subterms(t)):
        tids = {x for x in subterms(t) if x.op == "exc"}
        if any(not catches(c.prog, str(x.args[0]).split("|"), "ValueError") and not catches(c.prog, str(x.args[0]).split("|"), "KeyError") for x in tids):
            r.und(CODES, e.where(), text(t)[:100])
            return
    vers = sorted({x + d for x in consts | {923, 1008, 1023} for d in (-1, 0, 1)} | {301, 1415, 1502, 2615, 9999})
    bad = None
    for ver in vers:
        for v in range(256):
            def leaf(x, nothing):
                if x is VER:
                    return ver
                if place.byte(x):
                    return v
                if x.op == "exc":
                    return failing
                if x.op == "obj" and x in raised and raised[x].args:
                    y = calc(raised[x].args[0], leaf)
                    if y not in names:
                        raise Fails
                    return y
                if x.op == "ok":
                    return True
                return nothing
            want = expected(v, ver, m)
            failing = False
            try:
                try:
                    got = calc(t, leaf)
                    got = got if got in names else None
                except Fails:
                    if any(x.op == "exc" for x in subterms(t)):
                        failing = True
                        got = calc(t, leaf)
                        got = got if got in names else None
                    else:
                        got = None
            except Fails:
                got = None
            except Unknown:
                r.und(CODES, e.where(), text(t)[:100])
                return
            # before 10.23, no file has a PATH: its code may be unknown
            if got != want and not (v == m["PATH"] and 923 <= ver < 1023 and got in (None, v)):
                bad = bad or (ver, v, got, want)
    if bad:
        ver, v, got, want = bad
        nm = {x: k for k, x in m.items()}
        r.bad(CODES, e.where(), f"in version {ver // 100}.{ver % 100}, byte {v:#x} is read as {nm.get(got, 'an error')}, not {nm.get(want, 'an error')}")
    else:
        r.ok(CODES, e.where(), f"256 bytes x {len(vers)} versions")


# ---- provenance of the version

def own(c, q):
    return c.run(q, "own", opaque={f.qual[5:] for f in c.prog.funcs.values()} - {q})


def functions_naming(c, name):
    names = {}
    for m in c.prog.modules.values():
        names[m.rel] = {name} | {a.asname for x in ast.walk(m.tree) if isinstance(x, ast.ImportFrom) for a in x.names if a.name == name and a.asname}
    for f in c.prog.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        ns = names[f.module.rel]
        if any(isinstance(x, ast.Name) and x.id in ns or isinstance(x, ast.Attribute) and x.attr in ns for x in ast.walk(f.node)):
            yield f


def argument(e, params, name):
    """Argument bound to a parameter; None if omitted."""
    if e.kw and name in e.kw:
        return e.kw[name]
    k = params.index(name)
    return e.args[k] if k < len(e.args) else None


def version_of(c, cls, param):
    """Every construction of the class in the package gets the version of the patch."""
    n = trace_class(c, cls, param, set())
    if not n:
        c.r.und(VERSION, cls, "never constructed")


def klass(c, name):
    k = c.prog.classes.get(name)
    return k[0] if isinstance(k, list) else k


def init_params(k):
    g = k.method("__init__")
    return None if g is None else (g, [a.arg for a in g.node.args.args + g.node.args.kwonlyargs])


def trace_class(c, cls, param, seen):
    if (cls, param) in seen:
        return 1
    seen.add((cls, param))
    k = klass(c, cls)
    if k is None:
        c.r.und(VERSION, cls, "not found")
        return 0
    g, params = init_params(k) or (None, [])
    if param not in params:
        c.r.und(VERSION, cls, f"no parameter {param}")
        return 0
    params = params[1:]
    n = 0
    for f in functions_naming(c, cls):
        q = f.qual[5:]
        i = own(c, q)
        for e in i.events:
            if e.kind == "new" and e.name.rsplit(".")[-1] == cls:
                n += 1
                a = argument(e, params, param)
                if a is None:
                    if any(x.op == "star" for x in e.args):
                        c.r.und(VERSION, e.where(), "arguments not known")
                    else:
                        c.r.bad(VERSION, e.where(), f"{cls} is made without the version of the patch")
                    continue
                trace(c, a, f, i, e.where(), cls, seen)
    return n


def trace(c, t, f, i, w, what, seen):
    r = c.r
    t = norm(t)
    for g, v in tm.cases(t):
        if v.op == "call" and str(v.args[0]).endswith("PatchVersion.as_int") or v.op == "mcall" and v.args[1] == "as_int":
            src = v.args[1] if v.op == "call" else v.args[0]
            origin(c, src, w, what, i, g)
        elif v.op == "const":
            if v is NONE and any(True for a in tm.atoms(g)):
                r.und(VERSION, w, f"{what} may get no version")
            else:
                r.bad(VERSION, w, f"{what} always gets version {v.args[0]}")
        elif v.op == "attr" and v.args[0] is SELF and f.cls is not None:
            attribute(c, f.cls, v.args[1], w, what, seen)
        elif v.op == "param":
            caller(c, f, v.args[0], w, what, seen)
        else:
            r.und(VERSION, w, f"{what} gets {text(v)[:80]}")


def origin(c, src, w, what, i, g=TRUE):
    r = c.r
    src = norm(src)
    if src.op == "attr" and src.args[1] == "version":
        b = src.args[0]
        nm = str(b.args[-1]) if b.op in ("attr", "param", "global") else ""
        if "prev" in nm or "previous" in nm:
            r.bad(VERSION, w, f"{what} gets the version of {text(b)}")
        else:
            r.ok(VERSION, w, f"{what} gets {text(src)[:60]}")
    elif src.op == "obj":
        e = next((e for e in i.events if e.kind == "new" and e.recv is src), None)
        if e is not None and e.args and e.args[0].op == "const":
            if e.args[0].args[0] == "main" and tm.atoms(g):
                return      # default for an option that is not given
            r.bad(VERSION, w, f"{what} always gets version {e.args[0].args[0]}")
        elif e is not None and e.name.endswith("PatchVersion"):
            r.ok(VERSION, w, f"{what} gets {text(src)[:60]}")
        else:
            r.und(VERSION, w, text(src)[:80])
    elif src.op == "attr" and "version" in str(src.args[1]) or src.op == "param":
        r.ok(VERSION, w, f"{what} gets {text(src)[:60]}")
    else:
        r.und(VERSION, w, text(src)[:80])


def attribute(c, k, name, w, what, seen):
    r = c.r
    if ("attr", k.name, name) in seen:
        return
    seen.add(("attr", k.name, name))
    ip = init_params(k)
    if ip is None:
        r.und(VERSION, w, f"{k.name}.{name} not known")
        return
    i = c.run(ip[0].qual[5:])
    v = final_attr(i, SELF, name)
    if v is None:
        r.und(VERSION, w, f"{k.name}.{name} not known")
        return
    ok = False
    for g, x in tm.cases(norm(v)):
        if x.op == "param" and x.args[0] in ip[1]:
            ok = True
            trace_class(c, k.name, x.args[0], seen)
        elif x.op == "const" and tm.atoms(g):
            continue        # default for an omitted argument
        elif x.op == "const":
            r.bad(VERSION, w, f"{k.name}.{name} is always {x.args[0]}")
        else:
            trace(c, x, ip[0], i, w, what, seen)
    # not changed afterwards
    for m in k.methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and m is not ip[0]:
                r.und(VERSION, f"{m.module.rel}:{x.lineno}", f"{name} is changed")


def caller(c, f, param, w, what, seen):
    r = c.r
    q = f.qual[5:]
    if ("param", q, param) in seen:
        return
    seen.add(("param", q, param))
    params = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    if f.node.name == "__init__" and f.cls is not None:
        trace_class(c, f.cls.name, param, seen)
        return
    n = 0
    for g in functions_naming(c, f.node.name):
        if g is f:
            continue
        i = own(c, g.qual[5:])
        for e in i.events:
            if e.kind == "call" and e.name == "repo:" + q:
                n += 1
                a = argument(e, params, param)
                if a is None:
                    r.bad(VERSION, e.where(), f"{f.node.name} is called without the version of the patch")
                else:
                    trace(c, a, g, i, e.where(), what, seen)
    if not n:
        r.ok(VERSION, w, f"{what} gets the version from the caller of {q}")


def reader_version(c):
    """The version given to a BIN file reaches the reader; a default is used only if there is none."""
    r = c.r
    q = "binfile.BinFile.__init__"
    f = c.prog.func(q)
    if f is None:
        r.und(VERSION, q, "not found")
        return
    i = c.run(q, opaque={"binfile.BinReader." + x for x in ("read_binfile_header", "read_binfile_entry", "read_patch_section")})
    es = [e for e in i.events if e.kind == "new" and e.name.endswith("BinReader")]
    p = mk("param", "btype_version")
    if not es:
        r.und(VERSION, q, "no reader")
    for e in es:
        v = new_attrs(i, e.recv).get("btype_version")
        if v is None:
            r.und(VERSION, e.where(), "version of the reader not known")
            continue
        for name, val in (("given", True),):
            bad = None
            for n in (301, 922, 923, 1007, 1008, 1502, 9999):
                try:
                    x = calc(v, lambda t, nothing: n if t is p else nothing)
                except (Unknown, Fails):
                    bad = "?"
                    break
                if x != n:
                    bad = f"version {n} becomes {x}"
                    break
            if bad == "?":
                r.und(VERSION, e.where(), text(v)[:80])
            else:
                r.ob(bad is None, VERSION, e.where(), bad or text(v)[:80])


def as_int(c):
    r = c.r
    q = "storage.PatchVersion.as_int"
    f = c.prog.func(q)
    if f is None:
        r.und(INT, q, "not found")
        return
    i = c.run(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    t = mk("attr", SELF, "t")
    s = mk("attr", SELF, "s")
    for v in ((3, 1), (9, 22), (9, 23), (10, 8), (10, 23), (14, 15), (15, 2), (26, 15), "main"):
        def leaf(x, nothing):
            if x is t:
                return v
            if x is s:
                return v if v == "main" else f"{v[0]}.{v[1]}"
            if x is SELF:
                return v if v == "main" else nothing
            if x.op == "isinst" and x.args[0] is t:
                return ("str" in str(x.args[1])) is (v == "main")
            return nothing
        try:
            n = calc(i.result, leaf)
        except (Unknown, Fails):
            r.und(INT, w, text(i.result)[:100])
            return
        r.ob(n == v[0] * 100 + v[1] if v != "main" else isinstance(n, int) and n >= 9999, INT, w, f"{v} gives {n}")
