"""C46: BIN elements are found and shown by name or hash alike."""
import zlib
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Sim, Obj

RULE = """The lookups, comparisons and serialisations of the BIN classes are analysed, and the resulting terms are evaluated for samples of what they depend on: objects with the field at each position or absent, keys given as names in any casing, hashes
or hash objects, values that are empty, null or containers, and names known or unknown to the hash lists. The hash of a name must be FNV-1a (XXH64 for paths) of the lowercased name; a lookup must find the first field with the hash of the key and otherwise
raise KeyError or give the default; a comparison must depend on the hashes only, and equal values must hash alike; each class must take its names from its own list. A serialised object must have each field, element, entry, linked file and patch under its name, or its hash
in braces with the full width."""

NAME, LOOKUP, VALUE, EQUAL, HASHABLE, SHOWN, LIST, SERIAL = ("names are hashed lowercased with the hash of the kind", "a field is found by name or hash", "a present value is given, and the default otherwise", "comparison does not depend on the known names", "equal values hash alike", "names are shown if known, and full hashes otherwise",
                                                             "names come from the list of the kind", "everything is serialised")
SELF = mk("param", "self")
LISTS = {"BinHashValue": "hashfile_binhashes", "BinEntryPath": "hashfile_binentries", "BinFieldName": "hashfile_binfields", "BinTypeName": "hashfile_bintypes", "BinPathValue": "hashfile_game"}
FILES = {"hashfile_binhashes": "hashes.binhashes.txt", "hashfile_binentries": "hashes.binentries.txt", "hashfile_binfields": "hashes.binfields.txt", "hashfile_bintypes": "hashes.bintypes.txt"}


def fnv(s):
    h = 0x811c9dc5
    for b in s.lower().encode("ascii"):
        h = ((h ^ b) * 0x01000193) % 0x100000000
    return h


def xxh(s):
    """Stands for XXH64: any fixed function of the text would do."""
    b = s.encode() if isinstance(s, str) else s
    return zlib.crc32(b) << 32 | zlib.adler32(b)


def check(c):
    for part in (names, lookups, equality, shown, lists, serial):
        c.part(part)


def hashes(c):
    base = c.prog.cls("binfile.BinHashBase")
    return base, base.all_subclasses()


class Bin:
    """A BIN object given by its attributes, with what its own methods give."""

    def __init__(self, i, env, item=None, has=None):
        self.i, self.env, self.item, self.has = i, env, item, has
        self.sim = Sim(i, self.world)

    def world(self, sim, x, nothing):
        op, a = x.op, x.args
        if op == "param":
            return self.env[a[0]] if a[0] in self.env else nothing
        if op == "call" and isinstance(a[0], str) and a[0] in ("xxhash.xxh64_intdigest", "xxhash.xxh64.intdigest"):
            v = sim.value(a[1])
            return xxh(v) if isinstance(v, (str, bytes)) and all(y.op == "uid" for y in a[2:]) else nothing
        if op == "call" and a[0] in ("xxhash.xxh64_hexdigest",):
            return "%016x" % xxh(sim.value(a[1]))
        if op == "hasattr":
            o = sim.value(a[0])
            return isinstance(o, Obj) and ("serial" in o.attrs if a[1] == "to_serializable" else a[1] in o.attrs)
        if op == "mcall" and a[1] == "to_serializable":
            o = sim.value(a[0])
            if isinstance(o, Obj) and "serial" in o.attrs:
                return o.attrs["serial"]
            if not isinstance(o, Obj):
                raise Fails
            raise Unknown
        if op == "in" and self.has is not None:
            o = sim.value(a[1])
            if isinstance(o, Obj):
                return self.has(o, sim.value(a[0]))
        if op == "index" and self.item is not None:
            o = sim.value(a[0])
            if isinstance(o, Obj):
                return self.item(o, sim.value(a[1]))
        if op == "call" and a[0] == "hash":
            v = sim.value(a[1])
            return v if isinstance(v, int) else zlib.crc32(repr(v).encode())
        if op == "call" and a[0] == "type":
            v = sim.value(a[1])
            return ("type", v.attrs["cls"]) if isinstance(v, Obj) and "cls" in v.attrs else ("type", type(v).__name__)
        if op == "class":
            return ("type", str(a[0]).rsplit(".", 1)[-1])
        if op == "is" and all(isinstance(y, T) and (y.op == "class" or y.op == "call" and y.args[0] == "type") for y in a[:2]):
            return sim.value(a[0]) == sim.value(a[1])
        if op == "slice":
            v = sim.value(a[0])
            if isinstance(v, list):
                return v[slice(*[sim.value(y) for y in a[1:] if y.op != "uid"])]
        if op == "truthy":
            o = sim.value(a[0])
            if isinstance(o, Obj):
                return True
        if op == "cat" and len(a) == 1:
            o = sim.value(a[0])
            if isinstance(o, Obj):
                if "str" in o.attrs:
                    return o.attrs["str"]
                raise Unknown
        return nothing

    def outcome(self):
        """("value", v) or ("raise", exception)."""
        for e in self.i.events:
            if e.kind == "raise" and not e.loops and not caught_here(self.i, e) and self.sim.true(e.guard):
                return "raise", str(e.name)
        return "value", self.sim.value(self.i.result)


def caught_here(i, e):
    return any(True for t in handlers_of(i, e))


def judge(r, ob, where, cases):
    """cases: (what, thunk, expected); an error of the analysed code is an outcome of its own."""
    n = 0
    for what, thunk, want in cases:
        n += 1
        try:
            got = thunk()
        except Unknown:
            r.und(ob, where, f"{what}: not understood")
            return
        except Fails:
            got = "an error"
        if got != want or type(got) is not type(want):
            r.bad(ob, where, f"{what} gives {got!r}, not {want!r}"[:200])
            return
    r.ok(ob, where, f"{n} samples")


# ---------------------------------------------------------------- names

TEXTS = ("", "a", "mSpell", "TFTSetData", "Characters/Foo/Bar.bin", "{}%_z", "Z" * 40)


def names(c):
    base, subs = hashes(c)
    for k in [base, *subs]:
        f = k.method("compute_hash")
        if f is None:
            c.r.und(NAME, k.loc if hasattr(k, "loc") else k.qual, "no compute_hash")
            continue
        ref = (lambda s: xxh(s.lower())) if k.name == "BinPathValue" else fnv
        ps = [a.arg for a in f.node.args.args]
        ps = ps if f.is_static else ps[1:]
        i = c.run(f, self_type=k)
        judge(c.r, NAME, f"{f.loc} for {k.name}", ((f"the hash of {s!r}", lambda s=s: Bin(i, {ps[0]: s}).sim.value(i.result), ref(s)) for s in TEXTS))


# ---------------------------------------------------------------- lookups

def hashed(h, s=None, kind="BinFieldName"):
    return Obj(f"<{h:x}>", {kind, "BinHashBase"}, cls=kind, h=h, s=s, str=s if s is not None else "{%08x}" % h, serial=s if s is not None else "{%08x}" % h)


FIELDS = ("Alpha", "mBeta", "gamma", "mBeta")


def holder(names=FIELDS, known=True, values=None):
    fs = [Obj(f"field {n}", {"BinField"}, name=hashed(fnv(n), n if known else None), value=(values or list(names))[k], type=k) for k, n in enumerate(names)]
    return Obj("object", {"BinEntry", "BinStruct", "BinEmbedded", "BinObjectWithFields", "BinObjectWithFieldsAndType"}, fields=fs)


KEYS = [k for n in ("Alpha", "alpha", "MBETA", "gamma", "delta", "__type", "") for k in (n, fnv(n), hashed(fnv(n), n, "BinHashValue"), hashed(fnv(n), None, "BinEntryPath"))]


def keyhash(k):
    return k.attrs["h"] if isinstance(k, Obj) else fnv(k) if isinstance(k, str) else k


def find(o, k):
    return next((f for f in o.attrs["fields"] if f.attrs["name"].attrs["h"] == keyhash(k)), None)


def item(o, k):
    f = find(o, k)
    if f is None:
        raise Fails
    return f


def has(o, k):
    return find(o, k) is not None


def param(f, n):
    ps = [a.arg for a in f.node.args.args]
    return ps[n] if n < len(ps) else None


def lookups(c):
    try:
        base = c.prog.cls("binfile.BinObjectWithFields")
    except AnalysisBroken:
        c.r.und(LOOKUP, "cdtb/binfile.py", "BinObjectWithFields not found")
        return
    done = set()
    shapes = [holder(), holder(known=False), holder(()), holder(("delta",))]
    for k in [base, *base.all_subclasses()]:
        for m in ("__getitem__", "__contains__", "get", "getv", "get_path", "__setitem__"):
            f = k.method(m)
            if f is None or (f, m) in done:
                continue
            done.add((f, m))
            i = c.run(f, self_type=k)
            w = f"{f.loc} ({f.qual[5:]})"
            key = param(f, 1)
            if m == "__getitem__":
                judge(c.r, LOOKUP, w, ((f"looking up {q!r}", lambda o=o, q=q: outcome(i, {"self": o, key: q}), ("value", find(o, q)) if has(o, q) else ("raise", "KeyError")) for o in shapes for q in KEYS))
            elif m == "__contains__":
                judge(c.r, LOOKUP, w, ((f"whether {q!r} is there", lambda o=o, q=q: bool(Bin(i, {"self": o, key: q}, item, has).sim.value(i.result)), has(o, q)) for o in shapes for q in KEYS))
            elif m == "get":
                judge(c.r, VALUE, w, ((f"get({q!r})", lambda o=o, q=q: Bin(i, {"self": o, key: q, param(f, 2): "D"}, item, has).sim.value(i.result), find(o, q) or "D") for o in shapes for q in KEYS))
            elif m == "getv":
                judge(c.r, VALUE, w, values(i, f, key))
            elif m == "get_path":
                judge(c.r, VALUE, w, paths(i, f))
            else:
                judge(c.r, LOOKUP, w, stores(i, f, shapes))


def outcome(i, env):
    return Bin(i, env, item, has).outcome()


def plainly(v):
    """What getv gives for a stored value."""
    if isinstance(v, Obj) and v.kinds & {"BinList", "BinMap"}:
        return v.attrs["values"]
    if isinstance(v, Obj) and "BinOption" in v.kinds:
        return v.attrs["value"]
    return v


def stored():
    o = holder(("x",))
    return (0, "", None, False, 3, "text", (1.0, 2.0), o, Obj("list", {"BinList"}, values=[1], vtype=1), Obj("list", {"BinList"}, values=[], vtype=1), Obj("map", {"BinMap"}, values={"a": 1}, ktype=1, vtype=1), Obj("option", {"BinOption"}, value=None, vtype=1),
            Obj("option", {"BinOption"}, value=0, vtype=1), Obj("embedded", {"BinEmbedded"}, fields=[], type=hashed(1)), hashed(0, None, "BinHashValue"))


def values(i, f, key):
    for v in stored():
        o = holder(("a", "b"), values=["other", v])
        for q in ("B", fnv("b"), hashed(fnv("b"), "b")):
            yield f"getv({q!r}) of {v!r}", lambda o=o, q=q: Bin(i, {"self": o, key: q, param(f, 2): "D"}, item, has).sim.value(i.result), plainly(v)
    yield "getv of an absent field", lambda: Bin(i, {"self": holder(("a",)), key: "b", param(f, 2): "D"}, item, has).sim.value(i.result), "D"


def paths(i, f):
    va = f.node.args.vararg.arg if f.node.args.vararg else None
    for v in stored():
        inner = holder(("x", "y"), values=["other", v])
        o = holder(("p", "q"), values=[inner, inner])
        for q in (("q", "y"), ("P", fnv("y"))):
            yield f"get_path{q!r}", lambda q=q: path_value(i, o, va, q, True), plainly(v)
    yield "a path that is not there", lambda: path_value(i, o, va, ("q", "z"), False), "D"
    yield "a path that is not there", lambda: path_value(i, o, va, ("z", "y"), False), "D"


def path_value(i, o, va, q, there):
    b = Bin(i, {"self": o, va: q, "default": "D"}, item, has)
    outer = b.world

    def world(sim, x, nothing):
        # whether every step is there: the lookups of the steps are those of __getitem__
        if x.op == "in" and any(y.op == "mu" for y in subterms(x.args[1])) or x.op == "any":
            return there if x.op == "in" else not there
        return outer(sim, x, nothing)
    b.sim.world = world
    return b.sim.value(i.result)


def stores(i, f, shapes):
    key, val = param(f, 1), param(f, 2)
    for o in shapes:
        for q in KEYS:
            new = Obj("new field", {"BinField"}, name=hashed(keyhash(q)))

            def effect(o=o, q=q, new=new):
                b = Bin(i, {"self": o, key: q, val: new}, item, has)
                out = list(o.attrs["fields"])

                def on(e):
                    if e.kind == "setitem" and b.sim.value(e.recv) is o.attrs["fields"]:
                        out[b.sim.value(e.args[0])] = b.sim.value(e.args[1])
                    elif e.kind == "mcall" and e.name == "append" and e.recv is not None and b.sim.value(e.recv) is o.attrs["fields"]:
                        out.append(b.sim.value(e.args[0]))
                outer = b.world

                def world(sim, x, nothing):
                    if x.op == "idx":
                        for coll, n, v, k, idx in reversed(sim.env):
                            if n == x.args[1]:
                                return idx
                    return outer(sim, x, nothing)
                b.sim.world = world
                b.sim.run(on=on)
                return out
            want = list(o.attrs["fields"])
            at = next((k for k, x in enumerate(want) if x.attrs["name"].attrs["h"] == keyhash(q)), None)
            want = want[:at] + [new] + want[at + 1:] if at is not None else want + [new]
            yield f"setting {q!r}", effect, want


# ---------------------------------------------------------------- comparison

def equality(c):
    base, subs = hashes(c)
    for k in [base, *subs]:
        f, g = k.method("__eq__"), k.method("__hash__")
        if f is None:
            c.r.bad(EQUAL, k.loc if hasattr(k, "loc") else k.qual, "hashed values are compared by identity")
            continue
        own = next((m for m in k.mro() if "__eq__" in m.methods), None)
        if g is None or own is not None and k.mro().index(own) < k.mro().index(next(m for m in k.mro() if m.method("__hash__") is g)):
            c.r.bad(HASHABLE, f"{f.loc} for {k.name}", "comparable but not hashable")
            continue
        ref = (lambda s: xxh(s.lower())) if k.name == "BinPathValue" else fnv
        i, other = c.run(f, self_type=k), param(f, 1)
        judge(c.r, EQUAL, f"{f.loc} for {k.name}", equals(i, other, k.name, ref))
        ih = c.run(g, self_type=k)
        hs = [(h, s) for h in (0, 1, ref("mSpell")) for s in (None, "mSpell", "mspell")]

        def alike(h):
            vs = {Bin(ih, {"self": hashed(x, s, k.name)}).sim.value(ih.result) for x, s in hs if x == h}
            return len(vs) == 1
        judge(c.r, HASHABLE, f"{g.loc} for {k.name}", ((f"the hash of equal values {h:#x}", lambda h=h: alike(h), True) for h in (0, 1, ref("mSpell"))))


def equals(i, other, kind, ref):
    for name in ("mSpell", "TFTSetData", "a/b.bin"):
        h = ref(name)
        for s in (None, name, name.lower(), name.upper()):
            me = hashed(h, s, kind)
            for x, want in ((name, True), (name.upper(), True), (name.lower(), True), (name + "x", False), ("", False), (h, True), (h + 1, False), (0, False), (hashed(h, None, kind), True), (hashed(h, "other", kind), True),
                            (hashed(h + 1, s, kind), False), (hashed(h, s, "BinHashValue"), True), (None, False)):
                yield f"{name} ({'known as ' + s if s else 'unknown'}) == {x!r}", lambda me=me, x=x: bool(Bin(i, {"self": me, other: x}).sim.value(i.result)), want


# ---------------------------------------------------------------- names shown and their lists

def shown(c):
    base, subs = hashes(c)
    for k in [base, *subs]:
        width = 16 if k.name == "BinPathValue" else 8
        for m in ("__str__", "to_serializable"):
            f = k.method(m)
            if f is None:
                c.r.bad(SHOWN, k.loc if hasattr(k, "loc") else k.qual, f"{k.name} has no {m}")
                continue
            i = c.run(f, self_type=k)
            judge(c.r, SHOWN, f"{f.loc} ({k.name}.{m})", ((f"{h:#x} known as {s!r}", lambda h=h, s=s: Bin(i, {"self": hashed(h, s, k.name)}).sim.value(i.result), s if s is not None else "{%0*x}" % (width, h))
                                                        for h in (0, 1, 0xabcdef, 0xfedcba98, *((1 << 40, (1 << 64) - 2) if width == 16 else ())) for s in (None, "mSpell", "a%b", "")))


def lists(c):
    base, subs = hashes(c)
    for k in subs:
        f = k.method("__init__")
        at = k.class_attr("hashfile")
        w = f"{k.module.rel} ({k.name})"
        if f is None or at is None:
            c.r.und(LIST, w, "no list")
            continue
        if k.name in LISTS:
            names = {LISTS[k.name]}
            got = source(c, k.module, at[1])
            c.r.ob(got is None and None if got is None else got in (FILES.get(LISTS[k.name]), "hashes.game.txt" if k.name == "BinPathValue" else None), LIST, w, f"names from {got}")
        i = c.run(f, self_type=k)
        h = mk("param", param(f, 1))
        t, hs = final_attr(i, SELF, "s"), final_attr(i, SELF, "h")
        if hs is not None and hs is not h:
            c.r.bad(LIST, f"{f.loc} for {k.name}", f"the hash is {text(hs)[:80]}")
        # the name must be the one in what the list has loaded
        if t is None:
            c.r.und(LIST, f"{f.loc} for {k.name}", "the name is not known")
            continue
        known = {5: "five", 6: ""}

        def named(x, i=i, t=t, p=param(f, 1)):
            b = Bin(i, {p: x})
            outer = b.world

            def world(sim, y, nothing):
                if y.op == "mcall" and y.args[1] == "load" and "hashfile" in text(y.args[0]) or y.op == "attr" and y.args[1] == "hashes" and "hashfile" in text(y.args[0]) or y.op == "call" and str(y.args[0]).endswith("HashFile.load"):
                    return known
                if y.op == "in" and sim.value(y.args[1]) is known:
                    return sim.value(y.args[0]) in known
                return outer(sim, y, nothing)
            b.sim.world = world
            return b.sim.value(t)
        judge(c.r, LIST, f"{f.loc} for {k.name}", ((f"the name of {x}", lambda x=x: named(x), known.get(x)) for x in (5, 6, 7, 0)))


def source(c, module, node, depth=0):
    """Base name of the list a class attribute stands for."""
    import ast
    if depth > 5:
        return None
    if isinstance(node, ast.Name):
        for m in c.prog.modules.values():
            for st in m.tree.body if hasattr(m, "tree") else ():
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in st.targets):
                    return source(c, m, st.value, depth + 1)
        return None
    if isinstance(node, ast.Call):
        texts = [x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith(".txt")]
        return texts[0].rsplit("/", 1)[-1] if len(texts) == 1 else None
    return None


# ---------------------------------------------------------------- serialisation

def element(n):
    return Obj(f"element {n}", {"BinStruct"}, serial=f"<{n}>")


def field(n, v):
    return Obj(f"field {n}", {"BinField"}, name=hashed(fnv(n), n), value=v, serial=(n, v))


def serial(c):
    def run(name):
        k = c.prog.cls("binfile." + name)
        f = k.method("to_serializable")
        if f is None:
            c.r.bad(SERIAL, f"cdtb/binfile.py ({name})", "cannot be serialised")
            return None, None
        return c.run(f, self_type=k), f"{f.loc} ({name}.to_serializable)"

    def ask(name, cases):
        i, w = run(name)
        if i is not None:
            judge(c.r, SERIAL, w, ((f"{what}", lambda o=o: tidy(Bin(i, {"self": o}).sim.value(i.result)), tidy(want)) for what, o, want in cases))
    fs = [field("a", 1), field("b", None), field("c", "x")]
    d = {"a": 1, "b": None, "c": "x"}
    for name in ("BinEntry", "BinStruct", "BinEmbedded"):
        cases = []
        for t in (hashed(7, "Type"), hashed(7)):
            for n in range(4):
                cases.append((f"{n} fields", Obj("object", {name}, fields=fs[:n], type=t, path=hashed(3, "p")), {**dict(list(d.items())[:n]), "__type": t.attrs["str"]}))
        if name == "BinStruct":
            cases.append(("a null struct", Obj("object", {name}, fields=[], type=hashed(0)), None))
        ask(name, cases)
    ask("BinPatchEntry", [(f"{n} fields", Obj("object", (), fields=fs[:n], path=hashed(3)), dict(list(d.items())[:n])) for n in range(4)])
    vals = [0, None, "", element("e"), hashed(5, None), False, (1.0, 2.0)]
    one = lambda v: v.attrs["serial"] if isinstance(v, Obj) else v
    ask("BinList", [(f"{n} values", Obj("list", (), values=vals[:n], vtype=1), [one(v) for v in vals[:n]]) for n in range(len(vals) + 1)])
    ask("BinOption", [(f"{v!r}", Obj("option", (), value=v, vtype=1), one(v)) for v in vals])
    ks = ["k", 5, hashed(9, "n"), hashed(10)]
    ask("BinMap", [("a map", Obj("map", (), values={x: vals[n] for n, x in enumerate(ks[:m])}, ktype=1, vtype=1), {one(x): one(vals[n]) for n, x in enumerate(ks[:m])}) for m in range(len(ks) + 1)])
    ask("BinField", [(f"{v!r} as {t!r}", Obj("field", (), name=t, value=v, type=1), (t.attrs["str"], one(v))) for v in vals for t in (hashed(4, "f"), hashed(4))])
    ask("BinPatchField", [(f"{v!r}", Obj("field", (), path="a.b", value=v, type=1), ("a.b", one(v))) for v in vals])
    es = [Obj(f"entry {n}", {"BinEntry"}, path=hashed(n, "p%d" % n if n % 2 else None), type=hashed(n), serial={"n": n}) for n in (1, 2, 3)]
    cases = []
    for n in range(4):
        for linked in (None, [], ["x", "y"]):
            for patches in (None, [], es[1:]):
                want = {e.attrs["path"].attrs["str"]: {"n": e.attrs["path"].attrs["h"]} for e in es[:n]}
                if linked is not None:
                    want["__linked"] = linked
                if patches is not None:
                    want["__patches"] = {e.attrs["path"].attrs["str"]: {"n": e.attrs["path"].attrs["h"]} for e in patches}
                cases.append((f"{n} entries, linked {linked}, patches {patches}", Obj("file", (), entries=es[:n], linked_files=linked, patch_entries=patches, version=3, is_patch=patches is not None), want))
    ask("BinFile", cases)


def tidy(v):
    """Comparable form: an empty dict or list is not told apart by the evaluation of an empty comprehension."""
    if isinstance(v, dict):
        return ("dict", tuple((k, tidy(x)) for k, x in v.items())) if v else ("empty",)
    if isinstance(v, (list, tuple)):
        return ("seq", tuple(tidy(x) for x in v)) if v else ("empty",)
    return v
