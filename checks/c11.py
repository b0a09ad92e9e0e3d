"""C11: the PBE pseudo-version is never ordered against numbered patches."""
from vfa.q import *

RULE = """Every entry point of the modules that decide something from a patch's version (exporter methods, command handlers, patch classes) is
analysed with its helpers inlined. An ordering comparison between the version of a patch and another version is a
violation unless it is guarded, wherever the test is written, by a test that the version is not the PBE one. Each event of the entry point must
be reached by the PBE version under exactly the condition under which it is reached by a version more recent than every
version it is compared with. The integer form of a version is 100*X+Y for X.Y and at least 9900 for the PBE version."""

PURE = {"str", "int", "len", "isinstance", "tuple", "re.search", "re.match", "search", "match", "lower", "split", "format", "debug", "info"}
ORD = {"<", "<=", ">", ">="}
ROOTS = ("export.CdragonRawPatchExporter.process", "export.CdragonRawPatchExporter.export_tft_data",
         "export.CdragonRawPatchExporter.export_arena_data", "export.CdragonRawPatchExporter.from_directory",
         "__main__.command_export", "__main__.command_versions", "__main__.command_bin_dump", "tftdata.main", "arenadata.main",
         "storage.Patch.latest", "storage.parse_storage_component")
HEAVY_MODULES = ("hashes", "wad", "binfile", "rstfile", "sknfile", "patcher", "rads")
HEAVY = ("export.Exporter.", "tftdata.TftTransformer.", "arenadata.ArenaTransformer.", "storage.Storage.", "storage.BaseVersion.__",
         "storage.PatchVersion.__", "export.paths_to_tree", "export.reduce_common", "storage.Patch._create")


def opaque(c, root):
    out = set()
    for f in c.prog.funcs.values():
        q = f.qual.split(".", 1)[1]
        if q == root:
            continue
        if q.split(".")[0] in HEAVY_MODULES or q.startswith(HEAVY) or (q.startswith("export.") and f.cls is not None and f.cls.name.endswith("Converter")):
            out.add(q)
        if root == "export.CdragonRawPatchExporter.process" and q.startswith("export.CdragonRawPatchExporter.export_"):
            out.add(q)
        if root == "__main__.command_export" and q.startswith("export."):
            out.add(q)
    return out


def core(x):
    """The version an expression gets its numbers from."""
    while x.op in ("attr", "index", "slice") and (x.op != "attr" or x.args[1] in ("t", "s")) or x.op == "cat" and len(x.args) == 1:
        x = x.args[0]
    return x


def patchlike(i, x):
    """Is it the version of a patch (not a constant one)?"""
    if x.op == "attr" and x.args[1] == "version":
        b = x.args[0]
        while b.op == "attr":
            b = b.args[0]
        return True
    if x.op == "popped":
        return True
    return x.op == "param" and "version" in str(x.args[0])


def isconst(x):
    return is_const(x) or x.op == "tuple"


def maintest(x, V):
    """Is the atom a test that V is the PBE version?"""
    if x.op in ("==", "is"):
        for a, b in (x.args[:2], x.args[1::-1]):
            if (core(a) is V or as_text(a) is V or a.op == "call" and a.args[0] == "repo:cdtb.storage.BaseVersion.__str__" and a.args[1] is V) and ismain(b):
                return True
    if x.op == "isinst" and x.args[0] is mk("attr", V, "t") and x.args[1] == "str":
        return True
    if x.op == "in" and core(x.args[0]) is V and x.args[1].op in ("tuple", "list", "set") and len(x.args[1].args) == 1 and ismain(x.args[1].args[0]):
        return True
    return False


def ismain(b):
    return is_const(b, "main") or b.op == "obj" and any(isinstance(a, T) and is_const(a, "main") for a in b.args) or \
        b.op == "call" and "PatchVersion" in str(b.args[0]) and any(isinstance(a, T) and is_const(a, "main") for a in b.args[1:])


def made(i):
    """Objects made by PatchVersion(...), and with 'main'."""
    objs, mains = set(), set()
    for e in i.events:
        if e.kind == "new" and e.name == "PatchVersion":
            objs.add(e.recv)
            if e.args and is_const(e.args[0], "main"):
                mains.add(e.recv)
    return objs, mains


def one(c, root):
    r = c.r
    f = c.prog.func(root)
    i = c.run(f, root, opaque=opaque(c, root))
    objs, mains = made(i)
    seen = []
    n = 0
    memo = {}
    for e in i.events:
        if e.kind != "cmp" or e.name not in ORD or len(e.args) < 2:
            continue
        for a, b in (e.args[:2], e.args[1::-1]):
            V = core(a)
            if isconst(V) or V in objs or not patchlike(i, V) or isconst(b) and a is V:
                continue
            if patchlike(i, core(b)) and core(b) not in objs and b.op == a.op and core(b) is not V and not str(core(b)).startswith("x") and both_patches(a, b):
                continue
            if True:
                n += 1
                tests = [x for x in tm.atoms(e.guard) if maintest(x, V) or x.op == "==" and V in x.args and any(y in mains for y in x.args)]
                ok = tests and any(tm.entails(e.guard, bnot(t)) for t in tests)
                r.ob(bool(ok), "a patch's version is ordered only when it is not the PBE one", e.where(), f"{text(e.args[0])} {e.name} {text(e.args[1])}")
                if V not in seen:
                    seen.append(V)
    for e in i.events:
        for x in tm.atoms(e.guard):
            if x.op == "==":
                for a in x.args[:2]:
                    V = core(a)
                    if not isconst(V) and V not in objs and V not in seen and maintest(x, V):
                        seen.append(V)
    for V in seen:
        def sub(main, V=V):
            def g(x):
                if maintest(x, V) or x.op == "==" and V in x.args and any(isinstance(y, T) and y in mains for y in x.args):
                    return TRUE if main else FALSE
                if x.op == "<" and not main:
                    a, b = x.args[:2]
                    if tm.mentions(a, lambda y: y is V) and not tm.mentions(b, lambda y: y is V):
                        return FALSE
                    if tm.mentions(b, lambda y: y is V) and not tm.mentions(a, lambda y: y is V):
                        return TRUE
                return x
            return g
        bad = None
        for e in i.events:
            if e.kind not in ("call", "mcall", "raise", "setattr", "setitem", "return", "yield") or "Version" in (e.name or "") or e.name in PURE:
                continue
            if not tm.mentions(e.guard, lambda y: y is V):
                continue
            a, b = tm.rewrite(e.guard, sub(True)), tm.rewrite(e.guard, sub(False))
            if a is b or tm.equiv(a, b):
                continue
            if tm.mentions(a, lambda y: y.op == "<" and tm.mentions(y, lambda z: z is V)):
                continue   # an unguarded comparison, reported above
            bad = bad or (e, a, b)
        if bad:
            e, a, b = bad
            r.bad("the PBE version is handled like the most recent one", e.where(), f"{e.kind} {e.name}: {text(a)[-160:]} instead of {text(b)[-160:]}")
        else:
            r.ok("the PBE version is handled like the most recent one", f"{f.module.rel}:{f.node.lineno} in {root}", text(V))


def both_patches(a, b):
    """Both sides are versions of patches of one listing (self and other, or elements)."""
    return a.op == "attr" and b.op == "attr" and a.args[1] == b.args[1] == "version"


def asint(c):
    r = c.r
    k = c.prog.cls("storage.PatchVersion")
    f = k.method("as_int")
    i = c.run(f, "storage.PatchVersion.as_int", self_type=k)
    S = mk("param", f.node.args.args[0].arg)
    w = f"{f.module.rel}:{f.node.lineno} in storage.PatchVersion.as_int"
    tests = [x for x in tm.atoms(tm.truth(i.result)) + [a for g, _ in tm.cases(i.result) for a in tm.atoms(g)] if maintest(x, S)]
    res = i.result
    def sub(main):
        return tm.rewrite(res, lambda x: (TRUE if main else FALSE) if maintest(x, S) else x)
    m, v = sub(True), sub(False)
    if is_const(m):
        n = m.args[0]
        r.ob(isinstance(n, (int, float)) and n >= 9900, "the PBE version has the highest integer form", w, text(m))
    else:
        (r.bad if closed(m, lambda x: core(x) is S) else r.und)("the PBE version has the highest integer form", w, text(m))
    t = mk("attr", S, "t")
    def get(k):
        return {mk("index", t, const(k)), mk("unp", t, k), mk("index", t, const(k - 2))}
    lin = tm.lin(v)
    x = [a for a in lin if a is not None and a.op in ("index", "unp") and core(a) is S or a is not None and a.op == "unp"]
    co = {position(a): lin[a] for a in lin if a is not None}
    if set(co) <= {0, 1} and None not in co:
        r.ob(co == {0: 100, 1: 1} and None not in lin, "the integer form of X.Y is 100*X+Y", w, text(v))
    else:
        r.und("the integer form of X.Y is 100*X+Y", w, text(v))


def position(a):
    if a.op in ("index", "unp") and len(a.args) >= 2:
        k = a.args[1]
        k = k.args[0] if isinstance(k, T) and k.op == "const" else k
        return k if isinstance(k, int) and k >= 0 else k + 2 if isinstance(k, int) else "?"
    return "?"


def check(c):
    for q in ROOTS:
        c.part(one, q)
    c.part(lambda c: asint(c))
