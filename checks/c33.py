"""C33: a converter writes exactly the outputs it announces."""
import os
from vfa.q import *

RULE = """For each converter, the paths it announces (every element its generator yields, or its returned collection holds, with the condition) and the file-system effects of its conversion (files opened for writing, images saved,
directories created, copies, deletions), helpers inlined, are collected as terms over the source path. Every effect must be on an announced path of the output directory, or inside an announced directory; deletions too. For each
announced path, an effect creating exactly that path must take place whenever the conversion ends without an error. The lazy test must be the existence of all announced paths. The exporter must convert a file, test whether it
is already converted and announce its outputs with the same converter, chosen by the same path."""

INSIDE, MISSING, DELETE, LAZY, SAME = ("only announced outputs are written", "announced outputs are all written on success", "only announced outputs are removed", "the lazy mode tests all announced outputs",
                                       "announced, tested and converted with the same converter and path")
OPAQUE = ["tools.write_file_or_remove", "tools.write_dir_or_remove", "binfile.BinFile.__init__", "binfile.BinFile.to_serializable", "rstfile.RstFile.__init__", "sknfile.SknFile.__init__", "sknfile.SknFile.to_obj",
          "export.TexConverter.tex_to_dds", "export.AtlasInfoConverter.parse_atlasinfo", "export.ChampionSkinInfoConverter.parse_championskininfo"]
REMOVE = {"os.remove", "os.unlink", "shutil.rmtree", "os.rmdir", "os.removedirs", "pathlib.Path.unlink", "pathlib.Path.rmdir"}
MKDIR = {"os.mkdir", "os.makedirs", "pathlib.Path.mkdir"}
DEST = {"shutil.copy": 1, "shutil.copyfile": 1, "shutil.copy2": 1, "shutil.copytree": 1, "shutil.move": 1, "os.rename": 1, "os.replace": 1, "os.symlink": 1, "os.link": 1}


def converters(c):
    base = c.prog.cls("export.FileConverter")
    out = []
    for k in c.prog.classes.values():
        for k in (k if isinstance(k, list) else [k]):
            f, g = k.method("convert"), k.method("converted_paths")
            if f is not None and g is not None and k is not base and not f.abstract and not g.abstract:
                out.append(k)
    return out


def check(c):
    ks = converters(c)
    if not ks:
        c.r.und(INSIDE, "export", "no converter found")
    for k in ks:
        one(c, k)
    usage(c)


def argname(f, k):
    return mk("param", f.node.args.args[k].arg)


def announced(c, k):
    """[(condition, path term)] or None."""
    f = k.method("converted_paths")
    i = c.run(f, self_type=k)
    path = argname(f, 1)
    out = []
    if f.is_gen:
        for e in i.events:
            if e.kind == "yield":
                if e.loops or e.name not in ("yield",):
                    return None
                out.append((strip_epoch(e.guard), strip_epoch(norm(e.args[0]))))
        stops = [e for e in i.events if e.kind == "raise"]
    else:
        stops = []
        for g, v in tm.cases(strip_epoch(norm(i.result))):
            if v.op in ("tuple", "list", "set"):
                out += [(g, x) for x in v.args]
            elif tm.entries_of(v) is not None:
                for e in tm.entries_of(v):
                    if e.op != "entry" or e.args[0].args:
                        return None
                    out.append((band(g, e.args[1]), e.args[2]))
            else:
                return None
    if stops:
        return None
    return [(g, tm.subst(v, {path: mk("param", "path")})) for g, v in out]


def relative(t, output):
    """Parts of the path relative to the output directory, or None."""
    t = norm(t)
    ps = list(t.args) if t.op == "cat" else [t]
    head = ps[0]
    if head.op == "call" and head.args[0] == "os.path.join" and head.args[1] is output:
        rest = [x for x in head.args[2:] if x.op != "uid"]
        out = []
        for k, x in enumerate(rest):
            out += ([const("/")] if k else []) + [x]
        return tm.cat(*out, *ps[1:])
    if head is output and len(ps) > 1 and ps[1].op == "const" and str(ps[1].args[0]).startswith("/"):
        return tm.cat(const(ps[1].args[0].lstrip("/")), *ps[2:])
    if head.op == "call" and head.args[0] == "os.path.join" and head.args[1].op == "call" and head.args[1].args[0] == "os.path.join":
        inner = relative(head.args[1], output)
        if inner is not None:
            out = [inner]
            for x in head.args[2:]:
                if x.op != "uid":
                    out += [const("/"), x]
            return tm.cat(*out, *ps[1:])
    if head.op == "call" and head.args[0] == "os.path.join" and head.args[1].op == "cat":
        inner = relative(head.args[1], output)
        if inner is not None:
            out = [inner]
            for x in head.args[2:]:
                out += [const("/"), x]
            return tm.cat(*out, *ps[1:])
    if head.op == "call" and head.args[0] in ("os.path.normpath", "os.path.abspath", "os.fspath") and len(ps) == 1:
        return relative(head.args[1], output)
    return None


def split_cat(t):
    return list(t.args) if t.op == "cat" else [t]


def inside(rel, base):
    """Is a path strictly inside a directory, by its text?"""
    a, b = split_cat(rel), split_cat(base)
    k = 0
    while k < len(b) and k < len(a) and a[k] is b[k]:
        k += 1
    if k == len(b):
        return k < len(a) and a[k].op == "const" and str(a[k].args[0]).startswith("/")
    return k == len(b) - 1 and k < len(a) and a[k].op == "const" and b[k].op == "const" and str(a[k].args[0]).startswith(str(b[k].args[0]) + "/")


SAMPLES = ["game/a/b.c/d.e1", "x.y", "game/assets/Foo.BAR", "game/data/menu/en_us/main.stringtable", "a/.hidden", "noext", "plugins/p.q/r.s.t"]


def evaluate(t, path):
    """Text of a path term for a source path."""
    def leaf(x, nothing):
        if x is mk("param", "path"):
            return path
        if x.op == "call" and x.args[0] in ("os.path.splitext", "os.path.split", "os.path.dirname", "os.path.basename"):
            return getattr(os.path, x.args[0].split(".")[-1])(calc(x.args[1], leaf))
        if x.op == "slice":
            return calc(x.args[0], leaf)[slice(*[calc(y, leaf) for y in x.args[1:]])]
        if x.op == "mcall" and x.args[1] in ("replace", "lower", "upper", "rsplit", "split", "rpartition", "partition", "removesuffix", "strip", "rstrip", "removeprefix"):
            return getattr(calc(x.args[0], leaf), x.args[1])(*[calc(y, leaf) for y in x.args[2:] if y.op != "uid"])
        if x.op == "index" and x.args[0].op == "elem":
            return "<read from the file>"
        if x.op == "call" and x.args[0] == "os.path.join":
            return os.path.join(*[calc(y, leaf) for y in x.args[1:] if y.op != "uid"])
        return nothing
    return calc(t, leaf)


def compare(a, b):
    """Are two path terms the same for every path? True, False or None."""
    if same(a, b):
        return True
    try:
        return None if all(evaluate(a, p) == evaluate(b, p) for p in SAMPLES) else False
    except (Unknown, Fails, Exception):
        return None


def within(a, b):
    """Is a path inside a directory? False, or None if it may be."""
    try:
        return False if not any(evaluate(a, p).startswith(evaluate(b, p) + "/") for p in SAMPLES) else None
    except (Unknown, Fails, Exception):
        return None


def filled(i, e):
    """Condition under which something is written to the file opened by an event."""
    h = strip_epoch(e.result)
    gs = []
    for x in i.events:
        if x.seq <= e.seq or x.kind not in ("call", "mcall", "vcall") or x.kind == "mcall" and x.name in ("close", "flush", "seek", "tell", "truncate"):
            continue
        if x.recv is not None and strip_epoch(x.recv) is h or any(isinstance(a, T) and strip_epoch(a) is h for a in [*(x.args or []), *(x.kw or {}).values()]):
            gs.append(TRUE if len(x.loops) > len(e.loops) else strip_epoch(x.guard))
    return bor(*gs)


def swallowed(i, e):
    """A write to the file opened by an event that is in a `try` with a handler that does not raise."""
    h = strip_epoch(e.result)
    for x in i.events:
        if x.seq <= e.seq or x.kind not in ("call", "mcall", "vcall"):
            continue
        if not (x.recv is not None and strip_epoch(x.recv) is h or any(isinstance(a, T) and strip_epoch(a) is h for a in [*(x.args or []), *(x.kw or {}).values()])):
            continue
        for tid, part in x.zones:
            if part != "body" or tid not in i.tries:
                continue
            for n, _ in enumerate(i.tries[tid].handlers):
                inside_ = [y for y in i.events if (tid, f"handler{n}") in y.zones]
                if not any(y.kind == "raise" for y in inside_) and not any(y.kind in ("call", "mcall") and y.name in REMOVE for y in inside_):
                    return x
    return None


def effects(i):
    """[(kind, path term, event)]: file-system effects."""
    out = []
    for e in i.events:
        if e.kind == "call" and e.name == "repo:tools.write_file_or_remove":
            out.append(("file", e.args[0], e))
        elif e.kind == "call" and e.name == "repo:tools.write_dir_or_remove":
            out.append(("dir", e.args[0], e))
        elif is_write_open(e):
            out.append(("file", e.args[0] if e.kind == "call" else e.recv, e))
        elif e.kind in ("call", "mcall") and e.name in REMOVE:
            out.append(("remove", e.args[0] if e.args else e.recv, e))
        elif e.kind in ("call", "mcall") and e.name in MKDIR:
            out.append(("dir", e.args[0] if e.args else e.recv, e))
        elif e.kind == "call" and e.name in DEST and len(e.args) > 1:
            out.append(("file", e.args[1], e))
            if e.name in ("shutil.move", "os.rename", "os.replace"):
                out.append(("remove", e.args[0], e))
        elif e.kind == "mcall" and e.name == "save" and e.args and strip_epoch(e.args[0]).op in ("cat", "call") and not handle(e.args[0]):
            out.append(("file", e.args[0], e))
        elif e.kind == "mcall" and e.name in ("write_bytes", "write_text", "touch"):
            out.append(("file", e.recv, e))
    return out


def handle(t):
    t = strip_epoch(t)
    return t.op == "call" and (t.args[0] in ("open", "io.open", "io.BytesIO") or str(t.args[0]).startswith("repo:"))


def one(c, k):
    r = c.r
    ann = announced(c, k)
    f = k.method("convert")
    w = f.loc
    if ann is None:
        r.und(INSIDE, w, f"{k.name}: announced paths not known")
        return
    i = c.run(f, self_type=k, opaque=[q for q in OPAQUE if c.prog.func(q) is not None])
    output, path = argname(f, 2), argname(f, 3)
    ren = {path: mk("param", "path")}
    bads = bor(*[strip_epoch(e.guard) for e in i.events if e.kind == "raise" and not e.loops])
    created = []
    for kind, t, e in effects(i):
        t = tm.subst(strip_epoch(norm(t)), ren)
        rel = relative(t, output)
        if rel is None and t.op == "call" and t.args[0] == "os.path.dirname" and kind == "dir":
            inner = relative(t.args[1], output)
            if inner is not None and any(compare(inner, a) for _, a in ann):
                continue
        g = tm.subst(strip_epoch(e.guard), ren)
        label = DELETE if kind == "remove" else INSIDE
        if rel is None:
            n = strip_epoch(t)
            if n is output or n.op == "call" and n.args[0] == "os.path.dirname":
                (r.ok if kind == "dir" else r.bad)(label, e.where(), f"{k.name}: {text(t)[:80]}")
            else:
                r.und(label, e.where(), f"{k.name}: path {text(t)[:100]}")
            continue
        hits = [(ga, a) for ga, a in ann if same(rel, a) or inside(rel, a)]
        if not hits:
            vs = [compare(rel, a) for _, a in ann] + [within(rel, a) for _, a in ann]
            r.ob(False if all(v is False for v in vs) else None, label, e.where(), f"{k.name}: {text(rel)[:80]} is not among the announced {[text(a)[:50] for _, a in ann]}")
            continue
        if entails_cases(g, bor(*[ga for ga, _ in hits])):
            r.ok(label, e.where(), f"{k.name}: {text(rel)[:60]}")
        else:
            r.bad(label, e.where(), f"{k.name}: {text(rel)[:60]} also when it is not announced")
        if kind != "remove":
            created.append((kind, rel, g, e))
    for ga, a in ann:
        ws = [(kind, g, e) for kind, rel, g, e in created if same(rel, a) and not e.loops]
        under_ = [e for kind, rel, g, e in created if inside(rel, a) and not same(rel, a)]
        maybe = [e for kind, rel, g, e in created if same(rel, a) and e.loops]
        done = bor(*[g for _, g, _ in ws])
        ok = success_entails(band(ga, bnot(tm.subst(bads, ren))), done)
        if not ws:
            (r.und if maybe else r.bad)(MISSING, w, f"{k.name}: {text(a)[:60]} is announced and never written")
        elif ok:
            r.ok(MISSING, ws[0][2].where(), f"{k.name}: {text(a)[:60]}")
            for kind, g, e in ws:
                if kind == "file" and (e.name.startswith("repo:") or is_write_open(e)):
                    n = filled(i, e)
                    good = success_entails(band(strip_epoch(e.guard), bnot(bads)), n)
                    sw = swallowed(i, e)
                    if good and sw is not None:
                        r.bad(MISSING, sw.where(), f"{k.name}: an error when writing {text(a)[:60]} is ignored, leaving it incomplete")
                    r.ob(good or (None if n is FALSE else False), MISSING, e.where(), f"{k.name}: {text(a)[:60]} is left empty unless {text(n)[:100]}")
                if kind == "dir":
                    emptied = [x for kk, t, x in effects(i) if kk == "remove" and x.seq < e.seq and same(relative(tm.subst(strip_epoch(norm(t)), ren), output) or NONE, a)]
                    other = [x for x in i.events if x.kind == "call" and x.name.startswith("repo:") and x.name[5:] not in OPAQUE]
                    r.ob(bool(emptied) or (None if other else False), INSIDE, e.where(), f"{k.name}: the directory {text(a)[:60]} is emptied before it is filled")
        else:
            r.bad(MISSING, ws[0][2].where(), f"{k.name}: {text(a)[:60]} is announced, and written only if {text(done)[:100]}")
    removed = [(tm.subst(strip_epoch(norm(t)), ren), e) for kind, t, e in effects(i) if kind == "remove"]
    for t, e in removed:
        rel = relative(t, output)
        late = [x for kind, q, g, x in created if rel is not None and (same(q, rel) or inside(q, rel)) and x.seq < e.seq]
        if late and band(strip_epoch(e.guard), bnot(bads)) is not FALSE and not any(z[1].startswith("handler") for z in e.zones):
            r.bad(MISSING, e.where(), f"{k.name}: {text(rel)[:60]} is removed after it was written")
    lazy(c, k, ann)


def success_entails(g, h):
    return entails_cases(noexc(g), noexc(h)) or entails_cases(g, h)


def noexc(g):
    """Opened files are opened: atoms on the success of the very calls are true."""
    return tm.rewrite(g, lambda x: TRUE if x.op == "ok" else x)


def lazy(c, k, ann):
    r = c.r
    f = k.method("converted_paths_exist")
    if f is None:
        r.und(LAZY, k.loc, f"{k.name}: no test")
        return
    i = c.run(f, self_type=k)
    output, path = argname(f, 1), argname(f, 2)
    tests = set()

    def canon_test(x):
        if x.op == "truthy" and x.args[0].op == "call" and x.args[0].args[0] in ("os.path.lexists", "os.path.exists"):
            rel = relative(x.args[0].args[1], output)
            if rel is not None:
                tests.add(rel)
                return mk("truthy", mk("there", rel))
        if x.op == "call" and x.args[0] in ("os.path.lexists", "os.path.exists"):
            rel = relative(x.args[1], output)
            if rel is not None:
                return mk("there", rel)
        return x
    got = tm.rewrite(tm.subst(truth(strip_epoch(norm(i.result))), {path: mk("param", "path")}), canon_test)
    want = band(*[bor(bnot(g), mk("truthy", mk("there", a))) for g, a in ann])
    got = tm.rewrite(got, lambda x: mk("truthy", x) if x.op == "there" else x.args[0] if x.op == "truthy" and x.args[0].op == "truthy" else x)
    if equiv_cases(got, want):
        r.ok(LAZY, f.loc, k.name)
    else:
        free = [x for x in tm.atoms(got) if not (x.op == "truthy" and x.args[0].op == "there")]
        r.ob(None if free else False, LAZY, f.loc, f"{k.name}: the outputs are considered done if {text(got)[:120]}")


# ---------------------------------------------------------------- usage

def usage(c):
    r = c.r
    choose = "export.Exporter._get_converter"
    if c.prog.func(choose) is None:
        r.und(SAME, choose, "not found")
        return
    fs = [f for f in c.prog.funcs.values() if f.cls is not None and f.cls.name == "Exporter"]
    seen = 0
    for f in fs:
        i = c.run(f, opaque=[choose, "wad.Wad.read_file_data"])
        conv = [e for e in i.events if e.kind in ("vcall", "mcall") and e.name == "convert" and e.recv is not None]
        asked = [e for e in i.events if e.kind in ("vcall", "mcall") and e.name == "converted_paths"]
        for e in conv + asked:
            p = e.args[-1]
            rec = strip_epoch(e.recv)
            if not repo_call(rec, choose):
                r.und(SAME, e.where(), f"{e.name} of {text(rec)[:80]}")
                continue
            seen += 1
            a = strip_epoch(rec.args[-1])
            r.ob(a is strip_epoch(p), SAME, e.where(), f"the converter chosen for {text(a)[:60]} is used for {text(p)[:60]}")
        for e in conv:
            out = strip_epoch(e.args[1]) if len(e.args) > 1 else None
            mine = [a for a in asked if a.seq < e.seq and a.loops[:len(e.loops)] == e.loops]
            for a in mine:
                same_ = strip_epoch(a.recv) is strip_epoch(e.recv) and strip_epoch(a.args[-1]) is strip_epoch(e.args[-1])
                r.ob(same_, SAME, a.where(), f"outputs of {text(a.args[-1])[:50]} by {text(a.recv)[-60:]} are tested before {text(e.args[-1])[:50]} is converted")
                roots = {strip_epoch(x.args[0]) for x in i.events if x.kind == "call" and x.name == "os.path.join" and x.args and x.seq > a.seq and x.seq < e.seq and len(x.args) > 1 and tm.mentions(strip_epoch(x.args[1]), lambda y: y.op == "elem")}
                for root in roots:
                    r.ob(root is out, SAME, a.where(), f"outputs are tested in {text(root)[:40]} and written in {text(out)[:40]}")
    if not seen:
        r.und(SAME, "export.Exporter", "no use of converters found")
    # the choice is a function of the path only
    i = c.run(choose)
    if [e for e in i.events if e.kind in ("setattr", "setitem", "delitem")]:
        r.und(SAME, choose, "the choice of the converter changes the exporter")
