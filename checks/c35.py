"""C35: cleaning the output removes exactly what is neither exported nor kept."""
from vfa.q import *
from checks.c33 import relative, split_cat, REMOVE

RULE = """From Exporter.clean_output_dir, the walk of the output directory inlined, every deletion is collected with its target, as a term relative to the output directory, and its
condition, expressed with the kind of the directory entry (link, regular file, directory, and what a link points to) and its membership in the kept files and links. Every target must
be an entry that was found when listing the output directory or a directory reached from it; what is deleted must be exactly the links that are not kept links and the regular files
that are not kept files; whole trees are never deleted; only directories that are no links and are not themselves exported are entered, all of them; parent directories are removed
only when empty, and never the output directory itself or what is above it."""

TARGET, KEEP, ALL, WALK, PRUNE = ("only entries found in the output are deleted", "kept files and links are not deleted", "everything else is deleted",
                                  "the walk follows no link and skips no directory", "pruning stays inside the output")
SELF = mk("param", "self")
OUT = mk("attr", SELF, "output")
LINK, FILE, DIR, LF, LD, KF, KS = [mk("truthy", mk("kind", x)) for x in ("link", "file", "dir", "to file", "to dir", "kept file", "kept link")]
WORLD = band(bnot(band(LINK, FILE)), bnot(band(LINK, DIR)), bnot(band(FILE, DIR)), bnot(band(LF, LD)))


def check(c):
    r = c.r
    f = c.prog.func("export.Exporter.clean_output_dir")
    if f is None:
        r.und(TARGET, "export.Exporter", "no clean-up")
        return
    ps = [a.arg for a in f.node.args.args]
    if len(ps) < 3:
        r.und(TARGET, f.loc, "parameters not recognised")
        return
    kept = {mk("param", ps[1]): KF, mk("param", ps[2]): KS}
    i = c.run(f)
    scans = [e for e in i.events if e.kind in ("call", "mcall") and e.name in ("os.scandir", "os.listdir", "os.walk", "pathlib.Path.iterdir", "glob.glob")]
    if len(scans) != 1 or scans[0].name not in ("os.scandir", "os.listdir"):
        r.und(WALK, f.loc, f"the output directory is listed with {[e.name for e in scans]}")
        return
    s = scans[0]
    base = below(s.args[0]) if s.args else None
    if base is None:
        if s.args and not has(s.args[0], OUT):
            r.bad(WALK, s.where(), f"the listed directory is {text(s.args[0])[:100]}")
        else:
            r.und(WALK, s.where(), f"the listed directory is {text(s.args[0])[:100] if s.args else ''}")
        return
    listing = strip_epoch(s.result)
    ents = {x for e in i.events for a in [e.recv, *(e.args or []), e.guard] if isinstance(a, T) for x in subterms(strip_epoch(a)) if x.op == "elem" and x.args[0] is listing}
    if len(ents) != 1:
        r.und(WALK, s.where(), "the entries of the directory are not recognised")
        return
    ent = ents.pop()
    name = mk("attr", ent, "name") if s.name == "os.scandir" else ent
    ps_ = split_cat(base)
    if len(ps_) == 1:
        base = ps_[0]
    elif len(ps_) == 2 and is_const(ps_[1]) and ps_[1].args[0] == "/":
        base = ps_[0]
    path = norm(tm.cat(base, name))
    A = Atoms(ent, path, kept, strip_epoch(norm(mk("call", "os.path.join", base, name))))

    dels = []
    for e in i.events:
        if e.kind not in ("call", "mcall") or e.name not in REMOVE and e.name not in ("rmtree", "unlink", "rmdir"):
            continue
        t = strip_epoch(norm(e.args[0] if e.args else e.recv))
        if e.name in ("os.rmdir", "os.removedirs", "pathlib.Path.rmdir", "rmdir"):
            prune(c, i, e, t, A)
            continue
        rel = A.rel(t)
        if rel is None or not A.it(rel):
            if rel is None and (not has(t, OUT) or simple(t, base, name)):
                r.bad(TARGET, e.where(), f"{text(t)[:100]} is not in the output directory")
            elif rel is None and t.op == "call" and t.args[0] in ("os.path.realpath", "os.readlink"):
                r.bad(TARGET, e.where(), "what a link points to is deleted")
            elif rel is not None and simple(rel, base, name):
                r.bad(TARGET, e.where(), f"{text(rel)[:100]} is not the path of the entry")
            else:
                r.und(TARGET, e.where(), f"path {text(t)[:100]}")
            continue
        cut = cut_short(i, e.loops)
        if cut:
            r.bad(ALL, cut[0].where(), "the entries after this one are not considered")
        r.ok(TARGET, e.where(), "the listed entry")
        g, left = A.read(e.guard, f)
        if left:
            wrong = [x for x in left if x.op == "truthy" and x.args[0].op == "call" and str(x.args[0].args[0]).startswith("os.path.") and simple(x.args[0].args[1], base, name)]
            r.ob(False if wrong else None, KEEP, e.where(), f"condition {text((wrong or left)[0])[:80]}" + (" is not about the entry of the output directory" if wrong else ""))
            continue
        dels.append((g, e))
        if e.name in ("shutil.rmtree", "rmtree"):
            r.ob(not sat(g), KEEP, e.where(), "whole trees are not deleted, whatever they contain")
            continue
        for kind, keep, what in ((LINK, KS, "link"), (FILE, KF, "file")):
            if not sat(band(g, kind)):
                continue
            r.ob(not sat(band(g, kind, keep)), KEEP, e.where(), f"a {what} that is to be kept")
        r.ob(not sat(band(g, DIR)), TARGET, e.where(), "a directory is not deleted as a file")
    if not [o for o in r.obligations if o[1] in (KEEP, TARGET)]:
        r.bad(ALL, f.loc, "nothing is deleted")
        return
    if any(o[0] is None for o in r.obligations):
        return
    done = bor(*[g for g, _ in dels])
    for kind, keep, what in ((LINK, KS, "link that is not a kept link"), (FILE, KF, "regular file that is not a kept file")):
        r.ob(not sat(band(kind, bnot(keep), bnot(done))), ALL, f.loc, f"every {what} is deleted")
    walk(c, i, s, base, name, path, A, f)


def sat(g):
    return tm.satisfiable(band(g, WORLD))


def below(t):
    """Path of a listed directory relative to the output, as the prefix of its entries; None if not understood."""
    t = strip_epoch(norm(t))
    if same(t, OUT):
        return const("")
    return relative(t, OUT)


def simple(rel, base, name):
    """Is a path made only of constants and of the parts of the entry's path?"""
    ok = set(split_cat(base)) | {name}
    if rel.op == "call" and rel.args[0] == "os.path.join":
        return all(simple(x, base, name) for x in rel.args[1:])
    return all(is_const(x) or x in ok for x in split_cat(rel))


class Atoms:
    def __init__(self, ent, path, kept, joined):
        self.ent, self.path, self.kept, self.joined, self.glued = ent, path, kept, joined, False

    def rel(self, t):
        """Path relative to the output directory."""
        t = strip_epoch(norm(t))
        if t.op == "attr" and t.args[1] == "path" and same(t.args[0], self.ent):
            return self.path
        x = relative(t, OUT)
        if x is None and t.op == "call" and t.args[0] == "os.path.join" and strip_epoch(t.args[1]) is OUT:
            x = tm.cat(*t.args[2:])
        return None if x is None else norm(x)

    def is_path(self, t):
        t = strip_epoch(norm(t))
        if same(t, self.ent):
            return True
        x = self.rel(t)
        return x is not None and self.it(x)

    def it(self, rel):
        """Is a relative path the one of the entry? Glued, if it relies on the listed directory ending with a slash."""
        rel = norm(rel)
        if same(rel, self.joined) or rel.op == "cat" and len(rel.args) == 1 and same(rel.args[0], self.joined):
            return True
        if same(rel, self.path):
            self.glued = True
            return True
        return False

    def member(self, coll):
        """The kept collection a collection of relative paths stands for."""
        coll = strip_epoch(norm(coll))
        while coll.op == "call" and coll.args[0] in ("set", "frozenset", "list", "tuple", "sorted") and len([x for x in coll.args if not (isinstance(x, T) and x.op == "uid")]) == 2:
            coll = coll.args[1]
        if coll in self.kept:
            return self.kept[coll]
        es = tm.entries_of(coll)
        if es is not None and len(es) == 1 and es[0].op == "entry" and len(es[0].args[0].args if isinstance(es[0].args[0], T) else es[0].args[0]) == 1:
            loops = es[0].args[0].args if isinstance(es[0].args[0], T) else es[0].args[0]
            if loops[0].op == "loop" and loops[0].args[0] in self.kept and es[0].args[1] is TRUE and es[0].args[2].op == "elem":
                return self.kept[loops[0].args[0]]
        return None

    def atom(self, x):
        if x.op == "truthy":
            y = x.args[0]
            nofollow = any(isinstance(a, T) and a.op == "kw" and a.args[0] == "follow_symlinks" and a.args[1] is FALSE for a in (y.args if isinstance(y, T) and y.op in ("call", "mcall") else ()))
            n = None
            if y.op == "call" and isinstance(y.args[0], str) and y.args[0].startswith("os.path.") and len(y.args) > 1:
                n = y.args[0][8:] if self.is_path(y.args[1]) else None
                if n is None and y.args[0] in ("os.path.exists", "os.path.lexists", "os.path.isdir") and same(strip_epoch(y.args[1]), OUT):
                    return TRUE
            elif y.op == "mcall" and same(y.args[0], self.ent):
                n = {"is_symlink": "islink", "is_file": "isfile", "is_dir": "isdir"}.get(y.args[1])
            if n == "islink":
                return LINK
            if n == "isfile":
                return FILE if nofollow else bor(FILE, band(LINK, LF))
            if n == "isdir":
                return DIR if nofollow else bor(DIR, band(LINK, LD))
            if n == "lexists":
                return TRUE
            if n == "exists":
                return bor(bnot(LINK), LF, LD)
            if y in self.kept:
                return None
        if x.op == "in" and x.args[1].op == "ite":
            g, a, b = x.args[1].args
            a, b = self.atom(mk("in", x.args[0], a)), self.atom(mk("in", x.args[0], b))
            return None if a is None or b is None else bor(band(g, a), band(bnot(g), b))
        if x.op == "in" and self.it(x.args[0]):
            k = self.member(x.args[1])
            if k is not None:
                return k
        if x.op == "is" and x.args[1] is NONE and (x.args[0] in self.kept):
            return FALSE
        return None

    def read(self, g, f):
        """(condition over the kinds, atoms that are not understood)"""
        g = strip_epoch(norm(g))
        g = tm.rewrite(g, lambda x: self.atom(x) if x.op in ("truthy", "in", "is") and self.atom(x) is not None else x)
        known = {LINK, FILE, DIR, LF, LD, KF, KS}
        left = []
        for x in tm.atoms(g):
            if x in known:
                continue
            if x.op == "exc":
                continue
            # a condition that makes no difference to what is deleted is ignored
            hi, lo = assume(g, {x: True}), assume(g, {x: False})
            if tm.equiv(hi, lo):
                continue
            left.append(x)
        g = tm.rewrite(g, lambda x: FALSE if x.op == "exc" else x)
        return g, left


def walk(c, i, s, base, name, path, A, f):
    r = c.r
    steps = [e for e in i.events if e.kind == "mcall" and e.name in ("append", "add", "appendleft", "insert", "extend") and any(l in e.loops for l in s.loops if l.op == "while")
             and e.args and base.op == "popped" and worklist(i, e)]
    if base.op != "popped":
        r.und(WALK, s.where(), f"the directories to list come from {text(base)[:80]}")
        return
    if not steps:
        r.bad(WALK, s.where(), "sub-directories are not entered")
        return
    first = base.args[0]
    es = tm.entries_of(first)
    init = [x.args[2] for x in (es or []) if x.op == "entry" and not x.args[0].args and x.args[1] is TRUE]
    r.ob(True if init == [const("")] else None, WALK, s.where(), "the walk starts at the output directory")
    done = FALSE
    for e in steps:
        v = strip_epoch(norm(e.args[-1]))
        slash = v.op == "cat" and is_const(v.args[-1]) and str(v.args[-1].args[0]) == "/"
        bare_ = tm.cat(*v.args[:-1]) if slash else v
        if not A.it(bare_) or not slash and A.glued:
            r.ob(False if simple(v, base, name) or A.it(bare_) else None, WALK, e.where(), f"{text(v)[:80]} is listed next, not the directory that was found")
            continue
        g, left = A.read(e.guard, f)
        if left:
            r.und(WALK, e.where(), f"condition {text(left[0])[:80]}")
            return
        r.ob(not sat(band(g, LINK)), WALK, e.where(), "links are not followed")
        r.ob(not sat(band(g, KF)), WALK, e.where(), "the files inside an exported directory are left alone")
        done = bor(done, g)
    r.ob(not sat(band(DIR, bnot(KF), bnot(done))), WALK, s.where(), "every directory is entered")


def worklist(i, e):
    """Is it the list the walk starts with, by its first element?"""
    t = e.recv
    if t.op == "mu":
        return below(e.args[-1]) is None
    return any(x.op == "entry" and not x.args[0].args and is_const(x.args[2]) for x in tm.entries_of(strip_epoch(t)) or [])


def has(t, x):
    return tm.mentions(t, lambda y: y is x)


def prune(c, i, e, t, A):
    r = c.r
    if e.name == "os.removedirs":
        r.bad(PRUNE, e.where(), "os.removedirs also removes the output directory and the directories above it, if they are empty")
        return
    def parent(x):
        """0: not the parent of a deleted entry"""
        x = strip_epoch(norm(x))
        return x.op == "call" and x.args[0] == "os.path.dirname" and A.is_path(x.args[1])
    up = None
    if t.op == "mu" and t in i.mus:
        init, step, loops = i.mus[t]
        st = strip_epoch(norm(step))
        if not (st.op == "call" and st.args[0] == "os.path.dirname" and strip_epoch(st.args[1]) is t):
            r.und(PRUNE, e.where(), f"next is {text(step)[:80]}")
            return
        t0 = init
    else:
        t0 = t
    if not parent(t0):
        rel = A.rel(t0)
        if rel is not None and same(rel, A.path):
            r.ok(PRUNE, e.where(), "an empty directory that was found")
            if t0 is t:
                return
        else:
            r.und(PRUNE, e.where(), f"starts at {text(t0)[:80]}")
            return
    g = strip_epoch(norm(e.guard))

    def isout(x):
        return any(x.op == o for o in ("==", "truthy")) and has(x, t) and has(x, OUT) and (
            x.op == "==" and {flat(y) for y in x.args} == {t, OUT} or
            x.op == "truthy" and x.args[0].op == "call" and x.args[0].args[0] == "os.path.samefile" and {flat(y) for y in x.args[0].args[1:3]} == {t, OUT})
    stops = [x for x in tm.atoms(g) if isout(x)]
    other = [x for x in tm.atoms(g) if has(x, OUT) and has(x, t) and x not in stops]
    if stops and not tm.satisfiable(band(g, bor(*stops))):
        r.ok(PRUNE, e.where(), "stops at the output directory")
    elif other:
        r.und(PRUNE, e.where(), f"guard {text(other[0])[:80]}")
    else:
        r.bad(PRUNE, e.where(), "an empty output directory, or what is above it, is removed")


def flat(x):
    x = strip_epoch(x)
    while x.op == "call" and x.args[0] in ("os.path.normpath", "os.path.abspath", "os.path.realpath", "os.fspath"):
        x = x.args[1]
    return x
