"""C40: exports of one language never leak into another."""
from vfa.q import *
from checks.c36 import SELF

RULE = """In TftTransformer.export and ArenaTransformer.export, the outermost loop around each written document is the loop over languages. The origin of what is written, and of everything that is changed or read for a translation inside the loop, is traced
through indexing and iteration to the call that made it: the document must be a deep copy made in this turn of the loop of a template that nothing in the loop changes, the string table must be made in this turn from the path at this language, the file must
be named after this language, and no collection made outside the loop may be filled in it and read again. The constructors of string tables must not share their entries. In stringtable_paths, each path is stored under the language in its own name."""

COPY, TABLE, NAME, PATHS = ("a document is translated from its own copy of the untranslated data", "only the string table of the language is used", "a file is named after the language of its translations", "the path of a string table is stored under its language")
DUMPS = ("json_dump", "json_dumps", "json.dump", "json.dumps", "ujson.dump", "ujson.dumps")
CHANGES = ("update", "append", "extend", "insert", "pop", "popitem", "clear", "remove", "setdefault", "sort", "reverse", "__setitem__")


def check(c):
    n = 0
    for q, tmpl in (("tftdata.TftTransformer", "build_template"), ("arenadata.ArenaTransformer", "build_template")):
        f = c.prog.func(q + ".export")
        if f is None:
            c.r.und(COPY, q, "no export")
            continue
        n += 1
        Export(c, f, q + "." + tmpl).check()
    tables(c)
    paths(c)


class Export:
    def __init__(self, c, f, tmpl):
        self.c, self.r, self.f = c, c.r, f
        mod = tmpl.split(".")[0]
        self.tmpl = tmpl.split(".")[-1]
        self.i = c.run(f, f.qual[5:] + " languages", opaque=[x for x in (tmpl, "tftdata.load_translations", "tools.stringtable_paths", "tools.json_dump", "tools.json_dumps", "rstfile.RstFile.__init__") if c.prog.func(x) is not None])

    def check(self):
        r, i = self.r, self.i
        dumps = [e for e in i.events if e.kind == "call" and e.name.replace("repo:tools.", "") in DUMPS and e.args]
        if not dumps:
            r.und(COPY, self.f.loc, "nothing is written")
            return
        for d in dumps:
            loops = [l for l in d.loops if l.op in ("loop", "while")]
            if not loops:
                r.bad(COPY, d.where(), "not written for each language")
                continue
            self.loop = loops[0]
            self.lang = self.language(self.loop)
            if self.lang is None:
                r.und(COPY, d.where(), f"the loop over {text(self.loop)[:80]}")
                continue
            self.document(d)
            self.name(d)
            self.inside = [e for e in i.events if e.loops and e.loops[0] is self.loop]
            self.changes()
            self.translations()

    def language(self, l):
        """The term for the language in the loop."""
        if l.op != "loop":
            return None
        coll = norm(l.args[0])
        while coll.op == "call" and coll.args[0] in ("list", "sorted", "tuple", "set", "dict.fromkeys") and len(coll.args) == 2:
            coll = norm(coll.args[1])
        base = coll
        while base.op == "mcall" and base.args[1] in ("keys", "items"):
            base = base.args[0]
        if repo_call(base, "stringtable_paths"):
            return {mk("key", *l.args[:2]), mk("elem", *l.args[:2])}
        if coll.op in ("param", "sorted", "post", "mu", "ite", "build") or base.op == "param":
            return {mk("elem", *l.args[:2])}
        return None

    def made(self, t):
        """Events of the calls that made a value."""
        t = strip_epoch(norm(t))
        return [e for e in self.i.events if e.kind in ("call", "new") and (e.result is not None and strip_epoch(norm(e.result)) is t or e.recv is t)]

    def origin(self, t, depth=0):
        """[(call or other term, depth)]: what a value is a part of."""
        t = norm(t)
        out = []
        for g, v in tm.cases(t):
            v = strip_epoch(v)
            d = depth
            while True:
                if v.op in ("index", "elem", "val", "key", "zelem", "attr", "slice", "rev", "sorted"):
                    if v.op == "attr" and v.args[0] is SELF:
                        break
                    if v.op not in ("rev", "sorted", "slice"):
                        d += 1
                    v = strip_epoch(v.args[0])
                elif v.op == "mcall" and v.args[1] in ("get", "items", "values", "keys", "setdefault"):
                    d += v.args[1] in ("get", "setdefault")
                    v = strip_epoch(v.args[0])
                elif v.op == "call" and v.args[0] in ("list", "iter", "enumerate", "zip", "reversed", "sorted", "itertools.chain", "tuple") and len(v.args) > 1 and v.args[1].op != "build":
                    if len(v.args) > 2:
                        for x in v.args[2:]:
                            if x.op != "uid":
                                out += self.origin(x, d)
                    v = strip_epoch(v.args[1])
                elif v.op in ("ite",):
                    for x in v.args[1:]:
                        out += self.origin(x, d)
                    v = None
                    break
                else:
                    break
            if v is not None:
                out.append((v, d))
        return out

    def in_loop(self, t):
        es = self.made(t)
        return bool(es) and all(e.loops and (e.loops[0] is self.loop or self.twin(e.loops[0])) for e in es)

    def outside(self, t):
        es = self.made(t)
        return bool(es) and any(not e.loops or e.loops[0] is not self.loop and not self.twin(e.loops[0]) for e in es)

    def twin(self, l):
        """The same loop for another value of the languages."""
        return self.language(l) is not None if l.op == "loop" else False

    def fresh(self, v, d):
        """True: made for this language; False: shared between languages; None: unknown. d: how deep in v the value lies."""
        if v.op in ("build", "dict", "list", "tuple", "set"):
            inner = [x for x in subterms(v) if repo_call(x, self.tmpl)]
            return True if not inner else None
        if v.op == "call":
            n = v.args[0]
            if n == "copy.deepcopy" or n in ("json.loads", "pickle.loads", "ujson.loads"):
                return True if self.in_loop(v) else False if self.outside(v) else None
            if repo_call(v, self.tmpl):
                return True if self.in_loop(v) else False if self.outside(v) else None
            if n in ("copy.copy", "dict") and len(v.args) > 1:
                if d == 0 and self.in_loop(v):
                    return True
                got = [self.fresh(x, y + d) for x, y in self.origin(v.args[1])]
                return False if False in got else True if got and all(got) else None
        if v.op == "mcall" and v.args[1] == "copy":
            if d == 0:
                return True
            got = [self.fresh(x, y + d) for x, y in self.origin(v.args[0])]
            return False if False in got else True if got and all(got) else None
        if v.op == "attr" and v.args[0] is SELF:
            return False
        return None

    def document(self, d):
        r = self.r
        for v, k in self.origin(d.args[0]):
            if v.op == "dict" or v.op == "build":
                # made of parts
                parts_ = [x for x in subterms(v) if x is not v and (repo_call(x, self.tmpl) or x.op == "call" and x.args[0] == "copy.deepcopy")]
                got = [self.fresh(x, 1) for x in parts_]
            else:
                got = [self.fresh(v, 1)]
            ok = False if False in got else True if got and all(x is True for x in got) else None
            # what is never changed may be shared
            if ok is False and not self.changed(v):
                ok = None
            r.ob(ok, COPY, d.where(), f"written: {text(v)[:100]}")
            if ok is True:
                src = [x for x in subterms(v) if repo_call(x, self.tmpl)]
                r.ob(True if src else None, COPY, d.where(), "a copy of the template")

    def changed(self, v):
        for e in self.i.events:
            if e.loops and e.loops[0] is self.loop and self.is_change(e) and any(x is v for x, _ in self.origin(e.recv)):
                return True
        return False

    def is_change(self, e):
        return e.recv is not None and (e.kind in ("setitem", "delitem", "setattr") or e.kind == "mcall" and e.name in CHANGES)

    def changes(self):
        r = self.r
        for e in self.inside:
            if not self.is_change(e):
                continue
            for v, d in self.origin(e.recv):
                if v.op in ("mu", "post", "opaque", "cobj", "obj"):
                    r.ob(None, COPY, e.where(), f"changed: {text(v)[:80]}")
                    continue
                got = self.fresh(v, d)
                if v.op == "build" and self.carried(v):
                    got = False
                r.ob(got, COPY, e.where(), f"changed: {text(e.recv)[:80]} of {text(v)[:80]}")

    def carried(self, v):
        """Is a local collection kept from one language to the next?"""
        return any(x.op in ("mu", "carry", "carryval") for x in subterms(v))

    def translations(self):
        """Every string table that is read in the loop."""
        r = self.r
        n = 0
        for e in self.i.events:
            if e.kind == "new" and e.name.endswith("RstFile") or e.kind == "call" and e.name == "repo:tftdata.load_translations":
                if e.loops and e.loops[0] is not self.loop and self.twin(e.loops[0]):
                    continue
                n += 1
                if not e.loops or e.loops[0] is not self.loop:
                    r.bad(TABLE, e.where(), "a string table is loaded once for all languages")
                    continue
                p = e.args[0] if e.args else next(iter((e.kw or {}).values()), NONE)
                self.path(p, e)
        if not n:
            r.und(TABLE, self.f.loc, "no string table is loaded")
        # what is written into the document
        for e in self.inside:
            if e.kind == "setitem" and len(e.args) > 1:
                for t in (e.args[1], e.guard):
                    shared = [x for x in subterms(t) if x.op in ("mu", "carry") and not self.inner(x)]
                    if shared:
                        self.r.bad(TABLE, e.where(), f"depends on {text(shared[0])[:80]}, kept from the language before")
                        break

    def inner(self, x):
        """Loop variables of a loop inside the one over languages."""
        m = self.i.mus.get(x)
        return m is not None and len(m[2]) > 0 and m[2][-1] is not self.loop

    def path(self, p, e):
        r = self.r
        p = strip_epoch(norm(p))
        # a file opened in the loop
        if p.op == "call" and p.args[0] == "open" and len(p.args) > 1:
            p = strip_epoch(norm(p.args[1]))
        for g, v in tm.cases(p):
            v = strip_epoch(v)
            langs = {strip_epoch(x) for x in self.lang}
            if v.op == "index" and repo_call(v.args[0], "stringtable_paths"):
                r.ob(True if strip_epoch(v.args[1]) in langs else False if not self.mentions_lang(v.args[1]) else None, TABLE, e.where(), f"string table of {text(v.args[1])[:80]}")
            elif v.op == "val" and strip_epoch(mk("key", *v.args)) in langs:
                r.ok(TABLE, e.where(), "string table of this language")
            elif v.op == "mcall" and v.args[1] == "get" and repo_call(v.args[0], "stringtable_paths"):
                r.ob(True if strip_epoch(v.args[2]) in langs and len([x for x in v.args[3:] if x.op != "uid"]) == 0 else False, TABLE, e.where(), f"string table of {text(v.args[2])[:80]}")
            else:
                r.und(TABLE, e.where(), f"string table at {text(v)[:80]}")

    def mentions_lang(self, t):
        langs = {strip_epoch(x) for x in self.lang}
        return any(strip_epoch(x) in langs for x in subterms(strip_epoch(norm(t))))

    def name(self, d):
        r = self.r
        fs = [a for a in d.args[1:] if a.op != "uid"] if not d.name.endswith("dumps") else []
        if not fs:
            r.und(NAME, d.where(), "file not known")
            return
        p = strip_epoch(norm(fs[0]))
        if p.op == "call" and p.args[0] == "open" and len(p.args) > 1:
            p = strip_epoch(norm(p.args[1]))
        langs = {strip_epoch(x) for x in self.lang}

        if not self.mentions_lang(p):
            r.bad(NAME, d.where(), f"written to {text(p)[:80]}")
            return

        def leaf(x, nothing):
            if strip_epoch(x) in langs:
                return LANG
            if x is mk("param", "output"):
                return "OUT"
            return strcalc(x, ev, nothing)

        def ev(x):
            return calc(x, leaf)
        for LANG in ("en_us", "zh_cn"):
            try:
                got = ev(p)
            except (Unknown, Fails):
                r.und(NAME, d.where(), text(p)[:80])
                return
            r.ob(got == f"OUT/{LANG}.json", NAME, d.where(), f"{LANG} is written to {got}")


def tables(c):
    """String tables do not share anything."""
    r = c.r
    q = "rstfile.RstFile.__init__"
    f = c.prog.func(q)
    if f is None:
        r.und(TABLE, q, "not found")
    else:
        i = c.run(f, f.qual[5:] + " tables")
        es = [e for e in i.events if e.kind == "setattr" and e.name == "entries" and e.recv is SELF]
        if not es:
            r.bad(TABLE, f.loc, "the entries of a string table are not its own")
        for e in es:
            v = strip_epoch(norm(e.args[0]))
            own = v.op in ("dict", "build") or v.op == "call" and v.args[0] == "dict"
            shared = v.op in ("param", "global", "attr", "default", "const") or any(x.op in ("param",) and x is not mk("param", "path_or_f") for x in [v])
            r.ob(True if own else False if shared else None, TABLE, e.where(), f"entries are {text(v)[:60]}")
        first = min((e.seq for e in es), default=0)
        for e in i.events:
            if e.kind == "setitem" and e.recv is mk("attr", SELF, "entries"):
                r.bad(TABLE, e.where(), "entries are added to a shared collection")
    q = "tftdata.load_translations"
    f = c.prog.func(q)
    if f is None:
        return
    i = c.run(f, f.qual[5:] + " tables", opaque=["rstfile.RstFile.__init__"])
    for g, v in tm.cases(norm(i.result)):
        v = strip_epoch(v)
        own = v.op in ("obj", "build", "dict") or v.op == "call" and v.args[0] == "dict"
        shared = v.op in ("global", "param", "modvar", "attr", "default", "lib")
        r.ob(True if own else False if shared else None, TABLE, f.loc, f"translations are {text(v)[:80]}")
        if v.op == "build" and any(x.op in ("param", "global", "default") and x is not mk("param", f.node.args.args[0].arg) for e in tm.entries_of(v) or () if e.op != "entry" for x in subterms(e)):
            r.bad(TABLE, f.loc, f"translations of another table are kept: {text(v)[:80]}")


def paths(c):
    r = c.r
    q = "tools.stringtable_paths"
    f = c.prog.func(q)
    if f is None:
        r.und(PATHS, q, "not found")
        return
    i = c.run(f, f.qual[5:])
    ps = [a.arg for a in f.node.args.args]
    builds = {x for x in subterms(norm(i.result)) if x.op == "build" and x.args[0] == "dict"}
    if not builds:
        r.und(PATHS, f.loc, text(i.result)[:80])
    for b in builds:
        for e in tm.entries_of(b) or ():
            if e.op != "entry":
                r.und(PATHS, f.loc, text(e)[:80])
                continue
            ls = e.args[0].args
            if len(ls) != 1 or ls[0].op != "loop":
                if ls:
                    r.und(PATHS, f.loc, text(e)[:80])
                continue
            pair(r, f, ls[0], e.args[1], e.args[2], e.args[3], ps)


def pair(r, f, l, g, value, key, ps):
    coll = norm(l.args[0])
    while coll.op == "call" and coll.args[0] in ("sorted", "list", "iter") or coll.op == "sorted":
        coll = norm(coll.args[1] if coll.op == "call" else coll.args[0])
    if coll.op != "call" or coll.args[0] not in ("glob.glob", "glob.iglob"):
        r.und(PATHS, f.loc, f"paths from {text(coll)[:80]}")
        return
    e = mk("elem", *l.args[:2])
    for base, game, lang in (("/out/pt_br/game", "tft", "zh_cn"), ("out", "lol", "en_us"), ("/x/en_us", "lol", "fr_fr")):
        def leaf(x, nothing):
            if x.op == "param" and x.args[0] in ps:
                return base if x.args[0] == ps[0] else game
            if x is e:
                return path
            if is_call(x, "glob.escape"):
                return ev(x.args[1])
            return strcalc(x, ev, nothing)

        def ev(x):
            return calc(x, leaf)
        try:
            path = ev(coll.args[1])
            if "??_??" not in path:
                r.und(PATHS, f.loc, f"pattern {path}")
                return
            path = path.replace("??_??", lang)
            if not ev(g):
                continue
            k, v = ev(key), ev(value)
        except Unknown:
            r.und(PATHS, f.loc, f"{text(key)[:80]}: {text(value)[:60]}")
            return
        except Fails:
            r.bad(PATHS, f.loc, f"no language is found in {path}")
            continue
        r.ob(k == lang and v == path, PATHS, f.loc, f"{v} is stored as {k}")
