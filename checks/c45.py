"""C45: hash guessing is never aborted by what it reads or finds."""
import ast
from vfa.q import *
from vfa import terms as tm

RULE = """The methods of the guessers are analysed for the ways in which the content of a file, or a hash found, could end the guessing with an error. Recording (transitively: whatever changes the known or unknown hashes) while iterating over a live view
of them is followed through variables, views, lazy wrappers, generators and the parameters of methods; a copy ends it. A hash is removed from the unknown ones (with an operation that fails on a missing one) only under a test of their current state, not of a copy made before a loop. Bytes of a file are decoded only inside a handler for the error, leniently, or when the regular expression that selected them admits
ASCII only. A value parsed from JSON is searched or indexed only where it is known to be an object (a type test, or a file whose structure is known). A `%` template made from a known path or file name has its own `%` escaped. The result of a regular
expression is used only where it has matched, the content and the path of a file only where they are known to be there, and a length before a match is decoded only where enough bytes precede it."""

LIVE, DECODE, JSON, FORMAT, MATCH = ("known hashes are not changed while being iterated over", "undecodable bytes are skipped", "JSON values of another shape are skipped", "paths used as formats are escaped", "only matches are used")
REMOVE = "a hash found again is not removed again"
EMPTY, BOUNDS = "files without content or known path are skipped", "lengths are read within the content"
COPIES = {"list", "set", "sorted", "tuple", "frozenset", "dict", "len", "sum", "max", "min", "any", "all", "str", "build_wordlist", "Counter"}
LAZY = {"iter", "enumerate", "zip", "map", "filter", "reversed", "progress_iterator", "progress_iterate", "chain", "islice", "takewhile", "dropwhile", "starmap", "from_iterable", "filterfalse"}
FIELDS = ("known", "unknown")


def check(c):
    try:
        base = c.prog.cls("hashes.HashGuesser")
    except AnalysisBroken:
        c.r.und(LIVE, "cdtb/hashes.py", "HashGuesser not found")
        return
    classes = [base] + [k for k in base.all_subclasses() if k is not base]
    c.part(live_views, classes)
    seen = set()
    for k in classes[1:] or classes:
        for name, f in sorted({**base.methods, **k.methods}.items()):
            if f in seen or name.startswith("__") or f.is_classmethod or name.startswith("_") and f.cls is base:
                continue
            if f.cls is base:
                seen.add(f)
            c.part(method, k, f)
    c.part(removals, classes)


# ---------------------------------------------------------------- live views

class Live:
    """Which functions record, and which expressions are live views."""

    def __init__(self, c, classes):
        self.c, self.classes = c, classes
        self.methods = {}
        for k in classes:
            for n, f in k.methods.items():
                self.methods.setdefault(n, []).append(f)
        self.found = {}
        self.own = {}                     # class -> name of the global whose load() is self.known
        for k in classes:
            ini = k.methods.get("__init__")
            if ini is not None:
                for x in ast.walk(ini.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__" and x.args and isinstance(x.args[0], ast.Name):
                        self.own[k] = x.args[0].id
        self.records = set()
        self.lazyfields = set()
        funcs = [f for fs in self.methods.values() for f in fs]
        todo = True
        while todo:
            todo = False
            for f in funcs:
                if f not in self.records and self.recording(f.node, f):
                    self.records.add(f)
                    todo = True
        self.consumes = {}                # (f, param): iterates over it while recording
        self.liveparams = {}              # f -> params which a caller gives a live view
        self.nodes = 0
        for _ in range(4):
            before = (len(self.consumes), sum(len(v) for v in self.liveparams.values()), len(self.lazyfields))
            self.found = {}
            for f in funcs:
                Flow(self, f).run()
            if before == (len(self.consumes), sum(len(v) for v in self.liveparams.values()), len(self.lazyfields)):
                break

    def callee(self, x, f):
        """Methods called by a call node."""
        if isinstance(x.func, ast.Attribute) and (isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls") or isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super"):
            fs = self.methods.get(x.func.attr, [])
            if isinstance(x.func.value, ast.Call):
                fs = [g for g in fs if g.cls is not f.cls]
            return fs
        return []

    def field(self, x):
        return isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in FIELDS

    def recording(self, node, f):
        alias = {t.id for s in ast.walk(f.node) if isinstance(s, ast.Assign) and self.field(s.value) for t in s.targets if isinstance(t, ast.Name)}
        mine = lambda x: self.field(x) or isinstance(x, ast.Name) and x.id in alias
        for x in ast.walk(node):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and mine(x.value):
                return x
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and mine(x.func.value) and x.func.attr in ("pop", "update", "setdefault", "clear", "popitem", "remove", "add", "discard"):
                    return x
                if any(g in self.records for g in self.callee(x, f)):
                    return x
            if isinstance(x, ast.AugAssign) and mine(x.target):
                return x
        return None


class Flow:
    """Forward pass over a function: which names may hold a live view."""

    def __init__(self, world, f):
        self.w, self.f = world, f
        self.yields = False

    def run(self):
        env = {}
        ps = [a.arg for a in self.f.node.args.args]
        for p in ps[1:]:
            env[p] = {("param", p)} | ({"live"} if p in self.w.liveparams.get(self.f, ()) else set())
        self.block(self.f.node.body, env)

    def join(self, a, b):
        return {k: a.get(k, set()) | b.get(k, set()) for k in {*a, *b}}

    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return env
        if isinstance(s, ast.If):
            self.expr(s.test, env)
            return self.join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.expr(s.iter, env)
                self.iterated(s.iter, s.body, env, s)
                env = dict(env)
                for t in ast.walk(s.target):
                    if isinstance(t, ast.Name):
                        env[t.id] = set()
            else:
                self.expr(s.test, env)
            for _ in range(2):
                env = self.join(env, self.block(s.body, dict(env)))
            return self.block(s.orelse, env)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for w in s.items:
                self.expr(w.context_expr, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            out = self.block(s.body, dict(env))
            for h in s.handlers:
                out = self.join(out, self.block(h.body, self.join(env, out)))
            out = self.block(s.orelse, out)
            return self.block(s.finalbody, out)
        if isinstance(s, ast.Match):
            self.expr(s.subject, env)
            outs = [self.block(k.body, dict(env)) for k in s.cases]
            for o in outs:
                env = self.join(env, o)
            return env
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x, env)
        if isinstance(s, ast.Assign):
            v = self.live(s.value, env)
            env = dict(env)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and "live" in v and t.attr not in FIELDS:
                    self.w.lazyfields.add(t.attr)
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            env = {**env, s.target.id: self.live(s.value, env)}
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            # a view is replaced by a new set (views -= / |= sets)
            env = {**env, s.target.id: set()}
        return env

    # ---- values

    def live(self, x, env):
        """What the expression may be a live view of: "live", ("param", p)."""
        w = self.w
        if isinstance(x, ast.Attribute):
            if w.field(x) or isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in w.lazyfields:
                return {"live"}
            return set()
        if isinstance(x, ast.Name):
            return set(env.get(x.id, ()))
        if isinstance(x, ast.NamedExpr):
            return self.live(x.value, env)
        if isinstance(x, ast.IfExp):
            return self.live(x.body, env) | self.live(x.orelse, env)
        if isinstance(x, ast.BoolOp):
            return set().union(*(self.live(v, env) for v in x.values))
        if isinstance(x, ast.Starred):
            return set()
        if isinstance(x, ast.GeneratorExp):
            return set().union(*(self.live(g.iter, env) for g in x.generators))
        if isinstance(x, ast.Call):
            fn = x.func
            name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
            for g in w.callee(x, self.f):
                if g.is_gen or any(isinstance(s, ast.Return) and s.value is not None for s in ast.walk(g.node)):
                    return set(self.result(g, x, env))
            if isinstance(fn, ast.Attribute):
                if name in ("values", "items", "keys") and not x.args:
                    return self.live(fn.value, env)
                if name == "load" and (isinstance(fn.value, ast.Attribute) and fn.value.attr == "hashfile" or isinstance(fn.value, ast.Name) and fn.value.id == w.own.get(self.f.cls)):
                    return {"live"}
                if name in ("copy", "deepcopy"):
                    return set()
            if name in LAZY:
                return set().union(set(), *(self.live(a, env) for a in x.args))
            return set()
        return set()

    def result(self, g, x, env):
        """Is what a method gives lazily taken from a live view?"""
        out = set()
        nested = [n for n in ast.walk(g.node)]
        e0 = {}
        if g.is_gen:
            for n in nested:
                if isinstance(n, ast.For) and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for b in n.body for y in ast.walk(b)) and "live" in Flow(self.w, g).live(n.iter, e0):
                    out.add("live")
                if isinstance(n, ast.YieldFrom) and "live" in Flow(self.w, g).live(n.value, e0):
                    out.add("live")
        elif g is not self.f:
            for n in nested:
                if isinstance(n, ast.Return) and n.value is not None and (isinstance(n.value, (ast.GeneratorExp, ast.Attribute)) or isinstance(n.value, ast.Call) and not self.w.callee(n.value, g)) and "live" in Flow(self.w, g).live(n.value, e0):
                    out.add("live")
        return out

    # ---- uses

    def expr(self, x, env):
        for n in self.top(x):
            self.w.nodes += 1
            if isinstance(n, ast.Call):
                for g in self.w.callee(n, self.f):
                    ps = [a.arg for a in g.node.args.args]
                    ps = ps if g.is_static else ps[1:]
                    for p, a in [*zip(ps, n.args), *((k.arg, k.value) for k in n.keywords if k.arg in ps)]:
                        v = self.live(a, env)
                        if "live" in v:
                            self.w.liveparams.setdefault(g, set()).add(p)
                        for q in v:
                            if q != "live" and (g, p) in self.w.consumes:
                                self.w.consumes[self.f, q[1]] = True
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                el = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                for g in n.generators:
                    self.iterated(g.iter, el + g.ifs, env, n)

    def top(self, x):
        return list(ast.walk(x))

    def iterated(self, it, body, env, node):
        v = self.live(it, env)
        if not v:
            return
        for b in body:
            rec = self.w.recording(b, self.f)
            if rec is None:
                continue
            if isinstance(node, ast.For) and self.ends(body, rec):
                continue
            for q in v:
                if q == "live":
                    self.w.found[(self.f, node.lineno if hasattr(node, "lineno") else 0)] = (it, rec)
                else:
                    self.w.consumes[self.f, q[1]] = True

    def ends(self, body, rec):
        """The loop is left right after the recording (same block, next statement)."""
        for n in ast.walk(ast.Module(body=list(body), type_ignores=[])):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for k, s in enumerate(b):
                    if any(y is rec for y in ast.walk(s)) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)):
                        return k + 1 < len(b) and any(isinstance(y, (ast.Break, ast.Return)) for y in b[k + 1:])
        return False


def live_views(c, classes):
    w = Live(c, classes)
    for (f, line), (it, rec) in sorted(w.found.items(), key=lambda kv: (kv[0][0].qual, kv[0][1])):
        c.r.bad(LIVE, f"{f.module.rel}:{line} in {f.qual[5:]}", f"{ast.unparse(it)[:80]} is iterated over while {ast.unparse(rec)[:80]} may change it")
    if not w.records:
        c.r.und(LIVE, "cdtb/hashes.py", "no method that records a hash was found")
    elif not w.found:
        c.r.ok(LIVE, "cdtb/hashes.py", f"{sum(len(v) for v in w.methods.values())} methods, {len(w.records)} of which record; {w.nodes} expressions")


# ---------------------------------------------------------------- hashes found twice

def removals(c, classes):
    """A hash is removed from the unknown ones only where it is still among them."""
    base, n = classes[0], 0
    for name, f in sorted(base.methods.items()):
        if name.startswith("_") or f.is_classmethod or f.is_static:
            continue
        i = c.run(f, name=f.qual, self_type=base, opaque={g.qual[5:] for g in base.methods.values() if g.node.name in HELPERS and not g.node.name.startswith("_") and g is not f} | {"hashes.HashFile.load"})
        for e in i.events:
            if e.kind == "mcall" and e.name in ("remove", "pop") and len(e.args) == 1 and e.recv is not None and unknown(e.recv) or e.kind == "delitem" and e.recv is not None and unknown(e.recv):
                n += 1
                removal(c, i, e, base)
    if n:
        c.r.ok(REMOVE, base.loc, f"{n} place(s)")


def unknown(t):
    return t.op == "attr" and t.args[1] in FIELDS and t.args[0] is mk("param", "self")


def removal(c, i, e, base):
    if caught(c, i, e, "KeyError"):
        return
    h = strip_uid(e.args[0])
    tests = [a for a in tm.atoms(strip_uid(e.guard)) if a.op == "in" and a.args[0] is h]
    held = [a for a in tests if implies(strip_uid(e.guard), a)]
    if any(unknown(a.args[1]) for a in held):
        return
    if any(h.op in ("elem", "key") and unknown(x) for x in subterms(h)):
        return
    copies = [a for a in held if a.args[1].op == "build" and mentions_unknown(a.args[1])]
    if copies:
        loops = [x for x in e.loops if x.op != "loop" or x.args[0].op in ("param", "attr", "call", "mcall", "gen", "zip", "enumerate")]
        if not e.loops:
            return
        fresh = any(isinstance(s, (ast.Assign, ast.NamedExpr)) and any(isinstance(y, ast.Attribute) and y.attr == "unknown" for y in ast.walk(s.value))
                    for f in base.methods.values() for lp in ast.walk(f.node) if isinstance(lp, (ast.For, ast.While)) for s in ast.walk(lp))
        (c.r.bad if loops and not fresh else c.r.und)(REMOVE, e.loc, f"{text(h)[:60]} was among the unknown hashes when they were copied, but may have been found since")
        return
    if any(mentions_unknown(x) for x in (e.guard, *e.loops, *e.args)):
        c.r.und(REMOVE, e.loc, f"condition not understood: {text(e.guard)[-100:]}")
    else:
        c.r.bad(REMOVE, e.loc, f"{text(h)[:60]} may not be among the unknown hashes")


def mentions_unknown(t):
    return any(x.op == "attr" and x.args[1] == "unknown" for x in subterms(t))


# ---------------------------------------------------------------- values read

HELPERS = ("check", "is_known", "check_iter", "check_text_list", "check_basenames", "directory_list", "_add_known")


def method(c, k, f):
    r = c.r
    opaque = {f"{g.cls.qual[5:]}.{g.name}" if hasattr(g, "name") else g.qual[5:] for h in [k, *c.prog.cls("hashes.HashGuesser").all_subclasses(), c.prog.cls("hashes.HashGuesser")] for g in h.methods.values() if g.node.name in HELPERS and g is not f}
    opaque |= {g.qual[5:] for g in c.prog.funcs.values() if g.module.rel.endswith("wad.py")} | {"hashes.progress_iterator", "hashes.HashFile.load"}
    i = c.run(f, name=f.qual, self_type=k, opaque=opaque)
    where = f"{f.loc} ({k.qual.split('.')[-1]}.{f.node.name})"
    if i.abrupt if hasattr(i, "abrupt") and isinstance(i.abrupt, bool) else False:
        r.und(MATCH, where, "analysis stopped")
    n = {DECODE: decodes(c, i), JSON: jsons(c, i), FORMAT: formats(c, i), MATCH: matches(c, i), EMPTY: absent(c, i), BOUNDS: bounds(c, i)}
    for rule, m in n.items():
        if m:
            r.ok(rule, where, f"{m} place(s)")


def ops(e):
    return [*e.args, *e.kw.values(), *([e.recv] if e.recv is not None else [])]


def caught(c, i, e, exc):
    for t in handlers_of(i, e):
        for n, names in enumerate(t.handlers):
            if catches(c.prog, names or ("BaseException",), exc):
                return not any(x.kind == "raise" and in_zone(x, t.id, f"handler{n}") for x in i.events)
    return False


LENIENT = ("ignore", "replace", "backslashreplace", "surrogateescape")


def decodes(c, i):
    n = 0
    for e in i.events:
        if e.kind == "mcall" and e.name == "decode" and e.recv is not None:
            data, args, kw = e.recv, list(e.args), e.kw
        elif e.kind == "call" and e.name == "str" and len(e.args) + len(e.kw) > 1:
            data, args, kw = e.args[0], list(e.args[1:]), e.kw
        else:
            continue
        if not from_file(data):
            continue
        n += 1
        mode = kw.get("errors", args[1] if len(args) > 1 else None)
        enc = kw.get("encoding", args[0] if args else const("utf-8"))
        if mode is not None and mode.op == "const" and mode.args[0] in LENIENT or enc.op == "const" and str(enc.args[0]).lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1", "cp437"):
            continue
        if caught(c, i, e, "UnicodeDecodeError"):
            continue
        a = ascii_only(data)
        if a or tested(e.guard, data):
            continue
        (c.r.bad if a is False else c.r.und)(DECODE, e.loc, f"{text(data)[:100]} may not be decodable")
    return n


def from_file(t):
    return any(x.op in ("call", "mcall", "elem", "param") for x in subterms(t))


def plain(t):
    t = strip_uid(t)
    while t.op == "mcall" and t.args[1] in ("lower", "upper", "strip", "rstrip", "lstrip"):
        t = t.args[0]
    return t


def tested(g, data):
    """Have the bytes been tested for ASCII?"""
    ok = [a for a in tm.atoms(g) if bare(a).op == "mcall" and bare(a).args[1] == "isascii" and plain(bare(a).args[0]) is plain(data)]
    return bool(ok) and bool(implies(g, bor(*ok)))


def pattern_of(m):
    """(pattern, flags known) of a match object term."""
    while m.op in ("elem", "first", "last"):
        m = m.args[0]
    if m.op == "mcall" and m.args[1] in ("finditer", "match", "search", "fullmatch") and m.args[0].op in ("call", "ite"):
        r = m.args[0]
        if r.op == "call" and r.args[0] == "re.compile":
            return r.args[1]
        return None
    if m.op == "call" and m.args[0] in ("re.finditer", "re.match", "re.search", "re.fullmatch"):
        return m.args[1]
    return None


def ascii_only(t):
    """Were the bytes selected by a pattern which admits ASCII only? True, False, None if not known."""
    while t.op == "mcall" and t.args[1] in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "removeprefix", "removesuffix") or t.op == "slice":
        if t.op == "mcall" and t.args[1] == "replace":
            if not all(is_const(x) and isinstance(x.args[0], bytes) and x.args[0].isascii() for x in t.args[2:4]):
                return None
        t = t.args[0]
    if t.op == "mcall" and t.args[1] == "group":
        p = pattern_of(t.args[0])
        which = [x for x in t.args[2:] if x.op != "uid"]
        g = which[0] if which else const(0)
        if p is None or p.op != "const" or g.op != "const":
            return None
        return admits_ascii_only(p.args[0], g.args[0])
    if t.op == "index":
        p = pattern_of(t.args[0])
        if p is not None and p.op == "const" and t.args[1].op == "const":
            return admits_ascii_only(p.args[0], t.args[1].args[0])
    if t.op == "const":
        return isinstance(t.args[0], bytes) and t.args[0].isascii()
    return False


def admits_ascii_only(pattern, group):
    import re._parser as P
    import re._constants as K
    try:
        tree = P.parse(pattern)
    except Exception:
        return None

    def sub(items):
        """Do the items match ASCII only?"""
        for op, av in items:
            if op is K.LITERAL:
                if av > 127:
                    return False
            elif op is K.NOT_LITERAL or op is K.ANY:
                return False
            elif op is K.IN:
                if any(k is K.NEGATE for k, _ in av):
                    return False
                for k, v in av:
                    if k is K.LITERAL and v > 127 or k is K.RANGE and v[1] > 127 or k is K.CATEGORY and v in (K.CATEGORY_NOT_DIGIT, K.CATEGORY_NOT_SPACE, K.CATEGORY_NOT_WORD):
                        return False
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
                if not sub(av[2]):
                    return False
            elif op is K.SUBPATTERN:
                if not sub(av[3]):
                    return False
            elif op is K.ATOMIC_GROUP:
                if not sub(av):
                    return False
            elif op is K.BRANCH:
                if not all(sub(b) for b in av[1]):
                    return False
            elif op in (K.AT, K.ASSERT, K.ASSERT_NOT):
                continue
            elif op is K.GROUPREF:
                if not sub(found[av]) if av in found else True:
                    return False
            else:
                return False
        return True
    found = {}

    def collect(items):
        for op, av in items:
            if op is K.SUBPATTERN:
                if av[0] is not None:
                    found[av[0]] = av[3]
                collect(av[3])
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
                collect(av[2])
            elif op is K.BRANCH:
                for b in av[1]:
                    collect(b)
            elif op in (K.ASSERT, K.ASSERT_NOT):
                collect(av[1])
    collect(tree)
    if isinstance(group, str):
        group = tree.state.groupdict.get(group)
    if isinstance(pattern, str):
        return None
    if group == 0:
        return sub(tree)
    return sub(found[group]) if group in found else None


# ---------------------------------------------------------------- JSON

def parsed(t):
    return t.op == "call" and t.args[0] in ("json.loads", "json.load")


def root(t):
    """The parsed JSON value a term is taken from, and whether it is that value itself."""
    d = 0
    while not parsed(t):
        if t.op in ("index", "elem", "val", "key", "attr", "first", "last"):
            t = t.args[0]
            d += 1
        elif t.op == "mcall" and t.args[1] in ("get", "items", "values", "keys"):
            t = t.args[0]
            d += 1
        else:
            return None, 0
    return t, d


def shape_known(g, v):
    """The guard says the value is an object, or that the file is a known one."""
    v = strip_uid(v)

    def known(a):
        if a.op == "isinst" and strip_uid(a.args[0]) is v and set(str(a.args[1]).replace("builtins.", "").split("|")) <= {"dict"}:
            return True
        return a.op == "==" and any(is_const(x) and isinstance(x.args[0], str) and "/" in x.args[0] for x in a.args) and any(x.op == "attr" and x.args[1] == "path" for x in a.args)
    good = [a for a in tm.atoms(g) if known(a)]
    return bool(good) and implies(g, bor(*good))


def jsons(c, i):
    n = 0
    loads = [e for e in i.events if e.kind == "call" and e.name in ("json.loads", "json.load")]
    for e in loads:
        n += 1
        if not caught(c, i, e, "JSONDecodeError") and not caught(c, i, e, "ValueError"):
            c.r.bad(JSON, e.loc, "text which is not JSON ends the guessing")
    if not loads:
        return 0
    seen = set()
    for e in i.events:
        if e.kind == "member":
            for g, x in tm.cases(e.args[1]):
                v, d = root(x)
                if v is None or d:
                    continue
                n += 1
                if not shape_known(band(e.guard, g), v):
                    c.r.bad(JSON, e.loc, f"{text(e.args[0])[:40]} is looked for in a value which may not be an object")
            continue
        if e.kind == "mcall" and e.recv is not None and parsed(e.recv):
            n += 1
            if not shape_known(e.guard, e.recv):
                c.r.bad(JSON, e.loc, f"{e.name}() of a value which may not be an object")
        used = [x for t in ops(e) for x in subterms(t) if x.op == "index" and parsed(x.args[0])]
        used += [mk("index", l.args[0], const("(iteration)")) for l in e.loops if l.op == "loop" and parsed(l.args[0])]
        for x in used:
            key = (e.loc, x)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if not shape_known(e.guard, x.args[0]):
                c.r.bad(JSON, e.loc, f"{text(x.args[1])[:40]} of a value which may not be an object")
    return n


# ---------------------------------------------------------------- formats

def formats(c, i):
    n, seen = 0, set()
    for e in i.events:
        for t in ops(e):
            for x in subterms(t):
                if x.op == "bin" and x.args[0] == "%" and x not in seen:
                    seen.add(x)
                    n += 1
                    v = unescaped(x.args[1], i, 0)
                    if v is not None and v.op != "unknown":
                        c.r.bad(FORMAT, e.loc, f"a '%' in {text(v)[:80]} would be taken as part of the format")
                    elif v is not None:
                        c.r.und(FORMAT, e.loc, f"template {text(v.args[0])[:100]}")
    return n


def sources(t, depth):
    """The values a projection may be, followed through the collections of the function; None if not known."""
    if depth > 12:
        return None
    if t.op == "elem" or t.op in ("first", "last", "val", "key"):
        bs = contents(t.args[0], depth + 1, {"val": "value", "key": "key"}.get(t.op))
        return None if bs is None else bs
    if t.op == "index" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int):
        bs = sources(t.args[0], depth + 1)
        if bs is None:
            return None
        out = []
        for b in bs:
            if b.op in ("tuple", "list") and -len(b.args) <= t.args[1].args[0] < len(b.args):
                out.append(b.args[t.args[1].args[0]])
            elif b.op == "call" and b.args[0] == "re.subn" and is_const(t.args[1], 0):
                out.append(mk("call", "re.sub", *b.args[1:]))
            elif b.op == "mcall" and b.args[1] == "subn" and is_const(t.args[1], 0):
                out.append(mk("mcall", b.args[0], "sub", *b.args[2:]))
            else:
                return None
        return out
    return [t]


def contents(b, depth, which=None):
    """The possible elements of a collection."""
    if depth > 12:
        return None
    while b.op in ("sorted", "rev") or b.op == "call" and len(b.args) > 1 and isinstance(b.args[1], T) and (b.args[0] in ("sorted", "list", "set", "tuple", "frozenset", "iter", "reversed") or str(b.args[0]).endswith("progress_iterator")):
        b = b.args[0] if b.op != "call" else b.args[1]
    if b.op == "items":
        ks, vs = contents(b.args[0], depth + 1, "key"), contents(b.args[0], depth + 1, "value")
        return None if ks is None or vs is None else [mk("tuple", k, v) for k in ks or [NONE] for v in vs or [NONE]]
    if b.op in ("keys", "values"):
        return contents(b.args[0], depth + 1, {"keys": "key", "values": "value"}[b.op])
    if b.op == "build":
        out = []
        for x in tm.entries_of(b):
            if x.op == "carry" or x.op != "entry":
                return None
            v = x.args[2]
            if b.args and b.args[0] == "dict" and which != "value":
                v = x.args[3]
            if v.op == "carryval" or x.args[1].op == "carry":
                continue
            out.append(v)
        return out
    if b.op == "dict" and all(x.op == "pair" for x in b.args):
        return [x.args[1] if which == "value" else x.args[0] for x in b.args]
    if b.op in ("tuple", "list", "set") and not any(x.op == "star" for x in b.args):
        return list(b.args)
    if b.op == "const" and isinstance(b.args[0], (str, tuple)):
        return [const(x) for x in b.args[0]]
    if b.op in ("elem", "index", "val", "key"):
        bs = sources(b, depth + 1)
        if bs is None or any(x is b for x in bs):
            return None
        out = []
        for x in bs:
            v = contents(x, depth + 1, which)
            if v is None:
                return None
            out += v
        return out
    return None


NONUM = ("len", "ord", "hash", "int")


def unescaped(t, i, depth):
    """A part of the template that comes from data and may contain '%'; unknown(t) if not known; None if there is none."""
    if depth > 12:
        return mk("unknown", t)
    rec = lambda x: unescaped(x, i, depth + 1)
    if t.op == "const":
        return None
    if t.op in ("cat", "fmt"):
        for x in t.args:
            if not isinstance(x, T):
                continue
            y = x.args[0] if x.op == "piece" else x
            v = rec(y)
            if v is not None:
                return v
        return None
    if t.op == "ite":
        return rec(t.args[1]) or rec(t.args[2])
    if t.op == "bin" and t.args[0] == "+":
        return rec(t.args[1]) or rec(t.args[2])
    if t.op == "bin" and t.args[0] == "%":
        v = rec(t.args[1])
        if v is not None:
            return v
        for a in t.args[2].args if t.args[2].op == "tuple" else [t.args[2]]:
            v = rec(a)
            if v is not None:
                return v
        return None
    if t.op == "mcall" and t.args[1] == "replace":
        a, b = t.args[2], t.args[3]
        if is_const(a, "%") and is_const(b, "%%"):
            return None
        return rec(t.args[0]) or (rec(b) if b.op != "const" else None)
    if t.op == "mcall" and t.args[1] in ("lower", "upper", "strip", "rstrip", "lstrip"):
        return rec(t.args[0])
    if t.op in ("elem", "val", "key", "first", "last", "index"):
        vs = sources(t, 0)
        if vs is None:
            return t if data(t) else mk("unknown", t)
        for v in vs:
            if v is t:
                return t if data(t) else mk("unknown", t)
            u = rec(v)
            if u is not None:
                return u
        return None
    if t.op == "param":
        return t if data(t) else None
    if t.op == "call" and t.args[0] == "re.sub" and not (is_const(t.args[1], "%") and is_const(t.args[2], "%%")):
        return substituted(t, i, depth)
    if t.op == "mcall" and t.args[1] == "sub":
        return rec(t.args[3])
    if t.op in ("slice",):
        return rec(t.args[0])
    if t.op == "call" and t.args[0] in NONUM:
        return None
    if t.op == "join" and any(is_const(x, "%%") for x in t.args if isinstance(x, T)) and any(x.op == "mcall" and x.args[1] == "split" and is_const(x.args[2], "%") for x in t.args if isinstance(x, T)):
        return None
    if t.op == "mcall" and t.args[1] == "join":
        if is_const(t.args[0], "%%") and t.args[2].op == "mcall" and t.args[2].args[1] == "split" and is_const(t.args[2].args[2], "%"):
            return None
    if t.op == "call" and t.args[0] == "re.sub" and is_const(t.args[1], "%") and is_const(t.args[2], "%%"):
        return None
    if t.op == "join":
        for x in t.args:
            if isinstance(x, T):
                v = rec(x)
                if v is not None:
                    return v
        return None
    if t.op in ("attr", "mcall", "param") or t.op == "call":
        return t if data(t) else mk("unknown", t)
    if t.op == "bin":
        return None
    return mk("unknown", t)


def data(t):
    """Taken from known paths, or the name or content of a file."""
    return any(x.op == "attr" and x.args[1] in ("known", "path") or x.op == "call" and "read_file_data" in str(x.args[0]) or x.op == "mcall" and x.args[1] in ("group", "load", "read_file_data") for x in subterms(t))


def substituted(t, i, depth):
    rec = lambda x: unescaped(x, i, depth + 1)
    return rec(t.args[3])


# ---------------------------------------------------------------- matches

def matches(c, i):
    n = 0
    seen = set()
    for e in i.events:
        used = []
        if e.kind == "mcall" and e.recv is not None and e.name in ("group", "groups", "start", "end", "span", "groupdict", "expand"):
            used.append(e.recv)
        for t in ops(e):
            for x in subterms(t):
                if x.op == "index" and (x.args[0].op == "mcall" and x.args[0].args[1] in ("match", "search", "fullmatch") or x.args[0].op == "call" and x.args[0].args[0] in ("re.match", "re.search", "re.fullmatch")):
                    used.append(x.args[0])
        for m in used:
            if not (m.op == "mcall" and m.args[1] in ("match", "search", "fullmatch") and "re.compile" in text(m.args[0])[:400] or m.op == "call" and m.args[0] in ("re.match", "re.search", "re.fullmatch")):
                continue
            if (e.loc, m) in seen:
                continue
            seen.add((e.loc, m))
            n += 1
            if caught(c, i, e, "AttributeError"):
                continue
            k = strip_uid(m)
            g = strip_uid(e.guard)
            if not (implies(g, truth(k)) or implies(g, bnot(cmp("is", k, NONE)))):
                c.r.bad(MATCH, e.loc, f"{text(m)[:100]} may not have matched")
    return n


# ---------------------------------------------------------------- content and path of the files, lengths

def absent(c, i):
    """Uses of the content or path of a file which may be None."""
    n, seen = 0, set()

    def content(t):
        return t.op == "call" and str(t.args[0]).endswith("read_file_data") or t.op == "mcall" and t.args[1] == "read_file_data"

    def path(t):
        return t.op == "attr" and t.args[1] == "path" and t.args[0].op == "elem" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] == "files"
    for e in i.events:
        if e.kind not in ("call", "mcall") or e.name.startswith("repo:") or e.name in ("print", "debug", "info", "warning", "isinstance", "str", "repr", "bool"):
            continue
        used = [e.recv] if e.kind == "mcall" and e.recv is not None else []
        if e.name.startswith(("re.", "os.path.", "struct.", "json.")) or e.name in ("len", "sorted", "list", "set", "io.BytesIO", "finditer", "match", "search", "findall", "split", "sub"):
            used += list(e.args)
        for t in used:
            for g, x in tm.cases(t):
                if not (content(x) or path(x)) or (e.loc, x) in seen:
                    continue
                seen.add((e.loc, x))
                n += 1
                k = strip_uid(x)
                h = strip_uid(band(e.guard, g))
                if caught(c, i, e, "TypeError") and caught(c, i, e, "AttributeError"):
                    continue
                same = [a for a in tm.atoms(h) if a.op == "==" and k in a.args and any(is_const(y) and y is not NONE for y in a.args)]
                if not implies(h, bor(truth(k), bnot(cmp("is", k, NONE)), *same)):
                    c.r.bad(EMPTY, e.loc, f"{text(x)[-60:]} may be None")
    return n


def bounds(c, i):
    import struct
    n, seen = 0, set()
    for e in i.events:
        for t in ops(e):
            if not any(x.op in ("fld", "unpack") for x in subterms(t)):
                continue
            for g, leaf in tm.cases(t):
                for x in [leaf]:
                    if x.op != "fld" or x.args[2].op != "slice" or (e.loc, x) in seen:
                        continue
                    s = x.args[2]
                    lo, hi = s.args[1], s.args[2]
                    if lo is NONE or lo.op == "const":
                        continue
                    try:
                        size = struct.calcsize(x.args[0] if isinstance(x.args[0], str) else x.args[0].args[0])
                    except Exception:
                        continue
                    if not tm.lin_eq(tm.binop("+", lo, const(size)), hi):
                        continue
                    seen.add((e.loc, x))
                    h = strip_uid(band(e.guard, g))
                    p = strip_uid(hi)
                    if p.op != "mcall" or p.args[1] not in ("start", "end"):
                        continue
                    n += 1
                    enough = []
                    for a in tm.atoms(h):
                        if a.op == "<" and a.args[0] is p and is_const(a.args[1]) and isinstance(a.args[1].args[0], int) and a.args[1].args[0] >= size:
                            enough.append(bnot(a))
                        elif a.op == "<" and a.args[1] is p and is_const(a.args[0]) and isinstance(a.args[0].args[0], int) and a.args[0].args[0] >= size - 1:
                            enough.append(a)
                    if caught(c, i, e, "struct.error") or caught(c, i, e, "error"):
                        continue
                    if not enough or not implies(h, bor(*enough)):
                        c.r.bad(BOUNDS, e.loc, f"{size} bytes before {text(p)[-40:]} may not be there")
    return n
