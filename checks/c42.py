"""C42: every command does what its options say."""
import ast
from vfa.q import *
from vfa import cli
from vfa.sim import Sim, Obj, Left

RULE = """The parser built on the way to parse_args gives the commands and their options (names, destinations, defaults, choices, what a flag stores). The dispatch of main is evaluated for every command: it must be a function of the package. The
options a handler (or main, parse_storage_args) reads must be declared for the command, every declared option must be read, and a value an option is compared with must be one it can have. Each handler is then analysed once, and its terms, conditions and
effects are evaluated for a table of command lines (options set as the parser would set them, samples of patches, elements and archive entries as inputs): the calls it makes must be those the options mean. The component syntax is evaluated for a table of
components, and every class of patch elements must offer the methods the commands use."""

MAIN = "__main__."
DISPATCH = "every command has a handler"
DECL, USED, CHOICE = "a handler reads only declared options", "every declared option is used", "an option is compared with values it can have"
DOES = "a command does what its options say"
STORE, COMP, ELEM = "the storage is the one asked for", "every kind of component is understood", "every kind of patch element offers the methods of commands"

METHODS = {"grep": "grep_wad", "numbers": "substitute_numbers", "basenames": "substitute_basenames", "words": "substitute_basename_words", "ext": "substitute_extensions", "regionlang": "substitute_region_lang", "plugin": "substitute_plugin",
           "skin-num": "substitute_skin_numbers", "character": "substitute_character", "prefixes": "check_basename_prefixes"}
ONLY = {"LcuHashGuesser": {"regionlang", "plugin"}, "GameHashGuesser": {"skin-num", "character", "prefixes"}}


def check(c):
    m = cli.model(c)
    if m is None or not m.commands:
        c.r.und(DISPATCH, MAIN + "main", "the parser is not understood")
        return
    c.part(components)
    c.part(elements)
    c.part(storage, m)
    hs = c.part(dispatch, m) or {}
    c.part(options, m, hs)
    for name, test in TESTS.items():
        if name not in m.commands:
            c.r.bad(DISPATCH, MAIN + "main", f"there is no command {name}")
        elif name in hs:
            c.part(scenarios, m, name, hs[name], test)


# ---------------------------------------------------------------- dispatch

def find(c, q):
    try:
        return c.prog.func(q)
    except AnalysisBroken:
        return None


def own(c):
    return {f.qual[5:] for f in c.prog.funcs.values() if f.module.rel.endswith("__main__.py")}


def others(c):
    return {f.qual[5:] for f in c.prog.funcs.values() if not f.module.rel.endswith("__main__.py")}


def dispatch(c, m):
    """{command: (function, parameter of the options, parameter of the parser)}"""
    r = c.r
    hs = {}
    mine = own(c)
    stop = others(c) | {q for q in mine if "command_" in q or q.endswith("parse_storage_args")}
    for cmd in m.commands:
        h = m.handlers.get(cmd, {})
        for v in h.values():
            if v.op in ("func", "closure"):
                stop.add(str(v.args[0])[5:] if str(v.args[0]).startswith("cdtb.") else str(v.args[0]))
    i = c.run(MAIN + "main", "dispatch", opaque=stop)
    ps = next((e.result for e in i.events if e.kind == "mcall" and e.name == "parse_args"), None)
    if ps is None:
        r.und(DISPATCH, MAIN + "main", "parse_args not found")
        return {}

    def is_args(t):
        return isinstance(t, T) and strip_uid(norm(t)) is strip_uid(norm(ps))

    for cmd in m.commands:
        def leaf(x, nothing, cmd=cmd):
            if x.op == "attr" and is_args(x.args[0]):
                if x.args[1] == "command":
                    return cmd
                v = m.handlers.get(cmd, {}).get(x.args[1])
                if v is not None:
                    return v
                raise Unknown
            if x.op == "call" and x.args[0] in ("globals", "locals", "vars"):
                return GLOBALS
            if x.op == "index":
                b = calc(x.args[0], leaf)
                if b is GLOBALS:
                    return ("name", calc(x.args[1], leaf))
                return nothing
            if x.op == "call" and x.args[0] == "getattr":
                return ("name", calc(x.args[2], leaf))
            if x.op == "mcall" and x.args[1] == "get" and calc(x.args[0], leaf) is GLOBALS:
                return ("name", calc(x.args[2], leaf))
            if x.op in ("func", "closure", "bound"):
                return x
            if x.op == "hasattr":
                return x.args[1] in m.dests(cmd) | set(m.handlers.get(cmd, {}))
            return strcalc(x, lambda y: calc(y, leaf), nothing)
        GLOBALS = object()
        found = []
        unknown = None
        for e in i.events:
            if e.kind not in ("call", "vcall", "mcall") or not any(is_args(a) for a in list(e.args) + list(e.kw.values())):
                continue
            if e.kind == "call" and e.name.startswith("repo:"):
                q = e.name[5:]
                if q.endswith("parse_storage_args"):
                    continue
            elif e.kind == "call" and e.name == "?":
                q = None
            else:
                continue
            try:
                if not calc(e.guard, leaf):
                    continue
            except (Unknown, Fails):
                at = [a for a in tm.atoms(norm(e.guard)) if a.op == "==" and tm.mentions(a, lambda z: z.op == "attr" and z.args[1] == "command")]
                vals = {}
                for a in at:
                    try:
                        vals[a] = bool(calc(a, leaf))
                    except (Unknown, Fails):
                        pass
                if not tm.satisfiable(assume(norm(e.guard), vals)):
                    continue
            if q is None:
                try:
                    v = calc(e.recv, leaf) if e.recv is not None else None
                except Fails:
                    r.bad(DISPATCH, e.where(), f"there is no handler of {cmd}")
                    found.append(None)
                    continue
                except Unknown:
                    v = None
                if isinstance(v, tuple) and v[0] == "name":
                    q = MAIN + str(v[1])
                elif isinstance(v, T) and v.op in ("func", "closure"):
                    q = str(v.args[0])
                    q = q[5:] if q.startswith("cdtb.") else q
                else:
                    unknown = e
                    continue
            f = find(c, q)
            if f is None:
                r.bad(DISPATCH, e.where(), f"{cmd} is dispatched to {q}, which does not exist")
                found.append(None)
                continue
            names = [a.arg for a in f.node.args.args]
            pos = [k for k, a in enumerate(e.args) if is_args(a)]
            kws = [k for k, a in e.kw.items() if is_args(a)]
            pn = kws[0] if kws else names[pos[0]] if pos and pos[0] < len(names) else None
            if pn is None or len(e.args) + len(e.kw) > len(names) and f.node.args.vararg is None or len(e.args) + len(e.kw) < len(names) - len(f.node.args.defaults):
                r.bad(DISPATCH, e.where(), f"{q} is not called with its parameters")
                found.append(None)
                continue
            found.append((f, pn, e))
        if unknown is not None and not found:
            r.und(DISPATCH, unknown.where(), f"handler of {cmd} unknown")
        elif not found:
            r.bad(DISPATCH, MAIN + "main", f"{cmd} is never dispatched")
        elif len({x[0] if x else None for x in found}) > 1 or len(found) > 1:
            r.bad(DISPATCH, found[-1][2].where() if found[-1] else MAIN + "main", f"several handlers run for {cmd}")
        elif found[0] is not None:
            hs[cmd] = found[0]
            r.ok(DISPATCH, found[0][2].where(), f"{cmd}: {found[0][0].qual}")
    if len({id(v[0]) for v in hs.values()}) < len(hs):
        seen = {}
        for k, v in hs.items():
            if v[0] in seen.values():
                r.und(DISPATCH, v[0].loc, f"shared by {k} and another command")
            seen[k] = v[0]
    return hs


# ---------------------------------------------------------------- options

def reads_of(c, f, pn, seen=None):
    """Attributes of the options read by a function and those it hands them to: {name: where}; None if they are handed to something unknown."""
    seen = set() if seen is None else seen
    if (f, pn) in seen:
        return {}, set(), False
    seen.add((f, pn))
    out, asked, loose = {}, set(), False
    names = {pn}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
            names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    handled = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names:
            handled.add(n.value)
            out.setdefault(n.attr, []).append((f"{f.module.rel}:{n.lineno} in {f.qual[5:]}", isinstance(n.ctx, ast.Load)))
        elif isinstance(n, ast.Call):
            fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            for k, a in list(enumerate(n.args)) + [(w.arg, w.value) for w in n.keywords]:
                if isinstance(a, ast.Name) and a.id in names:
                    handled.add(a)
                    if fn in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        asked.add(n.args[1].value)
                        if fn == "getattr":
                            out.setdefault(n.args[1].value, []).append((f"{f.module.rel}:{n.lineno} in {f.qual[5:]}", len(n.args) == 2))
                        continue
                    g = find(c, MAIN + fn) if fn else None
                    if g is None:
                        loose = True
                        continue
                    ps = [x.arg for x in g.node.args.args]
                    p2 = k if isinstance(k, str) else ps[k] if k < len(ps) else None
                    if p2 is None:
                        loose = True
                        continue
                    o2, a2, l2 = reads_of(c, g, p2, seen)
                    for z, ws in o2.items():
                        out.setdefault(z, []).extend(ws)
                    asked |= a2
                    loose = loose or l2
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load) and n not in handled and not (isinstance(n, ast.Name) and any(isinstance(a, ast.Assign) and a.value is n for a in ast.walk(f.node))):
            loose = True
    return out, asked, loose


def options(c, m, hs):
    r = c.r
    f = find(c, MAIN + "main")
    top = {}
    asked = set()
    # what main itself reads, whatever the command
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "parse_args":
            for t in n.targets:
                if isinstance(t, ast.Name):
                    top, asked, _ = reads_of(c, f, t.id)
    always = {o.dest for o in m.top} | {"command"}
    for cmd, (g, pn, e) in hs.items():
        out, ask, loose = reads_of(c, g, pn)
        dests = m.dests(cmd) | always | set(m.handlers.get(cmd, {}))
        w = {k: [x for x, need in v if need] for k, v in out.items()}
        written = {k for k, v in out.items() if not any(n for _, n in v)}
        for k, ws in w.items():
            if k not in dests and k not in ask and not k.startswith("_") and k not in written:
                for x in ws:
                    r.bad(DECL, x, f"{cmd} has no option stored as {k}")
        r.ok(DECL, g.loc, f"{cmd}: {', '.join(sorted(w))}")
        used = {k for k in out if w.get(k)} | set(top) | asked | ask
        for k in sorted(m.dests(cmd) - used):
            o = next((o for o in m.options(cmd) + m.top if o.dest == k), None)
            (r.und if loose else r.bad)(USED, o.e.where() if o is not None else g.loc, f"{cmd} never uses {k}")
        r.ok(USED, g.loc, cmd)
        # reads by main and what it calls, for commands with a storage
        if "storage" in m.dests(cmd):
            for k, v in top.items():
                for x, need in v:
                    if need and "parse_storage_args" in x and k not in dests:
                        r.bad(DECL, x, f"{cmd} has no option stored as {k}")
        compared(c, m, cmd, g, pn)


def compared(c, m, cmd, g, pn):
    r = c.r
    i = c.run(g.qual[5:], opaque=others(c))
    P = mk("param", pn)
    seen = set()
    for e in i.events:
        for a in tm.atoms(norm(e.guard)):
            for x in subterms(a):
                if x.op == "==" and x not in seen and any(y.op == "attr" and y.args[0] is P for y in x.args) and any(is_const(y) for y in x.args):
                    seen.add(x)
                    d = next(y.args[1] for y in x.args if y.op == "attr" and y.args[0] is P)
                    v = next(y.args[0] for y in x.args if is_const(y))
                    os = [o for o in m.options(cmd) if o.dest == d]
                    if not os or any("choices" not in o.kw and o.given() is None for o in os):
                        continue
                    vals = set()
                    for o in os:
                        if o.given() is not None:
                            vals.add(o.given().args[0] if o.given().op == "const" else ...)
                        elif o.kw["choices"].op in ("tuple", "list", "set", "build"):
                            vals |= set(values(o.kw["choices"]))
                        else:
                            vals.add(...)
                        vals.add(o.default.args[0] if o.default.op == "const" else ...)
                    if ... not in vals:
                        r.ob(v in vals, CHOICE, e.where(), f"{cmd}: {d} is never {v!r}")


def values(t):
    if t.op == "build":
        return [x.args[2].args[0] if x.op == "entry" and x.args[2].op == "const" else ... for x in tm.entries_of(t)]
    return [x.args[0] if x.op == "const" else ... for x in t.args]


# ---------------------------------------------------------------- command lines

class Undeclared(Exception):
    pass


def parsed(m, cmd, given):
    """The options as the parser sets them for a command line: {flag or positional: value}."""
    ns = {}
    for o in m.options(cmd) + m.top:
        if o.dest in ns:
            continue
        d = o.default
        if o.dest in m.handlers.get(cmd, {}):
            raise Unknown
        if o.positional and o.get("nargs") in ("*",) and "default" not in o.kw:
            ns[o.dest] = ()
        elif d.op == "const":
            ns[o.dest] = d.args[0]
        elif d.op in ("tuple", "list") or d.op == "build":
            ns[o.dest] = tuple(values(d))
        else:
            ns[o.dest] = f"<default {o.dest}>"
    for k, v in given.items():
        o = m.option(cmd, k) if k.startswith("-") else next((o for o in m.options(cmd) if o.positional and o.dest == k), None)
        if o is None:
            raise Undeclared(k)
        if "type" in o.kw:
            raise Unknown
        g = o.given()
        if g is not None:
            if v is not True:
                raise Undeclared(f"{k} does not take a value")
            if g.op != "const":
                raise Unknown
            ns[o.dest] = g.args[0]
            continue
        if v is True:
            raise Undeclared(f"{k} is not a flag")
        many = o.get("nargs") in ("*", "+", "...") or isinstance(o.get("nargs"), int) and o.get("nargs") is not True
        if o.action == "append":
            many = True
        if isinstance(v, tuple) != bool(many):
            raise Undeclared(f"{k} takes {'several values' if many else 'one value'}")
        ch = o.kw.get("choices")
        if ch is not None:
            vs = values(ch) if ch.op in ("tuple", "list", "set", "build") else [...]
            if ... in vs:
                raise Unknown
            if any(x not in vs for x in (v if isinstance(v, tuple) else (v,))):
                raise Undeclared(f"{k} cannot be {v!r}")
        ns[o.dest] = v
    return ns


class Patches:
    """Sample patches, newest first."""

    def __init__(self):
        self.el = {}
        self.all = []
        for v, names in (("9.3", ("game", "client")), ("9.2", ("game",)), ("9.1", ("client", "game")), ("9.0", ("client",))):
            es = tuple(Obj(f"{n}={v}", {"PatchElement"}, name=n, version=v) for n in names)
            for e in es:
                self.el[e.name] = e
            self.all.append(Obj(f"patch={v}", {"Patch"}, version=v, elements=es))

    def patch(self, v):
        return self.all[0] if v is None else next((p for p in self.all if p.attrs["version"] == v), None)

    def component(self, s):
        if s.startswith("patch="):
            return self.patch(s[6:] or None)
        return self.el.get(s)


def arguments(x):
    """(positional, keyword) terms of a call term."""
    a = x.args[1:] if x.op == "call" else x.args[2:]
    return [y for y in a if isinstance(y, T) and y.op not in ("kw", "uid")], {y.args[0]: y.args[1] for y in a if isinstance(y, T) and y.op == "kw"}


class Line:
    """One command line of a command."""

    def __init__(self, c, m, cmd, h, given, files=(), dirs=(), stored=None, invalid=(), archive=()):
        self.c, self.m, self.cmd = c, m, cmd
        self.f, self.pn, _ = h
        self.P = mk("param", self.pn)
        self.given = given
        self.ns = parsed(m, cmd, given)
        self.files, self.dirs, self.invalid, self.archive = set(files), set(dirs), set(invalid), archive
        self.ps = Patches()
        self.stored = self.ps.all if stored is None else [p for p in self.ps.all if p.attrs["version"] in stored]
        self.storage = Obj("storage", {"Storage"})
        self.i = c.run(self.f.qual[5:], opaque=others(c))
        self.sim = Sim(self.i, self.world)
        self.unset = {}
        self.calls = []
        self.printed = []
        self.error = None
        self.set = {}

    def world(self, s, x, nothing):
        op, a = x.op, x.args
        if op == "attr" and a[0] is self.P:
            if a[1] == "storage":
                return self.storage
            if a[1] in self.ns:
                return self.ns[a[1]]
            raise Unknown
        if op == "param":
            return Obj("parser")
        if op == "lib":
            return str(a[0])
        if op == "exc":
            w = [v for coll, n, v, k, idx in s.env if isinstance(v, str)] + [str(v) for v in self.ns.values() if isinstance(v, str)]
            return any(v in self.invalid for v in w[:1] if v is not None) if s.env else any(v in self.invalid for v in w)
        if op == "attr" and a[1] in ("files", "unknown", "known", "wads", "entries") or op == "attrat" and a[1] in ("files", "unknown", "known", "wads"):
            return {"files": self.archive, "unknown": (1, 2), "known": (), "wads": ("W1", "W2"), "entries": ({"name": "body"}, {"name": "head"})}[a[1]]
        if op in ("call", "mcall"):
            name = str(a[0] if op == "call" else a[1])
            short = name.rsplit(".", 1)[-1]
            if name in ("os.path.isfile", "os.path.isdir", "os.path.exists", "os.path.lexists"):
                p = s.value(a[1])
                k = name.rsplit(".", 1)[1]
                return p in self.files and k != "isdir" or p in self.dirs and k != "isfile"
            if name.startswith("fnmatch."):
                import fnmatch
                return getattr(fnmatch, short)(*[s.value(y) for y in a[1:] if y.op != "uid"])
            if short == "parse_storage_component":
                v = s.value(a[2])
                return self.ps.component(v)
            ps, kw = arguments(x)
            if short in ("relpaths", "fspaths", "paths") and (op == "mcall" or name.startswith("repo:")):
                o = s.value(a[0] if op == "mcall" else ps.pop(0))
                if not isinstance(o, Obj):
                    raise Fails
                l = s.value(kw["langs"]) if "langs" in kw else s.value(ps[0]) if ps else True
                ext = (".wad", ".wad.client", ".txt", ".client")
                return tuple(f"{o.name}/{short}/{l}/{n}{x}" for n, x in enumerate(ext))
            if short in ("patches", "patch") and (op == "mcall" or name.startswith("repo:")):
                if op == "call":
                    ps.pop(0)
                ks = {"patches": ["stored"], "patch": ["version", "stored"]}[short]
                v = {k: s.value(y) for k, y in zip(ks, ps)} | {k: s.value(y) for k, y in kw.items()}
                st = self.stored if v.get("stored", short == "patches") else self.ps.all
                if short == "patches":
                    return tuple(st)
                n = v.get("version")
                return next((p for p in st if n is None or p.attrs["version"] == n), None)
            if short in ("default_hashfile",):
                return Obj("default list of " + str(s.value(ps[0])))
            if short == "load" and op == "mcall" or name.endswith("HashFile.load"):
                o = s.value(a[0] if op == "mcall" else ps[0])
                if isinstance(o, Obj):
                    return ("content", o.name if o.name.startswith("default") else ("list",) + tuple(o.attrs.get("args", ())) + tuple(o.attrs.get("kw", {}).values()))
            if short in ("from_wads",) and op == "call":
                cl = name.rsplit(".", 2)[-2]
                return Obj(cl, {cl})
            if short == "from_directory":
                return (Obj("exporter1"), Obj("exporter2"))
            if short == "to_serializable":
                return ("tree", s.value(ps[0] if op == "call" else a[0]))
            if short == "to_obj":
                return ("obj", s.value(ps[-1]))
            if short == "open":
                return ("file",) + tuple(s.value(y) for y in ps)
            if short == "as_int":
                return ("int", s.value(ps[0] if op == "call" else a[0]))
        if op == "func" or op == "class":
            return str(a[0])
        return nothing

    def run(self):
        self.sim.run(on=self.on)
        return self

    def on(self, e):
        s = self.sim
        if e.kind == "mcall" and e.name == "error" and e.recv is not None and e.recv.op == "param" or e.kind == "raise" or e.kind == "call" and e.name == "sys.exit":
            self.error = e
            raise Left
        if e.kind == "setattr":
            self.set[e.name] = e
            if e.name == "files":
                self.calls.append(("set", None, [tuple(v for v, _ in s.elements(norm(e.args[0])))], {}, e))
            return
        if e.kind == "call" and e.name == "print":
            self.printed.append((e, [self.try_value(a) for a in e.args]))
            return
        if e.kind in ("call", "vcall", "mcall"):
            recv = e.recv
            args = list(e.args)
            name = e.name.rsplit(".", 1)[-1]
            if e.kind == "call" and not e.name.startswith("repo:"):
                if name not in ("open", "makedirs", "mkdir"):
                    return
            elif e.kind == "call":
                f = find(self.c, e.name[5:])
                if f is not None and f.cls is not None and recv is None and args:
                    recv = args.pop(0)
            f = None
            self.calls.append((name, self.try_value(recv) if recv is not None else None, [self.try_value(a) for a in args], {k: self.try_value(v) for k, v in e.kw.items()}, e))

    def try_value(self, t):
        try:
            return self.sim.value(t)
        except (Unknown, Fails):
            return ...

    def of(self, *names):
        return [x for x in self.calls if x[0] in names]


def name_of(v):
    return v.name if isinstance(v, Obj) else v


class Wrong(Exception):
    def __init__(self, what, where=None):
        self.what, self.where = what, where


def expect(got, want, what, where=None):
    if got is ... or isinstance(got, (list, tuple)) and ... in got:
        raise Unknown
    if got != want:
        raise Wrong(f"{what}: {got!r} instead of {want!r}", where)


def scenarios(c, m, name, h, test):
    r = c.r
    n = 0
    und = set()
    bad = False
    for given, kw, want in test:
        shown = name + "".join(" " + (k if v is True else (k + " " if k.startswith("-") else "") + (" ".join(v) if isinstance(v, tuple) else str(v))) for k, v in given.items())
        l = None
        try:
            l = Line(c, m, name, h, given, **kw)
            want(l.run())
            n += 1
        except Undeclared as e:
            r.bad(DOES, m.where.get(name, h[0].loc), f"{shown}: not accepted ({e})")
            bad = True
        except Wrong as e:
            r.bad(DOES, e.where or h[0].loc, f"{shown}: {e.what}")
            bad = True
            break
        except Fails:
            r.bad(DOES, l.sim.now.where() if l is not None and l.sim.now is not None else h[0].loc, f"{shown}: raises an error")
            bad = True
            break
        except Unknown:
            und.add(shown)
    if und and not bad:
        r.und(DOES, h[0].loc, f"not understood for {len(und)} command lines, such as {sorted(und)[0]}")
    if not bad:
        r.ok(DOES, h[0].loc, f"{name}: {n} command lines evaluated")


def fails(l):
    if l.error is None:
        raise Wrong("not refused", None)
    acts = [x for x in l.calls if x[0] in ("download", "extract", "process", "save", "dump", "json_dump", "write", "makedirs") or x[0] in METHODS.values()]
    if acts or l.printed:
        raise Wrong("something is done before it is refused", acts[0][4].where() if acts else None)


def goes(l):
    if l.error is not None:
        raise Wrong("refused", l.error.where())


def langs_of(x):
    return x[3]["langs"] if "langs" in x[3] else x[2][0] if x[2] else True


def downloads(*want):
    def f(l):
        goes(l)
        expect([(name_of(x[1]), langs_of(x)) for x in l.of("download")], list(want), "elements and languages downloaded")
    return f


DOWNLOAD = [
    ({"component": ("patch=9.3",)}, {}, downloads(("game=9.3", True), ("client=9.3", True))),
    ({"component": ("game=9.2", "patch=9.1", "client=9.0")}, {}, downloads(("game=9.2", True), ("client=9.1", True), ("game=9.1", True), ("client=9.0", True))),
    ({"component": ("game=9.2", "patch=9.3"), "--no-lang": True}, {}, downloads(("game=9.2", False), ("game=9.3", False), ("client=9.3", False))),
    ({"component": ("game=9.2",), "--lang": ("en_us", "fr_fr")}, {}, downloads(("game=9.2", ("en_us", "fr_fr")))),
    ({"component": ("game=7.7",)}, {}, fails),
    ({"component": ("patch=7.7",)}, {}, fails),
    ({"component": ("nothing",)}, {"invalid": ("nothing",)}, fails),
]


def lists(kind, langs, *elems):
    def f(l):
        goes(l)
        expect([a[0] if len(a) == 1 else a for _, a in l.printed], [f"{e}/{kind}/{langs}/{n}{x}" for e in elems for n, x in enumerate((".wad", ".wad.client", ".txt", ".client"))], "paths listed")
    return f


FILES = [
    ({"component": "patch=9.3"}, {}, lists("fspaths", True, "game=9.3", "client=9.3")),
    ({"component": "client=9.1", "-r": True}, {}, lists("relpaths", True, "client=9.1")),
    ({"component": "patch=9.1", "--relative": True, "--no-lang": True}, {}, lists("relpaths", False, "client=9.1", "game=9.1")),
    ({"component": "client=9.1", "--no-lang": True}, {}, lists("fspaths", False, "client=9.1")),
    ({"component": "patch=9.3", "--lang": ("en_us",)}, {}, lists("fspaths", ("en_us",), "game=9.3", "client=9.3")),
    ({"component": "game=7.7"}, {}, fails),
    ({"component": "nothing"}, {"invalid": ("nothing",)}, fails),
]


def versions(*want):
    def f(l):
        goes(l)
        expect([str(a[0]) for _, a in l.printed], list(want), "versions listed")
    return f


OLD = {"stored": ("9.2", "9.0")}
VERSIONS = [
    ({"type": "patch", "-a": True}, OLD, versions("9.3", "9.2", "9.1", "9.0")),
    ({"type": "patch"}, OLD, versions("9.2", "9.0")),
    ({"type": "game", "--all": True}, OLD, versions("9.3", "9.2", "9.1")),
    ({"type": "client", "-a": True}, OLD, versions("9.3", "9.1", "9.0")),
    ({"type": "game"}, OLD, versions("9.2")),
    ({"type": "client"}, OLD, versions("9.0")),
]

ENTRIES = tuple(Obj(f"entry {p}", {"WadFileHeader"}, path=p, path_hash=h, ext=x) for p, h, x in (("assets/a.txt", 0x10, None), ("assets/b.dds", 0x2F, None), (None, 0x3E, "bin"), ("data/A.txt", 0xFEDCBA9876543210, "txt"), (None, 0x4D, None)))
ARCH = {"archive": ENTRIES, "files": ("d/x.wad.client", "h.txt", "file"), "dirs": ("out",)}


def extracts(output, overwrite, hashes, *keep):
    def f(l):
        goes(l)
        xs = l.of("extract")
        expect(len(xs), 1, "extractions")
        x = xs[0]
        ks = ["output", "overwrite"]
        v = dict(zip(ks, x[2])) | x[3]
        expect(v.get("output"), output, "output directory", x[4].where())
        expect(bool(v.get("overwrite", True)), overwrite, "overwrite", x[4].where())
        wad = x[1]
        if not isinstance(wad, Obj) or "args" not in wad.attrs:
            raise Unknown
        ws = wad.attrs["args"] + [wad.attrs["kw"].get("hashes")]
        expect(ws[0], "d/x.wad.client", "archive", x[4].where())
        h = ws[1] if len(ws) > 1 else None
        expect(h, ("content", hashes), "hash list used", x[4].where())
        got = ENTRIES
        for s in l.calls:
            if s[0] == "set":
                got = s[2][0]
            if s is x:
                break
            if s[0] == "guess_extensions" and False:
                pass
        if any(z.kind in ("mcall", "setitem", "delitem") and z.recv is not None and tm.mentions(z.recv, lambda y: y.op == "attr" and y.args[1] == "files") and z.name in ("remove", "pop", "clear", "append", "extend", "[]=", "del", "sort") for z in l.i.events):
            raise Unknown
        expect([name_of(y) for y in got], [f"entry {k}" for k in keep], "entries extracted", x[4].where())
        for s in l.calls:
            if s[0] == "set" and l.calls.index(s) > l.calls.index(x):
                raise Wrong("entries are selected after the extraction", s[4].where())
    return f


W, GIVEN = "d/x.wad.client", ("list", "h.txt")
DEF = "default list of " + W
KNOWN = ("assets/a.txt", "assets/b.dds", "data/A.txt")
WAD_EXTRACT = [
    ({"wad": W}, ARCH, extracts("d/x.wad", True, DEF, "assets/a.txt", "assets/b.dds", None, "data/A.txt", None)),
    ({"wad": W, "-o": "out", "--lazy": True}, ARCH, extracts("out", False, DEF, "assets/a.txt", "assets/b.dds", None, "data/A.txt", None)),
    ({"wad": W, "-u": "only"}, ARCH, extracts("d/x.wad", True, DEF, None, None)),
    ({"wad": W, "-u": "no", "-H": "h.txt"}, ARCH, extracts("d/x.wad", True, GIVEN, *KNOWN)),
    ({"wad": W, "--unknown": "yes", "--hashes": "h.txt"}, ARCH, extracts("d/x.wad", True, GIVEN, "assets/a.txt", "assets/b.dds", None, "data/A.txt", None)),
    ({"wad": W, "-p": ("*.txt",), "--output": "new"}, ARCH, extracts("new", True, DEF, "assets/a.txt", "data/A.txt")),
    ({"wad": W, "--pattern": ("*.dds", "data/*"), "-u": "no"}, ARCH, extracts("d/x.wad", True, DEF, "assets/b.dds", "data/A.txt")),
    ({"wad": W, "-p": ("assets/a.*", "data/a.txt")}, ARCH, extracts("d/x.wad", True, DEF, "assets/a.txt")),
    ({"wad": "none"}, ARCH, fails),
    ({"wad": W, "-o": "file"}, ARCH, fails),
]


def lines(hashes):
    def f(l):
        goes(l)
        w = h = None
        for e in l.i.events:
            if e.kind == "new" and e.name.endswith("Wad"):
                w = l.try_value(e.recv)
        if not isinstance(w, Obj):
            raise Unknown
        ws = w.attrs["args"] + [w.attrs["kw"].get("hashes")]
        expect(ws[:2], [W, ("content", hashes)], "archive and hash list")
        got = [" ".join(map(str, a)) for _, a in l.printed]
        if any(... in a for _, a in l.printed):
            raise Unknown
        expect(len(got), len(ENTRIES), "lines")
        for x in ENTRIES:
            hh = f"{x.attrs['path_hash']:016x}"
            mine = [g for g in got if hh in g]
            if len(mine) != 1 or x.attrs["path"] and not mine[0].endswith(x.attrs["path"]):
                raise Wrong(f"no line for the entry {hh} {x.attrs['path'] or ''}", l.printed[0][0].where())
    return f


WAD_LIST = [({"wad": W}, ARCH, lines(DEF)), ({"wad": W, "-H": "h.txt"}, ARCH, lines(GIVEN)), ({"wad": "none"}, ARCH, fails)]


def guesses(*methods, wads=("a.wad",)):
    def f(l):
        goes(l)
        for cl in ONLY:
            fw = [x for x in l.of("from_wads") if x[4].name.split(".")[-2] == cl]
            expect(len(fw), 1, f"{cl} made")
            got = fw[0][2][-1]
            if got is ...:
                raise Unknown
            ps = []
            for y in got:
                if not isinstance(y, Obj):
                    raise Unknown
                ps.append(y.attrs["args"][0] if "args" in y.attrs and y.attrs["args"] else ...)
            expect(sorted(map(str, ps)), sorted(wads), f"archives of {cl}", fw[0][4].where())
            skip = set().union(*(v for k, v in ONLY.items() if k != cl))
            want = sorted([METHODS[k] for k in methods if k not in skip] + (["grep_wad"] if "grep" in methods else []))
            have = sorted(x[0] for x in l.calls if x[0] in METHODS.values() and (name_of(x[1]) == cl or f".{cl}." in x[4].name))
            loose = [x for x in l.calls if x[0] in METHODS.values() and not isinstance(x[1], Obj)]
            if loose:
                raise Unknown
            expect(have, want, f"searches of {cl}")
    return f


def listing(l):
    goes(l)
    if len(l.printed) < len(METHODS) and len(l.printed) != 1:
        raise Wrong(f"{len(l.printed)} methods listed", None)
    if [x for x in l.calls if x[0] in METHODS.values()]:
        raise Wrong("hashes are searched")


ALL = [k for k in METHODS if k not in ("basenames", "words")]
COMPS = {"invalid": ("a.wad", "b.wad.client")}
HASHES = [
    ({"wad": ("a.wad",)}, COMPS, guesses(*ALL)),
    ({"wad": ("a.wad",), "-m": "numbers"}, COMPS, guesses("numbers")),
    ({"wad": ("a.wad",), "-m": "words, basenames"}, COMPS, guesses("words", "basenames")),
    ({"wad": ("a.wad",), "--methods": "grep,ext,regionlang"}, COMPS, guesses("grep", "ext", "regionlang")),
    ({"wad": ("a.wad",), "--methods": "plugin,skin-num,character"}, COMPS, guesses("plugin", "skin-num", "character")),
    ({"wad": ("a.wad",), "--methods": "prefixes"}, COMPS, guesses("prefixes")),
    ({"wad": ("a.wad",), "-m": "number"}, COMPS, fails),
    ({"wad": ("a.wad", "client=9.1", "b.wad.client"), "-m": "ext"}, COMPS, guesses("ext", wads=("a.wad", "client=9.1/fspaths/True/0.wad", "client=9.1/fspaths/True/1.wad.client", "b.wad.client"))),
    ({"wad": ("patch=9.3", "game=7.7"), "-m": "ext"}, COMPS, guesses("ext", wads=tuple(f"{e}=9.3/fspaths/True/{n}" for e in ("game", "client") for n in ("0.wad", "1.wad.client")))),
    ({"--list-methods": True}, {}, listing),
    ({"--list-methods": True, "wad": ("a.wad",)}, {}, listing),
    ({}, {}, fails),
]


def exports(version, previous, overwrite=True, symlinks=False, output="<default output>"):
    def f(l):
        goes(l)
        xs = l.of("process")
        expect(len(xs), 1, "exports")
        x = xs[0]
        o = x[1]
        if not isinstance(o, Obj) or "args" not in o.attrs:
            raise Unknown
        v = dict(zip(["output", "patch", "prev_patch", "symlinks"], o.attrs["args"])) | o.attrs["kw"]
        expect((v.get("output") or "").replace("\\", "/"), f"{output}/{version}", "output", x[4].where())
        expect(name_of(v.get("patch")), f"patch={version}", "patch", x[4].where())
        expect(name_of(v.get("prev_patch")), previous and f"patch={previous}", "previous patch", x[4].where())
        expect(bool(v.get("symlinks")), symlinks, "links", x[4].where())
        expect(bool(x[3].get("overwrite", x[2][0] if x[2] else True)), overwrite, "overwrite", x[4].where())
    return f


def updates(first, overwrite=True, symlinks=False, output="<default output>"):
    def f(l):
        goes(l)
        fd = l.of("from_directory")
        expect(len(fd), 1, "calls of from_directory")
        v = dict(zip(["storage", "output", "first", "symlinks"], fd[0][2])) | fd[0][3]
        vs = list(v.values())
        expect(any(x is l.storage for x in vs), True, "storage handed on")
        expect(output in vs, True, f"output {output} handed on", fd[0][4].where())
        ver = [x for x in vs if isinstance(x, Obj) and x.name.endswith("PatchVersion")]
        expect([x.attrs["args"] for x in ver], [[first]], "first version", fd[0][4].where())
        expect(symlinks in [x for x in vs if isinstance(x, bool)], True, f"links {symlinks}", fd[0][4].where())
        expect([(name_of(x[1]), bool(x[3].get("overwrite", x[2][0] if x[2] else True))) for x in l.of("process")], [("exporter1", overwrite), ("exporter2", overwrite)], "exports")
    return f


EXPORT = [
    ({"patch": "9.3"}, {}, exports("9.3", "9.2")),
    ({"patch": "9.1", "-L": True}, {}, exports("9.1", "9.0", symlinks=True)),
    ({"patch": "9.3"}, {"stored": ("9.3", "9.1", "9.0")}, exports("9.3", "9.1")),
    ({"patch": "9.2", "--lazy": True, "-o": "dir"}, {}, exports("9.2", "9.1", overwrite=False, output="dir")),
    ({"patch": "latest", "--symlinks": True}, {}, exports("9.3", "9.2", symlinks=True)),
    ({"patch": "9.3", "--previous": "9.0"}, {}, exports("9.3", "9.0")),
    ({"patch": "9.3", "--full": True}, {}, exports("9.3", None)),
    ({"patch": "9.0", "--full": True, "--output": "dir"}, {}, exports("9.0", None, output="dir")),
    ({"patch": "9.0"}, {}, fails),
    ({"patch": "9.3"}, {"stored": ("9.2", "9.1")}, fails),
    ({"patch": "7.7"}, {}, fails),
    ({"patch": "9.3", "--previous": "7.7"}, {}, fails),
    ({"patch": "9.3", "--previous": "9.2"}, {"stored": ("9.3", "9.1")}, fails),
    ({"--from": "9.1"}, {}, updates("9.1")),
    ({"--from": "9.2", "--lazy": True, "-L": True, "-o": "dir"}, {}, updates("9.2", overwrite=False, symlinks=True, output="dir")),
    ({}, {}, fails),
    ({"--full": True}, {}, fails),
    ({"--previous": "9.1", "--from": "9.1"}, {}, fails),
    ({"patch": "9.3", "--from": "9.1"}, {}, fails),
]


def dumps(js):
    def f(l):
        goes(l)
        d, j = l.of("dump"), l.of("json_dump")
        expect((len(d), len(j)), (0, 1) if js else (1, 0), "text and JSON dumps")
        x = (j or d)[0]
        a = x[2] + list(x[3].values())
        if x[1] is not None and js:
            a = [x[1]] + a
        expect("sys.stdout" in a, True, "written to the standard output", x[4].where())
        src = a[0][1] if js and isinstance(a[0], tuple) and a[0][0] == "tree" else x[1]
        if not isinstance(src, Obj):
            raise Unknown
        fa = src.attrs["args"][0] if src.attrs.get("args") else ...
        expect(fa[1] if isinstance(fa, tuple) and len(fa) > 1 else fa, "x.bin", "file read", x[4].where())
    return f


BIN = {"files": ("x.bin",)}
BIN_DUMP = [({"bin": "x.bin"}, BIN, dumps(False)), ({"bin": "x.bin", "-j": True}, BIN, dumps(True)), ({"bin": "x.bin", "--json": True, "-V": "9.5"}, BIN, dumps(True)), ({"bin": "none"}, BIN, fails)]


def meshes(out):
    def f(l):
        goes(l)
        ws = [x for x in l.calls if x[0] == "write" or x[0] == "write_text"]
        got = []
        for x in ws:
            o = x[1]
            got.append((o[1] if isinstance(o, tuple) and len(o) > 1 else o, x[2][0]))
        expect(got, [(f"{out}/{n}.obj", ("obj", {"name": n})) for n in ("body", "head")], "meshes written")
    return f


SKN = {"files": ("d/x.skn",)}
SKN_EXTRACT = [({"skn": "d/x.skn"}, SKN, meshes("d/x")), ({"skn": "d/x.skn", "-o": "out"}, SKN, meshes("out")), ({"skn": "none"}, SKN, fails)]

TESTS = {"download": DOWNLOAD, "files": FILES, "versions": VERSIONS, "wad-extract": WAD_EXTRACT, "wad-list": WAD_LIST, "hashes-guess": HASHES, "export": EXPORT, "bin-dump": BIN_DUMP, "skn-extract": SKN_EXTRACT}


# ---------------------------------------------------------------- storage

def storage(c, m):
    r = c.r
    f = find(c, MAIN + "main")
    i = c.run(MAIN + "main", "storage", opaque=others(c) | {q for q in own(c) if ".command_" in q or q.endswith("create_parser") and False})
    ps = next((e.result for e in i.events if e.kind == "mcall" and e.name == "parse_args"), None)
    fc = [e for e in i.events if e.kind == "call" and e.name.startswith("repo:") and e.name.endswith("Storage.from_conf")]
    cmd = next((k for k in m.commands if "storage" in m.dests(k)), None)
    if ps is None or cmd is None:
        r.und(STORE, f.loc, "options of storages not found")
        return
    if not fc:
        r.und(STORE, f.loc, "from_conf is not called")
        return
    for k in m.commands:
        if "storage" in m.dests(k):
            p, s = m.option(k, "--patchline"), m.option(k, "--storage")
            r.ob(p is not None and s is not None, STORE, m.where[k], f"{k} has no --patchline" if p is None else "")
    key = strip_uid(norm(ps))
    n = 0
    for given in (None, "conf:rads", "conf:patcher", "a/dir"):
        for env in (None, "env:rads", "env/dir"):
            for line in (None, "pbe", "live"):
                path = given if given is not None else env
                typ = "rads" if path and path.endswith("rads") else "patcher"
                what = f"--storage {given}, CDTB_STORAGE {env}, --patchline {line}"
                try:
                    got = one_storage(c, m, i, key, cmd, given, env, line)
                except Undeclared as e:
                    r.bad(STORE, m.where[cmd], f"{what}: {e}")
                    return
                except Fails:
                    r.bad(STORE, fc[0].where(), f"{what}: raises an error")
                    return
                except Unknown:
                    r.und(STORE, fc[0].where(), what)
                    return
                n += 1
                if line is not None and typ == "rads":
                    if got is not None:
                        r.bad(STORE, fc[0].where(), f"{what}: --patchline is ignored")
                        return
                    continue
                if got is None:
                    r.bad(STORE, fc[0].where(), f"{what}: refused")
                    return
                want = {"type": typ, "path": path} if path else None
                g = {k: v for k, v in got.items() if k != "patchline"}
                if want is not None and g != want or want is None and g.get("type") != "patcher":
                    r.bad(STORE, fc[0].where(), f"{what}: the storage is {g}")
                    return
                if got.get("patchline") != line:
                    r.bad(STORE, fc[0].where(), f"{what}: the patchline is {got.get('patchline')}")
                    return
    r.ok(STORE, fc[0].where(), f"{n} settings evaluated")
    # commands get the storage that was made
    se = [e for e in i.events if e.kind == "setattr" and e.name == "storage"]
    if se:
        r.ob(all(same(e.args[0], x.result) for e in se for x in fc[:1]) if len(fc) == 1 else True, STORE, se[0].where())
        hs = [e for e in i.events if e.kind in ("call", "vcall") and any(isinstance(a, T) and strip_uid(norm(a)) is key for a in e.args) and e.seq < se[0].seq and not e.name.startswith("repo:__main__.parse_") and e.name != "hasattr"]
        r.ob(not [e for e in hs if e.name.startswith("repo:__main__.command_") or e.name == "?"], STORE, se[0].where(), "made after the command")


def one_storage(c, m, i, key, cmd, given, env, line):
    """The configuration given to from_conf, None if it is refused."""
    g = {}
    if given is not None:
        g["--storage"] = given
    if line is not None:
        g["--patchline"] = line
    ns = parsed(m, cmd, g)
    over = {}
    found = {}      # the configurations of paths
    out = []

    def world(s, x, nothing):
        op, a = x.op, x.args
        if op == "attr" and isinstance(a[0], T) and strip_uid(norm(a[0])) is key:
            if a[1] == "command":
                return cmd
            if a[1] == "verbose":
                return 0
            if a[1] in ns:
                return ns[a[1]]
            raise Unknown
        if op == "hasattr":
            return a[1] in m.dests(cmd)
        if op == "mcall" and a[1] in ("get", "getenv") and tm.mentions(a[0], lambda y: y.op in ("lib", "attr") and "environ" in str(y.args)):
            k = s.value(a[2])
            return env if k == "CDTB_STORAGE" else None
        if op == "call" and a[0] in ("os.getenv", "os.environ.get"):
            return env if s.value(a[1]) == "CDTB_STORAGE" else None
        if op == "call" and str(a[0]).endswith("storage_conf_from_path"):
            p = s.value(a[1])
            if not isinstance(p, str):
                raise Fails
            return found.setdefault(p, {"type": "rads" if p.endswith("rads") else "patcher", "path": p})
        return nothing

    s = Sim(i, world)

    def conf(t):
        v = s.value(t)
        return {k: (s.value(x) if isinstance(x, T) else x) for k, x in v.items()} if isinstance(v, dict) else None

    class Done(Exception):
        pass

    def on(e):
        if e.kind == "raise" or e.kind == "mcall" and e.name == "error":
            raise Done
        if e.kind == "setitem" and e.recv is not None:
            d = s.value(e.recv)
            if any(d is x for x in found.values()):
                d[s.value(e.args[0])] = s.value(e.args[1])
                return
            over.setdefault(strip_epoch(norm(e.recv)), []).append((s.value(e.args[0]), s.value(e.args[1])))
        if e.kind == "mcall" and e.name in ("update", "setdefault", "pop") and e.recv is not None:
            raise Unknown
        if e.kind == "call" and e.name.endswith("Storage.from_conf"):
            a = norm(e.args[-1])
            v = conf(a)
            if v is None:
                raise Unknown
            for k, x in over.get(strip_epoch(a), []):
                v[k] = x
            out.append(v)
            raise Done

    try:
        es = [e for e in i.events if e.kind == "raise" or e.kind == "mcall" and e.name in ("error", "update", "setdefault", "pop") or e.kind == "setitem" or e.kind == "call" and e.name.endswith("Storage.from_conf")]
        s.run(es, on)
    except Done:
        pass
    return out[0] if out else None


# ---------------------------------------------------------------- components

SYNTAX = [("patch=", ("patch", None, True)), ("patch=9.1", ("patch", "9.1", False)), ("patch=9.1.", ("patch", "9.1", True)), ("patch=main", ("patch", "main", False)), ("patch=10.24", ("patch", "10.24", False)), ("patch=14.1.2", ("patch", "14.1.2", False)), ("patch=9", ("patch", "9", False)), ("game=", ("game", None)), ("game=9.1", ("game", "9.1")),
          ("client=10.12", ("client", "10.12")), ("game=main", ("game", "main")), ("client=9.1.", ("client", "9.1")), ("client=", ("client", None))]
INVALID = ["", "game", "game:9.1", "patch", "patch=x", "patch=9.x", "lcu=9.1", "game=9.1/x", "x.wad.client", "game=9.1 ", "patchx=9.1", "=9.1", "a/game=9.1", "game=.1", "patch=9.1..", "patch=mainx", "patch=9..1"]


def components(c):
    r = c.r
    q = "storage.parse_storage_component"
    f = find(c, q)
    if f is None:
        r.und(COMP, q, "not found")
        return
    S = mk("param", f.node.args.args[0].arg)
    pc = f.node.args.args[1].arg
    i = c.run(q, opaque={"storage.Storage.patches", "storage.Storage.patch", "storage.Storage.patch_element", "storage.Patch.latest"})

    for comp, want in SYNTAX + [(x, None) for x in INVALID]:
        for found in (True, False):
            asked = []

            def world(s, x, nothing):
                op, a = x.op, x.args
                if op == "param":
                    return comp if a[0] == pc else Obj("storage")
                if op in ("call", "mcall"):
                    name = str(a[0] if op == "call" else a[1]).rsplit(".", 1)[-1]
                    ps, kw = arguments(x)
                    if name in ("patch", "patch_element", "latest") and (op == "mcall" or str(a[0]).startswith("repo:")):
                        if op == "call":
                            ps.pop(0) if name != "latest" else None
                        if name == "latest":
                            o = s.value(a[0] if op == "mcall" else ps[0])
                            if o is None:
                                raise Fails
                            return ("latest", o)
                        ks = ["version", "stored"] if name == "patch" else ["name", "version", "stored"]
                        v = {k: s.value(y) for k, y in zip(ks, ps)} | {k: s.value(y) for k, y in kw.items()}
                        asked.append(v)
                        if not found:
                            return None
                        return ("patch", v.get("version")) if name == "patch" else ("element", v.get("name"), v.get("version"))
                return nothing
            s = Sim(i, world)
            got = "raises"
            try:
                for g, v, loops, node in i.root_returns:
                    if loops:
                        raise Unknown
                    if s.true(g):
                        got = s.value(v)
                        break
                else:
                    got = "raises"
            except Unknown:
                r.und(COMP, f.loc, f"{comp!r} is not understood")
                return
            except Fails:
                got = "fails"
            if want is None:
                if got != "raises" or not any(e.kind == "raise" and "ValueError" in str(e.name) and ok_true(s, e.guard) for e in i.events):
                    r.bad(COMP, f.loc, f"{comp!r} is not refused as invalid")
                    return
                continue
            exp = ("element",) + want if want[0] != "patch" else ("latest", ("patch", want[1])) if want[2] else ("patch", want[1])
            if not found:
                exp = None
            if got != exp:
                r.bad(COMP, f.loc, f"{comp!r} ({'existing' if found else 'missing'}) gives {got} instead of {exp}")
                return
    r.ok(COMP, f.loc, f"{len(SYNTAX)} valid and {len(INVALID)} invalid components evaluated")


def ok_true(s, g):
    try:
        return s.true(g)
    except (Unknown, Fails):
        return False


def elements(c):
    r = c.r
    base = c.prog.cls("storage.PatchElement")
    if base is None:
        r.und(ELEM, "storage.PatchElement", "not found")
        return
    n = 0
    for k in base.all_subclasses():
        for name in ("download", "fspaths", "relpaths"):
            g = k.method(name)
            if g is None or g.cls is base or g.abstract:
                r.bad(ELEM, k.loc, f"{k.name} has no {name}")
                continue
            a = g.node.args
            names = [x.arg for x in a.args[1:]]
            n += 1
            if a.kwarg is None:
                r.ob("langs" in names or "langs" in [x.arg for x in a.kwonlyargs], ELEM, g.loc, f"{name} of {k.name} does not take languages")
            extra = len(names) - len(a.defaults)
            r.ob(extra <= 0 or names[:extra] == ["langs"] and name == "never", ELEM, g.loc, f"{name} of {k.name} needs {', '.join(names[:max(extra, 0)])}")
    if not n:
        r.und(ELEM, base.loc, "no class of patch elements")
