"""Model of the command line, from the calls that build the argument parser."""
from .q import *
from . import terms as tm

GROUPS = {"add_argument_group", "add_mutually_exclusive_group"}


class Option:
    def __init__(self, flags, dest, kw, e):
        self.flags, self.dest, self.kw, self.e = flags, dest, kw, e

    @property
    def positional(self):
        return not self.flags

    def get(self, k):
        """Constant value of a keyword; None if absent, Ellipsis if not constant."""
        v = self.kw.get(k)
        if v is None:
            return None
        return v.args[0] if v.op == "const" else ...

    @property
    def action(self):
        v = self.kw.get("action")
        if v is None:
            return "store"
        if v.op == "const":
            return v.args[0]
        s = str(text(v))
        return "boolean" if "BooleanOptionalAction" in s else None

    @property
    def default(self):
        """Value when the option is not given (a term)."""
        if "default" in self.kw:
            return self.kw["default"]
        return {"store_true": FALSE, "store_false": TRUE}.get(self.action, NONE)

    def given(self):
        """Constant stored when the flag is given, None if it takes a value."""
        return {"store_true": TRUE, "store_false": FALSE, "store_const": self.kw.get("const", NONE)}.get(self.action)


class Cli:
    def __init__(self, root):
        self.root = root
        self.i = None
        self.top = []
        self.commands = {}       # name -> [Option]
        self.handlers = {}       # name -> term given to set_defaults
        self.where = {}
        self.ok = True
        self.aliases = {}

    def options(self, cmd):
        return self.commands.get(cmd, [])

    def dests(self, cmd):
        return {o.dest for o in self.options(cmd) + self.top}

    def option(self, cmd, flag):
        for o in self.options(cmd):
            if flag in o.flags:
                return o
        return None


def base(t):
    """The parser object behind a group, alias..."""
    while t is not None and t.op == "mcall" and t.args[1] in GROUPS:
        t = t.args[0]
    return t


def model(c, root=None):
    """The parser built on the way to parse_args (None if it cannot be determined)."""
    if root is None:
        cand = [f for f in c.prog.funcs.values() if f.qual == "cdtb.__main__.main"]
        if not cand:
            return None
        root = "__main__.main"
    i = c.run(root, "command line", opaque={f.qual.split(".", 1)[1] for f in c.prog.funcs.values() if not f.qual.startswith("cdtb.__main__.") or ".command_" in f.qual or "parse_" in f.qual})
    m = Cli(root)
    m.i = i
    opts, parents, order = {}, {}, []
    subs = {}
    for e in i.events:
        if e.kind in ("call", "new") and e.name in ("argparse.ArgumentParser", "ArgumentParser"):
            pass
        if e.kind != "mcall":
            continue
        rc = base(e.recv)
        if e.name == "add_argument":
            if e.loops or not tm.equiv(e.guard, TRUE):
                m.ok = False
            flags, ok = [], True
            for a in e.args:
                if a.op == "const" and isinstance(a.args[0], str):
                    flags.append(a.args[0])
                else:
                    ok = False
            if not ok or not flags:
                m.ok = False
                continue
            dash = [f for f in flags if f.startswith("-")]
            d = e.kw.get("dest")
            if d is not None and d.op == "const":
                dest = d.args[0]
            elif dash:
                lng = [f for f in dash if f.startswith("--")]
                dest = (lng or dash)[0].lstrip("-").replace("-", "_")
            else:
                dest = flags[0]
            opts.setdefault(rc, []).append(Option(dash, dest, e.kw, e))
        elif e.name == "add_parser":
            nm = e.args[0] if e.args else e.kw.get("name")
            if nm is None or nm.op != "const":
                m.ok = False
                continue
            ps = e.kw.get("parents")
            obj = next((x for x in subs_of(i, e)), None)
            subs[nm.args[0]] = (obj, plist(ps), e)
        elif e.name == "set_defaults":
            opts.setdefault(rc, [])
            for k, v in e.kw.items():
                m.handlers.setdefault(rc, {})[k] = v
        elif e.name == "parse_args":
            m.parse = e
    hs = m.handlers
    m.handlers = {}
    seen = set()
    for nm, (obj, ps, e) in subs.items():
        o = []
        todo = list(ps)
        while todo:
            x = todo.pop(0)
            if x is None:
                m.ok = False
                continue
            o += opts.get(base(x), [])
            seen.add(base(x))
            todo += plist(kwarg(x, "parents"))
        o += opts.get(obj, [])
        seen.add(obj)
        m.commands[nm] = o
        m.where[nm] = e.where()
        m.handlers[nm] = hs.get(obj, {})
    for k, v in opts.items():
        if k not in seen and not any(k is x for x in seen):
            m.top += v
    return m


def kwarg(t, k):
    for a in t.args if t is not None else ():
        if hasattr(a, "op") and a.op == "kw" and a.args[0] == k:
            return a.args[1]
    return None


def plist(t):
    if t is None:
        return []
    if t.op in ("list", "tuple"):
        return list(t.args)
    es = tm.entries_of(t)
    if es:
        return [x.args[2] for x in es]
    return [None]


def subs_of(i, e):
    """The parser object an add_parser call made."""
    r = getattr(e, "result", None)
    if r is not None:
        yield r
