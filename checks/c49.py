"""C49: every name, attribute and argument used exists."""
import ast
import builtins
import importlib
import inspect
import re
import string
import struct
import symtable
import sys
from vfa.q import *
from vfa import terms as tm
from vfa.program import Class

RULE = """Every function is analysed on its own, for each final class it can be called on: a variable must have a value on every path to its use (the condition of the paths without one must be unsatisfiable), every attribute read from an object of a class of the toolbox must be
defined by that class, its instances or its subclasses, every method looked up with super() by a later class, and every call of a function, method or class of the toolbox must fit its signature. Every global name must be bound in its module or built in. Names taken from standard modules
must exist in them, calls of their functions must fit their signatures, constant struct formats and regular expressions must be valid, constant format strings must have as many places as values, and a function unpacked into several variables must return as many values."""

VARIABLE, NAME, ATTR, CALL, LIB, FORMAT, COUNT = ("a variable has a value wherever it is used", "a global name is defined", "an attribute read is one that the object has", "a call fits the signature", "what is taken from a standard module exists and is called as it can be",
                                                 "a constant format or expression is valid", "a result is unpacked in as many variables as it has values")


def check(c):
    c.part(bodies)
    c.part(names)
    c.part(library)
    c.part(formats)
    c.part(unpacked)


def kinds(f):
    """The classes a method may be called on, those with subclasses only if they are used themselves."""
    if f.cls is None:
        return [None]
    final = [k for k in [f.cls] + f.cls.all_subclasses() if not k.subclasses]
    return [k for k in final if k.method(f.node.name) is f] or final


# ---------------------------------------------------------------- classes and their attributes

class Attributes:
    def __init__(self, prog):
        self.prog, self.memo = prog, {}
        self.anywhere = set()
        self.own, self.typed, self.stores = {}, set(), []
        self.dynamic = set()
        for f in prog.funcs.values():
            self.scan(f.node, f)
        for m in prog.modules.values():
            for st in m.tree.body:
                if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.scan(st, None)

    def scan(self, node, f):
        me = None
        if f is not None and f.cls is not None and not f.is_static and node.args.args:
            me = node.args.args[0].arg
        made = {t.id for n in ast.walk(node) if f is not None and f.cls is not None and isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "__new__" for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                if isinstance(n.value, ast.Name) and (n.value.id == me or n.value.id in made):
                    self.own.setdefault(f.cls.qual, set()).add(n.attr)
                else:
                    self.stores.append(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" or isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__"):
                if f is not None and f.cls is not None:
                    self.dynamic.add(f.cls.qual)
                else:
                    self.dynamic.add(None)

    def settle(self):
        self.anywhere = {n.attr for n in self.stores if id(n) not in self.typed}

    def of_lib(self, cls, name):
        for b in cls.lib_bases(self.prog):
            v = getattr(builtins, b, None)
            if v is None:
                imp = cls.module.imports.get(b)
                v = None
                if imp and imp[0] in ("from", "attr", "name") and len(imp) > 2 and imp[1].split(".")[0] in sys.stdlib_module_names:
                    try:
                        v = getattr(importlib.import_module(imp[1]), imp[2], None)
                    except ImportError:
                        v = None
                if v is None:
                    return True
            if hasattr(v, name):
                return True
        return False

    def has(self, t, name, wide=True):
        """Whether objects of the class may have the attribute."""
        if name in self.anywhere or hasattr(object, name) or name in ("__dict__", "__module__", "__weakref__", "__slots__"):
            return True
        if self.dynamic & ({None} | {k.qual for k in t.mro()}):
            return True
        cs = set(t.mro())
        if wide:
            for s in t.all_subclasses():
                cs.update(s.mro())
        for k in cs:
            if "__getattr__" in k.methods or "__getattribute__" in k.methods:
                return True
            if name in k.methods or name in k.attrs or name in k.ann or name in self.own.get(k.qual, ()):
                return True
            for st in ast.walk(k.node):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and st is not k.node and st.name == name:
                    return True
                if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and st.id == name and any(st in ast.walk(x) for x in k.node.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))):
                    return True
            if "__slots__" in k.attrs and any(isinstance(x, ast.Constant) and x.value == name for x in ast.walk(k.attrs["__slots__"])):
                return True
            if any(kw.arg == "metaclass" for kw in k.node.keywords) and wide is None:
                return True
        return self.of_lib(t, name)


# ---------------------------------------------------------------- each function on its own

def excused(f, node, name):
    """A read inside `try: … except AttributeError` or of a function that asks hasattr()."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
            return True
        if isinstance(n, ast.Try) and any(node is x for b in n.body for x in ast.walk(b)):
            for h in n.handlers:
                if h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", None)) in ("AttributeError", "NameError", "UnboundLocalError", "Exception", "TypeError") for x in ast.walk(h.type)):
                    return True
    return False


LOOPS = ("any", "gone", "mu", "post", "first", "last", "next", "nonempty")


def bodies(c):
    r = c.r
    attrs = Attributes(c.prog)
    allq = {f.qual for f in c.prog.funcs.values()}
    seen = set()
    runs = [(f, [c.run(f, f.qual[5:], opaque=allq, self_type=k) for k in kinds(f)]) for f in list(c.prog.funcs.values())]
    for f, its in runs:
        for i in its:
            for e in i.events:
                if e.kind == "setattr":
                    t = i.typeof(e.recv) if e.recv is not None else None
                    if e.recv is not None and e.recv.op == "class":
                        t = i.class_of(e.recv)
                    if isinstance(t, Class):
                        attrs.own.setdefault(t.qual, set()).add(e.name)
                        attrs.typed.update(id(x) for x in ast.walk(e.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == e.name)
    attrs.settle()
    for f, its in runs:
        bad = {}
        for i in its:
            for kind, what, node, module, reach in i.faults:
                if reach and tm.satisfiable(band(*reach)) is False:
                    continue
                line = f"{module.rel}:{getattr(node, 'lineno', '?')}"
                if kind == "maybe":
                    name, a = what
                    g = band(*reach, bnot(a))
                    s = tm.satisfiable(g)
                    if s is False or excused(f, node, name):
                        continue
                    if s is not None and tm.mentions(g, lambda x: x.op in LOOPS):
                        # a loop that has something to go through, and leaves its marks
                        s = tm.satisfiable(band(*reach, bnot(tm.subst(a, {x: TRUE for x in tm.atoms(a) if x.op in ("any", "nonempty") or tm.mentions(x, lambda y: y.op in ("mu", "post"))}))))
                    if not s:
                        continue
                    bad.setdefault((VARIABLE, line, f"{name} has no value if {text(strip_epoch(g))[:160]}"), None)
                elif kind == "unbound":
                    if not excused(f, node, what):
                        bad.setdefault((VARIABLE, line, f"{what} has no value"), None)
                elif kind == "name":
                    if not excused(f, node, what):
                        bad.setdefault((NAME, line, what), None)
                elif kind == "attribute":
                    t, name = what
                    if isinstance(t, Class):
                        ok = attrs.has(t, name) or excused(f, node, name) or any("metaclass" == kw.arg for x in t.mro() for kw in x.node.keywords) and name.startswith("__")
                        t = t.name
                    else:
                        ok = excused(f, node, name) or name.startswith("__")
                    if not ok:
                        bad.setdefault((ATTR, line, f"{t} has no {name}"), None)
                elif kind == "super":
                    t, name, mro = what
                    if not any(name in x.methods or name in x.attrs for x in mro) and not hasattr(object, name) and not attrs.of_lib(t, name):
                        bad.setdefault((ATTR, f.loc, f"no class above {t.name} has {name}"), None)
                elif kind == "argument":
                    fn, why = what
                    bad.setdefault((CALL, line, f"{fn.qual.split('.', 1)[-1]} {why}"), None)
        for x in bad:
            if x not in seen:
                seen.add(x)
                r.bad(*x)
        if not bad:
            r.ok("every name, attribute and argument used exists", f.loc, f.qual[5:])


# ---------------------------------------------------------------- global names

def names(c):
    known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__class__", "__builtins__", "__debug__"}
    for m in c.prog.modules.values():
        top = symtable.symtable(m.source, m.rel, "exec")
        if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
            continue
        bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        uses = {}

        def walk(t):
            for s in t.get_symbols():
                if t is not top and s.is_declared_global() and s.is_assigned():
                    bound.add(s.get_name())
                if s.is_referenced() and (t is top or s.is_global()):
                    uses.setdefault(s.get_name(), t)
            for ch in t.get_children():
                walk(ch)
        walk(top)
        bad = 0
        for n, t in uses.items():
            if n in bound or n in known:
                continue
            nodes = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
            if any(isinstance(tr, ast.Try) and any(x is y for b in tr.body for y in ast.walk(b)) and any(h.type is None or any(getattr(z, "id", "") in ("NameError", "Exception") for z in ast.walk(h.type)) for h in tr.handlers) for tr in ast.walk(m.tree) for x in nodes):
                continue
            bad += 1
            line = nodes[0].lineno if nodes else t.get_lineno()
            c.r.bad(NAME, f"{m.rel}:{line} in {t.get_name()}", n)
        if not bad:
            c.r.ok(NAME, m.rel, f"{len(uses)} names")


# ---------------------------------------------------------------- standard modules

def standard(m, e, local):
    """The object of a standard module that an expression names: (object, dotted name) or None; raises AttributeError."""
    if isinstance(e, ast.Name):
        if e.id in local:
            return None
        imp = m.imports.get(e.id)
        if imp is None:
            if e.id in m.functions or e.id in m.classes or e.id in m.globals or any(isinstance(n, (ast.Name,)) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in ast.walk(m.tree)):
                return None
            return (getattr(builtins, e.id), e.id) if hasattr(builtins, e.id) else None
        if imp[0] == "mod":
            if imp[1].split(".")[0] not in sys.stdlib_module_names:
                return None
            return importlib.import_module(imp[1]), imp[1]
        base, attr = imp[-2], imp[-1]
        if not isinstance(base, str) or base.split(".")[0] not in sys.stdlib_module_names:
            return None
        mod = importlib.import_module(base)
        if not hasattr(mod, attr):
            return importlib.import_module(f"{base}.{attr}"), f"{base}.{attr}"
        return getattr(mod, attr), f"{base}.{attr}"
    if isinstance(e, ast.Attribute):
        b = standard(m, e.value, local)
        if b is None:
            return None
        obj, n = b
        if not (inspect.ismodule(obj) or inspect.isclass(obj) and obj.__module__.split(".")[0] in sys.stdlib_module_names):
            return None
        if not hasattr(obj, e.attr):
            if inspect.ismodule(obj):
                try:
                    return importlib.import_module(f"{obj.__name__}.{e.attr}"), f"{n}.{e.attr}"
                except ImportError:
                    pass
            raise AttributeError(f"{n} has no {e.attr}")
        return getattr(obj, e.attr), f"{n}.{e.attr}"
    return None


WINDOWS = {"startfile", "O_BINARY", "getwch", "getch", "winreg", "windll", "WinDLL", "WinError", "WindowsError"}


def locals_of(f):
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split(".")[0] for a in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def library(c):
    for f in c.prog.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        local = locals_of(f)
        m = f.module
        bad = n = 0
        for e in ast.walk(f.node):
            try:
                if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
                    if standard(m, e, local) is not None:
                        n += 1
                elif isinstance(e, ast.Call):
                    o = standard(m, e.func, local)
                    if o is None or any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                        continue
                    try:
                        sig = inspect.signature(o[0])
                    except (ValueError, TypeError):
                        continue
                    n += 1
                    try:
                        sig.bind(*e.args, **{k.arg: k.value for k in e.keywords})
                    except TypeError as x:
                        if not excused(f, e, ""):
                            bad += 1
                            c.r.bad(LIB, f"{m.rel}:{e.lineno} in {f.qual[5:]}", f"{o[1]}: {x}")
            except AttributeError as x:
                if not excused(f, e, e.attr if isinstance(e, ast.Attribute) else "") and not set(re.findall(r"\w+", str(x))) & WINDOWS:
                    bad += 1
                    c.r.bad(LIB, f"{m.rel}:{e.lineno} in {f.qual[5:]}", str(x))
            except ImportError:
                pass
        if n and not bad:
            c.r.ok(LIB, f.loc, f"{n} uses in {f.qual[5:]}")


# ---------------------------------------------------------------- formats

def formats(c):
    n = 0
    for m in c.prog.modules.values():
        for e in ast.walk(m.tree):
            where = f"{m.rel}:{getattr(e, 'lineno', 0)}"
            if isinstance(e, ast.Call):
                try:
                    o = standard(m, e.func, ())
                except (AttributeError, ImportError):
                    o = None
                d = o[1] if o is not None else None
                a = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else None
                if d in ("struct.pack", "struct.unpack", "struct.unpack_from", "struct.iter_unpack", "struct.calcsize", "struct.Struct", "struct.pack_into") and isinstance(a, (str, bytes)):
                    n += 1
                    try:
                        struct.calcsize(a)
                        if d == "struct.pack" and not any(isinstance(x, ast.Starred) for x in e.args):
                            k = len(struct.unpack(a, bytes(struct.calcsize(a))))
                            if k != len(e.args) - 1:
                                c.r.bad(FORMAT, where, f"{a!r} packs {k} values, {len(e.args) - 1} are given")
                    except struct.error as x:
                        c.r.bad(FORMAT, where, f"format {a!r}: {x}")
                elif d is not None and d.startswith("re.") and d[3:] in ("compile", "match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split") and isinstance(a, (str, bytes)):
                    n += 1
                    try:
                        rx = re.compile(a)
                        if d in ("re.sub", "re.subn") and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                            re._parser.parse_template(e.args[1].value, rx)
                    except re.error as x:
                        c.r.bad(FORMAT, where, f"expression {a!r}: {x}")
                elif isinstance(e.func, ast.Attribute) and e.func.attr == "format" and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
                    if any(isinstance(x, ast.Starred) for x in e.args) or any(k.arg is None for k in e.keywords):
                        continue
                    n += 1
                    why = places(e.func.value.value, len(e.args), {k.arg for k in e.keywords})
                    if why:
                        c.r.bad(FORMAT, where, why)
            elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, (str, bytes)) and isinstance(e.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.right.elts):
                n += 1
                s = e.left.value if isinstance(e.left.value, str) else e.left.value.decode("latin-1")
                k = sum(1 + g.count("*") for g, t in re.findall(r"%((?:\([^)]*\))?[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?)([a-zA-Z%])", s) if t != "%")
                if k != len(e.right.elts) and "%(" not in s:
                    c.r.bad(FORMAT, where, f"{s!r} has {k} places for {len(e.right.elts)} values")
    c.r.ok(FORMAT, "cdtb", f"{n} constant formats and expressions")


def places(s, npos, kw):
    auto, used = 0, set()
    try:
        for _, field, spec, _ in string.Formatter().parse(s):
            if field is None:
                continue
            for fld in [field] + [x[1] for x in string.Formatter().parse(spec or "") if x[1] is not None]:
                first = re.split(r"[.\[]", fld, maxsplit=1)[0]
                if first == "":
                    used.add(auto)
                    auto += 1
                elif first.isdigit():
                    used.add(int(first))
                else:
                    used.add(first)
    except ValueError as x:
        return f"{s!r}: {x}"
    for u in used:
        if isinstance(u, int) and u >= npos or isinstance(u, str) and u not in kw:
            return f"{s!r} has no value for {u}"
    return None


# ---------------------------------------------------------------- unpacked results

def returned(f):
    """The numbers of values a function gives, None if not known."""
    out = set()

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                out.add(None)
            if isinstance(ch, ast.Return):
                v = ch.value
                out.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts) else None)
            walk(ch)
    walk(f.node)
    return out


def unpacked(c):
    n = 0
    for f in c.prog.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        for e in ast.walk(f.node):
            if not (isinstance(e, ast.Assign) and len(e.targets) == 1 and isinstance(e.targets[0], (ast.Tuple, ast.List)) and isinstance(e.value, ast.Call)) or any(isinstance(x, ast.Starred) for x in e.targets[0].elts):
                continue
            g = callee(c.prog, f, e.value.func)
            if g is None or f.is_gen and g is f:
                continue
            for k in returned(g):
                if k is not None:
                    n += 1
                    if k != len(e.targets[0].elts):
                        c.r.bad(COUNT, f"{f.module.rel}:{e.lineno} in {f.qual[5:]}", f"{g.qual[5:]} returns {k} values for {len(e.targets[0].elts)} variables")
    c.r.ok(COUNT, "cdtb", f"{n} results")


def callee(prog, f, e):
    if isinstance(e, ast.Name):
        g = f.module.functions.get(e.id)
        if g is None and e.id in f.module.imports:
            imp = f.module.imports[e.id]
            if len(imp) > 2 and imp[-2] in prog.modules:
                g = prog.modules[imp[-2]].functions.get(imp[-1])
        return g
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None and f.node.args.args and e.value.id == f.node.args.args[0].arg and not f.is_static:
        if any(e.attr in s.methods for s in f.cls.all_subclasses()):
            return None
        return f.cls.method(e.attr)
    return None
