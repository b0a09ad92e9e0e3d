"""Static model of the package: modules, functions, classes, name resolution, type hints."""
import ast
import os
import re


class AnalysisBroken(Exception):
    """A public anchor of the property is gone: the analysis cannot give a verdict."""


class Func:
    def __init__(self, module, node, qual, cls=None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = set()
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                n = d
                if isinstance(n, ast.Call):
                    n = n.func
                if isinstance(n, ast.Attribute):
                    self.decorators.add(n.attr)
                elif isinstance(n, ast.Name):
                    self.decorators.add(n.id)
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = bool(self.decorators & {"property", "cached_property"})
        self.is_cm = "contextmanager" in self.decorators
        self.is_gen = (not isinstance(node, ast.Lambda)) and _has_yield(node.body)
        self.abstract = _is_abstract(node)
        self._locals = None
        self._nonlocals = None
        self._asynced = None

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def scope(self):
        """(local names, nonlocal names, global names)"""
        if self._locals is None:
            loc, non, glo = set(), set(), set()
            for a in all_args(self.node.args):
                loc.add(a.arg)
            body = [self.node.body] if isinstance(self.node, ast.Lambda) else self.node.body
            for st in body:
                _collect(st, loc, non, glo)
            self._locals = (loc - non - glo, non, glo)
        return self._locals

    def asynced(self):
        """local names changed by a nested function which is handed over (e.g. a signal handler): anything may call it, at any time"""
        if self._asynced is None:
            self._asynced = _asynced(self)
        return self._asynced


def _asynced(f):
    if isinstance(f.node, ast.Lambda):
        return frozenset()
    nested = {}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f.node:
            nested[n.name] = n
    called = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
    escaped = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in nested and id(n) not in called}
    out, todo = set(), list(escaped)
    while todo:
        g = nested[todo.pop()]
        for n in ast.walk(g):
            if isinstance(n, ast.Nonlocal):
                out.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in nested and n.id not in escaped:
                escaped.add(n.id)
                todo.append(n.id)
    return frozenset(out & f.scope()[0])


def all_args(a):
    out = list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)
    if a.vararg:
        out.append(a.vararg)
    if a.kwarg:
        out.append(a.kwarg)
    return out


def _collect(node, loc, non, glo):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        loc.add(node.name)
        return
    if isinstance(node, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        # walrus inside comprehensions binds in the enclosing function
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr) and not isinstance(node, ast.Lambda):
                loc.add(n.target.id)
        return
    if isinstance(node, ast.Nonlocal):
        non.update(node.names)
    elif isinstance(node, ast.Global):
        glo.update(node.names)
    elif isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
        loc.add(node.id)
    elif isinstance(node, (ast.Import, ast.ImportFrom)):
        for al in node.names:
            loc.add((al.asname or al.name).split(".")[0])
    elif isinstance(node, ast.ExceptHandler) and node.name:
        loc.add(node.name)
    elif isinstance(node, (ast.MatchAs, ast.MatchStar)) and node.name:
        loc.add(node.name)
    for c in ast.iter_child_nodes(node):
        _collect(c, loc, non, glo)


def _has_yield(body):
    stack = list(body) if isinstance(body, list) else [body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _is_abstract(node):
    if isinstance(node, ast.Lambda):
        return False
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
        e = body[0].exc
        if isinstance(e, ast.Call):
            e = e.func
        return isinstance(e, ast.Name) and e.id == "NotImplementedError"
    return False


class Class:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual
        self.name = node.name
        self.methods, self.attrs, self.ann = {}, {}, {}
        self.base_names = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.base_names.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.base_names.append(b.attr)
        self.bases = []
        self.subclasses = []
        self._attr_types = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, st, f"{qual}.{st.name}", self)
                if "setter" in f.decorators:
                    continue
                self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
                self.ann[st.target.id] = st.annotation

    def mro(self):
        out, stack = [], [self]
        while stack:
            c = stack.pop(0)
            if c not in out:
                out.append(c)
                stack.extend(c.bases)
        return out

    def method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            other = c.attrs.get(name)
            if isinstance(other, ast.Name) and other.id in c.methods:
                return c.methods[other.id]
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_subclasses(self):
        out = []
        for s in self.subclasses:
            out.append(s)
            out.extend(s.all_subclasses())
        return out

    def lib_bases(self, prog):
        out = []
        for c in self.mro():
            for n in c.base_names:
                if not prog.resolve_class(c.module, n):
                    out.append(n)
        return out

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class Module:
    def __init__(self, name, path, rel, tree, source):
        self.name, self.path, self.rel, self.tree, self.source = name, path, rel, tree, source
        self.functions, self.classes, self.imports, self.globals = {}, {}, {}, {}


class Program:
    def __init__(self, root="/repo", package="cdtb"):
        self.root, self.package = root, package
        self.modules = {}
        self.funcs = {}       # ast node id -> Func
        self.by_method = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory not found: {base}")
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if fn.endswith(".py"):
                    path = os.path.join(dirpath, fn)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(path, encoding="utf-8") as f:
                        src = f.read()
                    try:
                        tree = ast.parse(src, path)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"{rel} does not parse: {e}")
                    self.modules[name] = Module(name, path, rel, tree, src)
        self.classes = {}
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_names:
                    k = self.resolve_class(m, b)
                    if k:
                        c.bases.append(k)
                        k.subclasses.append(c)
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.by_method.setdefault(n, []).append(f)
                    self.funcs[id(f.node)] = f

    def _index(self, m):
        def walk(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if st.name not in m.functions:
                        f = Func(m, st, f"{m.name}.{st.name}")
                        m.functions[st.name] = f
                        self.funcs[id(st)] = f
                elif isinstance(st, ast.ClassDef):
                    c = Class(m, st, f"{m.name}.{st.name}")
                    m.classes[st.name] = c
                    self.classes.setdefault(st.name, c)
                elif isinstance(st, ast.Import):
                    for al in st.names:
                        if al.asname:
                            m.imports[al.asname] = ("mod", al.name)
                        else:
                            m.imports[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    self._import_from(m, st, m.imports)
                elif isinstance(st, ast.Try):
                    walk(st.body)
                    walk(st.orelse)
                    walk(st.finalbody)
                elif isinstance(st, ast.If):
                    walk(st.body)
                    walk(st.orelse)
                elif isinstance(st, ast.With):
                    walk(st.body)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.globals.setdefault(n.id, []).append(st.value if t is n else None)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.globals.setdefault(st.target.id, []).append(st.value)
        walk(m.tree.body)

    def _import_from(self, m, st, table):
        if st.level:
            parts = m.name.split(".")
            is_pkg = m.path.endswith("__init__.py")
            parts = parts if is_pkg else parts[:-1]
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        else:
            base = st.module or ""
        for al in st.names:
            table[al.asname or al.name] = ("from", base, al.name)

    def resolve(self, m, name, depth=0):
        """Resolve a module-level name: ('func',F) ('class',C) ('mod',dotted) ('lib',dotted) ('global',module,name) or None."""
        if depth > 8:
            return None
        if name in m.imports and name not in m.functions and name not in m.classes:
            imp = m.imports[name]
            if imp[0] == "mod":
                return ("mod", imp[1])
            _, base, attr = imp
            if base in self.modules:
                r = self.resolve(self.modules[base], attr, depth + 1)
                if r:
                    return r
            full = f"{base}.{attr}" if base else attr
            if full in self.modules:
                return ("mod", full)
            if base == self.package or base.startswith(self.package + "."):
                return None
            return ("lib", full)
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.globals:
            return ("global", m, name)
        return None

    def resolve_class(self, m, name):
        r = self.resolve(m, name)
        if r and r[0] == "class":
            return r[1]
        return None

    # ---------------------------------------------------------------- public anchors

    def func(self, dotted):
        """'storage.Storage.download' or 'hashes.update_default_hashfile' -> Func (public anchor)."""
        parts = dotted.split(".")
        m = self.modules.get(f"{self.package}.{parts[0]}")
        if m is None:
            raise AnalysisBroken(f"module {parts[0]} is gone")
        if len(parts) == 2:
            r = self.resolve(m, parts[1])
            if not r or r[0] != "func":
                raise AnalysisBroken(f"function {dotted} is gone")
            return r[1]
        c = self.cls(f"{parts[0]}.{parts[1]}")
        f = c.method(parts[2])
        if f is None:
            raise AnalysisBroken(f"method {dotted} is gone")
        return f

    def cls(self, dotted):
        mod, name = dotted.split(".")
        m = self.modules.get(f"{self.package}.{mod}")
        if m is not None:
            c = self.resolve_class(m, name)
            if c:
                return c
        if name in self.classes:
            return self.classes[name]
        raise AnalysisBroken(f"class {dotted} is gone")

    def module(self, name):
        m = self.modules.get(f"{self.package}.{name}")
        if m is None:
            raise AnalysisBroken(f"module {name} is gone")
        return m

    # ---------------------------------------------------------------- types from annotations

    def ann_type(self, m, node, cls=None):
        """Type of an annotation: Class, ('lib', name), ('iter', T), ('dict', K, V), ('tuple', [..]) or None."""
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann_type(m, ast.parse(node.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.Name):
            r = self.resolve(m, node.id)
            if r and r[0] == "class":
                return r[1]
            if r and r[0] == "lib":
                return ("lib", r[1])
            if node.id in ("str", "int", "bytes", "bool", "float", "set", "list", "dict", "tuple"):
                return ("lib", node.id)
            return None
        if isinstance(node, ast.Attribute):
            d = dotted_name(node)
            return ("lib", d) if d else None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a = self.ann_type(m, node.left)
            b = self.ann_type(m, node.right)
            return a or b if not (a and b) else None
        if isinstance(node, ast.Subscript):
            head = dotted_name(node.value) or ""
            head = head.split(".")[-1].lower()
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if head == "optional":
                return self.ann_type(m, args[0])
            if head == "union":
                ts = [self.ann_type(m, a) for a in args]
                ts = [t for t in ts if t]
                return ts[0] if len(ts) == 1 else None
            if head in ("list", "set", "iterable", "iterator", "generator", "sequence", "frozenset", "deque"):
                return ("iter", self.ann_type(m, args[0]))
            if head in ("dict", "defaultdict", "mapping"):
                return ("dict", self.ann_type(m, args[0]), self.ann_type(m, args[1]) if len(args) > 1 else None)
            if head == "tuple":
                return ("tuple", [self.ann_type(m, a) for a in args])
        return None

    def attr_type(self, cls, name):
        for c in cls.mro():
            t = self._class_attr_types(c).get(name)
            if t:
                return t
        return None

    def _class_attr_types(self, c):
        if c._attr_types is not None:
            return c._attr_types
        out = c._attr_types = {}
        for n, a in c.ann.items():
            t = self.ann_type(c.module, a)
            if t:
                out[n] = t
        for f in c.methods.values():
            if f.is_static:
                continue
            args = all_args(f.node.args)
            if not args:
                continue
            selfname = args[0].arg
            if f.is_classmethod or f.name == "__new__":
                continue
            env = {a.arg: self.ann_type(c.module, a.annotation) for a in args[1:] if a.annotation is not None}
            for n in ast.walk(f.node):
                tgt = val = ann = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign):
                    tgt, val, ann = n.target, n.value, n.annotation
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == selfname:
                    t = self.ann_type(c.module, ann) if ann is not None else None
                    if not t and val is not None:
                        t = self.expr_type(c.module, val, env, c)
                    if t and tgt.attr not in out:
                        out[tgt.attr] = t
        return out

    def expr_type(self, m, e, env, cls=None):
        """Light-weight type of an expression from constructors and annotations."""
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                r = self.resolve(m, f.id)
                if r and r[0] == "class":
                    return r[1]
                if r and r[0] == "func":
                    return self.ann_type(r[1].module, r[1].node.returns)
                if r and r[0] == "lib":
                    return ("lib", r[1])
                if f.id in ("list", "sorted", "set", "tuple") and e.args:
                    t = self.expr_type(m, e.args[0], env, cls)
                    return t
            elif isinstance(f, ast.Attribute):
                d = dotted_name(f)
                if d:
                    head = d.split(".")[0]
                    r = self.resolve(m, head)
                    if r and r[0] == "mod":
                        if r[1] in self.modules:
                            r2 = self.resolve(self.modules[r[1]], f.attr)
                            if r2 and r2[0] == "class":
                                return r2[1]
                        return ("lib", r[1] + d[len(head):])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return ("iter", self.expr_type(m, e.elt, env, cls))
        return None


def dotted_name(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


_EXC_PARENTS = {
    "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "FileNotFoundError": "OSError", "PermissionError": "OSError",
    "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "FileExistsError": "OSError", "ConnectionError": "OSError", "TimeoutError": "OSError",
    "OSError": "Exception", "IOError": "OSError", "EnvironmentError": "OSError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "UnicodeError": "ValueError", "JSONDecodeError": "ValueError", "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
    "AssertionError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "RuntimeError": "Exception", "StopIteration": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "ArithmeticError": "Exception", "EOFError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "NameError": "Exception", "MemoryError": "Exception", "HTTPError": "RequestException", "RequestException": "OSError",
    "struct.error": "Exception", "error": "Exception", "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "GeneratorExit": "BaseException",
    "UnsupportedOperation": "OSError", "ZstdError": "Exception", "BadGzipFile": "OSError",
}


def exc_ancestors(prog, name):
    """All superclass names of an exception class name (repo classes included)."""
    out, todo = [], [name]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.append(n)
        c = prog.classes.get(n)
        if c is not None:
            todo.extend(c.base_names)
        elif n in _EXC_PARENTS:
            todo.append(_EXC_PARENTS[n])
        elif n not in ("BaseException", "object"):
            todo.append("Exception")
    return out
