"""Expression evaluation, attribute and call resolution."""
import ast
from . import terms as tm
from .terms import T, mk, const, TRUE, FALSE, NONE, band, bor, bnot, ite, truth, cmp, build, entry, entries_of, cat, fmt, is_const
from .program import Func, Class, all_args, dotted_name

BUILTINS = {"len", "str", "int", "bool", "float", "list", "tuple", "set", "frozenset", "dict", "iter", "sorted", "reversed", "enumerate", "zip", "map",
            "filter", "range", "any", "all", "next", "min", "max", "sum", "isinstance", "issubclass", "getattr", "hasattr", "setattr", "super", "type",
            "print", "open", "hash", "repr", "format", "callable", "bytes", "bytearray", "memoryview", "object", "ord", "chr", "abs", "divmod", "pow", "round",
            "id", "input", "vars", "dir", "globals", "locals", "exit", "quit", "staticmethod", "classmethod", "property", "slice", "hex", "oct", "bin", "NotImplemented",
            "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RuntimeError", "NotImplementedError", "OSError", "IOError", "Exception", "BaseException",
            "FileNotFoundError", "FileExistsError", "PermissionError", "IsADirectoryError", "NotADirectoryError", "StopIteration", "KeyboardInterrupt", "SystemExit",
            "GeneratorExit", "AssertionError", "UnicodeDecodeError", "UnicodeEncodeError", "UnicodeError", "LookupError", "ArithmeticError", "ZeroDivisionError", "OverflowError",
            "EOFError", "ImportError", "ModuleNotFoundError", "MemoryError", "RecursionError", "EnvironmentError", "ConnectionError", "TimeoutError", "NameError", "__import__"}

TYPE_NAMES = {"str", "int", "bytes", "bool", "float", "list", "tuple", "dict", "set", "frozenset", "bytearray"}


class ExprMixin:
    BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
              ast.LShift: "<<", ast.RShift: ">>", ast.Pow: "**", ast.Div: "/", ast.MatMult: "@"}
    CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def ev(self, e):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return mk("unknown", type(e).__name__, self.new_uid())
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            return mk("unknown", "ellipsis")
        return const(v)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, node=None):
        fr = self.frame
        p = fr
        while p is not None:
            v = self.st.store.get(("v", p.id, name))
            if v is not None:
                a = self.st.store.get(("a", p.id, name))
                if a is not None and p is fr:
                    self.fault("maybe", (name, a), node)
                if isinstance(p.func, Func) and name in p.func.asynced():
                    return mk("async", name, self.new_uid(), v)
                return v
            if isinstance(p.func, Func) and name in p.func.scope()[0]:
                if p is fr:
                    self.fault("unbound", name, node)
                return mk("unbound", name, p.id)
            p = p.parent
        v = self.st.store.get(("g", fr.module.name, name))
        if v is not None:
            return v
        v = self.module_attr(fr.module, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return mk("lib", name)
        if name in ("__name__", "__file__"):
            return mk("global", fr.module.name, name)
        self.fault("name", name, node)
        return mk("undefined", name)

    # ------------------------------------------------------------ module globals

    def func_term(self, f):
        t = mk("func", f.qual, f.node.lineno)
        if t not in self.callables:
            self.callables[t] = (f, None, None)
        return t

    def module_attr(self, m, name):
        r = self.prog.resolve(m, name)
        if r is None:
            return None
        if r[0] == "func":
            return self.func_term(r[1])
        if r[0] == "class":
            return mk("class", r[1].qual)
        if r[0] == "mod":
            return mk("module", r[1])
        if r[0] == "lib":
            return self.lib_name(r[1])
        return self.global_value(r[1], r[2])

    LIB_CONSTS = {"os.SEEK_SET": 0, "os.SEEK_CUR": 1, "os.SEEK_END": 2, "io.SEEK_SET": 0, "io.SEEK_CUR": 1, "io.SEEK_END": 2, "zlib.MAX_WBITS": 15, "errno.EINVAL": 22, "errno.ENAMETOOLONG": 36,
                  "errno.ENOENT": 2, "errno.EEXIST": 17, "http.HTTPStatus.NOT_FOUND": 404, "requests.codes.not_found": 404}

    def lib_name(self, n):
        return const(self.LIB_CONSTS[n]) if n in self.LIB_CONSTS else mk("lib", n)

    def global_value(self, m, name):
        key = (m.name, name)
        if key in self._gmemo:
            return self._gmemo[key]
        g = mk("global", m.name, name)
        self._gmemo[key] = g
        vals = m.globals.get(name, [])
        deep = f"{m.name.split('.')[-1]}.{name}" in self.deep_globals
        if len(vals) == 1 and vals[0] is not None:
            v = self.eval_in_module(m, vals[0])
            t = self.prog.expr_type(m, vals[0], {})
            if t is not None:
                self.types.setdefault(g, t)
            if deep or self._plain(v):
                self._gmemo[key] = v
                return v
        return g

    def _plain(self, v, depth=0):
        if v.op in ("const", "func", "class", "lib", "module", "closure"):
            return True
        if v.op in ("tuple", "list", "set", "dict", "pair") and depth < 4:
            if v.op in ("dict", "list", "set") and not v.args:
                return False
            return all(self._plain(a, depth + 1) if isinstance(a, T) else True for a in v.args)
        if v.op == "call" and v.args[0] in ("re.compile", "struct.Struct"):
            return True
        return False

    def eval_in_module(self, m, node):
        """Evaluate a module-level expression without recording events."""
        from .interp import Frame, State
        saved = (self.frame, self.st, self.loops, self.zones, self.stack)
        self.quiet += 1
        try:
            self.frame = Frame(self.new_uid(), None, m, None, None, (), ())
            self.st = State()
            self.loops, self.zones = (), ()
            v = self.ev(node)
            v = self.snap(v)
            heap = {k: x for k, x in self.st.store.items() if k[0] == "f" and k[1].op == "obj"}
        finally:
            self.quiet -= 1
            self.frame, self.st, self.loops, self.zones, self.stack = saved
        for k, x in heap.items():
            self.st.store.setdefault(k, x)
            self._gheap[k] = x
        return v

    @property
    def _gheap(self):
        h = self.__dict__.get("__gheap")
        if h is None:
            h = self.__dict__["__gheap"] = {}
        return h

    # ------------------------------------------------------------ operators

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binary(self.BINOPS.get(type(e.op), "?"), a, b, e)

    def binary(self, op, a, b, node=None):
        sa, sb = self.snap(a), self.snap(b)
        if op == "%" and sa.op == "const" and isinstance(sa.args[0], str):
            sb = mk("tuple", *[self.to_str(x) for x in sb.args]) if sb.op == "tuple" else self.to_str(sb)
        if op in ("+",) and (self.listlike(sa) and self.listlike(sb)) and sa.op != "tuple":
            ea = entries_of(sa)
            eb = entries_of(sb)
            if ea is not None and eb is not None:
                return build("list", list(ea) + tm.again(ea, eb))
            return mk("chain", sa, sb)
        if op == "|" and tm.is_bool(sa) and tm.is_bool(sb):
            return bor(sa, sb)
        if op == "&" and tm.is_bool(sa) and tm.is_bool(sb):
            return band(sa, sb)
        if op == "|" and tm.is_bool(sb) and sa.op == "mu":
            return bor(truth(sa), sb)
        if op == "|" and tm.is_bool(sa) and sb.op == "mu":
            return bor(truth(sb), sa)
        if op == "|" and self.setlike(sa) and self.setlike(sb):
            ea, eb = entries_of(sa), entries_of(sb)
            if ea is not None and eb is not None:
                return build("set", ea + eb)
        if op == "-" and (self.setlike(sa) or self.setlike(sb)):
            return mk("setdiff", sa, sb)
        if op == "/":
            ta = self.typeof(a)
            if self.pathlike(sa, ta):
                return mk("call", "os.path.join", sa, sb)
        for x, meth in ((a, {"<": "__lt__"}.get(op)),):
            pass
        t = self.typeof(a)
        if isinstance(t, Class):
            nm = {"+": "__add__", "-": "__sub__", "|": "__or__", "/": "__truediv__", "%": "__mod__"}.get(op)
            if nm and t.method(nm):
                return self.call_func(t.method(nm), [a, b], {}, node)
        return tm.binop(op, sa, sb)

    def pathlike(self, t, ty):
        if t.op == "call" and t.args[0] in ("pathlib.Path", "pathlib.Path.home", "pathlib.PurePath"):
            return True
        if t.op == "call" and t.args[0] == "os.path.join":
            return True
        if ty == ("lib", "pathlib.Path"):
            return True
        if t.op == "ite":
            return any(self.pathlike(l, self.typeof(l)) for _, l in tm.cases(t))
        if t.op == "global" and "dir" in str(t.args[1]):
            return True
        return False

    def setlike(self, t):
        return t.op in ("set",) or (t.op == "build" and t.args[0] == "set") or (t.op == "call" and t.args[0] in ("set", "frozenset")) or t.op == "setdiff" \
            or self.typeof(t) == ("lib", "set")

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.known(truth(self.snap(v))))
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(v.args[0], (int, float)):
                return const(-v.args[0])
            return mk("neg", v)
        if isinstance(e.op, ast.Invert):
            if v.op == "const" and isinstance(v.args[0], int):
                return const(~v.args[0])
            return mk("inv", v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = truth(self.snap(v))
            if isand:
                k = self.known(c)
                if k is FALSE:
                    return v if v.op != "cobj" else self.snap(v)
                r = self.cond_exec(c, lambda: go(i + 1), lambda: v)
                if r is not None and tm.is_bool(self.snap(v)):
                    pass
                return r
            return self.cond_exec(c, lambda: v, lambda: go(i + 1))
        r = go(0)
        return r if r is not None else mk("never")

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []

        def go(i, left):
            op = self.CMPS[type(e.ops[i])]
            right = self.ev(e.comparators[i])
            c = self.compare(op, left, right, e)
            if i == len(e.ops) - 1:
                return c
            return self.cond_exec(truth(c), lambda: go(i + 1, right), lambda: FALSE)
        r = go(0, left)
        return r if r is not None else mk("never")

    def compare(self, op, a, b, node):
        if op in ("<", "<=", ">", ">=", "==", "!="):
            self.event("cmp", op, node, args=[a, b])
        elif op in ("in", "not in"):
            self.event("member", op, node, args=[a, b])
        sa, sb = self.snap(a), self.snap(b)
        if op in ("==", "!="):
            pass
        elif op in ("in", "not in") and sb.op in ("gen", "map", "filter"):
            # consumed by the test: a second test of the same iterator sees what is left
            sb = self.collect("iter", sb, node)
        return cmp(op, sa, sb)

    def e_IfExp(self, e):
        c = truth(self.snap(self.ev(e.test)))
        r = self.cond_exec(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))
        return r if r is not None else mk("never")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.set_var(e.target.id, v)
        return v

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            elif isinstance(v, ast.FormattedValue):
                x = self.snap(self.ev(v.value))
                if v.conversion == ord("r"):
                    x = mk("call", "repr", x)
                spec = self.ev(v.format_spec) if v.format_spec is not None else const("")
                x = self.to_str(x) if tm.is_const(spec, "") else x
                parts.append(fmt(x, spec))
        return cat(*parts)

    def to_str(self, x):
        t = self.typeof(x)
        if isinstance(t, Class) and t.method("__str__"):
            return self.str_of(x)
        return x

    def e_FormattedValue(self, e):
        return self.snap(self.ev(e.value))

    def e_Tuple(self, e):
        items = self.elts(e.elts)
        return mk("tuple", *items)

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.expand_star(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def expand_star(self, v):
        s = self.snap(v)
        if s.op in ("tuple", "list") and not any(a.op == "star" for a in s.args):
            return list(s.args)
        if s.op == "const" and isinstance(s.args[0], tuple):
            return [const(x) for x in s.args[0]]
        n = self.unpack_arity(s)
        if n is not None:
            return [mk("fld", s.args[0], i, s.args[1]) for i in range(n)]
        if s.op == "gen":
            s = self.as_build(s)
            if s.op in ("list", "tuple"):
                return list(s.args)
        return [mk("star", s)]

    def unpack_arity(self, t):
        if t.op != "unpack" or t.args[0].op != "const":
            return None
        import struct
        try:
            f = t.args[0].args[0]
            return len(struct.unpack(f, b"\0" * struct.calcsize(f)))
        except Exception:
            return None

    def e_List(self, e):
        items = self.elts(e.elts)
        return self.literal("list", items, e)

    def literal(self, kind, items, e):
        if any(i.op == "star" for i in items):
            es = []
            for i in items:
                if i.op == "star":
                    b = self.as_build(i.args[0])
                    x = entries_of(b)
                    es.extend(x if x is not None else [entry((), TRUE, i)])
                else:
                    es.append(entry((), TRUE, i))
            return self.new_container(kind, e, mk("content", kind, *es))
        return self.new_container(kind, e, mk("content", kind, *[entry((), TRUE, i) for i in items]))

    def e_Set(self, e):
        return self.literal("set", self.elts(e.elts), e)

    def e_Dict(self, e):
        es = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.snap(self.ev(v))
                x = entries_of(d)
                if x is None:
                    es.append(entry((), TRUE, mk("star", d), mk("star", d)))
                else:
                    es.extend(x)
            else:
                kk = self.ev(k)
                vv = self.ev(v)
                es.append(entry((), TRUE, vv, kk))
        return self.new_container("dict", e, mk("content", "dict", *es))

    def comp(self, kind, e, elt, key=None):
        acc = self.push_acc()
        bl, br = self.loops, self.st.reach
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fid = self.frame.id
        saved = {n: self.st.store.get(("v", fid, n)) for n in names}
        flags = {n: self.st.store.pop(("a", fid, n)) for n in names if ("a", fid, n) in self.st.store}

        def gen(i):
            if i == len(e.generators):
                k = self.ev(key) if key is not None else None
                v = self.ev(elt)
                loops, g = self.rel_ctx(bl, br)
                if self.st.alive:
                    acc.append(entry(loops, g, v, k))
                return
            g = e.generators[i]
            coll = self.ev(g.iter)

            def body(v):
                self.assign_comp(g.target, v, e)

                def conds(j):
                    if j == len(g.ifs):
                        return gen(i + 1)
                    c = truth(self.snap(self.ev(g.ifs[j])))
                    self.cond_exec(c, lambda: conds(j + 1), lambda: None)
                conds(0)
            self.iterate(coll, body, e)
        reach0 = self.st.reach
        gen(0)
        if self.st.alive:
            self.st.reach = reach0 if not any(tm.mentions(x, lambda y: y.op in ("ok",)) for x in self.st.reach[len(reach0):]) else self.st.reach
        for n, v in saved.items():
            if v is None:
                self.st.store.pop(("v", fid, n), None)
            else:
                self.st.store[("v", fid, n)] = v
        for n, a in flags.items():
            self.st.store[("a", fid, n)] = a
        es = list(acc)
        self.pop_acc(acc)
        return es

    def assign_comp(self, t, v, node):
        if isinstance(t, ast.Name):
            self.st.store[("v", self.frame.id, t.id)] = v
        else:
            self.assign(t, v, node)

    def e_ListComp(self, e):
        return self.new_container("list", e, mk("content", "list", *self.comp("list", e, e.elt)))

    def e_SetComp(self, e):
        return self.new_container("set", e, mk("content", "set", *self.comp("set", e, e.elt)))

    def e_GeneratorExp(self, e):
        return build("list", self.comp("list", e, e.elt))

    def e_DictComp(self, e):
        return self.new_container("dict", e, mk("content", "dict", *self.comp("dict", e, e.value, e.key)))

    def e_Lambda(self, e):
        f = Func(self.frame.module, e, f"{self.frame.func.qual if self.frame.func else self.frame.module.name}.<lambda>")
        t = mk("closure", f.qual, e.lineno, e.col_offset, self.frame.id)
        self.callables[t] = (f, self.frame, self.eval_defaults(e.args))
        return t

    def eval_defaults(self, args):
        d = {}
        pos = list(args.posonlyargs) + list(args.args)
        for a, v in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            d[a.arg] = self.ev(v)
        for a, v in zip(args.kwonlyargs, args.kw_defaults):
            if v is not None:
                d[a.arg] = self.ev(v)
        return d

    def e_Starred(self, e):
        return mk("star", self.ev(e.value))

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.do_yield(v, e)
        return NONE

    def e_YieldFrom(self, e):
        coll = self.ev(e.value)
        self.iterate(coll, lambda v: self.do_yield(v, e), e)
        return NONE

    def do_yield(self, v, node):
        fr = self.frame
        if not self.st.alive:
            return
        self._yield_node = node
        if fr.hook is None:
            self.event("yield", "yield", node, args=[v])
            return
        if fr.hook_env is not None:
            saved = (self.frame, self.stack)
            self.frame, self.stack = fr.hook_env
            fr.hook(v)
            self.frame, self.stack = saved
        else:
            fr.hook(v)

    # ------------------------------------------------------------ attributes and subscripts

    def e_Attribute(self, e):
        base = self.ev(e.value)
        return self.getattr(base, e.attr, e)

    def typeof(self, t):
        ty = self.types.get(t)
        if ty is not None:
            return ty
        ty = self._typeof(t)
        if ty is not None:
            self.types[t] = ty
        return ty

    def _typeof(self, t):
        op = t.op
        if op == "obj":
            return self.objcls.get(t)
        if op == "attr":
            b = self.typeof(t.args[0])
            if isinstance(b, Class):
                return self.prog.attr_type(b, t.args[1])
            return None
        if op in ("elem",):
            b = self.typeof(t.args[0])
            if isinstance(b, tuple) and b[0] == "iter":
                return b[1]
            if isinstance(b, tuple) and b[0] == "dict":
                return b[1]
            return None
        if op == "key":
            b = self.typeof(t.args[0])
            if isinstance(b, tuple) and b[0] == "dict":
                return b[1]
        if op == "val" or op == "index":
            b = self.typeof(t.args[0])
            if isinstance(b, tuple) and b[0] == "dict":
                return b[2]
            if isinstance(b, tuple) and b[0] == "iter":
                return b[1]
            if isinstance(b, tuple) and b[0] == "tuple" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int) and 0 <= t.args[1].args[0] < len(b[1]):
                return b[1][t.args[1].args[0]]
            return None
        if op == "zelem":
            return self.typeof(mk("elem", t.args[0].args[t.args[2]], 0))
        if op == "slice":
            return self.typeof(t.args[0])
        if op in ("sorted", "rev"):
            return self.typeof(t.args[0])
        if op in ("first", "last"):
            es = entries_of(t.args[0])
            if es:
                return self.typeof(es[0].args[2])
            return None
        if op == "ite":
            a = [self.typeof(l) for _, l in tm.cases(t) if l is not NONE]
            if a and all(x is not None and x == a[0] for x in a):
                return a[0]
            return None
        if op == "phi":
            a = [self.typeof(l) for l in t.args if l is not NONE]
            if a and all(x is not None and x == a[0] for x in a):
                return a[0]
            return None
        if op == "mu" or op == "post":
            mu = t if op == "mu" else t.args[0]
            r = self.mus.get(mu)
            if r:
                a = self.typeof(r[0])
                if a is None or r[1] is mu or mu in self.typing:
                    return a
                self.typing.add(mu)
                try:
                    return a if all(self.typeof(x) == a for _, x in tm.cases(r[1]) if x is not mu and x is not NONE) else None
                finally:
                    self.typing.discard(mu)
            return None
        if op == "call":
            n = t.args[0]
            if n.startswith("repo:"):
                f = self._qual_func(n[5:])
                if f is not None:
                    return self.prog.ann_type(f.module, f.node.returns)
                return None
            if n in ("list", "set", "tuple", "iter", "sorted", "reversed") and len(t.args) > 1:
                return self.typeof(t.args[1])
            if n in ("copy.deepcopy", "copy.copy"):
                return self.typeof(t.args[1])
            if n[:1].isupper() or "." in n and n.split(".")[-1][:1].isupper():
                return ("lib", n)
            if n in ("requests.get", "requests.head", "requests.post", "requests.request"):
                return ("lib", "requests.Response")
            if n == "open":
                return ("lib", "file")
            return None
        if op == "mcall":
            b = self.typeof(t.args[0])
            if b == ("lib", "requests.Session") and t.args[1] in ("get", "head", "post", "request", "put"):
                return ("lib", "requests.Response")
            return None
        return None

    def _qual_func(self, qual):
        for f in self.prog.funcs.values():
            if f.qual == qual:
                return f
        return None

    def class_of(self, t):
        if t.op == "class":
            for c in self._classes().values():
                if c.qual == t.args[0]:
                    return c
        return None

    def _classes(self):
        d = getattr(self.prog, "_byqual", None)
        if d is None:
            d = self.prog._byqual = {c.qual: c for m in self.prog.modules.values() for c in m.classes.values()}
        return d

    def getattr(self, base, name, node):
        op = base.op
        if name in self.havoc and op not in ("ite", "module", "lib", "class", "const"):
            n = self.havocs.get(base, 0)
            v = mk("attr", base, name)
            return mk("attrat", v, n) if n else v
        if op == "call" and base.args[0] == "struct.Struct" and name in ("size", "format") and len(base.args) > 1:
            return self.lc_struct_calcsize([base.args[1]], {}, node) if name == "size" else base.args[1]
        if op == "ite":
            leaves = [(g, l) for g, l in tm.cases(base) if l is not NONE and l.op != "never"]
            if len(leaves) == 1 and leaves[0][1].op != "ite":
                return self.getattr(leaves[0][1], name, node)
            if any(l.op in ("obj", "cobj", "module", "class", "lib", "global") or ("f", l, name) in self.st.store for _, l in leaves):
                out = None
                vals = [(g, self.getattr(l, name, node)) for g, l in leaves]
                out = vals[-1][1]
                for g, v in reversed(vals[:-1]):
                    out = ite(g, v, out)
                return out
        if op == "module":
            m = self.prog.modules.get(base.args[0])
            if m is not None:
                v = self.st.store.get(("g", m.name, name))
                if v is not None:
                    return v
                v = self.module_attr(m, name)
                if v is not None:
                    return v
                sub = f"{base.args[0]}.{name}"
                if sub in self.prog.modules:
                    return mk("module", sub)
                self.fault("attribute", (base.args[0], name), node)
                return mk("undefined", f"{base.args[0]}.{name}")
            return self.lib_name(f"{base.args[0]}.{name}")
        if op == "lib":
            if base.args[0] == "os" and name == "sep":
                return const("/")
            return self.lib_name(f"{base.args[0]}.{name}")
        if op == "class":
            v = self.st.store.get(("f", base, name))
            if v is not None:
                return v
            c = self.class_of(base)
            if c is not None:
                f = c.method(name)
                if f is not None:
                    ft = self.func_term(f)
                    if f.is_classmethod:
                        return mk("bound", ft, base)
                    return ft
                ca = c.class_attr(name)
                if ca:
                    return self.class_value(ca[0], name, ca[1])
                if name in ("__name__", "__qualname__"):
                    return const(c.name)
                self.fault("attribute", (c, name), node)
            return mk("attr", base, name)
        if op == "obj" or op == "cobj" or True:
            v = self.st.store.get(("f", base, name))
            if v is not None:
                return v
            if base in self.types or op == "obj":
                pass
            v = self._gheap.get(("f", base, name))
            if v is not None:
                return v
        if op == "super":
            return self.super_attr(base, name)
        t = self.typeof(base)
        if isinstance(t, Class):
            if (t.name, name) in self.opaque_attrs or any((c.name, name) in self.opaque_attrs for c in t.mro()):
                return mk("attr", base, name)
            f = t.method(name)
            if f is not None:
                if f.is_property:
                    return self.call_func(f, [base], {}, node)
                ft = self.func_term(f)
                if f.is_static:
                    return ft
                if f.is_classmethod:
                    return mk("bound", ft, mk("class", t.qual))
                return mk("bound", ft, base)
            ca = t.class_attr(name)
            if ca is not None and not self.instance_assigned(t, name):
                return self.class_value(ca[0], name, ca[1])
            if name == "__class__":
                return mk("class", t.qual)
            if base not in self.guessed:
                self.fault("attribute", (t, name), node)
        if op == "opaque" or op == "unknown":
            return mk("attr", base, name)
        return mk("attr", base, name)

    def instance_assigned(self, cls, name):
        memo = getattr(self.prog, "_inst", None)
        if memo is None:
            memo = self.prog._inst = {}
        key = (cls.qual, name)
        if key not in memo:
            r = False
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        r = True
            memo[key] = r
        return memo[key]

    def class_value(self, c, name, node):
        key = ("classattr", c.qual, name)
        if key in self._gmemo:
            return self._gmemo[key]
        self._gmemo[key] = mk("attr", mk("class", c.qual), name)
        from .interp import Frame, State
        saved = (self.frame, self.st, self.loops, self.zones, self.stack)
        self.quiet += 1
        try:
            self.frame = Frame(self.new_uid(), None, c.module, None, c, (), ())
            self.st = State()
            for n, x in c.attrs.items():
                if n != name and isinstance(x, ast.Constant):
                    self.st.store[("v", self.frame.id, n)] = const(x.value)
            for n, f in c.methods.items():
                self.st.store[("v", self.frame.id, n)] = self.func_term(f)
            self.loops, self.zones = (), ()
            v = self.snap(self.ev(node))
            cls = dict(self.callables)
        finally:
            self.quiet -= 1
            self.frame, self.st, self.loops, self.zones, self.stack = saved
        self._gmemo[key] = v
        return v

    def super_attr(self, base, name):
        cls, selft = base.args
        c = self._classes().get(cls)
        if c is not None:
            # next in the MRO of the receiver's class
            t = self.typeof(selft) if selft.op != "class" else self.class_of(selft)
            mro = t.mro() if isinstance(t, Class) else c.mro()
            if c in mro:
                mro = mro[mro.index(c) + 1:]
            else:
                mro = c.mro()[1:]
            for k in mro:
                if name in k.methods:
                    f = k.methods[name]
                    if f.is_static:
                        return self.func_term(f)
                    return mk("bound", self.func_term(f), selft)
            self.fault("super", (c, name, mro), None)
        return mk("attr", base, name)

    def e_Subscript(self, e):
        base = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower is not None else NONE
            hi = self.ev(e.slice.upper) if e.slice.upper is not None else NONE
            st = self.ev(e.slice.step) if e.slice.step is not None else NONE
            return self.slice_(self.snap(base), lo, hi, st)
        i = self.ev(e.slice)
        self.risks.append(("index", self.snap(base), i))
        return self.index(base, i)

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            lo = self.ev(s.lower) if s.lower is not None else NONE
            hi = self.ev(s.upper) if s.upper is not None else NONE
            return mk("slicekey", lo, hi)
        return self.ev(s)

    def slice_(self, b, lo, hi, st=NONE):
        if is_const(lo, 0):
            lo = NONE
        if b.op == "const" and all(x.op == "const" for x in (lo, hi, st)):
            try:
                return const(b.args[0][lo.args[0]:hi.args[0]:st.args[0]])
            except Exception:
                pass
        if b.op in ("tuple", "list") and not any(a.op == "star" for a in b.args) and all(x.op == "const" for x in (lo, hi, st)):
            return mk(b.op, *b.args[lo.args[0]:hi.args[0]:st.args[0]])
        if lo is NONE and hi is NONE:
            if st is NONE:
                return b
            if is_const(st, -1):
                return mk("rev", b)
        if st is NONE:
            return mk("slice", b, lo, hi)
        return mk("slice", b, lo, hi, st)

    def held(self, base, c, i):
        """The container itself that a container holds at a constant place."""
        if c is None or c.op != "content" or i.op != "const" or c.args[0] not in ("dict", "list") or len(c.args) > 40:
            return None
        es = c.args[1:]
        if not all(x.op == "entry" and not x.args[0].args and x.args[1] is TRUE for x in es):
            return None
        if c.args[0] == "dict":
            if not all(isinstance(x.args[3], T) and x.args[3].op == "const" for x in es):
                return None
            hit = [x.args[2] for x in es if x.args[3] is i]
        else:
            k = i.args[0]
            hit = [es[k].args[2]] if type(k) is int and -len(es) <= k < len(es) and not any(x.args[2].op == "star" for x in es) else []
        return hit[-1] if hit and hit[-1].op == "cobj" else None

    def index(self, base, i):
        if base.op == "cobj":
            c = self.st.store.get(("c", base))
            if c is not None and c.op == "content" and c.args[0] == "group":
                return mk("slot", base, self.snap(i))
            x = self.held(base, c, i)
            if x is not None:
                return x
        b = self.snap(base) if base.op == "cobj" else base
        i = self.snap(i)
        if b.op == "ite":
            c, x, y = b.args
            if x is NONE:
                return self.index(y, i)
            if y is NONE:
                return self.index(x, i)
            return ite(c, self.index(x, i), self.index(y, i))
        if i.op == "ite" and b.op in ("tuple", "list", "dict", "const"):
            c, x, y = i.args
            return ite(c, self.index(b, x), self.index(b, y))
        if i.op == "const":
            k = i.args[0]
            if b.op in ("tuple", "list") and isinstance(k, int) and not any(a.op == "star" for a in b.args):
                if -len(b.args) <= k < len(b.args):
                    return b.args[k]
                return mk("never")
            if b.op == "const":
                try:
                    return const(b.args[0][k])
                except Exception:
                    return mk("index", b, i)
            if b.op == "unpack" and isinstance(k, int):
                n = self.unpack_arity(b)
                if n is not None and k < 0:
                    k += n
                return mk("fld", b.args[0], k, b.args[1])
        if b.op == "dict" and all(p.op == "pair" for p in b.args):
            hit = [p for p in b.args if p.args[0] is i]
            if hit:
                return hit[-1].args[1]
            if i.op != "const" and b.args and all(p.args[0].op == "const" for p in b.args) and len(b.args) <= 40:
                # selection by key: a finite case split
                out = mk("missing", b, i)
                for p in reversed(b.args):
                    out = ite(cmp("==", i, p.args[0]), p.args[1], out)
                return out
            if i.op == "const" and all(p.args[0].op == "const" for p in b.args):
                return mk("missing", b, i)
        if b.op == "build" and b.args[0] == "dict":
            # {k: v for k, v in X.items()}[key(X)]
            for e in b.args[1:]:
                if e.op == "entry" and e.args[3] is i and len(b.args) == 2:
                    return e.args[2]
        if i.op == "key" and i.args[0] is b:
            return mk("val", b, i.args[1])
        if i.op == "idx" and i.args[0] is b:
            return mk("elem", b, i.args[1])
        if b.op == "sorted" and i.op == "idx" and i.args[0] is b:
            return mk("elem", b, i.args[1])
        return mk("index", b, i)

    # ------------------------------------------------------------ calls

    def e_Call(self, e):
        # method call on an attribute: keep receiver
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                base = self.make_super(e.func.value)
            else:
                base = self.ev(e.func.value)
            args, kw = self.call_args(e)
            return self.call_attr(base, e.func.attr, args, kw, e)
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.make_super(e)
        f = self.ev(e.func)
        args, kw = self.call_args(e)
        return self.apply(f, args, kw, e)

    def make_super(self, e):
        fr = self.frame
        while fr is not None and (fr.func is None or getattr(fr.func, "cls", None) is None):
            fr = fr.parent
        if fr is None:
            return mk("unknown", "super", self.new_uid())
        params = all_args(fr.func.node.args)
        selft = self.st.store.get(("v", fr.id, params[0].arg), mk("unknown", "self", 0)) if params else mk("unknown", "self", 0)
        return mk("super", fr.func.cls.qual, selft)

    def call_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.expand_star(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.snap(v)
                if d.op == "dict" and all(p.op == "pair" and p.args[0].op == "const" for p in d.args):
                    for p in d.args:
                        kw[p.args[0].args[0]] = p.args[1]
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = v
        return args, kw

    def call_attr(self, base, name, args, kw, node):
        if not self.st.alive:
            return mk("never")
        if base.op == "ite":
            leaves = [(g, l) for g, l in tm.cases(base) if l is not NONE and l.op != "never"]
            if len(leaves) == 1:
                return self.call_attr(leaves[0][1], name, args, kw, node)
            if any(l.op in ("cobj", "obj", "class", "module", "lib", "const", "cat", "gen", "closure", "tuple", "list") for _, l in leaves) and len(leaves) <= 6:
                def go(i):
                    if i == len(leaves) - 1:
                        return self.call_attr(leaves[i][1], name, args, kw, node)
                    return self.cond_exec(leaves[i][0], lambda: self.call_attr(leaves[i][1], name, args, kw, node), lambda: go(i + 1))
                r = go(0)
                return r if r is not None else mk("never")
        if base.op in ("module", "lib", "class", "super"):
            f = self.getattr(base, name, node)
            return self.apply(f, args, kw, node)
        v = self.st.store.get(("f", base, name))
        if v is not None:
            return self.apply(v, args, kw, node)
        if base.op == "cobj":
            return self.container_method(base, name, args, kw, node)
        t = self.typeof(base)
        if isinstance(t, Class):
            f = t.method(name)
            if f is not None:
                return self.call_method(t, f, base, name, args, kw, node)
            ca = t.class_attr(name)
            if ca is not None:
                return self.apply(self.class_value(ca[0], name, ca[1]), args, kw, node)
            if base not in self.guessed:
                self.fault("attribute", (t, name), node)
        if t is None and base.op not in ("const", "cat", "fmt", "build", "excval") and not self.is_external(base) and not self.is_common_method(name):
            fs = self.prog.by_method.get(name, [])
            tops = {f.cls.mro()[-1].qual for f in fs} if fs else set()
            if len(fs) == 1 and not fs[0].is_static and not fs[0].is_classmethod:
                self.types.setdefault(base, fs[0].cls)
                self.guessed.add(base)
                return self.call_method(fs[0].cls, fs[0], base, name, args, kw, node)
            if fs:
                ev = self.event("vcall", name, node, recv=base, args=args, kw=kw, extra=[f.qual for f in fs])
                self.risks.append(("call", name))
                r = mk("mcall", self.snap(base), name, *self.argterms(args, kw), mk("uid", self.new_uid()))
                if ev:
                    ev.result = r
                return r
        return self.lib_method(base, name, args, kw, node)

    COMMON = {"get", "items", "keys", "values", "append", "add", "update", "read", "write", "seek", "tell", "close", "split", "join", "format", "load", "save",
              "copy", "pop", "remove", "clear", "extend", "index", "count", "sort", "strip", "lower", "upper", "replace", "encode", "decode", "startswith",
              "endswith", "match", "search", "group", "exists", "open", "map", "convert", "run", "check", "unpack", "skip"}

    def is_external(self, t):
        """Is the value an object of a library?"""
        while t.op in ("mcall", "attr", "index", "elem") and t.args and isinstance(t.args[0], T):
            t = t.args[0]
        return t.op == "call" and isinstance(t.args[0], str) and not t.args[0].startswith("repo:") and "." in t.args[0] or t.op == "excval"

    def is_common_method(self, name):
        return name in self.COMMON or (name.startswith("__") and name.endswith("__"))

    def call_method(self, t, f, base, name, args, kw, node):
        # virtual dispatch: abstract or overridden in subclasses when the receiver is not known exactly
        if base.op != "obj" and not f.is_static:
            subs = [c for c in t.all_subclasses() if name in c.methods]
            exact = base.op == "param" and base.args[0] in ("self", "cls")
            if subs and (f.abstract or f.qual in self.virtual) and not exact or (f.abstract and exact):
                if f.abstract and len(subs) == 1 and not exact:
                    f = subs[0].methods[name]
                    t = subs[0]
                else:
                    ev = self.event("vcall", name, node, recv=base, args=args, kw=kw, extra=[f.qual] + [c.methods[name].qual for c in subs])
                    self.risks.append(("call", name))
                    r = mk("mcall", self.snap(base), name, *self.argterms(args, kw))
                    ty = self.prog.ann_type(f.module, f.node.returns)
                    if ty:
                        self.types.setdefault(r, ty)
                    if ev:
                        ev.result = r
                    return r
        if f.is_static:
            return self.call_func(f, args, kw, node)
        if f.is_classmethod:
            return self.call_func(f, [mk("class", t.qual)] + args, kw, node)
        return self.call_func(f, [base] + args, kw, node, cls=t)

    def argterms(self, args, kw):
        return [self.snap(a) for a in args] + [mk("kw", k, self.snap(v)) for k, v in sorted(kw.items())]

    def apply(self, f, args, kw, node):
        """Call a callable term."""
        if not self.st.alive:
            return mk("never")
        op = f.op
        if op in ("func", "closure"):
            fn, parent, defaults = self.callables[f]
            return self.call_func(fn, args, kw, node, parent=parent, defaults=defaults)
        if op == "bound":
            fn, parent, defaults = self.callables[f.args[0]]
            recv = f.args[1]
            t = self.typeof(recv) if recv.op != "class" else None
            if isinstance(t, Class) and recv.op != "class" and not fn.is_static and not fn.is_classmethod and fn.cls is not None and t.method(fn.name) is fn:
                return self.call_method(t, fn, recv, fn.name, args, kw, node)
            return self.call_func(fn, [recv] + args, kw, node, parent=parent, defaults=defaults)
        if op == "class":
            c = self.class_of(f)
            if c is not None:
                return self.instantiate(c, args, kw, node)
        if op == "ite":
            leaves = [(g, l) for g, l in tm.cases(f) if l is not NONE and l.op not in ("never", "missing")]
            if leaves and len(leaves) <= 12:
                def go(i):
                    if i == len(leaves) - 1:
                        return self.apply(leaves[i][1], args, kw, node)
                    return self.cond_exec(leaves[i][0], lambda: self.apply(leaves[i][1], args, kw, node), lambda: go(i + 1))
                r = go(0)
                return r if r is not None else mk("never")
        if op == "lib":
            return self.lib_call(f.args[0], args, kw, node)
        if op == "partial":
            return self.apply(f.args[0], list(f.args[1].args) + args, {**{k.args[0]: k.args[1] for k in f.args[2].args}, **kw}, node)
        if op == "getter":
            kind = f.args[0]
            x = args[0]
            outs = []
            for a in f.args[1:]:
                if kind == "item":
                    outs.append(self.index(x, a))
                else:
                    y = x
                    for part in a.args[0].split("."):
                        y = self.getattr(y, part, node)
                    outs.append(y)
            return outs[0] if len(outs) == 1 else mk("tuple", *outs)
        if op == "methodcaller":
            return self.call_attr(args[0], f.args[0].args[0], list(f.args[1:]) + args[1:], kw, node)
        if op == "attr":
            return self.lib_method(f.args[0], f.args[1], args, kw, node)
        t = self.typeof(f)
        if isinstance(t, Class) and t.method("__call__"):
            return self.call_func(t.method("__call__"), [f] + args, kw, node)
        self.unknown_calls += 1
        ev = self.event("call", "?", node, recv=f, args=args, kw=kw)
        if f.op == "localclass":
            for a in [*args, *kw.values()]:
                if a.op == "gen":
                    self.collect("list", a, node)      # the object made consumes it at some time: what it does counts
        self.risks.append(("call", "?"))
        r = mk("dyncall", self.snap(f), *self.argterms(args, kw))
        if ev:
            ev.result = r
        return r

    def instantiate(self, c, args, kw, node):
        o = mk("obj", c.name, self.new_uid(), *self.argterms(args, kw))
        self.objcls[o] = c
        self.types[o] = c
        if c.method("__bool__") is None and c.method("__len__") is None and all(len(k.base_names) == len(k.node.bases) and len([b for b in k.base_names if b not in ("object", "ABC")]) <= len(k.bases) for k in c.mro()):
            tm.TRUE_OBJS.add(o)
        self.event("new", c.name, node, recv=o, args=args, kw=kw, result=o, extra=c.qual)
        init = c.method("__init__")
        is_exc = any(b.endswith("Error") or b in ("Exception", "BaseException") for b in c.lib_bases(self.prog))
        decos = {d.id if isinstance(d, ast.Name) else getattr(d, "attr", getattr(getattr(d, "func", None), "id", None)) for d in c.node.decorator_list}
        if init is not None:
            if init.qual in self.opaque or c.name in self.opaque or c.qual in self.opaque:
                self.bad_arguments(init, [o] + args, kw, node)
                return o
            self.call_func(init, [o] + args, kw, node, cls=c)
        elif any(b.rsplit(".", 1)[-1] in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum") for b in c.lib_bases(self.prog)):
            self.risks.append(("call", c.name))
        elif "dataclass" in decos or "NamedTuple" in c.base_names:
            fields = [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            for n, v in zip(fields, args):
                self.st.store[("f", o, n)] = v
            for n, v in kw.items():
                if n in fields:
                    self.st.store[("f", o, n)] = v
            for n in fields:
                if ("f", o, n) not in self.st.store and n in c.attrs:
                    self.st.store[("f", o, n)] = self.class_value(c, n, c.attrs[n])
        return o

    def call_func(self, fn, args, kw, node, parent=None, defaults=None, cls=None):
        if not self.st.alive:
            return mk("never")
        short = fn.qual.split(".", 1)[1] if fn.qual.startswith(self.prog.package + ".") else fn.qual
        self.bad_arguments(fn, args, kw, node)
        if fn.is_gen:
            bound = self.bind(fn, args, kw, parent, defaults, node)
            if fn.qual in self.opaque or short in self.opaque:
                return self.opaque_call(fn, short, args, kw, node)
            self.event("enter", short, node, args=args, kw=kw, extra=fn)
            g = mk("gen", fn.qual, self.new_uid(), *[x for _, v in sorted(bound.items()) for x in (v,)])
            self.gens[g] = (fn, bound, parent, cls)
            return g
        if fn.qual in self.opaque or short in self.opaque or len(self.stack) >= self.MAX_DEPTH or sum(1 for q, _ in self.stack if q == fn.qual) >= self.nesting and not isinstance(fn.node, ast.Lambda):
            return self.opaque_call(fn, short, args, kw, node)
        if isinstance(fn.node, ast.Lambda) and sum(1 for q, _ in self.stack if q == fn.qual) >= 3:
            return self.opaque_call(fn, short, args, kw, node)
        bound = self.bind(fn, args, kw, parent, defaults, node)
        self.event("enter", short, node, args=args, kw=kw, extra=fn)
        return self.inline(fn, bound, parent, cls, node)

    def canonical_args(self, fn, args, kw):
        """Positional form of a call, constant defaults filled in, when the signature is simple."""
        a = fn.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or any(v.op == "star" for v in args) or any(k is None or not isinstance(k, str) for k in kw):
            return args, kw
        pos = list(a.posonlyargs) + list(a.args)
        if len(args) > len(pos):
            return args, kw
        out, kw = list(args), dict(kw)
        dflt = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        for p in pos[len(args):]:
            if p.arg in kw:
                out.append(kw.pop(p.arg))
            elif isinstance(dflt.get(p.arg), ast.Constant):
                out.append(const(dflt[p.arg].value))
            else:
                break
        return (out, kw) if not kw else (args, None)

    def opaque_call(self, fn, short, args, kw, node):
        ca, ck = self.canonical_args(fn, args, kw)
        if ck is not None:
            args, kw = ca, ck
        ev = self.event("call", "repo:" + short, node, args=args, kw=kw, extra=fn)
        self.risks.append(("call", short))
        r = mk("call", "repo:" + fn.qual, *self.argterms(args, kw), *([mk("stamp", len(self.events) - 1)] if short in self.stamp or fn.qual in self.stamp else []))
        ty = self.prog.ann_type(fn.module, getattr(fn.node, "returns", None))
        if ty:
            self.types.setdefault(r, ty)
        if ev:
            ev.result = r
        return r

    def bad_arguments(self, fn, args, kw, node):
        """Records the arguments of a call that the function does not accept."""
        a = fn.node.args
        pos = list(a.posonlyargs) + list(a.args)
        if any(v.op == "star" for v in args) or "**" in kw:
            return
        if len(args) > len(pos) and not a.vararg:
            self.fault("argument", (fn, f"takes {len(pos)} positional arguments and is given {len(args)}"), node)
        given = {p.arg for p in pos[:len(args)]}
        for k in kw:
            if k in given and k not in {p.arg for p in a.posonlyargs}:
                self.fault("argument", (fn, f"is given {k} twice"), node)
            elif k not in {p.arg for p in a.args + a.kwonlyargs} and not a.kwarg:
                self.fault("argument", (fn, f"has no parameter {k}"), node)
        default = {p.arg for p in pos[len(pos) - len(a.defaults):]} if a.defaults else set()
        default |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for p in pos + list(a.kwonlyargs):
            if p.arg not in given and p.arg not in kw and p.arg not in default:
                self.fault("argument", (fn, f"is not given {p.arg}"), node)

    def bind(self, fn, args, kw, parent, defaults, node):
        a = fn.node.args
        pos = list(a.posonlyargs) + list(a.args)
        bound = {}
        kw = dict(kw)
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                # unknown number of positionals
                for p in pos[i:]:
                    bound.setdefault(p.arg, self.index(v.args[0], const(pos.index(p) - i)) if True else v)
                rest = [v]
                break
            if i < len(pos):
                bound[pos[i].arg] = v
            else:
                rest.append(v)
        for p in pos + list(a.kwonlyargs):
            if p.arg in kw:
                bound[p.arg] = kw.pop(p.arg)
        missing = [p.arg for p in pos + list(a.kwonlyargs) if p.arg not in bound]
        if missing:
            d = defaults
            if d is None:
                d = self.static_defaults(fn)
            for n in missing:
                bound[n] = d.get(n, mk("missingarg", n))
        if a.vararg:
            bound[a.vararg.arg] = mk("tuple", *rest)
        if a.kwarg:
            es = [entry((), TRUE, v, const(k)) for k, v in kw.items() if k != "**"]
            if "**" in kw:
                es.append(entry((), TRUE, mk("star", kw["**"]), mk("star", kw["**"])))
            bound[a.kwarg.arg] = self.new_container("dict", node, mk("content", "dict", *es))
        return bound

    def static_defaults(self, fn):
        memo = self.__dict__.setdefault("_defmemo", {})
        if fn.qual in memo and memo[fn.qual][0] is fn:
            return memo[fn.qual][1]
        a = fn.node.args
        pos = list(a.posonlyargs) + list(a.args)
        out = {}
        items = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]
        for p, v in items:
            if isinstance(v, ast.Constant):
                out[p.arg] = const(v.value)
            elif fn.cls is not None:
                out[p.arg] = self.class_value_expr(fn.cls, v)
            else:
                out[p.arg] = self.eval_in_module(fn.module, v)
        memo[fn.qual] = (fn, out)
        return out

    def class_value_expr(self, c, node):
        if isinstance(node, ast.Name) and node.id in c.attrs:
            return self.class_value(c, node.id, c.attrs[node.id])
        return self.eval_in_module(c.module, node)

    def inline(self, fn, bound, parent, cls, node, hook=None, hook_env=None):
        from .interp import Frame
        fr = Frame(self.new_uid(), fn, fn.module, parent, cls or fn.cls, self.st.reach, self.loops)
        fr.hook, fr.hook_env = hook, hook_env
        self.inlined.add(fn.qual)
        for a in all_args(fn.node.args):
            v = bound.get(a.arg)
            if v is None:
                continue
            self.st.store[("v", fr.id, a.arg)] = v
            if a.annotation is not None and v.op not in ("const",) and v not in self.types:
                t = self.prog.ann_type(fn.module, a.annotation)
                if t is not None and self.typeof(v) is None:
                    self.types[v] = t
        saved = (self.frame, self.stack)
        self.frame = fr
        self.stack = self.stack + ((fn.qual, getattr(node, "lineno", None)),)
        self.live.append(fr.returns)
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body)
            if self.st.alive:
                fr.returns.append((self.st, v, (), fn.node))
        else:
            self.exec_block(fn.node.body)
            if self.st.alive:
                fr.returns.append((self.st, NONE, (), fn.node))
        rets = fr.returns
        if not rets:
            st = self.st.copy()
            st.alive = False
            v = mk("never")
        else:
            v, st = self.fold_returns(fr)
        self.pop_acc(fr.returns)
        self.st = st
        self.frame, self.stack = saved
        keep = any(c[1] is fr for c in self.callables.values())
        if not keep:
            for k in [k for k in self.st.store if k[0] == "v" and k[1] == fr.id]:
                del self.st.store[k]
        if v.op != "const" and fn.node is not None and not isinstance(fn.node, ast.Lambda) and fn.node.returns is not None and v.op in ("call", "mcall", "attr", "index", "first", "dyncall", "unknown"):
            t = self.prog.ann_type(fn.module, fn.node.returns)
            if t is not None and self.typeof(v) is None:
                self.types[v] = t
        return v

    def run_gen(self, g, body, node):
        fn, bound, parent, cls = self.gens[g]
        if len(self.stack) >= self.MAX_DEPTH or sum(1 for q, _ in self.stack if q == fn.qual) >= self.nesting:
            self.opaque_call(fn, fn.qual.split(".", 1)[1], list(bound.values()), {}, node)
            return self.over(g, lambda n: body(mk("elem", g, n)))
        self.inline(fn, bound, parent, cls, node, hook=body, hook_env=(self.frame, self.stack))
