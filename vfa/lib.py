"""Model of the library calls the package relies on (builtins, os, struct, requests, ...).

Only facts about values are modelled; every effectful call is recorded as an event for the rules."""
import ast
import struct
from . import terms as tm
from .terms import T, mk, const, TRUE, FALSE, NONE, band, bor, bnot, ite, truth, cmp, build, entry, entries_of, cat, fmt, is_const
from .program import Func, Class

FS_PRED = {"os.path.isfile", "os.path.isdir", "os.path.exists", "os.path.lexists", "os.path.islink", "os.path.getsize", "os.path.getmtime", "os.path.samefile",
           "os.listdir", "os.scandir", "os.walk", "os.stat", "os.lstat", "os.readlink", "glob.glob", "glob.iglob", "os.access", "os.path.ismount"}
FS_MUT = {"os.remove", "os.unlink", "os.rmdir", "os.makedirs", "os.mkdir", "os.symlink", "os.link", "os.rename", "os.replace", "os.renames", "os.removedirs",
          "shutil.rmtree", "shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree", "shutil.move", "os.truncate", "os.utime", "os.chmod"}
PURE = {"os.path.join", "os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.split", "os.path.normpath", "os.path.relpath", "os.path.isabs",
        "os.path.expanduser", "os.path.expandvars", "os.path.abspath", "os.path.realpath", "os.path.commonprefix", "os.path.normcase", "os.fspath", "os.getcwd",
        "re.compile", "re.match", "re.search", "re.fullmatch", "re.findall", "re.finditer", "re.split", "re.escape", "fnmatch.fnmatch", "fnmatch.fnmatchcase", "fnmatch.translate",
        "xxhash.xxh64", "xxhash.xxh64_intdigest", "xxhash.xxh3_64_intdigest", "xxhash.xxh64_hexdigest", "xxhash.xxh3_64_hexdigest", "xxhash.xxh3_64", "zlib.crc32", "zlib.decompress", "zlib.compress", "gzip.decompress",
        "gzip.compress", "pyzstd.decompress", "pyzstd.compress", "zstd.decompress", "zlib.adler32", "json.dumps", "json.loads", "itertools.product", "itertools.combinations",
        "itertools.permutations", "itertools.repeat", "itertools.groupby", "itertools.islice", "itertools.takewhile", "itertools.dropwhile", "itertools.zip_longest", "itertools.accumulate",
        "itertools.starmap", "itertools.count", "itertools.cycle", "itertools.tee", "pathlib.Path", "pathlib.PurePath", "pathlib.Path.home", "datetime.datetime.strptime", "datetime.date",
        "math.ceil", "math.floor", "math.log2", "textwrap.dedent", "textwrap.indent", "base64.b64decode", "base64.b64encode", "binascii.hexlify", "binascii.unhexlify", "operator.index",
        "abs", "ord", "chr", "hex", "oct", "bin", "hash", "repr", "round", "divmod", "pow", "float", "bytes", "bytearray", "memoryview", "callable", "slice", "issubclass", "format",
        "min", "max", "sum", "len", "int", "str", "bool", "functools.reduce", "os.environ.get", "os.getenv", "object"}
STR_FOLD = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "startswith", "endswith", "encode", "decode", "title", "capitalize", "zfill", "partition",
            "rpartition", "splitlines", "count", "find", "rfind", "isdigit", "join", "removeprefix", "removesuffix", "ljust", "rjust", "center", "hex", "casefold", "isalnum", "isalpha", "isnumeric"}
PURE_METHODS = STR_FOLD | {"index", "group", "groups", "groupdict", "start", "end", "span", "match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "json", "copy",
                           "isdecimal", "isspace", "islower", "isupper", "format", "format_map", "translate", "expandtabs", "most_common", "total_seconds", "strftime", "isoformat",
                           "digest", "hexdigest", "intdigest", "bit_length", "to_bytes", "tobytes", "getvalue", "union", "intersection", "difference", "symmetric_difference", "issubset",
                           "issuperset", "isdisjoint", "tolist", "timestamp", "from_bytes", "with_suffix", "with_name", "relative_to", "as_posix", "iter_content", "iter_lines"}


class LibMixin:

    # ------------------------------------------------------------ strings

    def str_of(self, x):
        """str(x)"""
        x = self.snap(x)
        if tm.is_str(x) and not (x.op == "const" and isinstance(x.args[0], bytes)):
            return x
        if x.op == "const":
            try:
                return const(str(x.args[0]))
            except Exception:
                pass
        if x.op == "ite":
            c, a, b = x.args
            return ite(c, self.str_of(a), self.str_of(b))
        t = self.typeof(x)
        if isinstance(t, Class) and t.method("__str__") and not self.quiet_str:
            self.quiet_str += 1
            try:
                r = self.call_func(t.method("__str__"), [x], {}, None)
            finally:
                self.quiet_str -= 1
            r = self.snap(r)
            return r if tm.is_str(r) else mk("cat", r)
        if self.pathlike(x, t):
            return x
        return mk("cat", x)

    quiet_str = 0

    # ------------------------------------------------------------ helpers

    def lib_event(self, name, args, kw, node, result=None, uid=True, risk=True, kind="call"):
        args = self.argterms(args, {}) if kind == "call" else args
        r = result
        if r is None:
            r = mk("call", name, *self.argterms(args, kw), *([mk("uid", self.new_uid())] if uid else []))
        self.event(kind, name, node, args=args, kw=kw, result=r)
        if risk:
            self.risks.append(("call", name))
        return r

    def from_iter(self, kind, x, node):
        """list(x), set(x), ..."""
        s = self.snap(x)
        if s.op == "dict" and kind != "dict":
            es = [entry((), TRUE, p.args[0]) for p in s.args if p.op == "pair"]
        elif s.op in ("list", "tuple", "set", "build") and not (s.op == "build" and s.args[0] == "dict") and entries_of(s) is not None \
                and not any(e.args[1].op == "carry" for e in entries_of(s)) and not (kind != "set" and (s.op == "set" or (s.op == "build" and s.args[0] == "set"))):
            es = [entry(e.args[0].args, e.args[1], e.args[2]) for e in entries_of(s)]
        else:
            b = self.collect(kind, s if s.op != "cobj" else x, node)
            es = entries_of(b)
        if kind in ("tuple",):
            return build("tuple", es)
        return self.new_container(kind, node, mk("content", kind, *es))

    def key_term(self, f, coll, node):
        """Canonical form of a key function."""
        if f is None or f is NONE:
            return NONE
        a = mk("arg", 0)
        ty = self.elem_type(coll)
        old = self.types.pop(a, None)
        if ty is not None:
            self.types[a] = ty
        self.quiet += 1
        m = self.mark()
        st = self.st
        self.st = st.copy()
        try:
            r = self.snap(self.apply(f, [a], {}, node))
        finally:
            self.quiet -= 1
            self.st = st
            u = self.uid
            self.rollback(m)
            self.uid = u
            self.types.pop(a, None)
            if old is not None:
                self.types[a] = old
        return r

    def elem_type(self, coll):
        es = entries_of(coll) if coll.op != "cobj" else None
        if es:
            return self.typeof(es[0].args[2])
        return self.typeof(mk("elem", coll, 0))

    # ------------------------------------------------------------ calls

    def lib_call(self, name, args, kw, node):
        m = getattr(self, "lc_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(args, kw, node)
            if r is not NotImplemented:
                return r
        if name in FS_PRED:
            r = mk("call", name, *self.argterms(args, kw), mk("epoch", self.epoch()))
            self.event("call", name, node, args=args, kw=kw, result=r)
            self.risks.append(("call", name))
            return r
        if name in FS_MUT:
            self.bump()
            return self.lib_event(name, args, kw, node)
        if name == "callable" and len(args) == 1 and (is_const(args[0]) or args[0].op in ("closure", "func", "class")):
            return const(args[0].op != "const")
        if name in PURE or name.split(".")[-1] in ("crc32",):
            r = mk("call", name, *self.argterms(args, kw))
            if name == "os.path.join" and len(args) == 1:
                r = self.snap(args[0])
            self.event("call", name, node, args=args, kw=kw, result=r)
            if name.split(".")[-1] in ("loads", "load", "decompress"):
                self.risks.append(("call", name))
            return r
        if "." in name:
            # unbound methods of builtin types: str.lower(x), dict.get(d, k)
            head, meth = name.rsplit(".", 1)
            if head in ("str", "bytes", "list", "dict", "set") and args and meth not in ("maketrans", "fromkeys", "fromhex"):
                return self.call_attr(args[0], meth, args[1:], kw, node)
        last = name.split(".")[-1]
        if last.endswith(("Error", "Exception", "Warning")) or last in ("KeyboardInterrupt", "StopIteration", "SystemExit"):
            return mk("call", name, *self.argterms(args, kw))
        if name in ("bytes.fromhex", "binascii.unhexlify") and len(args) == 1 and not kw and is_const(args[0]) and isinstance(args[0].args[0], str):
            try:
                return const(bytes.fromhex(args[0].args[0]))
            except ValueError:
                pass
        if name in ("dict.fromkeys",) and args:
            v = args[1] if len(args) > 1 else NONE
            b = self.collect("dict", args[0], node, f=lambda e: v, key=lambda e: e)
            return self.new_container("dict", node, mk("content", "dict", *entries_of(b)))
        return self.lib_event(name, args, kw, node)

    # ---- builtins

    def lc_len(self, args, kw, node):
        if not args:
            return NotImplemented
        x = self.snap(args[0])
        if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args):
            return const(len(x.args))
        if x.op == "dict" and all(p.op == "pair" and p.args[0].op == "const" for p in x.args):
            return const(len({p.args[0].id for p in x.args}))
        if x.op == "const" and hasattr(x.args[0], "__len__"):
            return const(len(x.args[0]))
        n = self.unpack_arity(x)
        if n is not None:
            return const(n)
        if x.op == "sorted" or x.op == "rev":
            return self.lc_len([x.args[0]], {}, node)
        if x.op == "build" and x.args[0] in ("list", "tuple") and len(x.args) == 2:
            e = x.args[1]
            ls = e.args[0].args
            if len(ls) == 1 and e.args[1] is TRUE and ls[0].op == "loop":
                return mk("call", "len", ls[0].args[0])
        if x.op in ("items", "keys", "values"):
            return mk("call", "len", self.snap(x.args[0]))
        t = self.typeof(x)
        if isinstance(t, Class) and t.method("__len__"):
            return self.call_func(t.method("__len__"), [args[0]], {}, node)
        return mk("call", "len", x)

    def lc_str(self, args, kw, node):
        if not args:
            return const("")
        if len(args) == 2 or "encoding" in kw:
            return self.call_attr(args[0], "decode", args[1:], {k: v for k, v in kw.items()}, node)
        return self.str_of(args[0])

    def lc_int(self, args, kw, node):
        if not args:
            return const(0)
        x = self.snap(args[0])
        if x.op == "const" and all(a.op == "const" for a in args):
            try:
                return const(int(x.args[0], *[a.args[0] for a in args[1:]]))
            except Exception:
                pass
        self.risks.append(("call", "int"))
        r = mk("call", "int", *self.argterms(args, kw))
        self.event("call", "int", node, args=args, kw=kw, result=r)
        return r

    def lc_bool(self, args, kw, node):
        return truth(self.snap(args[0])) if args else FALSE

    def lc_list(self, args, kw, node):
        return self.from_iter("list", args[0], node) if args else self.new_container("list", node)

    def lc_set(self, args, kw, node):
        return self.from_iter("set", args[0], node) if args else self.new_container("set", node)

    lc_frozenset = lc_set

    def lc_tuple(self, args, kw, node):
        return self.from_iter("tuple", args[0], node) if args else mk("tuple")

    def lc_iter(self, args, kw, node):
        if len(args) != 1:
            return mk("call", "iter", *self.argterms(args, kw), mk("uid", self.new_uid()))
        return args[0]

    def lc_dict(self, args, kw, node):
        es = []
        if args:
            x = self.snap(args[0])
            e = entries_of(x) if (x.op == "dict" or (x.op == "build" and x.args[0] == "dict")) else None
            if e is not None:
                es = list(e)
            elif x.op in ("list", "tuple", "build", "zip", "items", "gen", "map", "ite") or isinstance(x, T) and x.op == "const":
                b = self.collect("dict", args[0], node, f=lambda v: self.index(v, const(1)), key=lambda v: self.index(v, const(0)))
                es = list(entries_of(b) or [])
            else:
                b = self.collect("dict", mk("items", x), node, f=lambda v: self.index(v, const(1)), key=lambda v: self.index(v, const(0)))
                es = list(entries_of(b) or [])
        for k, v in kw.items():
            if k == "**":
                es.extend(entries_of(v) or [entry((), TRUE, mk("star", v), mk("star", v))])
            else:
                es.append(entry((), TRUE, v, const(k)))
        return self.new_container("dict", node, mk("content", "dict", *es))

    def lc_collections_OrderedDict(self, args, kw, node):
        return self.lc_dict(args, kw, node)

    def lc_collections_defaultdict(self, args, kw, node):
        group = bool(args) and args[0].op == "lib" and args[0].args[0] in ("list", "set")
        if args and args[0].op == "closure":
            body = getattr(self.callables[args[0]][0].node, "body", None)
            group = getattr(body, "elts", None) == [] or getattr(getattr(body, "func", None), "id", None) in ("list", "set")
        if group and len(args) == 1:
            return self.new_container("dict", node, mk("content", "group"))
        return self.new_container("dict", node)

    def lc_collections_deque(self, args, kw, node):
        return self.lc_list(args[:1], {}, node)

    def lc_itertools_groupby(self, args, kw, node):
        if not args:
            return NotImplemented
        key = self.key_term(kw.get("key", args[1] if len(args) > 1 else None), args[0], node)
        return self.lib_event("itertools.groupby", args[:1], {"key": key}, node)

    def lc_sorted(self, args, kw, node):
        if not args:
            return NotImplemented
        x = self.sortable(args[0], node)
        key = self.key_term(kw.get("key"), x, node)
        rev = truth(self.snap(kw["reverse"])) if "reverse" in kw else FALSE
        r = mk("sorted", x, key, rev)
        self.event("call", "sorted", node, args=[x], kw=kw, result=r)
        return r

    def sortable(self, x, node):
        x = self.snap(x)
        if x.op in ("gen", "map", "filter", "zip", "chain", "flat", "enum", "values", "keys", "items", "ite"):
            x = self.collect("list", x, node)
        elif x.op in ("set",):
            x = mk("list", *x.args)
        elif x.op == "build" and x.args[0] == "dict":
            x = build("list", [entry(e.args[0].args, e.args[1], e.args[3]) for e in x.args[1:]])
        elif x.op == "dict" and all(p.op == "pair" for p in x.args):
            x = mk("list", *[p.args[0] for p in x.args])
        return x

    def lc_reversed(self, args, kw, node):
        x = self.snap(args[0])
        if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args):
            return mk(x.op, *reversed(x.args))
        if x.op == "rev":
            return x.args[0]
        if x.op == "gen":
            x = self.collect("list", x, node)
        return mk("rev", x)

    def lc_enumerate(self, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get("start", const(0))
        return mk("enum", args[0], start)

    def lc_zip(self, args, kw, node):
        return mk("zip", *args)

    def lc_map(self, args, kw, node):
        return mk("map", *args)

    def lc_filter(self, args, kw, node):
        return mk("filter", *args)

    def lc_range(self, args, kw, node):
        a = [self.snap(x) for x in args]
        if len(a) == 1:
            a = [const(0), a[0], const(1)]
        elif len(a) == 2:
            a = a + [const(1)]
        return mk("rng", *a)

    def lc_any(self, args, kw, node):
        return self.any_all(args, node, False)

    def lc_all(self, args, kw, node):
        return self.any_all(args, node, True)

    def any_all(self, args, node, neg):
        x = self.snap(args[0])
        es = None
        if x.op in ("list", "tuple", "set", "build"):
            es = entries_of(x)
        if es is None or any(e.args[1].op == "carry" for e in es):
            es = entries_of(self.collect("list", x, node))
        if es is None:
            return NotImplemented
        out = []
        for e in es:
            v = truth(e.args[2])
            g = band(e.args[1], bnot(v) if neg else v)
            if g is FALSE:
                continue
            out.append(mk("any", e.args[0], g) if e.args[0].args else g)
        r = bor(*out)
        return bnot(r) if neg else r

    def lc_next(self, args, kw, node):
        it = args[0]
        base = it
        if it.op == "gen":
            k = ("f", it, "@pos")
            n = tm.cval(self.st.store.get(k, const(0)), 0) or 0
            self.st.store[k] = const(n + 1)
            memo = self.__dict__.setdefault("_genbuilds", {})
            b = memo.get((it, self.st.reach)) if n else None
            if b is None:
                b = self.collect("list", it, node)
                memo[(it, self.st.reach)] = b
        else:
            n = 0
            s = self.snap(it)
            if s.op in ("list", "tuple", "build", "map", "filter", "sorted", "rev", "items", "values", "keys", "chain", "flat", "zip", "enum", "set", "dict"):
                b = s if s.op in ("list", "tuple", "build") else self.collect("list", s, node)
                if it.op != "cobj":
                    k = ("f", it, "@pos")
                    n = tm.cval(self.st.store.get(k, const(0)), 0) or 0
                    self.st.store[k] = const(n + 1)
            else:
                self.risks.append(("next", mk("truthy", mk("nonempty", s, self.new_uid()))))
                r = mk("call", "next", s, mk("uid", self.new_uid()))
                self.event("call", "next", node, args=args, kw=kw, result=r)
                if len(args) > 1:
                    return ite(mk("truthy", mk("nonempty", s, self.uid)), r, args[1])
                return r
        has = tm.any_of(b)
        val = mk("first", b)
        es = entries_of(b) or []
        if n == 0 and es and not es[0].args[0].args:
            val = es[0].args[2]
            if es[0].args[1] is not TRUE:
                val = ite(es[0].args[1], es[0].args[2], mk("first", build("list", es[1:])) if es[1:] else mk("never"))
        if n:
            has = mk("truthy", mk("nthexists", b, n))
            val = mk("nth", b, n)
            if all(not e.args[0].args and e.args[1] is TRUE for e in es):
                has = TRUE if n < len(es) else FALSE
                val = es[n].args[2] if n < len(es) else mk("never")
        self.event("call", "next", node, args=[b] + list(args[1:]), kw=kw, result=val, extra=has)
        if len(args) > 1:
            return ite(has, val, args[1])
        self.risks.append(("next", has))
        return val

    def minmax(self, name, args, kw, node):
        if len(args) == 1:
            x = self.sortable(args[0], node)
            a = [x]
        else:
            a = [self.snap(v) for v in args]
            if all(v.op == "const" for v in a) and "key" not in kw:
                try:
                    return const({"max": max, "min": min}[name](v.args[0] for v in a))
                except Exception:
                    pass
            a = sorted(a, key=lambda t: t.id)
        key = self.key_term(kw.get("key"), a[0], node)
        extra = [mk("kw", "default", self.snap(kw["default"]))] if "default" in kw else []
        r = mk("call", name, *a, *([mk("kw", "key", key)] if key is not NONE else []), *extra)
        self.event("call", name, node, args=a, kw=kw, result=r)
        if not extra:
            self.risks.append(("call", name))
        return r

    def lc_max(self, args, kw, node):
        return self.minmax("max", args, kw, node)

    def lc_min(self, args, kw, node):
        return self.minmax("min", args, kw, node)

    def lc_sum(self, args, kw, node):
        x = self.snap(args[0])
        if x.op in ("gen", "map", "filter"):
            x = self.collect("list", x, node)
        return mk("call", "sum", x, *[self.snap(a) for a in args[1:]])

    def lc_isinstance(self, args, kw, node):
        if len(args) < 2:
            return NotImplemented
        return self.isinstance_(self.snap(args[0]), args[1])

    def lc_type(self, args, kw, node):
        if len(args) != 1:
            return NotImplemented
        t = self.typeof(args[0])
        if args[0].op == "obj" and isinstance(t, Class):
            return mk("class", t.qual)
        if args[0].op == "param" and isinstance(t, Class):
            return mk("class", t.qual)
        return mk("call", "type", self.snap(args[0]))

    def lc_getattr(self, args, kw, node):
        if len(args) >= 2 and args[1].op == "const" and isinstance(args[1].args[0], str):
            v = self.getattr(args[0], args[1].args[0], node)
            if len(args) > 2 and v.op == "attr":
                h = mk("truthy", mk("hasattr", self.snap(args[0]), args[1].args[0]))
                if isinstance(self.typeof(args[0]), Class) and self.typeof(args[0]).class_attr(args[1].args[0]) is not None:
                    return v
                return ite(h, v, args[2])
            return v
        if len(args) >= 2 and args[1].op == "ite":
            c, a, b = args[1].args
            return ite(c, self.lc_getattr([args[0], a] + list(args[2:]), kw, node), self.lc_getattr([args[0], b] + list(args[2:]), kw, node))
        return mk("dynattr", *self.argterms(args, kw))

    def lc_hasattr(self, args, kw, node):
        if len(args) == 2 and args[1].op == "const":
            t = self.typeof(args[0])
            n = args[1].args[0]
            if isinstance(t, Class) and (t.method(n) or t.class_attr(n) is not None):
                return TRUE
            atom = mk("truthy", mk("hasattr", self.snap(args[0]), n))

            def has(v):
                if v.op == "ite":
                    return ite(v.args[0], has(v.args[1]), has(v.args[2]))
                return atom if v.op == "attr" and v.args[0] is args[0] and v.args[1] == n else TRUE
            if ("f", args[0], n) in self.st.store:
                return has(self.st.store[("f", args[0], n)])
            return atom
        return NotImplemented

    def lc_setattr(self, args, kw, node):
        if len(args) == 3 and args[1].op == "const":
            self.set_attr(args[0], args[1].args[0], args[2], node)
            return NONE
        self.event("setattr", "?", node, recv=args[0], args=args[1:])
        return NONE

    def lc_print(self, args, kw, node):
        self.event("call", "print", node, args=args, kw=kw, result=NONE)
        return NONE

    def lc_open(self, args, kw, node):
        mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        if not (mode.op == "const" and isinstance(mode.args[0], str) and not set(mode.args[0]) & set("wax+")):
            self.bump()
        r = self.lib_event("open", args, kw, node)
        self.types[r] = ("lib", "file")
        return r

    lc_io_open = lc_open

    def lc_super(self, args, kw, node):
        return mk("unknown", "super", self.new_uid())

    def lc_exit(self, args, kw, node):
        self.event("raise", "SystemExit", node, args=args)
        self.abrupt.append((self.loops, self.st.reach, None, "SystemExit"))
        self.st = self.st.copy()
        self.st.alive = False
        return mk("never")

    lc_sys_exit = lc_exit
    lc_quit = lc_exit

    def isinstance_(self, v, c):
        names = []
        cs = c.args if c.op in ("tuple", "list") else (c,)
        for x in cs:
            if not isinstance(x, T):
                names.append("?")
            elif x.op == "class":
                names.append(x.args[0])
            elif x.op == "lib":
                names.append(x.args[0])
            else:
                names.append("?")
        if v.op == "const" and "?" not in names:
            py = {"str": str, "int": int, "bytes": bytes, "bool": bool, "float": float, "list": list, "tuple": tuple, "dict": dict}
            tys = tuple(py[n] for n in names if n in py)
            return const(isinstance(v.args[0], tys))
        if v.op == "ite":
            cnd, a, b = v.args
            return ite(cnd, self.isinstance_(a, c), self.isinstance_(b, c))
        if v.op == "slice" and "?" not in names:
            return self.isinstance_(v.args[0], c)
        kind = {"tuple": "tuple", "list": "list", "dict": "dict", "set": "set", "cat": "str"}.get(v.op)
        if v.op == "build":
            kind = v.args[0]
        if v.op == "fmt" or v.op == "call" and tm.is_str(v):
            kind = "str"
        if kind is not None and "?" not in names:
            return const(kind in names)
        if v.op in ("closure", "func") and names and all(n in ("str", "bytes", "list", "tuple", "dict", "set", "frozenset", "int", "float", "bool") for n in names):
            return FALSE
        t = self.typeof(v)
        if isinstance(t, Class) and v.op == "obj":
            anc = {k.qual for k in t.mro()}
            if anc & set(names):
                return TRUE
            if "?" not in names:
                return FALSE
        if isinstance(t, Class):
            anc = {k.qual for k in t.mro()}
            if anc & set(names):
                return TRUE
            subs = {k.qual for k in t.all_subclasses()}
            if not (subs & set(names)) and "?" not in names and all(n in self._classes() for n in names):
                return FALSE
        if isinstance(t, tuple) and t[0] == "lib" and t[1] in ("str", "bytes", "list", "tuple", "dict", "set", "int", "float") and "?" not in names:
            if t[1] in names:
                return TRUE
            known = self._classes()
            if all(n in ("str", "bytes", "list", "tuple", "dict", "set", "frozenset", "int", "float", "bool") or n in known and not self._libbase(known[n], t[1]) for n in names) \
                    and not (t[1] == "int" and "bool" in names):
                return FALSE
        return mk("isinst", v, "|".join(sorted(names)))

    def _libbase(self, k, name):
        """May the package class derive from a builtin type?"""
        for x in k.mro():
            for b in x.node.bases:
                if getattr(b, "id", getattr(b, "attr", None)) == name:
                    return True
        return False

    # ---- struct

    def lc_struct_calcsize(self, args, kw, node):
        if args and args[0].op == "const":
            try:
                return const(struct.calcsize(args[0].args[0]))
            except Exception:
                pass
        return mk("call", "struct.calcsize", self.snap(args[0]))

    def unpack_term(self, f, data, node):
        r = mk("unpack", f, data)
        self.event("call", "struct.unpack", node, args=[f, data], result=r)
        self.risks.append(("call", "struct.unpack"))
        return r

    def lc_struct_unpack(self, args, kw, node):
        return self.unpack_term(self.snap(args[0]), self.snap(args[1]), node)

    def lc_struct_unpack_from(self, args, kw, node):
        f, b = self.snap(args[0]), self.snap(args[1])
        off = self.snap(args[2] if len(args) > 2 else kw.get("offset", const(0)))
        size = self.lc_struct_calcsize([f], {}, node)
        return self.unpack_term(f, self.slice_(b, off, tm.binop("+", off, size)), node)

    def lc_struct_iter_unpack(self, args, kw, node):
        r = mk("iterunpack", self.snap(args[0]), self.snap(args[1]))
        self.event("call", "struct.iter_unpack", node, args=args, result=r)
        return r

    def lc_struct_pack(self, args, kw, node):
        r = mk("pack", self.snap(args[0]), *[self.snap(a) for a in args[1:]])
        self.event("call", "struct.pack", node, args=args, result=r)
        if args and all(a.op == "const" for a in args):
            try:
                return const(struct.pack(*[a.args[0] for a in args]))
            except Exception:
                pass
        return r

    def lc_struct_Struct(self, args, kw, node):
        return mk("call", "struct.Struct", *[self.snap(a) for a in args])

    def lc_int_from_bytes(self, args, kw, node):
        d = self.snap(args[0])
        order = self.snap(args[1] if len(args) > 1 else kw.get("byteorder", const("big")))
        signed = self.snap(kw.get("signed", FALSE))
        self.event("call", "int.from_bytes", node, args=args, kw=kw)
        n = None
        if d.op == "mcall" and d.args[1] == "read" and len(d.args) > 2 and d.args[2].op == "const":
            n = d.args[2].args[0]
        if d.op == "const" and order.op == "const":
            try:
                return const(int.from_bytes(d.args[0], order.args[0]))
            except Exception:
                pass
        if n in (1, 2, 4, 8) and order.op == "const" and signed.op == "const":
            c = {1: "B", 2: "H", 4: "I", 8: "Q"}[n]
            if signed.args[0]:
                c = c.lower()
            return mk("fld", const(("<" if order.args[0] == "little" else ">") + c), 0, d)
        return mk("call", "int.from_bytes", d, order, signed)

    # ---- functools, operator, itertools, copy

    def lc_functools_partial(self, args, kw, node):
        return mk("partial", args[0], mk("tuple", *args[1:]), mk("tuple", *[mk("kw", k, v) for k, v in sorted(kw.items())]))

    def lc_operator_itemgetter(self, args, kw, node):
        return mk("getter", "item", *args)

    def lc_operator_attrgetter(self, args, kw, node):
        return mk("getter", "attr", *args)

    def lc_operator_methodcaller(self, args, kw, node):
        return mk("methodcaller", *args)

    def lc_itertools_chain(self, args, kw, node):
        return mk("chain", *args)

    def lc_itertools_chain_from_iterable(self, args, kw, node):
        return mk("flat", args[0])

    def lc_functools_lru_cache(self, args, kw, node):
        return args[0] if args else mk("lib", "identity")

    def lc_copy_deepcopy(self, args, kw, node):
        r = mk("call", "copy.deepcopy", self.snap(args[0]), mk("uid", self.new_uid()))
        self.event("call", "copy.deepcopy", node, args=args, result=r)
        return r

    def lc_copy_copy(self, args, kw, node):
        r = mk("call", "copy.copy", self.snap(args[0]), mk("uid", self.new_uid()))
        self.event("call", "copy.copy", node, args=args, result=r)
        return r

    def lc_contextlib_suppress(self, args, kw, node):
        return mk("call", "contextlib.suppress", *args)

    def lc_contextlib_closing(self, args, kw, node):
        return mk("call", "contextlib.closing", *args)

    lc_contextlib_nullcontext = lambda self, args, kw, node: mk("call", "contextlib.nullcontext", *(args or [NONE]))

    def lc_re_sub(self, args, kw, node):
        return self.resub("re.sub", args, kw, node)

    def lc_re_subn(self, args, kw, node):
        return self.resub("re.subn", args, kw, node)

    def resub(self, name, args, kw, node):
        a = list(args)
        if len(a) > 1 and a[1].op in ("closure", "func", "bound"):
            a[1] = mk("fun", self.key_term(a[1], NONE, node))
        r = mk("call", name, *self.argterms(a, kw))
        self.event("call", name, node, args=a, kw=kw, result=r)
        return r

    def lc_os_environ_get(self, args, kw, node):
        return mk("call", "os.environ.get", *self.argterms(args, kw))

    def lc_shutil_copyfileobj(self, args, kw, node):
        self.lib_event("shutil.copyfileobj", args, kw, node)
        return NONE

    def lc_requests_Session(self, args, kw, node):
        r = self.lib_event("requests.Session", args, kw, node)
        self.types[r] = ("lib", "requests.Session")
        return r

    lc_requests_session = lc_requests_Session

    # ------------------------------------------------------------ methods

    def lib_method(self, base, name, args, kw, node):
        b = self.snap(base)
        m = getattr(self, "lm_" + name, None)
        if m is not None:
            r = m(b, base, args, kw, node)
            if r is not NotImplemented:
                return r
        if b.op == "const" and isinstance(b.args[0], (str, bytes, int)) and name in STR_FOLD | {"bit_length", "format"} and not kw:
            a = [self.snap(x) for x in args]
            if all(x.op == "const" for x in a):
                try:
                    v = getattr(b.args[0], name)(*[x.args[0] for x in a])
                    return mk("list", *[const(x) for x in v]) if isinstance(v, list) else const(v)
                except Exception:
                    pass
        t = self.typeof(base)
        if self.pathlike(b, t):
            r = self.path_method(b, name, args, kw, node)
            if r is not None:
                return r
        if b.op == "call" and b.args[0] == "re.compile" and name in ("match", "search", "fullmatch", "findall", "finditer", "split", "sub", "subn") and len(b.args) == 2:
            f = {"sub": self.lc_re_sub, "subn": self.lc_re_subn}.get(name)
            if f:
                return f([b.args[1]] + list(args), kw, node)
            return self.lib_call(f"re.{name}", [b.args[1]] + list(args), kw, node)
        if name == "sort" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and not args:
            x = self.sortable(b, node)
            self.set_var(node.func.value.id, mk("sorted", x, self.key_term(kw.get("key"), x, node), truth(self.snap(kw["reverse"])) if "reverse" in kw else FALSE))
            self.event("mcall", "sort", node, recv=base, args=args, kw=kw, result=NONE)
            return NONE
        pure = name in PURE_METHODS and t != ("lib", "requests.Session")
        r = mk("mcall", b, name, *self.argterms(args, kw), *([] if pure else [mk("uid", self.new_uid())]))
        self.event("mcall", name, node, recv=base, args=args, kw=kw, result=r)
        if name not in STR_FOLD:
            self.risks.append(("call", name))
        if t == ("lib", "requests.Session") and name in ("get", "head", "post", "request", "put"):
            self.types[r] = ("lib", "requests.Response")
        if name in ("append", "extend", "add", "update", "insert", "remove", "discard", "clear", "pop", "sort") and base.op in ("attr", "index"):
            self.events and None
        return r

    def path_method(self, b, name, args, kw, node):
        if name == "joinpath":
            return self.lib_call("os.path.join", [b] + list(args), kw, node)
        if name in ("exists", "is_file", "is_dir", "is_symlink"):
            return self.lib_call({"exists": "os.path.exists", "is_file": "os.path.isfile", "is_dir": "os.path.isdir", "is_symlink": "os.path.islink"}[name], [b], {}, node)
        if name == "mkdir":
            return self.lib_call("os.makedirs" if tm.cval(kw.get("parents", FALSE)) else "os.mkdir", [b], {k: v for k, v in kw.items() if k != "parents"}, node)
        if name == "open":
            return self.lib_call("open", [b] + list(args), kw, node)
        if name == "unlink":
            return self.lib_call("os.remove", [b], {}, node)
        if name == "rename":
            return self.lib_call("os.rename", [b] + list(args), {}, node)
        if name == "replace" and len(args) == 1:
            return self.lib_call("os.replace", [b] + list(args), {}, node)
        if name in ("expanduser", "absolute", "resolve"):
            return self.lib_call({"expanduser": "os.path.expanduser", "absolute": "os.path.abspath", "resolve": "os.path.realpath"}[name], [b], {}, node)
        if name == "iterdir":
            inner = self.lib_call("os.listdir", [b], {}, node)
            return build("list", entries_of(self.collect("list", inner, node, f=lambda e: mk("call", "os.path.join", b, e))))
        if name in ("read_text", "read_bytes", "write_text", "write_bytes"):
            mode = ("w" if name.startswith("write") else "r") + ("b" if "bytes" in name else "")
            f = self.lib_call("open", [b, const(mode)], kw, node)
            return self.lib_method(f, "write" if name.startswith("write") else "read", args[:1] if name.startswith("write") else [], {}, node)
        return None

    def lm_format(self, b, base, args, kw, node):
        if not tm.is_str(b):
            return NotImplemented
        if len(args) == 1 and args[0].op == "star" and b.op == "const":
            n = b.args[0].replace("{{", "").count("{}")
            args = [mk("index", self.snap(args[0].args[0]), const(k)) for k in range(n)] if n else args
        r = tm.format_template(b, [self.str_arg(a) for a in args], {k: self.str_arg(v) for k, v in kw.items()})
        return r if r is not None else NotImplemented

    def str_arg(self, a):
        a = self.snap(a)
        t = self.typeof(a)
        if isinstance(t, Class) and t.method("__str__"):
            return self.str_of(a)
        return a

    def lm_join(self, b, base, args, kw, node):
        if not args or not (tm.is_str(b) or b.op == "const"):
            return NotImplemented
        x = self.snap(args[0])
        if x.op in ("gen", "map", "filter", "sorted", "chain") and not (x.op == "sorted" and entries_of(x) is None):
            if x.op != "sorted":
                x = self.collect("list", x, node)
        if x.op in ("tuple", "list") and not any(a.op == "star" for a in x.args):
            parts = []
            for i, a in enumerate(x.args):
                if i:
                    parts.append(b)
                parts.append(a)
            return cat(*parts)
        return mk("join", b, x)

    def lm_startswith(self, b, base, args, kw, node):
        return self.affix(b, args, "startswith")

    def lm_endswith(self, b, base, args, kw, node):
        return self.affix(b, args, "endswith")

    def affix(self, b, args, name):
        if len(args) != 1:
            return NotImplemented
        a = self.snap(args[0])
        if a.op in ("tuple", "list"):
            return bor(*[truth(self.affix(b, [x], name)) for x in a.args])
        if a.op == "const" and isinstance(a.args[0], tuple):
            return bor(*[truth(self.affix(b, [const(x)], name)) for x in a.args[0]])
        if a.op == "const":
            k = a.args[0]
            if b.op == "const" and type(b.args[0]) is type(k) and isinstance(k, (str, bytes)):
                return const(getattr(b.args[0], name)(k))
            if b.op == "cat" and isinstance(k, str):
                p = b.args[0] if name == "startswith" else b.args[-1]
                if p.op == "const" and isinstance(p.args[0], str):
                    v = p.args[0]
                    if len(v) >= len(k):
                        return const(getattr(v, name)(k))
                    if name == "startswith" and not k.startswith(v) or name == "endswith" and not k.endswith(v):
                        return FALSE
            if b.op == "ite":
                c, x, y = b.args
                return ite(c, self.affix(x, args, name), self.affix(y, args, name))
        return mk("truthy", mk("mcall", b, name, a))

    def lm_items(self, b, base, args, kw, node):
        return mk("items", base) if not args else NotImplemented

    def lm_keys(self, b, base, args, kw, node):
        return mk("keys", base) if not args else NotImplemented

    def lm_values(self, b, base, args, kw, node):
        return mk("values", base) if not args else NotImplemented

    def lm_get(self, b, base, args, kw, node):
        t = self.typeof(base)
        if b.op == "dict" or (b.op == "build" and b.args[0] == "dict"):
            return self.dict_get(b, args, kw)
        if isinstance(t, tuple) and t[0] == "dict" or t is None and b.op not in ("lib", "module", "call") and len(args) in (1, 2) and not kw:
            return self.dict_get(b, args, kw)
        return NotImplemented

    def dict_get(self, d, args, kw):
        k = self.snap(args[0])
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        if d.op == "dict" and all(p.op == "pair" and p.args[0].op == "const" for p in d.args):
            if k.op == "const":
                hit = [p.args[1] for p in d.args if p.args[0] is k]
                return hit[-1] if hit else dflt
            out = dflt
            if len(d.args) <= 40:
                for p in reversed(d.args):
                    out = ite(cmp("==", k, p.args[0]), p.args[1], out)
                return out
        return ite(cmp("in", k, d), self.index(d, k), self.snap(dflt))

    def lm_error(self, b, base, args, kw, node):
        """ArgumentParser.error() ends the program."""
        t = self.typeof(base)
        parser = t == ("lib", "argparse.ArgumentParser") or b.op == "call" and b.args[0] == "argparse.ArgumentParser" or \
            b.op == "mcall" and b.args[1] == "add_parser" or \
            b.op == "param" and t is None and any("argparse" in str(v) for v in self.frame.module.imports.values())
        if not parser:
            return NotImplemented
        self.event("mcall", "error", node, recv=base, args=args, kw=kw, result=NONE)
        return self.lc_exit(args, kw, node)

    def lm_raise_for_status(self, b, base, args, kw, node):
        self.event("mcall", "raise_for_status", node, recv=base, result=NONE)
        self.risks.append(("call", "raise_for_status"))
        self.st.reach = self.st.reach + (mk("ok", b),)
        return NONE

    def lm_unpack(self, b, base, args, kw, node):
        if b.op == "call" and b.args[0] == "struct.Struct":
            return self.lc_struct_unpack([b.args[1]] + list(args), kw, node)
        return NotImplemented

    def lm_unpack_from(self, b, base, args, kw, node):
        if b.op == "call" and b.args[0] == "struct.Struct":
            return self.lc_struct_unpack_from([b.args[1]] + list(args), kw, node)
        return NotImplemented

    def lm_iter_unpack(self, b, base, args, kw, node):
        if b.op == "call" and b.args[0] == "struct.Struct":
            return self.lc_struct_iter_unpack([b.args[1]] + list(args), kw, node)
        return NotImplemented

    def lm_pack(self, b, base, args, kw, node):
        if b.op == "call" and b.args[0] == "struct.Struct":
            return self.lc_struct_pack([b.args[1]] + list(args), kw, node)
        return NotImplemented

    def pool_map(self, b, base, args, kw, node, meth="map"):
        if len(args) >= 2 and args[0].op in ("func", "closure", "bound", "partial", "lib") and b.op in ("call", "mcall", "attr", "param", "global"):
            ev = self.event("mcall", "pool." + meth, node, recv=base, args=args, kw=kw)
            bld = self.collect("list", args[1], node, f=lambda e: self.apply(args[0], [e], {}, node))
            self.risks.append(("call", "map"))
            if meth.endswith("_async"):
                bld = mk("call", "pool.async", mk("uid", self.new_uid()))
            if ev:
                ev.result = bld
            return bld
        return NotImplemented

    def lm_map(self, b, base, args, kw, node):
        return self.pool_map(b, base, args, kw, node)

    def lm_imap(self, b, base, args, kw, node):
        return self.pool_map(b, base, args, kw, node, "imap")

    def lm_imap_unordered(self, b, base, args, kw, node):
        return self.pool_map(b, base, args, kw, node, "imap_unordered")

    def lm_map_async(self, b, base, args, kw, node):
        return self.pool_map(b, base, args, kw, node, "map_async")

    def pool_submit(self, b, base, args, kw, node, meth):
        if args and args[0].op in ("func", "closure", "bound", "partial") and b.op in ("call", "mcall", "attr", "param", "global"):
            ev = self.event("mcall", "pool." + meth, node, recv=base, args=args, kw=kw)
            rest = list(args[1:])
            if meth == "apply_async":
                rest = list(rest[0].args) if rest and rest[0].op in ("tuple", "list") else rest
            self.apply(args[0], rest, {} if meth == "apply_async" else kw, node)
            r = mk("call", "pool.async", mk("uid", self.new_uid()))
            if ev:
                ev.result = r
            return r
        return NotImplemented

    def lm_submit(self, b, base, args, kw, node):
        return self.pool_submit(b, base, args, kw, node, "submit")

    def lm_apply_async(self, b, base, args, kw, node):
        return self.pool_submit(b, base, args, kw, node, "apply_async")

    def lm___new__(self, b, base, args, kw, node):
        return NotImplemented

    def lm_append(self, b, base, args, kw, node):
        if base.op == "slot" and len(args) == 1:
            self.event("mcall", "append", node, recv=base, args=args)
            self.c_append(base.args[0], args[0], key=base.args[1])
            return NONE
        return NotImplemented

    lm_add = lm_append

    def lm_extend(self, b, base, args, kw, node):
        if base.op == "slot" and len(args) == 1:
            self.iterate(args[0], lambda e: self.c_append(base.args[0], e, key=base.args[1]), node)
            return NONE
        return NotImplemented

    # ------------------------------------------------------------ containers

    def extend(self, o, v, node):
        if o.args[0] == "dict":
            self.dict_update(o, v, node)
        else:
            self.iterate(v, lambda e: self.c_append(o, e), node)

    def dict_update(self, o, v, node):
        s = self.snap(v)
        if s.op in ("list", "tuple", "zip", "gen", "map") or (s.op == "build" and s.args[0] != "dict"):
            self.iterate(v, lambda e: self.c_append(o, self.index(e, const(1)), self.index(e, const(0))), node)
        else:
            self.iterate(mk("items", v if v.op == "cobj" else s), lambda e: self.c_append(o, e.args[1], e.args[0]) if e.op == "tuple"
                         else self.c_append(o, self.index(e, const(1)), self.index(e, const(0))), node)

    def container_method(self, o, name, args, kw, node):
        kind = o.args[0]
        if name in ("append", "add", "appendleft") and args:
            self.event("mcall", name, node, recv=o, args=args)
            self.c_append(o, args[0])
            return NONE
        if name in ("extend", "update"):
            self.event("mcall", name, node, recv=o, args=args, kw=kw)
            for a in args:
                self.extend(o, a, node)
            for k, v in kw.items():
                self.c_append(o, v, const(k))
            return NONE
        if name == "insert" and len(args) == 2:
            c = self.st.store.get(("c", o))
            bl, br = self.objctx.get(o, ((), ()))
            loops, g = self.rel_ctx(bl, br)
            if is_const(args[0], 0) and c is not None and c.op == "content" and not loops:
                self.st.store[("c", o)] = mk("content", c.args[0], entry((), g, args[1]), *c.args[1:])
            else:
                self.st.store[("c", o)] = mk("opaque", self.content(o), args[1])
            return NONE
        if name in ("remove", "discard"):
            self.event("mcall", name, node, recv=o, args=args)
            self.c_remove(o, self.snap(args[0]))
            self.risks.append(("call", name))
            return NONE
        if name == "pop":
            b = self.content(o)
            if kind == "dict" and args:
                k = self.snap(args[0])
                r = self.dict_get(b, args, kw) if len(args) > 1 else self.index(b, k)
                self.c_remove(o, k)
                if len(args) == 1:
                    self.risks.append(("index", b, k))
                return r
            i = args[0] if args else const(-1)
            r = self.index(b, i)
            c = self.st.store.get(("c", o))
            bl, br = self.objctx.get(o, ((), ()))
            loops, g = self.rel_ctx(bl, br)
            if c is not None and c.op == "content" and not loops and g is TRUE and b.op == "list" and i.op == "const" and isinstance(i.args[0], int) and -len(b.args) <= i.args[0] < len(b.args):
                es = list(c.args[1:])
                del es[i.args[0]]
                self.st.store[("c", o)] = mk("content", c.args[0], *es)
            else:
                r = mk("popped", b, i, mk("uid", self.new_uid()))
                self.st.store[("c", o)] = mk("minus", b, entry(loops, g, r))
            self.risks.append(("index", b, i))
            return r
        if name == "clear":
            bl, br = self.objctx.get(o, ((), ()))
            loops, g = self.rel_ctx(bl, br)
            if not loops and g is TRUE:
                self.st.store[("c", o)] = mk("content", kind)
            else:
                self.st.store[("c", o)] = mk("opaque", self.content(o), mk("uid", self.new_uid()))
            return NONE
        if name == "sort":
            x = self.sortable(o, node)
            key = self.key_term(kw.get("key"), x, node)
            rev = truth(self.snap(kw["reverse"])) if "reverse" in kw else FALSE
            self.st.store[("c", o)] = mk("sorted", x, key, rev)
            self.event("mcall", "sort", node, recv=o, kw=kw)
            return NONE
        if name == "reverse":
            self.st.store[("c", o)] = mk("rev", self.content(o))
            return NONE
        if name == "setdefault":
            b = self.content(o)
            k = self.snap(args[0])
            d = args[1] if len(args) > 1 else NONE
            c = self.st.store.get(("c", o))
            if d.op == "cobj" and d.args[0] in ("list", "set") and self.content(d).op in ("list", "set") and not self.content(d).args \
                    and c is not None and c.op == "content" and (len(c.args) == 1 or c.args[0] == "group"):
                self.st.store[("c", o)] = mk("content", "group", *c.args[1:])
                return mk("slot", o, k)
            if d.op == "cobj":
                self.c_append(o, d, k)
                return d
            has = cmp("in", k, b)
            old = self.index(b, k)
            self.cond_exec(bnot(has), lambda: self.c_append(o, d, k), lambda: None)
            return ite(has, old, d)
        if name == "get" and kind == "dict":
            return self.dict_get(self.content(o), args, kw)
        if name == "copy":
            c = self.st.store.get(("c", o))
            return self.new_container(kind, node, c) if c is not None and c.op == "content" else self.new_container(kind, node, self.content(o))
        if name in ("items", "keys", "values"):
            return mk(name, o)
        if name in ("union", "__or__"):
            n = self.container_method(o, "copy", [], {}, node)
            for a in args:
                self.extend(n, a, node)
            return n
        if name in ("difference", "__sub__") and args:
            return mk("setdiff", self.content(o), *[self.snap(a) for a in args])
        return self.lib_method(o, name, args, kw, node)
