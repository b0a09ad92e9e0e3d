"""C29: binary formats are decoded alike on every platform, without misalignment."""
import ast
import struct
from vfa.q import *

RULE = """Every function of the package that decodes or encodes binary data is interpreted; functions that receive their format as an argument are followed into all their callers, until every format is
known (a constant, a constant with a variable count, or a choice between constants). Every format with a multi-byte field must start with an explicit byte order (which also selects standard sizes and no
padding), integer conversions must name a constant byte order, and native-order containers (array, memoryview casts, ctypes, numpy without byte order) are violations. The bytes handed to each decoding -
a read with a length, a slice with two bounds - must be as many as the format describes, by linear arithmetic when the count is variable. Assignments that unpack a decoded record must have as many targets
as the format has values, indexes must exist, constructors must accept the number of values they are handed, encodings must be given as many values as the format takes, and a value placed in a fixed-width
byte field must have that width."""

ORDER, BYTES, ARITY = "the byte order is explicit", "as many bytes as the format describes", "as many values as are taken"
NAMES = {"unpack", "pack", "unpack_from", "pack_into", "iter_unpack", "from_bytes", "to_bytes", "calcsize", "Struct", "frombuffer", "fromfile", "fromstring", "cast", "array", "from_buffer", "from_buffer_copy"}
STRUCT = {"struct.unpack", "struct.pack", "struct.iter_unpack", "struct.pack_into", "struct.Struct"}


class Fmt:
    """A format string: byte order, and items (count, code) where the count is an int or a term."""

    def __init__(self, order, items):
        self.order, self.items = order, items

    def size(self):
        if all(isinstance(n, int) for n, _ in self.items):
            return const(struct.calcsize(self.text()))
        if self.order not in ("<", ">", "!", "=") and len({code for _, code in self.items}) > 1:
            return None
        out = const(0)
        for n, code in self.items:
            w = 1 if code in "spx" else struct.calcsize((self.order or "@") + code)
            out = tm.binop("+", out, const(n * w) if isinstance(n, int) else tm.binop("*", n, const(w)))
        return out

    def text(self):
        return self.order + "".join(f"{n}{code}" for n, code in self.items)

    def count(self):
        n = 0
        for k, code in self.items:
            if code == "x":
                continue
            if code in "sp":
                n += 1
            elif isinstance(k, int):
                n += k
            else:
                return None
        return n

    def native(self):
        return self.order in ("", "@", "=") and any(code not in "sbBc?xp" for k, code in self.items if k != 0)

    def codes(self):
        """Code of each value, with the width of byte fields."""
        for k, code in self.items:
            if code == "x":
                continue
            if code in "sp":
                yield code, k
            elif isinstance(k, int):
                for _ in range(k):
                    yield code, None
            else:
                return


def parse_fmt(t):
    """Format of a constant or formatted string term, None if it is not known."""
    ps = pieces_of(t)
    if ps is None:
        return None
    order, items, cnt = "", [], None
    first = True
    for p in ps:
        if isinstance(p, T):
            if cnt is not None:
                return None
            cnt = p
            first = False
            continue
        for ch in p:
            if first and ch in "<>=!@":
                order = ch
            elif ch.isdigit():
                if isinstance(cnt, T):
                    return None
                cnt = (cnt or 0) * 10 + int(ch)
            elif ch.isspace():
                pass
            elif ch in "xcbB?hHiIlLqQefdspnNP":
                items.append((1 if cnt is None else cnt, ch))
                cnt = None
            else:
                return None
            first = False
    return Fmt(order, items) if cnt is None else None


def pieces_of(t):
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        return [v] if isinstance(v, str) else None
    if t.op == "cat":
        out = []
        for x in t.args:
            if x.op == "const" and isinstance(x.args[0], str):
                out.append(x.args[0])
            elif x.op == "call" and x.args[0] == "str" or x.op == "cat" and len(x.args) == 1:
                out.append(x.args[-1])
            elif x.op == "fmt" and len(x.args) == 2 and is_const(x.args[1], ""):
                out.append(x.args[0])
            else:
                out.append(x)
        return out
    return None


def check(c):
    a = Analysis(c)
    a.run()
    natives(c)


class Analysis:
    def __init__(self, c):
        self.c, self.r = c, c.r
        self.funcs = {f.qual[5:]: f for f in c.prog.funcs.values() if not isinstance(f.node, ast.Lambda)}
        self.helpers, self.inline = set(), set()
        self.methods = {}
        for q, f in self.funcs.items():
            if f.cls is not None:
                self.methods.setdefault(f.node.name, []).append(q)

    def uses(self, names):
        for q, f in self.funcs.items():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr in names or isinstance(x, ast.Name) and x.id in names:
                    yield q
                    break

    def one(self, q, types=None):
        keep = self.helpers | self.inline | {q}
        return self.c.run(q, "own", opaque=set(self.funcs) - keep, types=types or {}, collect=False)

    def types_for(self, q, i):
        """Types of parameters on which a method of the package that takes a format is called."""
        out = {}
        for e in i.events:
            if e.kind in ("mcall", "vcall") and e.recv is not None and e.recv.op == "param":
                qs = [m for m in self.methods.get(e.name, []) if m in self.helpers]
                if len(qs) == 1:
                    out[e.recv] = self.funcs[qs[0]].cls
        return out

    def run(self):
        todo, runs = set(self.uses(NAMES)), {}
        if not todo:
            self.r.und(ORDER, "package", "no binary data is decoded")
            return
        leaves = {}
        for _ in range(8):
            new = set()
            for q in sorted(todo):
                i = self.one(q)
                ty = self.types_for(q, i)
                if ty:
                    i = self.one(q, ty)
                runs[q] = i
                if q not in self.helpers and self.open_formats(i, q):
                    new.add(q)
                for e in i.events:
                    g = e.name[5:] if e.kind == "call" and e.name.startswith("repo:") else None
                    if g in self.funcs and g not in self.inline and any(a.op == "closure" for a in [*(e.args or []), *(e.kw or {}).values()]):
                        self.inline.add(g)      # its argument is code of this function
                        new.add(q)
                    for a in list(e.args or []):
                        for x in subterms(a):
                            if x.op == "call" and str(x.args[0]).startswith("repo:cdtb.") and struct_event(e):
                                leaf = x.args[0][len("repo:cdtb."):]
                                if leaf in self.funcs and leaf not in self.inline and self.is_leaf(leaf):
                                    self.inline.add(leaf)
                                    new.add(q)
            hs = {q for q in new if q in runs and self.open_formats(runs[q], q)}
            self.helpers |= hs
            if not new:
                break
            names = {self.funcs[q].node.name for q in hs}
            again = set(self.uses(names)) if names else set()
            todo = again | (new - hs)
        seen = set()
        for q, i in sorted(runs.items()):
            if q in self.helpers and self.called(q):
                continue
            self.judge(q, i, seen)

    def called(self, q):
        n = self.funcs[q].node.name
        return any(u != q for u in self.uses({n}))

    def is_leaf(self, q):
        i = self.c.run(q, "own", opaque=set(self.funcs) - {q}, collect=False)
        return not any(e.kind in ("call", "new") and e.name.startswith("repo:") or e.loops for e in i.events)

    def open_formats(self, i, q):
        """Formats that depend on the parameters of the function."""
        for e in i.events:
            f = fmt_of(e)
            if f is None:
                continue
            for _, v in tm.cases(f):
                if parse_fmt(v) is None and any(x.op == "param" and x.args[0] != "self" for x in subterms(v)):
                    return True
        return False

    # ---- obligations

    def judge(self, q, i, seen):
        r = self.r
        for e in i.events:
            k = (e.loc, e.kind, e.name, tuple(e.args or ()))
            f = fmt_of(e)
            if e.kind == "call" and e.name == "int.from_bytes" or e.kind == "mcall" and e.name in ("to_bytes", "from_bytes") and not repo_like(e):
                self.integer(e)
            if f is not None:
                for g, v in tm.cases(f):
                    self.format(e, v)
            if e.kind == "unpackto" and e.name != "*":
                self.targets(e)
            if e.kind in ("new", "call") and e.args:
                self.accepted(i, e)
            for t in [*(e.args or []), e.recv, e.result, *((e.kw or {}).values())]:
                if isinstance(t, T):
                    self.indexes(e, t, seen)

    def format(self, e, v):
        r = self.r
        f = parse_fmt(v)
        if f is None:
            if is_const(v) and isinstance(v.args[0], (str, bytes)):
                r.bad(ORDER, e.where(), f"format {v.args[0]!r} is not valid")
            else:
                r.und(ORDER, e.where(), f"format {text(v)[:80]}")
            return
        r.ob(not f.native(), ORDER, e.where(), f"format {f.text() if all(isinstance(n, int) for n, _ in f.items) else text(v)[:60]!r}" + (" uses the byte order and sizes of the host" if f.native() else ""))
        if e.name in ("struct.pack", "pack"):
            self.packed(e, f, e.args[1:] if e.name == "struct.pack" or e.kind == "mcall" and e.args and e.args[0] is v else e.args)
        elif e.name == "struct.unpack":
            self.data(e, f, e.args[1])

    def data(self, e, f, d):
        r = self.r
        n = f.size()
        if n is None:
            r.und(BYTES, e.where(), text(e.args[0])[:60])
            return
        for g, x in tm.cases(d):
            m = provided(x)
            if m is None:
                r.und(BYTES, e.where(), f"data {text(x)[:80]}")
                continue
            if m.op == "call" and m.args[0] == "struct.calcsize":
                h = parse_fmt(m.args[1])
                m = h.size() if h is not None and h.size() is not None else m
            ok = m is n or tm.lin_eq(m, n)
            if ok:
                r.ok(BYTES, e.where(), f"{text(m)[:60]} bytes")
            elif m.op == "const" and n.op == "const" or linear(m) and linear(n):
                r.bad(BYTES, e.where(), f"{text(m)[:60]} bytes are read, the format {text(e.args[0])[:60]} has {text(n)[:60]}")
            else:
                r.und(BYTES, e.where(), f"{text(m)[:60]} bytes for {text(e.args[0])[:60]}")

    def packed(self, e, f, vals):
        r = self.r
        n = f.count()
        if n is None or any(v.op == "star" for v in vals):
            r.und(ARITY, e.where(), f"values of {f.items}")
            return
        r.ob(n == len(vals), ARITY, e.where(), f"{len(vals)} values for a format of {n}")
        for (code, w), v in zip(f.codes(), vals):
            if code != "s" or not isinstance(w, int):
                continue
            for g, x in tm.cases(v):
                k = length(x)
                if k is not None:
                    r.ob(k == w, BYTES, e.where(), f"{k} bytes in a field of {w}")

    def targets(self, e):
        for g, v in tm.cases(e.args[0]):
            if v.op == "unpack" or v.op == "mcall" and v.args[1] in ("unpack", "read_fmt") and len(v.args) > 2:
                f = parse_fmt(v.args[0] if v.op == "unpack" else v.args[2])
                n = f.count() if f is not None else None
                if n is None:
                    self.r.und(ARITY, e.where(), text(v)[:80])
                else:
                    self.r.ob(str(n) == e.name, ARITY, e.where(), f"{n} values for {e.name} names")

    def indexes(self, e, t, seen):
        if t in seen:
            return
        todo = [t]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "fld" and isinstance(t.args[0], T) and isinstance(t.args[1], (int, T)):
                k = t.args[1] if isinstance(t.args[1], int) else t.args[1].args[0] if t.args[1].op == "const" else None
                f = parse_fmt(t.args[0])
                n = f.count() if f is not None else None
                if n is not None and isinstance(k, int) and not -n <= k < n:
                    self.r.bad(ARITY, e.where(), f"value {k} of a record of {n}")
            todo += [x for x in t.args if isinstance(x, T)]

    def accepted(self, i, e):
        """A constructor or function that is handed decoded values accepts their number."""
        if not any(a.op in ("fld",) or a.op == "star" and a.args[0].op in ("unpack", "slice", "iterunpack") for a in e.args):
            return
        f = None
        skip = 0
        if e.kind == "new":
            k = self.c.prog.classes.get(e.name.rsplit(".")[-1])
            k = k[0] if isinstance(k, list) else k
            f = k.method("__init__") if k is not None else None
            if f is None and k is not None:
                fields = [n for n in k.node.body if isinstance(n, ast.AnnAssign)]
                if fields:
                    lo = sum(1 for n in fields if n.value is None)
                    if not any(a.op == "star" for a in e.args):
                        n = len(e.args) + len(e.kw or {})
                        self.r.ob(lo <= n <= len(fields), ARITY, e.where(), f"{n} values for {e.name}, which takes {lo} to {len(fields)}")
                return
            skip = 1
        elif e.name.startswith("repo:"):
            f = self.funcs.get(e.name[5:])
        if f is None or any(a.op == "star" for a in e.args) or (e.kw and "**" in e.kw):
            return
        a = f.node.args
        ps = a.posonlyargs + a.args
        n = len(e.args) + skip
        lo = len(ps) - len(a.defaults) - len([k for k in (e.kw or {}) if k in {p.arg for p in ps}])
        self.r.ob((lo <= n) and (n <= len(ps) or a.vararg is not None), ARITY, e.where(), f"{n - skip} values for {e.name}, which takes {lo - skip} to {len(ps) - skip}")

    def integer(self, e):
        args = list(e.args or [])
        if e.kind == "call":
            o = args[1] if len(args) > 1 else (e.kw or {}).get("byteorder", const("big"))
        else:
            o = args[1] if len(args) > 1 else (e.kw or {}).get("byteorder", const("big"))
        vs = [v for _, v in tm.cases(o)]
        if all(v.op == "const" and v.args[0] in ("little", "big") for v in vs) and len(set(vs)) == 1:
            self.r.ok(ORDER, e.where(), vs[0].args[0])
        elif any("byteorder" in text(v) for v in vs) or any(x.op == "attr" and "byteorder" in str(x.args[-1]) for x in subterms(o)) or len(vs) > 1:
            self.r.bad(ORDER, e.where(), f"byte order {text(o)[:60]}")
        else:
            self.r.und(ORDER, e.where(), f"byte order {text(o)[:60]}")


def repo_like(e):
    return e.name.startswith("repo:")


def struct_event(e):
    return e.name in STRUCT or e.kind == "mcall" and e.name in ("unpack", "pack")


def fmt_of(e):
    """Format term of an event that decodes or encodes."""
    if e.kind == "call" and e.name in STRUCT and e.args:
        return e.args[0]
    if e.kind in ("mcall", "vcall") and e.name in ("unpack", "iter_unpack", "pack", "read_fmt") and e.args and e.args[0].op in ("const", "cat", "ite", "fmt"):
        if all(isinstance(v.args[0], (str, bytes)) for _, v in tm.cases(e.args[0]) if v.op == "const"):
            return e.args[0]
    return None


def linear(t):
    return t.op == "const" or t.op == "bin" or t.op in ("fld", "index", "call", "mcall")


def provided(x):
    """Number of bytes of a data term: requested by a read, or between the bounds of a slice."""
    if x.op == "mcall" and x.args[1] == "read":
        a = [y for y in x.args[2:] if y.op not in ("uid", "kw")]
        return a[0] if len(a) == 1 and a[0] is not NONE else None
    if x.op == "call" and x.args[0] in ("io.read", "read"):
        return x.args[-1]
    if x.op == "slice":
        lo, hi = x.args[1], x.args[2]
        if len(x.args) > 3 and x.args[3] is not NONE and not is_const(x.args[3], 1):
            return None
        lo = const(0) if lo is NONE else lo
        if hi is NONE:
            if lo.op == "const" and isinstance(lo.args[0], int) and lo.args[0] < 0:
                return const(-lo.args[0])
            return None
        if lo.op == "const" and hi.op == "const" and (lo.args[0] < 0) != (hi.args[0] < 0):
            return None
        return tm.lin_sub(hi, lo) if hasattr(tm, "lin_sub") else tm.binop("-", hi, lo)
    n = length(x)
    return const(n) if n is not None else None


def length(x):
    if x.op == "const" and isinstance(x.args[0], bytes):
        return len(x.args[0])
    if x.op == "pack":
        f = parse_fmt(x.args[0])
        n = f.size() if f is not None else None
        return n.args[0] if n is not None and n.op == "const" else None
    if x.op == "mcall" and x.args[1] == "to_bytes" and len(x.args) > 2 and x.args[2].op == "const":
        return x.args[2].args[0]
    return None


def natives(c):
    """Decoding with the byte order of the host through other means than formats."""
    r = c.r
    for m in c.prog.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            w = f"{m.rel}:{x.lineno}"
            f = x.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            base = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else None
            first = x.args[0].value if x.args and isinstance(x.args[0], ast.Constant) else None
            if name == "array" and (base in ("array", None) and imported(m, "array")) and isinstance(first, str):
                r.ob(first in "bB" or swaps(m, x), ORDER, w, f"array of {first!r} has the byte order of the host")
            elif name == "cast" and isinstance(f, ast.Attribute) and isinstance(first, str) and len(first.lstrip("@")) == 1 and first[-1] in "hHiIlLqQfdnN":
                r.bad(ORDER, w, f"a view cast to {first!r} has the byte order of the host")
            elif base in ("ctypes",) or name in ("from_buffer_copy",):
                r.und(ORDER, w, "ctypes")
            elif name in ("frombuffer", "fromfile", "fromstring") and base in ("np", "numpy"):
                d = next((k.value for k in x.keywords if k.arg == "dtype"), x.args[1] if len(x.args) > 1 else None)
                d = d.value if isinstance(d, ast.Constant) else d.attr if isinstance(d, ast.Attribute) else None
                if not isinstance(d, str):
                    r.und(ORDER, w, "numpy without a constant type")
                else:
                    r.ob(d[:1] in "<>" or d in ("u1", "i1", "uint8", "int8", "B", "b"), ORDER, w, f"numpy data of type {d}")


def imported(m, name):
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Import) and any(a.name == name for a in x.names) or isinstance(x, ast.ImportFrom) and x.module == name:
            return True
    return False


def swaps(m, call):
    return any(isinstance(x, ast.Attribute) and x.attr == "byteswap" for x in ast.walk(m.tree)) and any(isinstance(x, ast.Attribute) and x.attr == "byteorder" for x in ast.walk(m.tree))
