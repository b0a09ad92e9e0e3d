"""Interned value-flow terms, Boolean guards and their decision over finite partitions.

A term is the value of an expression as a function of the analysis root's inputs.  Terms are
hash-consed, so structural equality is identity.  Guards are Boolean terms over atoms; they are
compared by evaluating them over the finite partition of their atoms (`equiv`, `entails`).
"""
import itertools
import string

_table = {}
_counter = itertools.count()


class T:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def mk(op, *args):
    key = (op,) + tuple((a if isinstance(a, T) else (type(a).__name__, a)) for a in args)
    try:
        t = _table.get(key)
    except TypeError:
        args = tuple(a if isinstance(a, T) else _hashable(a) for a in args)
        return mk(op, *args)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_counter)
        t._h = None
        _table[key] = t
    return t


def _hashable(a):
    try:
        hash(a)
        return a
    except TypeError:
        return repr(a)


class _Missing:
    def __repr__(self):
        return "<missing>"


def const(v):
    return mk("const", v)


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_const(t, *vals):
    if not isinstance(t, T) or t.op != "const":
        return False
    if not vals:
        return True
    v = t.args[0]
    return any(type(v) is type(x) and v == x for x in vals)


def cval(t, default=None):
    return t.args[0] if t.op == "const" else default


BOOL_OPS = {"not", "and", "or", "<", "==", "is", "in", "any", "gone", "isinst", "ok", "truthy", "exc", "callable"}
ALWAYS_TRUE = {"func", "bound", "closure", "class", "lib", "module"}


def is_bool(t):
    return t.op in BOOL_OPS or (t.op == "const" and isinstance(t.args[0], bool))


# ---------------------------------------------------------------- Boolean constructors

TRUE_OBJS = set()      # objects of classes that define no truth value: always true


def truth(t):
    op = t.op
    if op == "obj" and t in TRUE_OBJS:
        return TRUE
    if op == "const":
        return TRUE if t.args[0] else FALSE
    if op in BOOL_OPS:
        return t
    if op == "tuple" or op == "list" or op == "set":
        if any(a.op == "star" for a in t.args):
            return TRUE if any(a.op != "star" for a in t.args) else mk("truthy", t)
        return TRUE if t.args else FALSE
    if op == "dict":
        return TRUE if t.args else FALSE
    if op == "build":
        return any_of(t)
    if op in ("sorted", "rev"):
        return truth(t.args[0])
    if op == "ite":
        c, a, b = t.args
        return bor(band(c, truth(a)), band(bnot(c), truth(b)))
    if op in ALWAYS_TRUE:
        return TRUE
    if op == "call" and t.args[0] == "len":
        return truth(t.args[1])
    if op == "call" and t.args[0] in ("re.compile", "open", "pathlib.Path", "pathlib.Path.home"):
        return TRUE
    if op == "cat":
        if any(p.op == "const" and p.args[0] for p in t.args):
            return TRUE
    if op == "minus":
        return mk("truthy", t)
    return mk("truthy", t)


_bnot_memo = {}


def bnot(t):
    r = _bnot_memo.get(t.id)
    if r is not None:
        return r
    o = t
    t = truth(t)
    if t.op == "const":
        r = FALSE if t.args[0] else TRUE
    elif t.op == "not":
        r = t.args[0]
    elif t.op == "and":
        r = bor(*[bnot(a) for a in t.args])
    elif t.op == "or":
        r = band(*[bnot(a) for a in t.args])
    else:
        r = mk("not", t)
    _bnot_memo[o.id] = r
    return r


_nary_memo = {}


def _nary(op, args, unit, zero):
    key = (op, tuple(a.id for a in args))
    r = _nary_memo.get(key)
    if r is None:
        r = _nary_memo[key] = _nary0(op, args, unit, zero)
    return r


def _nary0(op, args, unit, zero):
    out = []
    seen = set()
    stack = list(args)
    for a in stack:
        a = truth(a)
        parts = a.args if a.op == op else (a,)
        for p in parts:
            if p is unit:
                continue
            if p is zero:
                return zero
            if p.id in seen:
                continue
            if bnot_id(p) in seen:
                return zero
            seen.add(p.id)
            out.append(p)
    # absorption: a and (a or b) -> a ; a and (not a or b) -> a and b
    dual = "or" if op == "and" else "and"
    changed = True
    while changed:
        changed = False
        ids = {p.id for p in out}
        for i, p in enumerate(out):
            if p.op != dual:
                continue
            if any(q.id in ids for q in p.args):
                out.pop(i)
                changed = True
                break
            keep = [q for q in p.args if bnot_id(q) not in ids]
            if len(keep) != len(p.args):
                new = (bor if dual == "or" else band)(*keep)
                out.pop(i)
                return _nary(op, out + [new], unit, zero)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk(op, *out)


def bnot_id(p):
    if p.op == "not":
        return p.args[0].id
    n = _table.get(("not", p))
    return n.id if n is not None else -1


def band(*args):
    return _nary("and", args, TRUE, FALSE)


def bor(*args):
    return _nary("or", args, FALSE, TRUE)


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite":
        if a.args[0] is c:
            return ite(c, a.args[1], b)
    if b.op == "ite":
        if b.args[0] is c:
            return ite(c, a, b.args[2])
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    # x if x is None else ...: ite(x is k, k, x) -> x
    if c.op in ("is", "==") and c.args[1].op == "const":
        if a is c.args[1] and b is c.args[0]:
            return b
    if c.op in ("is", "==") and c.args[0].op == "const":
        if a is c.args[0] and b is c.args[1]:
            return b
    return mk("ite", c, a, b)


def cases(t, guard=TRUE):
    """Flatten an ite tree into (guard, leaf) pairs."""
    if t.op == "ite":
        c, a, b = t.args
        return cases(a, band(guard, c)) + cases(b, band(guard, bnot(c)))
    return [(guard, t)] if guard is not FALSE else []


NEVER_NONE = {"obj", "tuple", "list", "dict", "set", "build", "cat", "fmt", "sorted", "func", "closure", "class", "bound",
              "lib", "module", "lin", "rev", "gen", "idx", "<", "==", "is", "in", "not", "and", "or", "any", "gone", "isinst", "truthy", "minus", "enumset"}
NEVER_NONE_CALLS = {"open", "len", "str", "int", "float", "bytes", "set", "list", "dict", "tuple", "sorted", "range", "os.path.join",
                    "os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.split", "os.path.normpath", "os.path.relpath",
                    "os.path.realpath", "io.BytesIO", "max", "min", "hash", "repr", "struct.unpack", "struct.pack", "requests.get",
                    "requests.head", "requests.Session", "pathlib.Path", "os.listdir", "glob.glob", "time.time", "hashlib.sha1", "re.compile"}


def never_none(t):
    if t.op == "const":
        return t.args[0] is not None
    if t.op in NEVER_NONE:
        return True
    if t.op == "call":
        return t.args[0] in NEVER_NONE_CALLS
    if t.op == "mcall":
        return t.args[1] in ("read", "lower", "upper", "strip", "rstrip", "lstrip", "replace", "split", "encode", "decode", "join", "format", "items", "keys", "values", "startswith", "endswith")
    if t.op == "fld":
        return True
    return False


def cmp(op, a, b):
    if op == "!=":
        return bnot(cmp("==", a, b))
    if op == ">":
        return cmp("<", b, a)
    if op == "<=":
        return bnot(cmp("<", b, a))
    if op == ">=":
        return bnot(cmp("<", a, b))
    if op == "is not":
        return bnot(cmp("is", a, b))
    if op == "not in":
        return bnot(cmp("in", a, b))
    # distribute over ite when a branch folds
    for x, y, left in ((a, b, True), (b, a, False)):
        if x.op == "ite":
            c, p, q = x.args
            cp = cmp(op, p, y) if left else cmp(op, y, p)
            cq = cmp(op, q, y) if left else cmp(op, y, q)
            if cp.op == "const" or cq.op == "const" or y.op == "const":
                return bor(band(c, cp), band(bnot(c), cq))
    if op == "<" and a.op == "tuple" and b.op == "tuple" and not _starred(a) and not _starred(b):
        xs, ys = a.args, b.args
        out = const(len(xs) < len(ys))
        for x, y in reversed(list(zip(xs, ys))):
            out = bor(cmp("<", x, y), band(cmp("==", x, y), out))
        return out
    if op == "==" and a.op == "tuple" and b.op == "tuple" and a.args and not _starred(a) and not _starred(b):
        if len(a.args) != len(b.args):
            return FALSE
        return band(*[cmp("==", x, y) for x, y in zip(a.args, b.args)])
    if op in ("==", "is"):
        if a.op == "const" and b.op == "const":
            va, vb = a.args[0], b.args[0]
            if op == "is":
                return const(type(va) is type(vb) and va == vb)
            try:
                return const(bool(va == vb))
            except Exception:
                return FALSE
        if a.op == "const":
            a, b = b, a
        if b.op == "const":
            v = b.args[0]
            if v is None:
                op = "is"
                if never_none(a):
                    return FALSE
            if v is True and is_bool(a):
                return a
            if v is False and is_bool(a):
                return bnot(a)
            if op == "is" and v is not None and not isinstance(v, bool):
                op = "=="
            # truthiness forms
            if v == 0 and type(v) is int and a.op == "call" and a.args[0] == "len":
                return bnot(truth(a.args[1]))
            if op == "==" and a.op in ("tuple", "list", "dict", "closure", "func", "class"):
                return FALSE
        if a is b:
            return TRUE
        if op == "==" and a.op == "tuple" and b.op == "tuple" and not _starred(a) and not _starred(b):
            if len(a.args) != len(b.args):
                return FALSE
            return band(*[cmp("==", x, y) for x, y in zip(a.args, b.args)])
        if b.op != "const" and b.id < a.id:
            a, b = b, a
        return mk(op, a, b)
    if op == "<":
        if a.op == "const" and b.op == "const":
            try:
                return const(bool(a.args[0] < b.args[0]))
            except Exception:
                return mk("<", a, b)
        if is_const(a, 0) and b.op == "call" and b.args[0] == "len":
            return truth(b.args[1])
        if is_const(b, 1) and a.op == "call" and a.args[0] == "len":
            return bnot(truth(a.args[1]))
        if is_const(b, 0) and a.op == "call" and a.args[0] == "len":
            return FALSE
        return mk("<", a, b)
    if op == "in":
        if b is NONE:
            return FALSE        # an error: nothing follows
        if b.op == "const" and isinstance(b.args[0], (tuple, frozenset)):
            b = mk("tuple", *[const(v) for v in b.args[0]])
        if b.op in ("tuple", "list", "set") and not _starred(b):
            return bor(*[cmp("==", a, x) for x in b.args])
        if b.op == "dict" and all(x.op == "pair" for x in b.args):
            return bor(*[cmp("==", a, x.args[0]) for x in b.args])
        if a.op == "const" and b.op == "const":
            try:
                return const(a.args[0] in b.args[0])
            except Exception:
                pass
        if b.op == "call" and b.args[0] in ("set", "list", "tuple", "frozenset", "iter") and len(b.args) >= 2 and isinstance(b.args[1], T):
            return cmp("in", a, b.args[1])
        if b.op == "mcall" and b.args[1] == "keys":
            return cmp("in", a, b.args[0])
        if b.op == "keys":
            return cmp("in", a, b.args[0])
        if b.op in ("sorted", "rev"):
            return cmp("in", a, b.args[0])
        return mk("in", a, b)
    return mk("cmp" + op, a, b)


def _starred(t):
    return any(x.op == "star" for x in t.args)


# ---------------------------------------------------------------- collections

def entry(loops, guard, value, key=None):
    return mk("entry", mk("loops", *loops), guard, value, key if key is not None else NONE)


def build(kind, entries):
    """Collection built by entries (loops, guard, value[, key])."""
    if kind != "group" and all(not e.args[0].args and e.args[1] is TRUE for e in entries):
        if kind == "dict":
            return mk("dict", *[mk("pair", e.args[3], e.args[2]) for e in entries])
        return mk(kind, *[e.args[2] for e in entries])
    # list(x for x in X) is X for iteration purposes; kept as build
    return mk("build", kind, *entries)


def again(old, new, outer=None):
    """Entries added to others by later loops over the same collection: their loops are told apart from the earlier ones."""
    def loops_of(e):
        return e.args[0].args if isinstance(e, T) and e.op == "entry" else ()

    def plain(l):
        return l.args[:2]
    out = list(new)
    had = [loops_of(e) for e in old]
    first = {}
    for n, e in enumerate(out):
        ls = loops_of(e)
        k = 0
        if outer is not None:
            k = next((m for m, l in enumerate(ls) if l.op == "loop" and any(l is o for o in outer)), None)
            if k is None:
                continue
        if not ls or ls[k].op != "loop":
            continue
        l = ls[k]
        if l not in first:
            same = {o[k] for o in had if len(o) > k and o[:k] == ls[:k] and o[k].op == "loop" and plain(o[k]) == plain(l)}
            first[l] = mk("loop", *l.args, mk("again", len(same))) if same else l
        out[n] = mk("entry", mk("loops", *ls[:k], first[l], *ls[k + 1:]), *e.args[1:])
    return out


def entries_of(t):
    """Entries of a collection term, or None when its structure is unknown."""
    if t.op == "build":
        return list(t.args[1:])
    if t.op in ("tuple", "list", "set"):
        if _starred(t):
            return None
        return [entry((), TRUE, v) for v in t.args]
    if t.op == "dict":
        if all(x.op == "pair" for x in t.args):
            return [entry((), TRUE, x.args[1], x.args[0]) for x in t.args]
        return None
    if t.op == "sorted" or t.op == "rev":
        return entries_of(t.args[0])
    return None


def any_of(b):
    es = entries_of(b)
    if es is None:
        return mk("truthy", b)
    out = []
    for e in es:
        loops, g = e.args[0], e.args[1]
        if g is FALSE:
            continue
        if not loops.args:
            out.append(g)
        else:
            out.append(mk("any", loops, g))
    return bor(*out)


# ---------------------------------------------------------------- generic traversal

def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def contains(t, x):
    return any(s is x for s in subterms(t))


def mentions(t, pred):
    return any(pred(s) for s in subterms(t))


def rewrite(t, f, memo=None):
    """Bottom-up rewriting: f(term with rewritten args) -> term."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if any(isinstance(a, T) for a in t.args):
        args = tuple(rewrite(a, f, memo) if isinstance(a, T) else a for a in t.args)
        n = rebuild(t.op, args) if args != t.args else t
    else:
        n = t
    n = f(n)
    memo[t.id] = n
    return n


def rebuild(op, args):
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "not":
        return bnot(args[0])
    if op == "ite":
        return ite(*args)
    if op in ("<", "==", "is", "in"):
        return cmp(op, *args)
    if op == "truthy":
        return truth(args[0])
    if op == "cat":
        return cat(*args)
    if op == "build":
        return build(args[0], args[1:])
    if op == "bin":
        return binop(*args)
    return mk(op, *args)


def subst(t, mapping):
    """Replace subterms (by identity) according to mapping {T: T}."""
    m = {k.id: v for k, v in mapping.items()}
    return rewrite(t, lambda x: m.get(x.id, x))


# ---------------------------------------------------------------- strings

def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "const" and isinstance(q.args[0], (str, bytes)):
                if not q.args[0]:
                    continue
                if out and out[-1].op == "const" and type(out[-1].args[0]) is type(q.args[0]):
                    out[-1] = const(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("cat", *out)


def fmt(x, spec=""):
    spec = spec if isinstance(spec, T) else const(spec)
    if is_const(spec, "") or is_const(spec, "s"):
        if x.op == "const" and not isinstance(x.args[0], str):
            return const(str(x.args[0])) if not isinstance(x.args[0], bytes) else mk("fmt", x, spec)
        return x
    if x.op == "const" and spec.op == "const":
        try:
            return const(format(x.args[0], spec.args[0]))
        except Exception:
            pass
    return mk("fmt", x, spec)


def is_str(t):
    return (t.op == "const" and isinstance(t.args[0], (str, bytes))) or t.op in ("cat", "fmt") \
        or (t.op == "call" and t.args[0] in ("str", "os.path.join", "os.path.dirname", "os.path.basename", "os.path.normpath", "os.path.relpath", "os.path.realpath", "repr")) \
        or (t.op == "mcall" and t.args[1] in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "format")) \
        or (t.op == "bin" and t.args[0] == "+" and (is_str(t.args[1]) or is_str(t.args[2])))


def parse_percent(s):
    """Split a %-format into literal strings and (conv spec) markers; None if unsupported."""
    out, i = [], 0
    lit = ""
    isb = isinstance(s, bytes)
    if isb:
        s = s.decode("latin-1")
    while i < len(s):
        c = s[i]
        if c != "%":
            lit += c
            i += 1
            continue
        i += 1
        if i >= len(s):
            return None
        if s[i] == "%":
            lit += "%"
            i += 1
            continue
        j = i
        while j < len(s) and s[j] in "#0- +123456789.":
            j += 1
        if j >= len(s) or s[j] not in "diouxXeEfFgGcrsa":
            return None
        spec = s[i:j]
        conv = s[j]
        if conv in "sd" and spec == "":
            spec = ""
        elif conv in "diu":
            spec = spec + "d"
        elif conv == "s":
            spec = spec
        else:
            spec = spec + conv
        out.append(lit.encode("latin-1") if isb else lit)
        lit = ""
        out.append(("spec", spec))
        i = j + 1
    out.append(lit.encode("latin-1") if isb else lit)
    return out


def format_template(template, args, kwargs):
    """str.format over a template term (constant, or cat with symbolic pieces)."""
    marks = {}
    if template.op == "const":
        s = template.args[0]
    elif template.op == "cat":
        s = ""
        for p in template.args:
            if p.op == "const":
                s += p.args[0]
            else:
                ch = chr(0xE000 + len(marks))
                marks[ch] = p
                s += ch
    else:
        return None

    def sym(text):
        parts, lit = [], ""
        for ch in text:
            if ch in marks:
                parts.append(const(lit))
                parts.append(marks[ch])
                lit = ""
            else:
                lit += ch
        parts.append(const(lit))
        return cat(*parts)

    try:
        pieces = list(string.Formatter().parse(s))
    except Exception:
        return None
    out, auto = [], 0
    for lit, name, spec, conv in pieces:
        if lit:
            out.append(sym(lit))
        if name is None:
            continue
        if name == "":
            if auto >= len(args):
                return None
            val = args[auto]
            auto += 1
        elif name.isdigit():
            if int(name) >= len(args):
                return None
            val = args[int(name)]
        elif name in kwargs:
            val = kwargs[name]
        else:
            return None
        if conv == "r":
            val = mk("call", "repr", val)
        out.append(fmt(val, sym(spec or "")))
    return cat(*out)


# ---------------------------------------------------------------- arithmetic

def binop(op, a, b):
    if a.op == "const" and b.op == "const":
        va, vb = a.args[0], b.args[0]
        try:
            r = {"+": lambda: va + vb, "-": lambda: va - vb, "*": lambda: va * vb, "//": lambda: va // vb, "%": lambda: va % vb,
                 "&": lambda: va & vb, "|": lambda: va | vb, "^": lambda: va ^ vb, "<<": lambda: va << vb, ">>": lambda: va >> vb,
                 "**": lambda: va ** vb, "/": lambda: va / vb}[op]()
            if not (isinstance(r, (str, bytes)) and len(r) > 10000) and not (isinstance(r, int) and r.bit_length() > 4096):
                return const(r)
        except Exception:
            pass
    if op == "+":
        if is_str(a) or is_str(b):
            return cat(a, b)
        if is_const(b, 0):
            return a
        if is_const(a, 0):
            return b
        if a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.args + b.args))
    if op == "-" and is_const(b, 0):
        return a
    if op == "%" and a.op == "const" and isinstance(a.args[0], (str, bytes)):
        pieces = parse_percent(a.args[0])
        if pieces is not None:
            n = sum(1 for p in pieces if isinstance(p, tuple))
            vals = list(b.args) if b.op == "tuple" else [b]
            if n == len(vals) and not any(v.op == "star" for v in vals):
                it = iter(vals)
                return cat(*[fmt(next(it), p[1]) if isinstance(p, tuple) else const(p) for p in pieces])
    for x, y, left in ((a, b, True), (b, a, False)):
        if x.op == "ite" and y.op == "const":
            c, p, q = x.args
            return ite(c, binop(op, p, y) if left else binop(op, y, p), binop(op, q, y) if left else binop(op, y, q))
    return mk("bin", op, a, b)


def lin(t):
    """Linear form {monomial T (or None for constant): coeff} over integers."""
    out = {}

    def add(m, c):
        k = m
        out[k] = out.get(k, 0) + c
        if out[k] == 0:
            del out[k]

    def go(x, c):
        if x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
            add(None, c * x.args[0])
        elif x.op == "bin" and x.args[0] == "+":
            go(x.args[1], c)
            go(x.args[2], c)
        elif x.op == "bin" and x.args[0] == "-":
            go(x.args[1], c)
            go(x.args[2], -c)
        elif x.op == "bin" and x.args[0] == "*" and is_const(x.args[1]) and isinstance(x.args[1].args[0], int):
            go(x.args[2], c * x.args[1].args[0])
        elif x.op == "bin" and x.args[0] == "*" and is_const(x.args[2]) and isinstance(x.args[2].args[0], int):
            go(x.args[1], c * x.args[2].args[0])
        elif x.op == "bin" and x.args[0] == "<<" and is_const(x.args[2]) and isinstance(x.args[2].args[0], int):
            go(x.args[1], c << x.args[2].args[0])
        elif x.op == "neg":
            go(x.args[0], -c)
        elif x.op == "bin" and x.args[0] == "*":
            ls, rs = lin(x.args[1]), lin(x.args[2])
            if len(ls) <= 4 and len(rs) <= 4 and (len(ls) > 1 or len(rs) > 1):
                for ma, ca in ls.items():
                    for mb, cb in rs.items():
                        if ma is None and mb is None:
                            add(None, c * ca * cb)
                        elif ma is None or mb is None:
                            add(ma if mb is None else mb, c * ca * cb)
                        else:
                            p, q = sorted((ma, mb), key=lambda z: z.id)
                            add(mk("mul", p, q), c * ca * cb)
            else:
                p, q = sorted((x.args[1], x.args[2]), key=lambda z: z.id)
                add(mk("mul", p, q), c)
        else:
            add(x, c)
    go(t, 1)
    return out


def lin_eq(a, b):
    return lin(a) == lin(b)


# ---------------------------------------------------------------- guards: decision over the finite partition

class TooLarge(Exception):
    pass


_atoms_memo = {}


def _atoms_of(t):
    r = _atoms_memo.get(t.id)
    if r is None:
        if t.op == "const":
            r = {}
        elif t.op in ("and", "or"):
            r = {}
            for a in t.args:
                r.update(_atoms_of(a))
        elif t.op == "not":
            r = _atoms_of(t.args[0])
        else:
            r = {t.id: t}
        _atoms_memo[t.id] = r
    return r


def _atoms(t, out):
    out.update(_atoms_of(t))


def _subject(a):
    """(subject, kind, const) for atoms about a single term versus a constant."""
    if a.op in ("==", "is") and a.args[1].op == "const":
        return a.args[0], "eq", a.args[1].args[0]
    if a.op == "<" and a.args[1].op == "const" and isinstance(a.args[1].args[0], (int, float)):
        return a.args[0], "lt", a.args[1].args[0]
    if a.op == "<" and a.args[0].op == "const" and isinstance(a.args[0].args[0], (int, float)):
        return a.args[1], "gt", a.args[0].args[0]
    if a.op == "truthy":
        return a.args[0], "truthy", None
    if a.op == "isinst":
        return a.args[0], "isinst", a.args[1]
    return None


def _lt(a, b):
    return a < b


class _Region:
    __slots__ = ("kind", "val", "flags")

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def assignments(formulas, limit=1 << 16):
    """Yield dicts atom.id -> bool covering every consistent valuation class of the atoms."""
    atoms = {}
    for f in formulas:
        _atoms(f, atoms)
    groups, free = {}, []
    for a in atoms.values():
        s = _subject(a)
        if s is None:
            free.append(a)
        else:
            groups.setdefault(s[0].id, []).append((a,) + s[1:])
    choices = []
    # two-sided orderings between the same two terms are related
    pairs = {}
    rest = []
    for a in free:
        if a.op in ("<", "=="):
            k = frozenset((a.args[0].id, a.args[1].id))
            pairs.setdefault(k, []).append(a)
        else:
            rest.append(a)
    for k, al in pairs.items():
        opts = []
        ids = sorted(k)
        for rel in ("lt", "eq", "gt"):
            v = {}
            for a in al:
                if a.op == "==":
                    v[a.id] = rel == "eq"
                else:
                    first = a.args[0].id == ids[0]
                    v[a.id] = (rel == "lt") if first else (rel == "gt")
            opts.append(v)
        if all(a.op == "==" for a in al):
            opts = opts[:2]
        choices.append(_dedupe(opts))
    for a in rest:
        choices.append([{a.id: True}, {a.id: False}])
    for sid, al in groups.items():
        eqs = []
        for a, kind, c in al:
            if kind == "eq" and not any(type(c) is type(x) and c == x for x in eqs):
                eqs.append(c)
        nums = sorted({c for a, kind, c in al if kind in ("lt", "gt") or (kind == "eq" and _num(c))})
        has_order = any(kind in ("lt", "gt") for a, kind, c in al)
        regions = [("val", c) for c in eqs if not _num(c)]
        if has_order:
            prev = None
            for c in nums:
                # integers: skip empty gap between consecutive integers
                if prev is None or not (isinstance(prev, int) and isinstance(c, int) and c - prev <= 1):
                    regions.append(("between", prev, c))
                regions.append(("val", c))
                prev = c
            regions.append(("between", prev, None))
        else:
            regions += [("val", c) for c in nums]
            regions.append(("other",))
        opts = []
        truthies = [a for a, kind, c in al if kind == "truthy"]
        insts = [(a, c) for a, kind, c in al if kind == "isinst"]
        for r in regions:
            v, unresolved = {}, []
            for a, kind, c in al:
                if kind == "eq":
                    v[a.id] = r[0] == "val" and type(r[1]) is type(c) and r[1] == c or (r[0] == "val" and _num(c) and _num(r[1]) and r[1] == c)
                elif kind == "lt":
                    if r[0] == "val":
                        v[a.id] = _num(r[1]) and r[1] < c
                    else:
                        v[a.id] = r[2] is not None and r[2] <= c
                elif kind == "gt":
                    if r[0] == "val":
                        v[a.id] = _num(r[1]) and r[1] > c
                    else:
                        v[a.id] = r[1] is not None and r[1] >= c
                elif kind == "truthy":
                    if r[0] == "val":
                        v[a.id] = bool(r[1])
                    elif r[0] == "between" and (r[1] is not None and r[1] >= 0 or r[2] is not None and r[2] <= 0):
                        v[a.id] = True
                    else:
                        unresolved.append([{a.id: True}, {a.id: False}])
                elif kind == "isinst":
                    pass
            if insts:
                if r[0] == "val":
                    name = type(r[1]).__name__
                    for a, c in insts:
                        v[a.id] = name in c.split("|") or (name == "bool" and "int" in c.split("|"))
                elif r[0] == "between":
                    for a, c in insts:
                        v[a.id] = "int" in c.split("|")
                else:
                    ex = []
                    names = sorted({n for a, c in insts for n in c.split("|")})
                    for n in names + [None]:
                        ex.append({a.id: n is not None and n in c.split("|") for a, c in insts})
                    unresolved.append(_dedupe(ex))
            for combo in itertools.product(*unresolved) if unresolved else [()]:
                w = dict(v)
                for x in combo:
                    w.update(x)
                opts.append(w)
        choices.append(_dedupe(opts))
    n = 1
    for c in choices:
        n *= len(c)
        if n > limit:
            raise TooLarge()
    for combo in itertools.product(*choices):
        v = {}
        for c in combo:
            v.update(c)
        yield v


def _dedupe(opts):
    out = []
    for o in opts:
        if o not in out:
            out.append(o)
    return out


def evaluate(t, v, memo=None):
    op = t.op
    if op == "const":
        return bool(t.args[0])
    if op == "not":
        return not evaluate(t.args[0], v, memo)
    if op not in ("and", "or"):
        return v[t.id]
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        if op == "and":
            r = all(evaluate(a, v, memo) for a in t.args)
        else:
            r = any(evaluate(a, v, memo) for a in t.args)
        memo[t.id] = r
    return r


def entails(a, b):
    """True/False when decided, None when the partition is too large."""
    a, b = truth(a), truth(b)
    if b is TRUE or a is FALSE or a is b:
        return True
    try:
        for v in assignments([a, b]):
            if evaluate(a, v) and not evaluate(b, v):
                return False
        return True
    except TooLarge:
        return None


def equiv(a, b):
    a, b = truth(a), truth(b)
    if a is b:
        return True
    try:
        for v in assignments([a, b]):
            if evaluate(a, v) != evaluate(b, v):
                return False
        return True
    except TooLarge:
        return None


def satisfiable(a):
    a = truth(a)
    try:
        return any(evaluate(a, v) for v in assignments([a]))
    except TooLarge:
        return None


def atoms(t):
    out = {}
    _atoms(truth(t), out)
    return list(out.values())


def project(f, keep):
    """Existentially quantify the atoms of f for which keep(atom) is false; returns a formula over kept atoms."""
    f = truth(f)
    drop = [a for a in atoms(f) if not keep(a)]
    out = f
    for a in drop:
        out = bor(subst(out, {a: TRUE}), subst(out, {a: FALSE}))
    return out


# ---------------------------------------------------------------- display

def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)  # noqa
    op, a = t.op, t.args
    if op == "const":
        return repr(a[0])
    if op == "param":
        return str(a[0])
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "index":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return f"{s(a[0])}[{'' if a[1] is NONE else s(a[1])}:{'' if a[2] is NONE else s(a[2])}]"
    if op == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if op in ("<", "==", "is", "in"):
        return f"({s(a[0])} {op} {s(a[1])})"
    if op == "not":
        return f"not {s(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "truthy":
        return s(a[0])
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op in ("call",):
        return f"{a[0]}({', '.join(s(x) for x in a[1:] if isinstance(x, T))})"
    if op == "mcall":
        return f"{s(a[0])}.{a[1]}({', '.join(s(x) for x in a[2:] if isinstance(x, T))})"
    if op == "cat":
        return "f'" + "".join(x.args[0] if x.op == "const" and isinstance(x.args[0], str) else "{" + s(x) + "}" for x in a) + "'"
    if op == "fmt":
        return f"{s(a[0])}:{cval(a[1], '?')}"
    if op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if op in ("list", "set"):
        return f"{op}[" + ", ".join(s(x) for x in a) + "]"
    if op == "elem":
        return f"each({s(a[0])})"
    if op == "obj":
        return f"{a[0]}({', '.join(s(x) for x in a[2:] if isinstance(x, T))})"
    if op == "build":
        return f"{a[0]}<" + "; ".join(s(x) for x in a[1:]) + ">"
    if op == "entry":
        return f"{s(a[2])} for {s(a[0])} if {s(a[1])}"
    if op == "loops":
        return ", ".join(s(x) for x in a)
    return f"{op}({', '.join(s(x) for x in a)})"
