"""Query helpers shared by the rules."""
import re as _re
from . import terms as tm
from .terms import T, mk, const, TRUE, FALSE, NONE, band, bor, bnot, ite, truth, cmp, is_const
from .interp import Interp, strip_epoch
from . import iters
from .program import AnalysisBroken, Func, Class, exc_ancestors


class Ctx:
    def __init__(self, prog, report, tier):
        self.prog, self.r, self.tier = prog, report, tier
        self.thorough = tier == "thorough"
        self._cache = {}

    def part(self, f, *args):
        """Run one part of a check; a part whose anchor vanished or that fails is undecided, the others still count."""
        try:
            return f(self, *args)
        except AnalysisBroken as e:
            self.r.und("analysis anchor not found", f.__name__, str(e))
        except RecursionError:
            self.r.und("analysis gave up", f.__name__, "recursion limit")
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.r.und("internal error of the analyser", f.__name__, f"{type(e).__name__}: {e} ({tb.filename.split('/')[-1]}:{tb.lineno})")

    def run(self, root, name=None, **opts):
        """Analyse one public root (memoised)."""
        args = opts.pop("args", None)
        self_type = opts.pop("self_type", None)
        steps = opts.pop("max_steps", 200000)
        collect = opts.pop("collect", False)
        f = self.prog.func(root) if isinstance(root, str) else root
        i = Interp(self.prog, **opts)
        i.run(f, args=args, self_type=self_type, max_steps=steps, collect=collect)
        self.r.roots(name or (root if isinstance(root, str) else f.qual), i)
        for qual in sorted(i.inlined):
            self.once(qual)
        return i

    def once(self, qual):
        """A one-shot iterator bound to a variable is not consumed a second time in the functions analysed."""
        if qual in self._cache:
            return
        self._cache[qual] = True
        for f in [f for f in self.prog.funcs.values() if f.qual == qual]:
            for line, name in iters.reuse(f.node):
                self.r.bad(f"iterator {name} is consumed once", f"{f.module.rel}:{line} in {qual.split('.', 1)[-1]}", "consumed again after it has been exhausted")


# ---------------------------------------------------------------- terms

def strip_uid(t, memo=None):
    """Forget which execution of a call produced a value."""
    def f(x):
        if x.op in ("call", "mcall", "popped") and x.args and isinstance(x.args[-1], T) and x.args[-1].op in ("uid", "epoch"):
            return mk(x.op, *x.args[:-1])
        if x.op == "obj" and len(x.args) > 1:
            return mk("obj", x.args[0], 0, *x.args[2:])
        return x
    return tm.rewrite(t, f, memo if memo is not None else {})


def norm(t):
    """Path normal form: joins, f-strings and Path objects with the same text are the same term."""
    return tm.rewrite(strip_epoch(t), _norm1, _norm_memo)


_norm_memo = {}


def _norm1(x):
    if x.op == "call":
        n = x.args[0]
        if n == "os.path.join":
            parts = []
            for a in x.args[1:]:
                if not isinstance(a, T):
                    return x
                if is_const(a, ""):
                    continue
                if a.op == "const" and isinstance(a.args[0], str) and a.args[0].startswith("/"):
                    parts = [a]
                    continue
                if parts and not (parts[-1].op == "const" and isinstance(parts[-1].args[0], str) and parts[-1].args[0].endswith("/")):
                    parts.append(const("/"))
                parts.append(a)
            r = tm.cat(*parts)
            return r.args[0] if r.op == "cat" and len(r.args) == 1 else r
        if n in ("pathlib.Path", "pathlib.PurePath", "os.fspath") and len(x.args) == 2:
            return x.args[1]
        if n in ("pathlib.Path", "pathlib.PurePath"):
            return _norm1(mk("call", "os.path.join", *x.args[1:]))
    if x.op == "cat" and len(x.args) == 1:
        return x.args[0]
    if x.op == "attr" and x.args[1] == "parent" and (x.args[0].op in ("cat",)):
        return mk("call", "os.path.dirname", x.args[0])
    return x


def same(a, b):
    return a is b or norm(a) is norm(b) or strip_uid(norm(a)) is strip_uid(norm(b))


def as_text(t):
    """Read a `+` of unknown operands as string concatenation, then path normal form."""
    def f(x):
        return tm.cat(*x.args[1:]) if x.op == "bin" and x.args[0] == "+" else x
    return norm(tm.rewrite(norm(t), f))


def assume(t, m):
    """Rewrite under an assignment of atomic conditions {atom: bool}."""
    return tm.rewrite(t, lambda x: (TRUE if m[x] else FALSE) if x in m else x)


def never(g, budget=4000):
    """Can a condition never hold? Decided by splitting on its atoms, independent of each other; None if too large."""
    left = [budget]

    def go(g):
        if g is FALSE:
            return True
        if g.op != "and" and g.op != "or" and g.op != "not":
            return False
        left[0] -= 1
        if left[0] < 0:
            raise TooManyCases
        # conjuncts that are atoms are fixed
        fixed = {}
        for x in g.args if g.op == "and" else [g]:
            if x.op == "not" and x.args[0].op not in ("and", "or"):
                fixed[x.args[0]] = False
            elif x.op not in ("and", "or", "not", "const"):
                fixed[x] = True
        if fixed:
            rest = assume(band(*[x for x in (g.args if g.op == "and" else [g]) if not (x in fixed or x.op == "not" and x.args[0] in fixed)]), fixed)
            return go(rest) if rest is not TRUE else False
        a = tm.atoms(g)[0] if isinstance(tm.atoms(g), list) else next(iter(tm.atoms(g)))
        return go(assume(g, {a: True})) and go(assume(g, {a: False}))
    try:
        return go(truth(g))
    except (TooManyCases, RecursionError):
        return None


class TooManyCases(Exception):
    pass


def implies(g, h):
    """tm.entails, then splitting for large conditions."""
    v = tm.entails(g, h)
    return never(band(g, bnot(h))) if v is None else v


def ite_atoms(*ts):
    out = []
    def f(x):
        if x.op == "ite":
            for a in tm.atoms(x.args[0]):
                if a not in out:
                    out.append(a)
        return x
    for t in ts:
        tm.rewrite(t, f)
    return out


def by_cases(ts, test, under=TRUE, limit=6):
    """test(*terms) under every assignment of the conditions inside the terms that is consistent with `under`."""
    ats = ite_atoms(*ts)[:limit]
    for n in range(1 << len(ats)):
        m = {a: bool(n >> k & 1) for k, a in enumerate(ats)}
        if not tm.satisfiable(band(under, *[a if v else bnot(a) for a, v in m.items()])):
            continue
        if not test(*[assume(t, m) for t in ts]):
            return False
    return True


def same_cases(a, b, under=TRUE):
    """Do two values agree wherever `under` holds, whatever the conditions inside them?"""
    return same(a, b) or by_cases([norm(a), norm(b)], same, under)


def equiv_cases(g, h, under=TRUE):
    """Are two conditions equivalent, with paths in normal form and conditional subterms split?"""
    g, h, u = norm(g), norm(h), norm(under)
    return tm.equiv(band(u, g), band(u, h)) or by_cases([g, h, u], lambda x, y, z: tm.equiv(norm(band(z, x)), norm(band(z, y))))


def entails_cases(g, h):
    g, h = norm(g), norm(h)
    return tm.entails(g, h) or by_cases([g, h], lambda x, y: tm.entails(norm(x), norm(y)))


def lenof(x):
    return mk("call", "len", x)


def is_len(t, x=None):
    return isinstance(t, T) and t.op == "call" and t.args[0] == "len" and (x is None or t.args[1] is x)


def pieces(t):
    t = norm(t)
    return list(t.args) if t.op == "cat" else [t]


def cat_consts(t):
    """Constant text pieces of a string term."""
    return [p.args[0] for p in pieces(t) if p.op == "const"]


def text(t):
    return tm.show(t, 8)


def unloop(t):
    """Loop terms without their modifiers."""
    return tm.rewrite(t, lambda x: mk("loop", x.args[0], x.args[1]) if x.op == "loop" else x)


# ---------------------------------------------------------------- events

def evs(i, kind=None, name=None, pred=None):
    out = []
    for e in i.events:
        if kind is not None and e.kind != kind:
            continue
        if name is not None:
            if callable(name):
                if not name(e.name):
                    continue
            elif isinstance(name, (set, tuple, list)):
                if e.name not in name:
                    continue
            elif e.name != name:
                continue
        if pred is not None and not pred(e):
            continue
        out.append(e)
    return out


def calls(i, *names):
    return [e for e in i.events if e.kind == "call" and e.name in names]


def mcalls(i, *names):
    return [e for e in i.events if e.kind == "mcall" and e.name in names]


def entered(i, *shorts):
    """Inlined or opaque calls of package functions by short name."""
    return [e for e in i.events if (e.kind == "enter" and e.name in shorts) or (e.kind == "call" and e.name.startswith("repo:") and e.name[5:] in shorts)]


WRITE_MODES = set("wax+")


def open_mode(e):
    m = e.arg(1, "mode", const("r"))
    return m


def is_write_open(e):
    if e.kind != "call" or e.name not in ("open", "io.open"):
        return False
    m = open_mode(e)
    leaves = [l for _, l in tm.cases(m)]
    return any(not (l.op == "const" and isinstance(l.args[0], str)) or set(l.args[0]) & WRITE_MODES for l in leaves)


def write_opens(i):
    return [e for e in i.events if is_write_open(e)]


def handlers_of(i, e):
    """Try regions whose body encloses the event, innermost first: [TryInfo]."""
    return [i.tries[tid] for tid, part in reversed(e.zones) if part == "body"]


def in_zone(e, tid, part=None):
    return any(z[0] == tid and (part is None or z[1] == part or (part == "handler" and z[1].startswith("handler"))) for z in e.zones)


def catches(prog, names, exc):
    """Does a handler naming `names` catch exception class `exc` (a name)?"""
    anc = set(exc_ancestors(prog, exc))
    alias = {"IOError": "OSError", "EnvironmentError": "OSError"}
    return any(alias.get(n.split(".")[-1], n.split(".")[-1]) in anc for n in names)


def guard_has(g, pred):
    return any(pred(a) for a in tm.atoms(g))


def bare(a):
    """The tested value of an atomic condition."""
    return a.args[0] if a.op == "truthy" else a


def is_call(t, *names):
    return isinstance(t, T) and t.op == "call" and t.args[0] in names


def subst_atoms(g, f):
    """Replace atomic conditions: f(tested value) is the new condition or None."""
    m = {}
    for a in tm.atoms(g):
        v = f(bare(a))
        if v is not None:
            m[a] = v
    return tm.rewrite(g, lambda x: m.get(x, x)) if m else g


def before(a, b):
    return a.seq < b.seq


def implied(g, c):
    return tm.entails(g, c)


def count_ev(evl):
    return len({(e.loc, e.name) for e in evl})


# ---------------------------------------------------------------- sequences

def canon(t):
    """Indexed iteration over range(len(c)) is iteration over c."""
    def f(x):
        if x.op == "index" and x.args[1].op == "elem":
            k = _whole(x.args[1].args[0])
            if k is not None and same(k, x.args[0]):
                return mk("elem", x.args[0], x.args[1].args[1])
        if x.op == "loop":
            k = _whole(x.args[0])
            if k is not None:
                return mk("loop", k, *x.args[1:])
        return x
    return tm.rewrite(t, f)


def _whole(r):
    if isinstance(r, T) and r.op == "rng" and is_const(r.args[0], 0) and (len(r.args) < 3 or is_const(r.args[2], 1)) and is_len(r.args[1]):
        return r.args[1].args[1]
    return None


def parts(loops, g, v):
    """Flatten a written value into its sequence of parts: [(loops, guard, value)]."""
    if v.op == "join" and (is_const(v.args[0], b"") or is_const(v.args[0], "")):
        es = tm.entries_of(v.args[1])
        if es is not None:
            out = []
            for e in es:
                out += parts(tuple(loops) + e.args[0].args, band(g, e.args[1]), e.args[2])
            return out
    return [(tuple(loops), g, v)]


def written(i, f):
    """Everything written to file object term f, in program order: [(loops, guard, value, event)]."""
    out = []
    for e in i.events:
        if e.kind == "call" and e.name == "print" and "file" in e.kw and strip_epoch(e.kw["file"]) is strip_epoch(f):
            xs = []
            for a in e.args:
                xs += ([e.kw.get("sep", const(" "))] if xs else []) + [a]
            out += [(*x, e) for x in parts(e.loops, e.guard, tm.cat(*xs, e.kw.get("end", const("\n"))))]
        if e.kind != "mcall" or not (e.recv is f or e.recv is not None and strip_epoch(e.recv) is strip_epoch(f)):
            continue
        if e.name == "write":
            out += [(*x, e) for x in parts(e.loops, e.guard, e.args[0])]
        elif e.name == "writelines":
            es = tm.entries_of(e.args[0])
            if es is None:
                out.append((e.loops, e.guard, e.args[0], e))
            else:
                for n in es:
                    out += [(*x, e) for x in parts(e.loops + n.args[0].args, band(e.guard, n.args[1]), n.args[2])]
    return out


def plain_over(loops, coll, skip=()):
    """Do the loops (minus `skip`) iterate once over the whole of `coll`, in order?"""
    ls = [canon(l) for l in loops if l not in skip]
    return len(ls) == 1 and ls[0].op == "loop" and len(ls[0].args) == 2 and same(ls[0].args[0], coll)


def cut_short(i, loops):
    """Places where one of the loops is left before its end."""
    loops = list(loops)
    return [e for e in i.events if e.kind == "break" and e.loops and any(list(e.loops) == loops[:k + 1] for k in range(len(loops)))] 


def elem_of(v, coll):
    return v.op == "elem" and same(v.args[0], coll)


def subterms(t):
    out = []
    tm.rewrite(t, lambda x: (out.append(x), x)[1])
    return out


def new_attrs(i, obj):
    """Attributes given to an object: {name: final value, conditional on what led to it}."""
    out, base = {}, TRUE
    for e in i.events:
        if e.kind == "new" and e.recv is obj:
            base = e.guard
        if e.kind == "setattr" and e.recv is obj:
            g = under(e.guard, base)
            out[e.name] = e.args[0] if e.name not in out else ite(g, e.args[0], out[e.name])
    return out


def under(g, base):
    """The condition g once `base` is known to hold, without the conditions of `base` where possible."""
    if base is TRUE:
        return g
    ats = tm.atoms(base)
    if len(ats) > 8:
        return g
    for n in range(1 << len(ats)):
        m = {a: not (n >> k & 1) for k, a in enumerate(ats)}
        if assume(base, m) is TRUE:
            h = assume(g, m)
            if tm.equiv(band(base, g), band(base, h)):
                return h
    return g


def repo_call(t, *shorts):
    """Is the term the result of an opaque call of one of these package functions?"""
    return isinstance(t, T) and t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("repo:") and \
        any(t.args[0].endswith("." + s) or t.args[0] == "repo:" + s for s in shorts)


_PURE = {"min", "max", "abs", "len", "int", "divmod", "round", "sum"}


def closed(t, leaf):
    """Is t arithmetic (and conditions) over leaves only?  leaf(x) accepts the atoms of the expression."""
    if not isinstance(t, T) or is_const(t) or leaf(t):
        return True
    if t.op in ("bin", "neg", "ite", "not", "and", "or", "==", "<", "is", "truthy", "exc", "invert"):
        return all(closed(a, leaf) for a in t.args)
    if t.op == "call" and t.args[0] in _PURE and t.args[0] != "sum":
        return all(closed(a, leaf) for a in t.args[1:])
    return False


def final_attr(i, obj, name):
    """Value of an attribute when the analysed function returns normally (None if not set)."""
    v = i.st.store.get(("f", obj, name))
    return None if v is None else i.snap(v)


# ---------------------------------------------------------------- binary data

import struct as _struct


def fld_place(t):
    """(read term, byte offset, struct code, width, byte order) of a decoded field, or None."""
    if t.op != "fld" or not isinstance(t.args[0], T) or t.args[0].op != "const":
        return None
    return fmt_place(t.args[0].args[0], t.args[1], t.args[2])


def fmt_place(f, k, data):
    if isinstance(f, bytes):
        f = f.decode()
    k = k.args[0] if isinstance(k, T) else k
    order = f[0] if f[:1] in "<>=!@" and f else "@"
    body = f[1:] if f[:1] in "<>=!@" else f
    n, j, num = 0, 0, ""
    for ch in body:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        cnt = int(num) if num else 1
        num = ""
        if ch in "sp":
            w, reps = cnt, 1
        else:
            w, reps = _struct.calcsize(order + ch), cnt
        if ch == "x":
            j += cnt
            continue
        for _ in range(reps):
            if order == "@":
                j = _struct.calcsize(order + body[:0] + f"{j}x0{ch}") if ch not in "sp" else j
            if n == k:
                return data, j, ch, w, order
            n += 1
            j += w
    return None


def bits(t, place):
    """Bits of an integer term, lowest first, as a list of 0, 1 or (source, byte, bit); None if not a composition of fixed bits. place(fld) gives (source, byte offset) of a field's data."""
    t = norm(t)
    if t.op == "const" and isinstance(t.args[0], (int, bool)):
        v = int(t.args[0])
        return [(v >> b) & 1 for b in range(v.bit_length())] if v >= 0 else None
    if t.op == "fld":
        p = fld_place(t)
        if p is None:
            return None
        data, off, ch, w, order = p
        if ch not in "BHILQNc?" or order in "@=":
            return None
        src = place(data)
        if src is None:
            return None
        s, base = src
        by = range(w) if order == "<" else range(w - 1, -1, -1)
        return [(s, base + off + b, k) for b in by for k in range(8)]
    if t.op == "call" and t.args[0] in ("int", "builtins.int") and len(t.args) == 2:
        return bits(t.args[1], place)
    if t.op == "index" and t.args[0].op == "call" and t.args[0].args[0] == "divmod" and t.args[1].op == "const" and t.args[1].args[0] in (0, 1):
        return bits(tm.binop("%" if t.args[1].args[0] else "//", t.args[0].args[1], t.args[0].args[2]), place)
    if t.op == "index" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int) and t.args[1].args[0] >= 0:
        src = place(t.args[0])
        return None if src is None else [(src[0], src[1] + t.args[1].args[0], k) for k in range(8)]
    if t.op != "bin":
        return None
    o, a, b = t.args[0], t.args[1], t.args[2]
    x = bits(a, place)
    if x is None:
        return None
    if o in ("<<", ">>", "*", "//", "%"):
        if b.op != "const" or not isinstance(b.args[0], int) or b.args[0] < 0:
            if o == "*" and a.op == "const":
                a, b = b, a
                x = bits(a, place)
                if x is None or b.op != "const":
                    return None
            else:
                return None
        n = b.args[0]
        if o in ("*", "//", "%"):
            if n <= 0 or n & (n - 1):
                return None
            n = n.bit_length() - 1
            if o == "%":
                return trim(x[:n])
            o = "<<" if o == "*" else ">>"
        return trim(([0] * n + x) if o == "<<" else x[n:])
    y = bits(b, place)
    if y is None:
        return None
    m = max(len(x), len(y))
    x, y = x + [0] * (m - len(x)), y + [0] * (m - len(y))
    out = []
    for p, q in zip(x, y):
        if "mix" in (p, q) or o == "+" and "mix" in out:
            out.append("mix" if (p, q) not in ((0, "mix"), ("mix", 0)) or o != "&" else 0)
            continue
        if o == "&":
            if p == 0 or q == 0:
                out.append(0)
            elif p == 1 or q == 1 or p == q:
                out.append(q if p == 1 else p)
            else:
                out.append("mix")
        elif o in ("|", "+", "^"):
            if p == 0 or q == 0:
                out.append(p or q)
            elif o == "|" and p == q:
                out.append(p)
            else:
                out.append("mix")  # depends on two bits
        else:
            return None
    return trim(out)


def trim(x):
    x = list(x)
    while x and x[-1] == 0:
        x.pop()
    return x


def show_bits(x):
    """Compact text of a list of bits."""
    if x is None:
        return "?"
    if not x:
        return "0"
    runs = []
    for b in x:
        if isinstance(b, tuple) and runs and isinstance(runs[-1][1], tuple) and runs[-1][1][1] * 8 + runs[-1][1][2] + 1 == b[1] * 8 + b[2] and runs[-1][1][0] == b[0]:
            runs[-1] = (runs[-1][0], b)
        else:
            runs.append((b, b))
    return "+".join(str(a) if not isinstance(a, tuple) else f"bits {a[1] * 8 + a[2]}..{z[1] * 8 + z[2]}" for a, z in runs)


class Cursor:
    """Where each read of a binary file takes place: byte position relative to the start of the file, or to the start of its iteration."""

    def __init__(self, i, handle, keep, value=None):
        """keep(event) -> is it on the examined path; handle: the file object term; value(term): the term on that path."""
        value = value or (lambda t: t)
        self.at = {}     # read result -> (scope, offset): scope is () or the loops of the read
        self.sizes = {}
        self.problem = None
        self.order = []
        pos = {(): (("start",), 0)}
        for e in i.events:
            if e.kind != "mcall" or e.recv is None or strip_epoch(e.recv) is not handle or e.name not in ("read", "seek", "tell"):
                continue
            if not keep(e):
                continue
            sc = e.loops
            if sc not in pos:
                pos[sc] = ((sc,), 0)
            src, off = pos[sc]
            if e.name == "seek":
                n = value(e.args[0])
                wh = e.args[1] if len(e.args) > 1 else (e.kw or {}).get("whence", const(0))
                wh = tm.cval(wh)
                if n.op != "const":
                    pos[sc] = (("unknown", e.seq), 0)
                elif wh == 0 and sc == ():
                    pos[sc] = (("start",), n.args[0])
                elif wh == 1:
                    pos[sc] = (src, off + n.args[0])
                else:
                    pos[sc] = (("unknown", e.seq), 0)
            elif e.name == "read":
                self.at[e.result] = (src, off)
                self.order.append(e)
                n = value(e.args[0]) if e.args else None
                if n is not None and n.op == "const" and isinstance(n.args[0], int):
                    pos[sc] = (src, off + n.args[0])
                    self.sizes[sc] = off + n.args[0]
                else:
                    pos[sc] = (("after", e.seq), 0)
        self.pos = pos

    def place(self, data):
        if data.op == "slice" and len(data.args) >= 3 and data.args[1].op == "const":
            p = self.place(data.args[0])
            lo = data.args[1].args[0] or 0
            return None if p is None or lo < 0 else (p[0], p[1] + lo)
        return self.at.get(data)


# ---------------------------------------------------------------- evaluation

class Unknown(Exception):
    """A term whose value does not follow from the given leaves."""


class Fails(Exception):
    """Evaluation would raise an exception."""


_NOTHING = object()


def calc(t, leaf):
    """Python value of a term; leaf(term) gives the value of known terms, or the `nothing` it receives. Raises Unknown or Fails."""
    v = leaf(t, _NOTHING)
    if v is not _NOTHING:
        return v
    op, a = t.op, t.args
    if op == "const":
        return a[0]
    if op == "not":
        return not calc(a[0], leaf)
    if op == "and" or op == "or":
        # conditions are not kept in the order of evaluation: one that decides the result does so whatever the others are
        late = None
        for x in a:
            try:
                if bool(calc(x, leaf)) is (op == "or"):
                    return op == "or"
            except (Unknown, Fails) as e:
                late = late or e
        if late is not None:
            raise late
        return op == "and"
    if op == "truthy":
        return bool(calc(a[0], leaf))
    if op == "ite":
        return calc(a[1] if calc(a[0], leaf) else a[2], leaf)
    if op == "==":
        return calc(a[0], leaf) == calc(a[1], leaf)
    if op == "is":
        p, q = calc(a[0], leaf), calc(a[1], leaf)
        if p is None or q is None or isinstance(p, bool) or isinstance(q, bool):
            return p is q
        raise Unknown
    try:
        if op == "<":
            return calc(a[0], leaf) < calc(a[1], leaf)
        if op == "in":
            return calc(a[0], leaf) in calc(a[1], leaf)
        if op in ("tuple", "list"):
            return tuple(calc(x, leaf) for x in a)
        if op == "set":
            return frozenset(calc(x, leaf) for x in a)
        if op == "rng":
            return range(*[calc(x, leaf) for x in a])
        if op == "dict":
            out = {}
            for x in a:
                if x.op != "pair":
                    raise Unknown
                if x.args[0].op == "star":
                    b = calc(x.args[0].args[0], leaf)
                    if not isinstance(b, dict):
                        raise Unknown
                    out.update(b)
                else:
                    out[calc(x.args[0], leaf)] = x.args[1]
            return out
        if op == "missing":
            calc(a[0], leaf)
            raise Fails
        if op == "index":
            b = calc(a[0], leaf)
            k = calc(a[1], leaf)
            try:
                x = b[k]
            except (KeyError, IndexError):
                raise Fails
            return calc(x, leaf) if isinstance(x, T) else x
        if op == "neg" or op == "invert":
            v = calc(a[0], leaf)
            return -v if op == "neg" else ~v
        if op == "bin":
            vs = [calc(x, leaf) for x in a[1:]]
            out = vs[0]
            for v in vs[1:]:
                out = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "//": lambda p, q: p // q, "%": lambda p, q: p % q, "&": lambda p, q: p & q, "|": lambda p, q: p | q,
                       "^": lambda p, q: p ^ q, "<<": lambda p, q: p << q, ">>": lambda p, q: p >> q, "/": lambda p, q: p / q, "**": lambda p, q: p ** q if abs(q) < 200 else 1 / 0}[a[0]](out, v)
            return out
        if op == "cat":
            return "".join(str(calc(x, leaf)) for x in a)
        if op == "call" and a[0] in ("int", "bool", "min", "max", "abs", "divmod", "len", "str"):
            vs = [calc(x, leaf) for x in a[1:] if x.op != "uid"]
            return {"int": int, "bool": bool, "min": min, "max": max, "abs": abs, "divmod": divmod, "len": len, "str": str}[a[0]](*vs)
        if op == "mcall" and a[1] == "get":
            b, k = calc(a[0], leaf), calc(a[2], leaf)
            if isinstance(b, dict):
                x = b.get(k, a[3] if len(a) > 3 and a[3].op != "uid" else None)
                return calc(x, leaf) if isinstance(x, T) else x
    except (TypeError, ZeroDivisionError, ValueError, KeyError):
        raise Unknown
    raise Unknown


# ---------------------------------------------------------------- strings

_STR = {"splitlines", "lower", "upper", "endswith", "startswith", "split", "rsplit", "strip", "lstrip", "rstrip", "replace", "partition", "rpartition", "join", "removeprefix", "removesuffix", "casefold", "count", "find", "rfind", "isdigit", "title",
        "group", "groups", "encode", "decode", "format", "zfill", "search", "match", "fullmatch", "suffix", "stem", "name", "index"}
_RE = {"search", "match", "fullmatch", "sub", "split", "findall", "compile", "escape"}


def strcalc(x, ev, nothing):
    """Value of an operation on text whose operands ev() knows; `nothing` for other terms."""
    import os.path
    import re
    op, a = x.op, x.args
    try:
        if op == "is" and (a[0] is NONE or a[1] is NONE):
            return ev(a[1] if a[0] is NONE else a[0]) is None
        if op == "mcall" and a[1] in _STR:
            args = [y for y in a[2:] if y.op != "uid"]
            if any(y.op in ("kw", "star") for y in args):
                return nothing
            b = ev(a[0])
            if not isinstance(b, (str, bytes, re.Match, re.Pattern)) or not hasattr(b, a[1]):
                if b is None:
                    raise Fails
                return nothing
            return getattr(b, a[1])(*[ev(y) for y in args])
        if op == "lib" and str(a[0]).startswith("re."):
            return getattr(re, a[0][3:])
        if op == "bin" and a[0] in ("|", "&", "-", "^") and len(a) == 3 or op == "setdiff" and len(a) == 2:
            p, q = (ev(y) for y in a[-2:])
            if isinstance(p, (tuple, list, set, frozenset)) and isinstance(q, (tuple, list, set, frozenset)):
                # sets are made into tuples where they are built
                p, q = frozenset(p), frozenset(q)
                return p | q if a[0] == "|" else p & q if a[0] == "&" else p ^ q if a[0] == "^" else p - q
            if op == "bin" and a[0] == "|":
                return p | q
            return nothing
        if op == "call" and isinstance(a[0], str):
            n = a[0]
            args = [y for y in a[1:] if y.op != "uid"]
            if n.startswith("re.") and n[3:] in _RE:
                kw = {y.args[0]: ev(y.args[1]) for y in args if y.op == "kw"}
                return getattr(re, n[3:])(*[ev(y) for y in args if y.op != "kw"], **kw)
            if n in ("os.path.splitext", "os.path.basename", "os.path.dirname", "os.path.join", "os.path.normpath", "os.path.split", "os.path.normcase", "os.fspath"):
                import os as _os
                return getattr(_os.path if n != "os.fspath" else _os, n.rsplit(".", 1)[1])(*[ev(y) for y in args])
            if n in ("repr", "sorted", "set", "frozenset", "list", "tuple"):
                vs = [ev(y) for y in args]
                if any(y.op in ("kw",) for y in args) or len(vs) != 1:
                    return nothing
                return {"repr": repr, "sorted": sorted, "set": frozenset, "frozenset": frozenset, "list": tuple, "tuple": tuple}[n](vs[0])
        if op == "slice":
            b = ev(a[0])
            if isinstance(b, (str, tuple, bytes, list)):
                return b[slice(*[ev(y) for y in a[1:]])]
        if op == "fmt":
            v, spec = ev(a[0]), a[1].args[0] if isinstance(a[1], T) else a[1]
            return format(v, str(spec or "").lstrip("!"))
        if op == "join":
            b, v = ev(a[0]), ev(a[1])
            if isinstance(b, str) and isinstance(v, (tuple, list)) and all(isinstance(y, str) for y in v):
                return b.join(v)
            return nothing
    except (AttributeError, IndexError, KeyError):
        raise Fails
    return nothing


# ---------------------------------------------------------------- folding

def fold(t, rule=None, memo=None):
    """Constant folding of a term; rule(term) may replace terms first (it receives terms whose arguments are folded)."""
    def f(x):
        if rule is not None:
            y = rule(x)
            if y is not x:
                return y
        return _fold(x)
    return tm.rewrite(t, f, memo)


def _cv(x):
    return isinstance(x, T) and x.op == "const"


def _fold(x):
    op, a = x.op, x.args
    try:
        if op == "neg" and _cv(a[0]):
            return const(-a[0].args[0])
        if op == "invert" and _cv(a[0]):
            return const(~a[0].args[0])
        if op == "truthy" and _cv(a[0]):
            return const(bool(a[0].args[0]))
        if op == "truthy" and a[0].op in ("tuple", "list", "dict", "set"):
            return const(bool(a[0].args))
        if op == "==" and all(map(_cv, a)):
            return const(a[0].args[0] == a[1].args[0])
        if op == "<" and all(map(_cv, a)):
            return const(a[0].args[0] < a[1].args[0])
        if op == "in" and _cv(a[0]):
            if _cv(a[1]):
                return const(a[0].args[0] in a[1].args[0])
            if a[1].op in ("tuple", "list", "set") and all(map(_cv, a[1].args)):
                return const(any(a[0].args[0] == y.args[0] for y in a[1].args))
            if a[1].op == "dict" and all(y.op == "pair" and _cv(y.args[0]) for y in a[1].args):
                return const(any(a[0].args[0] == y.args[0].args[0] for y in a[1].args))
            if a[1].op == "rng" and all(map(_cv, a[1].args)):
                return const(a[0].args[0] in range(*[y.args[0] for y in a[1].args]))
        if op == "index" and _cv(a[1]):
            if _cv(a[0]) and isinstance(a[0].args[0], (bytes, str)):
                return const(a[0].args[0][a[1].args[0]])
            if a[0].op in ("tuple", "list") and isinstance(a[1].args[0], int) and not any(y.op == "star" for y in a[0].args):
                return a[0].args[a[1].args[0]]
            if a[0].op == "dict" and all(y.op == "pair" and _cv(y.args[0]) for y in a[0].args):
                m = [y.args[1] for y in a[0].args if y.args[0].args[0] == a[1].args[0]]
                return m[-1] if m else mk("missing", *x.args)
            if a[0].op == "call" and a[0].args[0] == "divmod" and all(map(_cv, a[0].args[1:])):
                return const(divmod(a[0].args[1].args[0], a[0].args[2].args[0])[a[1].args[0]])
        if op == "mcall" and a[1] == "get" and a[0].op == "dict" and _cv(a[2]) and all(y.op == "pair" and _cv(y.args[0]) for y in a[0].args):
            m = [y.args[1] for y in a[0].args if y.args[0].args[0] == a[2].args[0]]
            return m[-1] if m else next((y for y in a[3:] if y.op not in ("uid", "kw")), NONE)
        if op == "is" and NONE in a:
            y = a[0] if a[1] is NONE else a[1]
            if y.op in ("tuple", "list", "dict", "set", "build", "cat", "obj", "pack", "bin"):
                return FALSE
        if op == "slice" and _cv(a[0]) and all(map(_cv, a[1:])):
            return const(a[0].args[0][slice(*[y.args[0] for y in a[1:]])])
        if op == "fld" and _cv(a[0]) and isinstance(a[2], T) and _cv(a[2]):
            k = a[1].args[0] if isinstance(a[1], T) else a[1]
            return const(_struct.unpack(a[0].args[0], a[2].args[0])[k])
        if op == "pack" and all(map(_cv, a)):
            return const(_struct.pack(*[y.args[0] for y in a]))
        if op == "call" and a[0] in ("max", "min", "abs", "int", "bool", "len", "divmod") and len(a) > 1 and all(_cv(y) for y in a[1:]):
            v = {"max": max, "min": min, "abs": abs, "int": int, "bool": bool, "len": len, "divmod": divmod}[a[0]](*[y.args[0] for y in a[1:]])
            return mk("tuple", *map(const, v)) if isinstance(v, tuple) else const(v)
        if op == "call" and a[0] == "math.ceil" and len(a) == 2 and _cv(a[1]):
            return const(-int(-a[1].args[0] // 1))
        if op == "call" and a[0] in ("max", "min", "sum") and len(a) == 2 and a[1].op in ("tuple", "list") and a[1].args and all(map(_cv, a[1].args)):
            return const({"max": max, "min": min, "sum": sum}[a[0]](y.args[0] for y in a[1].args))
        if op == "bin" and all(_cv(y) for y in a[1:]) and len(a) == 3 and a[0] == "/":
            return const(a[1].args[0] / a[2].args[0])
    except (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError, _struct.error):
        pass
    return x


class Bytes:
    """Folding of terms over a byte string of known length whose first bytes are known."""

    def __init__(self, data, prefix, length, fixed=None):
        self.data, self.prefix, self.length, self.fixed = data, prefix, length, fixed or {}
        self.memo = {}

    def bounds(self, lo, hi):
        return range(self.length)[slice(lo, hi)]

    def rule(self, x):
        if x in self.fixed:
            return self.fixed[x]
        if x.op == "ok":
            return TRUE
        if x.op == "exc":
            return FALSE
        d = self.data
        if x.op == "call" and x.args[0] == "len" and x.args[1] is d:
            return const(self.length)
        if x.op == "truthy" and x.args[0] is d:
            return const(self.length > 0)
        if x.op == "index" and x.args[0] is d and _cv(x.args[1]) and isinstance(x.args[1].args[0], int):
            k = x.args[1].args[0] % self.length if -self.length <= x.args[1].args[0] < self.length else None
            if k is not None and k < len(self.prefix):
                return const(self.prefix[k])
        if x.op == "slice" and x.args[0] is d and all(map(_cv, x.args[1:3])) and (len(x.args) < 4 or x.args[3] is NONE):
            b = self.bounds(x.args[1].args[0], x.args[2].args[0])
            if b.stop <= len(self.prefix) or not len(b):
                return const(self.prefix[b.start:b.stop] if len(b) else b"")
        if x.op == "call" and x.args[0] == "len" and x.args[1].op == "slice" and x.args[1].args[0] is d and all(map(_cv, x.args[1].args[1:3])):
            return const(len(self.bounds(x.args[1].args[1].args[0], x.args[1].args[2].args[0])))
        if x.op == "fld" and x.args[2] is d:
            p = fld_place(x)
            if p is not None and p[1] + p[3] <= len(self.prefix):
                return const(_struct.unpack((p[4] if p[4] in "<>" else "<") + (f"{p[3]}s" if p[2] == "s" else p[2]), self.prefix[p[1]:p[1] + p[3]])[0])
        if x.op == "mcall" and x.args[0] is d and x.args[1] == "startswith" and _cv(x.args[2]) and isinstance(x.args[2].args[0], bytes) and len(x.args[2].args[0]) <= len(self.prefix):
            return const(self.prefix.startswith(x.args[2].args[0]))
        return x

    def __call__(self, t):
        return fold(t, self.rule, self.memo)


def concat(t):
    """Parts of a concatenation of byte strings."""
    if t.op == "bin" and t.args[0] == "+":
        return [y for x in t.args[1:] for y in concat(x)]
    if t.op == "cat":
        return [y for x in t.args for y in concat(x)]
    if t.op == "join" and is_const(t.args[0], b"") and t.args[1].op in ("tuple", "list"):
        return [y for x in t.args[1].args for y in concat(x)]
    if t.op == "call" and t.args[0] in ("bytes", "bytearray") and len(t.args) == 2:
        return concat(t.args[1])
    return [t]


# ---------------------------------------------------------------- text built piece by piece

def percent(x):
    """Pieces of a `template % values` expression, or None."""
    tpl, v = x.args[1], x.args[2]
    if tpl.op != "const" or not isinstance(tpl.args[0], str):
        return None
    specs = list(_re.finditer(r"%(?:%|([-#0 +]*\d*(?:\.\d+)?)([sdifgeGErxX]))", tpl.args[0]))
    n = sum(m.group(0) != "%%" for m in specs)
    if v.op == "tuple":
        if len(v.args) != n:
            return None
        vals = list(v.args)
    elif n == 1:
        vals = [v]
    else:
        vals = [mk("index", v, const(k)) for k in range(n)]
    out, at = [], 0
    for m in specs:
        out.append(const(tpl.args[0][at:m.start()]))
        at = m.end()
        if m.group(0) == "%%":
            out.append(const("%"))
        else:
            x = vals.pop(0)
            out.append(x if m.group(0) == "%s" else mk("fmt", x, const(m.group(1) + m.group(2))))
    out.append(const(tpl.args[0][at:]))
    return out


def doc(i, t, seen=()):
    """A text as a sequence of str | T | ("rep", loops, guard, sequence, separator) parts; strings are merged. None if not known."""
    out = []

    def put(x):
        if x == "":
            return
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)

    def go(t):
        op = t.op
        if op == "const" and isinstance(t.args[0], str):
            put(t.args[0])
        elif op == "bin" and t.args[0] == "%" and t.args[1].op == "const":
            ps = percent(t)
            if ps is None:
                return False
            return all(go(p) for p in ps)
        elif op == "bin" and t.args[0] == "+":
            return all(go(p) for p in t.args[1:])
        elif op == "cat":
            return all(go(p) for p in t.args)
        elif op == "post":
            mu = t.args[0]
            if mu not in i.mus or mu in seen:
                return False
            init, step, loops = i.mus[mu]
            if not go(init):
                return False
            body = doc(i, step, seen + (mu,))
            if body is None or not body or body[0] is not mu:
                return False
            if any(isinstance(b, T) and tm.mentions(b, lambda y: y is mu) for b in body[1:]):
                return False
            if body[1:]:
                put(("rep", tuple(loops[-1:]), TRUE, body[1:], ""))
        elif op == "join" and t.args[0].op == "const":
            sep, coll = t.args[0].args[0], t.args[1]
            es = coll.args if coll.op in ("tuple", "list") else None
            if es is not None:
                for k, x in enumerate(es):
                    if not go(x):
                        return False
                    if k + 1 < len(es):
                        put(sep)
                return True
            es = tm.entries_of(coll)
            if es is None:
                return False
            for k, e in enumerate(es):
                if e.op != "entry":
                    return False
                d = doc(i, e.args[2], seen)
                if d is None:
                    return False
                if e.args[0].args or e.args[1] is not TRUE:
                    put(("rep", e.args[0].args, e.args[1], d, sep))
                else:
                    for x in d:
                        put(x)
                    if k + 1 < len(es):
                        put(sep)
        elif op == "mu":
            out.append(t)
        elif op == "mcall" and t.args[1] == "join" and t.args[0].op == "const":
            return go(mk("join", t.args[0], t.args[2]))
        elif op == "ite":
            a, b = doc(i, t.args[1], seen), doc(i, t.args[2], seen)
            if a is None or b is None:
                return False
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                put(a[k])
                k += 1
            if a[k:]:
                put(("rep", (), t.args[0], a[k:], ""))
            if b[k:]:
                put(("rep", (), bnot(t.args[0]), b[k:], ""))
        else:
            put(t)
        return True

    return out if go(t) else None
