"""Evaluation of the effects of an analysed function for given sample values of its inputs.

The terms, guards and events are those of the analysis; nothing of the repository is executed.  A `world` function gives the value of the
terms it knows: world(sim, term, nothing).  Elements of a loop are those of the value of its collection.
"""
from .q import *
from . import terms as tm


class Obj:
    """A value known by its attributes only."""

    def __init__(self, name, kinds=(), /, **attrs):
        self.name, self.kinds, self.attrs = name, set(kinds), attrs

    def __repr__(self):
        return self.name


_depends = {}


def depends(x):
    """The loops a term takes elements of."""
    if x not in _depends:
        _depends[x] = frozenset((norm(y.args[0]), y.args[1]) for y in subterms(x) if y.op in ("elem", "key", "val", "zelem", "idx"))
    return _depends[x]


_carries = {}


def carries(x):
    """Does a term hold what a loop has collected so far?"""
    if x not in _carries:
        _carries[x] = any(y.op == "carry" for y in subterms(x))
    return _carries[x]


class Break(Exception):
    def __init__(self, loops):
        self.loops = loops


class Left(Exception):
    pass


class Place(int):
    """The round of a loop that takes the elements in another order."""
    def __new__(cls, n, whence):
        x = int.__new__(cls, n)
        x.whence = whence
        return x


def whence(idx):
    return getattr(idx, "whence", idx)


class Sim:
    def __init__(self, i, world, raises=(), memo=False):
        self.memo = {} if memo else None
        self.i, self.world, self.env = i, world, []
        self.raises = set(raises)
        self.carried, self.keys = [], []
        self.log = []
        self.objs = {}
        self.now = None

    # ---- values
    def value(self, t):
        return calc(t, self.leaf)

    def true(self, t):
        return bool(self.value(t))

    def elements(self, coll):
        """[(value, key)]"""
        c = coll if coll.op == "build" else norm(coll)
        if c.op == "build":
            out = []
            es = tm.entries_of(c)
            if not es and c.args and any(x.op != "entry" for x in c.args if isinstance(x, T)):
                raise Unknown
            at = next((n for n, e in enumerate(es or ()) if e.op == "entry" and e.args[1].op == "carry"), None)
            if at is not None:
                return self.as_set(c, self.so_far(es, at))
            if any(e.op != "entry" for e in es or ()):
                raise Unknown
            self.added([(e, e.args[0].args) for e in es or ()], out)
            return self.as_set(c, out)
        if c.op == "minus":
            out = self.elements(c.args[0])
            e = c.args[1]
            bound = {(f[0], f[1]) for f in self.env} | {(norm(f[0]), f[1]) for f in self.env}
            loops = e.args[0].args
            n = 0
            while n < len(loops) and loops[n].op == "loop" and ((loops[n].args[0], loops[n].args[1]) in bound or (norm(loops[n].args[0]), loops[n].args[1]) in bound):
                n += 1
            return self.taken(out, e, loops[n:])
        try:
            v = self.value(coll)
        except Unknown:
            if c is coll:
                raise
            v = self.value(c)
        if isinstance(v, dict):
            return [(v[k], k) for k in v]
        if isinstance(v, (tuple, list, range, str, bytes)):
            return [(x, None) for x in v]
        if isinstance(v, (set, frozenset)):
            return [(x, None) for x in sorted(v, key=repr)]
        if v is None or isinstance(v, (bool, int, float)):
            raise Fails
        raise Unknown

    def taken(self, out, e, loops):
        """What is left of elements when those of an entry are removed."""
        out = list(out)

        def do():
            if self.true(e.args[1]):
                x = self.value(e.args[2])
                at = next((n for n, (v, k) in enumerate(out) if (v if k is None else k) == x), None)
                if at is not None:
                    del out[at]
        self.each(loops, do, e.args[1])
        return out

    def added(self, entries, out):
        """The values of entries (with the loops they are still in), in the order of the rounds of the loops they share."""
        while entries:
            loops = entries[0][1]
            n = 1
            while n < len(entries) and loops and loops[0].op == "loop" and all(isinstance(m, T) and m.op == "again" for m in loops[0].args[2:]) and entries[n][1][:1] == loops[:1]:
                n += 1
            if n == 1:
                self.entry(entries[0][0], out, loops)
            else:
                now = [(e, ls[1:]) for e, ls in entries[:n]]
                self.each(loops[:1], lambda now=now: self.added(now, out), tm.bor(*[e.args[1] for e, _ in now]))
            entries = entries[n:]

    def entry(self, e, out, loops):
        """The values of an entry, added to `out`."""
        loops = tuple(mk("loop", *[m for m in l.args if not (isinstance(m, T) and m.op == "again")]) if l.op == "loop" else l for l in loops)
        mods = [x for l in loops if l.op == "loop" for x in l.args[2:] if isinstance(x, T)]
        ms = list(dict.fromkeys(mods))
        if any(m.op not in ("viaset", "bysort", "reversed") for m in ms) or len(ms) > 1 and any(m.op == "bysort" for m in ms):
            raise Unknown
        if any(m.op == "bysort" for m in ms) and any(l.op != "loop" or len(l.args) == 2 for l in loops):
            raise Unknown
        backwards = any(m.op == "reversed" for m in ms)
        if backwards and not all(l.op == "loop" and mods and l.args[2:] == loops[0].args[2:] for l in loops):
            raise Unknown
        backwards = backwards and sum(m.op == "reversed" for m in loops[0].args[2:] if isinstance(m, T)) % 2
        ms = [m for m in ms if m.op != "reversed"]
        got, seen = [], []

        def add():
            if not self.true(e.args[1]):
                return
            k = None
            for m in ms:
                x = self.value(m.args[0]) if m.args and not is_const(m.args[0], None) else next(v for coll, n, v, k, idx in reversed(self.env) if any(n == l.args[1] and coll is l.args[0] for l in loops))
                if m.op == "bysort":
                    k = x
                elif any(x == y for y in seen):
                    return      # elements taken through a set come once
                else:
                    seen.append(x)
            if e.args[2].op == "star":
                got.extend((k, v, kk) for v, kk in self.elements(e.args[2].args[0]))
                return
            got.append((k, self.value(e.args[2]), self.value(e.args[3]) if isinstance(e.args[3], T) and not is_const(e.args[3], None) else None))
        self.each(tuple(mk("loop", l.args[0], l.args[1]) if l.op == "loop" else l for l in loops), add, e.args[1])
        by = [m for m in ms if m.op == "bysort"]
        if by:
            try:
                got.sort(key=lambda x: x[0], reverse=self.true(by[0].args[1]))
            except TypeError:
                raise Fails
        if backwards:
            got.reverse()
        out.extend((v, kk) for _, v, kk in got)

    def as_set(self, c, out):
        """Elements as a set or a dict keeps them."""
        if c.args and c.args[0] == "set":
            once = []
            for x in out:
                if not any(x == y for y in once):
                    once.append(x)
            return once
        if c.args and c.args[0] == "dict":
            last = []
            for v, k in out:
                at = next((n for n, x in enumerate(last) if x[1] == k), None)
                if at is None:
                    last.append((v, k))
                else:
                    last[at] = (v, last[at][1])
            return last
        return out

    def so_far(self, es, at):
        """What a loop has collected up to here: its entries for the elements before the current one, then those of the current one."""
        if es[at].args[1] not in self.i.collected or any(e.op != "entry" or e.args[1].op == "carry" for e in es[at + 1:]):
            raise Unknown
        step, loops = self.i.collected[es[at].args[1]]
        removed = []
        while step.op == "minus":
            removed.insert(0, step.args[1])
            step = step.args[0]
        if removed and step.args[-1] is not es[at]:
            raise Unknown       # elements are added as well
        now = []
        for l in loops:
            f = next((f for f in reversed(self.env) if l.op == "loop" and f[1] == l.args[1] and (f[0] is l.args[0] or norm(f[0]) is norm(l.args[0]))), None)
            if f is None:
                raise Unknown
            now.append(whence(f[4]))
        out = self.elements(tm.build("list", es[:at])) if at else []
        later = [e for e in step.args[1:] if e.op == "entry" and e.args[1] is not es[at].args[1]]
        later = later[at:]

        def add(entries):
            for e in entries:
                ls = e.args[0].args
                if ls[:len(loops)] != loops:
                    raise Unknown
                self.each(ls[len(loops):], lambda e=e: self.true(e.args[1]) and out.append((self.value(e.args[2]), self.value(e.args[3]) if isinstance(e.args[3], T) and not is_const(e.args[3], None) else None)) and None, e.args[1])

        class Here(Exception):
            pass

        def turn():
            here = [whence(f[4]) for f in self.env[len(self.env) - len(now):]] == now
            if not removed:
                add(es[at + 1:] if here else later)
            if here:
                raise Here
            for e in removed:
                ls = e.args[0].args
                if ls[:len(loops)] != loops:
                    raise Unknown
                out[:] = self.taken(out, e, ls[len(loops):])
        kept = self.env
        self.env = list(kept)
        try:
            self.each(loops, turn)
        except Here:
            pass
        finally:
            self.env = kept
        return out

    def bind(self, l, v, k, idx):
        self.env.append((l.args[0], l.args[1], v, k, idx))

    def ordered(self, l):
        """The elements of a loop, in the order it takes them."""
        return [x for _, x in self.numbered(l)]

    def numbered(self, l):
        """The same with their places."""
        es = list(self.elements(l.args[0]))
        plain = es
        es = [(x, n) for n, x in enumerate(es)]
        es = self.sorted_by(l, es)
        return [(n if m == n else Place(n, m), x) for n, (x, m) in enumerate(es)] if any(m != n for n, (x, m) in enumerate(es)) else list(enumerate(plain))

    def sorted_by(self, l, es):
        for m in reversed([m for m in l.args[2:] if isinstance(m, T)]):
            if m.op == "reversed":
                es.reverse()
            elif m.op == "bysort":
                keys = []
                try:
                    for (v, k), idx in es:
                        self.bind(l, v, k, idx)
                        try:
                            keys.append(self.value(m.args[0]))
                        finally:
                            self.env.pop()
                    order = sorted(range(len(es)), key=lambda n: keys[n], reverse=self.true(m.args[1]))
                except (Unknown, TypeError):
                    continue        # the order is that of several loops together
                es = [es[n] for n in order]
        return es

    def each(self, loops, do, guard=None):
        if not loops:
            return do()
        l = loops[0]
        if l.op != "loop" or len(l.args) > 2 and any(isinstance(x, T) and x.op not in ("viaset", "reversed", "again") for x in l.args[2:]):
            raise Unknown
        try:
            es = self.numbered(l)
        except (Unknown, Fails):
            # the loop may not be reached at all
            for g in () if guard is None else (guard.args if guard.op == "and" else (guard,)):
                try:
                    if not self.true(g):
                        return False
                except (Unknown, Fails):
                    pass
            raise
        for idx, (v, k) in es:
            self.bind(l, v, k, idx)
            try:
                if self.each(loops[1:], do, guard):
                    return True
            finally:
                self.env.pop()
        return False

    def leaf(self, x, nothing):
        if self.memo is None or x.op not in ("build", "any", "first", "last", "call", "sorted", "index") or self.carried or self.keys or carries(x):
            return self.leaf1(x, nothing)
        key = (x, self.bound(x))
        if key not in self.memo:
            try:
                self.memo[key] = (None, self.leaf1(x, nothing))
            except (Unknown, Fails) as err:
                self.memo[key] = (err, None)
        err, v = self.memo[key]
        if err is not None:
            raise err
        return v

    def bound(self, x):
        """Which of the current elements a term depends on."""
        d = depends(x)
        return tuple((norm(coll), n, idx, whence(idx)) for coll, n, v, k, idx in self.env if (norm(coll), n) in d) if d else ()

    def leaf1(self, x, nothing):
        v = self.world(self, x, nothing)
        if v is not nothing:
            return v
        op, a = x.op, x.args
        if op == "idx":
            for coll, n, v, k, idx in reversed(self.env):
                if n == a[1] and (coll is a[0] or norm(coll) is norm(a[0])):
                    return idx
            raise Unknown
        if op in ("elem", "key", "val", "zelem"):
            for coll, n, v, k, idx in reversed(self.env):
                if n == a[1] and (coll is a[0] or norm(coll) is norm(a[0])):
                    if op == "zelem":
                        return v[a[2]]
                    return k if op == "key" or op == "elem" and k is not None else v
            v, k = self.left_at(a[0], a[1])
            return v[a[2]] if op == "zelem" else k if op == "key" or op == "elem" and k is not None else v
        if op == "exc":
            return bool(set(str(a[0]).split("|")) & self.raises)
        if op == "ok":
            return not self.raises
        if op == "any":
            # the order of the elements does not matter here
            ls = tuple(mk("loop", l.args[0], l.args[1], *(m for m in l.args[2:] if not isinstance(m, T) or m.op not in ("bysort", "reversed"))) if l.op == "loop" else l for l in (a[0].args if a[0].op != "loop" else (a[0],)))
            return bool(self.each(ls, lambda: self.true(a[1]), a[1]))
        if op == "gone":
            return self.gone(a[0].args, a[1].args, a[2])
        if op == "truthy" and a[0].op in ("build", "minus"):
            return bool(self.elements(a[0]))
        if op == "call" and a[0] == "len" and a[1].op in ("build", "minus"):
            return len(self.elements(a[1]))
        if op in ("build", "minus"):
            es = self.elements(x)
            if x.args and x.args[0] == "dict":
                return {k: v for v, k in es}
            return {k: v for v, k in es} if es and all(k is not None for _, k in es) else tuple(v for v, _ in es)
        if op == "attr":
            o = self.value(a[0])
            if isinstance(o, Obj) and a[1] in o.attrs:
                return o.attrs[a[1]]
            raise Unknown
        if op == "isinst":
            o = self.value(a[0])
            if isinstance(o, Obj):
                return bool({str(n).rsplit(".", 1)[-1] for n in str(a[1]).split("|")} & o.kinds)
            names = {str(n).rsplit(".", 1)[-1] for n in str(a[1]).split("|")}
            return type(o).__name__ in names
        if op == "obj":
            return self.made(x)
        if op in ("first", "last"):
            es = self.elements(a[0])
            if not es:
                raise Fails
            v, k = es[0 if op == "first" else -1]
            return v if k is None else k
        if op == "call" and a[0] in ("bytes", "bytearray") and not any(isinstance(x, T) and x.op == "kw" for x in a[1:]):
            v = [self.value(x) for x in a[1:] if not (isinstance(x, T) and x.op in ("uid", "epoch"))]
            if not v or len(v) == 1 and isinstance(v[0], bytes):
                return v[0] if v else b""
            raise Unknown
        if op == "join":
            b = self.value(a[0])
            vs = [v if k is None else k for v, k in self.elements(a[1])]
            if not isinstance(b, (str, bytes)) or not all(isinstance(v, type(b)) for v in vs):
                if isinstance(b, (str, bytes)) and any(v is None or isinstance(v, (str, bytes, int)) and not isinstance(v, type(b)) for v in vs):
                    raise Fails
                raise Unknown
            return b.join(vs)
        if op == "is":
            p, q = self.value(a[0]), self.value(a[1])
            return p is q
        if op == "mu":
            for m, v in reversed(self.carried):
                if m is x:
                    return v
        if op == "post" and a[0] in self.i.mus:
            init, step, loops = self.i.mus[a[0]]
            cur = [self.value(init)]

            guard = self.i.muguard.get(a[0], tm.TRUE)

            def turn():
                if not self.true(guard):
                    return
                self.carried.append((a[0], cur[0]))
                try:
                    cur[0] = self.value(step)
                finally:
                    self.carried.pop()
            self.each(loops, turn, guard)
            return cur[0]
        if op == "rev":
            return tuple(reversed([v if k is None else k for v, k in self.elements(a[0])]))
        if op == "zip":
            return tuple(zip(*[[v if k is None else k for v, k in self.elements(y)] for y in a if y.op not in ("uid", "kw")]))
        if op == "sorted":
            vs = [v if k is None else k for v, k in self.elements(a[0])]
            keys = vs
            if len(a) > 1 and isinstance(a[1], T) and not is_const(a[1], None):
                if not tm.mentions(a[1], lambda y: y.op == "arg"):
                    raise Unknown
                keys = [self.keyed(a[1], v) for v in vs]
            try:
                order = sorted(range(len(vs)), key=lambda n: keys[n], reverse=len(a) > 2 and isinstance(a[2], T) and self.true(a[2]))
            except TypeError:
                raise Unknown
            return tuple(vs[n] for n in order)
        if op == "call" and a[0] in ("max", "min") and len(a) == 3 and isinstance(a[2], T) and a[2].op == "kw" and a[2].args[0] == "key":
            vs = [v if k is None else k for v, k in self.elements(a[1])]
            if not vs:
                raise Fails
            return (max if a[0] == "max" else min)(vs, key=lambda v: self.keyed(a[2].args[1], v))
        if op == "call" and a[0] == "itertools.groupby":
            key = next((y.args[1] for y in a[2:] if isinstance(y, T) and y.op == "kw" and y.args[0] == "key"), None)
            out = []
            for v, k in self.elements(a[1]):
                v = v if k is None else k
                by = v if key is None else self.keyed(key, v)
                if out and out[-1][0] == by:
                    out[-1][1].append(v)
                else:
                    out.append((by, [v]))
            return tuple((by, tuple(vs)) for by, vs in out)
        if op == "arg" and self.keys:
            return self.keys[-1]
        if op in ("next", "nonempty") or op == "call" and a[0] == "next":
            coll = a[0] if op != "call" else a[1]
            k = self.position(coll)
            es = self.elements(coll)
            if op == "nonempty":
                return k < len(es)
            if k < len(es):
                return es[k][0] if es[k][1] is None else es[k][1]
            raise Fails
        return strcalc(x, self.value, nothing)

    def keyed(self, f, v):
        """What a key function gives for a value."""
        self.keys.append(v)
        try:
            return self.value(f)
        finally:
            self.keys.pop()

    def made(self, x):
        """The object a construction makes, with its arguments."""
        key = (x, tuple(e[4] for e in self.env))
        if key not in self.objs:
            o = self.objs[key] = Obj(str(x.args[0]), {str(x.args[0])}, args=[], kw={})
            for y in x.args[2:]:
                try:
                    if y.op == "kw":
                        o.attrs["kw"][y.args[0]] = self.value(y.args[1])
                    else:
                        o.attrs["args"].append(self.value(y))
                except (Unknown, Fails):
                    o.attrs["args"].append(None) if y.op != "kw" else None
        return self.objs[key]

    def gone(self, loops, elems, g):
        """Whether an element before the current one makes the loop end."""
        at = []
        for e in elems:
            at.append(next((whence(idx) for coll, n, v, k, idx in reversed(self.env) if n == e.args[1] and (coll is e.args[0] or norm(coll) is norm(e.args[0]))), None))
        if None in at:
            raise Unknown
        class Here(Exception):
            pass

        def turn():
            if [whence(f[4]) for f in self.env[len(self.env) - len(at):]] == at:
                raise Here
            return self.true(g)
        kept = self.env
        self.env = list(kept)
        try:
            return bool(self.each(loops, turn))
        except Here:
            return False
        finally:
            self.env = kept

    def left_at(self, coll, n):
        """The element at which a loop that is over was left."""
        bound = {(norm(x[0]), x[1]) for x in self.env}
        ls = [b for b in self.i.events if b.kind == "break" and b.loops and b.loops[-1].op == "loop" and b.loops[-1].args[1] == n and (b.loops[-1].args[0] is coll or norm(b.loops[-1].args[0]) is norm(coll))]
        if not ls or any((norm(l.args[0]), l.args[1]) not in bound for b in ls for l in b.loops[:-1]):
            raise Unknown
        for idx, (v, k) in enumerate(self.elements(ls[0].loops[-1].args[0])):
            for b in ls:
                self.bind(b.loops[-1], v, k, idx)
                try:
                    if self.true(b.guard):
                        return v, k
                finally:
                    self.env.pop()
        es = self.elements(ls[0].loops[-1].args[0])
        if not es:
            raise Fails
        return es[-1]

    def position(self, coll):
        """What the loop over an iterator that may be left early has left of it."""
        for c, n, v, k, idx in reversed(self.env):
            if c is coll:
                return idx + 1
        ls = [b for b in self.i.events if b.kind == "break" and b.loops and b.loops[-1].op == "loop" and strip_epoch(b.loops[-1].args[0]) is strip_epoch(coll)]
        if not ls:
            raise Unknown
        for idx, (v, k) in enumerate(self.elements(coll)):
            for b in ls:
                if len(b.loops) > 1:
                    raise Unknown
                self.bind(b.loops[-1], v, k, idx)
                try:
                    if self.true(b.guard):
                        return idx + 1
                finally:
                    self.env.pop()
        return len(self.elements(coll))

    # ---- effects
    def run(self, events=None, on=None):
        """The events that happen, in order; on(event) is called for each (default: recorded in .log)."""
        evs = sorted(self.i.events if events is None else events, key=lambda e: e.seq)
        rets = list(self.i.loop_returns)
        try:
            self._run(evs, 0, on or (lambda e: self.log.append(e)), rets)
        except Left:
            pass
        return self.log

    def _run(self, evs, depth, on, rets):
        k = 0
        while k < len(evs):
            e = evs[k]
            if len(e.loops) <= depth:
                self.now = e
                if self.true(e.guard):
                    if e.kind == "break":
                        raise Break(e.loops)
                    on(e)
                    if e.kind == "raise" and "SystemExit" in str(e.name):
                        raise Left
                k += 1
                continue
            l = e.loops[depth]
            sub = []
            while k < len(evs) and len(evs[k].loops) > depth and evs[k].loops[depth] is l:
                sub.append(evs[k])
                k += 1
            if l.op != "loop":
                raise Unknown
            try:
                es = self.numbered(l)
            except (Unknown, Fails):
                # the loop may not be reached at all
                if not any(self.reach(x, depth) for x in sub):
                    continue
                raise
            for idx, (v, kk) in es:
                self.bind(l, v, kk, idx)
                try:
                    self._run(sub, depth + 1, on, rets)
                    for g, ls, nd in rets:
                        if len(ls) > depth and ls[depth] is l and len(ls) == depth + 1 and self.true(g):
                            raise Left
                except Break as b:
                    if len(b.loops) != depth + 1:
                        raise
                    break
                finally:
                    self.env.pop()

    def reach(self, e, depth):
        """False if the guard is known to be false whatever the element is."""
        try:
            return self.true(e.guard)
        except (Unknown, Fails):
            return True
