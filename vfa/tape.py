"""Evaluation of a reader for given sample bytes.

The events of the analysed function on a file (read, seek, tell) are followed in program order over the sample, each round of each loop in
turn, and the results they give are what the terms of the analysis mean for that sample.  Nothing of the repository is executed.
"""
import base64
import binascii
import struct
from .q import *
from .sim import Sim, Obj, Break, Left, depends, carries, whence
from . import terms as tm
from .interp import MUTATORS

READS = ("read", "seek", "tell", "readline", "readinto", "read1", "peek", "readlines")


CODECS = {"base64.b64encode": base64.b64encode, "base64.b64decode": base64.b64decode, "base64.standard_b64encode": base64.standard_b64encode,
          "base64.urlsafe_b64encode": base64.urlsafe_b64encode, "binascii.hexlify": binascii.hexlify, "base64.b16encode": base64.b16encode, "base64.b32encode": base64.b32encode}


class Raised(Exception):
    def __init__(self, e):
        self.e = e


class Stream:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def do(self, name, args):
        d = self.data
        if name == "tell":
            return self.pos
        if name == "seek":
            p = args[0]
            w = args[1] if len(args) > 1 else 0
            if not isinstance(p, int) or w not in (0, 1, 2):
                raise Fails
            p += (0, self.pos, len(d))[w]
            if p < 0:
                raise Fails
            self.pos = p
            return p
        n = args[0] if args else None
        if n is not None and not isinstance(n, int):
            raise Fails
        if name == "readline":
            k = d.find("\n" if isinstance(d, str) else b"\n", self.pos)
            r = d[self.pos:] if k < 0 else d[self.pos:k + 1]
        elif name == "readlines":
            r = d[self.pos:]
            self.pos = max(self.pos, len(d))
            return tuple(r.splitlines(True))
        else:
            r = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
        if name != "peek":
            self.pos += len(r)
        return r


class Play(Sim):
    """files: {term of a handle: bytes}; `opens(sim, term)` gives the bytes of handles made on the way (None if it is none)."""

    cells = False    # whether changes of containers in attributes of objects made on the way are followed

    def __init__(self, i, world, files=None, opens=None, raises=(), extra=None):
        super().__init__(i, world, raises, memo=True)
        self.streams = {(strip_epoch(k), ()): Stream(v) for k, v in (files or {}).items()}
        self.opens = opens or (lambda sim, t: None)
        self.results = {}     # (term, rounds): value
        self.within = {}      # term: loops of its event
        for e in i.events:
            if e.kind in ("mcall", "call") and e.result is not None:
                self.within.setdefault(strip_epoch(e.result), e.loops)
        self.deps = {}
        self.dicts = {}
        self.extra = extra
        self.lines = {}
        self.running = False

    # ---- loops
    def depends(self, x):
        if x not in self.deps:
            self.deps[x] = frozenset()
            out = set(depends(x))
            for y in subterms(x):
                if y.op in ("mcall", "call", "obj", "fld", "unpack"):
                    for l in self.within.get(strip_epoch(y), ()):
                        out.add(self.ident(l))
                elif y.op == "mu" and y in self.i.mus:
                    for l in self.i.mus[y][2]:
                        out.add(self.ident(l))
                    out |= self.reached(y)
            self.deps[x] = frozenset(out)
        return self.deps[x]

    def reached(self, m):
        """What a loop-carried variable depends on through its values."""
        seen, todo, out = {m}, [m], set()
        while todo:
            x = todo.pop()
            for t in (*self.i.mus[x][:2], self.i.muguard.get(x, tm.TRUE)):
                for y in subterms(t):
                    if y.op == "mu" and y in self.i.mus and y not in seen:
                        seen.add(y)
                        todo.append(y)
                        out |= {self.ident(l) for l in self.i.mus[y][2]}
                    for l in self.within.get(strip_epoch(y), ()) if y.op in ("mcall", "call", "obj") else ():
                        out.add(self.ident(l))
                out |= depends(t)
        return out

    @staticmethod
    def ident(l):
        return (norm(l.args[0]), l.args[1]) if l.op == "loop" else (l, None)

    def frame(self, l):
        key = self.ident(l)
        for coll, n, v, k, idx in reversed(self.env):
            if n == key[1] and (coll is key[0] or coll.op != "while" and norm(coll) is key[0]):
                return idx
        return None

    def rounds(self, loops):
        out = []
        for l in loops:
            idx = self.frame(l)
            if idx is None:
                raise Unknown
            out.append(whence(idx))
        return tuple(out)

    def bound(self, x):
        d = self.depends(x)
        if not d:
            return ()
        out = {}      # of each loop the innermost round counts
        for coll, n, v, k, idx in self.env:
            l = (norm(coll) if coll.op != "while" else coll, n)
            if l in d:
                out.pop(l, None)
                out[l] = (*l, idx, whence(idx))
        return tuple(out.values())

    def leaf(self, x, nothing):
        if self.carried or self.keys or x.op not in ("build", "any", "first", "last", "call", "sorted", "index", "fld", "ite", "bin", "post", "mu") or carries(x):
            return self.leaf1(x, nothing)
        key = (x, self.bound(x))
        if key not in self.memo:
            v = self.leaf1(x, nothing)
            if v is nothing:
                return v
            self.memo[key] = v
        return self.memo[key]

    def leaf1(self, x, nothing):
        op, a = x.op, x.args
        if op in ("mcall", "call"):
            v = self.read_result(x)
            if v is not self:
                return v
        if op in ("fld", "unpack"):
            return self.field(x)
        if op == "call" and a[0] in ("struct.unpack", "struct.unpack_from", "struct.calcsize"):
            args = [self.value(y) for y in a[1:] if y.op not in ("uid", "kw")]
            try:
                return getattr(struct, a[0][7:])(*args)
            except (struct.error, TypeError):
                raise Fails
        if op == "call" and a[0] == "int":
            vs = [self.value(y) for y in a[1:] if y.op not in ("uid", "kw")]
            try:
                return int(*vs)
            except (TypeError, ValueError):
                if all(v is None or isinstance(v, (str, bytes, int, tuple)) for v in vs):
                    raise Fails
                raise Unknown
        if op == "call" and a[0] in CODECS:
            vs = [self.value(y) for y in a[1:] if y.op != "uid"]
            if len(vs) == 1 and isinstance(vs[0], (bytes, str)):
                try:
                    return CODECS[a[0]](vs[0])
                except (TypeError, ValueError):
                    raise Fails
            raise Unknown
        if op == "call" and a[0] == "int.from_bytes":
            args = [self.value(y) for y in a[1:] if y.op not in ("uid", "kw")]
            kw = {y.args[0]: self.value(y.args[1]) for y in a[1:] if y.op == "kw"}
            try:
                if len(args) == 3:
                    kw["signed"] = args.pop()
                return int.from_bytes(*args, **kw)
            except (TypeError, ValueError):
                raise Fails
        if op == "mcall" and a[1] == "decode":
            b = self.value(a[0])
            if isinstance(b, bytes):
                try:
                    return b.decode(*[self.value(y) for y in a[2:] if y.op not in ("uid", "kw")], **{y.args[0]: self.value(y.args[1]) for y in a[2:] if y.op == "kw"})
                except UnicodeDecodeError:
                    raise Fails
                except (TypeError, LookupError):
                    raise Unknown
        if op == "bin" and a[0] in ("<<", "*", "**") and any(isinstance(v, int) and abs(v) > 100000 for v in (self.value(y) for y in a[2:])) and a[0] != "*":
            raise Fails
        if op == "bin":
            vs = [self.value(y) for y in a[1:]]
            if all(v is None or type(v) in (int, bytes, str, bool) for v in vs) and (None in vs or len({type(v) for v in vs} - {bool}) > 1) and a[0] in ("+", "-", "<<", ">>", "&", "|"):
                if None in vs or a[0] != "%":
                    raise Fails
        if op == "post" and a[0] in self.i.mus and self.i.mus[a[0]][2] and self.i.mus[a[0]][2][-1].op == "while":
            return self.after(a[0])
        if op == "mu" and not any(m is x for m, _ in self.carried) and x in self.i.mus and self.i.mus[x][2]:
            v = self.world(self, x, nothing)
            return self.before(x) if v is nothing else v
        if op == "dict" and all(p.op == "pair" and p.args[0].op != "star" for p in a):
            # its values are computed where it is made
            out = {}
            if self.cells:
                out = self.dicts.setdefault((x, self.bound(x)), out)
                if out:
                    return out
            for p in a:
                k = self.value(p.args[0])
                try:
                    out[k] = self.value(p.args[1])
                except Unknown:
                    out[k] = p.args[1]
            return out
        if op == "obj":
            v = self.world(self, x, nothing)
            return self.made(x) if v is nothing else v
        return super().leaf1(x, nothing)

    def field(self, x):
        op, a = x.op, x.args
        f = a[0]
        f = self.value(f) if isinstance(f, T) else f
        d = self.value(a[2] if op == "fld" else a[1])
        if not isinstance(d, (bytes, bytearray)) or not isinstance(f, (str, bytes)):
            raise Fails
        try:
            vs = struct.unpack(f, d)
        except struct.error:
            raise Fails
        if op == "unpack":
            return vs
        n = a[1] if isinstance(a[1], int) else self.value(a[1])
        if not isinstance(n, int) or not -len(vs) <= n < len(vs):
            raise Fails
        return vs[n]

    def made(self, x):
        """The object a construction makes: its attributes are those the analysis sees it given."""
        key = (x, self.bound(x) if not self.carried else tuple(e[4] for e in self.env))
        if key not in self.objs:
            o = self.objs[key] = Obj(str(x.args[0]), {str(x.args[0]).rsplit(".", 1)[-1]}, args=[], kw={})
            for y in x.args[2:]:
                if y.op == "kw":
                    o.attrs["kw"][y.args[0]] = self.attempt(lambda: self.value(y.args[1]))
                elif y.op not in ("uid", "epoch"):
                    o.attrs["args"].append(self.attempt(lambda: self.value(y)))
            for e in self.i.events:
                if e.kind == "setattr" and e.recv is not None and strip_epoch(e.recv) is strip_epoch(x):
                    try:
                        if self.true(e.guard):
                            o.attrs[e.name] = self.value(e.args[0])
                    except Unknown:
                        o.attrs.pop(e.name, None)
        return self.objs[key]

    def after(self, m):
        """The value a variable has after a while loop."""
        l = self.i.mus[m][2][-1]
        k = 0
        while True:
            self.env.append((l, None, k, None, k))
            try:
                if l in self.i.whiles and not self.true(self.i.whiles[l]):
                    return self.value(m)
            finally:
                self.env.pop()
            k += 1
            if k > 500:
                raise Fails

    def left_with(self, m, l):
        """The value a variable has in the round that leaves a while loop."""
        if l.op != "while":
            raise Unknown
        ends = [e for e in self.i.events if e.kind == "break" and e.loops and e.loops[-1] is l]
        k = 0
        while True:
            self.env.append((l, None, k, None, k))
            try:
                if l in self.i.whiles and not self.true(self.i.whiles[l]) or any(self.true(e.guard) for e in ends):
                    return self.value(m)
            finally:
                self.env.pop()
            k += 1
            if k > 500 or not ends:
                raise Fails if ends else Unknown

    def before(self, m):
        """The value a variable has at the start of the current round of its loop."""
        init, step, loops = self.i.mus[m]
        guard = self.i.muguard.get(m, tm.TRUE)
        if len(loops) > 1 or guard is not tm.TRUE:
            return self.before_some(m, guard)
        key = self.ident(loops[-1])
        at = next((n for n in range(len(self.env) - 1, -1, -1) if self.env[n][1] == key[1] and (self.env[n][0] is key[0] or self.env[n][0].op != "while" and norm(self.env[n][0]) is key[0])), None)
        if at is None:
            return self.left_with(m, loops[-1])
        f = self.env[at]
        kept = self.env
        k = f[4]
        if f[0].op != "while" and any(isinstance(y, T) and y.op in ("reversed", "bysort") for y in loops[-1].args[2:]):
            # the round, whatever order the elements are looked at in now
            self.env = kept[:at]
            try:
                k = next((n for n, (idx, _) in enumerate(self.numbered(loops[-1])) if whence(idx) == whence(f[4])), k)
            finally:
                self.env = kept
        elif f[0].op != "while":
            k = whence(k)
        if not k:
            self.env = kept[:at]
            try:
                return self.value(init)
            finally:
                self.env = kept
        k -= 1
        if f[0].op == "while":
            g = (f[0], None, k, None, k)
        else:
            self.env = kept[:at]
            try:
                k, (v, kk) = self.numbered(loops[-1])[k]
            finally:
                self.env = kept
            g = (f[0], f[1], v, kk, k)
        self.env = kept[:at] + [g]
        try:
            return self.value(step)
        finally:
            self.env = kept

    def before_some(self, m, guard):
        """The same for loops of which only some elements have a round."""
        init, step, loops = self.i.mus[m]
        kept = self.env
        at = []
        for l in loops:
            key = self.ident(l)
            n = next((n for n in range(len(kept) - 1, -1, -1) if kept[n][1] == key[1] and (kept[n][0] is key[0] or kept[n][0].op != "while" and norm(kept[n][0]) is key[0])), None)
            if l.op != "loop" or n is None:
                raise Unknown
            at.append(n)
        if at != list(range(at[0], at[0] + len(loops))):
            raise Unknown
        now = tuple(whence(kept[n][4]) for n in at)
        last = None

        def walk(rest, base):
            nonlocal last
            if not rest:
                if self.true(guard):
                    last = list(self.env)
                return False
            self_env = self.env
            done = base == now[:len(base)]
            for idx, (v, k) in self.numbered(rest[0]):
                here = base + (whence(idx),)
                if here == now:
                    return True
                self.env = self_env + [(rest[0].args[0], rest[0].args[1], v, k, idx)]
                try:
                    if walk(rest[1:], here):
                        return True
                finally:
                    self.env = self_env
                if done and here[-1] == now[len(base)]:
                    return True
            return False
        self.env = kept[:at[0]]
        try:
            walk(loops, ())
            if last is None:
                return self.value(init)
            self.env = last
            return self.value(step)
        finally:
            self.env = kept

    @staticmethod
    def attempt(f):
        try:
            return f()
        except (Unknown, Fails) as e:
            return e

    def elements(self, coll):
        if coll.op in ("call", "param") and (coll.op == "param" or strip_epoch(coll) in self.within) and not isinstance(coll.args[0], T):
            s = self.stream(coll)
            if s is not None:
                key = (strip_epoch(coll), self.rounds(self.within.get(strip_epoch(coll), ())))
                if key not in self.lines:
                    self.lines[key] = [(x, None) for x in s.do("readlines", [])]
                return self.lines[key]
        if coll.op == "rng":
            v = self.value(coll)
            if isinstance(v, range) and len(v) > 20000:
                raise Fails     # a count that is not one of the sample
        return super().elements(coll)

    # ---- files
    def stream(self, recv, make=True):
        t = strip_epoch(recv)
        loops = self.within.get(t, ())
        try:
            key = (t, self.rounds(loops))
        except Unknown:
            return None
        if key not in self.streams and make:
            d = self.opens(self, t)
            if d is None and t.op == "call" and str(t.args[0]).endswith("BytesIO"):
                args = [y for y in t.args[1:] if y.op not in ("uid", "epoch")]
                d = self.value(args[0]) if args else b""
                if not isinstance(d, bytes):
                    raise Fails
            if d is None:
                return None
            self.streams[key] = Stream(d)
        return self.streams.get(key)

    def read_result(self, x):
        """What an event gave; self when it is none that was followed."""
        t = strip_epoch(x)
        if t not in self.within:
            return self
        try:
            key = (t, self.rounds(self.within[t]))
        except Unknown:
            return self
        return self.results.get(key, self)

    def play(self):
        """Follow everything; returns the exception event that ends it, if any."""
        def on(e):
            if e.kind == "raise":
                raise Raised(e)
            if e.kind == "mcall" and e.name in READS and e.recv is not None:
                s = self.stream(e.recv)
                if s is not None:
                    args = [self.value(y) for y in e.args]
                    for k, v in (e.kw or {}).items():
                        if k == "whence" and len(args) == 1:
                            args.append(self.value(v))
                        else:
                            raise Unknown
                    r = s.do(e.name, args)
                    if e.result is not None:
                        self.results[strip_epoch(e.result), self.rounds(e.loops)] = r
                    return
            if e.kind == "call" and e.name == "next" and e.args and e.result is not None:
                s = self.stream(e.args[0])
                if s is not None:
                    r = s.do("readline", [])
                    if not r and len(e.args) < 2:
                        raise Fails
                    self.results[strip_epoch(e.result), self.rounds(e.loops)] = r if r else self.value(e.args[1])
                    return
            if e.kind == "unpackto" and e.name != "*" and e.args:
                try:
                    v = self.value(e.args[0])
                except Unknown:
                    v = None
                if isinstance(v, (tuple, list, dict, str, bytes)) and len(v) != int(e.name):
                    raise Fails
            if self.cells and (e.kind == "mcall" and e.name in MUTATORS or e.kind in ("setitem", "delitem")):
                self.change(e)
            if self.extra:
                self.extra(self, e)
        try:
            self.run(on=on)
        except Raised as r:
            return r.e
        return None

    def change(self, e):
        """A container that is an attribute of an object made on the way is changed."""
        raw = e.raw[0] if e.raw else None
        if isinstance(raw, T) and raw.op == "cobj":
            own = next((s for s in self.i.events if s.kind == "setattr" and len(s.raw) > 1 and s.raw[1] is raw), None)
            if own is None or own.recv.op != "obj":
                return
            o, name = self.value(own.recv), own.name
        elif e.recv is not None and e.recv.op == "attr":
            o, name = self.value(e.recv.args[0]), e.recv.args[1]
        elif e.kind in ("setitem", "delitem") and e.recv is not None and e.recv.op in ("dict", "elem", "val", "index", "first", "last"):
            d = self.value(e.recv)
            if isinstance(d, dict):
                k = self.value(e.args[0])
                if e.kind == "setitem":
                    d[k] = self.value(e.args[1])
                elif k not in d:
                    raise Fails
                else:
                    del d[k]
            return
        else:
            return
        if not isinstance(o, Obj):
            return
        have = o.attrs.get(name)
        a = [self.value(x) for x in e.args]
        if isinstance(have, (tuple, list)) and e.kind == "mcall" and e.name in ("append", "extend") and len(a) == 1 and (e.name == "append" or isinstance(a[0], (tuple, list))):
            o.attrs[name] = (*have, *([a[0]] if e.name == "append" else a[0]))
        elif isinstance(have, dict) and e.kind == "setitem" and len(a) == 2:
            o.attrs[name] = {**have, a[0]: a[1]}
        else:
            o.attrs.pop(name, None)

    def _run(self, evs, depth, on, rets):
        k = 0
        while k < len(evs):
            e = evs[k]
            if len(e.loops) <= depth or e.loops[depth].op != "while":
                # up to the next while loop at this depth
                j = k
                while j < len(evs) and not (len(evs[j].loops) > depth and evs[j].loops[depth].op == "while"):
                    j += 1
                super()._run(evs[k:j], depth, on, rets)
                k = j
                continue
            l = e.loops[depth]
            sub = []
            while k < len(evs) and len(evs[k].loops) > depth and evs[k].loops[depth] is l:
                sub.append(evs[k])
                k += 1
            self.turns(l, sub, depth, on, rets)

    def turns(self, l, sub, depth, on, rets):
        n = 0
        while True:
            self.env.append((l, None, n, None, n))
            try:
                # what the condition reads is read in the same round
                self._run(sub, depth + 1, on, rets)
                if l in self.i.whiles and not self.true(self.i.whiles[l]):
                    return
            except Break as b:
                if len(b.loops) != depth + 1:
                    raise
                return
            finally:
                self.env.pop()
            n += 1
            if n > 500:
                raise Fails
