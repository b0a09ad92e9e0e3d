"""Gated value-flow analysis of the package's syntax trees.

One abstract pass over a root function (callees inlined): merges join values with their guards, loops are
summarised by one generic iteration, effects are recorded as events with guard, loops, handlers and call path.
Nothing of the analysed package is imported or executed.
"""
import ast
import sys
from . import terms as tm
from .terms import T, mk, const, TRUE, FALSE, NONE, band, bor, bnot, ite, truth, cmp, build, entry, entries_of, cat, fmt, is_const
from .program import Program, Func, Class, AnalysisBroken, all_args, dotted_name, exc_ancestors
from .expr import ExprMixin
from .lib import LibMixin

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class State:
    __slots__ = ("store", "reach", "alive", "nrisk")

    def __init__(self, store=None, reach=(), alive=True):
        self.store = store if store is not None else {}
        self.reach = reach
        self.alive = alive

    def copy(self):
        return State(dict(self.store), self.reach, self.alive)


class Frame:
    def __init__(self, fid, func, module, parent, cls, entry_reach, entry_loops):
        self.id, self.func, self.module, self.parent, self.cls = fid, func, module, parent, cls
        self.entry_reach, self.entry_loops = entry_reach, entry_loops
        self.returns = []
        self.loopctx = []
        self.hook = None
        self.hook_env = None


class Ev:
    __slots__ = ("kind", "name", "recv", "args", "kw", "node", "module", "reach", "loops", "zones", "stack", "seq", "result", "extra", "func", "raw", "_g")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def guard(self):
        if self._g is None:
            self._g = strip_epoch(band(*self.reach))
        return self._g

    @property
    def loc(self):
        return f"{self.module.rel}:{getattr(self.node, 'lineno', '?')}"

    def arg(self, i, name=None, default=None):
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def where(self):
        path = " > ".join(f"{q.split('.', 1)[-1]}" for q, _ in self.stack)
        return f"{self.loc} in {path or '?'}"

    def __repr__(self):
        return f"<{self.kind} {self.name} {tm.show(self.recv) if self.recv is not None else ''} {[tm.show(a) for a in self.args or []]} @{self.loc} if {tm.show(self.guard)}>"


class TryInfo:
    def __init__(self, tid, node, handlers, module):
        self.id, self.node, self.handlers, self.module = tid, node, handlers, module  # handlers: list of (names tuple or None)


MUTATORS = {"append", "add", "setdefault", "update", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse", "appendleft"}
_strip_memo = {}


def strip_epoch(t):
    def f(x):
        if x.op == "call" and x.args and isinstance(x.args[-1], T) and x.args[-1].op == "epoch":
            return mk("call", *x.args[:-1])
        return x
    return tm.rewrite(t, f, _strip_memo)


class Interp(ExprMixin, LibMixin):
    MAX_DEPTH = 40
    MAX_STEPS = 60000
    nesting = 1       # how often a function may be on the stack before its calls are opaque

    def __init__(self, prog, opaque=(), opaque_attrs=(), deep_globals=(), max_depth=None, types=None, virtual=(), havoc=(), stamp=(), nesting=1):
        self.prog = prog
        self.nesting = nesting
        self.stamp = set(stamp)      # opaque functions with a different result at every call
        self.opaque = set(opaque)
        self.havoc = set(havoc)      # attributes whose value changes with every call that gets the object
        self.havocs = {}
        self.opaque_attrs = set(opaque_attrs)
        self.deep_globals = set(deep_globals)
        self.virtual = set(virtual)
        if max_depth:
            self.MAX_DEPTH = max_depth
        self.types = dict(types or {})
        self.reset()

    def reset(self):
        self.events = []
        self.loops = ()
        self.zones = ()
        self.stack = ()
        self.frame = None
        self.st = State()
        self.uid = 0
        self.tries = {}
        self.callables = {}
        self.gens = {}
        self.objctx = {}
        self.objcls = {}
        self.mus = {}
        self.collected = {}
        self.muinit = {}
        self.muguard = {}   # the condition under which an element of the loop has a round
        self.typing = set()
        self.guessed = set()     # objects whose class is only inferred from a method called on them
        self.whiles = {}
        self.abrupt = []
        self.risks = []
        self.faults = []     # names, attributes and arguments that do not exist: (kind, what, node, module, reach)
        self.live = [self.events, self.abrupt, self.risks, self.faults]
        self.steps = 0
        self.truncated = False
        self.inlined = set()
        self.unknown_calls = 0
        self.quiet = 0
        self._gmemo = {}

    # ------------------------------------------------------------ bookkeeping

    def new_uid(self):
        self.uid += 1
        return self.uid

    def epoch(self):
        return self.st.store.get(("e",), const(0))

    def bump(self):
        self.st.store[("e",)] = const(self.new_uid())

    def event(self, kind, name, node, recv=None, args=(), kw=None, result=None, extra=None):
        if not self.st.alive or self.quiet:
            return None
        e = Ev(kind=kind, name=name, recv=self.snap(recv) if recv is not None else None, args=[self.snap(a) for a in args],
               kw={k: self.snap(v) for k, v in (kw or {}).items()}, node=node, module=self.frame.module if self.frame else None,
               reach=self.st.reach, loops=self.loops, zones=self.zones, stack=self.stack, seq=len(self.events), result=result, extra=extra,
               func=self.frame.func if self.frame else None)
        e.raw = tuple(recv if k is None else args[k] for k in (None, *range(len(args))))     # as they are, not as they are at this point
        self.events.append(e)
        if recv is not None and recv.op in ("mu", "post") and (kind in ("setitem", "delitem") or kind in ("mcall", "vcall") and name in MUTATORS):
            # what the loop variable started from may be the container that is changed
            m = recv if recv.op == "mu" else recv.args[0]
            for x in tm.subterms(self.muinit.get(m, NONE)):
                if x.op == "cobj":
                    self.st.store[("c", x)] = mk("opaque", const(x.args[0]), mk("uid", x.args[1]))
        if self.havoc and kind in ("call", "mcall", "vcall") and (kind != "call" or name.startswith("repo:")):
            for a in ([recv] if recv is not None else []) + list(args) + list((kw or {}).values()):
                if isinstance(a, T) and a.op != "const":
                    self.havocs[a] = self.havocs.get(a, 0) + 1
        return e

    def fault(self, kind, what, node):
        if self.st.alive and not self.quiet and self.frame is not None:
            self.faults.append((kind, what, node, self.frame.module, self.st.reach))

    def mark(self):
        return [len(a) for a in self.live], self.uid

    def rollback(self, m):
        lens, uid = m
        for a, n in zip(self.live, lens):
            del a[n:]
        self.uid = uid

    def push_acc(self):
        a = []
        self.live.append(a)
        return a

    def pop_acc(self, a):
        for i in range(len(self.live) - 1, -1, -1):
            if self.live[i] is a:
                del self.live[i:i + 1]
                return

    # ------------------------------------------------------------ guards

    def known(self, c):
        """Simplify a condition under the current reach."""
        c = truth(c)
        if c.op == "const":
            return c
        lits = {}
        for r in self.st.reach:
            for p in (r.args if r.op == "and" else (r,)):
                lits[p.id] = p
        if c.id in lits:
            return TRUE
        n = bnot(c)
        if n.id in lits:
            return FALSE
        subj = self._subjects(c)
        rel = [p for p in lits.values() if self._subjects(p) & subj]
        if rel:
            ats = {a.id for p in rel for a in tm.atoms(p)} | {a.id for a in tm.atoms(c)}
            if len(ats) <= 11:
                r = band(*rel)
                if tm.entails(r, c):
                    return TRUE
                if tm.entails(r, n):
                    return FALSE
        return c

    _subj_memo = {}

    def _subjects(self, c):
        m = self._subj_memo.get(c.id)
        if m is None:
            m = set()
            for a in tm.atoms(c):
                s = tm._subject(a)
                m.add(s[0].id if s else a.id)
            self._subj_memo[c.id] = m
        return m

    def cond_exec(self, c, then_fn, else_fn):
        """Run both alternatives of a condition and join."""
        c = self.known(c)
        if c is TRUE:
            return then_fn()
        if c is FALSE:
            return else_fn()
        st0 = self.st
        s1 = st0.copy()
        s1.reach = st0.reach + (c,)
        self.st = s1
        v1 = then_fn()
        s1 = self.st
        s2 = st0.copy()
        s2.reach = st0.reach + (bnot(c),)
        self.st = s2
        v2 = else_fn()
        s2 = self.st
        self.st, v = self.merge(st0.reach, [(c, s1, v1), (bnot(c), s2, v2)])
        return v

    def merge(self, base, branches):
        """branches: (condition, state, value); conditions are exclusive."""
        live = [b for b in branches if b[1].alive]
        if not live:
            st = branches[-1][1]
            st.alive = False
            return st, mk("never")
        if len(live) == 1:
            return live[0][1], live[0][2]
        store = {}
        keys = {}
        for _, s, _v in live:
            for k in s.store:
                keys[k] = True
        first = live[0][1].store
        for k in keys:
            if k[0] == "a":
                continue
            if k[0] == "v" and (any(k not in s.store for _, s, _v in live) or any(("a", *k[1:]) in s.store for _, s, _v in live)):
                # where the variable has a value
                fs = [s.store.get(("a", *k[1:]), TRUE) if k in s.store else FALSE for _, s, _v in live]
                a = fs[-1]
                for (c, s, _v), f in zip(reversed(live[:-1]), reversed(fs[:-1])):
                    a = ite(c, f, a)
                if a is not TRUE:
                    store[("a", *k[1:])] = a
            v = first.get(k)
            if all(s.store.get(k) is v for _, s, _v in live[1:]):
                store[k] = v
                continue
            vals = [(c, s.store.get(k)) for c, s, _v in live]
            store[k] = self.merge_key(k, vals)
        rests = []
        n = len(base)
        for _, s, _v in live:
            r = s.reach[n:] if s.reach[:n] == base else s.reach
            rests.append(band(*r))
        o = bor(*rests)
        if o.op != "const" and len(tm.atoms(o)) <= 12:
            if tm.equiv(o, TRUE):
                o = TRUE
        reach = base if o is TRUE else base + (o,)
        v = None
        if all(x[2] is not None for x in live):
            v = live[-1][2]
            for c, _s, val in reversed(live[:-1]):
                v = ite(c, val, v)
        return State(store, reach, True), v

    def merge_key(self, k, vals):
        if k == ("e",):
            return const(max(tm.cval(v, 0) or 0 for _, v in vals if v is not None))
        present = [(c, v) for c, v in vals if v is not None]
        if len(present) < len(vals) and k[0] == "f":
            # absent attribute: original value of the object
            orig = mk("attr", k[1], k[2])
            present = [(c, v if v is not None else orig) for c, v in vals]
        elif len(present) < len(vals) and k[0] == "c":
            present = present
            if len(present) == 1:
                return present[0][1]
        elif len(present) < len(vals):
            if len(present) == 1:
                return present[0][1]  # a use on the other path would be unbound
        if all(v.op == "content" for _, v in present):
            kind = present[0][1].args[0]
            es = [v.args[1:] for _, v in present]
            i = 0
            while all(len(e) > i for e in es) and all(e[i] is es[0][i] for e in es):
                i += 1
            if all(v.args[0] == kind for _, v in present):
                out = list(es[0][:i])
                for e in es:
                    out.extend(x for x in e[i:])
                return mk("content", kind, *out)
        elif k[0] == "c" and all(v.op in ("content", "minus", "build") for _, v in present):
            # removals carry their own conditions
            chains, bases = [], set()
            for _, v in present:
                chain = []
                while v.op == "minus":
                    chain.insert(0, v.args[1])
                    v = v.args[0]
                chains.append(chain)
                bases.add(build(v.args[0], v.args[1:]) if v.op == "content" else v)
            if len(bases) == 1:
                i = 0
                while all(len(x) > i for x in chains) and all(x[i] is chains[0][i] for x in chains):
                    i += 1
                v = bases.pop()
                for e in chains[0][:i] + [e for x in chains for e in x[i:]]:
                    v = mk("minus", v, e)
                return v
        v = present[-1][1]
        for c, x in reversed(present[:-1]):
            v = ite(c, x, v)
        return v

    # ------------------------------------------------------------ containers

    def new_container(self, kind, node, content=None):
        o = mk("cobj", kind, self.new_uid())
        self.objctx[o] = (self.loops, self.st.reach)
        self.st.store[("c", o)] = content if content is not None else mk("content", kind)
        return o

    def rel_ctx(self, base_loops, base_reach):
        loops = self.loops[len(base_loops):] if self.loops[:len(base_loops)] == base_loops else self.loops
        r = self.st.reach
        n = len(base_reach)
        g = band(*(r[n:] if r[:n] == base_reach else r))
        return loops, g

    def content(self, o):
        c = self.st.store.get(("c", o))
        if c is None:
            return mk("opaque", const(o.args[0]), mk("uid", o.args[1]))
        if c.op == "content":
            return build(c.args[0], c.args[1:])
        return c

    def snap(self, t, depth=0):
        """Replace mutable containers by their current content."""
        if t is None or not isinstance(t, T):
            return t
        if t.op == "cobj":
            if depth > 8:
                return t
            return self.snap(self.content(t), depth + 1)
        if t.op in ("const", "param", "func", "closure", "class", "lib", "module", "obj", "bound", "gen"):
            return t
        if not self._has_cobj(t):
            return t
        return tm.rewrite(t, lambda x: self.snap(self.content(x), depth + 1) if x.op == "cobj" and depth <= 8 else x)

    _cobj_memo = {}

    def _has_cobj(self, t):
        r = self._cobj_memo.get(t.id)
        if r is None:
            r = t.op == "cobj" or any(self._has_cobj(a) for a in t.args if isinstance(a, T))
            self._cobj_memo[t.id] = r
        return r

    def c_append(self, o, value, key=None, extra_loops=(), extra_guard=TRUE):
        c = self.st.store.get(("c", o))
        if c is None or c.op != "content":
            self.st.store[("c", o)] = mk("opaque", c if c is not None else o, value)
            return
        bl, br = self.objctx.get(o, ((), ()))
        loops, g = self.rel_ctx(bl, br)
        e = entry(loops + tuple(extra_loops), band(g, extra_guard), value, key)
        if c.args[0] == "dict" and key is not None and not loops and g is TRUE:
            es = [x for x in c.args[1:] if not (x.args[3] is key)]
            self.st.store[("c", o)] = mk("content", "dict", *es, e)
            return
        self.st.store[("c", o)] = mk("content", *c.args, e)

    # ------------------------------------------------------------ loops

    def loop_region(self, loops, guard, body):
        """Run body as the generic iteration of `loops` (terms) under `guard`; two passes to find loop-carried values."""
        base_loops, base_reach = self.loops, self.st.reach
        start = self.st
        ab = len(self.abrupt)

        def run(st):
            self.loops = base_loops + tuple(loops)
            st.reach = base_reach + ((guard,) if guard is not TRUE else ())
            self.st = st
            body()
            out = self.st
            self.loops = base_loops
            return out

        keys = set()
        while True:
            m = self.mark()
            uid = self.new_uid()
            st = start.copy()
            mus, carries = {}, {}
            for k in keys:
                v = start.store[k]
                if k[0] == "c":
                    if v.op == "content":
                        mark = mk("entry", mk("loops"), mk("carry", uid, len(carries)), mk("carryval", uid, len(carries)), NONE)
                        st.store[k] = mk("content", *v.args, mark)
                        carries[k] = mark
                    else:
                        st.store[k] = mk("mu", uid, self.keyname(k))
                else:
                    mu = mk("mu", uid, self.keyname(k))
                    self.muinit[mu] = start.store[k]
                    st.store[k] = mu
                    mus[k] = mu
            before = dict(st.store)
            s2 = run(st)
            changed = {k for k in start.store if k not in keys and k != ("e",) and s2.store.get(k) is not before[k]}
            for k in list(s2.store):
                if k[0] == "f" and k not in start.store and k[1].op in ("param", "attr", "global") and not self._loop_dep(k[1], tuple(loops)):
                    start.store[k] = mk("attr", k[1], k[2])
                    changed.add(k)
            if not changed or len(keys) > 200:
                break
            keys |= changed
            self.rollback(m)
        # after the loop
        res = s2.copy()
        res.alive = True
        for k, mu in mus.items():
            init, step = start.store[k], s2.store.get(k, mu)
            self.mus[mu] = (init, step, tuple(loops))
            self.muguard[mu] = guard
            res.store[k] = self.loop_exit_value(mu, init, step, tuple(loops), guard, base_loops)
        for k, mark in carries.items():
            v = s2.store.get(k)
            if v is not None and v.op == "content":
                self.collected[mark.args[1]] = (v, tuple(loops))
                at = next((n for n, e in enumerate(v.args) if e is mark), None)
                res.store[k] = mk("content", *(v.args if at is None else v.args[:at] + tuple(tm.again(v.args[:at], [e for e in v.args[at + 1:] if e is not mark], tuple(loops)))))
            elif v is not None and v.op == "minus":
                chain = []
                b = v
                while b.op == "minus":
                    chain.append(b.args[1])
                    b = b.args[0]
                if b.op == "build" and mark in b.args:
                    self.collected[mark.args[1]] = (v, tuple(loops))
                    b = build(b.args[0], [e for e in b.args[1:] if e is not mark])
                    for e in reversed(chain):
                        b = mk("minus", b, e)
                    res.store[k] = b
        if not s2.alive:
            # the generic iteration never completes: only zero-iteration exits
            for k in list(res.store):
                if k in start.store and k[0] != "c":
                    res.store[k] = start.store[k]
        res.reach = base_reach
        # abrupt exits inside the body: afterwards, none happened
        gs = []
        for al, ar, frame, _ in self.abrupt[ab:]:
            if frame is not None and frame != self.frame.id:
                continue        # return of a function called in the body
            if al[:len(base_loops)] == base_loops and len(al) > len(base_loops):
                n = len(base_reach)
                g = band(*(ar[n:] if ar[:n] == base_reach else ar))
                gs.append(mk("any", mk("loops", *al[len(base_loops):]), g))
        if gs:
            res.reach = base_reach + (band(*[bnot(g) for g in gs]),)
        self.st = res

    def keyname(self, k):
        if k[0] == "v":
            return f"{k[2]}"
        if k[0] == "f":
            return f"{tm.show(k[1], 3)}.{k[2]}"
        if k[0] == "c":
            return f"content {k[1].args[1]}"
        return str(k)

    def loop_exit_value(self, mu, init, step, loops, guard, base_loops):
        if step is mu:
            return init
        lt = mk("loops", *loops)
        for c, v in [(x, y) for x, y in [self._flag(step, mu)] if x is not None]:
            # step = ite(c, v, mu)
            if not tm.contains(c, mu) and not tm.contains(v, mu):
                if loops and loops[-1].op == "while" and c is TRUE:
                    return mk("post", mu)  # set on every round, from values of that round
                hit = mk("any", lt, band(guard, c))
                if not self._loop_dep(v, loops):
                    return ite(hit, v, init)
                return ite(hit, mk("last", build("list", [entry(loops, band(guard, c), v)])), init)
        # boolean accumulation: mu or g
        if tm.is_bool(step) and (tm.is_bool(init) or init.op == "const"):
            m = truth(mu)
            pos = tm.subst(step, {m: FALSE})
            if tm.subst(step, {m: TRUE}) is TRUE and not tm.contains(pos, mu):
                return bor(truth(init), mk("any", lt, band(guard, pos)))
            neg = tm.subst(step, {m: TRUE})
            if tm.subst(step, {m: FALSE}) is FALSE and not tm.contains(neg, mu):
                return band(truth(init), bnot(mk("any", lt, band(guard, bnot(neg)))))
        return mk("post", mu)

    def _flag(self, step, mu):
        if step.op == "ite":
            c, a, b = step.args
            if b is mu:
                return c, a
            if a is mu:
                return bnot(c), b
            # nested: ite(c, ite(d, v, mu), mu)
        if not tm.contains(step, mu):
            return TRUE, step
        return None, None

    def _loop_dep(self, v, loops):
        keys = {(l.args[0].id, l.args[1]) for l in loops if l.op == "loop"}
        wids = {l.args[0] for l in loops if l.op == "while"}
        for s in tm.subterms(v):
            if s.op in ("elem", "key", "val", "idx") and (s.args[0].id, s.args[1]) in keys:
                return True
            if s.op == "zelem" and (s.args[0].id, s.args[1]) in keys:
                return True
            if s.op == "mu":
                return True
        return False

    def depth_of(self, coll):
        n = 0
        for l in self.loops:
            if l.op == "loop" and l.args[0] is coll:
                n += 1
        return n

    def sort_key(self, key, v):
        """What a sort compares, for the element v of the sorted sequence."""
        if key is NONE:
            return v
        return tm.rewrite(key, lambda x: v if x.op == "arg" and x.args[0] == 0 else x)

    def over(self, coll, body, mods=()):
        """Generic iteration over an unstructured collection: body(n)."""
        n = self.depth_of(coll)
        l = mk("loop", coll, n, *mods)
        self.loop_region((l,), TRUE, lambda: body(n))

    @staticmethod
    def backwards(mods):
        return not any(m.op == "bysort" for m in mods) and sum(m.op == "reversed" for m in mods) % 2 == 1

    def iterate(self, coll, body, node=None, mods=()):
        """Run body(element term) for each element of coll."""
        if not self.st.alive:
            return
        op = coll.op
        if op == "cobj":
            coll = self.snap(coll)
            op = coll.op
        if op == "gen":
            return self.run_gen(coll, body, node)
        if op == "call" and coll.args and isinstance(coll.args[-1], T) and coll.args[-1].op == "stamp":
            self.event("consume", "consume", node, args=[coll])
        if op == "const" and isinstance(coll.args[0], (tuple, frozenset)):
            for v in (reversed(coll.args[0]) if self.backwards(mods) and isinstance(coll.args[0], tuple) else coll.args[0]):
                self.one(const(v), TRUE, body)
            return
        if op in ("tuple", "list", "set") and not any(a.op == "star" for a in coll.args):
            if len(coll.args) <= 40:
                for a in coll.args:
                    if not self.st.alive:
                        break
                    self.one(a, TRUE, body)
                return
        if op in ("tuple", "list", "set"):
            for a in coll.args:
                if a.op == "star":
                    self.iterate(a.args[0], body, node, mods)
                else:
                    self.one(a, TRUE, body)
            return
        if op == "dict" and all(a.op == "pair" for a in coll.args):
            for a in coll.args:
                self.one(a.args[0], TRUE, body)
            return
        if op == "build":
            isdict = coll.args[0] == "dict"
            if coll.args[0] == "group":
                return self.over(coll, lambda n: body(mk("key", coll, n)), mods)
            if coll.args[0] == "set" or isdict and all(e.op == "entry" and is_const(e.args[2]) for e in coll.args[1:]):
                mods = mods + (mk("viaset"),)
            if any(e.args[1].op == "carry" for e in coll.args[1:] if e.op == "entry"):
                return self.over(coll, lambda n: body(mk("elem", coll, n)), mods)
            for e in (coll.args[:0:-1] if self.backwards(mods) else coll.args[1:]):
                loops, g, v = self.fresh_entry(e, isdict)
                if not loops:
                    self.one(v, g, body)
                else:
                    self.loop_region(self.with_mods(loops, mods, v), g, lambda v=v: body(v))
            return
        if op == "content":
            return self.iterate(build(coll.args[0], coll.args[1:]), body, node, mods)
        if op == "sorted":
            return self.iterate(coll.args[0], body, node, mods + (mk("bysort", coll.args[1], coll.args[2]),))
        if op == "rev":
            inner = coll.args[0]
            if inner.op in ("tuple", "list"):
                return self.iterate(mk(inner.op, *reversed(inner.args)), body, node, mods)
            return self.iterate(inner, body, node, mods + (mk("reversed"),))
        if op == "ite":
            c, a, b = coll.args
            if a is NONE:
                return self.iterate(b, body, node, mods)
            if b is NONE:
                return self.iterate(a, body, node, mods)
            self.cond_exec(c, lambda: self.iterate(a, body, node, mods), lambda: self.iterate(b, body, node, mods))
            return
        if op == "enum":
            inner, start = coll.args
            inner = self.snap(inner)
            if inner.op in ("tuple", "list") and not any(a.op == "star" for a in inner.args) and len(inner.args) <= 40:
                for i, a in enumerate(inner.args):
                    self.one(mk("tuple", tm.binop("+", const(i), start), a), TRUE, body)
                return
            if inner.op == "unpack" and self.unpack_arity(inner):
                for i in range(self.unpack_arity(inner)):
                    self.one(mk("tuple", const(i), mk("fld", inner.args[0], i, inner.args[1])), TRUE, body)
                return

            def b2(e):
                base = inner
                if e.op == "elem":
                    base = e.args[0]
                    i = mk("idx", base, e.args[1])
                else:
                    i = mk("idx", base, 0)
                body(mk("tuple", tm.binop("+", i, start), e))
            return self.iterate(inner, b2, node, mods)
        if op == "zip":
            parts = [self.snap(p) for p in coll.args]
            if parts and all(p.op in ("tuple", "list") and not any(a.op == "star" for a in p.args) for p in parts):
                for tup in zip(*[p.args for p in parts]):
                    self.one(mk("tuple", *tup), TRUE, body)
                return
            z = mk("zip", *parts)
            return self.over(z, lambda n: body(mk("tuple", *[mk("zelem", z, n, i) for i in range(len(parts))])), mods)
        if op == "map":
            f, inner = coll.args[0], coll.args[1:]
            if len(inner) == 1:
                return self.iterate(inner[0], lambda e: body(self.apply(f, [e], {}, node)), node, mods)
            return self.iterate(mk("zip", *inner), lambda e: body(self.apply(f, [self.index(e, const(i)) for i in range(len(inner))], {}, node)), node, mods)
        if op == "filter":
            f, inner = coll.args

            def b3(e):
                c = truth(self.snap(self.apply(f, [e], {}, node))) if f is not NONE else truth(e)
                self.cond_exec(c, lambda: body(e), lambda: None)
            return self.iterate(inner, b3, node, mods)
        if op == "items":
            d = self.snap(coll.args[0])
            if d.op == "dict" and all(a.op == "pair" for a in d.args):
                for a in d.args:
                    self.one(mk("tuple", a.args[0], a.args[1]), TRUE, body)
                return
            if d.op == "build" and d.args[0] == "dict":
                for e in d.args[1:]:
                    loops, g, v, k = self.fresh_entry(e, True, both=True)
                    if loops:
                        self.loop_region(self.with_mods(loops, mods, mk("tuple", k, v)), g, lambda v=v, k=k: body(mk("tuple", k, v)))
                    else:
                        self.one(mk("tuple", k, v), g, body)
                return
            if d.op == "ite":
                c, a, b = d.args
                self.cond_exec(c, lambda: self.iterate(mk("items", a), body, node, mods), lambda: self.iterate(mk("items", b), body, node, mods))
                return
            return self.over(d, lambda n: body(mk("tuple", mk("key", d, n), mk("val", d, n))), mods)
        if op == "values":
            return self.iterate(mk("items", coll.args[0]), lambda e: body(e.args[1]), node, mods)
        if op == "keys":
            return self.iterate(mk("items", coll.args[0]), lambda e: body(e.args[0]), node, mods)
        if op == "chain":
            for a in coll.args:
                self.iterate(a, body, node, mods)
            return
        if op == "flat":
            return self.iterate(coll.args[0], lambda e: self.iterate(e, body, node, mods), node, mods)
        if op == "rng":
            a, b, s = coll.args
            if a.op == "const" and b.op == "const" and s.op == "const":
                try:
                    r = range(a.args[0], b.args[0], s.args[0])
                    if len(r) <= 8:
                        for i in r:
                            self.one(const(i), TRUE, body)
                        return
                except Exception:
                    pass
            if is_const(a, 0) and is_const(s, 1) and b.op == "call" and b.args[0] == "len":
                x = b.args[1]
                return self.over(x, lambda n: body(mk("idx", x, n)), mods)
            return self.over(coll, lambda n: body(mk("elem", coll, n)), mods)
        if op == "call" and coll.args[0] in ("list", "tuple", "iter", "set", "frozenset") and len(coll.args) == 2:
            m = (mk("viaset"),) if coll.args[0] in ("set", "frozenset") else ()
            return self.iterate(coll.args[1], body, node, mods + m)
        if op == "unpack" and self.unpack_arity(coll):
            for i in range(self.unpack_arity(coll)):
                self.one(mk("fld", coll.args[0], i, coll.args[1]), TRUE, body)
            return
        if op == "bin" and coll.args[0] == "+":
            if self.listlike(coll.args[1]) or self.listlike(coll.args[2]):
                self.iterate(coll.args[1], body, node, mods)
                self.iterate(coll.args[2], body, node, mods)
                return
        if op == "never":
            return
        if op in ("slot", "val"):
            d = self.snap(coll.args[0])
            k = self.snap(coll.args[1]) if op == "slot" else mk("key", d, coll.args[1])
            if d.op == "build" and d.args[0] == "group":
                for e in d.args[1:]:
                    loops, g, v, ek = self.fresh_entry(e, True, both=True)
                    self.loop_region(self.with_mods(loops, mods, v), band(g, cmp("==", ek, k)), lambda v=v: body(v)) if loops else self.one(v, band(g, cmp("==", ek, k)), body)
                return
        t = self.typeof(coll)
        if isinstance(t, tuple) and t[0] == "dict":
            return self.over(coll, lambda n: body(mk("key", coll, n)), mods)
        if isinstance(t, Class) and t.method("__iter__"):
            f = t.method("__iter__")
            r = self.call_func(f, [coll], {}, node)
            if r.op != "call":
                return self.iterate(r, body, node, mods)
        return self.over(coll, lambda n: body(mk("elem", coll, n)), mods)

    def with_mods(self, loops, mods, v):
        """Loops taken in another order (sorted, reversed...) by what iterates over the elements v."""
        if not mods:
            return loops
        ms = tuple(mk("bysort", self.sort_key(m.args[0], v), m.args[1]) if m.op == "bysort" else mk("viaset", v) if m.op == "viaset" and not m.args else m for m in mods)
        return tuple(mk("loop", l.args[0], l.args[1], *l.args[2:], *ms) if l.op == "loop" else l for l in loops)

    def listlike(self, t):
        return t.op in ("list", "build", "tuple", "cobj", "sorted") or (t.op == "call" and t.args[0] in ("list", "sorted"))

    def fresh_entry(self, e, isdict=False, both=False):
        loops, g, v, k = e.args[0].args, e.args[1], e.args[2], e.args[3]
        mapping = {}
        new = []
        for l in loops:
            if l.op == "loop":
                coll, n = l.args[0], l.args[1]
                m = self.depth_of(coll)
                if m != n:
                    mapping[(coll.id, n)] = m
                new.append(mk("loop", coll, m, *l.args[2:]))
            else:
                new.append(l)
        if mapping:
            def f(x):
                if x.op in ("elem", "key", "val", "idx", "zelem") and (x.args[0].id, x.args[1]) in mapping:
                    return mk(x.op, x.args[0], mapping[(x.args[0].id, x.args[1])], *x.args[2:])
                return x
            memo = {}
            g, v, k = tm.rewrite(g, f, memo), tm.rewrite(v, f, memo), tm.rewrite(k, f, memo)
        if both:
            return tuple(new), g, v, k
        return tuple(new), g, (k if isdict else v)

    def one(self, v, g, body):
        if g is TRUE:
            body(v)
        else:
            self.cond_exec(g, lambda: body(v), lambda: None)

    def collect(self, kind, coll, node=None, f=None, key=None):
        """Evaluate an iterable into a build term."""
        acc = self.push_acc()
        bl, br = self.loops, self.st.reach

        def body(e):
            loops, g = self.rel_ctx(bl, br)
            v = f(e) if f else e
            loops, g = self.rel_ctx(bl, br)
            if self.st.alive:
                acc.append(entry(loops, g, v, key(e) if key else None))
        self.iterate(coll, body, node)
        out = build(kind, list(acc))
        self.pop_acc(acc)
        return out

    def as_build(self, t, kind="list", node=None):
        """Collection with explicit entries when possible."""
        t = self.snap(t)
        if t.op in ("list", "tuple", "set", "dict") and not any(a.op == "star" for a in t.args):
            return t
        if t.op == "build":
            return t
        return self.collect(kind, t, node)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts):
        for s in stmts:
            if not self.st.alive:
                return
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.truncated = True
            raise Budget()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.ev(s.value)
        t = self.prog.ann_type(self.frame.module, s.annotation)
        if t and v.op not in ("const",):
            self.types.setdefault(v, t)
        self.assign(s.target, v, s)

    def x_AugAssign(self, s):
        op = self.BINOPS.get(type(s.op), "?")
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, s.target)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value)
            cur = self.getattr(base, s.target.attr, s.target)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value)
            idx = self.ev_slice(s.target.slice)
            cur = self.index(base, idx)
        else:
            return
        v = self.ev(s.value)
        if cur.op == "cobj" and op in ("|", "+"):
            self.extend(cur, v, s)
            return
        new = self.binary(op, cur, v, s)
        if isinstance(s.target, ast.Name):
            self.set_var(s.target.id, new)
        elif isinstance(s.target, ast.Attribute):
            self.set_attr(base, s.target.attr, new, s)
        else:
            self.set_item(base, idx, new, s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.set_var(t.id, v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.set_attr(base, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.ev_slice(t.slice)
            self.set_item(base, idx, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v2 = self.snap(v) if v.op == "cobj" else v
            self.event("unpackto", str(len(t.elts)) if not stars else "*", node, args=[v2])
            if not stars:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.index(v2, const(i)), node)
            else:
                si = stars[0]
                after = len(t.elts) - si - 1
                for i, e in enumerate(t.elts[:si]):
                    self.assign(e, self.index(v2, const(i)), node)
                if v2.op in ("tuple", "list") and not any(a.op == "star" for a in v2.args):
                    mid = mk("list", *v2.args[si:len(v2.args) - after])
                else:
                    mid = mk("slice", v2, const(si), const(-after) if after else NONE)
                self.assign(t.elts[si].value, mid, node)
                for j, e in enumerate(t.elts[si + 1:]):
                    self.assign(e, self.index(v2, const(j - after)), node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)

    def set_var(self, name, v):
        fr = self.frame
        if fr.func is not None and isinstance(fr.func, Func):
            loc, non, glo = fr.func.scope()
            if name in glo:
                self.st.store[("g", fr.module.name, name)] = v
                return
            if name in non:
                p = fr.parent
                while p is not None:
                    if ("v", p.id, name) in self.st.store or (p.func and name in p.func.scope()[0]):
                        self.st.store[("v", p.id, name)] = v
                        self.st.store.pop(("a", p.id, name), None)
                        return
                    p = p.parent
        self.st.store[("v", fr.id, name)] = v
        self.st.store.pop(("a", fr.id, name), None)

    def set_attr(self, base, name, v, node):
        if base.op == "ite":
            leaves = [(g, l) for g, l in tm.cases(base) if l is not NONE]
            if len(leaves) == 1:
                base = leaves[0][1]
            else:
                for g, l in leaves:
                    self.cond_exec(g, lambda l=l: self.set_attr(l, name, v, node), lambda: None)
                return
        self.event("setattr", name, node, recv=base, args=[v])
        self.st.store[("f", base, name)] = v

    def set_item(self, base, idx, v, node):
        self.event("setitem", "[]=", node, recv=base, args=[idx, v])
        self.put_item(base, idx, v)

    def put_item(self, base, idx, v):
        if base.op == "ite":
            for g, l in tm.cases(base):
                if l.op == "cobj":
                    self.cond_exec(g, lambda l=l: self.put_item(l, idx, v), lambda: None)
        if base.op == "cobj":
            self.c_append(base, v, idx)
        else:
            self.st.store.pop(("i", base), None)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if not self.st.alive:
            return
        self.do_return(v, s)

    def do_return(self, v, node):
        fr = self.frame
        loops = self.loops[len(fr.entry_loops):]
        self.st.nrisk = len(self.risks)
        fr.returns.append((self.st, v, loops, node))
        if loops:
            self.loop_returns.append((strip_epoch(band(*self.st.reach)), loops, node))
        self.abrupt.append((self.loops, self.st.reach, fr.id, None))
        st = self.st.copy()
        st.alive = False
        self.st = st

    def x_If(self, s):
        c = truth(self.snap(self.ev(s.test)))
        if not self.st.alive:
            return
        self.cond_exec(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Assert(self, s):
        c = self.known(truth(self.snap(self.ev(s.test))))
        if c is TRUE:
            return
        st0 = self.st
        neg = st0.copy()
        neg.reach = st0.reach + (bnot(c),)
        self.st = neg
        self.event("raise", "AssertionError", s, args=[])
        self.st = st0
        self.st.reach = self.st.reach + (c,)

    def x_Raise(self, s):
        if s.exc is None:
            name, v = None, NONE
        else:
            v = self.ev(s.exc)
            name = self.exc_name(v)
        if s.cause is not None:
            self.ev(s.cause)
        if not self.st.alive:
            return
        self.event("raise", name, s, args=[v])
        self.abrupt.append((self.loops, self.st.reach, None, name or "BaseException"))
        self.st = self.st.copy()
        self.st.alive = False

    def exc_name(self, v):
        if v.op == "obj":
            return v.args[0]
        if v.op == "class":
            return v.args[0].split(".")[-1]
        if v.op == "lib":
            return v.args[0].split(".")[-1]
        if v.op == "call":
            return v.args[0].split(".")[-1]
        if v.op == "excval":
            return "@reraise"
        return "?"

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                idx = self.ev_slice(t.slice)
                self.event("delitem", "del[]", s, recv=base, args=[idx])
                self.c_remove(base, idx)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value)
                self.event("delattr", t.attr, s, recv=base)

    def c_remove(self, base, what):
        if base.op == "cobj":
            bl, br = self.objctx.get(base, ((), ()))
            loops, g = self.rel_ctx(bl, br)
            c = self.content(base)
            self.st.store[("c", base)] = mk("minus", c, entry(loops, g, what))

    def x_FunctionDef(self, s):
        f = self.prog.funcs.get(id(s))
        if f is None or self.frame.func is not None:
            f = Func(self.frame.module, s, f"{self.frame.func.qual if self.frame.func else self.frame.module.name}.{s.name}")
            f.cls_ctx = self.frame.cls
            t = mk("closure", f.qual, s.lineno, self.frame.id)
            self.callables[t] = (f, self.frame, self.eval_defaults(s.args))
        else:
            t = self.func_term(f)
        self.set_var(s.name, t)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s):
        self.set_var(s.name, mk("localclass", s.name, s.lineno))

    def x_Import(self, s):
        for al in s.names:
            if al.asname:
                self.set_var(al.asname, mk("module", al.name))
            else:
                self.set_var(al.name.split(".")[0], mk("module", al.name.split(".")[0]))

    def x_ImportFrom(self, s):
        table = {}
        self.prog._import_from(self.frame.module, s, table)
        for name, (_, base, attr) in table.items():
            v = None
            if base in self.prog.modules:
                v = self.module_attr(self.prog.modules[base], attr)
            elif f"{base}.{attr}" in self.prog.modules:
                v = mk("module", f"{base}.{attr}")
            if v is None:
                v = mk("lib", f"{base}.{attr}" if base else attr)
            self.set_var(name, v)

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    # ---- loops

    def x_For(self, s):
        coll = self.ev(s.iter)
        if not self.st.alive:
            return
        self.for_loop(coll, lambda v: self.assign(s.target, v, s), s.body, s.orelse, s)

    x_AsyncFor = x_For

    def for_loop(self, coll, bind, body, orelse, node):
        fr = self.frame
        brk = self.push_acc()
        base_loops, base_reach = self.loops, self.st.reach
        ab = len(self.abrupt)
        had = {k: set(v.args) for k, v in self.st.store.items() if k[0] == "c" and v.op == "content"}

        def run(v):
            cont = self.push_acc()
            fr.loopctx.append((brk, cont, len(base_loops)))
            r0 = self.st.reach
            bind(v)
            self.exec_block(body)
            fr.loopctx.pop()
            ends = [(band(*st.reach[len(r0):]), st, NONE) for st in cont]
            if ends:
                if self.st.alive:
                    ends.append((band(*self.st.reach[len(r0):]), self.st, NONE))
                st, _ = self.merge(r0, ends)
                # iteration over: whatever guard ended it, the next element starts from r0
                self.st = st.copy()
                self.st.alive = True
            self.pop_acc(cont)

        self.iterate(coll, run, node)
        normal = self.st
        self.pop_acc(brk)
        if brk:
            self.cut_content([normal] + [st for st, _ in brk], brk, base_loops, base_reach, had)
        self.finish_loop(normal, brk, base_loops, base_reach, orelse)

    def cut_content(self, states, brk, base_loops, base_reach, had):
        """What is collected in a loop that may be left early comes from the elements before that."""
        n = len(base_reach)
        for loops, g in {(loops[len(base_loops):], band(*(st.reach[n:] if st.reach[:n] == base_reach else st.reach))): None for st, loops in brk}:
            if not loops or any(l.op != "loop" for l in loops):
                continue
            cut = bnot(mk("gone", mk("loops", *loops), mk("tuple", *[mk("elem", l.args[0], l.args[1]) for l in loops]), g))
            done = {}
            for st in states:
                for k, v in list(st.store.items()):
                    if k[0] != "c" or v.op != "content":
                        continue
                    p = len(base_loops) - len(self.objctx.get(k[1], ((), ()))[0])
                    if p < 0:
                        continue
                    es = [mk("entry", e.args[0], band(e.args[1], cut), *e.args[2:]) if isinstance(e, T) and e.op == "entry" and e not in had.get(k, ()) and e.args[0].args[p:p + len(loops)] == loops and not tm.mentions(e.args[1], lambda x: x is cut.args[0]) else e for e in v.args]
                    if es != list(v.args):
                        st.store[k] = mk("content", *es)

    def finish_loop(self, normal, brk, base_loops, base_reach, orelse):
        if not brk:
            self.st = normal
            if orelse and normal.alive:
                self.exec_block(orelse)
            return
        conds, states = [], []
        n = len(base_reach)
        for st, loops in brk:
            rel = loops[len(base_loops):]
            g = band(*(st.reach[n:] if st.reach[:n] == base_reach else st.reach))
            c = mk("any", mk("loops", *rel), g) if rel else g
            s2 = st.copy()
            s2.alive = True
            s2.reach = base_reach + (c,)
            # loop-dependent values: the first matching iteration's
            if rel:
                for k in list(s2.store):
                    v = s2.store[k]
                    if k[0] in ("v", "f") and v is not normal.store.get(k) and self._loop_dep_keys(v, rel):
                        s2.store[k] = mk("first", build("list", [entry(rel, g, v)]))
                for k in list(s2.store):
                    if k[0] == "c":
                        v, w = s2.store[k], normal.store.get(k)
                        if v is not w and v.op == "content":
                            s2.store[k] = mk("content", *[e for e in v.args if not (isinstance(e, T) and e.args[1].op == "carry")])
            conds.append(c)
            states.append(s2)
        none = band(*[bnot(c) for c in conds])
        if normal.alive:
            normal = normal.copy()
            normal.reach = normal.reach + (none,) if none is not TRUE else normal.reach
            if none is FALSE:
                normal.alive = False
            self.st = normal
            if orelse and normal.alive:
                self.exec_block(orelse)
            normal = self.st
        branches = [(c, s, NONE) for c, s in zip(conds, states)] + [(none, normal, NONE)]
        self.st, _ = self.merge(base_reach, branches)

    def _loop_dep_keys(self, v, rel):
        return self._loop_dep(v, rel)

    def x_While(self, s):
        if self.try_index_while(s):
            return
        fr = self.frame
        brk = self.push_acc()
        base_loops, base_reach = self.loops, self.st.reach
        loop = mk("while", self.new_uid())

        def body():
            c = self.known(truth(self.snap(self.ev(s.test))))
            if c is FALSE:
                return
            r0 = self.st.reach
            if c is not TRUE:
                self.st.reach = r0 + (c,)
            self._while_cond = c
            self.whiles[loop] = c
            cont = self.push_acc()
            fr.loopctx.append((brk, cont, -1))
            self.exec_block(s.body)
            fr.loopctx.pop()
            ends = [(band(*st.reach[len(r0):]), st, NONE) for st in cont]
            if ends:
                if self.st.alive:
                    ends.append((band(*self.st.reach[len(r0):]), self.st, NONE))
                st, _ = self.merge(r0, ends)
                self.st = st.copy()
                self.st.alive = True
            self.pop_acc(cont)

        self.loop_region((loop,), TRUE, body)
        normal = self.st
        self.pop_acc(brk)
        if isinstance(s.test, ast.Constant) and s.test.value:
            normal = normal.copy()
            normal.alive = False
            if brk:
                conds = []
                n = len(base_reach)
                branches = []
                for st, loops in brk:
                    g = band(*(st.reach[n:] if st.reach[:n] == base_reach else st.reach))
                    s2 = st.copy()
                    s2.alive = True
                    s2.reach = base_reach
                    for k in list(s2.store):
                        v = s2.store[k]
                        if k[0] == "c" and v.op == "content":
                            s2.store[k] = mk("content", *[e for e in v.args if not (isinstance(e, T) and e.args[1].op == "carry")])
                    branches.append((g, s2, NONE))
                self.st, _ = self.merge(base_reach, branches)
                self.st.reach = base_reach
                return
            self.st = normal
            return
        self.finish_loop(normal, brk, base_loops, base_reach, s.orelse)

    def try_index_while(self, s):
        """`i = 0; while i < len(X): ... X[i] ...; i += 1` is iteration over a range, and so are counting down and `while len(X) < n: ... X.append(...)`."""
        t = s.test
        if s.orelse or not s.body:
            return False
        op = type(t.ops[0]) if isinstance(t, ast.Compare) and len(t.ops) == 1 else None
        if op in (ast.Gt, ast.GtE) and not isinstance(t.left, ast.Name):
            left, right, op = t.comparators[0], t.left, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        elif op in (ast.Lt, ast.Gt, ast.NotEq):
            left, right = t.left, t.comparators[0]
            if op is ast.Gt and isinstance(right, ast.Name) and not (isinstance(left, ast.Name) and self.step_at(s.body, left.id, ast.Sub)):
                left, right, op = right, left, ast.Lt
        elif isinstance(t, ast.Name):
            left, right, op = t, ast.Constant(0), ast.Gt
        else:
            return False
        if op not in (ast.Lt, ast.Gt, ast.NotEq):
            return False
        if op is ast.Lt and isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == "len" and len(left.args) == 1 and not left.keywords:
            return self.try_filling_while(s, left.args[0], right)
        if not isinstance(left, ast.Name):
            return False
        name = left.id
        cur = self.st.store.get(("v", self.frame.id, name))
        if cur is None:
            return False
        cur = self.snap(cur)
        up = self.step_at(s.body, name, ast.Add)
        down = self.step_at(s.body, name, ast.Sub)
        if up is not None and op in (ast.Lt, ast.NotEq) and is_const(cur, 0):
            at, way = up, 1
        elif down is not None and op in (ast.Gt, ast.NotEq) and isinstance(right, ast.Constant) and right.value == 0 and not isinstance(right.value, bool):
            at, way = down, -1
            if cur.op == "mu" or op is not ast.Gt and not (cur.op in ("fld", "call") or cur.op == "const" and isinstance(cur.args[0], int) and cur.args[0] >= 0):
                return False
        else:
            return False
        rest = s.body[:at] + s.body[at + 1:]
        for st in rest:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                    return False
                if isinstance(n, ast.Continue) and at:
                    return False
                if isinstance(n, ast.Break) and way < 0:
                    return False
        if not self.unchanged_by(rest, right):
            return False
        bound = self.snap(self.ev(right))
        shift = 0 if at else way
        if not any(isinstance(n, ast.Name) and n.id == name for st in rest for n in ast.walk(st)):
            r = mk("rng", const(0), bound if way > 0 else cur, const(1))
        elif way > 0:
            r = mk("rng", const(0), bound, const(1)) if not shift else None
            if r is None and bound.op == "const" and isinstance(bound.args[0], int):
                r = mk("rng", const(1), const(bound.args[0] + 1), const(1))
            if r is None:
                r = mk("rng", const(1), self.binary("+", bound, const(1)), const(1))
        elif shift:
            r = mk("rng", self.binary("-", cur, const(1)), const(-1), const(-1))
        else:
            r = mk("rng", cur, const(0), const(-1))
        self.for_loop(r, lambda v: self.set_var(name, v), rest, [], s)
        if self.st.alive:
            self.set_var(name, bound if way > 0 or cur.op in ("fld", "call") else const(0))
        return True

    def step_at(self, body, name, op):
        """The place of the one statement that changes a counter by one, at the start or the end of a body."""
        for at in dict.fromkeys((len(body) - 1, 0)):
            x = body[at]
            if isinstance(x, ast.AugAssign) and isinstance(x.op, op) and isinstance(x.target, ast.Name) and x.target.id == name \
                    and isinstance(x.value, ast.Constant) and x.value.value == 1 and not isinstance(x.value.value, bool):
                return at
        return None

    def unchanged_by(self, body, e):
        """No statement of a loop changes what an expression gives."""
        if any(not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Call, ast.BinOp, ast.operator, ast.expr_context)) for n in ast.walk(e)):
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "min", "max", "int")):
                return False
        parts = {ast.dump(n).replace("Store()", "Load()") for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute))}
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and ast.dump(n).replace("Store()", "Load()").replace("Del()", "Load()") in parts:
                    return False
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and ast.dump(n.value) in parts:
                    return False
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "add", "update", "discard", "popleft", "appendleft", "popitem", "setdefault") and ast.dump(n.func.value) in parts:
                    return False
        return True

    def try_filling_while(self, s, box, right):
        """`while len(X) < n: ... X.append(...)` takes n rounds."""
        if not isinstance(box, (ast.Name, ast.Attribute)):
            return False
        d = ast.dump(box)
        v = self.snap(self.quiet_ev(box))
        if not (v.op == "list" and not v.args or v.op == "build" and v.args == ("list",)):
            return False
        uses = [n for st in s.body for n in ast.walk(st) if isinstance(n, (ast.Name, ast.Attribute)) and ast.dump(n).replace("Store()", "Load()") == d]
        adds = [x for x in s.body if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append"
                and ast.dump(x.value.func.value) == d and len(x.value.args) == 1 and not isinstance(x.value.args[0], ast.Starred)]
        if len(uses) != 1 or len(adds) != 1 or any(isinstance(n, (ast.Break, ast.Continue)) for st in s.body for n in ast.walk(st)) or not self.unchanged_by(s.body, right):
            return False
        bound = self.snap(self.ev(right))
        self.for_loop(mk("rng", const(0), bound, const(1)), lambda v: None, s.body, [], s)
        return True

    def x_Break(self, s):
        fr = self.frame
        if fr.loopctx:
            fr.loopctx[-1][0].append((self.st, self.loops))
            if len(self.loops) > fr.loopctx[-1][2]:     # a loop over given values is not one
                self.event("break", "break", s)
        self.st = self.st.copy()
        self.st.alive = False

    def x_Continue(self, s):
        fr = self.frame
        if fr.loopctx:
            fr.loopctx[-1][1].append(self.st)
        self.st = self.st.copy()
        self.st.alive = False

    # ---- exceptions

    def handler_names(self, h):
        if h.type is None:
            return ("BaseException",)
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in types:
            d = dotted_name(t)
            if d is None:
                out.append("?")
                continue
            v = self.quiet_ev(t)
            if v.op in ("tuple", "list"):
                for x in v.args:
                    out.append(self.exc_name(x))
            elif v.op == "const" and isinstance(v.args[0], tuple):
                out.append("?")
            else:
                n = self.exc_name(v)
                out.append(d if n == "?" else n)
        return tuple(out)

    def quiet_ev(self, node):
        self.quiet += 1
        try:
            return self.ev(node)
        finally:
            self.quiet -= 1

    def x_Try(self, s):
        names = [self.handler_names(h) for h in s.handlers]
        self.do_try(s, lambda: self.exec_block(s.body), names,
                    [(lambda h=h: self.exec_block(h.body), h.name) for h in s.handlers],
                    (lambda: self.exec_block(s.orelse)) if s.orelse else None,
                    (lambda: self.exec_block(s.finalbody)) if s.finalbody else None,
                    stmts=s.body)

    x_TryStar = x_Try

    def do_try(self, node, body, names, handlers, orelse, final, stmts=None):
        tid = self.new_uid()
        info = TryInfo(tid, node, names, self.frame.module)
        info.loops = self.loops
        info.has_final = final is not None
        self.tries[tid] = info
        st0 = self.st
        zones0, loops0 = self.zones, self.loops
        start = st0.copy()
        risk0 = len(self.risks)
        ab0 = len(self.abrupt)
        ret0, frame0 = len(self.frame.returns), self.frame
        self.zones = zones0 + ((tid, "body"),)
        before_last = st0
        self.st = start
        if stmts is not None and len(stmts) > 1:
            snaps = [st0]
            for x in stmts:
                if not self.st.alive:
                    break
                snaps.append(self.st.copy())
                self.exec(x)
            body_end = self.st
            entry_states = snaps
        else:
            body()
            body_end = self.st
            entry_states = [st0]
        self.zones = zones0
        risks = self.risks[risk0:]
        caught = {n.rsplit(".", 1)[-1] for ns in names for n in ns}
        self.abrupt[ab0:] = [a for a in self.abrupt[ab0:] if a[3] is None or not caught & set(exc_ancestors(self.prog, a[3]))]
        # condition of each handler
        conds = []
        prev = []
        for i, ns in enumerate(names):
            c = self.exc_cond(ns, risks, tid, i)
            c = band(c, *[bnot(p) for p in prev])
            prev.append(c)
            conds.append(c)
        info.conds, info.reach0, info.risks = conds, st0.reach, risks
        none = band(*[bnot(c) for c in conds]) if conds else TRUE
        # a return of the body was reached without exception
        for st, *_ in frame0.returns[ret0:]:
            late = [c for c in conds if c.op == "exc" or getattr(st, "nrisk", 0) == len(self.risks)]
            if late and getattr(st, "nrisk", 0) > risk0:
                st.reach = st.reach + tuple(bnot(c) for c in late)
        branches = []
        if body_end.alive and stmts and isinstance(stmts[-1], (ast.Expr, ast.Assign, ast.AugAssign)) and none.op != "const":
            # what the last statement adds is added if it did not raise
            for k, v in list(body_end.store.items()):
                was = entry_states[-1].store.get(k)
                if k[0] == "c" and v.op == "content" and was is not None and was.op == "content" and v is not was and v.args[:len(was.args)] == was.args:
                    body_end.store[k] = mk("content", *was.args, *[mk("entry", e.args[0], band(e.args[1], none), *e.args[2:]) if e.op == "entry" else e for e in v.args[len(was.args):]])
        if body_end.alive:
            body_end.reach = body_end.reach + ((none,) if none is not TRUE and conds else ())
            if none is FALSE:
                body_end.alive = False
            self.st = body_end
            if orelse and body_end.alive:
                self.zones = zones0 + ((tid, "else"),)
                orelse()
                self.zones = zones0
            branches.append((none, self.st, NONE))
        elif orelse:
            pass
        for i, (h, bindname) in enumerate(handlers):
            if conds[i] is FALSE:
                continue
            hs = st0.copy()
            for k in list(body_end.store):
                vals = [x.store.get(k) for x in entry_states]
                if any(v is not vals[0] for v in vals):
                    old = [v for v in vals if v is not None]
                    hs.store[k] = old[0] if len(set(map(id, old))) == 1 else mk("phi", *old)
                elif k[0] == "c" and body_end.store[k] is not hs.store.get(k):
                    hs.store[k] = body_end.store[k] if hs.store.get(k) is None else hs.store[k]
            hs.reach = st0.reach + (conds[i],)
            self.st = hs
            self.zones = zones0 + ((tid, f"handler{i}"),)
            if bindname:
                self.set_var(bindname, mk("excval", "|".join(names[i]), tid))
            h()
            self.zones = zones0
            branches.append((conds[i], self.st, NONE))
        if not branches:
            dead = body_end.copy()
            dead.alive = False
            self.st = dead
        else:
            self.st, _ = self.merge(st0.reach, branches)
        if final:
            self.zones = zones0 + ((tid, "finally"),)
            if self.st.alive:
                final()
            else:
                keep = self.st
                tmp = body_end.copy()
                tmp.alive = True
                tmp.reach = st0.reach
                self.st = tmp
                final()
                if not self.st.alive:
                    pass
                self.st = keep
            self.zones = zones0

    def exc_cond(self, names, risks, tid, i):
        """Canonical condition of an exception handler when the failing operation is unique."""
        known = {"IndexError", "KeyError", "LookupError", "StopIteration"}
        if all(n in known for n in names):
            ops = [r for r in risks if r[0] in ("index", "next", "call")]
            idx = [r for r in ops if r[0] == "index"]
            nxt = [r for r in ops if r[0] == "next"]
            calls = [r for r in ops if r[0] == "call"]
            if "StopIteration" in names and len(nxt) == 1 and len(names) == 1:
                return bnot(nxt[0][1])
            if len(idx) == 1 and not calls and "StopIteration" not in names:
                base, k = idx[0][1], idx[0][2]
                if "KeyError" in names and len(names) == 1:
                    return bnot(cmp("in", k, base))
                if "IndexError" in names and (is_const(k, -1) or is_const(k, 0)):
                    return bnot(truth(base))
        return mk("exc", "|".join(names), tid, i)

    # ---- with

    def x_With(self, s):
        self.with_items(list(s.items), s.body, s)

    x_AsyncWith = x_With

    def with_items(self, items, body, node):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        ctx = self.ev(it.context_expr)
        if not self.st.alive:
            return

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, node)
            self.with_items(items[1:], body, node)
        self.enter_cm(ctx, inner, it.context_expr)

    def enter_cm(self, ctx, inner, node):
        if ctx.op == "gen" and self.gens[ctx][0].is_cm:
            self.run_gen(ctx, inner, node)
            return
        if ctx.op == "call" and ctx.args[0] == "contextlib.suppress":
            names = tuple(self.exc_name(a) for a in ctx.args[1:] if isinstance(a, T))
            self.do_try(node, lambda: inner(NONE), [names], [(lambda: None, None)], None, None)
            return
        if ctx.op == "call" and ctx.args[0] in ("contextlib.closing", "contextlib.nullcontext") and len(ctx.args) > 1:
            inner(ctx.args[1])
            return
        t = self.typeof(ctx)
        if isinstance(t, Class) and t.method("__enter__") and t.method("__exit__"):
            v = self.call_func(t.method("__enter__"), [ctx], {}, node)
            if not self.st.alive:
                return
            ex = t.method("__exit__")

            def on_exc():
                ev = mk("excval", "BaseException", self.new_uid())
                r = self.call_func(ex, [ctx, ev, ev, ev], {}, node)
                c = truth(self.snap(r))

                def rr():
                    self.event("raise", None, node, args=[NONE])
                    self.st = self.st.copy()
                    self.st.alive = False
                self.cond_exec(c, lambda: None, rr)
            self.do_try(node, lambda: inner(v), [("BaseException",)], [(on_exc, None)], lambda: self.call_func(ex, [ctx, NONE, NONE, NONE], {}, node), None)
            return
        if ctx.op == "ite":
            c, a, b = ctx.args
            if a.op in ("gen", "obj") or b.op in ("gen", "obj"):
                self.cond_exec(c, lambda: self.enter_cm(a, inner, node), lambda: self.enter_cm(b, inner, node))
                return
        self.event("with", "enter", node, recv=ctx)
        inner(ctx)
        self.event("withexit", "exit", node, recv=ctx)

    # ---- match

    def x_Match(self, s):
        subj = self.ev(s.subject)

        def run(cases):
            if not cases:
                return
            c = cases[0]
            cond, binds = self.match_pattern(c.pattern, self.snap(subj))

            def then():
                for n, v in binds:
                    self.set_var(n, v)
                if c.guard is not None:
                    g = truth(self.snap(self.ev(c.guard)))
                    self.cond_exec(g, lambda: self.exec_block(c.body), lambda: run(cases[1:]))
                else:
                    self.exec_block(c.body)
            self.cond_exec(cond, then, lambda: run(cases[1:]))
        run(s.cases)

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return cmp("==", v, self.ev(p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return cmp("is", v, const(p.value)), []
        if isinstance(p, ast.MatchOr):
            cs = [self.match_pattern(q, v) for q in p.patterns]
            return bor(*[c for c, _ in cs]), cs[0][1]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            c, b = self.match_pattern(p.pattern, v)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchSequence) and v.op == "tuple" and len(v.args) == len(p.patterns):
            cs = [self.match_pattern(q, x) for q, x in zip(p.patterns, v.args)]
            return band(*[c for c, _ in cs]), [b for _, bs in cs for b in bs]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, self.ev(p.cls)), []
        return mk("truthy", mk("match", v, ast.dump(p))), []

    # ------------------------------------------------------------ roots

    def later(self, f, args, node=None):
        """The events of a call made, after the analysis of the root, of a function it has handed over."""
        n = len(self.events)
        self.st = self.st.copy()
        self.st.alive, self.st.reach = True, ()
        self.loops = ()
        self.frame = self.root_frame
        self.apply(f, list(args), {}, node if node is not None else self.root_frame.func.node)
        return self.events[n:]

    def run(self, func, args=None, self_type=None, consts=None, max_steps=None, collect=False):
        """Analyse a root. args: {param name: T}; untouched parameters are symbolic.

        With `collect`, a lazy result (generator, filter, ...) is consumed, and the result is a collection term.
        """
        self.reset()
        if max_steps:
            self.MAX_STEPS = max_steps
        args = dict(args or {})
        bind = {}
        params = all_args(func.node.args)
        for i, a in enumerate(params):
            if a.arg in args:
                bind[a.arg] = args[a.arg]
                continue
            p = mk("param", a.arg)
            t = self.prog.ann_type(func.module, a.annotation) if a.annotation is not None else None
            if i == 0 and func.cls is not None and not func.is_static:
                c = self_type or func.cls
                if func.is_classmethod:
                    p = mk("class", c.qual)
                    bind[a.arg] = p
                    continue
                t = c
            if t is not None:
                self.types[p] = t
            bind[a.arg] = p
        self.frame = Frame(self.new_uid(), None, func.module, None, None, (), ())
        self.stack = ((func.qual, None),)
        fr = Frame(self.new_uid(), func, func.module, None, self_type or func.cls, (), ())
        self.inlined.add(func.qual)
        self.root_frame = fr
        self.root_returns = []
        self.loop_returns = []      # returns that leave a loop of their function: (guard, loops, node)
        for k, v in bind.items():
            self.st.store[("v", fr.id, k)] = v
        saved = self.frame
        self.frame = fr
        self.live.append(fr.returns)
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body)
                if self.st.alive:
                    fr.returns.append((self.st, v, (), func.node))
            else:
                if func.is_gen:
                    fr.hook = self.root_yield
                self.exec_block(func.node.body)
                if self.st.alive:
                    fr.returns.append((self.st, NONE, (), func.node))
            self.root_returns = [(strip_epoch(band(*st.reach)), v, loops, node) for st, v, loops, node in fr.returns]
            v, st = self.fold_returns(fr)
            if st.alive:
                self.st = st
            if collect:
                if func.is_gen:
                    v = build("list", [entry(e.loops, e.guard, e.args[0], None) for e in self.events if e.kind == "yield"])
                elif st.alive:
                    self.st = st
                    v = self.collect("list", v, func.node)
                    st = self.st
        except Budget:
            v, st = mk("unknown", "budget"), self.st
        except RecursionError:
            self.truncated = True
            v, st = mk("unknown", "recursion"), self.st
        self.result = strip_epoch(self.snap(v))
        self.final = st
        self.frame = saved
        return self

    def root_yield(self, v):
        self.event("yield", "yield", self._yield_node, args=[v])

    def fold_returns(self, fr):
        rets = fr.returns
        if not rets:
            st = self.st.copy()
            st.alive = False
            return mk("never"), st
        n = len(fr.entry_reach)
        branches = []
        for st, v, loops, node in rets:
            g = band(*(st.reach[n:] if st.reach[:n] == fr.entry_reach else st.reach))
            if loops:
                c = mk("any", mk("loops", *loops), g)
                if self._loop_dep(v, loops):
                    v = mk("first", build("list", [entry(loops, g, v)]))
                s2 = st.copy()
                s2.reach = fr.entry_reach + (c,)
                for k in list(s2.store):
                    x = s2.store[k]
                    if k[0] == "c" and x.op == "content":
                        s2.store[k] = mk("content", *[e for e in x.args if not (isinstance(e, T) and e.args[1].op == "carry")])
                branches.append((c, s2, v))
            else:
                branches.append((g, st, v))
        self.fold_branches = branches
        st, v = self.merge(fr.entry_reach, branches)
        return (v if v is not None else NONE), st
