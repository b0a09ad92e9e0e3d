"""C10: version comparison is coherent."""
from vfa.q import *

RULE = """The constructors of the version classes are analysed: each attribute they set is reduced to the sequence of numbers
it stands for (numbers of the parameter, possibly truncated, or the special text) or to the dotted text of such a
sequence. The comparison methods found through the class hierarchy are then evaluated under the three possible outcomes of comparing the
numbers: less-than, equal and greater-than methods must give the answers of a total order on an attribute that holds the
numbers themselves (never text), equality must compare an attribute that determines and is determined by the same numbers,
hashing must use such an attribute only, and inequality must be the negation of equality. Attributes must agree on the
numbers they stand for in every case of every constructor."""

CLASSES = ("storage.BaseVersion", "storage.PatchVersion", "rads.RadsVersion")


def plainnum(t):
    """The text of each element: is it the number itself?"""
    if t.op == "cat" and len(t.args) == 1:
        return t.args[0]
    return t.args[0] if t.op == "fmt" and is_const(t.args[1], "", "s", "d") else t if is_call(t, "int") or is_call(t, "str") else None


def numbers(v, P):
    """The sequence of numbers a value stands for: a term, None if unknown, 'text' when it is made of uninterpreted text."""
    if v is P:
        return P
    if v.op in ("slice",):
        b = numbers(v.args[0], P)
        return mk("slice", b, *v.args[1:]) if isinstance(b, T) else b
    es = tm.entries_of(v) if v.op in ("build", "tuple", "list") else None
    if es and len(es) == 1 and len(es[0].args[0].args) == 1 and es[0].args[1] is TRUE:
        lp = es[0].args[0].args[0]
        e = es[0].args[2]
        if len(lp.args) != 2:
            return None
        X = lp.args[0]
        inner = e.args[1] if is_call(e, "int") and len(e.args) == 2 else e
        if not (inner.op == "elem" and same(inner.args[0], X)):
            return None
        if X is P:
            return P
        if X.op == "mcall" and X.args[0] is P and X.args[1] == "split" and is_const(X.args[2], "."):
            return P if inner is not e else "text"
        return numbers(X, P)
    if v.op in ("tuple", "list") and v.args and all(a.op == "index" and is_const(a.args[1], k) and a.args[0] is v.args[0].args[0] for k, a in enumerate(v.args)):
        b = numbers(v.args[0].args[0], P)
        return mk("slice", b, NONE, const(len(v.args))) if isinstance(b, T) else b
    if is_call(v, "tuple", "list") and len(v.args) == 2:
        return numbers(v.args[1], P)
    return None


def dotted(v, P):
    """The numbers a dotted text stands for."""
    if v.op == "cat" and len(v.args) % 2 and all(is_const(a, ".") for a in v.args[1::2]):
        xs = [plainnum(a) or a for a in v.args[::2]]
        if all(x.op == "index" for x in xs):
            return numbers(mk("tuple", *xs), P)
    if v.op == "join" and is_const(v.args[0], "."):
        es = tm.entries_of(v.args[1])
        if es is None and v.args[1].op == "mcall":
            return None
        if es and len(es) == 1 and len(es[0].args[0].args) == 1 and es[0].args[1] is TRUE:
            x = plainnum(es[0].args[2])
            if is_call(x, "str") and len(x.args) == 2:
                x = x.args[1]
            if x is None:
                x = es[0].args[2]
                if x.op != "elem":
                    return None
                n = numbers(tm.build("list", [tm.entry(es[0].args[0].args, TRUE, x)]), P)
                return "text" if n is None else n
            ls = es[0].args[0]
            return numbers(tm.build("list", [tm.entry(ls.args, TRUE, x)]), P)
    return None


def meaning(v, P, G):
    """(kind, numbers) for an attribute value under guard G."""
    main = cmp("==", P, const("main"))
    if tm.entails(G, main) and (v is P or is_const(v, "main")):
        return ("both", const("main"))
    if is_const(v, "main"):
        return ("both", v)
    d = dotted(v, P)
    if d is not None:
        return ("text", d)
    if v in (P, mk("cat", P), mk("call", "str", P)) and tm.entails(G, mk("isinst", P, "str")):
        return ("raw", None)
    n = numbers(v, P)
    if n is not None:
        return ("nums", n)
    return None


def attrs_of(c, cls):
    """{attribute: [(guard, meaning, value)]} set by a constructor, and undecided values."""
    f = cls.method("__init__")
    if f is None:
        return None
    i = c.run(f, f"{cls.name}.__init__", self_type=cls)
    S, P = mk("param", f.node.args.args[0].arg), mk("param", f.node.args.args[1].arg)
    G = i.exit_guard if hasattr(i, "exit_guard") else TRUE
    bad = [e.guard for e in evs(i, "raise")]
    alive = bnot(bor(*bad)) if bad else TRUE
    final = new_attrs(i, S)
    out = {}
    for k, v in final.items():
        out[k] = []
        for cg, leaf in tm.cases(v):
            g = band(alive, cg)
            for H in split(g, P):
                w = leaf
                m = {a: True for a in tm.atoms(H)} if False else None
                w = narrow(w, H)
                out[k].append((H, meaning(w, P, H), w))
    return out, alive, f


def split(g, P):
    main, st = cmp("==", P, const("main")), mk("isinst", P, "str")
    out = []
    for h in (band(st, main), band(st, bnot(main)), band(bnot(st), bnot(main))):
        x = band(g, h)
        if tm.satisfiable(x):
            out.append(x)
    return out


def narrow(t, H):
    """Resolve the conditions inside a value that H decides."""
    def f(x):
        if x.op == "ite":
            if tm.entails(H, x.args[0]):
                return x.args[1]
            if tm.entails(H, bnot(x.args[0])):
                return x.args[2]
        if x.op == "build":
            es = [tm.entry(e.args[0].args, TRUE if tm.entails(H, e.args[1]) else e.args[1], *e.args[2:]) if e.op == "entry" else e for e in tm.entries_of(x) or ()
                  if e.op != "entry" or tm.satisfiable(band(H, e.args[1]))]
            return tm.build(x.args[0], es) if es else x
        if is_call(x, "int") and len(x.args) == 2 and is_call(x.args[1], "int") and len(x.args[1].args) == 2:
            return x.args[1]
        return x
    prev = None
    while prev is not t:
        prev, t = t, tm.rewrite(t, f)
    return t


def outcome(res, S, O, K, rel, eqs):
    """The truth of `res` when the numbers (attribute K) compare as rel: '<', '=' or '>'; eqs are attributes equal iff equal."""
    def f(x):
        if x.op == "<" and x.args[0] in kk and x.args[1] in kk:
            if x.args[0] is x.args[1]:
                return FALSE
            return TRUE if (rel == "<") == (x.args[0] is kk[0]) and rel != "=" else FALSE
        if x.op in ("==", "is") and all(isinstance(a, T) and a.op == "attr" and a.args[0] in (S, O) for a in x.args[:2]):
            a, b = x.args[:2]
            if a.args[1] == b.args[1] and a.args[1] in eqs:
                return TRUE if rel == "=" or a is b else FALSE
        if x.op == "<" and {*x.args[:2]} == {S, O}:
            return TRUE if (rel == "<") == (x.args[0] is S) and rel != "=" else FALSE
        if x.op == "mcall" and len(x.args) > 2 and {x.args[0], x.args[2]} == {S, O} and x.args[1] in DUNDER:
            return TRUE if (rel if x.args[0] is S else {"<": ">", ">": "<", "=": "="}[rel]) in DUNDER[x.args[1]] else FALSE
        if x.op in ("==", "is") and {*x.args[:2]} == {S, O}:
            return TRUE if rel == "=" else FALSE
        if x.op == "isinst" and x.args[0] in (S, O):
            return TRUE
        if x.op == "==" and set(x.args[:2]) == {mk("call", "type", S), mk("call", "type", O)}:
            return TRUE
        if x.op == "is" and set(x.args[:2]) == {mk("call", "type", S), mk("call", "type", O)}:
            return TRUE
        if x.op == "attr" and x.args[1] == "__class__":
            return const("cls")
        if x.op == "call" and x.args[0] == "type" and x.args[1] in (S, O):
            return const("cls")
        return x
    kk = (mk("attr", S, K), mk("attr", O, K))
    return tm.rewrite(tm.truth(res), f)


DUNDER = {"__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">=", "__eq__": "=", "__ne__": "<>"}


def part_of(S, O):
    """Values that depend on the attributes through constant positions, slices, text or length only."""
    def leaf(x):
        if x.op == "cat" and len(x.args) == 1:
            x = x.args[0]
        if x.op in ("index", "slice", "fmt"):
            return leaf(x.args[0])
        if x.op == "call" and x.args[0] in ("str", "int", "len", "tuple", "list", "set", "sorted") and len(x.args) == 2:
            return leaf(x.args[1])
        return x.op == "attr" and x.args[0] in (S, O)
    return leaf


ORDER = {"__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}


def one(c, qual):
    r = c.r
    cls = c.prog.cls(qual)
    got = attrs_of(c, cls)
    if got is None:
        r.und("constructor", qual)
        return
    ats, alive, f = got
    w = f"{f.module.rel}:{f.node.lineno} in {qual}.__init__"
    eqs, nums, unknown = set(), set(), set()
    for k, lst in sorted(ats.items()):
        for g, m, v in lst:
            if m is None:
                unknown.add(k)
                r.und(f"{cls.name}.{k} stands for the numbers of the version", w, text(v))
    if not ats or not all(ats.values()):
        r.und(f"{cls.name} attributes", w)
        return
    for k, lst in sorted(ats.items()):
        raw = [v for g, m, v in lst if m is not None and (m[0] == "raw" or m[1] == "text")]
        if raw:
            unknown.discard(k)
        if raw or k in unknown:
            continue
        eqs.add(k)
        if all(m[0] in ("nums", "both") for g, m, v in lst):
            nums.add(k)
    ks = sorted(eqs)
    for a in ks:
        for b in ks:
            if a < b:
                for g, m, v in ats[a]:
                    for h, n, u in ats[b]:
                        if tm.satisfiable(band(g, h)):
                            x, y = narrow(m[1], band(g, h)), narrow(n[1], band(g, h))
                            same_ = x is y
                            r.ob(same_, f"{cls.name}: {a} and {b} stand for the same numbers", w, f"{text(v)} / {text(u)}")
    (r.und if unknown and not nums else r.ok if nums else r.bad)(f"{cls.name} has the numbers themselves", w, str(sorted(ats)))

    total = any("total_ordering" in d for k in cls.mro() for d in decorators(k))
    defined = 0
    K = None
    for name, op in ORDER.items():
        m = cls.method(name)
        if m is None:
            if not total:
                r.bad(f"{cls.name} defines {op}", w, "no method")
            continue
        defined += 1
        i = c.run(m, f"{cls.name}.{name}", self_type=cls)
        S, O = (mk("param", x.arg) for x in m.node.args.args[:2])
        where = f"{m.module.rel}:{m.node.lineno} in {m.qual}"
        res = tm.rewrite(i.result, lambda x: const(None) if x.op == "x" else x)
        res = resolve(i, res, S, O)
        comps = compared(res, S, O)
        oks = None
        for K1 in sorted(nums):
            want = {"<": (1, 0, 0), "<=": (1, 1, 0), ">": (0, 0, 1), ">=": (0, 1, 1)}[op]
            outs = [outcome(res, S, O, K1, rel, eqs) for rel in "<=>"]
            if all(o is (TRUE if x else FALSE) for o, x in zip(outs, want)):
                oks = True
                break
            if all(o in (TRUE, FALSE) for o in outs):
                oks = False
        if oks is True:
            r.ok(f"{cls.name} {op} orders by the numbers", where)
        elif oks is False or comps - nums - unknown:
            r.bad(f"{cls.name} {op} orders by the numbers", where, text(res))
        elif closed(res, part_of(S, O)):
            r.bad(f"{cls.name} {op} orders by the numbers", where, text(res))
        else:
            r.und(f"{cls.name} {op} orders by the numbers", where, text(res))
    if total and not defined:
        r.bad(f"{cls.name} is ordered", w, "no ordering method")

    eq, ha, ne = cls.method("__eq__"), cls.method("__hash__"), cls.method("__ne__")
    if eq is None:
        r.bad(f"{cls.name} defines equality", w, "no __eq__")
        return
    i = c.run(eq, f"{cls.name}.__eq__", self_type=cls)
    S, O = (mk("param", x.arg) for x in eq.node.args.args[:2])
    where = f"{eq.module.rel}:{eq.node.lineno} in {eq.qual}"
    isv = [a for a in tm.atoms(tm.truth(i.result)) if a.op == "isinst" and a.args[0] is O]
    ver = {a: any(k.name in str(a.args[1]) for k in cls.mro()) for a in isv}
    res = resolve(i, tm.truth(i.result), S, O)
    inv = assume(res, ver)
    outs = [outcome(inv, S, O, sorted(nums)[0] if nums else "t", rel, eqs) for rel in "<=>"]
    if outs == [FALSE, TRUE, FALSE]:
        r.ok(f"{cls.name} equality is equality of the numbers", where)
    elif all(o in (TRUE, FALSE) for o in outs) or compared(inv, S, O) - eqs - unknown or closed(inv, part_of(S, O)):
        r.bad(f"{cls.name} equality is equality of the numbers", where, text(inv))
    else:
        r.und(f"{cls.name} equality is equality of the numbers", where, text(inv))
    for typ, ok in (("str", eqs - nums), ("tuple", nums)):
        pick = {a: str(a.args[1]).split("|")[0] == typ or typ in str(a.args[1]).split("|") for a in isv}
        x = assume(res, pick)
        used = {b.args[1] for y in subterms(x) if y.op == "==" and O in y.args for b in y.args if isinstance(b, T) and b.op == "attr" and b.args[0] is S}
        if used:
            (r.ok if used <= ok else r.und if used & unknown else r.bad)(f"{cls.name} is compared with a {typ} through the matching attribute", where, text(x))
    if ne is not None:
        j = c.run(ne, f"{cls.name}.__ne__", self_type=cls)
        S, O = (mk("param", x.arg) for x in ne.node.args.args[:2])
        v = resolve(j, tm.truth(j.result), S, O)
        outs = [outcome(assume(v, {a: any(k.name in str(a.args[1]) for k in cls.mro()) for a in tm.atoms(v) if a.op == "isinst"}), S, O, sorted(nums)[0] if nums else "t", rel, eqs) for rel in "<=>"]
        where = f"{ne.module.rel}:{ne.node.lineno} in {ne.qual}"
        if outs == [TRUE, FALSE, TRUE]:
            r.ok(f"{cls.name} != is the negation of ==", where)
        elif all(o in (TRUE, FALSE) for o in outs) or compared(v, S, O) - eqs - unknown or tm.mentions(v, lambda x: x.op == "is" and any(a.op == "attr" for a in x.args)):
            r.bad(f"{cls.name} != is the negation of ==", where, text(v))
        else:
            r.und(f"{cls.name} != is the negation of ==", where, text(v))
    # __hash__ disappears when a class defines __eq__ without it
    for k in cls.mro():
        if "__hash__" in k.methods:
            break
        if "__eq__" in k.methods:
            r.bad(f"{cls.name} is hashable", where, f"{k.name} defines __eq__ without __hash__")
            return
    if ha is None:
        r.bad(f"{cls.name} is hashable", where, "no __hash__")
        return
    j = c.run(ha, f"{cls.name}.__hash__", self_type=cls)
    S = mk("param", ha.node.args.args[0].arg)
    where = f"{ha.module.rel}:{ha.node.lineno} in {ha.qual}"
    used = {x.args[1] for x in subterms(j.result) if x.op == "attr" and x.args[0] is S} - {"__class__"}
    if tm.mentions(j.result, lambda x: x.op == "call" and x.args[0] in ("id", "object.__hash__") and x.args[1] is S):
        r.bad(f"{cls.name} hash depends on the numbers only", where, text(j.result))
    elif "__class__" in {x.args[1] for x in subterms(j.result) if x.op == "attr"} or tm.mentions(j.result, lambda x: x.op == "call" and x.args[0] in ("type", "id", "builtins.type")):
        r.und(f"{cls.name} hash depends on the numbers only", where, text(j.result))
    else:
        (r.ok if used <= eqs and (used or is_const(j.result)) else r.und if used & unknown else r.bad)(f"{cls.name} hash depends on the numbers only", where, text(j.result))


def resolve(i, res, S, O):
    """Comparisons of the objects themselves inside a comparison method are calls of the other methods."""
    return res


def compared(t, S, O):
    return {x.args[1] for x in subterms(t) if x.op == "attr" and x.args[0] in (S, O) and x.args[1] != "__class__"}


def decorators(k):
    import ast
    return [ast.unparse(d) for d in k.node.decorator_list]


def check(c):
    for q in CLASSES:
        c.part(one, q)
