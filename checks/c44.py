"""C44: progress display neither loses items nor leaks its signal handler."""
import ast
from vfa.q import *
from vfa import terms as tm

RULE = """The iteration with progress display is analysed with its signal handling inlined; variables changed by the handler are values that may change at any time. The elements yielded must be those of the sequence, each under conditions that
together always hold and never twice, whatever the handler has set; no loop may be left early and no handler may swallow the interruption. A function is installed for SIGINT before the first element is yielded, and the handler found before it
(the result of the installation, or of getsignal before it) is put back in the `finally` of a block that contains the yields, unconditionally. The installed function is itself analysed: evaluated for a first interrupt and for one long after
another, it raises nothing and records the request. What the display computes must fit (a percent format with its values; sized sequences given by the callers), because a failing display would end the iteration."""

ALL, RESTORE, INSTALL, SINGLE, SHOW, CALLERS = ("every element is yielded once", "the previous handler is put back", "a handler is installed while iterating", "an interrupt alone does not end the iteration",
                                                "the display cannot fail", "callers give a sequence whose size is known")


def check(c):
    c.part(wrapper)
    f = generator(c)
    if f is None:
        c.r.und(ALL, "cdtb/hashes.py", "no generator that displays the progress")
        return
    c.part(items, f)
    c.part(handlers, f)
    c.part(display, f)
    c.part(callers)


def generator(c):
    try:
        return c.prog.func("hashes.progress_iterate")
    except AnalysisBroken:
        pass
    try:
        i = c.run("hashes.progress_iterator")
    except AnalysisBroken:
        return None
    for e in i.events:
        if e.kind == "enter":
            for f in c.prog.funcs.values():
                if f.qual[5:] == e.name and f.is_gen and not f.is_cm:
                    return f
    return None


def first_param(f):
    ps = [a.arg for a in f.node.args.args]
    return mk("param", ps[0]) if ps else None


def free(g):
    return strip_uid(g)


def covered(r, i, where, es, seq):
    """es: [(loops, guard, value)]"""
    mine, other = [], []
    for loops, g, v in es:
        if len(loops) == 1 and loops[0].op == "loop" and len(loops[0].args) == 2 and elem_of(v, seq) and same(loops[0].args[0], seq):
            mine.append((loops, g))
        else:
            other.append((loops, g, v))
    for loops, g, v in other:
        if len(loops) == 1 and loops[0].op == "loop" and loops[0].args[0].op == "slice" and same(loops[0].args[0].args[0], seq):
            r.bad(ALL, where, f"only {text(loops[0].args[0])} is iterated over")
        elif loops and v.op == "elem" and any(l.op == "loop" and same(l.args[0], seq) for l in loops) or not loops:
            r.bad(ALL, where, f"{text(v)[:60]} is yielded too")
        else:
            r.und(ALL, where, f"{text(v)[:60]} is yielded over {[text(l)[:40] for l in loops]}")
    if other:
        return
    if not mine:
        r.bad(ALL, where, "the elements of the sequence are never yielded")
        return
    gs = [free(strip_epoch(g)) for _, g in mine]
    if not tm.entails(TRUE, bor(*gs)):
        r.bad(ALL, where, f"an element is yielded only if {text(bor(*gs))[-160:]}")
    elif any(tm.satisfiable(band(a, b)) for n, a in enumerate(gs) for b in gs[:n]):
        r.bad(ALL, where, "an element may be yielded twice")
    else:
        r.ok(ALL, where, f"{len(mine)} yield(s)")
    for loops, g in mine:
        cut = [e for e in cut_short(i, loops) if tm.satisfiable(free(e.guard))]
        for e in cut:
            r.bad(ALL, e.loc, f"the iteration is left if {text(e.guard)[-120:]}")
    for g, loops, node in i.loop_returns:
        if any(l.op == "loop" and same(l.args[0], seq) for l in loops):
            r.bad(ALL, where, f"the iteration is left by a return (line {getattr(node, 'lineno', '?')})")


def wrapper(c):
    r = c.r
    try:
        f = c.prog.func("hashes.progress_iterator")
    except AnalysisBroken:
        r.und(ALL, "cdtb/hashes.py", "progress_iterator not found")
        return
    if not f.is_gen:
        j = c.run(f)
        for g, v, loops, node in j.root_returns:
            for h, x in tm.cases(v):
                if is_const(x, None) and tm.satisfiable(band(g, h)):
                    r.bad(ALL, f.loc, f"nothing is returned if {text(g)[-100:]}")
                    return
    i = c.run(f, collect=True)
    seq = first_param(f)
    b = i.result
    leaves = tm.cases(b) if b is not None else []
    es = []
    for g, v in leaves:
        v = norm(v)
        if v is seq or v.op == "build" and v.args and same(v, seq):
            es.append(((mk("loop", seq, 0),), g, mk("elem", seq, 0)))
        elif v.op == "build" and all(e.op == "entry" for e in tm.entries_of(v)):
            for e in tm.entries_of(v):
                es.append((tuple(e.args[0].args), band(g, e.args[1]), e.args[2]))
        elif is_const(v, None):
            if tm.satisfiable(g):
                r.bad(ALL, f.loc, f"nothing is returned if {text(g)[-100:]}")
                return
        else:
            r.und(ALL, f.loc, f"the result is {text(v)[:100]}")
            return
    covered(r, i, f"{f.loc} ({f.node.name})", es, seq)


def items(c, f):
    r = c.r
    i = c.run(f)
    seq = first_param(f)
    where = f"{f.loc} ({f.node.name})"
    ys = evs(i, "yield")
    covered(r, i, where, [(tuple(e.loops), e.guard, norm(e.args[0])) for e in ys], seq)
    for e in evs(i, "raise"):
        if any(l.op == "loop" and same(l.args[0], seq) for l in e.loops):
            if tm.satisfiable(free(e.guard)):
                r.bad(ALL, e.loc, f"the iteration is ended by {text(e.args[0])[:60] if e.args else 'an error'}")
    for e in ys:
        for t in handlers_of(i, e):
            for n, names in enumerate(t.handlers):
                names = names or ("BaseException",)
                if not (catches(c.prog, names, "KeyboardInterrupt") or catches(c.prog, names, "GeneratorExit")):
                    continue
                if any(x.kind == "raise" and in_zone(x, t.id, f"handler{n}") for x in i.events):
                    continue
                r.bad(ALL, e.loc, f"{'/'.join(names)} raised while an element is used is swallowed")


def is_sigint(t):
    return t.op == "lib" and t.args[0] == "signal.SIGINT" or is_const(t, 2)


def settings(i):
    out = []
    for e in i.events:
        if e.kind == "call" and e.name == "signal.signal":
            a = list(e.args) + [v for k, v in sorted(e.kw.items(), reverse=True)]
            if len(a) == 2:
                out.append((e, a[0], a[1]))
    return out


def handlers(c, f):
    r = c.r
    i = c.run(f)
    ys = evs(i, "yield")
    sets = settings(i)
    where = f"{f.loc} ({f.node.name})"
    ours = [(e, s, h) for e, s, h in sets if h.op in ("closure", "func", "bound", "partial") and not (h.op == "func" and h.args[0].startswith("signal."))]
    if any(e.kind == "call" and e.name in ("signal.sigwait", "signal.set_wakeup_fd", "signal.siginterrupt", "signal.sigtimedwait") for e in i.events):
        r.und(INSTALL, where, "signals are handled in another way")
        return
    if not ours:
        r.bad(INSTALL, where, "no function is installed for SIGINT: an interrupt ends the iteration")
        return
    for e, s, h in ours:
        if not is_sigint(s):
            r.bad(INSTALL, e.loc, f"the function is installed for {text(s)}")
            continue
        late = [y for y in ys if y.seq < e.seq]
        if late:
            r.bad(INSTALL, e.loc, "elements are yielded before the function is installed")
            continue
        if e.loops:
            r.bad(INSTALL, e.loc, "installed again for each element: the handler put back is not the first")
            continue
        r.ok(INSTALL, e.loc, text(h)[:60])
        restored(c, i, e, ys, sets)
        handler(c, f, h, e)


def restored(c, i, e, ys, sets):
    """The installation e is undone."""
    r = c.r
    previous = {x.result for x in i.events if x.kind == "call" and x.name == "signal.getsignal" and x.seq < e.seq and x.args and is_sigint(x.args[0])} | {e.result}
    previous = {strip_epoch(x) for x in previous if x is not None}
    undo = [(x, h) for x, s, h in sets if x.seq > e.seq and is_sigint(s)]
    back = [x for x, h in undo if strip_epoch(h) in previous]
    wrong = [(x, h) for x, h in undo if strip_epoch(h) not in previous]
    good = []
    for x in back:
        ids = [z[0] for z in x.zones if z[1] == "finally"]
        for tid in ids:
            if all(in_zone(y, tid, "body") for y in ys):
                rest = [a for a in tm.atoms(x.guard) if strip_epoch(bare(a)) not in previous and not any(strip_epoch(z) in previous for z in subterms(a))]
                if not rest and not x.loops:
                    good.append(x)
                else:
                    r.bad(RESTORE, x.loc, f"only if {text(x.guard)[-120:]}")
                    return
    if wrong and any(x.seq > max([g.seq for g in good], default=-1) for x, h in wrong):
        x, h = wrong[-1]
        r.bad(RESTORE, x.loc, f"{text(h)[:80]} is installed instead of the handler found")
        return
    if good:
        r.ok(RESTORE, good[0].loc)
        return
    if any(x.kind in ("call", "mcall", "new") and ("ExitStack" in x.name or x.name == "callback") for x in i.events if x.kind != "enter"):
        r.und(RESTORE, e.loc, "put back by an exit stack")
        return
    r.bad(RESTORE, e.loc, "put back only if the iteration ends without an error" if back else "never put back")


def handler(c, f, h, e):
    """An interrupt alone raises nothing and is recorded."""
    r = c.r
    i = c.run(f, max_steps=200000)
    h2 = next((h2 for e2, s, h2 in settings(i) if e2.loc == e.loc and h2.op == h.op), None)
    if h2 is None:
        return
    base = {k[2]: v for k, v in i.st.store.items() if k[0] == "v"}
    new = i.later(h2, [mk("param", "signum"), mk("param", "frame")])
    raises = [x for x in new if x.kind == "raise"]
    leaves = [x for x in new if x.kind == "call" and x.name in ("sys.exit", "os._exit", "os.kill", "os.abort", "signal.raise_signal", "exit", "quit")]
    store = i.st.store
    names = {}
    for x in new:
        for t in [x.guard, *x.args]:
            for a in subterms(t):
                if a.op == "async":
                    names[a.args[0]] = a
    stored = {k[2]: v for k, v in store.items() if k[0] == "v"}

    def scene(now, state):
        def leaf(t, nothing):
            if t.op == "async":
                if t.args[0] in state and t.args[2] is base.get(t.args[0]):
                    return state[t.args[0]]
                return calc(t.args[2], leaf)
            if t.op == "call" and t.args[0] in ("time.time", "time.monotonic", "time.perf_counter"):
                return now
            if t.op == "call" and t.args[0] in ("time.time_ns", "time.monotonic_ns", "time.perf_counter_ns"):
                return int(now * 1e9)
            return nothing
        return leaf

    def ends(now, state):
        """Events that end the iteration, None if not known."""
        out = []
        for x in raises + leaves:
            if x.guard is TRUE or calc(x.guard, scene(now, state)):
                out.append(x)
        return out
    try:
        t0 = 1.6e9
        out = ends(t0, {})
        if out:
            r.bad(SINGLE, out[0].loc, "the first interrupt ends the iteration")
            return
        state = {}
        for n in names:
            if n in stored:
                state[n] = calc(stored[n], scene(t0, {}))
        out = ends(t0 + 30, state)
        if out:
            r.bad(SINGLE, out[0].loc, "an interrupt long after another ends the iteration")
            return
        r.ok(SINGLE, f"{e.loc} (the function installed)", f"{len(raises)} raise(s)")
    except (Unknown, Fails) as x:
        r.und(SINGLE, e.loc, f"condition not evaluated {x}")


def display(c, f):
    r = c.r
    i = c.run(f)
    n = 0
    for e in i.events:
        for t in [*e.args, *([e.result] if e.kind in ("call", "mcall") and e.result is not None else [])]:
            for x in subterms(t):
                if x.op == "bin" and x.args[0] == "%" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str):
                    n += 1
                    bad_format(r, e, x)
    r.ok(SHOW, f.loc, f"{n} format(s)")


def bad_format(r, e, x):
    import re
    tpl, v = x.args[1].args[0], x.args[2]
    specs = [m for m in re.finditer(r"%(%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z])?", tpl) if m.group(1) != "%"]
    if any(m.group(1) is None or m.group(1)[-1] not in "sdifFgGeErxXoac" for m in specs):
        r.bad(SHOW, e.loc, f"{tpl!r} is not a format")
    elif v.op == "tuple" and len(v.args) != len(specs) or v.op != "tuple" and len(specs) != 1 and "%(" not in tpl:
        r.bad(SHOW, e.loc, f"{tpl!r} does not fit its values")


LAZY = {"map", "filter", "zip", "iter", "enumerate", "reversed", "glob.iglob", "itertools.chain", "itertools.product"}


def callers(c):
    r = c.r
    n = 0
    for f in sorted(c.prog.funcs.values(), key=lambda f: f.qual):
        if isinstance(f.node, ast.Lambda):
            continue
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ("progress_iterator", "progress_iterate") or isinstance(x.func, ast.Attribute) and x.func.attr in ("progress_iterator", "progress_iterate"))):
                continue
            a = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "sequence"), None)
            if a is None or f.node.name == "progress_iterator":
                continue
            n += 1
            if lazy(c, f, a, 0):
                r.bad(CALLERS, f"{f.module.rel}:{x.lineno} in {f.qual[5:]}", f"{ast.unparse(a)[:60]} has no length")
    r.ok(CALLERS, "cdtb", f"{n} call(s)")


def lazy(c, f, a, depth):
    """Is the expression surely an iterator without length?"""
    if depth > 4:
        return False
    if isinstance(a, ast.GeneratorExp):
        return True
    if isinstance(a, ast.Call):
        name = ast.unparse(a.func)
        if name in LAZY or name.startswith("itertools."):
            return True
        for g in c.prog.funcs.values():
            if g.is_gen and not g.is_cm and not isinstance(g.node, ast.Lambda) and (isinstance(a.func, ast.Name) and g.module is f.module and g.cls is None and g.node.name == a.func.id
                                                                                   or isinstance(a.func, ast.Attribute) and isinstance(a.func.value, ast.Name) and a.func.value.id == "self" and g.cls is not None and g.cls is f.cls and g.node.name == a.func.attr):
                return True
        return False
    if isinstance(a, ast.Name):
        vals, other = [], False
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in s.targets):
                vals.append(s.value)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.For)) and any(isinstance(t, ast.Name) and t.id == a.id for t in ast.walk(s.target)):
                other = True
        return bool(vals) and not other and all(lazy(c, f, v, depth + 1) for v in vals)
    return False
