"""C34: an unconvertible file is reported and skipped, never fatal."""
from vfa.q import *
from checks.c33 import converters

RULE = """In the export (helpers inlined), every conversion call must be in a `try`, inside the loop over files, whose first handler catching a conversion rejection reports it and neither raises, returns out of the loop nor breaks; every other
handler that may receive another error must raise it again, unless its number says that the path is invalid or too long (condition entailed by the guards). In every converter, each explicit refusal reached by the conversion (raise
or assertion whose condition depends on the content of the file), and each image library call, must be in the body of a `try` whose first matching handler raises a conversion rejection; a handler for system errors
turned into a rejection must not cover anything written to the output."""

SKIP, OTHER, REFUSE, WRITE = ("a rejected file is reported and skipped", "other errors stop the export", "refused content is reported as a rejection", "write errors are not rejections")
REJECT = "FileConversionError"
OTHERS = ["ValueError", "KeyError", "struct.error", "RuntimeError", "OSError", "MemoryError", "TypeError", "KeyboardInterrupt", "AssertionError"]
REPORT = {"warning", "error", "exception", "critical", "info", "warn", "log"}


def check(c):
    exporting(c)
    ks = converters(c)
    if not ks:
        c.r.und(REFUSE, "export", "no converter")
    for k in ks:
        refusing(c, k)


def excs(c, name):
    from vfa.program import exc_ancestors
    return set(exc_ancestors(c.prog, name))


def first_handler(c, info, exc):
    """Index of the first handler of a `try` that catches the exception class, or None."""
    for n, names in enumerate(info.handlers):
        if not names or catches(c.prog, list(names), exc) or any(x.split(".")[-1] == exc.split(".")[-1] for x in names):
            return n
    return None


def exporting(c):
    r = c.r
    opaque = [q for q in ("wad.Wad.read_file_data", "export.Exporter._get_converter") if c.prog.func(q) is not None]
    root = "export.Exporter.export"
    if c.prog.func(root) is None:
        r.und(SKIP, root, "not found")
        return
    i = c.run(root, opaque=opaque)
    conv = [e for e in i.events if e.kind in ("vcall", "mcall") and e.name == "convert" and len(e.args) == 3]
    if not conv:
        r.und(SKIP, root, "no conversion found")
    for e in conv:
        one(c, i, e)


def one(c, i, e):
    r = c.r
    caught = False
    for tid, part in reversed(e.zones):
        if part != "body":
            continue
        info = i.tries[tid]
        n = first_handler(c, info, REJECT)
        for m, names in enumerate(info.handlers):
            swallow(c, i, e, info, m, n)
        if caught or n is None:
            continue
        inside = [x for x in i.events if (tid, f"handler{n}") in x.zones]
        again = [x for x in inside if x.kind == "raise" and rejected(strip_epoch(x.guard)) is not FALSE]
        cond = strip_epoch(info.conds[n])
        if again and entails_cases(cond, bor(*[strip_epoch(x.guard) for x in again])) and not any(x.name not in (None, REJECT) for x in again):
            continue   # passed on
        caught = True
        if len(info.loops) < len(e.loops):
            r.bad(SKIP, e.where(), f"a rejection is caught outside the loop over {text(e.loops[-1])[:60]}: the other files are skipped")
            continue
        if again:
            r.bad(SKIP, again[0].where(), "raises when a file is rejected")
            continue
        out = [x for x in inside if x.kind == "break"]
        rets = [nd for g, ls, nd in i.loop_returns if entails_cases(band(*g.args) if g.op == "and" else g, cond)]
        if out or rets:
            r.bad(SKIP, out[0].where() if out else f"{e.where()}", "the loop over files is left when a file is rejected")
            continue
        logs = [x for x in inside if x.kind == "mcall" and x.name in REPORT or x.kind == "call" and (x.name in ("print", "warnings.warn") or x.name.startswith("logging.") and x.name.split(".")[-1] in REPORT)]
        if not logs:
            other = [x for x in inside if x.kind in ("vcall", "enter") or x.kind == "call" and x.name.startswith("repo:")]
            (r.und if other else r.bad)(SKIP, e.where(), "a rejected file is not reported")
        elif not entails_cases(cond, strip_epoch(bor(*[x.guard for x in logs]))):
            # conditions of reaching the `try` are implied
            g = rejected(bor(*[strip_epoch(x.guard) for x in logs]))
            base = band(cond, strip_epoch(e.guard), *[strip_epoch(x) for x in info.reach0])
            (r.ok if entails_cases(base, g) else r.und)(SKIP, logs[0].where(), f"reported if {text(g)[:120]}")
        else:
            r.ok(SKIP, logs[0].where(), "reported, and the loop goes on")
    if not caught:
        # an error while the tries are known: nothing catches it
        r.bad(SKIP, e.where(), "nothing catches the rejection of a file")


def rejected(g):
    """A condition, when the error is a rejection."""
    return tm.rewrite(g, lambda x: TRUE if x.op == "isinst" and x.args[0].op == "excval" and str(x.args[1]).split(".")[-1] in (REJECT, "Exception", "RuntimeError")
                      else FALSE if x.op == "isinst" and x.args[0].op == "excval" and str(x.args[1]).split(".")[-1] in ("OSError", "ValueError", "KeyError") else x)


def swallow(c, i, e, info, m, n):
    """A handler around a conversion must not swallow other errors."""
    r = c.r
    names = info.handlers[m]
    hit = [x for x in OTHERS if first_handler(c, info, x) == m]
    tid = info.id
    inside = [x for x in i.events if (tid, f"handler{m}") in x.zones]
    again = [strip_epoch(x.guard) for x in inside if x.kind == "raise"]
    where = f"{info.module.rel}:{info.node.handlers[m].lineno}"
    if not hit:
        r.ok(OTHER, where, f"catches {', '.join(names)}")
        return
    cond = band(strip_epoch(info.conds[m]), *[strip_epoch(x) for x in info.reach0])
    left = band(cond, strip_epoch(e.guard), bnot(bor(*again)))
    allowed = allow(left)
    if allowed or left is FALSE:
        r.ok(OTHER, where, f"{', '.join(names)}: raised again, except for invalid paths")
    else:
        vague = [x for x in inside if x.kind in ("vcall",) or x.kind == "call" and x.name.startswith("repo:")]
        (r.und if vague else r.bad)(OTHER, where, f"{'|'.join(names) or 'every error'} is swallowed if {text(left)[-140:]}")


def allow(g):
    """Does a condition imply that the error number is that of an invalid or too long path, or that it is a rejection?"""
    ok = []
    for a in tm.atoms(g):
        if a.op == "==" and any(x.op == "const" and x.args[0] in (22, 36) for x in a.args) and any(x.op == "attr" and x.args[1] == "errno" for x in a.args):
            ok.append(a)
        if a.op == "in" and a.args[0].op == "attr" and a.args[0].args[1] == "errno" and a.args[1].op in ("tuple", "list", "set") and all(x.op == "const" and x.args[0] in (22, 36) for x in a.args[1].args):
            ok.append(a)
        if a.op == "isinst" and str(a.args[1]).split(".")[-1] == REJECT:
            ok.append(a)
    return bool(ok) and entails_cases(g, bor(*ok))


# ---------------------------------------------------------------- refusals

def reads(t):
    return tm.mentions(t, lambda y: y.op == "mcall" and y.args[1] in ("read", "readline", "tell") or y.op in ("fld", "unpack") or y.op == "param" and y.args[0] == "fin")


def refusing(c, k):
    r = c.r
    f = k.method("convert")
    i = c.run(f, self_type=k)
    seen = set()
    for e in i.events:
        if e.kind == "raise" and e.name is not None and reads(strip_epoch(e.guard)) and not any(p.startswith("handler") for _, p in e.zones):
            if (e.where(), e.name) in seen:
                continue
            seen.add((e.where(), e.name))
            verdict, why = fate(c, i, e.name, e.zones)
            r.ob(verdict, REFUSE, e.where(), f"{k.name}: {e.name} {why}")
        if e.kind == "call" and e.name == "PIL.Image.open" or e.kind == "mcall" and e.name in ("save", "convert", "load", "transpose", "resize", "crop") and is_image(e.recv):
            for name in ("OSError", "NotImplementedError"):
                verdict, why = fate(c, i, name, e.zones)
                r.ob(verdict, REFUSE, e.where(), f"{k.name}: {name} of the image library {why}")
    # nothing is written to the output under a handler that turns system errors into rejections
    for tid, info in i.tries.items():
        n = first_handler(c, info, "OSError")
        if n is None:
            continue
        inside = [x for x in i.events if (tid, f"handler{n}") in x.zones and x.kind == "raise" and x.name == REJECT]
        if not inside:
            continue
        left = strip_epoch(bor(*[x.guard for x in inside]))
        covered = [x for x in i.events if (tid, "body") in x.zones and output(x)]
        where = f"{info.module.rel}:{info.node.handlers[n].lineno}"
        if covered:
            # the number of the error may be tested
            test = tm.mentions(left, lambda y: y.op == "attr" and y.args[1] == "errno")
            (r.und if test else r.bad)(WRITE, covered[0].where(), f"{k.name}: an error when writing the output is handled as a rejection ({where})")
        else:
            r.ok(WRITE, where, f"{k.name}: nothing is written to the output in the `try`")


def is_image(t):
    t = strip_epoch(t)
    return tm.mentions(t, lambda y: y.op == "call" and y.args[0] == "PIL.Image.open")


def output(e):
    """Does an event write to an output file?"""
    if e.kind == "mcall" and e.name in ("write", "writelines") and strip_epoch(e.recv).op == "call" and opened(e.recv):
        return True
    if e.kind == "mcall" and e.name == "save" and e.args and opened(e.args[0]):
        return True
    if e.kind == "call" and e.name in ("shutil.copyfileobj", "json.dump", "ujson.dump") and len(e.args) > 1 and opened(e.args[1]):
        return True
    return is_write_open(e) or e.kind == "call" and e.name in ("os.makedirs", "repo:tools.write_file_or_remove", "repo:tools.write_dir_or_remove")


def opened(t):
    t = strip_epoch(t)
    if t.op == "ite":
        return opened(t.args[1]) or opened(t.args[2])
    return t.op == "call" and (t.args[0] in ("open", "io.open") or str(t.args[0]).endswith(("write_file_or_remove",)))


def fate(c, i, name, zones):
    """What becomes of an exception raised in given zones: (verdict, explanation)."""
    rej = REJECT in excs(c, name)
    for tid, part in reversed(zones):
        if part != "body":
            continue
        info = i.tries[tid]
        n = first_handler(c, info, name)
        if n is None:
            continue
        inside = [x for x in i.events if (tid, f"handler{n}") in x.zones and x.kind == "raise"]
        where = f"{info.module.rel}:{info.node.handlers[n].lineno}"
        cond = band(strip_epoch(info.conds[n]), *[strip_epoch(x) for x in info.reach0])
        gs = bor(*[strip_epoch(x.guard) for x in inside])
        if not inside:
            return False, f"is swallowed at {where}"
        new = {x.name for x in inside}
        if new == {None}:
            continue                      # raised again
        if not entails_cases(cond, gs):
            return None, f"is handled at {where} if {text(gs)[-80:]}"
        kinds = {REJECT in excs(c, x) if x is not None else rej for x in new}
        if kinds == {True}:
            rej = True
            name = REJECT
        elif kinds == {False}:
            rej, name = False, next(x for x in new if x is not None)
        else:
            # raised again for some errors: which ones depends on the error itself
            dep = tm.mentions(gs, lambda y: y.op == "excval")
            return (None if dep else False), f"is handled in different ways at {where}"
    return (True, "is a rejection") if rej else (False, "is not turned into a conversion rejection: it stops the export")
