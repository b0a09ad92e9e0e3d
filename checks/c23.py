"""C23: a dry run changes no hash list, and a real run saves what it found."""
import ast
from vfa.q import *
from vfa import cli

RULE = """The hash guessing command is analysed with the guessers' methods opaque and `unknown`/`known` changing with every call that gets the guesser. Each call that saves must be guarded by: not --dry-run, and a difference between
the number of unknown (or known) hashes of the same guesser before all its searches and after them; and by nothing else beyond what leads to the search. Every guesser that searches is saved. A guesser saves its own hash list, to that list's own
file. Nothing else in the package saves a hash list or opens one for writing, but the function that fetches lists, which only the fetching command calls."""

HG, HF, UP = "hashes.HashGuesser.save", "hashes.HashFile.save", "hashes.update_default_hashfile"
ROOT = "__main__.command_hashes_guess"
DRY, FOUND, SAVE, ELSE = "a dry run saves nothing", "a list is saved only if hashes were found for it", "what was found is saved", "nothing else writes to the hash lists"


def check(c):
    guessing(c)
    saving(c)
    others(c)


def length_of(t, G):
    """(attribute, number of calls before) if the term is the size of the guesser's unknown or known hashes."""
    if not is_len(t):
        return None
    x = t.args[1]
    n = 0
    if x.op == "attrat":
        x, n = x.args
    if x.op == "attr" and x.args[1] in ("unknown", "known") and strip_uid(norm(x.args[0])) is G:
        return x.args[1], n
    return None


def value(t, G, env):
    """Value of a term over the sizes of the guesser's sets: env(attr, calls before) gives a size. None if not computable."""
    n = length_of(t, G)
    if n is not None:
        return env(*n)
    if t.op == "const" and isinstance(t.args[0], (int, bool)):
        return t.args[0]
    if t.op in ("attr", "attrat"):
        n = length_of(mk("call", "len", t), G)
        return env(*n) if n is not None else None
    if t.op == "bin" and t.args[0] in ("-", "+"):
        p, q = (value(x, G, env) for x in t.args[1:3])
        return None if p is None or q is None else p - q if t.args[0] == "-" else p + q
    if t.op in ("<", "=="):
        if any(x.op in ("attr", "attrat") for x in t.args):
            return None
        p, q = (value(x, G, env) for x in t.args)
        return None if p is None or q is None else p < q if t.op == "<" else p == q
    if t.op == "truthy":
        v = value(t.args[0], G, env)
        return None if v is None else bool(v)
    return None


def sizes(u, k, found, last):
    """Sizes at the start and at the end of the searches, for u unknown and k known hashes of which `found` get found."""
    def env(attr, n):
        if 0 < n < last:
            return None
        m = found if n else 0
        return u - m if attr == "unknown" else k + m
    return env


def counts(t, G):
    return {n for n in (length_of(mk("call", "len", x), G) for x in subterms(t) if x.op in ("attr", "attrat")) if n is not None}


def guessing(c):
    r = c.r
    f = c.prog.func(ROOT)
    if f is None:
        r.und(DRY, ROOT)
        return
    main = f.module.rel
    op = {g.qual[5:] for g in c.prog.funcs.values() if g.module.rel != main}
    i = c.run(ROOT, opaque=op, havoc={"unknown", "known"})
    saves = [e for e in i.events if e.kind == "call" and e.name in ("repo:" + HG, "repo:" + HF) or e.kind in ("mcall", "vcall") and e.name == "save"]
    if not saves:
        r.bad(SAVE, ROOT, "found hashes are never saved")
        return
    for e in i.events:
        if e.kind == "call" and e.name == "repo:" + UP:
            r.bad(ELSE, e.where(), "the guessing command fetches hash lists")
    dry = mk("attr", mk("param", f.node.args.args[1].arg if len(f.node.args.args) > 1 else "args"), "dry_run")
    m = cli.model(c)
    o = [x for x in m.options("hashes-guess") if x.dest == "dry_run"] if m is not None else []
    if o:
        r.ob(o[0].given() is TRUE and o[0].default in (FALSE, const(False)) and "--dry-run" in o[0].flags, DRY, o[0].e.where(), f"--dry-run is {o[0].action}, by default {text(o[0].default)}")
    else:
        r.und(DRY, "options of hashes-guess") if m is None or "hashes-guess" not in m.commands else r.bad(DRY, "options of hashes-guess", "no --dry-run")
    saved = []
    for e in saves:
        recv = e.recv if e.recv is not None else e.args[0]
        recv = strip_uid(norm(recv))
        G = recv.args[0] if recv.op == "attr" and recv.args[1] == "hashfile" else recv
        saved.append(G)
        w = e.where()
        g = norm(e.guard)
        r.ob(not tm.satisfiable(band(g, truth(dry))), DRY, w, text(e.guard)[-120:])
        on = [x for x in i.events if x.seq < e.seq and x.kind in ("call", "mcall", "vcall") and (x.kind != "call" or x.name.startswith("repo:")) and any(isinstance(y, T) and strip_uid(norm(y)) is G for y in ([x.recv] if x.recv is not None else []) + list(x.args))]
        made = [x for x in i.events if x.seq < e.seq and x.result is not None and strip_uid(norm(x.result)) is G]
        ats = [a for a in tm.atoms(g) if counts(a, G)]
        if not ats:
            other = [a for a in tm.atoms(g) if tm.mentions(a, lambda x: x.op == "attrat")]
            r.bad(FOUND, w, "depends on what another guesser found" if other else "saved whether or not hashes were found")
            continue
        late = {n for a in ats for n in counts(a, G) if 0 < n[1] < len(on)}
        if late:
            r.bad(SAVE if any(n == 0 for a in ats for _, n in counts(a, G)) else FOUND, w, f"a count is taken after {max(n for _, n in late)} of {len(on)} search calls")
            continue
        base = made[0].guard if made else TRUE
        done = False
        for u, k in ((1, 0), (1, 3), (2, 0), (2, 7), (5, 5), (9, 2)):
            for found in range(0, u + 1):
                env = sizes(u, k, found, max(len(on), 1))
                vals = {a: value(a, G, env) for a in ats}
                if None in vals.values():
                    r.und(FOUND, w, text(next(a for a in ats if vals[a] is None))[:120])
                    done = True
                    break
                rest = assume(g, vals)
                if not found and tm.satisfiable(rest):
                    r.bad(FOUND, w, f"saved with nothing found of {u} unknown hashes")
                    done = True
                    break
                if found:
                    rest = assume(rest, {truth(dry): False})
                    if not tm.entails(norm(base), rest):
                        extra = ", ".join(text(x)[:60] for x in tm.atoms(rest) if x not in tm.atoms(norm(base)))[:150]
                        r.bad(SAVE, w, f"not saved with {found} of {u} unknown hashes found" + (", depends on " + extra if extra else ""))
                        done = True
                        break
            if done:
                break
        if not done:
            r.ok(FOUND, w, text(ats[-1])[:100])
            r.ok(SAVE, w)
    # every guesser that searches is saved
    n = 0
    for x in i.events:
        if x.kind == "call" and x.name.startswith("repo:hashes.") and x.name.endswith("Guesser.from_wads") or x.kind == "new" and x.name.endswith("HashGuesser"):
            res = x.result if x.result is not None else x.recv
            if res is None:
                continue
            n += 1
            G = strip_uid(norm(res))
            if not any(G is s for s in saved):
                (r.bad if not any(tm.mentions(s, lambda y: y is G) for s in saved) else r.und)(SAVE, x.where(), "what this guesser finds is not saved")
    if not n:
        r.und(SAVE, ROOT, "no guesser found")


def saving(c):
    r = c.r
    what = "a guesser saves its own list to the list's own file"
    f = c.prog.func(HG)
    if f is None:
        r.und(what, HG)
        return
    base = f.cls
    ks = [f] + [k.methods["save"] for k in (base.all_subclasses() if base is not None and hasattr(base, "all_subclasses") else []) if "save" in k.methods]
    for g in ks:
        q = g.qual[5:]
        i = c.run(q, opaque={HF, "hashes.HashFile.load"} | ({HG} if q != HG else set()))
        es = [e for e in i.events if e.kind == "call" and e.name in ("repo:" + HF, "repo:" + HG) or e.kind in ("mcall", "vcall") and e.name == "save"]
        own = mk("attr", mk("param", "self"), "hashfile")
        if not es:
            ws = write_opens(i)
            (r.und if ws else r.bad)(what, q, "nothing is saved")
        for e in es:
            recv = e.recv if e.recv is not None else e.args[0]
            r.ob((same(recv, own) or e.name == "repo:" + HG) and tm.equiv(e.guard, TRUE), what, e.where(), text(recv)[:80])
    q = HF
    i = c.run(q)
    ws = write_opens(i)
    if not ws:
        r.und(what, q, "nothing is written") if any(e.kind in ("call", "mcall") and "open" in e.name or e.kind == "enter" for e in i.events) else r.bad(what, q, "nothing is written")
    for e in ws:
        p = norm(e.args[0]) if e.args else norm(e.recv)
        own = mk("attr", mk("param", "self"), "filename")
        r.ob(tm.mentions(p, lambda x: x is own), what, e.where(), text(p)[:80])


def others(c):
    r = c.r
    f0 = c.prog.func(UP)
    n = 0
    allf = {g.qual[5:] for g in c.prog.funcs.values()}
    for f in c.prog.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        q = f.qual[5:]
        names = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        lists = {x for x in names if x.startswith("hashfile_") or x in ("default_hash_dir", "default_hashfile", "HashFile", "hashfile", "get_rsthashfile")}
        if "save" in names or lists & {"default_hash_dir"} or (lists and names & {"open", "write_file_or_remove", "write_text", "write_bytes", "unlink", "remove", "rename", "replace", "copy", "copyfile", "move"}) or "update_default_hashfile" in names or "filename" in names and q.startswith("hashes."):
            pass
        else:
            continue
        if q in (HG, HF, UP) or q == ROOT:
            continue
        k = f.cls
        i = c.run(q, "writers", opaque=allf - {q} - {"tools.write_file_or_remove"})
        for e in i.events:
            if e.kind == "call" and e.name in ("repo:" + HG, "repo:" + HF):
                n += 1
                if q.endswith(".save"):
                    continue
                # a helper of the guessing command is judged there
                if f.module.rel.endswith("__main__.py") and not f.node.name.startswith("command_"):
                    continue
                r.bad(ELSE, e.where(), "saves a hash list")
            elif e.kind in ("mcall", "vcall") and e.name == "save" and e.recv is not None and tm.mentions(e.recv, lambda x: x.op == "global" and str(x.args[1]).startswith("hashfile_") or x.op == "call" and "hashfile" in str(x.args[0])):
                n += 1
                r.bad(ELSE, e.where(), "saves a hash list")
            elif e.kind == "call" and e.name == "repo:" + UP:
                n += 1
                r.ob(q == "__main__.command_fetch_hashes" or f.module.rel.endswith("__main__.py") and not f.node.name.startswith("command_"), ELSE, e.where(), "fetches hash lists")
        for e in write_opens(i):
            p = norm(e.args[0])
            if tm.mentions(p, lambda x: x.op == "global" and ("hash_dir" in str(x.args[1]) or str(x.args[1]).startswith("hashfile")) or x.op == "attr" and x.args[1] == "filename"):
                n += 1
                r.bad(ELSE, e.where(), f"opens {text(p)[:80]} for writing")
    r.ok(ELSE, "cdtb", f"{n} other operations on hash lists")
