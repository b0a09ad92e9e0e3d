"""C41: exported text does not depend on the locale."""
import ast
from vfa.q import *

RULE = """Every serialisation to JSON in the package is followed to the file it reaches, through wrappers and context managers: unless it can only produce ASCII, the file must be opened with an explicit UTF-8 encoding (or the text encoded as UTF-8 before it is
written). The same is required of the lists of exported files and links, and of the lists of hashes, which must be read with the encoding they are written with. Text encoded as ASCII must be made of ASCII only."""

JSON, LISTS, HASHES = "JSON documents are written as UTF-8, or only hold ASCII", "lists of exported paths are written as UTF-8", "lists of hashes are read and written as UTF-8"
DUMP = ("json.dump", "ujson.dump", "simplejson.dump")
DUMPS = ("json.dumps", "ujson.dumps", "simplejson.dumps")
MODULES = ("export", "tftdata", "arenadata", "__main__", "tools", "patcher", "hashes", "binfile", "rstfile", "sknfile")
NAMES = {"json_dump", "json_dumps", "dump", "dumps"}


def check(c):
    forced = wrappers(c)
    seen = {}
    for f in roots(c):
        i = c.run(f, f.qual[5:] + " text", opaque={g.qual[5:] for g in c.prog.funcs.values() if g.module is not f.module and g.module.rel.rsplit("/")[-1] != "tools.py" or g.qual.endswith("stringtable_paths")} - {f.qual[5:]})
        for e in i.events:
            if e.kind == "call" and e.name in DUMP + DUMPS and e.args:
                where = site(e)
                seen.setdefault(where, []).append(document(i, e, forced, c))
    n = 0
    for where, got in seen.items():
        known_ = [g for g in got if g is not None]
        # a file given by a caller is judged there
        for ok, detail in known_ or got[:1] and [(None, "file not known")]:
            if (ok, detail) == ("param", "param"):
                continue
            n += 1
            c.r.ob(ok, JSON, where, detail)
        if known_ and all(g[0] == "param" for g in known_):
            c.r.und(JSON, where, "the file is given by the caller")
    if not n:
        c.r.und(JSON, "cdtb", "no JSON is written")
    lists(c)
    hashes(c)


def site(e):
    """The place in the function that serialises (not in a wrapper)."""
    return e.where()


def roots(c):
    """Functions from which JSON is written, by themselves or through functions of their module."""
    for f in c.prog.funcs.values():
        if isinstance(f.node, ast.Lambda) or f.module.rel.rsplit("/")[-1] == "tools.py":
            continue
        names = {getattr(x, "id", None) or getattr(x, "attr", None) for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute))}
        if names & NAMES:
            yield f
            # callers in the same module, if the file is a parameter
            params = {a.arg for a in f.node.args.args}
            for g in c.prog.funcs.values():
                if g is not f and g.module is f.module and not isinstance(g.node, ast.Lambda) and f.node.name in {getattr(x, "id", None) or getattr(x, "attr", None) for x in ast.walk(g.node) if isinstance(x, (ast.Name, ast.Attribute))} and params:
                    yield g


def wrappers(c):
    """Do the wrappers of the package write other characters than ASCII by default?"""
    m = next((m for m in c.prog.modules.values() if m.rel.rsplit("/")[-1] == "tools.py"), None)
    if m is None:
        return False
    forced = False
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == "ensure_ascii" and isinstance(k.value, ast.Constant) and not k.value.value:
                    forced = True
    return forced


def ascii_only(e, forced):
    """True: only ASCII is written; False: other characters may be; None: unknown."""
    kw = dict(e.kw or {})
    v = kw.get("ensure_ascii")
    if v is None:
        rest = kw.get("**")
        if rest is not None and rest is not NONE and not (rest.op == "dict" and not rest.args) and rest.op != "param":
            return None
        return None if forced and rest is not None and rest.op == "param" else not forced
    if v.op == "const":
        return bool(v.args[0])
    return None


def enc(t):
    """True: UTF-8; False: not; None: unknown."""
    if t is None or t is NONE:
        return False
    if t.op == "const" and isinstance(t.args[0], str):
        return t.args[0].lower().replace("_", "-").replace("utf8", "utf-8") == "utf-8"
    if t.op == "ite":
        got = {enc(v) for _, v in tm.cases(t)}
        return got.pop() if len(got) == 1 else None
    return False if any(x.op == "call" and "locale" in str(x.args[0]) or x.op == "lib" and "encoding" in str(x.args[0]) for x in subterms(t)) or "getpreferredencoding" in text(t) or "getdefaultencoding" in text(t) else None


def file_encoding(i, t):
    """('utf-8' | 'locale' | 'binary' | 'stdout' | 'param' | None, detail)"""
    t = strip_epoch(norm(t))
    if t.op == "lib" and str(t.args[0]) in ("sys.stdout", "sys.stderr"):
        return "stdout"
    if t.op == "param":
        return "param"
    if t.op == "call" and t.args[0] in ("open", "io.open", "codecs.open", "os.fdopen", "io.TextIOWrapper"):
        pos = [x for x in t.args[1:] if x.op not in ("kw", "uid")]
        kw = {x.args[0]: x.args[1] for x in t.args[1:] if x.op == "kw"}
        if t.args[0] == "io.TextIOWrapper":
            k = {True: "utf-8", False: "locale", None: None}
            return k[enc(kw.get("encoding", pos[1] if len(pos) > 1 else None))]
        mode = kw.get("mode", pos[1] if len(pos) > 1 else const("r"))
        if mode.op != "const":
            return None
        if "b" in str(mode.args[0]) and t.args[0] != "codecs.open":
            return "binary"
        at = 2 if t.args[0] == "codecs.open" else 3
        return {True: "utf-8", False: "locale", None: None}[enc(kw.get("encoding", pos[at] if len(pos) > at else None))]
    if t.op == "mcall" and t.args[1] == "open":
        pos = [x for x in t.args[2:] if x.op not in ("kw", "uid")]
        kw = {x.args[0]: x.args[1] for x in t.args[2:] if x.op == "kw"}
        mode = kw.get("mode", pos[0] if pos else const("r"))
        if mode.op == "const" and "b" in str(mode.args[0]):
            return "binary"
        return {True: "utf-8", False: "locale", None: None}[enc(kw.get("encoding", pos[2] if len(pos) > 2 else None))]
    return None


def document(i, e, forced, c):
    """(verdict, detail) of a serialisation; None if nothing is known of where it goes."""
    a = ascii_only(e, forced)
    if e.name in DUMP:
        f = e.args[1] if len(e.args) > 1 else (e.kw or {}).get("fp")
        if f is None:
            return None
        k = file_encoding(i, f)
        if k == "param":
            # the wrappers themselves, and helpers judged from their callers
            return "param", "param"
        if k == "utf-8":
            return True, "UTF-8"
        if a is True:
            return True, "ASCII only"
        if k in ("locale", "stdout"):
            return (False if a is False else None), f"characters other than ASCII are written in the encoding of {'the terminal' if k == 'stdout' else 'the locale'}"
        return None, text(f)[:80]
    # text: what becomes of it
    v = e.result
    verdicts = []
    for u in i.events:
        if u.kind == "mcall" and u.name == "encode" and u.recv is not None and contains(u.recv, v):
            x = u.args[0] if u.args else (u.kw or {}).get("encoding", const("utf-8"))
            k = enc(x)
            if k is True:
                verdicts.append((True, "encoded as UTF-8"))
            elif a is True and x.op == "const" and str(x.args[0]).lower() in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
                verdicts.append((True, "ASCII only"))
            else:
                verdicts.append((False if a is False or x.op == "const" else None, f"encoded as {text(x)}"))
        elif u.kind == "mcall" and u.name in ("write", "write_text", "writelines") and u.args and any(contains(y, v) for y in u.args):
            if any(z.op == "mcall" and z.args[1] == "encode" for y in u.args for z in subterms(y)):
                continue
            if u.name == "write_text":
                k = {True: "utf-8", False: "locale", None: None}[enc((u.kw or {}).get("encoding", u.args[1] if len(u.args) > 1 else None))]
            else:
                k = file_encoding(i, u.recv)
            verdicts.append(judge(k, a))
        elif u.kind == "call" and u.name == "print" and any(contains(y, v) for y in u.args):
            f = (u.kw or {}).get("file")
            verdicts.append(judge("stdout" if f is None else file_encoding(i, f), a))
    if not verdicts:
        return (True, "ASCII only") if a is True else None
    return min(verdicts, key=lambda x: {False: 0, None: 1, True: 2}[x[0]])


def judge(k, a):
    if k == "utf-8":
        return True, "UTF-8"
    if a is True:
        return True, "ASCII only"
    if k in ("locale", "stdout"):
        return (False if a is False else None), "characters other than ASCII are written in the encoding of the locale"
    return None, "file not known"


def contains(t, v):
    v = strip_epoch(v)
    return strip_epoch(t) is v or any(strip_epoch(x) is v for x in subterms(t))


PATHS = ("all_converted_exported_paths", "reduce_common_paths", "converted_exported_paths")


def lists(c):
    r = c.r
    from checks.c36 import process, CR
    if c.prog.func(CR + "process") is None:
        r.und(LISTS, CR + "process", "not found")
        return
    i = process(c)
    n = 0
    for e in i.events:
        if e.kind == "call" and e.name == "print":
            f, what = (e.kw or {}).get("file"), e.args
        elif e.kind == "mcall" and e.name in ("write", "writelines"):
            f, what = e.recv, e.args
        elif e.kind == "mcall" and e.name == "write_text":
            f, what = None, e.args[:1]
        else:
            continue
        if not any(repo_call(x, p) for y in what for x in subterms(y) for p in PATHS) or f is None and e.name == "print":
            continue
        n += 1
        if e.name == "write_text":
            k = {True: "utf-8", False: "locale", None: None}[enc((e.kw or {}).get("encoding", e.args[1] if len(e.args) > 1 else None))]
        else:
            k = file_encoding(i, f)
        if k == "binary":
            encs = [x for y in what for x in subterms(y) if x.op == "mcall" and x.args[1] == "encode"]
            pos = [x for x in encs[0].args[2:] if x.op != "uid"] if encs else []
            r.ob(None if not encs else True if not pos else {True: True, False: False, None: None}[enc(pos[0])], LISTS, e.where(), "encoded before it is written")
        else:
            r.ob({"utf-8": True, "locale": False}.get(k), LISTS, e.where(), "paths are written as UTF-8" if k == "utf-8" else "paths are written in the encoding of the locale")
    if not n:
        r.und(LISTS, CR + "process", "no list is written")


def hashes(c):
    r = c.r
    for q in ("hashes.HashFile.load", "hashes.HashFile.save"):
        f = c.prog.func(q)
        if f is None:
            r.und(HASHES, q, "not found")
            continue
        i = c.run(f, f.qual[5:] + " text")
        n = 0
        for e in i.events:
            if e.kind == "call" and e.name in ("open", "io.open", "codecs.open", "io.TextIOWrapper") or e.kind == "mcall" and e.name == "open":
                n += 1
                k = file_encoding(i, e.result)
                if k == "binary":
                    codes = [x for x in i.events if x.kind == "mcall" and x.name in ("encode", "decode")] + [x for x in i.events if x.kind == "call" and x.name in ("str", "bytes") and len(x.args) > 1]
                    for x in codes:
                        a = x.args if x.kind == "mcall" else x.args[1:]
                        r.ob(enc(a[0]) if a else True, HASHES, x.where(), "UTF-8")
                    continue
                r.ob({"utf-8": True, "locale": False}.get(k), HASHES, e.where(), "UTF-8" if k == "utf-8" else "the encoding of the locale")
            elif e.kind == "mcall" and e.name in ("read_text", "write_text"):
                n += 1
                at = 0 if e.name == "read_text" else 1
                r.ob(enc((e.kw or {}).get("encoding", e.args[at] if len(e.args) > at else None)), HASHES, e.where(), "UTF-8")
        if not n:
            r.und(HASHES, f.loc, "no file is opened")
