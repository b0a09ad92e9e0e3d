"""C24: a hash list survives a save and a reload unchanged."""
import re
import string
from vfa.q import *

RULE = """What saving writes is reduced to a sequence of text pieces per entry: one line, made of the hash in zero-padded hexadecimal of the width given to the list, a single space, the path unchanged and a line feed, for every entry of the list, in any order.
Loading is then evaluated on the symbolic line <hex digits><space><path><line feed>, where the path is any text without line breaks: the dictionary must get the number read in base 16 and the exact path, for every line of the same file, opened with a compatible
encoding. The loaded dictionary becomes the list's content. The lists of the BIN hashes, which are 32 bits wide, are 8 digits wide; the others, 64 bits wide, 16 digits."""

LOAD, SAVE, INIT = "hashes.HashFile.load", "hashes.HashFile.save", "hashes.HashFile.__init__"
LINE, ALL, READ, ENC, WIDTH, KEEP = ("an entry is saved as one line: hexadecimal hash of the list's width, space, path", "every entry is saved, in one file", "a saved line is read back as the same hash and path",
                                     "the file is read as it was written", "lists are as wide as their hashes", "what was loaded becomes the content of the list")
SELF = mk("param", "self")
OWN = mk("attr", SELF, "hashes")


def check(c):
    r = c.r
    for q in (LOAD, SAVE, INIT):
        if c.prog.func(q) is None:
            r.und(LINE, q, "not found")
            return
    ini = c.run(INIT)
    ws = saving(c, ini)
    loading(c, ini, ws)
    widths(c)


def handle_kw(e, pos, name):
    return e.kw.get(name, e.args[pos] if len(e.args) > pos else None)


# ---- save

class Tmpl:
    """Text with holes for unknown terms."""

    def __init__(self):
        self.holes = []

    def text(self, t):
        out = ""
        for x in (t.args if t.op == "cat" else [t]):
            if x.op == "const" and isinstance(x.args[0], str):
                out += x.args[0]
            elif x.op == "const" and isinstance(x.args[0], int):
                out += str(x.args[0])
            else:
                self.holes.append(x.args[0] if x.op == "fmt" and is_const(x.args[1], "") else x)
                out += chr(0xE000 + len(self.holes) - 1)
        return out

    def pieces(self, s):
        out = []
        for p in re.split("([\ue000-\uf8ff])", s):
            if p:
                out.append(self.holes[ord(p) - 0xE000] if "\ue000" <= p <= "\uf8ff" else p)
        return out


def attr_of(ini):
    def f(x):
        if x.op == "attr" and x.args[0] is SELF and x.args[1] not in ("hashes", "filename"):
            v = final_attr(ini, SELF, x.args[1])
            return v if v is not None else x
        return x
    return f


def unpad(spec, width):
    """(is hexadecimal padded with zeros, is of the list's width) for a format specification with holes; None if not understood."""
    m = re.fullmatch(r"(?:0?[>=])?(0?)([\ue000-\uf8ff]|[1-9][0-9]*)?([xX])", spec)
    if not m:
        return None
    zero = bool(m.group(1)) or spec.startswith("0>") or spec.startswith("0=")
    return zero, m.group(2)


def flat(t, ini, out):
    """Pieces of the text: str, ("hex", value, zero-padded, width) or a term. False if not understood."""
    t = tm.rewrite(t, attr_of(ini)) if ini is not None else t
    if t.op == "cat":
        return all(flat(x, None, out) for x in t.args)
    if t.op == "const" and isinstance(t.args[0], str):
        out.append(t.args[0])
        return True
    if t.op == "fmt":
        x, spec = t.args
        T_ = Tmpl()
        s = T_.text(spec) if isinstance(spec, T) else str(spec)
        if s == "":
            return flat(x, None, out)
        u = unpad(s, None)
        if u is None:
            return False
        w = u[1]
        out.append(("hex", x, u[0], T_.holes[ord(w) - 0xE000] if w and w >= "\ue000" else const(int(w)) if w else None))
        return True
    if t.op == "mcall" and t.args[1] == "format":
        T_ = Tmpl()
        s = T_.text(t.args[0])
        args = [a for a in t.args[2:] if a.op != "kw"]
        kw = {a.args[0]: a.args[1] for a in t.args[2:] if a.op == "kw"}
        n = 0
        try:
            fields = list(string.Formatter().parse(s))
        except ValueError:
            return False
        for lit, name, spec, conv in fields:
            for p in T_.pieces(lit):
                if isinstance(p, str):
                    out.append(p)
                elif not flat(p, None, out):
                    return False
            if name is None:
                continue
            if conv:
                return False

            def arg(name):
                nonlocal n
                if name == "":
                    n += 1
                    return args[n - 1] if n <= len(args) else None
                return args[int(name)] if name.isdigit() and int(name) < len(args) else kw.get(name)
            x = arg(name)
            if x is None:
                return False
            for m in re.findall(r"\{(\w*)\}", spec):
                v = arg(m)
                if v is None:
                    return False
                spec = spec.replace("{" + m + "}", T_.text(v), 1)
            if spec == "":
                out.append(x)
                continue
            u = unpad(spec, None)
            if u is None:
                return False
            w = u[1]
            out.append(("hex", x, u[0], T_.holes[ord(w) - 0xE000] if w and w >= "\ue000" else const(int(w)) if w else None))
        return True
    if t.op == "mcall" and t.args[1] in ("zfill", "rjust") and len(t.args) >= 3:
        o = []
        if flat(t.args[0], None, o) and len(o) == 1 and isinstance(o[0], tuple) and o[0][3] is None:
            out.append(("hex", o[0][1], t.args[1] == "zfill" or is_const(t.args[-1], "0"), t.args[2]))
            return True
        return False
    if t.op == "call" and t.args[0] == "format" and len(t.args) == 3:
        return flat(mk("fmt", t.args[1], t.args[2]), None, out)
    if t.op in ("bin",):
        return False
    out.append(t)
    return True


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def saving(c, ini):
    r = c.r
    i = c.run(SAVE)
    ws = write_opens(i)
    opens = [e for e in ws if e.name == "open" or e.kind == "mcall"]
    if len(opens) != 1:
        r.und(ALL, SAVE, f"{len(opens)} files written")
        return ws
    o = opens[0]
    own = mk("attr", SELF, "filename")
    r.ob(tm.equiv(o.guard, TRUE), ALL, o.where(), text(o.guard))
    mode = open_mode(o)
    mode = str(mode.args[0]) if isinstance(mode, T) and mode.op == "const" else ""
    if "a" in mode or "+" in mode:
        r.bad(ALL, o.where(), f"the file is opened in mode {mode!r}, what it contained may remain")
    out = written(i, o.result)
    if not out:
        r.und(ALL, SAVE, "nothing is seen to be written") if any(e.kind in ("vcall", "mcall", "call") and any(x is o.result for x in list(e.args) + [e.recv]) and e is not o for e in i.events) else r.bad(ALL, SAVE, "nothing is written")
        return ws
    # group the parts of an entry: consecutive parts in the same loops
    groups = []
    for loops, g, v, e in out:
        if groups and groups[-1][0] == loops and groups[-1][1] is g and loops:
            groups[-1][2].append(v)
        else:
            groups.append((loops, g, [v], e))
    key, val = None, None
    for loops, g, vs, e in groups:
        w = e.where()
        v = tm.cat(*vs)
        if not loops:
            r.und(LINE, w, text(v)[:100])
            continue
        ls = [l for l in loops]
        coll = ls[0].args[0] if len(ls) == 1 and ls[0].op == "loop" else None
        if coll is None or coll is not OWN:
            r.und(ALL, w, ", ".join(text(l) for l in ls)[:120])
            continue
        mods = ls[0].args[2:]
        cut = [m for m in mods if not str(m).startswith(("bysort", "rev", "list"))]
        if cut:
            r.und(ALL, w, f"the entries are taken {', '.join(text(m) if isinstance(m, T) else str(m) for m in cut)}"[:120])
        g2 = norm(g)
        r.ob(g2 is TRUE or g2 is norm(o.guard), ALL, w, f"only entries with {text(g2)[:100]}")
        n = ls[0].args[1]
        key, val = mk("key", OWN, n), mk("val", OWN, n)
        each = mk("elem", OWN, n)

        def is_path(p):
            return any(same(p, x) for x in (val, mk("index", OWN, key), mk("index", OWN, each), mk("mcall", OWN, "get", each), mk("mcall", OWN, "get", key)))
        ps = []
        if not flat(v, ini, ps):
            r.und(LINE, w, text(v)[:120])
            continue
        ps = merge(ps)
        shape = "".join("H" if isinstance(p, tuple) else "P" if isinstance(p, T) and (is_path(p)) else p if isinstance(p, str) else "?" for p in ps)
        d = repr(shape)[:60]
        if "?" in shape:
            p = next(p for p in ps if isinstance(p, T) and not (is_path(p)))
            (r.bad if p.op in ("mcall", "slice", "call") and tm.mentions(p, lambda x: x is val) or same(p, key) else r.und)(LINE, w, f"{text(p)[:80]} is written")
            continue
        if shape != "HP\n" and shape != "H P\n":
            r.bad(LINE, w, f"the line is {d} (H: hash, P: path)")
            continue
        r.ob(shape == "H P\n", LINE, w, d)
        _, x, zero, width = next(p for p in ps if isinstance(p, tuple))
        r.ob(same(x, key) or same(x, each), LINE, w, f"the number is {text(x)[:60]}")
        if width is None or not zero:
            r.bad(LINE, w, "the hash is not padded with zeros to a fixed width")
        elif width.op == "const":
            r.bad(LINE, w, f"the width is {width.args[0]} whatever the list's own")
        else:
            (r.ok if width.op == "param" and width.args[0] != "filename" else r.und)(LINE, w, f"width {text(width)[:60]}")
    return ws


# ---- load

H, P = "<H>", "<P>"


class Lossy(Exception):
    pass


def ev(t, line):
    """Value of a term on a saved line: list of pieces (text), ("list", [...]) or ("int", pieces), bool. None if unknown; raises Lossy."""
    if t is line:
        return [H, " ", P, "\n"]
    if t.op == "const":
        return [t.args[0]] if isinstance(t.args[0], str) else t.args[0]
    if t.op in ("index", "zelem", "fld"):
        b = ev(t.args[0], line)
        k = t.args[1].args[0] if isinstance(t.args[1], T) and t.args[1].op == "const" else None
        if isinstance(b, tuple) and b[0] == "list" and isinstance(k, int):
            try:
                return b[1][k]
            except IndexError:
                raise Lossy(f"item {k} of a line is taken")
        return None
    if t.op == "tuple" or t.op == "list":
        return ("list", [ev(x, line) for x in t.args])
    if t.op == "cat":
        out = []
        for x in t.args:
            v = ev(x, line)
            if not isinstance(v, list):
                return None
            out += v
        return out
    if t.op == "slice":
        b = ev(t.args[0], line)
        lo, hi = (x.args[0] if isinstance(x, T) and x.op == "const" else "?" for x in t.args[1:3])
        if isinstance(b, list) and lo in (None, 0) and hi == -1:
            if b and b[-1] == "\n":
                return b[:-1]
            raise Lossy("the last character of the path is cut")
        return None
    if t.op == "call" and t.args[0] == "int" and len(t.args) >= 2:
        b = ev(t.args[1], line)
        base = t.args[2].args[0] if len(t.args) > 2 and isinstance(t.args[2], T) and t.args[2].op == "const" else t.args[2].args[1].args[0] if len(t.args) > 2 and t.args[2].op == "kw" and t.args[2].args[1].op == "const" else 10 if len(t.args) == 2 else None
        if not isinstance(b, list) or base is None:
            return None
        if base != 16:
            raise Lossy(f"the hash is read in base {base}")
        return ("int", [x for x in b if x.strip()])
    if t.op == "mcall":
        b = ev(t.args[0], line)
        name = t.args[1]
        if not isinstance(b, list):
            return None
        a = [ev(x, line) for x in t.args[2:] if isinstance(x, T) and x.op not in ("kw", "uid")]
        kw = {x.args[0]: ev(x.args[1], line) for x in t.args[2:] if isinstance(x, T) and x.op == "kw"}
        arg = "".join(a[0]) if a and isinstance(a[0], list) else None
        if name in ("rstrip", "strip", "lstrip"):
            if a and a[0] is not None and arg is None:
                return None
            chars = arg
            if name != "lstrip" and b and b[-1] == "\n" and (chars is None or "\n" in chars):
                b = b[:-1]
            if name != "lstrip":
                while b and chars is not None and b[-1] != P and b[-1] != H and set(b[-1]) <= set(chars):
                    b = b[:-1]
                if b and b[-1] == P and (chars is None or set(chars) - set("\r\n")):
                    raise Lossy("characters at the end of the path are stripped")
            if name != "rstrip" and b and b[0] == P and (chars is None or set(chars) - set("\r\n")):
                raise Lossy("characters at the start of the path are stripped")
            if name != "rstrip" and b and b[0] == H and chars is not None and set(chars) & set("0123456789abcdefABCDEF"):
                raise Lossy("digits of the hash are stripped")
            return b
        if name == "removesuffix" and arg is not None:
            return b[:-1] if b and b[-1] == arg else b if not b or b[-1] not in (H, P) else None
        if name == "replace" and len(a) == 2 and arg == "\n":
            return [("".join(a[1]) if x == "\n" else x) for x in b if x != "\n" or a[1]]
        if name in ("lower", "upper", "casefold", "title", "capitalize", "expandtabs"):
            if P in b:
                raise Lossy(f"the path is changed by {name}()")
            return b
        if name in ("split", "rsplit", "partition", "rpartition"):
            sep = arg if a else ("".join(kw["sep"]) if isinstance(kw.get("sep"), list) else None)
            n = a[1] if len(a) > 1 else kw.get("maxsplit", -1)
            if name.endswith("partition"):
                n = 1
            if sep is None and name == "split" and (n == -1 or n is None):
                raise Lossy("a path with spaces is split")
            if sep is None:
                return None
            if sep == "\n" and b[-1:] == ["\n"]:
                return ("list", [b[:-1], []])
            if sep != " ":
                return None
            if name.startswith("r") or n not in (1,):
                if P in b:
                    raise Lossy("a path with spaces is split")
            if " " not in b:
                return None if P in b else ("list", [b])
            k = b.index(" ")
            if P in b[:k]:
                return None
            return ("list", [b[:k], [" "], b[k + 1:]] if name == "partition" else [b[:k], b[k + 1:]])
        if name in ("startswith", "endswith") and arg is not None:
            if name == "startswith" and b and b[0] == H and arg and arg[0] not in "0123456789abcdefABCDEF":
                return False
            return None
        if name == "isspace":
            return False if H in b else None
        return None
    if t.op == "truthy":
        v = ev(t.args[0], line)
        if isinstance(v, bool):
            return v
        if isinstance(v, list):
            return True if any(x in (H, " ", "\n") for x in v) else False if not v else None
        return None
    if t.op == "in":
        a, b = ev(t.args[0], line), ev(t.args[1], line)
        if isinstance(a, list) and isinstance(b, list) and len(a) == 1 and a[0] in b:
            return True
        return None
    if t.op == "==":
        a, b = ev(t.args[0], line), ev(t.args[1], line)
        if isinstance(a, list) and isinstance(b, list):
            if (H in a) != (H in b):
                o = b if H in a else a
                if not o or o == ["\n"] or o == [""]:
                    return False
        return None
    return None


def loading(c, ini, ws):
    r = c.r
    i = c.run(LOAD)
    opens = [e for e in evs(i) if e.result is not None and (e.kind == "call" and e.name in ("open", "io.open", "codecs.open") or e.kind == "mcall" and e.name == "open")]
    own = mk("attr", SELF, "filename")
    if len(opens) != 1:
        r.und(READ, LOAD, f"{len(opens)} files opened")
        return
    o = opens[0]
    saved = [e for e in ws if e.name == "open" or e.kind == "mcall"]
    # file, encoding
    if saved:
        s = saved[0]

        def path(e):
            return norm(e.args[0]) if e.kind == "call" else norm(e.recv)
        r.ob(same(path(s), path(o)), ENC, o.where(), f"saved to {text(path(s))[:50]}, loaded from {text(path(o))[:50]}")
        for k, pos in (("encoding", 3), ("errors", 4)):
            a, b = ((lambda v: NONE if v is None else v)(handle_kw(x, pos, k)) for x in (s, o))
            ca, cb = (canon_enc(x) for x in (a, b))
            if k == "errors":
                if any(x.op == "const" and x.args[0] in ("ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace") for x in (a, b)):
                    r.bad(ENC, (s if a.op == "const" and a.args[0] else o).where(), "characters that cannot be encoded are changed")
                else:
                    (r.ok if same(a, b) else r.und)(ENC, o.where(), "error handlers")
            else:
                r.ob(ca == cb, ENC, o.where(), f"saved with encoding {text(a)}, loaded with {text(b)}") if not (a.op != "const" or b.op != "const") else r.und(ENC, o.where(), "unknown encoding")
    mode = open_mode(o)
    if isinstance(mode, T) and mode.op == "const" and "b" in str(mode.args[0]):
        r.und(READ, o.where(), "read as bytes")
        return
    # a load always ends with the loaded content in self.hashes
    sets = [e for e in i.events if e.kind == "setattr" and e.recv is SELF and e.name == "hashes"]
    if not sets:
        r.bad(KEEP, LOAD, "the list keeps its former content")
        return
    res = i.result
    found = False
    for g, v in tm.cases(norm(res)):
        if same(v, OWN):
            # former content: not when asked to reload, nor when there is none
            force = [p.arg for p in c.prog.func(LOAD).node.args.args if p.arg != "self"]
            for f in force:
                r.ob(not tm.satisfiable(assume(g, {truth(mk("param", f)): True})), KEEP, LOAD, f"the former content is returned with {f}")
            continue
        es = tm.entries_of(v)
        if es is None:
            r.und(READ, LOAD, text(v)[:100])
            continue
        if not any(any(same(x, v) for _, x in tm.cases(norm(y))) for y in [e.args[0] for e in sets] + [final_attr(i, SELF, "hashes")]):
            r.und(KEEP, LOAD, "another value is returned")
        else:
            r.ok(KEEP, sets[0].where())
        for n in es:
            found = True
            loops = n.args[0].args
            lines = lines_of(loops, o.result)
            if lines is None:
                r.und(READ, o.where(), "loops: " + ", ".join(text(l) for l in loops)[:120])
                continue
            try:
                gd = n.args[1]
                m = {}
                for a in tm.atoms(gd):
                    b = ev(a, lines)
                    if isinstance(b, bool):
                        m[a] = b
                gd = assume(gd, m)
                if gd is not TRUE:
                    if not tm.satisfiable(gd):
                        r.bad(READ, o.where(), "no saved line is read")
                    elif any(tm.mentions(a, lambda x: x is lines) for a in tm.atoms(gd)):
                        r.und(READ, o.where(), f"lines are read if {text(gd)[:100]}")
                    else:
                        r.und(READ, o.where(), text(gd)[:100])
                    continue
                k, v2 = ev(n.args[3], lines), ev(n.args[2], lines)
            except Lossy as x:
                r.bad(READ, o.where(), str(x))
                continue
            if k is None or v2 is None:
                r.und(READ, o.where(), f"{text(n.args[3])[-80:]}: {text(n.args[2])[-80:]}")
                continue
            r.ob(k == ("int", [H]), READ, o.where(), f"hash read from {k}")
            r.ob(v2 == [P], READ, o.where(), f"path read from {v2}")
    if not found:
        r.und(READ, LOAD, "nothing loaded")


def canon_enc(t):
    if t.op != "const":
        return None
    v = t.args[0]
    return None if v is None else str(v).lower().replace("-", "").replace("_", "")


def lines_of(loops, h):
    """The line read by one iteration if the loops go over every line of the file."""
    if len(loops) != 1 or loops[0].op != "loop" or len(loops[0].args) != 2:
        return None
    coll, n = loops[0].args
    src = coll
    if src.op == "mcall" and src.args[1] in ("readlines", "__iter__"):
        src = src.args[0]
    if src.op == "call" and src.args[0] in ("list", "iter"):
        src = src.args[1]
    if strip_epoch(src) is not strip_epoch(h):
        return None
    return mk("elem", coll, n)


def widths(c):
    r = c.r
    ini = c.prog.func(INIT)
    names = [a.arg for a in ini.node.args.args]
    if "hash_size" not in names:
        r.und(WIDTH, INIT, "no width parameter")
        return
    import ast
    pos = names.index("hash_size") - 1
    nd = len(names) - len(ini.node.args.defaults)
    dft = ini.node.args.defaults[names.index("hash_size") - nd] if names.index("hash_size") >= nd else None
    dft = dft.value if isinstance(dft, ast.Constant) else None
    n = 0
    for m in c.prog.modules.values():
        for x in ast.walk(m.tree):
            if not (isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "HashFile" or isinstance(x.func, ast.Attribute) and x.func.attr == "HashFile")):
                continue
            name = [y.value for a in x.args[:1] + [k.value for k in x.keywords if k.arg == "filename"] for y in ast.walk(a) if isinstance(y, ast.Constant) and isinstance(y.value, str)]
            w = [k.value for k in x.keywords if k.arg == "hash_size"] or x.args[pos:pos + 1]
            v = (w[0].value if isinstance(w[0], ast.Constant) else None) if w else dft
            if not name or not name[-1].startswith("hashes."):
                continue
            n += 1
            want = 8 if name[-1].startswith("hashes.bin") else 16
            where = f"{m.rel}:{x.lineno}"
            if v is None:
                r.und(WIDTH, where, "unknown width")
            else:
                r.ob(v == want, WIDTH, where, f"{name[-1]} is {v} digits wide, its hashes {want}")
    if not n:
        r.und(WIDTH, "cdtb", "no hash list")
