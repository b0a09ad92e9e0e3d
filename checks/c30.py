"""C30: string tables are decoded and looked up with the key width of their version."""
import ast
import base64
import binascii
import struct
from vfa.q import *
from checks.c28 import version_of, klass

RULE = """The string table reader is interpreted, and its reads, results and guards are specialised for every table version (0 to 255 and a wrong magic), font flag and game version around each version named in the
code. For supported versions the sequence of reads must be the layout of that version, the number of hash bits must be the documented one, every stored key must be exactly the low bits of the entry and every position in
the data must be exactly the remaining high bits (bit by bit); the text stored for an entry, evaluated
on sample data, must be what stands at its position up to the next NUL, or the base64 form of the counted bytes after a 0xFF in a table with encrypted strings; for anything else an exception must be raised before an entry is stored. Every lookup must use the low bits, as many as the table's, of the hash
function of the game version on the lowercased key. The exporter must pass the version of the patch (traced through all constructions), load the key list of that version and truncate its hashes to the bits of the table."""

LAYOUT, WIDTH, SPLIT, LOOKUP, LIST, REJECT, EXPORT, VERSION = ("the layout of the version is read", "hash bits of the version", "the same bits separate hash and offset", "lookups use the hash and bits of the table",
                                                             "the key list of the version", "other files are rejected", "exported names use the bits of the table", "the version is the one of the patch")
STRINGS = "the text of each entry"
SELF = mk("param", "self")
XXH = {"xxh3": ("xxhash.xxh3_64_intdigest", "xxhash.xxh3_64_hexdigest"), "xxh64": ("xxhash.xxh64_intdigest", "xxhash.xxh64_hexdigest")}
INIT = "rstfile.RstFile.__init__"


def bits_of(v, gv):
    return 40 if v in (2, 3) else 38 if gv >= 1502 else 39


def check(c):
    r = c.r
    f = c.prog.func(INIT)
    if f is None:
        r.und(LAYOUT, INIT, "not found")
        return
    reading(c, f)
    lookups(c)
    lists(c)
    version_of(c, "RstFile", "game_version")
    version_of(c, "RstConverter", "game_version")
    naming(c)


def versions(i):
    """Game versions around each constant compared with the game version."""
    ks = {923, 1008, 1414, 1415, 1502, 301, 9999}
    for e in i.events:
        for t in [e.guard, *(e.args or [])]:
            for x in subterms(t):
                if x.op in ("<", "==") and any(y.op in ("param", "attr") and "version" in str(y.args[-1]) for y in x.args if isinstance(y, T)):
                    ks |= {y.args[0] for y in x.args if isinstance(y, T) and y.op == "const" and isinstance(y.args[0], int)}
    return sorted({k + d for k in ks for d in (-1, 0, 1)} - {0, -1})


class Scene:
    """The reads of the table and the terms of the analysis for given contents of its fixed fields."""

    def __init__(self, i, head, tail, gv, as_path, path):
        self.i, self.head, self.tail = i, head, tail
        self.at, self.items = {}, []
        self.problem = None
        self.raised = None
        self.stored = []
        self.memo = {}
        self.fixed = {mk("param", "game_version"): const(gv), mk("attr", SELF, "game_version"): const(gv), mk("is", path, NONE): FALSE, mk("truthy", path): TRUE}
        self.as_path, self.path = as_path, path
        looped = False
        for e in i.events:
            if e.kind not in ("mcall", "raise", "setitem", "call"):
                continue
            g = self.sub(e.guard)
            if g is FALSE:
                continue
            loops = tuple(self.sub(l) for l in e.loops)
            if e.kind == "mcall" and self.is_file(e.recv) and e.name in ("read", "seek", "tell", "readline"):
                if e.name == "tell":
                    continue
                if e.name == "seek" and len(e.args) > 1 and is_const(e.args[1], 1):
                    pass
                elif e.name != "read":
                    self.problem = e, f"calls {e.name}"
                    return
                if g is not TRUE:
                    self.problem = e, f"read only if {text(g)[:100]}"
                    return
                n = self.sub(e.args[0]) if e.args else None
                if n is NONE or is_const(n, -1):
                    n = None
                kind = "rest" if n is None else "bytes" if n.op == "const" else "data"
                if kind == "bytes" and self.items and self.items[-1][0] == "bytes" and self.items[-1][1] == loops:
                    k, l, m = self.items.pop()
                    self.items.append((k, l, const(m.args[0] + n.args[0])))
                    off = m.args[0]
                else:
                    self.items.append((kind, loops, n))
                    off = 0
                looped = looped or bool(loops)
                self.at[e.result] = (len(self.items) - 1, off, looped and not loops)
                self.memo = {}
            elif e.kind == "raise" and g is TRUE and not e.loops and self.raised is None:
                self.raised = e
            elif e.kind == "raise" and not any(h for h in e.zones if h[1] != "body"):
                self.stored.append((e, g))
            elif e.kind == "setitem":
                self.stored.append((e, g))

    def is_file(self, t):
        if t is None:
            return False
        t = strip_epoch(t)
        return t is self.path or t.op == "call" and t.args[0] in ("open", "io.open") or t.op == "mcall" and t.args[1] == "open" or t.op == "ite" and all(self.is_file(x) for x in t.args[1:])

    def content(self, r, lo, n):
        """Known bytes of a read."""
        if r not in self.at:
            return None
        k, off, after = self.at[r]
        src = self.head if k == 0 else self.tail if after else None
        if src is None or off + lo + n > len(src):
            return None
        return src[off + lo:off + lo + n]

    def rule(self, x):
        if x in self.fixed:
            return self.fixed[x]
        if x.op == "isinst" and x.args[0] is self.path:
            return TRUE if ("str" in str(x.args[1])) is self.as_path else FALSE
        if x.op == "hasattr" and x.args[0] is self.path:
            return FALSE if self.as_path else TRUE
        if x.op == "ok":
            return TRUE
        if x.op == "exc":
            return FALSE
        if x.op == "fld":
            p = fld_place(x)
            if p is not None and isinstance(p[0], T):
                data, off, ch, w, order = p
                base = 0
                if data.op == "slice" and data.args[1].op == "const":
                    base, data = data.args[1].args[0] or 0, data.args[0]
                b = self.content(data, base + off, w)
                if b is not None:
                    return const(struct.unpack((order if order in "<>" else "<") + (f"{w}s" if ch == "s" else ch), b)[0])
        if x.op == "index" and x.args[1].op == "const" and isinstance(x.args[1].args[0], int) and x.args[1].args[0] >= 0:
            b = self.content(x.args[0], x.args[1].args[0], 1)
            if b is not None:
                return const(b[0])
        if x.op == "slice" and x.args[1].op == "const" and x.args[2].op == "const" and isinstance(x.args[2].args[0], int):
            lo, hi = x.args[1].args[0] or 0, x.args[2].args[0]
            b = self.content(x.args[0], lo, hi - lo) if 0 <= lo <= hi else None
            if b is not None:
                return const(b)
        if x.op in ("==", "in") and any(y in self.at for y in x.args):
            r = next(y for y in x.args if y in self.at)
            other = next((y for y in x.args if y is not r), None)
            n = len(other.args[0]) if other is not None and other.op == "const" and isinstance(other.args[0], bytes) else None
            b = self.content(r, 0, n) if n is not None else None
            if b is not None and x.op == "==":
                return TRUE if b == other.args[0] else FALSE
        if x.op in ("==", "<", "in") and all(isinstance(y, T) and y.op == "const" for y in x.args):
            try:
                a, b = x.args[0].args[0], x.args[1].args[0]
                return const(bool(a == b if x.op == "==" else a < b if x.op == "<" else a in b))
            except TypeError:
                return x
        if x.op == "in" and x.args[0].op == "const" and x.args[1].op in ("tuple", "list", "set") and all(y.op == "const" for y in x.args[1].args):
            return const(x.args[0].args[0] in [y.args[0] for y in x.args[1].args])
        return x

    def sub(self, t):
        return tm.rewrite(t, self.rule, self.memo)

    def shape(self):
        return [(k, "loop" if l else "", n.args[0] if k == "bytes" else None) for k, l, n in self.items]


def expected(v, flag):
    """Reads of a table: (kind, in a loop, size)."""
    out = [("bytes", "", 9 if v == 2 else 8)]
    if v == 2 and flag:
        out += [("data", "", None), ("bytes", "", 4)]
    out += [("bytes", "loop", 8)]
    if v < 5:
        out += [("bytes", "", 1)]
    return out + [("rest", "", None)]


def reading(c, f):
    r = c.r
    ps = [a.arg for a in f.node.args.args if a.arg != "self"]
    path = mk("param", ps[0])
    i = c.run(INIT)
    w = f"{f.module.rel}:{f.node.lineno} in {INIT}"
    gvs = versions(i)
    for as_path in (True, False):
        done = {}
        for v in (2, 3, 4, 5):
            for flag in ((0, 1) if v == 2 else (0,)):
                for gv in gvs:
                    head = b"RST" + bytes([v]) + (bytes([flag]) if v == 2 else b"")
                    for trenc in ((0, 1) if v < 5 else (0,)):
                        s = Scene(i, head, bytes([trenc]) if v < 5 else b"", gv, as_path, path)
                        for ob, verdict, where, detail in table(c, i, s, v, flag, gv, w):
                            k = (ob, where)
                            old = done.get(k)
                            if old is None or old[0] is True and verdict is not True or old[0] is None and verdict is False:
                                done[k] = (verdict, detail if verdict is not True else "")
        for (ob, where), (verdict, detail) in done.items():
            r.ob(verdict, ob, where, ("opened by path" if as_path else "given a file") + (": " + detail if detail else f", versions 2 to 5, {len(gvs)} game versions"))
        # anything else
        bad = None
        for v in [x for x in range(256) if x not in (2, 3, 4, 5)]:
            bad = bad or rejected(Scene(i, b"RST" + bytes([v]), b"", 1502, as_path, path), f"version {v}")
        for magic in (b"RSU", b"PTC", b"\0\0\0", b"rst", b"RS\0", b"ABT"):
            for v in (2, 3, 4, 5):
                bad = bad or rejected(Scene(i, magic + bytes([v]) + (b"\0" if v == 2 else b""), b"\0", 1502, as_path, path), f"magic {magic!r}")
        r.ob(bad[0] if bad else True, REJECT, w, bad[1] if bad else "252 other versions, 6 other magics")


def rejected(s, what):
    if s.raised is not None:
        return None
    if s.problem is not None:
        return None, f"{what}: {s.problem[1]}"
    gs = [g for e, g in s.stored if e.kind == "setitem"]
    if any(g is TRUE or tm.satisfiable(g) for g in gs) or s.items and s.items[-1][0] == "rest":
        return False, f"a file of {what} is read as a string table"
    return None, f"{what}: not known to be rejected"


def table(c, i, s, v, flag, gv, w):
    what = f"version {v}, game version {gv}"
    if s.problem is not None:
        yield LAYOUT, None, s.problem[0].where(), f"{what}: {s.problem[1]}"
        return
    if s.raised is not None:
        yield LAYOUT, False, s.raised.where(), f"{what} is rejected"
        return
    got, want = s.shape(), expected(v, flag)
    if got != want:
        odd = [x for x in got if x[0] == "data" and x not in want]
        yield LAYOUT, None if odd else False, w, f"{what}: reads {show_shape(got)}, not {show_shape(want)}"
        return
    yield LAYOUT, True, w, show_shape(got)
    # count and size fields
    counts = [l for k, ls, n in s.items if ls for l in ls]
    head = want.index(("bytes", "loop", 8)) - 1
    ok = field(s, counts[0].args[0].args[1] if counts and counts[0].op == "loop" and counts[0].args[0].op == "rng" and is_const(counts[0].args[0].args[0], 0) else None, head, (0 if head else len(expected_head(v))), 4)
    yield LAYOUT, ok, w, f"{what}: the number of entries"
    if flag:
        yield LAYOUT, field(s, s.items[1][2], 0, 5, 4), w, f"{what}: the size of the font configuration"
    hb = bits_of(v, gv)
    t = final_attr(i, SELF, "hash_bits")
    n = s.sub(norm(t)) if t is not None else None
    yield WIDTH, (n.args[0] == hb) if n is not None and n.op == "const" else None, w, f"{what}: {text(n)[:40] if n is not None else '?'} bits, not {hb}"
    vt = final_attr(i, SELF, "version")
    vt = s.sub(vt) if vt is not None else None
    if vt is not None and vt.op == "const":
        yield LAYOUT, vt.args[0] == v, w, f"{what}: version attribute is {vt.args[0]}"
    entry = want.index(("bytes", "loop", 8))
    rest = [r for r, (k, off, a) in s.at.items() if s.items[k][0] == "rest"]
    low = [(entry, k // 8, k % 8) for k in range(hb)]
    high = [(entry, k // 8, k % 8) for k in range(hb, 64)]
    at = lambda d: (s.at[d][0], s.at[d][1]) if d in s.at else None
    n = 0
    for e, g in s.stored:
        if e.kind != "setitem" or g is FALSE or not tm.satisfiable(g):
            continue
        key, val = s.sub(e.args[0]), s.sub(e.args[1])
        if not any(x in s.at for x in subterms(key)):
            continue
        n += 1
        b = bits(key, at)
        yield SPLIT, (trim(b) == low) if b is not None else None, e.where(), f"{what}: the key is {show_bits(trim(b)) if b is not None else text(key)[:80]}, not the low {hb} bits"
        for q in positions([val, g], rest):
            b = bits(q, at)
            yield SPLIT, (trim(b) == high) if b is not None else None, e.where(), f"{what}: the position is {show_bits(trim(b)) if b is not None else text(q)[:80]}, not the high {64 - hb} bits"
    if not n:
        yield SPLIT, None, w, f"{what}: no entry is stored"
        return
    verdict = strings(s, v, hb, entry, rest)
    yield STRINGS, verdict[0], verdict[1] or w, f"{what}: {verdict[2]}" if len(verdict) > 2 else ""


SHORT = b"abc\0" + b"x\xc3\xa9 %i:1 \x92s\0" + b"\0" + b"\xffz\0"


def blob(n):
    return bytes((7 * k + 11) % 256 for k in range(n))


def samples(flagged):
    """Data and positions in it, with the string at each."""
    out = []
    plain = lambda data, p: data[p:data.index(b"\0", p)].decode("utf-8", "replace")
    for p in (0, 2, 4, 6, 15, 16) + (() if flagged else (17,)):
        out.append((SHORT, p, plain(SHORT, p)))
    for n in (0, 3, 255, 256, 259, 700, 40000):
        data = b"lead\0\xff" + n.to_bytes(2, "little") + blob(n) + b"tail\0"
        if flagged:
            out.append((data, 5, base64.b64encode(blob(n)).decode()))
        elif n < 300:
            out.append((data, 5, plain(data, 5)))
        out.append((data, 1, "ead"))
        out.append((data, len(data) - 5, "tail"))
    far = b"\0" * 70000 + b"far\0"
    out.append((far, 70000, "far"))
    return out


def strings(s, v, hb, entry, rest):
    """The stored text, evaluated on sample data (the operations of the stored terms are applied to them)."""
    flag = bool(s.tail and s.tail[0])
    where = next((e.where() for e, g in s.stored if e.kind == "setitem" and e.args[0] is not None and any(x in s.at for x in subterms(s.sub(e.args[0])))), None)
    for data, p, want in samples(flag):
        raw = struct.pack("<Q", p << hb | 5)

        def leaf(x, nothing, data=data, raw=raw):
            if x in s.at:
                return data if x in rest else raw if s.at[x][0] == entry else nothing
            if x.op == "uid":
                raise Unknown
            if x.op == "fld":
                q = fld_place(x)
                if q is None:
                    return nothing
                src, off, ch, w, order = q
                b = calc(src, leaf) if isinstance(src, T) else None
                if not isinstance(b, bytes) or ch == "s":
                    return nothing
                try:
                    return struct.unpack_from((order if order in "<>" else "<") + ch, b, off)[0]
                except struct.error:
                    raise Fails
            args = [y for y in x.args[1:] if isinstance(y, T) and y.op not in ("uid", "kw")]
            kw = {y.args[0]: y.args[1] for y in x.args if isinstance(y, T) and y.op == "kw"}
            if x.op == "call" and x.args[0] == "base64.b64encode" or x.op == "call" and x.args[0] == "base64.standard_b64encode":
                return base64.b64encode(calc(args[0], leaf))
            if x.op == "call" and x.args[0] == "binascii.b2a_base64":
                return binascii.b2a_base64(calc(args[0], leaf), **{k: calc(y, leaf) for k, y in kw.items()})
            if x.op == "call" and x.args[0] == "int.from_bytes":
                vs = [calc(y, leaf) for y in args]
                return int.from_bytes(vs[0], *(vs[1:2] or [calc(kw["byteorder"], leaf) if "byteorder" in kw else "big"]), **({"signed": True} if len(vs) > 2 and vs[2] or "signed" in kw and calc(kw["signed"], leaf) else {}))
            if x.op == "call" and x.args[0] in ("bytes", "str", "bytearray", "memoryview") or x.op == "cat" and len(x.args) == 1:
                vs = [calc(y, leaf) for y in (args if x.op == "call" else x.args)]
                if all(isinstance(y, (bytes, str)) for y in vs) and vs and (x.op == "call" and x.args[0] != "str" and len(vs) == 1 or len(vs) > 1):
                    return vs[0] if len(vs) == 1 else str(*vs)
                return nothing
            if x.op == "mcall" and x.args[1] == "decode":
                b = calc(x.args[0], leaf)
                if not isinstance(b, bytes):
                    return nothing
                vs = [calc(y, leaf) for y in x.args[2:] if y.op not in ("uid", "kw")]
                try:
                    return b.decode(*vs, **{k: calc(y, leaf) for k, y in kw.items()})
                except UnicodeDecodeError:
                    raise Fails
                except (LookupError, TypeError):
                    return nothing
            if x.op == "mcall" and x.args[1] in ("index", "rindex"):
                try:
                    return strcalc(x, lambda y: calc(y, leaf), nothing)
                except ValueError:
                    raise Fails
            return strcalc(x, lambda y: calc(y, leaf), nothing)
        what = f"data with {data[p:p + 3]!r} at position {p}" + (" of a table with encrypted strings" if flag else "")
        got = []
        try:
            for e, g in s.stored:
                if g is FALSE:
                    continue
                if e.kind == "raise":
                    if any(x in s.at for x in subterms(g)) and calc(g, leaf):
                        return False, e.where(), f"{what} is rejected"
                    continue
                if calc(s.sub(g), leaf):
                    if any(x in s.at for x in subterms(s.sub(e.args[0]))):
                        got.append((e, calc(s.sub(e.args[1]), leaf)))
        except Fails:
            return False, where, f"{what} ends with an error"
        except Unknown:
            return None, where, f"{what}: the text is not understood"
        if not got:
            return False, where, f"{what}: no text is stored"
        if got[-1][1] != want:
            return False, got[-1][0].where(), f"{what} gives {str(got[-1][1])[:30]!r}, not {want[:30]!r}"
    return True, where


def expected_head(v):
    return b"RST0" + (b"F" if v == 2 else b"")


def field(s, t, item, off, w):
    if t is None:
        return None
    p = fld_place(t)
    if p is None or p[0] not in s.at:
        return None
    k, base, _ = s.at[p[0]]
    return (k, base + p[1], p[3]) == (item, off, w) and p[2] in "ILiBHQ" and p[4] == "<"


def show_shape(x):
    return ", ".join((f"{n} bytes" if k == "bytes" else "sized data" if k == "data" else "the rest") + (" each" if l else "") for k, l, n in x)


def positions(ts, rest):
    """Positions in the data, without constant displacement."""
    out = []
    for t in ts:
        for x in subterms(t):
            p = None
            if x.op == "index" and x.args[0] in rest:
                p = x.args[1]
            elif x.op == "slice" and x.args[0] in rest and x.args[1] is not NONE:
                p = x.args[1]
            elif x.op == "mcall" and x.args[0] in rest and x.args[1] in ("find", "index") and len(x.args) > 3 and x.args[3].op != "uid":
                p = x.args[3]
            if p is None:
                continue
            if p.op == "bin" and p.args[0] == "+" and any(y.op == "const" for y in p.args[1:] if isinstance(y, T)):
                ys = [y for y in p.args[1:] if y.op != "const"]
                p = ys[0] if len(ys) == 1 else p
            if p not in out and not (p.op == "mcall" and p.args[1] in ("find", "index")):
                out.append(p)
    return out


def digest(x, key):
    """Which hash function of the lowercased key a term is."""
    if x.op != "call" or not isinstance(x.args[0], str) or not x.args[0].startswith("xxhash."):
        return None
    name = x.args[0].split(".", 1)[1]
    kind = "xxh3" if name.startswith("xxh3_64_intdigest") else "xxh64" if name.startswith("xxh64_intdigest") else "?"
    a = x.args[1] if len(x.args) > 1 else None
    if len([y for y in x.args[2:] if y.op != "uid"]):
        return "?"
    while a is not None and a.op == "mcall" and a.args[1] in ("encode",):
        a = a.args[0]
    if a is None or not (a.op == "mcall" and a.args[1] == "lower" and strip_epoch(a.args[0]) is key):
        return "raw"
    return kind


def lookups(c):
    r = c.r
    entries = mk("attr", SELF, "entries")
    n = 0
    k = klass(c, "RstFile")
    for name, m in sorted(k.methods.items()):
        ps = [a.arg for a in m.node.args.args if a.arg != "self"]
        if name in ("__init__", "parse_rst") or not ps:
            continue
        i = c.run("rstfile.RstFile." + name)
        key = mk("param", ps[0])
        seen = set()
        for e in [*i.events, None]:
            for t in ([e.guard, e.result, e.recv, *(e.args or [])] if e is not None else [i.result]):
                for x in subterms(t) if isinstance(t, T) else ():
                    if x in seen:
                        continue
                    seen.add(x)
                    q = None
                    if x.op == "index" and strip_epoch(x.args[0]) is entries:
                        q = x.args[1]
                    elif x.op == "in" and strip_epoch(x.args[1]) is entries:
                        q = x.args[0]
                    elif x.op == "mcall" and strip_epoch(x.args[0]) is entries and x.args[1] in ("get", "pop", "setdefault", "__contains__", "__getitem__"):
                        q = x.args[2]
                    if q is None or not any(y is key for y in subterms(q)):
                        continue
                    n += 1
                    lookup(c, i, q, key, f"{m.module.rel}:{m.node.lineno} in rstfile.RstFile.{name}")
    if not n:
        r.und(LOOKUP, "rstfile.RstFile", "no lookup found")


def lookup(c, i, q, key, w):
    r = c.r
    bad = None
    pats = {"xxh3": (2**64 - 1, 0x0123456789abcdef), "xxh64": (0xfedcba9876543210, 2**64 - 1), "key": (2**64 - 1, 0xfedcba9876543211)}
    for gv in versions(i):
        for hb in (38, 39, 40):
            for text_key in (True, False):
                for k in (0, 1):
                    def leaf(x, nothing):
                        if x is mk("attr", SELF, "game_version"):
                            return gv
                        if x is mk("attr", SELF, "hash_bits"):
                            return hb
                        if x is key:
                            return nothing if text_key else pats["key"][k]
                        if x.op == "isinst" and x.args[0] is key:
                            return ("str" in str(x.args[1])) is text_key
                        d = digest(x, key)
                        if d is not None:
                            if d not in pats:
                                raise Fails("hash of something else than the lowercased key")
                            return pats[d][k]
                        if x.op == "exc":
                            return False
                        if x.op == "ok":
                            return True
                        return nothing
                    want = (pats["xxh3" if gv >= 1415 else "xxh64"][k] if text_key else pats["key"][k]) & ((1 << hb) - 1)
                    try:
                        got = calc(q, leaf)
                    except Unknown:
                        r.und(LOOKUP, w, text(q)[:120])
                        return
                    except Fails as x:
                        got = str(x)
                    if got != want:
                        bad = bad or f"game version {gv}, {hb} bits, {'text' if text_key else 'hash'} key: " + (got if isinstance(got, str) else "another number of bits or hash function")
    r.ob(bad is None, LOOKUP, w, bad or "all game versions, 38 to 40 bits")


def list_file(c, t):
    """Name of the file of a key list."""
    if t.op == "global":
        m = next((m for m in c.prog.modules.values() if m.name == t.args[0]), None)
        for s in m.tree.body if m is not None else ():
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Name) and x.id == t.args[1] for x in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                names = [x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith(".txt")]
                return names[0] if len(names) == 1 else None
    names = [x.args[0] for x in subterms(t) if x.op == "const" and isinstance(x.args[0], str) and x.args[0].endswith(".txt")]
    return names[0].rsplit("/")[-1] if len(set(names)) == 1 else None


def right_list(c, t, gv, where, ob):
    for g, x in tm.cases(t):
        if not tm.satisfiable(g):
            continue
        n = list_file(c, x)
        want = "xxh3" if gv >= 1415 else "xxh64"
        if n is None:
            return None, f"game version {gv}: {text(x)[:60]}"
        if want not in n:
            return False, f"game version {gv}: keys of {n}, not {want}"
    return True, ""


def lists(c):
    r = c.r
    q = "rstfile.get_hashfile"
    f = c.prog.func(q)
    sites = []
    if f is not None:
        i = c.run(q)
        sites.append((f"{f.module.rel}:{f.node.lineno} in {q}", i, i.result))
    k = klass(c, "RstConverter")
    n = 0
    for name in sorted(k.methods) if k is not None else ():
        i = c.run("export.RstConverter." + name, opaque={"hashes.HashFile.load", INIT})
        for e in i.events:
            if e.kind == "call" and e.name == "repo:hashes.HashFile.load":
                n += 1
                sites.append((e.where(), i, e.args[0]))
    if not n:
        r.und(LIST, "export.RstConverter", "no key list is loaded")
    for w, i, t in sites:
        res = (True, "")
        gvs = versions(i)
        for gv in gvs:
            m = {mk("param", "game_version"): const(gv), mk("attr", SELF, "game_version"): const(gv)}
            x = right_list(c, tm.subst(norm(t), m), gv, w, LIST)
            if res[0] is True or x[0] is False:
                res = x
        r.ob(res[0], LIST, w, res[1] or f"{len(gvs)} game versions")


def naming(c):
    """Names of exported entries are found by the low bits of their hash."""
    r = c.r
    q = "export.RstConverter.convert"
    f = c.prog.func(q)
    if f is None:
        r.und(EXPORT, q, "not found")
        return
    i = c.run(q, opaque={INIT, "tools.write_file_or_remove", "tools.json_dump"})
    objs = [e.recv for e in i.events if e.kind == "new" and e.name.endswith("RstFile")]
    n = 0
    seen = set()
    for e in i.events:
        for t in [e.guard, *(e.args or [])]:
            for x in subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                d = x.args[1] if x.op == "in" else x.args[0] if x.op == "index" else x.args[0] if x.op == "mcall" and x.args[1] == "get" else None
                k = None if d is None else x.args[0] if x.op == "in" else x.args[1] if x.op == "index" else x.args[2]
                if d is None or d in seen and False:
                    continue
                es = tm.entries_of(d) if d.op == "build" else None
                if not es or not any(y.op == "attr" and y.args[1] == "entries" for y in subterms(k)):
                    continue
                for en in es:
                    n += 1
                    key = en.args[3] if len(en.args) > 3 else None
                    if key is None:
                        continue
                    verdict, detail = True, "low bits of the key hashes"
                    for hb in (38, 39, 40):
                        for val in (2**64 - 1, 0x0123456789abcdef, 0xfedcba9876543210):
                            def leaf(y, nothing):
                                if y.op == "attr" and y.args[1] == "hash_bits" and strip_epoch(y.args[0]) in objs:
                                    return hb
                                if y.op == "key" or y.op == "zelem" or y.op == "index" and y.args[0].op == "elem" and is_const(y.args[1], 0):
                                    return val
                                if y.op == "isinst" and y.args[0].op in ("key", "index"):
                                    return "int" in str(y.args[1])
                                return nothing
                            try:
                                got = calc(key, leaf)
                            except (Unknown, Fails):
                                verdict, detail = None, text(key)[:80]
                                break
                            if got != val & ((1 << hb) - 1):
                                verdict, detail = False, f"a table of {hb} bits: the hash {val:#x} becomes {got:#x}"
                                break
                        if verdict is not True:
                            break
                    r.ob(verdict, EXPORT, e.where(), detail)
                    kk = norm(k)
                    r.ob(True if kk.op == "key" or kk.op == "index" and kk.args[0].op == "elem" and is_const(kk.args[1], 0) or kk.op == "elem" else None, EXPORT, e.where(), f"looked up by {text(kk)[:60]}")
    if not n:
        r.und(EXPORT, f"{f.module.rel}:{f.node.lineno} in {q}", "no naming found")
