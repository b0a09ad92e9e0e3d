"""C15: RADS files are cut from packages at their exact position."""
from vfa.q import *

RULE = """The reader's copy is analysed as a transfer function: the bytes handed to the writer, the remaining count and the remaining buffer are extracted, as terms, for one iteration of its
loop and for what follows it, and evaluated over every ordering of the count, the buffered length and the next block's length. Conservation: what is handed on followed by what stays buffered is what was buffered followed by the next
block if one was requested; the count decreases by what was handed on; the copy ends exactly when it is zero; another block is requested only when the count exceeds what is buffered;
the position advances by the count. Skipping is copying without a writer up to the target, refused if it is behind. Extraction: in each iteration the reader is moved to the file's offset, then exactly the
file's size is copied, once, by files in increasing order of offset, from a reader of the package of the file opened for that package; what is written is the data handed over, decompressed if and only if the file is
compressed (then followed by the decompressor's rest), and only files absent from the storage are opened."""

RD = "storage.RequestStreamReader"


class Odd(Exception):
    pass


class Ev:
    """Evaluation of the terms of one transfer over lengths: N (count), L (buffered), M (next block)."""

    def __init__(self, n, buf, N, L, M, W):
        self.n, self.buf, self.N, self.L, self.M, self.W = n, buf, N, L, M, W

    def int(self, t):
        if is_const(t) and isinstance(t.args[0], int):
            return int(t.args[0])
        if t is self.n:
            return self.N
        if t.op == "call" and t.args[0] == "len":
            return len(self.seq(t.args[1]))
        if t.op == "call" and t.args[0] in ("min", "max"):
            v = [self.int(a) for a in t.args[1:] if isinstance(a, T)]
            return (min if t.args[0] == "min" else max)(v)
        if t.op == "bin" and t.args[0] in "+-":
            a, b = self.int(t.args[1]), self.int(t.args[2])
            return a + b if t.args[0] == "+" else a - b
        if t.op == "neg":
            return -self.int(t.args[0])
        if t.op == "ite":
            return self.int(t.args[1] if self.bool(t.args[0]) else t.args[2])
        raise Odd(t)

    def seq(self, t):
        if t is self.buf:
            return [("B", k) for k in range(self.L)]
        if is_const(t, b"", ""):
            return []
        if t.op == "call" and t.args[0] == "next":
            return [("F", k) for k in range(self.M)]
        if t.op == "call" and t.args[0] in ("memoryview", "bytes", "bytearray") and len(t.args) == 2:
            return self.seq(t.args[1])
        if t.op == "slice":
            a, b = (None if is_const(x, None) else self.int(x) for x in t.args[1:3])
            return self.seq(t.args[0])[a:b]
        if t.op == "bin" and t.args[0] == "+":
            return self.seq(t.args[1]) + self.seq(t.args[2])
        if t.op == "cat":
            return [x for a in t.args for x in self.seq(a)]
        if t.op == "ite":
            return self.seq(t.args[1] if self.bool(t.args[0]) else t.args[2])
        raise Odd(t)

    def bool(self, t):
        op = t.op
        if is_const(t):
            return bool(t.args[0])
        if op == "and":
            return all([self.bool(a) for a in t.args])
        if op == "or":
            return any([self.bool(a) for a in t.args])
        if op == "not":
            return not self.bool(t.args[0])
        if op == "any":
            return False         # abrupt ends of an earlier iteration
        if op == "truthy":
            x = t.args[0]
            if x is mk("param", "writer") or x.op == "param" and x is not self.n:
                return self.W
            try:
                return bool(self.seq(x))
            except Odd:
                return bool(self.int(x))
        if op == "is" and t.args[1] is NONE and t.args[0].op == "param":
            return not self.W
        if op == "<":
            return self.int(t.args[0]) < self.int(t.args[1])
        if op == "==":
            try:
                return self.int(t.args[0]) == self.int(t.args[1])
            except Odd:
                return self.seq(t.args[0]) == self.seq(t.args[1])
        if op in ("ite",):
            return self.bool(t.args[1] if self.bool(t.args[0]) else t.args[2])
        raise Odd(t)


def copying(c):
    r = c.r
    q = f"{RD}.copy"
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    ps = [a.arg for a in f.node.args.args]
    i = c.run(q)
    slf, wp, cnt = (mk("param", x) for x in ps[:3])
    bufname = buffer_name(c)
    if bufname is None:
        r.und("the stream is handed over without loss", w, "no buffer attribute")
        return
    loops = [l for l in i.whiles if not any(tm.contains(x, l) for x in ())]
    loops = [l for l in i.whiles if any(l in m[2] for m in i.mus.values()) or any(l in e.loops for e in i.events)]
    if len(loops) != 1:
        r.und("the stream is handed over without loss", w, f"{len(loops)} loops")
        return
    loop = loops[0]
    mus = {m: v for m, v in i.mus.items() if loop in v[2]}
    buf = [m for m in mus if str(m.args[1]).endswith("." + bufname)]
    left = [m for m, v in mus.items() if v[0] is cnt or lin(v[0]) == lin(cnt)]
    if len(buf) != 1 or len(left) != 1:
        r.und("the stream is handed over without loss", w, f"state {[text(m) for m in mus]}")
        return
    buf, left = buf[0], left[0]
    calls_w = [e for e in i.events if e.kind == "call" and e.name == "?" and e.recv is wp or e.kind == "mcall" and e.name == "write" and e.recv is wp]
    nexts = [e for e in i.events if e.kind == "call" and e.name == "next"]
    sets = [e for e in i.events if e.kind == "setattr" and e.recv is slf and e.name == bufname]
    brk = [e for e in i.events if e.kind == "break" and loop in e.loops]
    rets = [(g, ls) for g, v, ls, node in i.root_returns if loop in ls]
    inside = lambda e: loop in e.loops
    cond = i.whiles[loop]
    ok = [True]

    def bad(what, detail):
        if ok[0]:
            r.bad("the stream is handed over without loss", w, f"{what}: {detail}")
        ok[0] = False

    def step(ev, evs_w, evs_n, evs_s, n_after, ended, note):
        N, L = ev.N, ev.L
        loaded = [e for e in evs_n if ev.bool(local(e.guard))]
        if len(loaded) > 1:
            raise Odd(loaded[1].result)
        total = [("B", k) for k in range(L)] + ([("F", k) for k in range(ev.M)] if loaded else [])
        H = []
        if ev.W:
            for e in evs_w:
                if ev.bool(local(e.guard)):
                    H += ev.seq(e.args[0])
        left_buf = [("B", k) for k in range(L)]
        for e in evs_s:
            if ev.bool(local(e.guard)):
                left_buf = ev.seq(e.args[0])
        d = f"count {N}, {L} buffered{', next block of %d' % ev.M if loaded else ''}"
        if ev.W:
            if H != total[:len(H)] or H + left_buf != total:
                bad(note, f"{d}: hands over {show_seq(H)}, keeps {show_seq(left_buf)}")
                return
            h = len(H)
        else:
            for e in evs_w:
                if ev.bool(local(e.guard)):
                    bad(note, f"{d}: no writer, but data is handed over")
                    return
            if left_buf != total[len(total) - len(left_buf):]:
                bad(note, f"{d}: keeps {show_seq(left_buf)}")
                return
            h = len(total) - len(left_buf)
        if loaded and N <= L:
            bad(note, f"{d}: another block is requested although the buffered one suffices")
            return
        n2 = N - h
        if n2 < 0:
            bad(note, f"{d}: hands over {h}")
            return
        if ended:
            if n2 != 0:
                bad(note, f"{d}: ends after {h}")
        else:
            na = n_after()
            if na != n2:
                bad(note, f"{d}: hands over {h}, then {na} are left to copy")
            elif h == 0 and not loaded and ev.bool(cond):
                bad(note, f"{d}: no progress")

    # what follows the loop applies to the state at its end
    post = {mk("post", m): m for m in (buf, left)}

    def local(g):
        return tm.rewrite(g, lambda x: post.get(x, x))

    tail_w = [e for e in calls_w if not inside(e)]
    tail_n = [e for e in nexts if not inside(e)]
    tail_s = [e for e in sets if not inside(e)]
    if any(e.seq < min([x.seq for x in i.events if inside(x)] or [0]) for e in tail_w + tail_n + tail_s):
        r.und("the stream is handed over without loss", w, "data is handled before the loop")
        return
    try:
        for W in (True, False):
            for N in range(0, 5):
                for L in range(0, 6):
                    for M in (1, 2, 7):
                        ev = PostEv(left, buf, N, L, M, W, post)
                        if ev.bool(cond):
                            if N == 0:
                                # nothing left: must end without doing anything
                                pass
                            ended = any(ev.bool(g) for g, _ in rets)
                            broke = [e for e in brk if ev.bool(e.guard)]
                            if broke and not ended:
                                if tail_w or tail_n or tail_s:
                                    raise Odd(cond)
                                ended = True
                            step(ev, [e for e in calls_w if inside(e)], [e for e in nexts if inside(e)], [e for e in sets if inside(e)],
                                 lambda: ev.int(mus[left][1]), ended, "in the loop")
                        else:
                            step(ev, tail_w, tail_n, tail_s, None, True, "after the loop")
                        if not ok[0]:
                            return
    except Odd as x:
        r.und("the stream is handed over without loss", w, f"not understood: {text(x.args[0])[:200]}")
        return
    r.ok("the stream is handed over without loss", w)
    # position
    pos = [e for e in i.events if e.kind == "setattr" and e.recv is slf and e.name == position_name(c)]
    p0 = mk("attr", slf, position_name(c) or "pos")
    for e in pos:
        if loop in e.loops:
            r.und("the position advances by what is copied", e.where())
        else:
            r.ob(tm.equiv(e.guard, TRUE) and len(pos) == 1 and lin(e.args[0]) == lin(mk("bin", "+", p0, cnt)), "the position advances by what is copied", e.where(), text(e.args[0]))
    if not pos:
        r.bad("the position advances by what is copied", w)


class PostEv(Ev):
    def __init__(self, n, buf, N, L, M, W, post):
        super().__init__(n, buf, N, L, M, W)
        self.post = post

    def int(self, t):
        return super().int(self.post.get(t, t))

    def seq(self, t):
        return super().seq(self.post.get(t, t))


def lin(t):
    return tm.lin(t)


def show_seq(s):
    return "".join(f"{a}{k}" for a, k in s) or "nothing"


def init_attrs(c):
    i = c.run(f"{RD}.__init__")
    slf = mk("param", "self")
    return {e.name: e.args[0] for e in i.events if e.kind == "setattr" and e.recv is slf}


def buffer_name(c):
    for k, v in init_attrs(c).items():
        if is_const(v, b"") or v.op == "call" and v.args[0] in ("bytes", "bytearray") and len(v.args) == 1:
            return k
    return None


def position_name(c):
    for k, v in init_attrs(c).items():
        if is_const(v) and isinstance(v.args[0], int):
            return k
    return None


def reader(c):
    r = c.r
    q = f"{RD}.__init__"
    a = init_attrs(c)
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    p = position_name(c)
    r.ob(p is not None and is_const(a[p], 0), "a new reader is at the start of the stream", w, str({k: text(v) for k, v in a.items()}))
    slf = mk("param", "self")
    q = f"{RD}.skip_to"
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque={f"{RD}.copy"})
    target = mk("param", f.node.args.args[1].arg)
    pos = mk("attr", slf, p or "pos")
    cs = [e for e in i.events if e.kind == "call" and e.name == f"repo:{RD}.copy"]
    if not cs:
        j = c.run(q, f"{q} (inlined)")
        r.und("skipping goes exactly to the target", w, "no copy")
        return
    for e in cs:
        r.ob(lin(e.args[2]) == lin(mk("bin", "-", target, pos)), "skipping goes exactly to the target", e.where(), text(e.args[2]))
        r.ob(is_const(e.args[1], None), "skipping writes nothing", e.where(), text(e.args[1]))
        back = cmp("<", target, pos)
        r.ob(tm.entails(e.guard, bnot(back)), "going back is refused", e.where(), text(e.guard))
        g = bnot(back)
        miss = band(g, bnot(e.guard))
        # skipping nothing may be left out
        if tm.satisfiable(miss):
            miss = assume(miss, {cmp("==", target, pos): False, cmp("<", pos, target): True})
            r.ob(not tm.satisfiable(miss), "skipping goes exactly to the target", e.where(), text(e.guard))


def extraction(c):
    r = c.r
    q = "rads.RadsProjectVersion.extract"
    f = c.prog.func(q)
    w = f"{f.module.rel}:{f.node.lineno} in {q}"
    i = c.run(q, opaque={"rads.RadsProjectVersion._get_package_files", f"{RD}.skip_to", f"{RD}.skip"})
    cps = [e for e in i.events if e.kind == "enter" and e.name == f"{RD}.copy"]
    sks = [e for e in i.events if e.kind == "call" and e.name == f"repo:{RD}.skip_to"]
    if not cps:
        r.und("each file gets exactly its bytes", w, "no copy")
        return
    opened = write_opens(i)
    for e in cps:
        rd, wr, n = (strip_epoch(a) for a in e.args[:3])
        if n.op != "attr" or n.args[1] != "size":
            f2 = n.args[0] if n.op == "attr" else None
            (r.bad if n.op == "attr" or is_const(n) or n.op == "bin" else r.und)("exactly the file's size is consumed", e.where(), text(n))
            continue
        r.ok("exactly the file's size is consumed", e.where())
        pf = n.args[0]
        # moved to the offset just before
        prev = [x for x in sks if x.seq < e.seq and x.loops == e.loops and strip_epoch(x.args[0]) is rd]
        prev = prev[-1:] if prev else []
        if not prev:
            r.bad("the stream is advanced to the file's offset", e.where(), "no move before the copy")
        for x in prev:
            a = strip_epoch(x.args[1])
            same_f = a.op == "attr" and a.args[1] == "offset" and a.args[0] is pf
            r.ob(same_f and tm.entails(e.guard, x.guard), "the stream is advanced to the file's offset", x.where(), text(a))
            other = [y for y in cps if x.seq < y.seq < e.seq and y.loops == e.loops and strip_epoch(y.args[0]) is rd and tm.satisfiable(band(y.guard, e.guard))]
            r.ob(not other, "each file is read once", e.where(), f"also at {other[0].loc}" if other else "")
        # sorted
        if not e.loops:
            r.und("files are taken by increasing offset", e.where())
        else:
            srt = [m for m in e.loops[-1].args[2:] if isinstance(m, T) and m.op == "bysort"]
            if not srt:
                mods = [m for l in e.loops for m in l.args[2:] if isinstance(m, T) and m.op == "bysort"]
                (r.und if mods else r.bad)("files are taken by increasing offset", e.where(), "not sorted by offset" if not mods else text(mods[0]))
            else:
                k, rev = srt[-1].args[0], srt[-1].args[1]
                lead = k.args[0] if k.op == "tuple" and k.args else k
                isoff = lead.op == "attr" and lead.args[1] == "offset"
                r.ob(isoff and (rev is FALSE or is_const(rev, False, None)) and not any(isinstance(m, T) and m.op == "reversed" for m in e.loops[-1].args[2:]),
                     "files are taken by increasing offset", e.where(), f"key {text(k)}, reverse {text(rev)}")
        # from its own package
        pk = mk("attr", pf, "package")
        url = [x for x in subterms(rd) if x.op == "mcall" and x.args[1] == "get"]
        if not url:
            r.und("files come from their own package", e.where(), text(rd)[:100])
        else:
            top = [x for x in pieces(url[0].args[2]) if x.op != "const"]
            ks = [x for x in subterms(url[0].args[2]) if x.op == "key" or x is pk or x.op == "index" and x.args[1].op == "const" and x.args[0].op == "elem"]
            k = [x for x in ks if any(same(x, y) for y in top)]
            eq = [a for a in tm.atoms(e.guard) if a.op == "==" and any(same(z, pk) for z in a.args)]
            good = any(x is pk for x in k) or any(tm.entails(e.guard, a) and any(any(same(z, y) for y in k) for z in a.args) for a in eq)
            if not k and not all(x.op == "attr" for x in top):
                k = ks
            if good or not k:
                (r.ok if good else r.bad)("files come from their own package", e.where(), text(url[0].args[2])[:200])
            else:
                r.und("files come from their own package", e.where(), text(url[0].args[2])[:200])
        # written
        fo = [o for o in opened if o.loops == e.loops and o.seq < e.seq]
        fo = fo[-1:] 
        if not fo:
            r.und("the data goes to the file", e.where())
            continue
        o = fo[0]
        good = tm.mentions(o.args[0], lambda x: x is mk("attr", pf, "extract_path"))
        r.ob(good, "the data goes to the file's own path", o.where(), text(o.args[0])[:200])
        ex = [a for a in tm.atoms(o.guard) if a.op == "truthy" and is_call(a.args[0], "os.path.isfile", "os.path.exists") and same(a.args[0].args[1], o.args[0])]
        src = any_absent(i, o)
        r.ob(bool(ex) and tm.entails(o.guard, bnot(ex[0])) or src, "only absent files are extracted", o.where(), text(o.guard)[-200:])
        comp = truth(mk("attr", pf, "compressed"))
        ws = [x for x in i.events if x.kind == "mcall" and x.name == "write" and strip_epoch(x.recv) is strip_epoch(o.result)]
        nxt = [y.seq for y in cps if y.seq > e.seq] or [10 ** 9]
        inn = [x for x in ws if x.loops[:len(e.loops)] == e.loops and len(x.loops) > len(e.loops) and e.seq < x.seq < nxt[0]]
        if not inn:
            r.und("the data handed over is written", e.where())
        for x in inn:
            a = strip_epoch(x.args[0])
            dec = a.op == "mcall" and a.args[1] == "decompress"
            src = a.args[2] if dec and len(a.args) > 2 else a
            if not dec and a.op not in ("slice", "mu", "post"):
                r.und("the data handed over is written", x.where(), text(a))
                continue
            r.ob(tm.entails(x.guard, comp) if dec else tm.entails(x.guard, bnot(comp)), "data is decompressed if and only if it is compressed", x.where(), text(a)[:100])
            if dec:
                fl = [y for y in ws if y.loops == e.loops and y.seq > x.seq and strip_epoch(y.args[0]).op == "mcall" and strip_epoch(y.args[0]).args[1] == "flush" and strip_epoch(y.args[0]).args[0] is a.args[0] and flushed(e.guard, comp, y.guard)]
                r.ob(bool(fl), "the decompressor's rest is written", x.where())
                z = [y for y in i.events if y.kind == "call" and y.result is not None and strip_epoch(y.result) is a.args[0]]
                if z:
                    r.ob(z[0].loops == e.loops, "each file is decompressed on its own", z[0].where())
    for k in ("copy",):
        by = {}
        for e in cps:
            by.setdefault(e.loops, []).append(e)
        for ls, es in by.items():
            g = bor(*[e.guard for e in es])
            base = [x for x in sks if x.loops == ls]
            if base:
                r.ob(tm.entails(base[0].guard, g) or entails_cases(base[0].guard, g), "every file of the package is extracted", es[0].where(), text(g)[-200:])


def flushed(base, comp, g):
    """Is g reached whenever the copy (inlined: how its loop ended left aside) is?"""
    import itertools
    ext = [a for a in tm.atoms(g) if a.op == "any" and any(l.op == "while" for l in a.args[0].args)]
    for vals in itertools.product((False, True), repeat=min(len(ext), 6)):
        if tm.entails(band(base, comp), assume(g, dict(zip(ext, vals)))):
            return True
    return False


def any_absent(i, o):
    """Is the file known to be absent, the test being in the collection iterated over?"""
    for l in o.loops:
        for x in subterms(l):
            if x.op == "entry":
                for a in tm.atoms(x.args[1]):
                    if a.op == "truthy" and is_call(a.args[0], "os.path.isfile", "os.path.exists") and tm.entails(x.args[1], bnot(a)) and tm.mentions(a, lambda z: z.op == "attr" and z.args[1] == "extract_path"):
                        return True
    return False


def check(c):
    c.part(lambda c: copying(c))
    c.part(lambda c: reader(c))
    c.part(lambda c: extraction(c))
