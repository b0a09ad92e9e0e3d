"""C13: a release is published only once it is complete."""
from vfa.q import *

RULE = """The fetch of the latest release is analysed with its helpers inlined. Obligations: the release information file is opened for writing before the pointer to the
latest release is, the file of the information is closed (its `with` block left) when the pointer is opened, everything is written to it by then, and the pointer
is not written on any path on which the information is not. The number written to the pointer is the one naming the release directory; the paths written are those that reading
the pointer and constructing a release open. The condition under which a release is recorded must be false when every compared part of the fetched information equals the
latest recorded one, and true when one differs or nothing is recorded. The recorded information has, for every element name, the key that reading the element
looks up, with the manifest URL fetched from that element's service."""

ROOT = "patcher.PatcherStorage.fetch_latest_update"
GETS = {"patcher.PatcherStorage.get_latest_client_manifest", "patcher.PatcherStorage.get_latest_game_manifest"}
BASE = {"patcher.PatcherStorage.base_release_path"}
SOURCE = {"client": "keystone.products", "game": "sieve.services"}


def tail(t, suffix):
    ps = pieces(t)
    return bool(ps) and is_const(ps[-1]) and isinstance(ps[-1].args[0], str) and ps[-1].args[0].endswith(suffix) or \
        t.op == "call" and t.args[0] == "os.path.join" and any(is_const(a, suffix.lstrip("/")) for a in t.args)


def comps(t):
    """A path as its components, whatever way it was put together; None for parts that are not plain."""
    if t.op == "call" and t.args[0] == "os.path.join":
        out = []
        for a in t.args[1:]:
            x = comps(a)
            if x is None:
                return None
            out += x
        return out
    out, cur = [], []
    for p in pieces(as_text(t)):
        if is_const(p) and isinstance(p.args[0], str):
            s = p.args[0].split("/")
            for k, x in enumerate(s):
                if k:
                    out.append(tuple(cur))
                    cur = []
                if x:
                    cur.append(const(x))
        elif p.op == "call" and p.args[0] == "os.path.join" and not cur:
            x = comps(p)
            if x is None:
                return None
            out += [tuple(y) for y in x[:-1]]
            cur = list(x[-1])
        else:
            cur.append(num(p))
    out.append(tuple(cur))
    return [x for x in out if x]


def num(t):
    """A number whose text is used: the number."""
    while t.op == "cat" and len(t.args) == 1 or t.op == "call" and t.args[0] == "str" and len(t.args) == 2:
        t = t.args[0] if t.op == "cat" else t.args[1]
    return t


def same_path(a, b):
    x, y = comps(norm(a)), comps(norm(b))
    if x is None or y is None:
        return None
    return len(x) == len(y) and all(len(p) == len(q) and all(same(u, v) for u, v in zip(p, q)) for p, q in zip(x, y))


def texts(i, f):
    """Pieces of text written to a file object."""
    out = []
    for e in i.events:
        if e.kind == "mcall" and e.name == "write" and e.recv is not None and strip_epoch(e.recv) is strip_epoch(f):
            out.append((e, e.args[0]))
        if e.kind == "call" and e.name == "print" and "file" in e.kw and strip_epoch(e.kw["file"]) is strip_epoch(f):
            out.append((e, e.args[0] if e.args else const("")))
    return out


def dumps(i, f):
    """JSON documents written to a file object: [(event, document)]."""
    out = []
    for e in i.events:
        if e.kind == "call" and e.name == "json.dump" and len(e.args) > 1 and strip_epoch(e.args[1]) is strip_epoch(f):
            out.append((e, e.args[0]))
        if e.kind == "mcall" and e.name == "write" and e.recv is not None and strip_epoch(e.recv) is strip_epoch(f):
            a = e.args[0]
            for x in subterms(a):
                if x.op == "call" and x.args[0] == "json.dumps":
                    out.append((e, x.args[1]))
    return out


def opens(i, suffix, write=True):
    out = []
    for e in i.events:
        if e.kind == "call" and e.name in ("open", "io.open") and is_write_open(e) == write and e.args and any(tail(l, suffix) for _, l in tm.cases(e.args[0])):
            out.append(e)
    return out


def closed_at(i, f):
    for e in i.events:
        if e.kind == "withexit" and e.recv is not None and strip_epoch(e.recv) is strip_epoch(f):
            return e.seq
        if e.kind == "mcall" and e.name == "close" and e.recv is not None and strip_epoch(e.recv) is strip_epoch(f):
            return e.seq
    return None


def run(c, name):
    i = c.run(ROOT, name, opaque=GETS | BASE)
    return i


def published(c):
    r = c.r
    i = run(c, ROOT)
    f = c.prog.func(ROOT)
    w = f"{f.module.rel}:{f.node.lineno} in {ROOT}"
    info, ptr = opens(i, "/release.json"), opens(i, "/latest.timestamp")
    if len(info) != 1 or len(ptr) != 1:
        # replaced at the end by os.replace/rename?
        r.und("the release is written once, then the pointer", w, f"{len(info)} information files, {len(ptr)} pointers")
        return
    info, ptr = info[0], ptr[0]
    end = closed_at(i, info.result)
    if end is None:
        r.bad("the information is complete when the pointer is written", info.where(), "never closed")
    else:
        r.ob(info.seq < ptr.seq and end < ptr.seq, "the information is complete when the pointer is written", ptr.where(), "" if info.seq < ptr.seq else "the pointer is written first")
    ds = dumps(i, info.result)
    r.ob(bool(ds), "the information is written", info.where())
    for e, d in ds:
        r.ob(tm.entails(ptr.guard, e.guard) or entails_cases(ptr.guard, e.guard), "the pointer is written only with the information", ptr.where(), text(e.guard)[-200:])
    # a handler around the writing of the information that lets the fetch go on to the pointer, or a finally clause
    for tid, part in info.zones:
        if part == "body" and in_zone(ptr, tid, "finally"):
            r.bad("a failure to write the information prevents publishing it", ptr.where(), "the pointer is written in the finally clause")
            break
        if part == "body" and not in_zone(ptr, tid):
            t = i.tries[tid]
            hs = [z for e in i.events for z in e.zones if z[0] == tid and z[1].startswith("handler")]
            if hs and not reraises(i, tid):
                r.bad("a failure to write the information prevents publishing it", info.where(), "exception handled before the pointer is written")
                break
    else:
        r.ok("a failure to write the information prevents publishing it", info.where())
    # same timestamp
    tx = texts(i, ptr.result)
    ci = comps(strip_epoch(info.args[0]))
    if not tx or ci is None or len(ci) < 2 or len(ci[-2]) != 1:
        r.und("the pointer holds the release's number", ptr.where(), text(info.args[0])[-100:])
    else:
        ts = ci[-2][0]
        for e, v in tx:
            vs = [num(x) for x in pieces(as_text(strip_epoch(v))) if not (is_const(x) and not str(x.args[0]).strip())]
            r.ob(len(vs) == 1 and (vs[0] is ts or tm.lin_eq(vs[0], ts)), "the pointer holds the release's number", e.where(), f"{text(v)} / {text(ts)}")
    readback(c, i, info, ptr)
    condition(c, i, info, ds)
    content(c, i, info, ds)


def reraises(i, tid):
    """Does every handler of the try statement end by raising?"""
    names = {z[1] for e in i.events for z in e.zones if z[0] == tid and z[1].startswith("handler")}
    for n in names:
        rs = [e for e in i.events if e.kind == "raise" and (tid, n) in [tuple(z[:2]) for z in e.zones] and tm.equiv(band(e.guard), e.guard)]
        if not rs:
            return False
    return True


def readback(c, i, info, ptr):
    r = c.r
    lt = [e for e in opens(i, "/latest.timestamp", False)]
    if not lt:
        j = c.run("patcher.PatcherStorage.latest_timestamp", opaque=BASE)
        lt = opens(j, "/latest.timestamp", False)
    if not lt:
        r.und("the pointer is read where it is written", ptr.where())
    for e in lt:
        s = same_path(e.args[0], ptr.args[0])
        (r.und if s is None else r.ok if s else r.bad)("the pointer is read where it is written", e.where(), f"{text(e.args[0])} / {text(ptr.args[0])}")
    q = "patcher.PatcherRelease.__init__"
    j = c.run(q, opaque=BASE)
    rd = opens(j, "/release.json", False)
    ci = comps(norm(info.args[0]))
    ps = [a.arg for a in c.prog.func(q).node.args.args]
    slf = mk("param", "self")
    for e in rd:
        t = tm.rewrite(e.args[0], lambda x: x)
        cr = comps(norm(e.args[0]))
        if cr is None or ci is None or len(cr) != len(ci):
            r.ob(cr is None or ci is None, "the information is read where it is written", e.where(), text(e.args[0])) if cr is not None and ci is not None else r.und("the information is read where it is written", e.where())
            continue
        ok = True
        for x, y in zip(cr, ci):
            x = tuple(tm.rewrite(u, lambda z: mk("param", "self") if z is mk("param", ps[1]) else z) for u in x)
            if len(x) == 1 and x[0] is mk("param", ps[2]):
                ok = ok and len(y) == 1 and y is ci[-2]
            else:
                ok = ok and len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
        r.ob(ok, "the information is read where it is written", e.where(), f"{text(e.args[0])} / {text(info.args[0])}")
    if not rd:
        r.und("the information is read where it is written", q)
    # the data of a release is what the file holds
    data = [e for e in j.events if e.kind == "setattr" and e.recv is slf and e.name == "data"]
    for e in data:
        v = norm(e.args[0])
        ok = is_call(v, "json.load") and any(norm(v.args[1]) is norm(o.result) or same(v.args[1], o.result) for o in rd) or \
            is_call(v, "json.loads") and tm.mentions(v, lambda x: any(x is norm(o.result) for o in rd))
        (r.ok if ok else r.und)("a release's data is what was recorded", e.where(), text(v))
    if not data:
        r.und("a release's data is what was recorded", q)


def eqs(g):
    return [a for a in tm.atoms(g) + ite_atoms(g) if a.op == "=="]


def condition(c, i, info, ds):
    r = c.r
    g = info.guard
    if not ds:
        return
    doc = ds[0][1]
    urls = [x for x in subterms(doc) if repo_call(x, *GETS)]
    rel = []
    for a in dict.fromkeys(tm.atoms(g) + ite_atoms(g)):
        if a.op == "==" and tm.mentions(a, lambda x: any(x is u for u in urls)):
            rel.append(a)
    exists = [a for a in dict.fromkeys(tm.atoms(g) + ite_atoms(g)) if a not in rel]
    w = info.where()
    if not rel:
        r.ob(False, "a release is recorded exactly when its information is new", w, text(g)[:200]) if not tm.mentions(g, lambda x: any(x is u for u in urls)) else r.und("a release is recorded exactly when its information is new", w, text(g)[:200])
        return
    for a in rel:
        if not tm.mentions(a, lambda x: x.op == "call" and x.args[0] in ("json.load", "json.loads") or x.op == "call" and str(x.args[0]).startswith("repo:") or x.op == "attr" and x.args[1] == "data"):
            r.und("a release is recorded exactly when its information is new", w, text(a)[:200])
            return
    # every url takes part in the comparison
    for u in dict.fromkeys(urls):
        r.ob(any(tm.mentions(a, lambda x: x is u) for a in rel), "every manifest URL is compared", w, text(u))
    # what the comparisons compare with: the latest release, i.e. one named by the pointer
    for a in rel:
        r.ob(tm.mentions(a, lambda x: is_const(x) and isinstance(x.args[0], str) and "latest.timestamp" in x.args[0]), "the comparison is with the latest recorded release", w, text(a)[:300])
    if len(exists) > 8:
        r.und("a release is recorded exactly when its information is new", w, f"{len(exists)} conditions")
        return
    # conditions other than the comparison: whether something is recorded
    oth = exists
    allsame, some = True, False
    for n in range(1 << len(oth)):
        m = {a: bool(n >> k & 1) for k, a in enumerate(oth)}
        h = assume(g, m)
        now = [a for a in dict.fromkeys(tm.atoms(h)) if a.op == "==" and tm.mentions(a, lambda x: any(x is u for u in urls))]
        same_v = assume(h, {a: True for a in now})
        diff_v = [assume(h, {b: b is not a for b in now}) for a in now]
        if not now and h is FALSE:
            (r.bad if all(is_absent(a, v) for a, v in m.items()) else r.und)("a release is recorded exactly when its information is new", w, "never recorded when " + text(band(*[a if v else bnot(a) for a, v in m.items()]))[:200])
            return
        if same_v is FALSE:
            some = True
            if not all(d is TRUE for d in diff_v):
                r.bad("a release is recorded exactly when its information is new", w, f"not recorded although {text(rel[0])[:160]} is false")
                return
        else:
            # nothing recorded yet: must be recorded whatever the comparison
            if same_v is TRUE and all(d is TRUE for d in diff_v):
                if not any(is_absent(a, v) for a, v in m.items()):
                    r.bad("a release is recorded exactly when its information is new", w, "recorded although the information is the same")
                    return
            elif same_v is TRUE:
                r.bad("a release is recorded exactly when its information is new", w, "recorded when the information is the same")
                return
            elif all(d is FALSE for d in diff_v):
                r.bad("a release is recorded exactly when its information is new", w, "not recorded")
                return
            else:
                r.und("a release is recorded exactly when its information is new", w, text(same_v)[:200])
                return
    r.ob(some, "a release is recorded exactly when its information is new", w, "recorded whatever the comparison")


def is_absent(a, v):
    """Is the atom, with this value, what holds when nothing is recorded?"""
    if a.op == "truthy" and a.args[0].op == "call" and a.args[0].args[0] in ("os.path.exists", "os.path.isfile", "os.path.lexists") or a.op == "call" and a.args[0] in ("os.path.exists", "os.path.isfile"):
        return not v
    if a.op == "is" and a.args[1] is NONE:
        return v
    if a.op in ("truthy",):
        return not v
    if a.op == "exc":
        return v
    return False


def content(c, i, info, ds):
    r = c.r
    k = [x for x in c.prog.classes.values() if x.name == "PatchElement"] if hasattr(c.prog, "classes") else []
    names = None
    j = c.run("patcher.PatcherRelease.available_elements", opaque=set())
    s = mk("param", "self")
    q = "patcher.PatcherReleaseElement.__init__"
    e0 = c.run(q)
    key = None
    for e in e0.events:
        if e.kind == "setattr" and e.recv is s and e.name == "manif_url":
            v = e.args[0]
            if v.op == "mcall" and v.args[1] == "get":
                key = v.args[2]
            elif v.op == "index":
                key = v.args[1]
            kw = e.where()
    if key is None:
        r.und("the recorded keys are those read back", q)
        return
    doc = norm(ds[0][1]) if ds else None
    if doc is None:
        return
    pairs = {}
    if doc.op == "dict":
        for p in doc.args:
            if p.op == "pair" and is_const(p.args[0]):
                pairs[p.args[0].args[0]] = p.args[1]
    else:
        for e in tm.entries_of(doc) or []:
            if is_const(e.args[3] if e.args[3] is not None else NONE) and e.args[3] is not None:
                pairs[e.args[3].args[0]] = e.args[2]
    if not pairs:
        r.und("the recorded keys are those read back", info.where(), text(doc)[:200])
        return
    inl = c.run(ROOT, f"{ROOT} (inlined)", opaque=BASE)
    pi = {}
    for e in opens(inl, "/release.json"):
        for _, d in dumps(inl, e.result):
            d = norm(d)
            pi = {p.args[0].args[0]: p.args[1] for p in d.args if p.op == "pair"} if d.op == "dict" else {}
            if not pi:
                pi = {x.args[3].args[0]: x.args[2] for x in tm.entries_of(d) or [] if x.args[3] is not None and is_const(x.args[3])}
    for n in SOURCE:
        k = as_text(tm.rewrite(key, lambda x: const(n) if x is mk("param", "name") else x))
        if not is_const(k):
            r.und("the recorded keys are those read back", kw, text(k))
            continue
        k = k.args[0]
        r.ob(k in pairs, "the recorded keys are those read back", info.where(), f"{n}: {k!r} not in {sorted(pairs)}")
        if k in pi:
            src = {m for m, s in SOURCE.items() if tm.mentions(pi[k], lambda x: is_const(x) and isinstance(x.args[0], str) and s in x.args[0])}
            if not src:
                r.und("each URL is recorded for its own element", info.where(), text(pi[k])[:200])
            else:
                r.ob(src == {n}, "each URL is recorded for its own element", info.where(), f"{k}: from {sorted(src)}")


def check(c):
    c.part(lambda c: published(c))
