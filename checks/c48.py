"""C48: TFT and Arena texts are translated with the string tables of the patch."""
import copy
import fnmatch
import re
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Sim, Obj

RULE = """The dictionary that stringtable_paths gives is evaluated for sample directories of every layout (and of several at once), with the listing as the only primitive: it must hold every language of the newest layout present, each with its own file, and end with an error if there is none.
The value of load_translations is evaluated for sample files: the content of a file starting with the magic code is given to RstFile from its first byte, any other is read line by line. The effects of export are evaluated on sample templates and string tables, in order: what is written for each language
must be the template with each translatable text replaced, and every other text kept."""

FOUND, READ, DONE = "string tables of the newest layout are found, in every language", "the texts of a string table are read", "every text with a translation is translated"


def check(c):
    c.part(found)
    c.part(read)
    c.part(done)


# ---------------------------------------------------------------- where string tables are

NEWEST = ["en_us/data/menu/en_us/lol.stringtable", "en_us/data/menu/en_us/tft.stringtable", "zh_cn/data/menu/en_us/lol.stringtable", "zh_cn/data/menu/en_us/tft.stringtable", "pt_br/data/menu/en_us/tft.stringtable"]
MAIN = ["en_us/data/menu/en_us/main.stringtable", "fr_fr/data/menu/en_us/main.stringtable"]
FLAT = ["data/menu/main_en_us.stringtable", "data/menu/main_ko_kr.stringtable"]
FONT = ["data/menu/fontconfig_en_us.txt", "data/menu/fontconfig_de_de.txt"]
NOISE = ["data/menu/other.txt", "en_us/data/menu/en_us/other.stringtable", "global/data/menu/en_us/tft.stringtable", "data/menu/main.stringtable", "data/menu/fontconfig.txt", "data/menu/fontconfig_english.txt", "en_us/data/menu/fontconfig_en_us.txt"]
TREES = [("nothing", []), ("names only", NEWEST), ("main", MAIN), ("flat", FLAT), ("fontconfig", FONT), ("all", FONT + FLAT + MAIN + NEWEST), ("flat and fontconfig", FONT + FLAT), ("main, flat and fontconfig", FONT + FLAT + MAIN)]


def languages(files, game):
    for rx in (rf"^(.._..)/data/menu/en_us/{game}\.stringtable$", r"^(.._..)/data/menu/en_us/main\.stringtable$", r"^data/menu/main_(.._..)\.stringtable$", r"^data/menu/fontconfig_(.._..)\.txt$"):
        out = {m.group(1): p for p in files for m in [re.match(rx, p)] if m}
        if out:
            return out
    return None


def matches(pattern, path):
    """As glob.glob does: component by component."""
    a, b = pattern.split("/"), path.split("/")
    return len(a) == len(b) and all(fnmatch.fnmatchcase(y, x) and not (y.startswith(".") and not x.startswith(".")) for x, y in zip(a, b))


def found(c):
    f = c.prog.func("tools.stringtable_paths")
    i = c.run(f)
    w = f.loc
    if len(f.node.args.args) < 2:
        c.r.und(FOUND, w, "takes other parameters")
        return
    base, game = (a.arg for a in f.node.args.args[:2])
    for sep, root in (("/", "work/out"), ("\\", "work/out"), ("/", "work/[pbe] out*")):
        for what, files in TREES:
            for g in ("tft", "lol"):
                paths = [(f"{root}/{p}").replace("/", sep) for p in [*NOISE, *files, *NOISE[:1]]]

                def world(sim, x, nothing, g=g, paths=paths, root=root):
                    op, a = x.op, x.args
                    if op == "param":
                        return {base: root, game: g}.get(a[0], nothing)
                    if op == "call" and a[0] in ("glob.glob", "glob.iglob"):
                        args = [sim.value(y) for y in a[1:] if y.op not in ("uid", "kw")]
                        kw = {y.args[0]: sim.value(y.args[1]) for y in a[1:] if y.op == "kw"}
                        if set(kw) - {"root_dir"}:
                            raise Unknown
                        r = str(kw.get("root_dir", ""))
                        full = (r + "/" if r else "") + args[0].replace("\\", "/")
                        out = [p for p in dict.fromkeys(paths) if matches(full, p.replace("\\", "/"))]
                        return tuple(p[len(r) + 1:] if r else p for p in out)
                    if op == "call" and a[0] == "glob.escape":
                        return "".join("[" + ch + "]" if ch in "*?[" else ch for ch in sim.value(a[1]))
                    if op == "call" and a[0] in ("os.path.relpath",):
                        p, b = (sim.value(y) for y in a[1:3])
                        if p.startswith(b):
                            return p[len(b) + 1:]
                    return nothing
                want = languages(files, g)
                want = None if want is None else {k: f"{root}/{p}" for k, p in want.items()}
                where = f"{w} ({what}, {g}{', Windows' if sep != '/' else ', special characters in the directory' if '[' in root else ''})"
                try:
                    sim = Sim(i, world)
                    rets = [(gd, v) for gd, v, *_ in i.root_returns if sim.true(gd)]
                    if not rets:
                        got = None
                    else:
                        got = sim.value(i.snap(rets[0][1]))
                        got = {} if got == () else got
                        if not isinstance(got, dict):
                            raise Unknown
                        got = {k: str(v).replace("\\", "/") for k, v in got.items()}
                except Unknown:
                    c.r.und(FOUND, where, "not understood")
                    continue
                except Fails:
                    got = "an error"
                except re.error:
                    got = "an invalid expression"
                if want is None:
                    c.r.ob(got is None or got == "an error", FOUND, where, "no string table: an error" if got is None or got == "an error" else f"no error when there is no string table: {got}")
                else:
                    c.r.ob(got == want, FOUND, where, f"{len(want)} language(s)" if got == want else "an error" if got is None else f"gives {str(got)[:120]}, not {str(want)[:120]}")


# ---------------------------------------------------------------- what string tables hold

LINES = [
    ("plain", [("a", "Ahri"), ("tft_b_name", "Böb"), ("e", "")], b"[FontConfig]\n", b"\n", b""),
    ("values with signs", [("k", "a = b"), ("k2", "say \"hi\" <b>%i:1%</b>"), ("k3", "x=\"1\"")], b"# comment\n", b"\n", b"[End]\n"),
    ("other line ends", [("a", "Ahri"), ("b", "Bard")], b"[FontConfig]\r\n", b"\r\n", b"\r\n"),
    ("no line end at the end", [("a", "Ahri"), ("b", "Bard")], b"[FontConfig]\n", b"\n", None),
    ("from the first line", [("a", "Ahri"), ("b", "Bard")], b"", b"\n", b""),
    ("nothing", [], b"[FontConfig]\n", b"\n", b""),
]


def table(texts, head, end, tail):
    lines = end.join(f'tr "{k}" = "{v}"'.encode("utf-8") for k, v in texts)
    return head + lines + (b"" if tail is None else end + tail)


class File:
    """A sample file, read by the events on its handle in order."""

    def __init__(self, i, sim, handle, data):
        self.i, self.sim, self.handle, self.data, self.pos, self.results, self.built = i, sim, handle, data, 0, {}, False
        self.lines = None

    def read_all(self):
        if self.built:
            return
        self.built = True
        for e in sorted(self.i.events, key=lambda e: e.seq):
            if e.kind != "mcall" or e.recv is None or strip_epoch(e.recv) is not strip_epoch(self.handle) or e.name not in ("read", "seek", "readline", "readlines", "peek"):
                continue
            if e.loops:
                raise Unknown
            if not self.sim.true(e.guard):
                continue
            args = [self.sim.value(a) for a in e.args]
            if e.name == "seek":
                if len(args) > 1 and args[1] not in (0, None):
                    raise Unknown
                self.pos = args[0]
                continue
            n = args[0] if args and args[0] is not None and args[0] >= 0 else len(self.data)
            if e.name == "readline":
                k = self.data.find(b"\n", self.pos)
                r = self.data[self.pos:k + 1] if k >= 0 else self.data[self.pos:]
            elif e.name == "readlines":
                r = tuple(self.data[self.pos:].splitlines(True))
                n = len(self.data)
            else:
                r = self.data[self.pos:self.pos + n]
            self.results[e.result] = r
            if e.name != "peek":
                self.pos += len(r) if e.name != "readlines" else n

    def value(self, x):
        self.read_all()
        for k, v in self.results.items():
            if k is x or strip_epoch(k) is strip_epoch(x):
                return v
        raise Unknown


def read(c):
    f = c.prog.func("tftdata.load_translations")
    i = c.run(f, opaque=["rstfile.RstFile.__init__"])
    names = [a.arg for a in f.node.args.args]
    handles = list(dict.fromkeys(strip_epoch(e.result) for e in i.events if e.kind == "call" and e.name == "open" and e.result is not None))
    w = f.loc
    if not names or not handles:
        c.r.und(READ, w, "opens no file")
        return
    samples = [(what, dict(texts), table(texts, head, end, tail)) for what, texts, head, end, tail in LINES] + [("RST", None, b"RST\x05\x00\x00\x00\x00more\ntr \"a\" = \"b\"\n"), ("shorter than the magic code", {}, b"RS")]
    for what, want, data in samples:
        files = {}

        def world(sim, x, nothing, data=data, files=files):
            op, a = x.op, x.args
            if op == "param":
                return "table" if a[0] == names[0] else 1502
            if strip_epoch(x) in handles:
                raise Unknown
            if op == "call" and str(a[0]).endswith("io.BytesIO"):
                return Obj("BytesIO", {"BytesIO"}, data=sim.value(a[1]))
            if op == "mcall" and strip_epoch(a[0]) in handles:
                return files[strip_epoch(a[0])].value(x)
            if op == "mcall" and a[1] in ("splitlines", "readlines"):
                b = sim.value(a[0])
                if isinstance(b, (str, bytes)) and a[1] == "splitlines":
                    return tuple(b.splitlines(*[sim.value(y) for y in a[2:] if y.op not in ("uid", "kw")]))
            if op == "obj" and str(a[0]).rsplit(".", 1)[-1] == "RstFile":
                args = [y for y in a[2:] if y.op not in ("uid", "kw")] + [y.args[1] for y in a[2:] if y.op == "kw" and y.args[0] == "path_or_f"]
                y = args[0]
                if strip_epoch(y) in handles:
                    h = files[strip_epoch(y)]
                    h.read_all()
                    return ("rst", h.data[h.pos:])
                v = sim.value(y)
                return ("rst", data if v == "table" else v.attrs["data"] if isinstance(v, Obj) and "data" in v.attrs else v)
            return nothing
        sim = Sim(i, world)
        for h in handles:
            files[h] = File(i, sim, h, data)
        plain = sim.elements

        def elements(coll, plain=plain, files=files):
            if strip_epoch(coll) in files:
                h = files[strip_epoch(coll)]
                h.read_all()
                return [(l, None) for l in h.data[h.pos:].splitlines(True)]
            return plain(coll)
        sim.elements = elements
        where = f"{w} ({what})"
        try:
            got = sim.value(i.result)
        except Unknown:
            c.r.und(READ, where, "not understood")
            continue
        except (Fails, ValueError, IndexError) as e:
            c.r.bad(READ, where, "ends with an error")
            continue
        if want is None:
            c.r.ob(got == ("rst", data), READ, where, "read by RstFile from its start" if got == ("rst", data) else f"gives {str(got)[:80]}")
        else:
            got = {} if got == () else got
            c.r.ob(got == want, READ, where, f"{len(want)} texts" if got == want else f"gives {str(got)[:100]}, not {str(want)[:100]}")


# ---------------------------------------------------------------- translation

def champion(n, **kw):
    return {"apiName": n, "characterName": n, "name": f"{n}_name", "cost": 1, "icon": None, "traits": ["t1_name", "t_other"], "stats": {"hp": 1}, "ability": {"name": f"{n}_aname", "desc": f"{n}_adesc", "icon": None, "variables": [{"name": "t1_name", "value": [1]}]}, **kw}


def tft_template():
    t1 = {"apiName": "t1", "name": "t1_name", "desc": "t1_desc", "icon": None, "effects": [{"minUnits": 1, "variables": {"t1_name": 1}}]}
    t2 = {"apiName": "t2", "name": "t2_name", "desc": None, "icon": None, "effects": []}
    a, b, d = champion("a"), champion("b", ability={"name": None, "desc": "b_adesc", "icon": None, "variables": []}), champion("d", traits=[])
    return {
        "sets": {1: {"name": "Set 1", "traits": [t1, t2], "champions": [a, b]}, 2: {"name": "t1_name", "traits": [], "champions": [d]}},
        "setData": [{"number": 1, "mutator": "t1_name", "name": "Set 1", "traits": [t1, t2], "champions": [a, b], "augments": ["i1_name"], "items": ["t1_name"]}, {"number": 2, "mutator": None, "name": "t1_name", "traits": [], "champions": [d], "augments": [], "items": []},
                    {"number": 2, "mutator": "x", "name": "Other 2", "traits": [dict(t2, name="t3_name", desc="t1_desc")], "champions": [champion("e")], "augments": [], "items": []}],
        "items": [{"id": 1, "apiName": "i1_name", "name": "i1_name", "desc": "i1_desc", "composition": ["t1_name"]}, {"id": 2, "apiName": "i2", "name": None, "desc": "i1_name", "composition": []}, {"id": 3, "apiName": "i3", "name": "unknown", "desc": None, "composition": []}],
    }


def arena_template():
    return {"augments": [{"id": 1, "apiName": "a_name", "name": "a_name", "desc": "a_desc", "tooltip": "a_tip", "rarity": 0, "dataValues": {"a_name": 1}, "calculations": {}}, {"id": 2, "apiName": "b", "name": None, "desc": "unknown", "tooltip": "a_name", "rarity": 0, "dataValues": {}, "calculations": {}}]}


KEYS = ["t1_name", "t1_desc", "t2_name", "t3_name", "a_name", "b_name", "d_name", "e_name", "a_aname", "a_adesc", "b_adesc", "e_aname", "i1_name", "i1_desc", "a_desc", "a_tip"]
TABLES = {"en_us": {k: f"EN {k.upper()}" for k in KEYS}, "fr_fr": {k: f"FR {k.upper()}" for k in KEYS if k not in ("t1_desc", "e_aname")} | {"a_tip": ""}, "xx_xx": {}}


def translated(game, tmpl, tr):
    t = copy.deepcopy(tmpl)
    done = set()

    def texts(d, keys):
        if id(d) in done:
            return
        done.add(id(d))
        for k in keys:
            if d.get(k) in tr:
                d[k] = tr[d[k]]
    if game == "lol":
        for x in t["augments"]:
            texts(x, ("name", "desc", "tooltip"))
        return t
    for s in (*t["sets"].values(), *t["setData"]):
        for x in s["traits"]:
            texts(x, ("name", "desc"))
        for x in s["champions"]:
            texts(x, ("name", "desc"))
            texts(x["ability"], ("name", "desc"))
            if id(x["traits"]) not in done:
                done.add(id(x["traits"]))
                x["traits"][:] = [tr.get(v, v) for v in x["traits"]]
    for x in t["items"]:
        texts(x, ("name", "desc"))
    return t


def done(c):
    for q, game, make in (("tftdata.TftTransformer", "tft", tft_template), ("arenadata.ArenaTransformer", "lol", arena_template)):
        try:
            k = c.prog.cls(q)
        except AnalysisBroken:
            c.r.und(DONE, q, "not found")
            continue
        f = k.method("export")
        if f is None:
            c.r.und(DONE, k.loc, "no export")
            continue
        i = c.run(f, self_type=k, opaque=[x for x in (q + ".build_template", "tftdata.load_translations", "rstfile.RstFile.__init__", "rstfile.RstFile.get", "rstfile.RstFile.__contains__", "rstfile.RstFile.__getitem__", "tools.stringtable_paths", "tools.json_dump", "tools.json_dumps") if c.prog.func(x) is not None])
        for langs in (None, ["fr_fr"], ["en_us", "xx_xx", "fr_fr"], []):
            where = f"{f.loc} ({'every language' if langs is None else ', '.join(langs) or 'no language'})"
            try:
                got = Export(i, make, game, langs).run()
            except Unknown:
                c.r.und(DONE, where, "not understood")
                continue
            except (Fails, TypeError, KeyError, IndexError, AttributeError):
                c.r.bad(DONE, where, "ends with an error")
                continue
            want = [translated(game, make(), TABLES[l]) for l in (langs if langs is not None else TABLES)]
            bad = None
            if len(got) != len(want):
                bad = f"{len(got)} documents for {len(want)} languages"
            for l, a, b in zip(langs if langs is not None else TABLES, got, want):
                bad = bad or difference(a, b, l)
            c.r.ob(bad is None, DONE, where, bad or f"{len(want)} documents")


def difference(a, b, at):
    if type(a) is not type(b):
        return f"{at} is {str(a)[:60]!r}, not {str(b)[:60]!r}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{at} has other keys: {sorted(map(str, set(a) ^ set(b)))[:4]}"
        return next((d for k in b for d in [difference(a[k], b[k], f"{at}.{k}")] if d), None)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{at} has {len(a)} elements, not {len(b)}"
        return next((d for n in range(len(b)) for d in [difference(a[n], b[n], f"{at}[{n}]")] if d), None)
    return None if a == b else f"{at} is {str(a)[:60]!r}, not {str(b)[:60]!r}"


class Export:
    def __init__(self, i, make, game, langs):
        self.i, self.template, self.game, self.langs = i, make(), game, langs
        self.sim = Sim(i, self.world)
        self.copies, self.out = {}, []
        self.me = Obj("transformer", {"TftTransformer", "ArenaTransformer"}, input_dir="in", game_version=1502)

    def turn(self):
        return tuple((n, idx) for coll, n, v, k, idx in self.sim.env)

    def table(self, y):
        p = self.sim.value(y)
        if not isinstance(p, str) or not p.startswith("tables/"):
            raise Unknown
        return TABLES[p[7:]]

    def world(self, sim, x, nothing):
        op, a = x.op, x.args
        if op == "param":
            return self.me if a[0] == "self" else self.langs if a[0] == "langs" else "out" if a[0] == "output" else nothing
        if op == "call" and isinstance(a[0], str):
            n = a[0]
            args = [y for y in a[1:] if y.op not in ("uid", "kw", "stamp", "epoch")]
            if n.startswith("repo:") and n.endswith(".build_template"):
                return self.template
            if n.startswith("repo:") and n.endswith(".stringtable_paths"):
                if sim.value(args[1]) != self.game:
                    raise Fails
                return {l: f"tables/{l}" for l in TABLES}
            if n.startswith("repo:") and n.endswith(".load_translations"):
                return self.table(args[0])
            if n in ("copy.deepcopy", "copy.copy", "dict"):
                # the copy made in this turn of the loops around it
                key = (x, self.sim.env[0][4] if self.sim.env else None)
                if key not in self.copies:
                    v = sim.value(args[0])
                    self.copies[key] = copy.deepcopy(v) if n == "copy.deepcopy" else copy.copy(v)
                return self.copies[key]
            if n.startswith("repo:") and n.rsplit(".", 1)[1] in ("get", "__getitem__", "__contains__"):
                return self.lookup(n.rsplit(".", 1)[1], [sim.value(y) for y in args])
        if op == "obj" and str(a[0]).rsplit(".", 1)[-1] == "RstFile":
            return self.table([y for y in a[2:] if y.op not in ("uid", "kw")][0])
        if op == "mcall" and a[1] in ("get", "items", "values", "keys"):
            o = sim.value(a[0])
            if isinstance(o, dict):
                return self.lookup("get", [o] + [sim.value(y) for y in a[2:] if y.op not in ("uid", "kw")]) if a[1] == "get" else tuple(getattr(o, a[1])())
            raise Fails
        if op == "index":
            o = sim.value(a[0])
            if isinstance(o, (dict, list, tuple)):
                try:
                    return o[sim.value(a[1])]
                except (KeyError, IndexError):
                    raise Fails
        if op == "in":
            o, v = sim.value(a[1]), sim.value(a[0])
            if isinstance(o, (dict, list, tuple, str)):
                return v in o
        if op == "slice":
            o = sim.value(a[0])
            if isinstance(o, list):
                return o[slice(*[sim.value(y) for y in a[1:]])]
        if op == "truthy":
            return bool(sim.value(a[0]))
        return nothing

    def lookup(self, n, args):
        o = args[0]
        if not isinstance(o, dict):
            raise Unknown
        if n == "get":
            return o.get(*args[1:])
        if n == "__contains__":
            return args[1] in o
        if args[1] not in o:
            raise Fails
        return o[args[1]]

    def on(self, e):
        if e.kind == "setitem":
            o = self.sim.value(e.recv)
            v = self.sim.value(e.args[1])
            if e.args[0].op == "slicekey":
                if not isinstance(o, list) or any(isinstance(y, T) and not is_const(y, None) for y in e.args[0].args):
                    raise Unknown
                o[:] = list(v)
            elif isinstance(o, (dict, list)):
                o[self.sim.value(e.args[0])] = v
            else:
                raise Unknown
        elif e.kind == "mcall":
            o = self.sim.value(e.recv)
            if not isinstance(o, (dict, list)):
                raise Unknown
            getattr(o, e.name)(*[self.sim.value(y) for y in e.args])
        elif e.kind == "call":
            self.out.append(copy.deepcopy(self.sim.value(e.args[0])))

    def run(self):
        dumps = ("repo:tools.json_dump", "repo:tools.json_dumps", "json.dump", "json.dumps", "ujson.dump", "ujson.dumps", "json_dump", "json_dumps")
        evs = [e for e in self.i.events if e.kind in ("break", "setitem") or e.kind == "call" and e.name in dumps or e.kind == "mcall" and e.name in ("update", "append", "extend", "pop", "clear", "setdefault", "insert", "remove") and e.recv is not None and (e.recv.op in ("elem", "val", "index", "call"))]
        evs = [e for e in evs if e.kind != "setitem" or e.recv is not None and e.recv.op not in ("build", "dict", "list")]
        self.sim.run(evs, on=self.on)
        return self.out
