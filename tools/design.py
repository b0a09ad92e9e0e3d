"""Generate DESIGN.md from the properties, the rules of the checks, the planted bugs and design.head.md / design.tail.md."""
import glob, importlib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
man = json.load(open(f"{ROOT}/MANIFEST.json"))
na = {d["property"]: d["reason"] for d in man["not_applicable"]}
claimed = {d["property"] for d in man["checks"]}
out = [open(f"{ROOT}/tools/design.head.md").read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    out += [f"### {i}. {p['title']}", "", p["statement"], ""]
    if i in claimed:
        m = importlib.import_module(f"checks.{i.lower()}")
        st = f"{ROOT}/selftest/{i.lower()}.py"
        n = ""
        if os.path.exists(st):
            ns = {}
            exec(open(st).read(), ns)
            cs = ns["CASES"]
            n = f" Self-test: {sum(c[0] == 'bad' for c in cs)} breaking edits reported, {sum(c[0] == 'ok' for c in cs)} behaviour-preserving edits quiet."
        out += ["*Decided by static analysis:* " + " ".join(m.RULE.split()) + n, ""]
    else:
        out += ["*Not applicable / not claimed:* " + na[i], ""]
out += [open(f"{ROOT}/tools/design.tail.md").read().rstrip(), "", "## Planted bugs and what catches them", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(f"{ROOT}/tools/planted.json")) if os.path.exists(f"{ROOT}/tools/planted.json") else {}
for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(d))
    b = d.split("/")[-2]
    out.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, '?')} |")
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
