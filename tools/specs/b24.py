ID = 'arena-shallow-copy'
PROP = 'C48'
EDITS = [('cdtb/arenadata.py', 'instance = copy.deepcopy(template)', 'instance = copy.copy(template)')]
NEEDS = 'at least two languages'
BREAKS = 'the Arena data of every language but the first hold the texts of the first'
DEMO = '''
import json, sys, tempfile
from cdtb import arenadata

arenadata.stringtable_paths = lambda *a, **kw: {"en_us": "en", "fr_fr": "fr"}
arenadata.RstFile = lambda path, *a, **kw: {"k1": f"name {path}", "k2": f"desc {path}"}
arenadata.ArenaTransformer.build_template = lambda self: {"augments": [{"id": 1, "name": "k1", "desc": "k2", "tooltip": "k3"}]}
with tempfile.TemporaryDirectory() as d:
    arenadata.ArenaTransformer("in").export(d)
    for lang in ("en", "fr"):
        with open(f"{d}/{dict(en='en_us', fr='fr_fr')[lang]}.json", encoding="utf-8") as f:
            a = json.load(f)["augments"][0]
        if (a["name"], a["desc"], a["tooltip"]) != (f"name {lang}", f"desc {lang}", "k3"):
            sys.exit(f"{lang}: {a}")
'''
