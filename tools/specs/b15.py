ID = 'wad-same-name'
PROP = 'C36'
EDITS = [('cdtb/export.py', '            if self_wad.path == other_wad.path:', '            if os.path.basename(self_wad.path) == os.path.basename(other_wad.path):')]
NEEDS = 'an archive changed since the previous patch, stored under another directory'
BREAKS = 'the changed files of the archive are neither exported nor listed'
DEMO = '''
import sys
from types import SimpleNamespace as NS
from cdtb.export import Exporter

def exporter(path, sha):
    e = Exporter("out")
    e.wads["game/x.wad.client"] = NS(path=path, files=[NS(path="a", path_hash=1, sha256=1), NS(path="b", path_hash=2, sha256=sha)])
    return e

for path, sha, left in (("1/x.wad.client", 2, None), ("2/x.wad.client", 2, None), ("2/x.wad.client", 3, ["b"]), ("2/y.wad.client", 3, ["b"])):
    new, old = exporter(path, sha), exporter("1/x.wad.client", 2)
    new.filter_exporter(old)
    got = [f.path for w in new.wads.values() for f in w.files] or None
    if got != left:
        sys.exit(f"{got} left instead of {left}")
'''
