ID = 'clean-through-links'
PROP = 'C35'
EDITS = [('cdtb/export.py', 'if entry.is_symlink() or entry.is_file(follow_symlinks=False):', 'if entry.is_file():')]
NEEDS = 'an output directory in which a previous export has linked a directory'
BREAKS = 'files of the previous patch, reached through the link, are removed'
DEMO = '''
import os, sys, tempfile
from cdtb.export import Exporter

with tempfile.TemporaryDirectory() as tmp:
    prev, out = os.path.join(tmp, "1.1"), os.path.join(tmp, "1.2")
    os.makedirs(os.path.join(prev, "game/data"))
    os.makedirs(os.path.join(out, "game"))
    for p in ("1.1/game/data/a.txt", "1.2/game/b.txt", "1.2/game/c.txt"):
        open(os.path.join(tmp, p), "w").close()
    os.symlink("../../1.1/game/data", os.path.join(out, "game/data"))
    Exporter(out).clean_output_dir({"game/b.txt"}, {"game/data"})
    if not os.path.exists(os.path.join(prev, "game/data/a.txt")):
        sys.exit("a file of the previous patch was removed")
    if not os.path.islink(os.path.join(out, "game/data")) or sorted(os.listdir(os.path.join(out, "game"))) != ["b.txt", "data"]:
        sys.exit("wrong files left")
'''
