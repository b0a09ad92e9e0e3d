ID = 'links-after-existing'
PROP = 'C37'
EDITS = [('cdtb/export.py', '                continue  # already set\n', '                break  # already set\n')]
NEEDS = 'an output where only some of the links exist: an export that was interrupted while it made them'
BREAKS = 'the links after the first one that exists are never made, so files are missing from the export'
DEMO = '''
import os, sys, tempfile
from types import SimpleNamespace
from cdtb.export import CdragonRawPatchExporter
from cdtb.storage import PatchVersion

with tempfile.TemporaryDirectory() as d:
    names = ["a", "b", "c/d"]
    os.makedirs(f"{d}/1.1/c")
    os.makedirs(f"{d}/1.2")
    for n in names:
        with open(f"{d}/1.1/{n}", "w") as f:
            f.write(n)
    ex = CdragonRawPatchExporter(f"{d}/1.2", SimpleNamespace(version=PatchVersion("1.2")), SimpleNamespace(version=PatchVersion("1.1")))
    ex._create_symlinks(["a"])
    ex._create_symlinks(names)
    for n in names:
        if not os.path.islink(f"{d}/1.2/{n}"):
            sys.exit(f"{n} is missing")
        with open(f"{d}/1.2/{n}") as f:
            if f.read() != n:
                sys.exit(f"{n} leads elsewhere")
'''
