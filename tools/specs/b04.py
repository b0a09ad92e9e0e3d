ID = "rads-paths-case"
PROP = "C08"
EDITS = [("cdtb/rads.py", "            yield (storage.fspath(path), path.split('/', 5)[5].lower())", "            yield (storage.fspath(path), path.split('/', 5)[5])")]
NEEDS = "a RADS patch element with a file whose name has upper case letters, listed through paths()"
BREAKS = "paths() gives export paths which are not lower-cased and differ from the ones of relpaths()"
DEMO = '''
import sys
from types import SimpleNamespace
from cdtb.rads import RadsPatchElement, RadsStorage

storage = RadsStorage("/nonexistent", "http://localhost/")
sv = SimpleNamespace(solution=SimpleNamespace(name="lol_game_client_sln", storage=storage), patch_version=lambda: (8, 1),
                     filepaths=lambda langs=True: ["projects/a/releases/1/files/DATA/Abc.txt", "projects/a/releases/1/files/x.y"])
e = RadsPatchElement(sv)
if list(e.paths()) != list(zip(e.fspaths(), e.relpaths())):
    sys.exit(f"listings differ: {list(e.paths())}")
'''
