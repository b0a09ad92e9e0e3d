ID = 'long-names-collide'
PROP = 'C20'
EDITS = [('cdtb/wad.py', 'f"{filename[:250-17-len(ext)]}.{wadfile.path_hash:016x}{ext}"', 'f"{filename[:250-17-len(ext)]}.{len(filename):016x}{ext}"')]
NEEDS = 'two files of a directory whose names are too long, of the same length, and start alike'
BREAKS = 'both are extracted to the same file, one of them is lost'
DEMO = '''
import sys
from cdtb.wad import Wad, WadFileHeader

class W(Wad):
    def __init__(self, files):
        self.files = files

names = ["assets/" + "a" * 240 + x + ".bin" for x in ("_aaaaaaaa", "_bbbbbbbb", "_cccc")] + ["assets/short.bin"]
files = []
for n, name in enumerate(names):
    wf = WadFileHeader(n, 0, 0, 0, 0)
    wf.path, wf.ext = name, "bin"
    files.append(wf)
W(files).sanitize_paths()
paths = [wf.path for wf in files]
if len(set(paths)) != len(paths) or any(len(p.split("/")[-1]) > 255 for p in paths):
    sys.exit("paths are not distinct")
'''
