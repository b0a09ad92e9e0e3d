ID = "larger-file-complete"
PROP = "C06"
EDITS = [("cdtb/patcher.py", "os.path.getsize(output) == file.size", "os.path.getsize(output) >= file.size")]
NEEDS = "an already extracted file that is larger than what the manifest gives"
BREAKS = "a stale, larger file is taken for the extracted file: it is never extracted again"
DEMO = '''
import os, sys, tempfile
from types import SimpleNamespace
from cdtb.patcher import PatcherReleaseElement, PatcherFile

with tempfile.TemporaryDirectory() as tmp:
    release = SimpleNamespace(storage_dir=tmp, data={}, storage=None, version=1)
    elem = PatcherReleaseElement(release, "game")
    os.mkdir(os.path.join(tmp, "files"))
    file = PatcherFile("name", 3, None, None, [])
    for data in (b"", b"ab", b"abc", b"abcd"):
        with open(os.path.join(tmp, "files", "name"), "wb") as f:
            f.write(data)
        if elem.is_extracted_file(file) != (len(data) == 3):
            sys.exit(f"wrong for a file of {len(data)} bytes")
'''
