ID = 'relative-xdg'
PROP = 'C26'
EDITS = [('cdtb/hashes.py', '    if not path or not path.is_absolute():', '    if not path:')]
NEEDS = 'XDG_DATA_HOME set to a relative path'
BREAKS = 'hash lists are searched for relatively to the current directory'
DEMO = '''
import os, sys
from pathlib import Path
import cdtb.hashes as hashes

for n in ("CDTB_HASHES_DIR", "CDRAGON_DATA", "XDG_DATA_HOME", "LOCALAPPDATA"):
    os.environ.pop(n, None)
os.environ["HOME"] = "/nonexistent/home"
home = Path("/nonexistent/home/.local/share/cdragon/data/hashes/lol")
for xdg, want in ((None, home), ("/x/y", Path("/x/y/cdragon/data/hashes/lol")), ("x/y", home), ("", home)):
    if xdg is None:
        os.environ.pop("XDG_DATA_HOME", None)
    else:
        os.environ["XDG_DATA_HOME"] = xdg
    if hashes._default_hash_dir() != want:
        sys.exit(f"{hashes._default_hash_dir()} for {xdg!r}")
'''
