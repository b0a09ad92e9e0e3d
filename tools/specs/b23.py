ID = 'version-cache-shared'
PROP = 'C14'
EDITS = [('cdtb/patcher.py', 'cache = f"{self.release.storage_dir}/patch_version.{self.name}"', 'cache = f"{self.release.storage.path}/patch_version.{self.name}"')]
NEEDS = 'two releases of different patches in one storage'
BREAKS = 'the version of the first release is found in the cache for every other one'
DEMO = '''
import os, sys, tempfile
from types import SimpleNamespace
from cdtb.patcher import PatcherReleaseElement
from cdtb.storage import PatchVersion

with tempfile.TemporaryDirectory() as d:
    st = SimpleNamespace(path=d, patchline="live", fspath=lambda p: os.path.join(d, p))
    got = []
    for n, v in ((1, "14.1"), (2, "14.2"), (1, "14.1")):
        os.makedirs(f"{d}/releases/{n}", exist_ok=True)
        el = PatcherReleaseElement(SimpleNamespace(storage=st, storage_dir=f"{d}/releases/{n}", version=n, data={}), "game")
        el._retrieve_patch_version = lambda v=v: PatchVersion(v)
        got.append(str(el.patch_version()))
    if got != ["14.1", "14.2", "14.1"]:
        sys.exit(f"versions {got}")
'''
