ID = "patch-oldest-element"
PROP = "C09"
EDITS = [("cdtb/storage.py", """                if elem.name not in elements:
                    elements[elem.name] = elem
""", """                elements[elem.name] = elem
""")]
NEEDS = "a storage with several releases of the same patch version"
BREAKS = "a patch is built with the oldest release of each element instead of the latest"
DEMO = '''
import sys
from cdtb.storage import Storage, PatchElement, PatchVersion

class S(Storage):
    storage_type = None
    def __init__(self): pass
    def patch_elements(self, stored=False):
        for i, (n, v) in enumerate([("game", "8.2"), ("client", "8.2"), ("game", "8.2"), ("client", "8.1"), ("game", "8.1")]):
            e = PatchElement(n, PatchVersion(v))
            e.i = i
            yield e

got = [sorted(e.i for e in p.elements) for p in S().patches()]
if got != [[0, 1], [3, 4]]:
    sys.exit(f"wrong elements: {got}")
'''
