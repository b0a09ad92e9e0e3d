M="__main__.py"; S="storage.py"; P="patcher.py"; R="rads.py"; E="export.py"
pe="""        if not stored:
            # add latest release to the storage, if any
            self.fetch_latest_update()

        for release in self.iter_releases():
            for elem in release.elements():
                yield PatcherPatchElement(elem)
"""
v='''            listing = []
            for path in os.listdir(fspath):
                if not os.path.isdir(os.path.join(fspath, path)):
                    continue
                listing.append(path)
'''
CASES=[
 ("bad",P,"        if not stored:\n            # add","        if not stored or self.latest_timestamp() is None:\n            # add"),
 ("bad",P,"        if not stored:\n            # add","        if stored:\n            # add"),
 ("bad",P,"        if not stored:\n            # add","        if True:\n            # add"),
 ("bad",P,"        if not stored:\n            # add","        if not stored and not self.use_extract_symlinks:\n            # add"),
 ("bad",P,pe,"""        for release in self.iter_releases():
            for elem in release.elements():
                yield PatcherPatchElement(elem)
        if not stored:
            self.fetch_latest_update()
"""),
 ("ok",P,pe,"""        if stored:
            pass
        else:
            self.fetch_latest_update()
        yield from (PatcherPatchElement(elem) for release in self.iter_releases() for elem in release.elements())
"""),
 ("ok",P,pe,"""        stored or self.fetch_latest_update()
        for release in self.iter_releases():
            yield from map(PatcherPatchElement, release.elements())
"""),
 ("ok",P,["    def patch_elements(self, stored=False):\n        if not stored:\n","            # add latest release to the storage, if any\n            self.fetch_latest_update()"],["    def _update(self, stored):\n        if stored:\n            return\n        self.fetch_latest_update()\n\n    def patch_elements(self, stored=False):\n        if True:\n","            self._update(stored)"]),
 ("bad",R,"        if stored:\n            fspath","        if stored and os.path.isdir(self.storage.fspath(self.path)):\n            fspath"),
 ("bad",R,"                return []  # solution not in storage","                return self.versions()"),
 ("bad",R,"            for sv in solution.versions(stored=stored):","            for sv in solution.versions():"),
 ("bad",R,"            for sv in solution.versions(stored=stored):","            for sv in solution.versions(stored=not stored):"),
 ("ok",R,"            for sv in solution.versions(stored=stored):","            for sv in solution.versions(stored):"),
 ("ok",R,"            for sv in solution.versions(stored=stored):","            for sv in solution.versions(stored=bool(stored)):"),
 ("bad",R,v,"            listing = self.storage.request_text(f\"{self.path}/releaselisting\").splitlines()\n"),
 ("ok",R,v,"            listing = [p for p in os.listdir(fspath) if os.path.isdir(os.path.join(fspath, p))]\n"),
 ("bad",S,"self.patch_elements(stored=stored), key","self.patch_elements(), key"),
 ("bad",S,"        it = self.patches(stored=stored)","        it = self.patches(stored=stored and version is not None)"),
 ("bad",S,"        it = self.patches(stored=stored)","        it = self.patches(stored=True)"),
 ("ok",S,"        it = self.patches(stored=stored)","        it = iter(self.patches(stored))"),
 ("bad",S,"        for e in self.patch_elements(stored=stored):","        for e in self.patch_elements(stored=False):"),
 ("bad",S,"        return storage.patch_element(name, version, stored=version is not None)","        return storage.patch_element(name, version)"),
 ("bad",S,"        return storage.patch_element(name, version, stored=version is not None)","        return storage.patch_element(name, version, stored=version is None)"),
 ("bad",S,"        return storage.patch_element(name, version, stored=version is not None)","        return storage.patch_element(name, version, stored=not latest)"),
 ("ok",S,"        return storage.patch_element(name, version, stored=version is not None)","        stored = version is not None\n        element = storage.patch_element(name, version, stored)\n        return element"),
 ("ok",S,"        return storage.patch_element(name, version, stored=version is not None)","        if version is None:\n            return storage.patch_element(name)\n        return storage.patch_element(name, version, stored=True)"),
 ("bad",M,"storage.patches(stored=args.stored)","storage.patches(stored=not args.stored)"),
 ("bad",M,"storage.patches(stored=args.stored)","storage.patches()"),
 ("bad",M,"action='store_false', default=True,\n                           help=\"when","action='store_true', default=False,\n                           help=\"when"),
 ("bad",M,"storage.patch(args.previous, stored=True)","storage.patch(args.previous)"),
 ("bad",M,"it = storage.patches(stored=True)","it = storage.patches()"),
 ("ok",M,"it = storage.patches(stored=True)","it = iter(storage.patches(True))"),
 ("bad",E,"for patch in storage.patches(stored=True):","for patch in storage.patches():"),
 ("bad",E,"for patch in storage.patches(stored=True):","for patch in storage.patches(stored=first is not None):"),
 ("ok",E,"        for patch in storage.patches(stored=True):","        stored = True\n        for patch in storage.patches(stored=stored):"),
]
