P="patcher.py"; R="rads.py"
w='''            version = self._retrieve_patch_version()
            if version is None:
                logger.warning(f"failed to retrieve patch version of {self}")
            else:
                with write_file_or_remove(cache, binary=False) as f:
                    f.write(f"{version}\\n")
'''
wr=w.replace(" of {self}"," for {self}")
rd='''                version = f.read().strip()
                version = PatchVersion(version) if version else None
'''
pbe='''        if self.release.storage.patchline == "pbe":
            return PatchVersion("main")

'''
CASES=[
 ("bad",P,"with write_file_or_remove(cache, binary=False) as f:","with open(cache, 'w') as f:"),
 ("bad",R,"with write_file_or_remove(cache, binary=False) as f:","with open(cache, 'w') as f:"),
 ("bad",P,w,w.replace("            if version is None:","            if not self.name:")),
 ("bad",P,w,'''            with write_file_or_remove(cache, binary=False) as f:
                version = self._retrieve_patch_version()
                f.write(f"{version}\\n")
'''),
 ("bad",P,w,w.replace('f"{version}\\n"','f"{self.release.version}\\n"')),
 ("bad",P,w,w.replace('f"{version}\\n"','f"{version or 1}\\n"').replace("            if version is None:","            if version is None and not self.name:")),
 ("ok",P,w,w.replace('f"{version}\\n"','str(version)')),
 ("ok",P,w,'''            version = self._retrieve_patch_version()
            if version is not None:
                with write_file_or_remove(cache, binary=False) as f:
                    print(version, file=f)
'''),
 ("ok",P,w,'''            version = self._retrieve_patch_version()
            if version:
                with write_file_or_remove(cache, binary=False) as f:
                    f.write(str(version) + "\\n")
'''),
 ("bad",P,rd,'''                version = f.read().strip()
                version = PatchVersion(version[:4]) if version else None
'''),
 ("bad",P,rd,'''                version = f.read().strip()
                version = None
'''),
 ("bad",P,rd,'''                version = f.read().strip()
                version = PatchVersion(version) if version and version != "main" else None
'''),
 ("ok",P,rd,'''                content = f.read().strip()
            if not content:
                return None
            return PatchVersion(content)
'''),
 ("ok",P,rd,'''                content = f.readline().strip()
            version = PatchVersion(content) if content else None
'''),
 ("bad",P,pbe,""),
 ("bad",R,'        if self.solution.storage.url == RadsStorage.URL_PBE:\n            return PatchVersion("main")\n',""),
 ("bad",P,[pbe,"        return version\n\n    def _retr"],["","        if self.release.storage.patchline == \"pbe\" and version is None:\n            return PatchVersion(\"main\")\n        return version\n\n    def _retr"]),
 ("bad",P,"        if os.path.isfile(cache):","        if os.path.isfile(cache) and not self.name:"),
 ("bad",P,"        if os.path.isfile(cache):","        if not os.path.isfile(cache):"),
 ("bad",P,"        if os.path.isfile(cache):","        if os.path.isfile(self.release.storage_dir):"),
 ("bad",R,"        if os.path.isfile(cache):","        if os.path.isfile(f\"{self.path}/_patch_version\"):"),
 ("ok",P,"        if os.path.isfile(cache):","        if os.path.exists(cache):"),
 ("ok",P,["    def patch_version(self) -> Optional[PatchVersion]:\n","        cache = f\"{self.release.storage_dir}/patch_version.{self.name}\""],["    def _cache(self):\n        return os.path.join(self.release.storage_dir, 'patch_version.' + self.name)\n\n    def patch_version(self) -> Optional[PatchVersion]:\n","        cache = self._cache()"]),
 ("ok",P,["    def patch_version(self) -> Optional[PatchVersion]:\n",w],["    def _store(self, path, version):\n        with write_file_or_remove(path, binary=False) as f:\n            f.write(f\"{version}\\n\")\n\n    def patch_version(self) -> Optional[PatchVersion]:\n",'''            version = self._retrieve_patch_version()
            if version is None:
                logger.warning(f"failed to retrieve patch version of {self}")
                return None
            self._store(cache, version)
''']),
 ("bad",P,"            with open(cache) as f:\n","            with open(cache.lower()) as f:\n"),
 ("ok",R,wr,wr.replace('f"{version}\\n"','str(version)')),
 ("bad",P,'patchline == "pbe"','patchline == "pbe_"'),
 ("bad",P,'f"{self.release.storage_dir}/patch_version.{self.name}"','f"{self.release.storage.path}/patch_version.{self.name}"'),
 ("bad",P,'f"{self.release.storage_dir}/patch_version.{self.name}"','f"{self.release.storage_dir}/patch_version"'),
]
