E="export.py"; S="storage.py"
t="        if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):"
a="        if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):"
l='                if patch_version == "main" or patch_version >= PatchVersion("14.4"):'
f="            if first and patch.version != 'main' and patch.version < first:"
ai="""        if self.t == "main":
            return 9999 # return highest possible number
        else:
            v0, v1 = self.t
            return v0 * 100 + v1"""
CASES=[
 ("bad",E,t,"        if self.patch.version < PatchVersion('9.14'):"),
 ("bad",E,t,"        if self.patch.version == 'main' or self.patch.version < PatchVersion('9.14'):"),
 ("bad",E,t,"        if self.patch.version < PatchVersion('9.14') and self.patch.version != 'main':"),
 ("ok",E,t,"        if self.patch.version.t != 'main' and self.patch.version < PatchVersion('9.14'):"),
 ("ok",E,t,"        if str(self.patch.version) != 'main' and self.patch.version < PatchVersion('9.14'):"),
 ("ok",E,t,"        if self.patch.version != PatchVersion('main') and self.patch.version < PatchVersion('9.14'):"),
 ("ok",E,t,"        if self.patch.version.as_int() < 914:"),
 ("ok",E,t,"        if not (self.patch.version == 'main' or self.patch.version >= PatchVersion('9.14')):"),
 ("ok",E,["    def export_tft_data(self):\n",t],["    def _before(self, v):\n        v = PatchVersion(v)\n        return self.patch.version != 'main' and self.patch.version < v\n\n    def export_tft_data(self):\n","        if self._before('9.14'):"]),
 ("ok",E,["    def export_tft_data(self):\n",t],["    def _before(self, v):\n        v = PatchVersion(v)\n        return self.patch.version < v\n\n    def export_tft_data(self):\n","        if self.patch.version != 'main' and self._before('9.14'):"]),
 ("bad",E,a,"        if not self.patch.version >= PatchVersion('13.14'):"),
 ("bad",E,a,"        if self.prev_patch and self.patch.version < PatchVersion('13.14'):"),
 ("bad",E,l,'                if patch_version >= PatchVersion("14.4"):'),
 ("bad",E,l,'                if patch_version >= PatchVersion("14.4") or patch_version == "main":'),
 ("bad",E,l,'                if patch_version != "main" and patch_version >= PatchVersion("14.4"):'),
 ("ok",E,l,'                if not (patch_version != "main" and patch_version < PatchVersion("14.4")):'),
 ("ok",E,l,'                if patch_version.as_int() >= 1404:'),
 ("bad",E,f,"            if first and patch.version < first:"),
 ("bad",E,f,"            if first and (patch.version == 'main' or patch.version < first):"),
 ("ok",E,f,"            if first is not None and not patch.version == 'main' and first > patch.version:"),
 ("bad",S,ai,ai.replace("9999","0")),
 ("bad",S,ai,ai.replace("9999","1502")),
 ("bad",S,ai,ai.replace("v0 * 100","v0 * 10")),
 ("bad",S,ai,ai.replace("v0 * 100 + v1","v0 + v1 * 100")),
 ("ok",S,ai,"        if self.t == 'main':\n            return 9999\n        return self.t[1] + 100 * self.t[0]"),
 ("ok",S,ai,"        return 9999 if self == 'main' else self.t[0] * 100 + self.t[1]"),
]
