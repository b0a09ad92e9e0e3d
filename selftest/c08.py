P="patcher.py"; R="rads.py"; S="storage.py"
pp="""        for f in self.elem.manif.filter_files(langs=langs):
            yield (self.elem.extract_path(f), f.name.lower())"""
rl="        return (f.name.lower() for f in self.elem.manif.filter_files(langs=langs))"
rr="        return (path.split('/', 5)[5].lower() for path in sv.filepaths(langs=langs))"
rp="""        for path in sv.filepaths(langs=langs):
            yield (storage.fspath(path), path.split('/', 5)[5].lower())"""
CASES=[
 ("bad",P,pp,pp.replace("f.name.lower()","f.name")),
 ("bad",P,pp,pp.replace("langs=langs","langs=True")),
 ("bad",P,pp,pp.replace("self.elem.manif.filter_files(langs=langs)","sorted(self.elem.manif.filter_files(langs=langs), key=lambda f: f.name)")),
 ("bad",P,pp,pp.replace("            yield","            if f.link:\n                continue\n            yield")),
 ("bad",P,rl,rl.replace(".lower()","")),
 ("bad",P,rl,rl.replace("f.name.lower()","f.name.strip('/').lower()")),
 ("bad",P,rl,"        return sorted(f.name.lower() for f in self.elem.manif.filter_files(langs=langs))"),
 ("bad",P,"        return (self.elem.extract_path(f) for f in","        return (self.elem.extract_path(f).lower() for f in"),
 ("bad",P,"        return (self.elem.extract_path(f) for f in","        return (f\"{self.elem.release.storage_dir}/{f.name}\" for f in"),
 ("bad",P,"        return (self.elem.extract_path(f) for f in","        return set(self.elem.extract_path(f) for f in"),
 ("ok",P,pp,"        for f in self.elem.manif.filter_files(langs=langs):\n            src = self.elem.extract_path(f)\n            dst = f.name\n            yield src, dst.lower()"),
 ("ok",P,pp,"        return ((self.elem.extract_path(f), f.name.lower()) for f in self.elem.manif.filter_files(langs))"),
 ("ok",P,pp,"        yield from zip(self.fspaths(langs), self.relpaths(langs))"),
 ("ok",P,pp,"        return zip(self.fspaths(langs), self.relpaths(langs))"),
 ("bad",P,pp,"        return zip(self.fspaths(langs), self.relpaths())"),
 ("bad",P,pp,"        return zip(self.relpaths(langs), self.fspaths(langs))"),
 ("ok",P,"    def paths(self, langs=True):\n"+pp,""),
 ("ok",P,rl,"        for _, p in self.paths(langs):\n            yield p"),
 ("ok",P,rl,"        for f in self.elem.manif.filter_files(langs=langs):\n            yield f.name.lower()"),
 ("ok",P,rl,"        return [self._export_path(f) for f in self.elem.manif.filter_files(langs=langs)]\n\n    def _export_path(self, f):\n        return f.name.lower()"),
 ("bad",S,"return zip(self.fspaths(langs=langs), self.relpaths(langs=langs))","return zip(self.fspaths(langs=langs), self.relpaths())"),
 ("bad",R,rr,rr.replace(".lower()","")),
 ("bad",R,rr,rr.replace("split('/', 5)[5]","split('/', 4)[4]")),
 ("bad",R,rr,rr.replace("langs=langs","langs=False")),
 ("bad",R,rp,rp.replace("yield (","if not path.endswith('.ver'): yield (")),
 ("bad",R,rp,rp.replace(".lower()","")),
 ("ok",R,rr,rr.replace("path.split('/', 5)[5].lower()","path.lower().split('/', 5)[5]")),
 ("bad",R,"        return (storage.fspath(path) for path in sv","        return (storage.fspath(path.lower()) for path in sv"),
 ("bad",R,"{pf.extract_path: pf for pf in files}","{pf.path: pf for pf in files}"),
 ("bad",R,"fspath = self.project.storage.fspath(pkgfile.extract_path)","fspath = self.project.storage.fspath(pkgfile.path)"),
 ("ok",R,"            self._package_files = {pf.extract_path: pf for pf in files}","            self._package_files = {}\n            for pf in files:\n                self._package_files[pf.extract_path] = pf"),
 ("bad",R,"            yield from pv.filepaths()","            yield from sorted(pf.path for pf in pv.filepaths().values())"),
]
