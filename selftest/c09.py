P="patcher.py"; R="rads.py"; S="storage.py"; M="__main__.py"
pe="""        for e in self.patch_elements(stored=stored):
            if e.name != name:
                continue
            if version is None or e.version == version:
                return e
        return None
"""
pa="""        it = self.patches(stored=stored)
        if version is None:
            return next(it, None)
        for p in it:
            if p.version == version:
                return p
        return None
"""
ps="""            elements = {}
            for elem in group:
                if elem.name not in elements:
                    elements[elem.name] = elem
"""
so="        for version in sorted(versions, reverse=True):"
ve="""        versions = []
        for version in os.listdir(base):
            try:
                versions.append(int(version))
            except ValueError:
                continue  # ignore extra files
"""
pk="                if best_elem is None or elem.version > best_elem.version:"
lt="""            if self.solution < other.solution:
                return True
            elif self.solution == other.solution:
                return self.version > other.version
            else:
                return False
        return NotImplemented

    def dependencies"""
vs="        return sorted(RadsSolutionVersion(self, RadsVersion(l)) for l in listing)"
CASES=[
 ("ok",S,pe,"        for e in self.patch_elements(stored=stored):\n            if e.name == name and (version is None or e.version == version):\n                return e\n        return None\n"),
 ("ok",S,pe,"        return next((e for e in self.patch_elements(stored=stored) if e.name == name and (version is None or e.version == version)), None)\n"),
 ("bad",S,pe,"        return next(e for e in self.patch_elements(stored=stored) if e.name == name and (version is None or e.version == version))\n"),
 ("ok",S,pe,"        it = (e for e in self.patch_elements(stored=stored) if e.name == name)\n        if version is not None:\n            it = (e for e in it if e.version == version)\n        for e in it:\n            return e\n        return None\n"),
 ("bad",S,pe,"        ret = None\n        for e in self.patch_elements(stored=stored):\n            if e.name == name and (version is None or e.version == version):\n                ret = e\n        return ret\n"),
 ("ok",S,pe,"        ret = None\n        for e in self.patch_elements(stored=stored):\n            if e.name == name and (version is None or e.version == version):\n                ret = e\n                break\n        return ret\n"),
 ("bad",S,pe,pe.replace("if version is None or","if version is None and not stored or")),
 ("bad",S,pe,pe.replace("e.version == version","e.version <= version")),
 ("bad",S,pe,pe.replace("if e.name != name:","if version is not None and e.name != name:")),
 ("bad",S,pa,pa.replace("next(it, None)","next(it)")),
 ("bad",S,pa,pa.replace("p.version == version","p.version >= version")),
 ("bad",S,pa,pa.replace("            return next(it, None)\n        for p in it","            next(it, None)\n        for p in it")),
 ("ok",S,pa,"        for p in self.patches(stored=stored):\n            if version is None or p.version == version:\n                return p\n        return None\n"),
 ("ok",S,pa,"        it = self.patches(stored=stored)\n        if version is not None:\n            it = (p for p in it if p.version == version)\n        return next(it, None)\n"),
 ("bad",S,pa,"        it = list(self.patches(stored=stored))\n        if version is None:\n            return it[0]\n        for p in it:\n            if p.version == version:\n                return p\n        return None\n"),
 ("bad",S,pa,"        return max((p for p in self.patches(stored=stored) if version is None or p.version == version), default=None)\n"),
 ("bad",S,ps,ps.replace("                if elem.name not in elements:\n                    elements","                elements")),
 ("bad",S,ps,ps.replace("if elem.name not in elements","if elem.name in elem.names[:1]")),
 ("ok",S,ps,"            elements = {}\n            for elem in group:\n                elements.setdefault(elem.name, elem)\n"),
 ("ok",S,ps,"            elements = {}\n            for elem in group:\n                if elem.name in elements:\n                    continue\n                elements[elem.name] = elem\n"),
 ("bad",S,ps,"            elements = {elem.name: elem for elem in group}\n"),
 ("ok",S,ps,"            elements = {elem.name: elem for elem in reversed(list(group))}\n"),
 ("bad",S,"key=lambda e: e.version)","key=lambda e: e.version.t[0])"),
 ("bad",S,"key=lambda e: e.version)","key=lambda e: e.name)"),
 ("ok",S,"key=lambda e: e.version)","key=lambda e: str(e.version))"),
 ("bad",P,so,"        for version in sorted(versions):"),
 ("bad",P,so,"        for version in versions:"),
 ("ok",P,so,"        versions.sort(reverse=True)\n        for version in versions:"),
 ("ok",P,so,"        for version in reversed(sorted(versions)):"),
 ("ok",P,so,"        for version in sorted(versions, key=lambda v: -v):"),
 ("bad",P,so,"        for version in sorted(versions, key=str, reverse=True):"),
 ("bad",P,"versions.append(int(version))","int(version)\n                versions.append(version)"),
 ("ok",P,ve,"        versions = [int(v) for v in os.listdir(base) if v.isdigit()]\n"),
 ("bad",P,ve,"        versions = [v for v in os.listdir(base) if v.isdigit()]\n"),
 ("ok",P,ve+"\n"+so,"        versions = [v for v in os.listdir(base) if v.isdigit()]\n\n        for version in sorted(versions, key=int, reverse=True):"),
 ("bad",P,"            if os.path.isfile(f\"{base}/{version}/release.json\"):\n                yield","            if os.path.isdir(f\"{base}/{version}\"):\n                yield"),
 ("bad",P,"            if os.path.isfile(f\"{base}/{version}/release.json\"):\n                yield","            yield"),
 ("ok",P,"            if os.path.isfile(f\"{base}/{version}/release.json\"):\n                yield","            if not os.path.isfile(os.path.join(base, str(version), 'release.json')):\n                continue\n            yield"),
 ("bad",P,"        for release in self.iter_releases():","        for release in list(self.iter_releases())[::-1]:"),
 ("bad",P,"        for release in self.iter_releases():","        for release in list(self.iter_releases())[:50]:"),
 ("bad",P,"            for elem in release.elements():\n                yield PatcherPatchElement","            for elem in release.elements():\n                if elem.name == 'game': yield PatcherPatchElement"),
 ("bad",R,pk,pk.replace(">","<")),
 ("bad",R,pk,"                if best_elem is None:"),
 ("ok",R,pk,"                if best_elem is None or best_elem.version < elem.version:"),
 ("ok",R,pk,pk.replace(">",">=")),
 ("bad",R,"            yield best_elem\n            best_peeker.consume()","            yield best_elem\n            elem and peeker.consume()"),
 ("bad",R,lt,lt.replace("self.version > other","self.version < other")),
 ("bad",R,vs,"        return [RadsSolutionVersion(self, RadsVersion(l)) for l in listing]"),
 ("bad",R,vs,"        return [RadsSolutionVersion(self, RadsVersion(l)) for l in sorted(listing, reverse=True)]"),
 ("bad",R,vs,vs.replace("sorted(","sorted((").replace("listing)","listing), reverse=True)")),
 ("ok",R,vs,"        ret = [RadsSolutionVersion(self, RadsVersion(l)) for l in listing]\n        ret.sort()\n        return ret"),
 ("ok",R,vs,"        return sorted([RadsSolutionVersion(self, RadsVersion(l)) for l in listing], key=lambda sv: sv.version, reverse=True)"),
 ("bad",R,vs,"        return sorted([RadsSolutionVersion(self, RadsVersion(l)) for l in listing], key=lambda sv: str(sv.version), reverse=True)"),
 ("ok",R,vs,"        return [RadsSolutionVersion(self, v) for v in sorted(map(RadsVersion, listing), reverse=True)]"),
 ("bad",S,"        if patch is None:\n            return None\n        if latest:\n            patch","        if latest:\n            patch"),
 ("bad",M,"        if patch is None:\n            parser.error(f\"patch not found: {args.patch}\")\n",""),
 ("bad",M,"            if previous_patch is None:\n                parser.error(f\"previous patch not found: {patch.version}\")\n",""),
 ("bad",M,"    if component is None:\n        parser.error(f\"component not found: {component}\")\n",""),
 ("bad",M,"        if component is None:\n            continue\n",""),
 ("bad",M,"storage.patch(None if args.patch == 'latest' else args.patch)","storage.patch(args.patch)"),
]
CASES += [
("bad","storage.py","elements.append(max(group, key=lambda e: e.version))","elements.append(min(group, key=lambda e: e.version))"),
("bad","storage.py","for _, group in itertools.groupby(self.elements, key=lambda e: e.name):","for _, group in list(itertools.groupby(self.elements, key=lambda e: e.name))[1:]:"),
("bad","storage.py","        return self._create(elements)\n","        self._create(elements)\n"),
("ok","storage.py","            elements.append(max(group, key=lambda e: e.version))","            best = None\n            for e in group:\n                if best is None or e.version > best.version:\n                    best = e\n            elements.append(best)"),
("ok","storage.py","            elements.append(max(group, key=lambda e: e.version))","            elements.append(sorted(group, key=lambda e: e.version)[-1])"),
("bad","storage.py","itertools.groupby(self.elements, key=lambda e: e.name)","itertools.groupby(self.elements, key=lambda e: e.version)"),
("ok","storage.py","            elements = {}\n            for elem in group:\n                if elem.name not in elements:\n                    elements[elem.name] = elem\n","            elements = {}\n            for elem in group:\n                elements.setdefault(elem.name, elem)\n"),
("bad","storage.py","            elements = {}\n            for elem in group:\n                if elem.name not in elements:\n                    elements[elem.name] = elem\n","            elements = {}\n            for elem in group:\n                elements[elem.name] = elem\n"),
]
