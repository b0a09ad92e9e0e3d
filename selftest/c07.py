P="patcher.py"; R="rads.py"; S="storage.py"; M="__main__.py"
LP="            langs = {lang.value if isinstance(lang, Language) else lang.lower() for lang in langs}\n"
FALSE_="            return lambda f: f.flags is None or not any('_' in f and len(f) == 5 for f in f.flags)"
LAST="            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)"
CASES = [
 ("bad",P,FALSE_,"            return lambda f: f.flags is None or not any('_' in f or len(f) == 5 for f in f.flags)"),
 ("bad",P,FALSE_,"            return lambda f: f.flags is None or not any('_' in f for f in f.flags)"),
 ("bad",P,FALSE_,"            return lambda f: f.flags is None or not all('_' in f and len(f) == 5 for f in f.flags)"),
 ("bad",P,FALSE_,"            return lambda f: f.flags is not None and not any('_' in f and len(f) == 5 for f in f.flags)"),
 ("bad",P,FALSE_,"            return lambda f: not f.flags"),
 ("ok",P,FALSE_,"            return lambda f: not any(len(x) == 5 and '_' in x for x in f.flags or ())"),
 ("ok",P,FALSE_,"            def neutral(file):\n                if file.flags is None:\n                    return True\n                for flag in file.flags:\n                    if '_' in flag and len(flag) == 5:\n                        return False\n                return True\n            return neutral"),
 ("bad",P,"            return lambda f: True","            return lambda f: f.flags is not None"),
 ("bad",P,LAST,"            return lambda f: f.flags is None or any(f.lower() in langs for f in f.flags)"),
 ("bad",P,LAST,"            return lambda f: f.flags is not None and any(f in langs for f in f.flags)"),
 ("bad",P,LAST,"            return lambda f: f.flags is not None and all(f.lower() in langs for f in f.flags)"),
 ("bad",P,LAST,"            return lambda f: f.flags is not None and f.flags[0].lower() in langs"),
 ("bad",P,LP,"            langs = {lang.value for lang in langs}\n"),
 ("bad",P,LP,"            langs = {lang.value if isinstance(lang, Language) else lang for lang in langs}\n"),
 ("bad",P,LP,"            langs = (lang.value if isinstance(lang, Language) else lang.lower() for lang in langs)\n"),
 ("bad",P,"            if isinstance(langs, (str, Language)):\n                langs = [langs]\n",""),
 ("bad",P,"            if isinstance(langs, (str, Language)):\n                langs = [langs]\n","            if isinstance(langs, Language):\n                langs = [langs]\n"),
 ("ok",P,LP,"            wanted = []\n            for lang in langs:\n                wanted.append((lang.value if isinstance(lang, Language) else lang).lower())\n            langs = frozenset(wanted)\n"),
 ("bad",P,"        return filter(PatcherFile.langs_predicate(langs), self.files.values())","        return filter(PatcherFile.langs_predicate(langs), list(self.files.values())[1:])"),
 ("ok",P,"        return filter(PatcherFile.langs_predicate(langs), self.files.values())","        pred = PatcherFile.langs_predicate(langs)\n        return [f for f in self.files.values() if pred(f)]"),
 ("ok",P,"        return filter(PatcherFile.langs_predicate(langs), self.files.values())","        pred = PatcherFile.langs_predicate(langs)\n        for name, file in self.files.items():\n            if pred(file):\n                yield file"),
 ("bad",R,"            return dependencies[None]","            return dependencies[Language.en_us]"),
 ("bad",R,"            return dependencies[None]","            return list({pv for lang, pvs in dependencies.items() if lang is not None for pv in pvs})"),
 ("bad",R,"        elif langs is True:\n            return list({pv for pvs in dependencies.values() for pv in pvs})","        elif langs is True:\n            return list({pv for lang in Language if lang in dependencies for pv in dependencies[lang]})"),
 ("bad",R,"            return dependencies[Language(langs)]","            return dependencies[langs]"),
 ("bad",R,"for pv in dependencies[Language(lang)]})","for pv in dependencies[lang]})"),
 ("bad",R,"        elif isinstance(langs, (str, Language)):","        elif isinstance(langs, Language):"),
 ("ok",R,"            return list({pv for lang in langs for pv in dependencies[Language(lang)]})","            pvs = set()\n            for lang in langs:\n                pvs.update(dependencies[Language(lang)])\n            return list(pvs)"),
 ("bad",R,"        for pv in self.projects(langs):\n            yield","        for pv in self.projects():\n            yield"),
 ("bad",R,"        for pv in self.projects(langs):\n            pv.download()","        for pv in self.projects(True):\n            pv.download()"),
 ("bad",R,"        return (storage.fspath(path) for path in sv.filepaths(langs=langs))","        return (storage.fspath(path) for path in sv.filepaths(langs=True))"),
 ("bad",R,"        self.solution_version.download(langs=langs)","        self.solution_version.download()"),
 ("bad",P,"        self.elem.extract(langs=langs)","        self.elem.extract()"),
 ("bad",S,"            elem.download(langs=langs)","            elem.download()"),
 ("bad",M,"        component.download(langs=args.langs)","        component.download()"),
 ("bad",M,"elem.relpaths(langs=args.langs) if","elem.relpaths() if"),
 ("bad",M,"dest='langs', action='store_false', default=True","dest='langs', action='store_true', default=True"),
 ("bad",M,"dest='langs', action='store_false', default=True","dest='langs', action='store_false', default=False"),
 ("bad",M,"'--lang', dest='langs', nargs='*',","'--lang', dest='langs',"),
 ("ok",M,"'--lang', dest='langs', nargs='*',","'--lang', dest='langs', nargs='+',"),
]
