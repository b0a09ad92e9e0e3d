X = "export.py"
ADD = "        for elem in patch.latest().elements:\n            for src, dst in elem.paths(langs=True):\n                self.add_path(src, dst)\n"
CASES = [
    ("bad", X, "        for elem in patch.latest().elements:\n            elem.download(langs=True)\n\n", ""),
    ("bad", X, "elem.download(langs=True)", "elem.download(langs=False)"),
    ("bad", X, "elem.download(langs=True)", "elem.download()"),
    ("bad", X, "elem.download(langs=True)", "pass"),
    ("bad", X, "elem.paths(langs=True)", "elem.paths()"),
    ("bad", X, "elem.paths(langs=True)", "elem.paths(langs=None)"),
    ("bad", X, "                self.add_path(src, dst)\n", "                pass\n"),
    ("bad", X, "self.add_path(src, dst)", "self.add_path(dst, src)"),
    ("bad", X, ADD, ADD.replace("patch.latest().elements", "patch.elements")),
    ("bad", X, ADD, ADD.replace("patch.latest().elements", "patch.latest().elements[:1]")),
    ("bad", X, ADD, ADD.replace("elem.paths(langs=True)", "list(elem.paths(langs=True))[1:]")),
    ("bad", X, ADD, ADD.replace("                self.add", "                if dst.endswith('.exe'):\n                    break\n                self.add")),
    ("bad", X, "        for elem in patch.latest().elements:\n            elem.download(langs=True)\n", "        for elem in patch.elements:\n            elem.download(langs=True)\n"),
    ("bad", X, "if wf.type != 2]", "if wf.type == 2]"),
    ("bad", X, "            wad.files = [wf for wf in wad.files if wf.type != 2]\n", ""),
    ("bad", X, "if wf.type != 2]", "if wf.type < 2]"),
    ("bad", X, "            wad.guess_extensions()\n            wad.sanitize_paths()\n", "            wad.sanitize_paths()\n            wad.guess_extensions()\n"),
    ("bad", X, "            wad.guess_extensions()\n            wad.sanitize_paths()\n", "            wad.sanitize_paths()\n"),
    ("bad", X, "            self.wads[export_path] = wad\n", ""),
    ("bad", X, "            self.wads[export_path] = wad\n", "            self.wads[source_path] = wad\n"),
    ("bad", X, "            self.plain_files[export_path] = source_path\n", "            self.plain_files[export_path] = export_path\n"),
    ("bad", X, "            self.plain_files[export_path] = source_path\n", "            self.plain_files.setdefault(export_path, export_path)\n"),
    ("bad", X, "if source_path.endswith('.wad') or source_path.endswith('.wad.client'):", "if source_path.endswith('.wad.client'):"),
    ("bad", X, "if source_path.endswith('.wad') or source_path.endswith('.wad.client'):", "if '.wad' in source_path:"),
    ("bad", X, "        exporter.add_patch_files(patch)\n", "        exporter.add_patch_files(self.patch)\n"),
    ("bad", X, "        exporter.add_patch_files(patch)\n", ""),
    ("bad", X, "PatchVersion('9.14')", "PatchVersion('9.13')"),
    ("bad", X, "self.patch.version != 'main' and self.patch.version < PatchVersion('13.14')", "False"),
    ("bad", X, "self.patch.version != 'main' and self.patch.version < PatchVersion('13.14')", "self.patch.version < PatchVersion('13.14')"),
    ("bad", X, "self.patch.version < PatchVersion('9.14')", "self.patch.version <= PatchVersion('9.14')"),
    ("bad", X, "os.path.join(self.output, \"cdragon/tft\"), langs=None", "os.path.join(self.output, \"cdragon/tft\"), langs=[]"),
    ("bad", X, "os.path.join(self.output, \"cdragon/arena\")", "os.path.join(self.output, \"cdragon/tft\")"),
    ("bad", X, "ArenaTransformer(os.path.join(self.output, \"game\")", "ArenaTransformer(os.path.join(self.output)"),
    ("bad", X, "        self.export_arena_data()\n", ""),
    ("bad", X, "        logger.info(\"export TFT data files\")\n        self.export_tft_data()\n", ""),
    ("bad", X, "        transformer.export(os.path.join(self.output, \"cdragon/arena\"), langs=None)\n", ""),
    ("ok", X, ADD, "        for elem in patch.latest().elements:\n            for p in elem.paths(True):\n                self.add_path(*p)\n"),
    ("ok", X, "        for elem in patch.latest().elements:\n            elem.download(langs=True)\n\n        # add files to export\n" + ADD, "        elements = list(patch.latest().elements)\n        for elem in elements:\n            elem.download(langs=True)\n        for elem in elements:\n            for src, dst in elem.paths(langs=True):\n                self.add_path(src, dst)\n"),
    ("ok", X, "        for elem in patch.latest().elements:\n            elem.download(langs=True)\n\n        # add files to export\n" + ADD, "        for elem in patch.latest().elements:\n            elem.download(langs=True)\n            for src, dst in elem.paths(langs=True):\n                self.add_path(src, dst)\n"),
    ("ok", X, "        for elem in patch.latest().elements:\n            elem.download(langs=True)\n", "        latest = patch.latest()\n        for elem in latest.elements:\n            elem.download(langs=True)\n"),
    ("ok", X, "if source_path.endswith('.wad') or source_path.endswith('.wad.client'):", "if source_path.endswith(('.wad', '.wad.client')):"),
    ("ok", X, "            wad.files = [wf for wf in wad.files if wf.type != 2]\n", "            wad.files = list(filter(lambda wf: wf.type != 2, wad.files))\n"),
    ("ok", X, "            wad.files = [wf for wf in wad.files if wf.type != 2]\n", "            kept = []\n            for wf in wad.files:\n                if wf.type == 2:\n                    continue\n                kept.append(wf)\n            wad.files = kept\n"),
    ("ok", X, "            wad.files = [wf for wf in wad.files if wf.type != 2]\n            wad.guess_extensions()\n", "            wad.guess_extensions()\n            wad.files = [wf for wf in wad.files if wf.type != 2]\n"),
    ("ok", X, "            self.wads[export_path] = wad\n", "            self.wads.update({export_path: wad})\n"),
    ("ok", X, ADD, "        pairs = ((src, dst) for elem in patch.latest().elements for src, dst in elem.paths(langs=True))\n        for src, dst in pairs:\n            self.add_path(src, dst)\n"),
    ("ok", X, "        if self.patch.version != 'main' and self.patch.version < PatchVersion('13.14'):\n            return  # no supported Arena data before 13.14\n", "        if not (self.patch.version == 'main' or self.patch.version >= PatchVersion('13.14')):\n            return\n"),
    ("ok", X, "        if self.patch.version != 'main' and self.patch.version < PatchVersion('9.14'):", "        version = self.patch.version\n        if version != 'main' and version < PatchVersion('9.14'):"),
    ("ok", X, "        game_version = self.patch.version.as_int()\n        from .arenadata", "        from .arenadata"),
    ("ok", X, "transformer.export(os.path.join(self.output, \"cdragon/arena\"), langs=None)", "transformer.export(os.path.join(self.output, \"cdragon\", \"arena\"), langs=None)"),
]
# the version is needed where it was computed
CASES = [(w, f, [o, "ArenaTransformer(os.path.join(self.output, \"game\"), game_version)"], [n, "ArenaTransformer(os.path.join(self.output, \"game\"), self.patch.version.as_int())"]) if n == "        from .arenadata" else (w, f, o, n) for w, f, o, n in CASES]
