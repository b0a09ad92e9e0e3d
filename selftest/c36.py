F = "export.py"
SHA = "self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]"
MAP = "other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}"
PL = """        for path, other_storage_path in other.plain_files.items():
            if self.plain_files.get(path) == other_storage_path:
                # same storage path: files are identical
                logger.debug(f"filter identical plain file: {path}")
                del self.plain_files[path]
"""
RC = "symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, changed_paths)"
CASES = [
    ("bad", F, SHA, "self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]"),
    ("bad", F, [MAP, SHA], ["other_sha256 = {wf.sha256 for wf in other_wad.files}", "self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 not in other_sha256]"]),
    ("ok", F, [MAP, SHA], ["other_sha256 = {(wf.path_hash, wf.sha256) for wf in other_wad.files}", "self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or (wf.path_hash, wf.sha256) not in other_sha256]"]),
    ("ok", F, SHA, "self_wad.files = [wf for wf in self_wad.files if not wf.sha256 or wf.sha256 != other_sha256.get(wf.path_hash)]"),
    ("bad", F, [MAP, SHA], ["other_sha256 = {wf.path_hash for wf in other_wad.files}", "self_wad.files = [wf for wf in self_wad.files if wf.path_hash not in other_sha256]"]),
    ("bad", F, [MAP, SHA], ["other_sha256 = {wf.path_hash: wf.size for wf in other_wad.files}", "self_wad.files = [wf for wf in self_wad.files if wf.size != other_sha256.get(wf.path_hash)]"]),
    ("bad", F, "if self_wad.path == other_wad.path:", "if os.path.basename(self_wad.path) == os.path.basename(other_wad.path):"),
    ("bad", F, "if self_wad.path == other_wad.path:", "if len(self_wad.files) == len(other_wad.files):"),
    ("bad", F, "            if self.plain_files.get(path) == other_storage_path:", "            if path in self.plain_files:"),
    ("ok", F, PL, "        self.plain_files = {k: v for k, v in self.plain_files.items() if other.plain_files.get(k) != v}\n"),
    ("bad", F, PL, "        others = set(other.plain_files.values())\n        self.plain_files = {k: v for k, v in self.plain_files.items() if v not in others}\n"),
    ("ok", F, PL, "        for path in list(self.plain_files):\n            if path in other.plain_files and other.plain_files[path] == self.plain_files[path]:\n                del self.plain_files[path]\n"),
    ("bad", F, RC, "symlinked_paths = reduce_common_paths(new_paths - changed_paths, prev_paths, set())"),
    ("bad", F, RC, "symlinked_paths = reduce_common_paths(new_paths & prev_paths, prev_paths, changed_paths)"),
    ("bad", F, RC, "symlinked_paths = reduce_common_paths(new_paths - changed_paths, new_paths, changed_paths)"),
    ("bad", F, ["            # filter out files from previous patch\n            exporter.filter_exporter(prev_exporter)\n", RC + "\n"],
        ["", RC + "\n            exporter.filter_exporter(prev_exporter)\n"]),
    ("bad", F, ["            # filter out files from previous patch\n            exporter.filter_exporter(prev_exporter)\n"], [""]),
    ("bad", F, "exporter.filter_exporter(prev_exporter)", "prev_exporter.filter_exporter(exporter)"),
    ("bad", F, "        new_paths = set(exporter.all_converted_exported_paths())\n        symlinked_paths = None\n        changed_paths = new_paths  # default: use all new paths\n        if self.prev_patch:\n            prev_paths = set(prev_exporter.all_converted_exported_paths())\n            # filter out files from previous patch\n            exporter.filter_exporter(prev_exporter)\n",
        "        if self.prev_patch:\n            prev_paths = set(prev_exporter.all_converted_exported_paths())\n            # filter out files from previous patch\n            exporter.filter_exporter(prev_exporter)\n        new_paths = set(exporter.all_converted_exported_paths())\n        symlinked_paths = None\n        changed_paths = new_paths  # default: use all new paths\n        if self.prev_patch:\n"),
    ("bad", F, "if tree1 is None or (tree1 == tree2 and excludes is None):", "if tree1 is None or tree1 == tree2:"),
    ("bad", F, "if tree1 is None or (tree1 == tree2 and excludes is None):", "if tree1 is None or excludes is None:"),
    ("bad", F, "if tree1 is None or (tree1 == tree2 and excludes is None):", "if tree1 is None or (tree1.keys() == tree2.keys() and excludes is None):"),
    ("bad", F, "None if excludes is None else excludes.get(name))", "None)"),
    ("bad", F, "None if excludes is None else excludes.get(name))", "excludes)"),
    ("ok", F, "None if excludes is None else excludes.get(name))", "excludes.get(name) if excludes else None)"),
    ("ok", F, "None if excludes is None else excludes.get(name))", "excludes[name] if excludes is not None and name in excludes else None)"),
    ("bad", F, "tree_excludes = paths_to_tree(excludes)", "tree_excludes = paths_to_tree(paths2)"),
    ("bad", F, "*parents, leaf = path.split('/')", "*parents, leaf = path.split('/', 1)"),
    ("ok", F, "                other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}\n", "                other_sha256 = {}\n                for wf in other_wad.files:\n                    other_sha256[wf.path_hash] = wf.sha256\n"),
    ("ok", F, SHA, "kept = []\n                for wf in self_wad.files:\n                    if wf.sha256 is not None and wf.sha256 == other_sha256.get(wf.path_hash):\n                        continue\n                    kept.append(wf)\n                self_wad.files = kept"),
    ("bad", F, SHA, "kept = []\n                for wf in self_wad.files:\n                    if wf.sha256 is not None and wf.sha256 == other_sha256.get(wf.path_hash):\n                        break\n                    kept.append(wf)\n                self_wad.files = kept"),
    ("bad", F, "                    continue\n\n                converter = self._get_converter(wadfile.path)", "                    break\n\n                converter = self._get_converter(wadfile.path)"),
    ("bad", F, "        for wad in self.wads.values():\n            self._export_wad(wad, overwrite)", "        for wad in self.wads.values():\n            if len(wad.files) > 1:\n                self._export_wad(wad, overwrite)"),
    ("ok", F, "        for wad in self.wads.values():\n            self._export_wad(wad, overwrite)", "        for path in self.wads:\n            self._export_wad(self.wads[path], overwrite)"),
    ("ok", F, "            self_wad = self.wads.get(path)\n            if self_wad is None:\n                continue  # not exported\n", "            if path not in self.wads:\n                continue\n            self_wad = self.wads[path]\n"),
    ("bad", F, "                if not self_wad.files:\n                    del self.wads[path]\n\n    def export", "                del self.wads[path]\n\n    def export"),
    ("bad", F, "if not overwrite and converter.converted_paths_exist(self.output, export_path):", "if converter.converted_paths_exist(self.output, export_path):"),
    ("bad", F, "                continue  # not exported", "                pass"),
    ("bad", F, "                continue  # not exported", "                break"),
    ("ok", F, "            self_wad = self.wads.get(path)\n            if self_wad is None:\n                continue  # not exported\n", "            if path not in self.wads:\n                continue\n            self_wad = self.wads[path]\n"),
    ("ok", F, "                del self.plain_files[path]", "                self.plain_files.pop(path)"),
]
