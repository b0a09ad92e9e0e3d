P = "patcher.py"
R = "rads.py"
S = "storage.py"
DL = "        if not self.is_extracted_file(file):\n            for bundle_id in {chunk.bundle.bundle_id for chunk in file.chunks}:\n                self.release.storage.download_bundle(bundle_id)\n"
PV = "        for pv in self.projects(False):\n            if pv.project.name == project_name:\n                break\n        else:\n            raise ValueError(f\"{project_name} project not found for {self}\")\n"
YL = "        for line in f:\n            # TODO do proper yaml parsing\n            # formats: Release/X.Y or 'X.Y'\n            m = re.match(r\"\"\"^ *(?:game-|)branch: .*[\"'/]([0-9.]+)[\"']?$\"\"\", line)\n            if m:\n                return m.group(1)\n        return None\n"
CASES = [
    ("bad", P, "'client': ('system.yaml', get_system_yaml_version),", "'client': ('system.yaml', get_content_metadata_version),"),
    ("bad", P, "'game': ('content-metadata.json', get_content_metadata_version),", "'game': ('system.yaml', get_system_yaml_version),"),
    ("bad", P, DL, ""),
    ("bad", P, DL, "        if not self.is_extracted_file(file):\n            self.release.storage.download_bundle(file.chunks[0].bundle.bundle_id)\n"),
    ("bad", P, DL, DL.replace("if not self", "if self")),
    ("bad", P, "                self.release.storage.download_bundle(bundle_id)\n        self.extract_file(file)\n", "                self.release.storage.download_bundle(bundle_id)\n"),
    ("bad", P, "        self.extract_file(file)\n\n        version = extractor(self.extract_path(file))\n", "        version = extractor(self.extract_path(file))\n        self.extract_file(file)\n"),
    ("bad", P, "version = extractor(self.extract_path(file))", "version = extractor(self.release.storage.fspath(file.name))"),
    ("bad", P, "        version = extractor(self.extract_path(file))\n        return PatchVersion(version)", "        version = extractor(self.extract_path(file))\n        return PatchVersion(version or '0.0')"[:0] + "        version = extractor(self.release.storage_dir)\n        return PatchVersion(version)"),
    ("bad", R, "                'lol_game_client',\n                'League of Legends.exe',", "                'league_client',\n                'League of Legends.exe',"),
    ("bad", R, "                'system.yaml',\n                get_system_yaml_version,", "                'system.yaml',\n                get_exe_version,"),
    ("bad", R, PV, "        pv = self.projects(False)[0]\n"),
    ("bad", R, "            if pv.project.name == project_name:\n                break\n", "            if pv.project.name.startswith(project_name):\n                break\n"),
    ("bad", R, "        path_suffix = f'/{file_name}'\n", "        path_suffix = file_name\n"),
    ("bad", R, "            if path.endswith(path_suffix):\n", "            if path_suffix in path:\n"),
    ("bad", R, "                if not os.path.isfile(path):\n                    pv.extract([path])\n", ""),
    ("bad", R, "                if not os.path.isfile(path):\n                    pv.extract([path])\n", "                if os.path.isfile(fspath):\n                    pv.extract([path])\n"),
    ("bad", R, "pv.extract([path])", "pv.extract([file_name])"),
    ("bad", R, "RadsVersion('0.0.0.43')", "RadsVersion('0.0.0.42')"),
    ("bad", R, "pv.version <= RadsVersion('0.0.0.43')", "pv.version >= RadsVersion('0.0.0.43')"),
    ("bad", R, "if pv.project.name == 'league_client' and pv.version <= RadsVersion('0.0.0.43'):", "if pv.version <= RadsVersion('0.0.0.43'):"),
    ("bad", R, "        version = extractor(fspath)\n", "        version = extractor(path)\n"),
    ("bad", R, "            raise ValueError(f\"'{file_name}' not found for {pv}\")\n", "            return None\n"),
    ("bad", S, "(?:game-|)branch: .*[\"'/]([0-9.]+)[\"']?$", "(?:game-|)branch: .*[\"/]([0-9.]+)[\"]?$"),
    ("bad", S, "(?:game-|)branch: .*[\"'/]([0-9.]+)[\"']?$", "(?:game-|)branch: .*[\"'/]([0-9.]+)"),
    ("bad", S, "^ *(?:game-|)branch", ".*branch"),
    ("bad", S, "^ *(?:game-|)branch", "^ *branch"),
    ("bad", S, "^ *(?:game-|)branch", "^(?:game-|)branch"),
    ("und", S, "            if m:\n                return m.group(1)\n        return None\n\n\ndef get_exe", "            if m:\n                version = m.group(1)\n        return version\n\n\ndef get_exe"),
    ("bad", S, "            if m:\n                return m.group(1)\n        return None\n\n\ndef get_exe", "            return m.group(1) if m else None\n        return None\n\n\ndef get_exe"),
    ("bad", S, r'r"^(\d+\.\d+)\."', r'r"^(\d+\.\d)"'),
    ("ok", S, r'r"^(\d+\.\d+)\."', r'r"(\d+\.\d+)\."'),
    ("bad", S, r'r"^(\d+\.\d+)\."', r'r"^(.+\.\d+)\."'),
    ("bad", S, "metadata.get('version')", "metadata.get('comment')"),
    ("ok", P, DL, "        if not self.is_extracted_file(file):\n            bundle_ids = sorted({c.bundle.bundle_id for c in file.chunks})\n            for bundle_id in bundle_ids:\n                self.release.storage.download_bundle(bundle_id)\n"),
    ("ok", P, DL, "        if not self.is_extracted_file(file):\n            for chunk in file.chunks:\n                self.release.storage.download_bundle(chunk.bundle.bundle_id)\n"),
    ("ok", P, "        file_name, extractor = retrievers[self.name]\n", "        retriever = retrievers[self.name]\n        file_name = retriever[0]\n        extractor = retriever[1]\n"),
    ("ok", R, PV, "        pv = next((p for p in self.projects(False) if p.project.name == project_name), None)\n        if pv is None:\n            raise ValueError(f\"{project_name} project not found for {self}\")\n"),
    ("ok", R, "                if not os.path.isfile(path):\n                    pv.extract([path])\n", "                if not os.path.isfile(fspath):\n                    pv.extract([path])\n"),
    ("ok", R, "                if not os.path.isfile(path):\n                    pv.extract([path])\n", "                pv.extract([path])\n"),
    ("ok", S, YL, "        pattern = re.compile(r\"\"\"^ *(?:game-)?branch: .*[\"'/]([0-9.]+)[\"']?$\"\"\")\n        for line in f:\n            m = pattern.match(line.rstrip('\\n'))\n            if m is not None:\n                return m.group(1)\n    return None\n"),
    ("ok", S, YL, "        for line in f.readlines():\n            m = re.match(r\"\"\"^ *(?:game-|)branch: .*[\"'/]([0-9.]+)[\"']?$\"\"\", line)\n            if not m:\n                continue\n            return m[1]\n        return None\n"),
]
