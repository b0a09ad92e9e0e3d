E, B, H, P, S, W, R, M, T, A, O = ("export.py", "binfile.py", "hashes.py", "patcher.py", "storage.py", "wad.py", "rads.py", "__main__.py", "tftdata.py", "arenadata.py", "tools.py")
CASES = [
    ("bad", E, "                converter = self._get_converter(wadfile.path)\n", ""),
    ("bad", B, "        entry = BinEntry(hpath, htype, values)\n", ""),
    ("bad", B, "        self.h = h\n", "        self.hh = h\n"),
    ("bad", P, "        self.version = version\n", ""),
    ("bad", S, "        elements = []\n        for _, group", "        for _, group"),
    ("bad", P, "parser.unpack('<6l')", "parser.unpacks('<6l')"),
    ("bad", E, "self._get_converter(export_path)", "self._get_convertor(export_path)"),
    ("bad", E, "logger.warning(f\"cannot convert file '{source_path}': {e}\")", "logger.warning(f\"cannot convert file '{source_pth}': {e}\")"),
    ("bad", S, "elements.append(max(group, key=lambda e: e.version))", "elements.append(max(group, key=lambda e: el.version))"),
    ("bad", E, "os.path.isdir(os.path.join(output, path))", "os.path.is_dir(os.path.join(output, path))"),
    ("bad", H, "r'^plugins/([^/]+)/[^/]+/[^/]+/'", "r'^plugins/([^/]+/[^/]+/[^/]+/'"),
    ("bad", T, "    def parse_sets(self, map22, character_names, traits):", "    def parse_sets(self, map22, character_names, traits, extra):"),
    ("bad", T, "            spell_key_name = None\n", ""),
    ("bad", P, "            flag_ids = None\n", "            pass\n"),
    ("bad", B, "            linked_files = None\n", "            pass\n"),
    ("bad", P, "            latest_release = None\n", "            pass\n"),
    ("bad", E, "        symlinked_paths = None\n", ""),
    ("bad", P, "                value = None\n", "                pass\n"),
    ("bad", E, "                data = wad.read_file_data(fwad, wadfile)\n                if data is None:\n                    continue\n\n                try:\n                    converter.convert", "                if wadfile.type != 9:\n                    data = wad.read_file_data(fwad, wadfile)\n\n                try:\n                    converter.convert"),
    ("bad", P, "        else:\n                flags = None\n".replace("        else", "            else"), "            elif link:\n                flags = None\n"),
    ("bad", H, "super()._substitute_basename_words(paths, words, nold=nold, nnew=nnew)", "super()._substitute_basename_words(paths, words, old=nold, nnew=nnew)"),
    ("bad", S, "        self.elements = elements", "        self.elems = elements"),
    ("bad", M, "import sys\n", ""),
    # the same behaviour
    ("ok", P, "            if flag_ids is not None:\n                flags = [self.flags[i] for i in flag_ids]\n            else:\n                flags = None\n", "            flags = None\n            if flag_ids is not None:\n                flags = [self.flags[i] for i in flag_ids]\n"),
    ("ok", P, "            if flag_ids is not None:\n                flags = [self.flags[i] for i in flag_ids]\n            else:\n                flags = None\n", "            if flag_ids is not None:\n                flags = [self.flags[i] for i in flag_ids]\n            if flag_ids is None:\n                flags = None\n"),
    ("ok", E, "            if data is None:\n                    continue\n".replace("            if", "                if"), "                if data is None:\n                    continue\n                size = len(data)\n                if size > 10:\n                    what = 'big'\n                if 10 < size:\n                    logger.debug(what)\n"),
    ("ok", E, "            return self\n" if False else "        for patch in storage.patches(stored=True):", "        last = None\n        for last in sorted(versions):\n            pass\n        logger.debug(last)\n        for patch in storage.patches(stored=True):"),
    ("ok", S, "    def latest(self):", "    def _by_name(self, *, key='name'):\n        return itertools.groupby(self.elements, key=lambda e: getattr(e, key))\n\n    def latest(self):"),
]
