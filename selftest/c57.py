X = "export.py"
CASES = [
    ("bad", X, "            SknConverter(),\n", ""),
    ("bad", X, "            TexConverter(),\n", ""),
    ("bad", X, "            ChampionSkinInfoConverter(),\n", ""),
    ("bad", X, "ImageConverter(('.dds', '.tga'))", "ImageConverter(('.dds',))"),
    ("bad", X, "ImageConverter(('.dds', '.tga'))", "ImageConverter(('.dds'))"),
    ("bad", X, "ImageConverter(('.dds', '.tga'))", "ImageConverter(('.dds', '.tga', '.png'))"),
    ("bad", X, "r'game/.*\\.cdtb$|game/assets/items", "r'game/.*\\.cdtb$|assets/items/icons2d/.*\\.bin$|game/assets/items"),
    ("bad", X, "game/assets/items/icons2d/autoatlas/.*/atlas_info\\.bin$'", "game/assets/items/icons2d/autoatlas/atlas_info\\.bin$'"),
    ("bad", X, "BinConverter(re.compile(r'game/.*\\.bin$')", "BinConverter(re.compile(r'.*\\.bin$')"),
    ("bad", X, "BinConverter(re.compile(r'game/.*\\.bin$')", "BinConverter(re.compile(r'game/.*\\.bin')"),
    ("bad", X, "BinConverter(re.compile(r'game/.*\\.bin$')", "BinConverter(re.compile(r'game/data/.*\\.bin$')"),
    ("bad", X, "data/menu/.*\\.(txt|stringtable)$", "data/menu/.*\\.txt$"),
    ("bad", X, "r'game/(?:.*/)?data/menu/", "r'game/data/menu/"),
    ("bad", X, "r'game/(?:.*/)?data/menu/", "r'game/(?:.*/)data/menu/"),
    ("bad", X, "            AtlasInfoConverter(re.compile(r'game/.*\\.cdtb$|game/assets/items/icons2d/autoatlas/.*/atlas_info\\.bin$')),\n            BinConverter(re.compile(r'game/.*\\.bin$'), game_version),\n",
     "            BinConverter(re.compile(r'game/.*\\.bin$'), game_version),\n            AtlasInfoConverter(re.compile(r'game/.*\\.cdtb$|game/assets/items/icons2d/autoatlas/.*/atlas_info\\.bin$')),\n"),
    ("bad", X, "        for converter in self.converters:\n            if converter.is_handled(path):\n                return converter\n", "        for converter in reversed(self.converters):\n            if converter.is_handled(path):\n                return converter\n"),
    ("bad", X, "            if converter.is_handled(path):\n                return converter\n        return Copy", "            if not converter.is_handled(path):\n                return converter\n        return Copy"),
    ("bad", X, "        for converter in self.converters:\n            if", "        for converter in self.converters[:1]:\n            if"),
    ("bad", X, "return os.path.splitext(path)[1] in self.extensions", "return os.path.splitext(path)[1] not in self.extensions"),
    ("bad", X, "return os.path.splitext(path)[1] in self.extensions", "return any(x in path for x in self.extensions)"),
    ("bad", X, "return path.endswith('.tex')", "return '.tex' in path"),
    ("bad", X, "return path.endswith('.skn')", "return path.endswith('.sknx')"),
    ("bad", X, "return path.endswith('.skn')", "return path"),
    ("bad", X, "return path == \"game/global/champions/championskins.info\"", "return path == \"game/global/champions/championskin.info\""),
    ("bad", X, "return path == \"game/global/champions/championskins.info\"", "return path.startswith(\"game/global/champions/\")"),
    ("bad", X, "return self.regex.search(path) is not None", "return None"),
    ("bad", X, "        yield path + '.json'\n\n    def convert(self, fin, output, path):\n        output_path = os.path.join(output, path)\n        with write_file_or_remove(output_path) as fout:\n            shutil.copyfileobj(fin, fout)\n        with",
     "        yield os.path.splitext(path)[0] + '.json'\n\n    def convert(self, fin, output, path):\n        output_path = os.path.join(output, path)\n        with write_file_or_remove(output_path) as fout:\n            shutil.copyfileobj(fin, fout)\n        with"),
    ("bad", X, "        return CopyConverter.singleton\n", "        return self.converters[0]\n"),
    ("bad", X, "yield os.path.splitext(path)[0] + '.png'\n\n    def convert(self, fin, output, path):\n        output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')\n        with write_file_or_remove(output_path) as fout:\n            try:\n",
     "yield path.split('.')[0] + '.png'\n\n    def convert(self, fin, output, path):\n        output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')\n        with write_file_or_remove(output_path) as fout:\n            try:\n"),
    ("ok", X, "        for converter in self.converters:\n            if converter.is_handled(path):\n                return converter\n        return CopyConverter.singleton\n", "        return next((x for x in self.converters if x.is_handled(path)), CopyConverter.singleton)\n"),
    ("ok", X, "        return CopyConverter.singleton\n", "        return CopyConverter()\n"),
    ("ok", X, "return os.path.splitext(path)[1] in self.extensions", "base, ext = os.path.splitext(path)\n        return ext in self.extensions"),
    ("ok", X, "return os.path.splitext(path)[1] in self.extensions", "return path.endswith(self.extensions)"),
    ("ok", X, "return path.endswith('.tex')", "return path[-4:] == '.tex'"),
    ("ok", X, "return self.regex.search(path) is not None", "return bool(self.regex.search(path))"),
    ("ok", X, "return self.regex.search(path) is not None", "m = self.regex.search(path)\n        return m is not None"),
    ("ok", X, "        exporter.converters = [\n            ImageConverter(('.dds', '.tga')),\n            TexConverter(),\n", "        exporter.converters = [\n            TexConverter(),\n            ImageConverter(('.dds', '.tga')),\n"),
    ("ok", X, "ImageConverter(('.dds', '.tga'))", "ImageConverter(['.tga', '.dds'])"),
    ("ok", X, "            ChampionSkinInfoConverter(),\n        ]\n", "        ]\n        exporter.converters.append(ChampionSkinInfoConverter())\n"),
    ("ok", X, "        exporter.converters = [\n", "        exporter.converters = []\n        exporter.converters += [\n"),
    ("ok", X, "yield os.path.splitext(path)[0] + '.png'\n\n    def convert(self, fin, output, path):\n        output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')\n        with write_file_or_remove(output_path) as fout:\n            try:\n",
     "base, _ = os.path.splitext(path)\n        yield f'{base}.png'\n\n    def convert(self, fin, output, path):\n        output_path = os.path.join(output, os.path.splitext(path)[0] + '.png')\n        with write_file_or_remove(output_path) as fout:\n            try:\n"),
    ("ok", X, "r'game/.*\\.bin$'", "r'game/.*[.]bin$'"),
]
