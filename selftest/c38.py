X = "export.py"
T = "tftdata.py"
A = "arenadata.py"
M = "__main__.py"
G = "            replacements = RstFile(stringtables[lang], self.game_version)\n"
P = 'parsed_version = PatchVersion(args.patch_version if args.patch_version else "main").as_int()'
CASES = [
    ("bad", A, G, "            replacements = RstFile(stringtables[lang])\n"),
    ("ok", A, G, "            version = self.game_version\n            replacements = RstFile(path_or_f=stringtables[lang], game_version=version)\n"),
    ("bad", T, "return RstFile(f, game_version)", "return RstFile(f)"),
    ("bad", T, "load_translations(stringtables[lang], self.game_version)", "load_translations(stringtables[lang])"),
    ("bad", X, "        game_version = patch.version.as_int()\n", "        game_version = self.patch.version.as_int()\n"),
    ("bad", X, 'TftTransformer(os.path.join(self.output, "game"), game_version)', 'TftTransformer(os.path.join(self.output, "game"))'),
    ("bad", X, "        self.hashes = get_rsthashfile(game_version).load()", "        self.hashes = get_rsthashfile().load()"),
    ("bad", X, "rstfile = RstFile(output_path, self.game_version)", "rstfile = RstFile(output_path)"),
    ("bad", X, "data/menu/.*\\.(txt|stringtable)$'), game_version)", "data/menu/.*\\.(txt|stringtable)$'))"),
    ("bad", M, P, 'parsed_version = PatchVersion("main").as_int()'),
    ("bad", M, P, 'parsed_version = PatchVersion(args.patch_version).as_int() if args.patch_version else 1502'),
    ("ok", M, P, 'parsed_version = PatchVersion(args.patch_version).as_int() if args.patch_version else PatchVersion("main").as_int()'),
    ("ok", M, P, 'wanted = args.patch_version or "main"\n    parsed_version = PatchVersion(wanted).as_int()'),
    ("bad", T, P, 'parsed_version = PatchVersion("main" if args.patch_version else args.patch_version).as_int()'),
    ("bad", X, "        game_version = self.patch.version.as_int()\n        from .arenadata", "        game_version = (self.prev_patch or self.patch).version.as_int()\n        from .arenadata"),
    ("ok", X, ["        game_version = patch.version.as_int()\n", "\\.bin$'), game_version)", "stringtable)$'), game_version)"], ["", "\\.bin$'), patch.version.as_int())", "stringtable)$'), patch.version.as_int())"]),
    ("bad", A, "BinFile(map30_file, btype_version=self.game_version)", "BinFile(map30_file)"),
    ("bad", X, "        self.game_version = game_version\n", "        self.game_version = 1502\n"),
    ("bad", "storage.py", "return 9999 #", "return 0 #"),
]
