P, B, R, S = "patcher.py", "binfile.py", "rstfile.py", "sknfile.py"
CASES = [
    ("bad", P, "with open(path_or_f, \"rb\") as f:", "with open(path_or_f) as f:"),
    ("bad", P, "                self.parse_rman(path_or_f)", "                self.parse_body(BinaryParser(path_or_f))"),
    ("bad", P, "            else:\n                self.parse_rman(path_or_f)", ""),
    ("bad", P, "                with open(path_or_f, \"rb\") as f:\n                    self.parse_rman(f)", "                with open(path_or_f, \"rb\") as f:\n                    pass\n                self.parse_rman(f)"),
    ("bad", R, "            else:\n                self.parse_rst(path_or_f)", "            else:\n                path_or_f.seek(0, 2)\n                self.parse_rst(path_or_f)"),
    ("bad", R, "            if isinstance(path_or_f, str):\n                with open(path_or_f, \"rb\") as f:\n                    self.parse_rst(f)\n            else:\n                self.parse_rst(path_or_f)", "            self.parse_rst(path_or_f)"),
    ("bad", R, "                    self.parse_rst(f)\n", "                    self.game_version = 1502\n                    self.parse_rst(f)\n"),
    ("bad", B, "f = open(f, 'rb')\n        magic = f.read(4)", "f = open(f, 'rb')\n            f.read(1)\n        magic = f.read(4)"),
    ("bad", B, "            f = open(f, 'rb')\n", "            f = open(f, 'r')\n"),
    ("bad", B, "f = open(f, 'rb')\n        magic = f.read(4)", "f = open(f, 'rb')\n            magic = f.read(4)\n        else:\n            magic = f.read(8)[4:]"),
    ("bad", B, "        if isinstance(f, str):\n            f = open(f, 'rb')\n", "        if isinstance(f, str):\n            with open(f, 'rb') as f:\n                pass\n"),
    ("bad", S, "file = open(file, \"rb\")", "file = open(file + \".skn\", \"rb\")"),
    ("bad", S, "        if isinstance(file, str):\n            file = open(file, \"rb\")\n", ""),
    ("ok", P, "            if isinstance(path_or_f, str):\n                with open(path_or_f, \"rb\") as f:\n                    self.parse_rman(f)\n            else:\n                self.parse_rman(path_or_f)", "            f = open(path_or_f, mode=\"rb\") if isinstance(path_or_f, str) else path_or_f\n            self.parse_rman(f)"),
    ("ok", R, "            if isinstance(path_or_f, str):\n                with open(path_or_f, \"rb\") as f:\n                    self.parse_rst(f)\n            else:\n                self.parse_rst(path_or_f)", "            if not isinstance(path_or_f, str):\n                self.parse_rst(path_or_f)\n                return\n            f = open(path_or_f, \"rb\")\n            try:\n                self.parse_rst(f)\n            finally:\n                f.close()"),
    ("ok", B, "        if isinstance(f, str):\n            f = open(f, 'rb')\n        magic = f.read(4)", "        if isinstance(f, str):\n            path = f\n            f = open(path, 'rb')\n        magic = f.read(4)"),
    ("ok", S, "        if isinstance(file, str):\n            file = open(file, \"rb\")\n        if file.read(4) != b\"\\x33\\x22\\x11\\x00\":", "        opened = open(file, \"rb\") if isinstance(file, str) else file\n        file = opened\n        magic = file.read(4)\n        if magic != b\"\\x33\\x22\\x11\\x00\":"),
    ("ok", R, "            if isinstance(path_or_f, str):\n                with open(path_or_f, \"rb\") as f:\n                    self.parse_rst(f)\n            else:\n                self.parse_rst(path_or_f)", "            self._load(path_or_f)\n\n    def _load(self, source):\n        if isinstance(source, str):\n            with open(source, \"rb\") as f:\n                self.parse_rst(f)\n        else:\n            self.parse_rst(source)"),
]
