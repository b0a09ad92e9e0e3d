F = "hashes.py"
LOOT = "        for p in list(self.known.values()):\n            if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/'):\n                self.check(p.replace('.png', '_splash.png'))\n"
PRE = """                        try:
                            path = m.group(1).lower().decode('ascii')
                        except UnicodeDecodeError:
                            continue
                        if path.endswith('.lua'):"""
CASES = [
    ("bad", F, "for p in list(self.known.values()):", "for p in self.known.values():"),
    ("bad", F, LOOT, "        self.check_iter(p.replace('.png', '_splash.png') for p in self.known.values() if 'loot' in p)\n"),
    ("bad", F, LOOT, "        for p in filter(lambda p: 'loot' in p, self.known.values()):\n            self.check(p)\n"),
    ("bad", F, "        known = list(self.known.values())\n", "        known = self.known.values()\n"),
    ("bad", F, "        self.check_iter(value for value in list(values))", "        self.check_iter(f'2x_{p}' for p in self.known.values())"),
    ("bad", F, "for path in hashfile_lcu.load().values():", "for path in hashfile_game.load().values():"),
    ("bad", F, LOOT, "        for h in self.unknown:\n            self.check('%016x' % h)\n"),
    ("bad", F, "        for path in hashfile_game.load().values():\n            prefix", "        for path in self.hashfile.load().values():\n            prefix"),
    ("bad", F, "        formats = {langs_re.sub('{}', p) for p in self.known.values() if langs_re.search(p)}\n", "        formats = {langs_re.sub('{}', p) for p in self.known.values() if langs_re.search(p)}\n        [self.check(p) for p in self.known.values()]\n"),
    ("bad", F, PRE, "                        path = m.group(1).lower().decode('ascii')\n                        if path.endswith('.lua'):"),
    ("bad", F, PRE, PRE.replace("UnicodeDecodeError", "KeyError")),
    ("bad", F, PRE, PRE.replace("continue", "raise ValueError(path)")),
    ("bad", F, "subpath = m.group(1).lower().decode('ascii')", "subpath = m.group(1).lower().decode('ascii', 'strict')\n                            except IndexError:\n                                continue\n                            try:\n                                pass"),
    ("bad", F, "[0-9a-zA-Z_. /-]+', data)", "[^\"]+', data)"),
    ("bad", F, "                except UnicodeDecodeError:\n                    continue\n                if data:", "                except UnicodeEncodeError:\n                    continue\n                if data:"),
    ("bad", F, "elif isinstance(jdata, dict) and 'musicVolume'", "elif 'musicVolume'"),
    ("bad", F, "elif isinstance(jdata, dict) and 'recommendedItemDefaults' in jdata:", "elif 'recommendedItemDefaults' in jdata:"),
    ("bad", F, "elif isinstance(jdata, dict) and 'pluginDependencies' in jdata and 'name' in jdata:", "elif 'pluginDependencies' in jdata and isinstance(jdata, dict) and 'name' in jdata:"),
    ("bad", F, "elif isinstance(jdata, dict) and 'recommendedItemDefaults' in jdata:", "elif isinstance(jdata, (dict, list)) and 'recommendedItemDefaults' in jdata:"),
    ("bad", F, "                except (json.JSONDecodeError, UnicodeDecodeError):\n                    pass", "                except (UnicodeDecodeError):\n                    pass"),
    ("bad", F, "    return s.replace('%', '%%')", "    return s"),
    ("bad", F, "formats.add(f\"{escape_format(prefix)}%s{escape_format(ext)}\")", "formats.add(f\"{prefix}%s{escape_format(ext)}\")"),
    ("bad", F, "'%s', escape_format(p)))", "'%s', p))"),
    ("bad", F, "(escape_format(path[:m.start()]), fmt, escape_format(path[m.end():]))", "(path[:m.start()], fmt, path[m.end():])"),
    ("bad", F, "self.check(f\"{os.path.dirname(wadfile.path)}/{path}.preload\")", "self.check((os.path.dirname(wadfile.path) + '/%s.preload') % path)"),
    ("bad", F, "            m = re_suffix.search(p)\n            if not m:\n                continue\n", "            m = re_suffix.search(p)\n"),
    ("bad", F, "            m = regex.match(p)\n            if not m:\n                continue\n            char = m.group(1)\n            nskin", "            m = regex.match(p)\n            char = m.group(1)\n            nskin"),
    ("bad", F, " if (match := shader_pattern.match(path)) is not None}", " if (match := shader_pattern.match(path)) or 'x' in path}"),
    ("bad", F, "            if not m:\n                continue\n            char_name = m.group(1)", "            char_name = m.group(1)"),
    ("bad", F, "if pos >= 2:", "if pos >= 1:"),
    ("bad", F, "if n == 0 and pos >= 4:", "if n == 0:"),
    ("bad", F, "if n == 0 and pos >= 4:", "if n == 0 and pos > 2:"),
    ("bad", F, "                data = wad.read_file_data(f, wadfile)\n                if data is None:\n                    continue\n                if wadfile.ext in", "                data = wad.read_file_data(f, wadfile)\n                if wadfile.ext in"),
    ("bad", F, "                data = wad.read_file_data(f, wadfile)\n                if data is None:\n                    continue\n                try:", "                data = wad.read_file_data(f, wadfile)\n                try:"),
    ("bad", F, "                        elif wadfile.path:\n", "                        else:\n"),
    ("bad", F, "                    if wadfile.path:\n                        dirname = os.path.dirname(wadfile.path)\n                        for line", "                    if True:\n                        dirname = os.path.dirname(wadfile.path)\n                        for line"),
    ("ok", F, "if pos >= 2:", "if pos > 1:"),
    ("ok", F, "if n == 0 and pos >= 4:", "if pos >= 4 and not n:"),
    ("ok", F, "                    if wadfile.path:\n                        dirname = os.path.dirname(wadfile.path)\n                        for line", "                    if wadfile.path is not None:\n                        dirname = os.path.dirname(wadfile.path)\n                        for line"),
    ("ok", F, LOOT, "        loot = [p for p in self.known.values() if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/')]\n        for p in loot:\n            self.check(p.replace('.png', '_splash.png'))\n"),
    ("ok", F, LOOT, "        known = self.known.values()\n        known = sorted(known)\n        for p in known:\n            if p.startswith('plugins/rcp-fe-lol-loot/'):\n                self.check(p.replace('.png', '_splash.png'))\n"),
    ("ok", F, "        known = list(self.known.values())\n", "        known = tuple(self.hashfile.load().values())\n"),
    ("ok", F, "        paths = (p for p in self.known.values() if not re_filter.search(p))\n        super()._substitute_numbers(paths, nmax, digits)", "        def paths():\n            for p in self.known.values():\n                if not re_filter.search(p):\n                    yield p\n        super()._substitute_numbers(paths(), nmax, digits)"),
    ("ok", F, PRE, "                        try:\n                            path = str(m.group(1), 'ascii').lower()\n                        except ValueError:\n                            continue\n                        if path.endswith('.lua'):"),
    ("ok", F, PRE, "                        path = m.group(1).lower().decode('ascii', errors='replace')\n                        if path.endswith('.lua'):"),
    ("ok", F, PRE, "                        path = m.group(1)\n                        if not path.isascii():\n                            continue\n                        path = path.lower().decode('ascii')\n                        if path.endswith('.lua'):"),
    ("ok", F, "            if jdata is not None:\n", "            if not isinstance(jdata, (dict, list)):\n                jdata = None\n            if jdata is not None:\n"),
    ("ok", F, "    return s.replace('%', '%%')", "    return '%%'.join(s.split('%'))"),
    ("ok", F, "formats.add(f\"{escape_format(prefix)}%s{escape_format(ext)}\")", "formats.add(escape_format(prefix) + '%s' + escape_format(ext))"),
    ("ok", F, "formats.add('%s%s%s' % (escape_format(path[:m.start()]), fmt, escape_format(path[m.end():])))", "formats.add(''.join((escape_format(path[:m.start()]), fmt, escape_format(path[m.end():]))))"),
    ("ok", F, "            m = re_suffix.search(p)\n            if not m:\n                continue\n            prefix, suffix, ext = m.groups()\n            if suffix:\n                suffixes.add(suffix)\n            formats.add(f\"{escape_format(prefix)}%s{escape_format(ext)}\")", "            if m := re_suffix.search(p):\n                prefix, suffix, ext = m.groups()\n                if suffix:\n                    suffixes.add(suffix)\n                formats.add(f\"{escape_format(prefix)}%s{escape_format(ext)}\")"),
    ("bad", F, "        unknown = self.unknown\n        for p in paths:", "        unknown = set(self.unknown)\n        for p in paths:"),
    ("bad", F, "        unknown = self.unknown\n        for p in paths:", "        unknown = frozenset(u for u in self.unknown)\n        for p in paths:"),
    ("bad", F, "            if h in unknown:", "            if h not in self.known:"),
    ("bad", F, "        if h in self.unknown:\n            self._add_known(h, p)\n            return True\n        return h in self.known", "        if h in self.known:\n            return True\n        self._add_known(h, p)\n        return True"),
    ("ok", F, "            if h in unknown:\n                self._add_known(h, p)", "            if h not in unknown:\n                continue\n            self._add_known(h, p)"),
    ("ok", F, "        unknown = self.unknown\n        for p in paths:\n            h = xxh64_intdigest(p)\n            if h in unknown:", "        for p in paths:\n            h = xxh64_intdigest(p)\n            if h in self.unknown:"),
    ("ok", F, "        self.unknown.remove(h)", "        self.unknown.discard(h)"),
    ("ok", F, "        self.unknown.remove(h)", "        try:\n            self.unknown.remove(h)\n        except KeyError:\n            pass"),
    ("ok", F, "        h = xxh64_intdigest(p)\n        if h in self.unknown:\n            self._add_known(h, p)\n\n", "        self.check_iter([p])\n\n"),
    ("ok", F, "        unknown = self.unknown\n        for p in paths:\n            h = xxh64_intdigest(p)\n            if h in unknown:\n                self._add_known(h, p)", "        for p in paths:\n            self.check(p)"),
]
