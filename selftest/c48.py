T, A, O = "tftdata.py", "arenadata.py", "tools.py"
CASES = [
    # where
    ("bad", O, 'f"??_??/data/menu/en_us/{game}.stringtable"', '"??_??/data/menu/en_us/lol.stringtable"'),
    ("bad", O, '    if not lang_dict:\n        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main', '    if lang_dict:\n        lang_dict = {re.search(r"(.._..)/data/menu/en_us/main'),
    ("bad", O, '    if not lang_dict:\n        lang_dict = {re.search(r"data/menu/fontconfig', '    if True:\n        lang_dict = {re.search(r"data/menu/fontconfig'),
    ("bad", O, 'r"data/menu/main_(.._..)\\.stringtable$"', 'r"data/menu/main_(..)_..\\.stringtable$"'),
    ("bad", O, "re.search(r\"data/menu/fontconfig_(.._..)\\.txt$\", path.replace('\\\\', '/'))", "re.search(r\"data/menu/fontconfig_(.._..)\\.txt$\", path)"),
    ("bad", O, '"data/menu/main_??_??.stringtable"', '"data/menu/main_en_??.stringtable"'),
    ("bad", O, '"??_??/data/menu/en_us/main.stringtable"', '"??_??/data/menu/??_??/main.stringtables"'),
    ("bad", O, "    escaped_dir = glob.escape(base_dir)", "    escaped_dir = base_dir"),
    ("bad", O, '        raise RuntimeError("cannot find stringtable files")', '        return {}'),
    ("bad", O, '"data/menu/fontconfig_??_??.txt"', '"data/menu/fontconfig_*.txt"'),
    # reading
    ("bad", T, "        magic = f.read(3)\n        f.seek(0)\n", "        magic = f.read(3)\n"),
    ("bad", T, 'line.decode().rstrip("\\r\\n")', 'line.decode().rstrip("\\n")'),
    ("bad", T, 'line.split("=", 1)', 'line.rsplit("=", 1)'),
    ("bad", T, 'line.split("=", 1)', 'line.split("=")'),
    ("bad", T, 'val = val[2:-1]', 'val = val.strip(\' "\')'),
    ("bad", T, 'key = key[4:-2]', 'key = key[4:-1]'),
    ("bad", T, "                if line.startswith(b'tr \"'):", "                if b'tr \"' not in line:\n                    break\n                if line.startswith(b'tr \"'):"),
    ("bad", T, "                    translations[key] = val\n            return", "                    translations[val] = key\n            return"),
    # translating
    ("bad", T, '                for key in ("name", "desc"):', '                for key in ("name",):'),
    ("bad", T, '                    replace_list(champ_data["traits"])\n', ''),
    ("bad", T, '                    if "ability" in champ_data:\n                        replace_in_data(champ_data["ability"])\n', ''),
    ("bad", T, '            for set_data in instance["setData"]:\n                replace_set_data(set_data)\n', '            for set_data in instance["setData"][:1]:\n                replace_set_data(set_data)\n'),
    ("bad", T, '                    if key in entry and entry[key] in replacements:\n', '                    if key in entry:\n'),
    ("bad", T, '                    if key in entry and entry[key] in replacements:\n                        entry[key] = replacements[entry[key]]', '                    if key in entry:\n                        entry[key] = replacements.get(entry[key])'),
    ("bad", T, 'replacements.get(v, v) for v in l]', 'replacements[v] for v in l if v in replacements]'),
    ("bad", T, '            for data in instance["items"]:\n                replace_in_data(data)', '            for data in instance["items"]:\n                replace_in_data(data)\n                break'),
    ("bad", T, '                    replace_in_data(trait_data)\n', '                    replace_in_data(trait_data)\n                    if not trait_data["desc"]:\n                        return\n'),
    ("bad", T, '                l[:] = [replacements', '                l = [replacements'),
    ("bad", T, '        if langs is None:\n            langs = list(stringtables)', '        if langs is None:\n            langs = list(stringtables)[1:]'),
    ("bad", A, '("name", "desc", "tooltip")', '("name", "desc")'),
    ("bad", A, 'stringtable_paths(self.input_dir, "lol")', 'stringtable_paths(self.input_dir, "tft")'),
    ("bad", A, '            for augment in instance["augments"]:\n                replace_in_data(augment)', '            for augment in template["augments"]:\n                replace_in_data(augment)'),
    ("bad", T, '                for key in ("name", "desc"):\n                    if key in entry', '                for key in ("name", "desc", "apiName"):\n                    if key in entry'),
    # same behaviour
    ("ok", T, '                    if key in entry and entry[key] in replacements:\n                        entry[key] = replacements[entry[key]]', '                    if key in entry:\n                        entry[key] = replacements.get(entry[key], entry[key])'),
    ("ok", T, '                l[:] = [replacements.get(v, v) for v in l]', '                for n, v in enumerate(l):\n                    l[n] = replacements.get(v, v)'),
    ("ok", T, '                for key in ("name", "desc"):\n                    if key in entry and entry[key] in replacements:\n                        entry[key] = replacements[entry[key]]', '                for key in ("name", "desc"):\n                    if key not in entry or entry[key] not in replacements:\n                        continue\n                    entry[key] = replacements[entry[key]]'),
    ("ok", T, '            for set_data in instance["sets"].values():\n                replace_set_data(set_data)\n            for set_data in instance["setData"]:\n                replace_set_data(set_data)\n', '            for set_data in [*instance["sets"].values(), *instance["setData"]]:\n                replace_set_data(set_data)\n'),
    ("ok", T, '            for line in f:\n                if line.startswith(b\'tr "\'):\n                    line = line.decode().rstrip("\\r\\n")\n', '            for line in f:\n                if not line.startswith(b\'tr "\'):\n                    continue\n                if line:\n                    line = line.decode().rstrip("\\r\\n")\n'),
    ("ok", T, '                    key = key[4:-2]\n                    val = val[2:-1]\n                    translations[key] = val', '                    translations[key[4:-2]] = val[2:-1]'),
    ("ok", T, '            translations = {}\n            for line in f:\n', '            translations = dict()\n            for line in f.readlines():\n'),
    ("ok", T, '                    key, val = line.split("=", 1)', '                    key, _, val = line.partition("=")'),
    ("ok", O, '    if lang_dict:\n        return lang_dict\n    else:\n        raise RuntimeError("cannot find stringtable files")', '    if not lang_dict:\n        raise RuntimeError("cannot find stringtable files")\n    return lang_dict'),
    ("ok", O, 'glob.glob(os.path.join(escaped_dir, "data/menu/fontconfig_??_??.txt"))', 'sorted(glob.glob(os.path.join(escaped_dir, "data", "menu", "fontconfig_??_??.txt")))'),
    ("ok", A, '            for augment in instance["augments"]:\n                replace_in_data(augment)', '            augments = instance["augments"]\n            for augment in augments:\n                replace_in_data(augment)'),
]
