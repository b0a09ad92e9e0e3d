T = "tftdata.py"
A = "arenadata.py"
O = "tools.py"
D = "            instance = copy.deepcopy(template)\n"
L = "            replacements = load_translations(stringtables[lang], self.game_version)\n"
R = "            replacements = RstFile(stringtables[lang], self.game_version)\n"
FOR = "        for lang in langs:\n"
CASES = [
    ("bad", T, D, "            instance = template\n"),
    ("bad", T, D, "            instance = template.copy()\n"),
    ("bad", T, D, "            instance = copy.copy(template)\n"),
    ("bad", T, D, "            instance = dict(template)\n"),
    ("bad", T, [D, FOR], ["", "        instance = copy.deepcopy(template)\n" + FOR]),
    ("ok", T, ["        template = self.build_template()\n", D], ["", "            instance = self.build_template()\n"]),
    ("bad", A, D, "            instance = {'augments': [dict(a) for a in template['augments']]} if len(langs) > 1 else template\n") if False else ("bad", A, D, "            instance = copy.deepcopy(template) if lang == 'en_us' else template\n"),
    ("bad", T, [L, FOR], ["            replacements.update(load_translations(stringtables[lang], self.game_version))\n", "        replacements = {}\n" + FOR]),
    ("bad", A, [R, FOR], ["", "        replacements = RstFile(stringtables[langs[0]], self.game_version)\n" + FOR]),
    ("bad", T, "stringtables[lang], self.game_version", "stringtables.get(lang, stringtables['en_us']), self.game_version") if False else ("bad", T, "load_translations(stringtables[lang], ", "load_translations(stringtables[langs[0]], "),
    ("bad", T, 'f"{lang}.json"', 'f"{langs[0]}.json"'),
    ("bad", A, 'f"{lang}.json"', 'f"{lang[:2]}.json"'),
    ("ok", T, 'os.path.join(output, f"{lang}.json")', 'output + "/" + lang + ".json"'),
    ("bad", O, "(.._..)/data/menu/en_us/main\\.stringtable$\", path.replace('\\\\', '/')).group(1)", ".._../data/menu/(.._..)/main\\.stringtable$\", path.replace('\\\\', '/')).group(1)"),
    ("bad", O, "data/menu/main_(.._..)\\.stringtable$\"", "(.._..).*\\.stringtable$\""),
    ("bad", "rstfile.py", ["        self.entries = {}\n", "class RstFile:\n"], ["", "class RstFile:\n    entries = {}\n"]),
    ("bad", T, ["def load_translations(path, game_version=1502):", "            translations = {}\n"], ["def load_translations(path, game_version=1502, translations={}):", ""]),
    ("bad", T, ["def load_translations(path, game_version=1502):", "            translations = {}\n"], ["_translations = {}\n\ndef load_translations(path, game_version=1502):", "            translations = _translations\n"]),
    ("ok", T, ["            def replace_in_data(entry):\n                for key in (\"name\", \"desc\"):\n                    if key in entry and entry[key] in replacements:\n                        entry[key] = replacements[entry[key]]\n"],
     ["            def replace_in_data(entry):\n                for key in (\"name\", \"desc\"):\n                    if key not in entry:\n                        continue\n                    value = entry[key]\n                    entry[key] = replacements.get(value, value)\n"]),
    ("ok", A, [D, R, FOR], ["", "", "        for lang, path in stringtables.items():\n            if lang not in langs:\n                continue\n            instance = copy.deepcopy(template)\n            replacements = RstFile(path, self.game_version)\n"]),
    ("ok", T, "            for data in instance[\"items\"]:\n                replace_in_data(data)\n", "            items = instance['items']\n            for n in range(len(items)):\n                replace_in_data(items[n])\n"),
    ("bad", T, "            for data in instance[\"items\"]:\n", "            for data in template[\"items\"]:\n"),
    ("ok", A, "            for augment in instance[\"augments\"]:\n                replace_in_data(augment)\n\n            with open(os.path.join(output, f\"{lang}.json\"), \"w\", encoding=\"utf-8\") as f:\n                json_dump(instance, f, indent=4, sort_keys=True, ensure_ascii=False)\n",
     "            for augment in instance[\"augments\"]:\n                replace_in_data(augment)\n            self.write(output, lang, instance)\n\n    def write(self, output, lang, data):\n        path = os.path.join(output, f\"{lang}.json\")\n        with open(path, \"w\", encoding=\"utf-8\") as f:\n            json_dump(data, f, indent=4, sort_keys=True, ensure_ascii=False)\n"),
]
