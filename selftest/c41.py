T = "tftdata.py"
A = "arenadata.py"
O = "tools.py"
X = "export.py"
H = "hashes.py"
W = 'with open(os.path.join(output, f"{lang}.json"), "w", encoding="utf-8") as f:'
J = "                json_dump(instance, f, indent=4, sort_keys=True, ensure_ascii=False)\n"
CASES = [
    ("bad", T, W, W.replace(', encoding="utf-8"', "")),
    ("bad", A, W, W.replace('encoding="utf-8"', 'encoding="latin-1"')),
    ("ok", T, W, W.replace('encoding="utf-8"', 'encoding="UTF8"')),
    ("ok", A, [W, J], [W.replace(', encoding="utf-8"', ""), J.replace(", ensure_ascii=False", "")]),
    ("bad", O, "encoding=None if binary else 'utf-8'", "encoding=None"),
    ("bad", O, "encoding=None if binary else 'utf-8'", "encoding='utf-8' if binary else None"),
    ("bad", X, "json_dumps(binfile.to_serializable()).encode('ascii')", "json_dumps(binfile.to_serializable(), ensure_ascii=False).encode('ascii')"),
    ("ok", X, "json_dumps(binfile.to_serializable()).encode('ascii')", "json_dumps(binfile.to_serializable(), ensure_ascii=False).encode()"),
    ("bad", X, "json_dumps(binfile.to_serializable()).encode('ascii')", "json_dumps(binfile.to_serializable(), ensure_ascii=False).encode(sys.getdefaultencoding() if False else 'mbcs')"),
    ("bad", "__main__.py", "json_dump(binfile.to_serializable(), sys.stdout)", "json_dump(binfile.to_serializable(), sys.stdout, ensure_ascii=False)"),
    ("bad", X, """files.exported.txt"), 'w', newline='\\n', encoding='utf-8')""", """files.exported.txt"), 'w', newline='\\n')"""),
    ("bad", X, """files.links.txt"), 'w', newline='\\n', encoding='utf-8')""", """files.links.txt"), 'w', newline='\\n')"""),
    ("bad", H, "open(self.filename, encoding='utf-8')", "open(self.filename)"),
    ("bad", H, "open(self.filename, 'w', newline='', encoding='utf-8')", "open(self.filename, 'w', newline='')"),
    ("bad", H, "open(self.filename, encoding='utf-8')", "open(self.filename, encoding='ascii', errors='replace')"),
    ("bad", O, "    json_dumps = json.dumps\n", "    def json_dumps(obj, **kwargs):\n        return json.dumps(obj, ensure_ascii=False, **kwargs)\n") if False else ("bad", O, "        return ujson.dumps(obj, **kwargs, escape_forward_slashes=False)", "        return ujson.dumps(obj, **kwargs, escape_forward_slashes=False, ensure_ascii=False)"),
    ("ok", A, W + "\n" + J, "self.write(os.path.join(output, f\"{lang}.json\"), instance)\n\n    @staticmethod\n    def write(path, data):\n        with open(path, \"w\", encoding=\"utf-8\") as f:\n            json_dump(data, f, indent=4, sort_keys=True, ensure_ascii=False)\n"),
    ("bad", A, W + "\n" + J, "self.write(os.path.join(output, f\"{lang}.json\"), instance)\n\n    @staticmethod\n    def write(path, data):\n        with open(path, \"w\") as f:\n            json_dump(data, f, indent=4, sort_keys=True, ensure_ascii=False)\n"),
    ("ok", A, W + "\n" + J, "data = json_dumps(instance, indent=4, sort_keys=True, ensure_ascii=False)\n            with open(os.path.join(output, f\"{lang}.json\"), 'wb') as f:\n                f.write(data.encode('utf-8'))\n") if False else ("ok", H, "open(self.filename, 'w', newline='', encoding='utf-8')", "open(self.filename, mode='w', encoding='utf-8', newline='')"),
    ("bad", X, "        with write_file_or_remove(output_path + \".json\", False) as fout:\n            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)\n", "        os.makedirs(os.path.dirname(output_path), exist_ok=True)\n        with open(output_path + \".json\", 'w') as fout:\n            json_dump(self.parse_atlasinfo(fin), fout, ensure_ascii=False)\n"),
]
