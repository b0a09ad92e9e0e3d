R, X = "rstfile.py", "export.py"
CASES = [
    ("bad", R, "        for _ in range(count):\n            v, = parser.unpack", "        for _ in range(count - 1):\n            v, = parser.unpack"),
    ("bad", R, "size = int.from_bytes(data[i+1:][:2], 'little')", "size = int.from_bytes(data[i+1:][:2], 'big')"),
    ("bad", R, "d = b64encode(data[i+3:][:size])", "d = b64encode(data[i+3:][:size-1])"),
    ("bad", R, "d = b64encode(data[i+3:][:size])", "d = b64encode(data[i+3:data.find(b\"\\0\", i+3)])"),
    ("bad", R, "if has_trenc and data[i] == 0xFF:", "if data[i] == 0xFF:"),
    ("bad", R, "if has_trenc and data[i] == 0xFF:", "if has_trenc:"),
    ("bad", R, "if version < 5:", "if version < 4:"),
    ("bad", R, "if version < 5:", "if version <= 5:"),
    ("bad", R, "if self.game_version >= 1502:", "if self.game_version > 1502:"),
    ("bad", R, "self.hash_bits = 39", "self.hash_bits = 40"),
    ("bad", R, 'end = data.find(b"\\0", i)', 'end = data.find(b"\\n", i)'),
    ("bad", R, 'end = data.find(b"\\0", i)', 'end = data.find(b"\\0")'),
    ("bad", R, "                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace')", "                d = data[i:end]\n                self.entries[h] = d.decode('utf-8')"),
    ("bad", R, "                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace')", "                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'ignore')"),
    ("bad", R, "                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace')", "                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace').strip()"),
    ("bad", R, "elif version in (4, 5):", "elif version in (4, 5, 6):"),
    ("bad", R, "elif version in (4, 5):", "elif version == 5:"),
    ("bad", R, "if magic != b'RST':", "if magic.upper() != b'RST':"),
    ("bad", R, "        self.version = version\n", ""),
    ("bad", X, "bits=rstfile.hash_bits", "bits=40"),
    ("bad", X, 'key = f"{{{key:010x}}}"', 'key = f"{{{key:x}}}"'),
    ("bad", X, 'rst_json = {"entries": {}, "version": rstfile.version}', 'rst_json = {"entries": {}}'),
    ("bad", X, '            rst_json["entries"][key] = value', '                continue\n            rst_json["entries"][key] = value'),
    ("bad", X, '            rst_json["entries"][key] = value', '            rst_json["entries"].setdefault(value, key)'),
    ("bad", X, "        except ValueError as e:\n            raise FileConversionError(f\"failed to parse rst file: {e}\")", "        except KeyError as e:\n            raise FileConversionError(f\"failed to parse rst file: {e}\")"),
    ("bad", X, "f'{{{atlas_hash:016x}}}' for", "f'{{{atlas_hash:08x}}}' for"),
    ("bad", X, "convert_cdragon_path(hashes[atlas_hash])", "hashes[atlas_hash]"),
    ("bad", X, "texture_path = hashes.get(texture_hash, f'{{{texture_hash:016x}}}')", "texture_path = hashes.get(texture_hash)"),
    ("bad", X, "texture_path = hashes.get(texture_hash, f'{{{texture_hash:016x}}}')", "texture_path = convert_cdragon_path(hashes.get(texture_hash, f'{{{texture_hash:016x}}}'))"),
    ("bad", X, '                atlas_info[texture_name] = {"atlasPath": atlas_paths[atlas_index], "startX": startX, "startY": startY', '                atlas_info[texture_name] = {"atlasPath": atlas_paths[atlas_index], "startX": startY, "startY": startX'),
    ("bad", X, '                atlas_info[texture_path] = {"atlasPath": atlas_paths[atlas_index]', '                atlas_info[texture_path] = {"atlasPath": atlas_paths[0]'),
    ("bad", X, "[convert_cdragon_path(parser.unpack_string()) for _ in range(atlas_count)]", "sorted(convert_cdragon_path(parser.unpack_string()) for _ in range(atlas_count))"),
    ("bad", X, '"prestige": flag == 4', '"prestige": flag >= 4'),
    ("bad", X, '"prestige": flag == 4', '"prestige": flag & 4 != 0'),
    ("bad", X, 'skins[id] = {"name"', 'skins[len(skins)] = {"name"'),
    ("bad", X, "            skin_info[champion_name] = skins", "            if skins:\n                skin_info[champion_name] = skins"),
    ("bad", X, "            skin_info[champion_name] = skins", "            skin_info[champion_name.lower()] = skins"),
    ("bad", X, "        if version != 2:\n            raise FileConversionError", "        if version < 2:\n            raise FileConversionError"),
    ("bad", X, 'if magic != b"mahC":', 'if magic not in (b"mahC", b"CHAM"):'),
    ("bad", X, "        for _ in range(nchampions):\n            champion_name = parser.unpack_string()\n            nskins, = parser.unpack(\"<L\")\n            skins = {}\n", "        skins = {}\n        for _ in range(nchampions):\n            champion_name = parser.unpack_string()\n            nskins, = parser.unpack(\"<L\")\n"),
    # the same written otherwise
    ("ok", X, '''            if key in hashes:
                key = hashes[key]
            else:
                key = f"{{{key:010x}}}"
            rst_json["entries"][key] = value''', '''            rst_json["entries"][hashes.get(key, f"{{{key:010x}}}")] = value'''),
    ("ok", X, '''        rst_json = {"entries": {}, "version": rstfile.version}
        for key, value in rstfile.entries.items():
            if key in hashes:
                key = hashes[key]
            else:
                key = f"{{{key:010x}}}"
            rst_json["entries"][key] = value
''', '''        entries = {hashes.get(key, "{%010x}" % key): value for key, value in rstfile.entries.items()}
        rst_json = {"entries": entries, "version": rstfile.version}
'''),
    ("ok", X, '''        hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}
''', '''        hashes = {}
        for known, text in self.hashes.items():
            hashes[key_to_rsthash(known, rstfile.hash_bits)] = text
'''),
    ("ok", X, '''            for _ in range(nskins):
                id, = parser.unpack("<L")
                flag, = parser.unpack("B")
''', '''            for _ in range(nskins):
                id, flag = parser.unpack("<LB")
'''),
    ("ok", X, '''            skins = {}
            for _ in range(nskins):
                id, = parser.unpack("<L")
                flag, = parser.unpack("B")
                skin_name = parser.unpack_string()
                skins[id] = {"name": skin_name, "prestige": flag == 4}

            skin_info[champion_name] = skins
''', '''            skins = skin_info[champion_name] = {}
            for _ in range(nskins):
                id, = parser.unpack("<L")
                flag, = parser.unpack("B")
                skin = {"name": parser.unpack_string()}
                skin["prestige"] = flag == 4
                skins[id] = skin
'''),
    ("ok", X, '''            atlas_hashes = [parser.unpack("<Q")[0] for _ in range(atlas_count)]
''', '''            atlas_hashes = list(parser.unpack(f"<{atlas_count}Q"))
'''),
    ("ok", R, '''        entries = []
        for _ in range(count):
            v, = parser.unpack("<Q")
            entries.append((v >> self.hash_bits, v & hash_mask))
''', '''        values = [parser.unpack("<Q")[0] for _ in range(count)]
        entries = [(v >> self.hash_bits, v & hash_mask) for v in values]
'''),
    ("ok", R, '''                size = int.from_bytes(data[i+1:][:2], 'little')
                d = b64encode(data[i+3:][:size])
                self.entries[h] = d.decode('utf-8', 'replace')
            else:
                end = data.find(b"\\0", i)
                d = data[i:end]
                self.entries[h] = d.decode('utf-8', 'replace')''', '''                size = int.from_bytes(data[i+1:i+3], 'little')
                d = b64encode(data[i+3:i+3+size])
            else:
                d = data[i:data.index(b"\\0", i)]
            self.entries[h] = d.decode('utf-8', 'replace')'''),
]
