F = "patcher.py"
CASES = [
    ("bad", F, "        if magic != b'RMAN':\n            raise ValueError(\"invalid magic code\")\n", ""),
    ("bad", F, "not in ((2, 0), (2, 1))", "not in ((2, 0), (2, 1), (2, 2))"),
    ("bad", F, "not in ((2, 0), (2, 1))", "not in ((2, 0),)"),
    ("bad", F, "if (version_major, version_minor) not in ((2, 0), (2, 1)):", "if version_major < 2:"),
    ("bad", F, "        parser.skip(n)\n\n        # offsets", "\n        # offsets"),
    ("bad", F, "offsets_base + 4*i + v", "offsets_base + v"),
    ("bad", F, "parser.seek(offsets[2])", "pass"),
    ("bad", F, "for name, did, parent in self._parse_table(parser, self._parse_directory)}", "for name, parent, did in self._parse_table(parser, self._parse_directory)}"),
    ("bad", F, "            while dir_id is not None:", "            if dir_id is not None:"),
    ("bad", F, "            while dir_id is not None:", "            while dir_id in directories:"),
    ("bad", F, "name = f\"{dir_name}/{name}\"", "name = f\"{name}/{dir_name}\""),
    ("bad", F, "            if flag_ids is not None:", "            if flag_ids is None:"),
    ("bad", F, "flags = [self.flags[i] for i in flag_ids]", "flags = [self.flags[i] for i in flag_ids if i in self.flags]"),
    ("bad", F, "flags = [self.flags[i] for i in flag_ids]", "flags = [self.flags.get(i) for i in flag_ids]"),
    ("bad", F, "file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids]", "file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids if chunk_id in self.chunks]"),
    ("bad", F, "file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids]", "file_chunks = [self.chunks[chunk_id] for chunk_id in dict.fromkeys(chunk_ids)]"),
    ("bad", F, "            parser.seek(pos + 4)\n", "            parser.skip(4)\n"),
    ("bad", F, "            parser.seek(pos + offset)\n            yield", "            parser.skip(offset)\n            yield"),
    ("bad", F, "parser.unpack('<xxxBl')", "parser.unpack('<Bxxxl')"),
    ("bad", F, "flag_id, offset, = parser.unpack('<xxxBl')\n        parser.skip(offset - 4)", "flag_id, offset, = parser.unpack('<xxxBl')\n        parser.skip(offset)"),
    ("bad", F, "[i+1 for i in range(64) if", "[i+1 for i in range(32) if"),
    ("bad", F, "[i+1 for i in range(64) if", "[i for i in range(64) if"),
    ("bad", F, "            ('flags', '<Q'),", "            ('flags', '<L'),"),
    ("bad", F, "            ('file_size', '<L'),", "            ('file_size', '<l'),"),
    ("bad", F, "            ('directory_id', '<Q'),\n            ('parent_id', '<Q'),", "            ('parent_id', '<Q'),\n            ('directory_id', '<Q'),"),
    ("bad", F, "            ('chunks', 'offset'),\n            None,\n", "            None,\n            ('chunks', 'offset'),\n"),
    ("bad", F, "noffsets = (vtable_size - 4) // 2", "noffsets = vtable_size // 2"),
    ("bad", F, "if i >= noffsets or (offset := offsets[i]) == 0 or fmt is None:", "if (offset := offsets[i]) == 0 or fmt is None:"),
    ("bad", F, "if i >= noffsets or (offset := offsets[i]) == 0 or fmt is None:", "if i >= noffsets or (offset := offsets[i]) is None or fmt is None:"),
    ("bad", F, "            if field is None:\n                continue\n", "            if field is None:\n                break\n"),
    ("bad", F, "fields_pos = entry_pos - parser.unpack('<l')[0]", "fields_pos = entry_pos - parser.unpack('<L')[0]"),
    ("bad", F, "value = pos + parser.unpack('<l')[0]", "value = entry_pos + parser.unpack('<l')[0]"),
    ("bad", F, "                    parser.seek(pos + value)\n", "                    parser.skip(value)\n"),
    ("bad", F, "assert flags & (1 << 9)  # other flags not handled", "pass"),
    ("bad", "tools.py", "return self.f.read(self.unpack('<L')[0]).decode('utf-8')", "return self.f.read(self.unpack('<L')[0]).decode('latin-1')"),
    ("bad", "tools.py", "        self.f.seek(position, 0)", "        self.f.seek(position, 1)"),
    ("bad", F, "io.BytesIO(zstd_decompress(parser.raw(length)))", "io.BytesIO(zstd_decompress(parser.raw(length - 1)))"),
    ("bad", F, "            flag_ids = [i+1 for i in range(64) if flag_mask & (1 << i)]\n        else:\n            flag_ids = None", "            flag_ids = [i+1 for i in range(64) if flag_mask & (1 << i)]\n        else:\n            flag_ids = []"),
    ("und", F, "            while dir_id is not None:\n                dir_name, dir_id = directories[dir_id]\n                name = f\"{dir_name}/{name}\"", "            parts = [name]\n            while dir_id is not None:\n                dir_name, dir_id = directories[dir_id]\n                parts.insert(0, dir_name)\n            name = '/'.join(parts)"),
    ("ok", F, "            while dir_id is not None:\n                dir_name, dir_id = directories[dir_id]\n", "            while True:\n                if dir_id is None:\n                    break\n                dir_name, dir_id = directories[dir_id]\n"),
    ("ok", F, "            if flag_ids is not None:\n                flags = [self.flags[i] for i in flag_ids]\n            else:\n                flags = None\n", "            flags = None if flag_ids is None else [self.flags[i] for i in flag_ids]\n"),
    ("ok", F, "        self.chunks = {chunk.chunk_id: chunk for bundle in self.bundles for chunk in bundle.chunks}\n", "        self.chunks = {}\n        for bundle in self.bundles:\n            for chunk in bundle.chunks:\n                self.chunks[chunk.chunk_id] = chunk\n"),
    ("ok", F, "        assert flags & (1 << 9)  # other flags not handled\n", "        if not flags & 0x200:\n            raise ValueError('unsupported flags')\n"),
    ("ok", F, "        directories = {did: (name, parent) for name, did, parent in self._parse_table(parser, self._parse_directory)}\n", "        directories = {}\n        for name, did, parent in self._parse_table(parser, self._parse_directory):\n            directories[did] = (name, parent)\n"),
    ("ok", F, "        offsets = list(offsets_base + 4*i + v for i, v in enumerate(parser.unpack('<6l')))\n", "        offsets = []\n        for i in range(6):\n            v, = parser.unpack('<l')\n            offsets.append(offsets_base + 4*i + v)\n"),
    ("ok", F, "        for _ in range(count):\n            pos = parser.tell()\n            offset, = parser.unpack('<l')\n            parser.seek(pos + offset)\n            yield entry_parser(parser)\n            parser.seek(pos + 4)\n", "        start = parser.tell()\n        for i in range(count):\n            parser.seek(start + 4 * i)\n            offset, = parser.unpack('<l')\n            parser.seek(start + 4 * i + offset)\n            yield entry_parser(parser)\n"),
    ("ok", F, "            flag_ids = [i+1 for i in range(64) if flag_mask & (1 << i)]\n", "            flag_ids = []\n            for i in range(1, 65):\n                if flag_mask & (1 << (i - 1)):\n                    flag_ids.append(i)\n"),
]
