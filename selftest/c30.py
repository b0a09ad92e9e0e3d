R="rstfile.py"; E="export.py"
CASES=[
("bad",R,"        self.hash_bits = 40","        self.hash_bits = 39"),
("bad",R,"            self.hash_bits = 39\n","            self.hash_bits = 40\n"),
("bad",R,"                self.hash_bits = 38","                self.hash_bits = 39"),
("bad",R,">= 1502:",">= 1501:"),
("bad",R,">= 1502:","> 1502:"),
("bad",R,"            self.hash_bits = 39\n            if self.game","            if version == 4:\n                self.hash_bits = 39\n            if self.game"),
("bad",R,"hash_mask = (1 << self.hash_bits) - 1","hash_mask = (1 << 40) - 1"),
("bad",R,"hash_mask = (1 << self.hash_bits) - 1","hash_mask = (2 << self.hash_bits) - 1"),
("bad",R,"(v >> self.hash_bits, v & hash_mask)","(v >> 40, v & hash_mask)"),
("bad",R,"            d = data[i:end]","            d = data[i+1-1:end]".replace("i+1-1","i & 0xffff")),
("bad",R,"    return key & ((1 << bits) - 1)","    return key & ((1 << 40) - 1)"),
("bad",R,"    return key & ((1 << bits) - 1)","    return key"),
("bad",R,"    def __contains__(self, key):\n        try:\n            h = key_to_hash(key, self.hash_bits, self.game_version)","    def __contains__(self, key):\n        try:\n            h = key_to_hash(key, self.hash_bits)"),
("bad",R,"    def __getitem__(self, key):\n        try:\n            h = key_to_hash(key, self.hash_bits, self.game_version)","    def __getitem__(self, key):\n        try:\n            h = key_to_hash(key, rsthash_version=self.game_version)"),
("bad",R,"        if rsthash_version >= 1415:","        if rsthash_version > 1415:"),
("bad",R,"    if game_version >= 1415:\n        return hashfile_rst_xxh3","    if game_version >= 1502:\n        return hashfile_rst_xxh3"),
("bad",R,"key = xxh64_intdigest(key.lower())","key = xxh64_intdigest(key)"),
("bad",R,"hashfile_rst_xxh64 = HashFile(default_hash_dir / \"hashes.rst.xxh64.txt\"","hashfile_rst_xxh64 = HashFile(default_hash_dir / \"hashes.rst.xxh3.txt\""),
("bad",R,"        if magic != b'RST':\n            raise ValueError(\"invalid magic code\")\n",""),
("bad",R,"elif version in (4, 5):","elif version in (4, 5, 6):"),
("bad",R,"elif version in (4, 5):","elif version >= 4:"),
("bad",R,"elif version in (4, 5):","elif version in (4,):"),
("bad",R,"        else:\n            raise ValueError(f\"unsupported RST version: {version}\")\n",""),
("bad",R,"        if version < 5:\n            has","        if version <= 5:\n            has"),
("bad",R,"        elif version == 3:\n            pass","        elif version == 3:\n            parser.skip(1)"),
("bad",R,"            if parser.unpack(\"<B\")[0]:\n                n","            if parser.unpack(\"<B\")[0] == 0:\n                n"),
("bad",R,"        self.game_version = game_version\n","        self.game_version = 1502\n"),
("bad",E,"bits=rstfile.hash_bits","bits=40"),
("bad",E,"key_to_rsthash(hash, bits=rstfile.hash_bits)","hash"),
("bad",E,"get_rsthashfile(game_version).load()","get_rsthashfile().load()"),
("bad",E,"RstFile(output_path, self.game_version)","RstFile(output_path)"),
("bad",E,"RstConverter(re.compile(r'game/(?:.*/)?data/menu/.*\\.(txt|stringtable)$'), game_version)","RstConverter(re.compile(r'game/(?:.*/)?data/menu/.*\\.(txt|stringtable)$'))"),
("bad","arenadata.py","RstFile(stringtables[lang], self.game_version)","RstFile(stringtables[lang])"),
("bad","tftdata.py","return RstFile(f, game_version)","return RstFile(f)"),
("ok",R,"            self.hash_bits = 39\n            if self.game_version >= 1502:\n                self.hash_bits = 38\n","            self.hash_bits = 38 if self.game_version >= 1502 else 39\n"),
("ok",R,"(v >> self.hash_bits, v & hash_mask)","(v >> self.hash_bits, v % (1 << self.hash_bits))"),
("ok",R,"            v, = parser.unpack(\"<Q\")\n            entries.append((v >> self.hash_bits, v & hash_mask))","            v = parser.unpack(\"<Q\")[0]\n            offset, key = divmod(v, 1 << self.hash_bits)\n            entries.append((offset, key))"),
("ok",R,"        magic, version = parser.unpack(\"<3sB\")\n        if magic != b'RST':","        header = parser.raw(4)\n        version = header[3]\n        if header[:3] != b'RST':"),
("ok",R,"        magic, version = parser.unpack(\"<3sB\")\n        if magic != b'RST':","        magic = parser.raw(3)\n        version, = parser.unpack(\"<B\")\n        if magic != b'RST':"),
("ok",R,"        elif version == 3:\n            pass\n","        elif version == 3:\n            self.hash_bits = 40\n"),
("ok",R,"        entries = []\n        for _ in range(count):\n            v, = parser.unpack(\"<Q\")\n            entries.append((v >> self.hash_bits, v & hash_mask))","        values = [parser.unpack(\"<Q\")[0] for _ in range(count)]\n        entries = [(v >> self.hash_bits, v & hash_mask) for v in values]"),
("ok",R,"    return key & ((1 << bits) - 1)","    mask = 2**bits - 1\n    return key & mask"),
("ok",R,"            h = key_to_hash(key, self.hash_bits, self.game_version)\n            return self.entries[h]","            return self.entries[key_to_hash(key, bits=self.hash_bits, rsthash_version=self.game_version)]"),
("ok",R,"        if rsthash_version >= 1415:\n            key = xxh3_64_intdigest(key.lower())\n        else:\n            key = xxh64_intdigest(key.lower())","        digest = xxh3_64_intdigest if rsthash_version >= 1415 else xxh64_intdigest\n        key = digest(key.lower())"),
("ok",R,"            if has_trenc and data[i] == 0xFF:","            trenc = has_trenc and data[i] == 0xFF\n            if trenc:"),
("ok",E,"        hashes = {key_to_rsthash(hash, bits=rstfile.hash_bits): value for hash, value in self.hashes.items()}","        hashes = {}\n        for hash, value in self.hashes.items():\n            hashes[hash & ((1 << rstfile.hash_bits) - 1)] = value"),
("ok",E,"            if key in hashes:\n                key = hashes[key]\n            else:\n                key = f\"{{{key:010x}}}\"\n            rst_json","            key = hashes.get(key, f\"{{{key:010x}}}\")\n            rst_json"),
("ok",E,"        self.hashes = get_rsthashfile(game_version).load()\n        self.game_version = game_version","        self.game_version = game_version\n        self.hashes = get_rsthashfile(self.game_version).load()"),
("ok",R,"        if magic != b'RST':\n            raise ValueError(\"invalid magic code\")\n","        if magic != b'RST' or version not in (2, 3, 4, 5):\n            raise ValueError(\"invalid header\")\n"),
("ok",R,"            if isinstance(path_or_f, str):\n                with open(path_or_f, \"rb\") as f:\n                    self.parse_rst(f)\n            else:\n                self.parse_rst(path_or_f)","            if hasattr(path_or_f, 'read'):\n                self.parse_rst(path_or_f)\n            else:\n                with open(path_or_f, \"rb\") as f:\n                    self.parse_rst(f)"),
("bad",R,"size = int.from_bytes(data[i+1:][:2], 'little')","size = int.from_bytes(data[i+1:][:2], 'big')"),
("bad",R,"size = int.from_bytes(data[i+1:][:2], 'little')","size = data[i+1]"),
("bad",R,"b64encode(data[i+3:][:size])","b64encode(data[i+2:][:size])"),
("bad",R,"b64encode(data[i+3:][:size])","b64encode(data[i+3:size])"),
("bad",R,"            if has_trenc and data[i] == 0xFF:","            if data[i] == 0xFF:"),
("bad",R,"            if has_trenc and data[i] == 0xFF:","            if has_trenc:"),
("bad",R,"                self.entries[h] = d.decode('utf-8', 'replace')\n            else","                self.entries[h] = d.decode('utf-8', 'replace').rstrip('=')\n            else"),
("bad",R,"                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace')","                d = data[i:end]\n                self.entries[h] = d.decode('utf-8')"),
("bad",R,"                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace')","                d = data[i:end]\n                self.entries[h] = d.decode('latin-1')"),
("bad",R,"                d = data[i:end]\n","                d = data[i:end+1]\n"),
("bad",R,"data.find(b\"\\0\", i)","data.find(b\"\\0\")"),
("ok",R,"size = int.from_bytes(data[i+1:][:2], 'little')","size = data[i+1] | data[i+2] << 8"),
("ok",R,["from base64 import b64encode\n","size = int.from_bytes(data[i+1:][:2], 'little')"],["import struct\nfrom base64 import b64encode\n","size, = struct.unpack_from('<H', data, i + 1)"]),
("ok",R,"                end = data.find(b\"\\0\", i)\n                d = data[i:end]\n","                d = data[i:].split(b\"\\0\", 1)[0]\n"),
("ok",R,"                end = data.find(b\"\\0\", i)\n                d = data[i:end]\n","                d = data[i:data.index(b\"\\0\", i)]\n"),
("ok",R,"d.decode('utf-8', 'replace')\n            else","d.decode('ascii')\n            else"),
("ok",R,"                self.entries[h] = d.decode('utf-8', 'replace')\n            else:\n                end = data.find(b\"\\0\", i)\n                d = data[i:end]\n                self.entries[h] = d.decode('utf-8', 'replace')","            else:\n                end = data.find(b\"\\0\", i)\n                d = data[i:end]\n            self.entries[h] = str(d, 'utf-8', errors='replace')"),
]
