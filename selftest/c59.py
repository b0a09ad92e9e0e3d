B = "binfile.py"
CASES = [
    ("ok", B, "        values = [self.read_field() for _ in range(count)]\n        entry = BinEntry(hpath, htype, values)\n", "        entry = BinEntry(hpath, htype, [])\n        for _ in range(count):\n            entry.fields.append(self.read_field())\n"),
    ("bad", B, "        values = [self.read_field() for _ in range(count)]\n        entry = BinEntry(hpath, htype, values)\n", "        entry = BinEntry(hpath, htype, [])\n        for _ in range(count):\n            field = self.read_field()\n            if field.type != BinType.STRING:\n                entry.fields.append(field)\n"),
    ("bad", B, "self.is_patch = magic == b'PTCH'", "self.is_patch = magic != b'PROP'"),
    ("bad", B, "if patch_header != (1, 0):", "if patch_header[0] != 1:"),
    ("bad", B, "if magic != b'PROP':", "if not self.is_patch and magic != b'PROP':"),
    ("bad", B, "if self.is_patch and self.version >= 3:", "if self.is_patch and self.version == 3:"),
    ("bad", B, "if self.is_patch and self.version >= 3:", "if self.is_patch:"),
    ("bad", B, "        if version >= 2:\n", "        if version > 2:\n"),
    ("bad", B, "linked_files = None\n", "linked_files = []\n"),
    ("bad", B, "[self.read_string() for _ in range(n)]", "sorted(self.read_string() for _ in range(n))"),
    ("bad", B, "[self.read_string() for _ in range(n)]", "[s for s in (self.read_string() for _ in range(n)) if s]"),
    ("bad", B, "[reader.read_binfile_entry(htype) for htype in entry_types]", "[reader.read_binfile_entry(htype) for htype in sorted(entry_types)]"),
    ("bad", B, "[reader.read_binfile_entry(htype) for htype in entry_types]", "[reader.read_binfile_entry(htype) for htype in reversed(entry_types)]"),
    ("bad", B, "[reader.read_binfile_entry(htype) for htype in entry_types]", "[reader.read_binfile_entry(htype) for htype in dict.fromkeys(entry_types)]"),
    ("bad", B, "[reader.read_binfile_entry(htype) for htype in entry_types]", "list({e.path.h: e for e in [reader.read_binfile_entry(htype) for htype in entry_types] if e.fields}.values())"),
    ("bad", B, "        if self.f.tell() - pos != length:\n            raise ValueError(\"unexpected entry length\")\n", ""),
    ("bad", B, "if self.f.tell() - pos != length:", "if self.f.tell() - pos > length:"),
    ("bad", B, "if self.f.tell() - pos != length:", "if self.f.tell() - pos < length:"),
    ("bad", B, "pos = self.f.tell() + 4", "pos = self.f.tell()"),
    ("bad", B, "entry = BinEntry(hpath, htype, values)", "entry = BinEntry(htype, hpath, values)"),
    ("bad", B, "        return BinField(hname, ftype, self.read_bvalue(ftype))", "        return BinField(hname & 0xffff, ftype, self.read_bvalue(ftype))"),
    ("bad", B, "for _ in range(count)]\n        entry", "for _ in range(count & 0xff)]\n        entry"),
    ("ok", B, "for _ in range(count)]\n        entry", "for _ in range(0, count)]\n        entry"),
    ("bad", B, "            hpath = self.read_fmt('<2L')[0]", "            hpath = self.read_fmt('<2L')[1]"),
    ("bad", B, "            if hpath not in patch_entries:\n                patch_entries[hpath] = BinPatchEntry(hpath)", "            patch_entries[hpath] = BinPatchEntry(hpath)"),
    ("bad", B, "BinPatchField(object_path, btype, binvalue)", "BinPatchField(object_path, btype.value, object_path)"),
    ("bad", B, "return list(patch_entries.values())", "return list(patch_entries.values())[:-1]"),
    ("bad", B, "return list(patch_entries.values())", "return list(patch_entries.values()) or None"),
    ("bad", B, "            btype = self.parse_bintype(self.read_u8())", "            btype = BinType(self.read_u8())"),
    ("bad", B, "if self.btype_version < 923:", "if self.btype_version <= 923:"),
    ("bad", B, "if self.btype_version < 1008:", "if self.btype_version < 1000:"),
    ("bad", B, "elif v >= 19:", "elif v > 19:"),
    ("bad", B, "            if v >= 0x81:\n", "            if v > 0x81:\n"),
    ("bad", B, "self.btype_version = btype_version or 1008", "self.btype_version = btype_version or 923"),
    ("bad", B, "reader = BinReader(f, btype_version=btype_version)", "reader = BinReader(f)"),
    ("bad", B, "        ftype = self.parse_bintype(ftype)\n", "        ftype = BinType(ftype)\n"),
    ("bad", B, "        self.fields = fields\n", "        self.fields = fields[:2]\n"),
    ("bad", B, "        if patch_header != (1, 0):\n".replace("        if", "            if"), "            if patch_header not in ((1, 0), (2, 0)):\n"),
    # rewrites
    ("ok", B, "[self.read_string() for _ in range(n)]", "list(self.read_string() for _ in range(n))"),
    ("ok", B, "        self.entries = [reader.read_binfile_entry(htype) for htype in entry_types]\n", "        self.entries = []\n        for htype in entry_types:\n            entry = reader.read_binfile_entry(htype)\n            self.entries.append(entry)\n"),
    ("ok", B, "        if self.f.tell() - pos != length:\n            raise ValueError(\"unexpected entry length\")\n        return entry", "        if self.f.tell() == pos + length:\n            return entry\n        raise ValueError(\"unexpected entry length\")"),
    ("ok", B, "            if hpath not in patch_entries:\n                patch_entries[hpath] = BinPatchEntry(hpath)\n            new_entry = patch_entries[hpath]\n\n            new_entry.fields.append(", "            new_entry = patch_entries.get(hpath)\n            if new_entry is None:\n                new_entry = patch_entries[hpath] = BinPatchEntry(hpath)\n            new_entry.fields.append("),
    ("ok", B, "            if hpath not in patch_entries:\n                patch_entries[hpath] = BinPatchEntry(hpath)\n            new_entry = patch_entries[hpath]\n\n            new_entry.fields.append(", "            patch_entries.setdefault(hpath, BinPatchEntry(hpath)).fields.append("),
    ("ok", B, "        if self.is_patch and self.version >= 3:\n            self.patch_entries = reader.read_patch_section()\n        else:\n            self.patch_entries = None", "        self.patch_entries = None\n        if self.is_patch and not self.version < 3:\n            self.patch_entries = reader.read_patch_section()"),
    ("ok", B, "        self.version, self.linked_files, entry_types = reader.read_binfile_header()", "        header = reader.read_binfile_header()\n        self.version = header[0]\n        self.linked_files = header[1]\n        entry_types = header[2]"),
    ("ok", B, "            if patch_header != (1, 0):\n", "            major, minor = patch_header\n            if major != 1 or minor != 0:\n"),
    ("ok", B, "        length, hpath, count = self.read_fmt('<LLH')\n        values = [self.read_field() for _ in range(count)]", "        length = self.read_u32()\n        hpath, count = self.read_fmt('<LH')\n        values = []\n        for k in range(count):\n            values += [self.read_field()]"),
    ("ok", B, "            if v == 18:\n                v = 0x80\n            elif v >= 19:\n                v = 0x80 + v - 18", "            if v >= 18:\n                v += 0x80 - 18"),
    ("ok", B, "        entry_count, = self.read_fmt('<L')\n        entry_types = list(self.read_fmt(f\"<{entry_count}L\"))", "        entry_count = self.read_u32()\n        entry_types = [self.read_u32() for _ in range(entry_count)]"),
]
