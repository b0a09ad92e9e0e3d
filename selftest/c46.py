B = "binfile.py"
CASES = [
    ("bad", B, "                return self.s.lower() == other.lower()", "                return self.s == other"),
    ("bad", B, "    for b in s.encode('ascii').lower():", "    for b in s.encode('ascii'):"),
    ("bad", B, "        h = ((h ^ b) * 0x01000193) % 0x100000000", "        h = ((h * 0x01000193) ^ b) % 0x100000000"),
    ("bad", B, "    h = 0x811c9dc5\n", "    h = 0x811c9dc4\n"),
    ("bad", B, "        return xxh64_intdigest(s.lower())", "        return xxh64_intdigest(s)"),
    ("bad", B, "        return self.h\n\n    @classmethod", "        return hash(str(self))\n\n    @classmethod"),
    ("bad", B, "    def __hash__(self):\n        return self.h\n", ""),
    ("bad", B, "            return self.h == other.h", "            return self.h == other.h and self.s == other.s"),
    ("bad", B, "            return self.h == other.h", "            return type(self) is type(other) and str(self) == str(other)"),
    ("bad", B, '        return f"{self.h:08x}"', '        return f"{self.h:x}"'),
    ("bad", B, '        return f"{self.h:016x}"', '        return f"{self.h:08x}"'),
    ("bad", B, "        if self.s is not None:\n            return self.s\n        return f\"{{{self.hex()}}}\"\n\n    __repr__", "        if self.s:\n            return self.s\n        return self.hex()\n\n    __repr__"),
    ("bad", B, "    hashfile = hashfile_bintypes", "    hashfile = hashfile_binfields"),
    ("bad", B, "hashfile_binpaths = hashfile_game", "hashfile_binpaths = hashfile_binhashes"),
    ("bad", B, "        for v in self.fields:\n            if v.name.h == h:\n                return v\n        raise KeyError(key)", "        for v in self.fields[1:]:\n            if v.name.h == h:\n                return v\n        raise KeyError(key)"),
    ("bad", B, "        for v in self.fields:\n            if v.name.h == h:\n                return v\n        raise KeyError(key)", "        found = [v for v in self.fields if v.name.h == h]\n        if not found:\n            raise KeyError(key)\n        return found[-1]"),
    ("bad", B, "                return v\n        raise KeyError(key)", "                return v\n        raise IndexError(key)"),
    ("bad", B, "            if v.name.h == h:\n                return True\n        return False", "            if v.name == key:\n                return bool(v.value)\n        return False"),
    ("bad", B, "            v = self[key].value\n        except KeyError:\n            return default\n        return _to_python_type(v)", "            v = self[key].value\n        except KeyError:\n            return default\n        return _to_python_type(v) or default"),
    ("bad", B, "            v = self[key].value\n        except KeyError:\n            return default\n        return _to_python_type(v)", "            v = self[key].value\n        except KeyError:\n            return default\n        return v"),
    ("bad", B, "        case BinList() | BinMap():\n            return v.values", "        case BinList():\n            return v.values"),
    ("bad", B, "                self.fields[n] = value\n                break", "                self.fields[n] = value"),
    ("bad", B, "                self.fields[n] = value\n                break\n        else:\n            self.fields.append(value)", "                self.fields[n] = value\n                break\n        self.fields.append(value)"),
    ("bad", B, "        return key.h\n    elif isinstance(key, str):", "        return compute_binhash(str(key))\n    elif isinstance(key, str):"),
    ("bad", B, "        return super().to_serializable() if self.type.h else None", "        return super().to_serializable() if self.fields else None"),
    ("bad", B, '        serialized["__type"] = self.type.to_serializable()\n', ""),
    ("bad", B, "        return [_to_serializable(v) for v in self.values]", "        return [_to_serializable(v) for v in self.values if v]"),
    ("bad", B, "        return {_to_serializable(k): _to_serializable(v) for k,v in self.values.items()}", "        return {str(k): v for k,v in self.values.items()}"),
    ("bad", B, "        return _to_serializable(self.value)\n", "        return self.value and _to_serializable(self.value)[0]\n"),
    ("bad", B, '        if self.linked_files is not None:\n            serialized["__linked"]', '        if self.linked_files:\n            serialized["__linked"]'),
    ("bad", B, '            serialized["__patches"] = {entry.path.to_serializable(): entry.to_serializable() for entry in self.patch_entries}', '            serialized.update({entry.path.to_serializable(): entry.to_serializable() for entry in self.patch_entries})'),
    ("bad", B, "        return dict(f.to_serializable() for f in self.fields)\n\nclass BinObjectWithFieldsAndType", "        return dict(f.to_serializable() for f in self.fields if f.value is not None)\n\nclass BinObjectWithFieldsAndType"),
    ("bad", B, "            for key in args:\n                v = v[key].value", "            for key in args[:1]:\n                v = v[key].value"),
    ("bad", B, "        self.s = self.hashfile.load().get(h)", "        self.s = self.hashfile.load().get(h, '')"),
    ("ok", B, "            if self.s is None:\n                return self.h == self.compute_hash(other)\n            else:\n                # hashes are computed on lowercased names\n                return self.s.lower() == other.lower()", "            return self.h == self.compute_hash(other)"),
    ("ok", B, "        h = key_to_hash(key)\n        for v in self.fields:\n            if v.name.h == h:\n                return True\n        return False", "        h = key_to_hash(key)\n        return any(v.name.h == h for v in self.fields)"),
    ("ok", B, "        h = key_to_hash(key)\n        for v in self.fields:\n            if v.name.h == h:\n                return True\n        return False", "        return self.get(key) is not None"),
    ("ok", B, "        try:\n            v = self[key].value\n        except KeyError:\n            return default\n        return _to_python_type(v)", "        if key not in self:\n            return default\n        return _to_python_type(self[key].value)"),
    ("ok", B, "        try:\n            return self[key]\n        except KeyError:\n            return default", "        h = key_to_hash(key)\n        for field in self.fields:\n            if field.name.h == h:\n                return field\n        return default"),
    ("ok", B, "        return [_to_serializable(v) for v in self.values]", "        out = []\n        for v in self.values:\n            out.append(_to_serializable(v))\n        return out"),
    ("ok", B, "        h = ((h ^ b) * 0x01000193) % 0x100000000", "        h ^= b\n        h = (h * 0x01000193) & 0xffffffff"),
    ("ok", B, "        for v in self.fields:\n            if v.name.h == h:\n                return v\n        raise KeyError(key)", "        for v in self.fields:\n            if v.name.h != h:\n                continue\n            return v\n        raise KeyError(key)"),
    ("ok", B, "    match v:\n        case BinList() | BinMap():\n            return v.values\n        case BinOption():\n            return v.value\n        case _:\n            return v", "    if isinstance(v, (BinList, BinMap)):\n        return v.values\n    return v.value if isinstance(v, BinOption) else v"),
    ("ok", B, "        serialized = super().to_serializable()\n        serialized[\"__type\"] = self.type.to_serializable()\n        return serialized", "        return {**super().to_serializable(), \"__type\": str(self.type)}"),
    ("ok", B, "        for n, v in enumerate(self.fields):\n            if v.name.h == h:\n                self.fields[n] = value\n                break\n        else:\n            self.fields.append(value)", "        for n in range(len(self.fields)):\n            if self.fields[n].name.h == h:\n                self.fields[n] = value\n                return\n        self.fields.append(value)"),
]
