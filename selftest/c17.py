W="wad.py"
new='''                for _ in range(entry_count):
                    path_hash, offset, compressed_size, size, type, subchunk_index_hi, subchunk_index_lo, checksum = parser.unpack("<QIIIBBHQ")
                    subchunk_index = subchunk_index_lo + (subchunk_index_hi << 16)
                    self.files.append(WadFileHeader(path_hash, offset, compressed_size, size, type, False, subchunk_index, checksum))
'''
seek='''            if version_major == 1:
                parser.seek(8)
            elif version_major == 2:
                parser.seek(100)
            elif version_major == 3:
                parser.seek(268)
            else:
                raise ValueError(f"unsupported WAD version: {version_major}.{version_minor}")
'''
CASES=[
("bad",W,"subchunk_index_lo + (subchunk_index_hi << 16)","subchunk_index_lo + (subchunk_index_hi << 8)"),
("bad",W,"subchunk_index_lo + (subchunk_index_hi << 16)","subchunk_index_hi + (subchunk_index_lo << 8)"),
("bad",W,"subchunk_index_lo + (subchunk_index_hi << 16)","subchunk_index_lo"),
("bad",W,"version_minor <= 3","version_minor < 3"),
("bad",W,"version_minor <= 3","version_minor <= 4"),
("bad",W,"version_major <= 2 or (version_major == 3 and version_minor <= 3)","version_minor <= 3"),
("bad",W,"parser.seek(100)","parser.seek(104)"),
("bad",W,"parser.seek(8)","parser.skip(8)"),
("bad",W,'"<QIIIBBHQ"','"<QIIIBHBQ"'),
("bad",W,'"<QIIIBBHQ"','">QIIIBBHQ"'),
("bad",W,'"<QIIIBBHQ"','"QIIIBBHQ"'),
("bad",W,'"<QIIIBBHQ"','"<QiIIBBHQ"'),
("bad",W,'"<QIIII"','"<QIIIB"'),
("bad",W,'"<QIIII"','"<QIIIB3x4x"'),
("bad",W,'unpack("<I")','unpack("<H")'),
("bad",W,'unpack("<I")','unpack(">I")'),
("bad",W,"type & 0xF0) >> 4","type & 0xF0) >> 5"),
("bad",W,"type & 0xF0) >> 4","type & 0x70) >> 4"),
("bad",W,"self.type = type & 0xF","self.type = type & 0x7"),
("bad",W,"self.type = type & 0xF","self.type = type"),
("bad",W,"path_hash, offset, compressed_size, size, type, duplicate=None","path_hash, offset, size, compressed_size, type, duplicate=None"),
("bad",W,"            if magic != b'RW':\n                raise ValueError(\"invalid magic code\")\n",""),
("bad",W,"magic != b'RW'","magic == b'RW'"),
("bad",W,"            else:\n                raise ValueError(f\"unsupported WAD version: {version_major}.{version_minor}\")\n",""),
("bad",W,"elif version_major == 3:","elif version_major in (3, 4):"),
("bad",W,"range(entry_count)]\n            elif","range(entry_count - 1)]\n            elif"),
("bad",W,new,new.replace("self.files.append","if size:\n                        self.files.append")),
("ok",W,"type & 0xF0) >> 4","type >> 4) & 0xF"),
("ok",W,"subchunk_index_lo + (subchunk_index_hi << 16)","subchunk_index_hi * 65536 | subchunk_index_lo"),
("ok",W,seek,'''            offsets = {1: 8, 2: 100, 3: 268}
            if version_major not in offsets:
                raise ValueError(f"unsupported WAD version: {version_major}.{version_minor}")
            parser.seek(offsets[version_major])
'''),
("ok",W,seek,'''            try:
                table_offset = {1: 8, 2: 100, 3: 268}[version_major]
            except KeyError:
                raise ValueError(f"unsupported WAD version: {version_major}.{version_minor}")
            parser.seek(table_offset)
'''),
("ok",W,new,new.replace('''path_hash, offset, compressed_size, size, type, subchunk_index_hi, subchunk_index_lo, checksum = parser.unpack("<QIIIBBHQ")
''','''path_hash, offset, compressed_size, size, type = parser.unpack("<QIIIB")
                    subchunk_index_hi, subchunk_index_lo, checksum = parser.unpack("<BHQ")
''')),
("ok",W,new,'''                def read_entry():
                    path_hash, offset, compressed_size, size, type, hi, lo, checksum = parser.unpack("<QIIIBBHQ")
                    return WadFileHeader(path_hash, offset, compressed_size, size, type, first_subchunk_index=lo + (hi << 16), sha256=checksum)
                self.files = [read_entry() for _ in range(entry_count)]
'''),
("ok",W,'                self.files = []\n'+new,'''                files = []
                while len(files) < entry_count:
                    path_hash, offset, compressed_size, size, type, hi, lo, checksum = parser.unpack("<QIIIBBHQ")
                    files.append(WadFileHeader(path_hash, offset, compressed_size, size, type, False, lo + (hi << 16), checksum))
                self.files = files
'''),
("ok",W,'self.files = [WadFileHeader(*parser.unpack("<QIIII")) for _ in range(entry_count)]','''
                self.files = []
                for i in range(0, entry_count):
                    self.files.append(WadFileHeader(*struct.unpack("<QIIII", f.read(24))))'''),
("ok",W,'parser.unpack("<2sBB")\n            if magic','struct.unpack("<2sBB", f.read(4))\n            if magic'),
("ok",W,'magic, version_major, version_minor = parser.unpack("<2sBB")\n            if magic != b\'RW\'','magic = parser.raw(2)\n            version_major, version_minor = parser.unpack("<BB")\n            if not magic == b\'RW\''),
("ok",W,"            entry_count, = parser.unpack(\"<I\")\n","            entry_count = parser.unpack(\"<I\")[0]\n"),
("ok",W,"            entry_count, = parser.unpack(\"<I\")\n","            entry_count = int.from_bytes(f.read(4), 'little')\n"),
("bad",W,"            entry_count, = parser.unpack(\"<I\")\n","            entry_count = int.from_bytes(f.read(4), 'big')\n"),
("ok",W,'            if version_major == 1:\n                self.files =','            if (version_major, version_minor) < (2, 0):\n                self.files ='),
("ok",W,"version_major <= 2 or (version_major == 3 and version_minor <= 3)","self.version < (3, 4)"),
("bad",W,"version_major <= 2 or (version_major == 3 and version_minor <= 3)","self.version <= (3, 4)"),
]
CASES += [
("bad",W,"for _ in range(entry_count)]\n            elif","for _ in range(1, entry_count)]\n            elif"),
("bad",W,"                raise ValueError(\"invalid magic code\")","                logger.warning(\"invalid magic code\")"),
("ok",W,"            if magic != b'RW':","            if not magic == b'RW':"),
("bad",W,"            if magic != b'RW':","            if magic not in (b'RW', b'WR'):"),
("ok",W,"                for _ in range(entry_count):\n","                remaining = entry_count\n                while remaining > 0:\n                    remaining -= 1\n"),
("bad",W,"                raise ValueError(f\"unsupported WAD version","                logger.error(f\"unsupported WAD version"),
]
CASES += [
("ok",W,"                for _ in range(entry_count):\n                    path_hash","                n = 0\n                while entry_count > n:\n                    n += 1\n                    path_hash"),
("und",W,"                for _ in range(entry_count):\n                    path_hash","                n = 0\n                while entry_count > n + 1:\n                    n += 1\n                    path_hash"),
("ok",W,"                for _ in range(entry_count):\n                    path_hash","                while entry_count:\n                    entry_count -= 1\n                    path_hash"),
]
