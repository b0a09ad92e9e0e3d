P="patcher.py"
CASES = [
 ("bad",P,"offset = last_chunk.offset + last_chunk.size","offset = last_chunk.offset + last_chunk.target_size"),
 ("bad",P,"offset = last_chunk.offset + last_chunk.size","offset = last_chunk.offset + size"),
 ("bad",P,"last_chunk = self.chunks[-1]","last_chunk = self.chunks[0]"),
 ("bad",P,"            offset = 0\n        self.chunks","            offset = 4\n        self.chunks"),
 ("bad",P,"        self.chunks.append(PatcherChunk(chunk_id, self, offset, size, target_size))","        if size:\n            self.chunks.append(PatcherChunk(chunk_id, self, offset, size, target_size))"),
 ("bad",P,"        self.chunks.append(PatcherChunk(chunk_id, self, offset, size, target_size))","        self.chunks.append(PatcherChunk(chunk_id, self, offset, target_size, size))"),
 ("bad",P,"            f.seek(chunk.offset)\n            # assume chunk is compressed\n            return zstd_decompress(f.read(chunk.size))","            f.seek(chunk.offset)\n            # assume chunk is compressed\n            return zstd_decompress(f.read(chunk.target_size))"),
 ("bad",P,"            f.seek(chunk.offset)\n            # assume","            f.seek(chunk.offset, 1 if chunk.offset else 2)\n            # assume"),
 ("bad",P,"            f.seek(chunk.offset)\n            # assume","            if chunk.offset > 16:\n                f.seek(chunk.offset)\n            # assume"),
 ("bad",P,"zstd_decompress(f.read(chunk.size))","f.read(chunk.size)"),
 ("bad",P,"            bundle.add_chunk(chunk_id, compressed_size, uncompressed_size)","            bundle.add_chunk(chunk_id, uncompressed_size, compressed_size)"),
 ("bad",P,"                ('compressed_size', '<L'),\n                ('uncompressed_size', '<L'),","                ('uncompressed_size', '<L'),\n                ('compressed_size', '<L'),"),
 ("bad",P,"                ('chunk_id', '<Q'),\n","                ('chunk_id', '<L'),\n"),
 ("bad",P,"            return fields['chunk_id'], fields['compressed_size'], fields['uncompressed_size']","            return fields['chunk_id'], fields['uncompressed_size'], fields['compressed_size']"),
 ("bad",P,"                pos = entry_pos + offset\n","                pos = fields_pos + offset\n"),
 ("bad",P,"        parser.seek(fields['chunks_offset'])","        parser.seek(fields['bundle_id'])"),
 ("bad",P,"for (chunk_id, compressed_size, uncompressed_size) in cls._parse_table(parser, parse_chunklist):\n","for (chunk_id, compressed_size, uncompressed_size) in cls._parse_table(parser, parse_chunklist):\n            if chunk_id == 0:\n                continue\n"),
 ("ok",P,"""        try:
            last_chunk = self.chunks[-1]
            offset = last_chunk.offset + last_chunk.size
        except IndexError:
            offset = 0
""","""        offset = 0
        if self.chunks:
            prev = self.chunks[-1]
            offset = prev.size + prev.offset
"""),
 ("ok",P,["        self.chunks = []\n","""        try:
            last_chunk = self.chunks[-1]
            offset = last_chunk.offset + last_chunk.size
        except IndexError:
            offset = 0
        self.chunks.append(PatcherChunk(chunk_id, self, offset, size, target_size))
"""],["        self.chunks = []\n        self.end = 0\n","""        self.chunks.append(PatcherChunk(chunk_id, self, self.end, size, target_size))
        self.end += size
"""]),
 ("ok",P,"            bundle.add_chunk(chunk_id, compressed_size, uncompressed_size)","            bundle.add_chunk(size=compressed_size, target_size=uncompressed_size, chunk_id=chunk_id)"),
 ("ok",P,"        for (chunk_id, compressed_size, uncompressed_size) in cls._parse_table(parser, parse_chunklist):\n            bundle.add_chunk(chunk_id, compressed_size, uncompressed_size)","        for chunk in cls._parse_table(parser, parse_chunklist):\n            bundle.add_chunk(*chunk)"),
 ("ok",P,"            # assume chunk is compressed\n            return zstd_decompress(f.read(chunk.size))","            data = f.read(chunk.size)\n        return zstd_decompress(data)"),
]
