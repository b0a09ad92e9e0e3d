T="tools.py"; P="patcher.py"; B="binfile.py"; W="wad.py"; E="export.py"; S="sknfile.py"; R="rstfile.py"; H="hashes.py"
CASES=[
("bad",P,"magic, version_major, version_minor = parser.unpack(\"<4sBB\")\n","magic, version_major, version_minor = parser.unpack(\"<4sHB\")[:2] + (0,)\n        x, y = parser.unpack('<B')\n"),
("bad",P,"parser.unpack(\"<HLLQL\")","parser.unpack(\"HLLQL\")"),
("bad",P,"parser.unpack(\"<HLLQL\")","parser.unpack(\"=HLLQL\")"),
("bad",P,"flags, offset, length, _manifest_id, _body_length = parser","flags, offset, length, _manifest_id = parser"),
("bad",P,"parser.unpack(f'<{chunk_count}Q')","parser.unpack(f'{chunk_count}Q')"),
("bad",P,"            ('chunk_id', '<Q')","            ('chunk_id', 'Q')"),
("bad",P,"            ('name', 'str')","            ('name', 'Q')"),
("bad",T,"        length = struct.calcsize(fmt)\n        return struct.unpack(fmt, self.f.read(length))","        return struct.unpack(fmt, self.f.read(4))"),
("bad",T,"self.f.read(self.unpack('<L')[0])","self.f.read(self.unpack('L')[0])"),
("bad",T,"        length = struct.calcsize(fmt)","        length = struct.calcsize(fmt.lstrip('<'))"),
("bad",T,"self.f.read(self.unpack('<L')[0])","self.f.read(self.unpack('<L')[1])"),
("bad",B,"struct.unpack('<2L', f.read(8))","struct.unpack('<2L', f.read(12))"),
("bad",B,"struct.unpack('<2L', f.read(8))","struct.unpack('@2L', f.read(8))"),
("bad",B,"list(self.read_fmt(f\"<{entry_count}L\"))","list(struct.unpack(f\"<{entry_count}L\", self.f.read(entry_count * 8)))"),
("bad",B,"        return self.read_fmt('<3f')","        return self.read_fmt('3f')"),
("bad",B,"vtype, has_value = self.read_fmt('<B?')","vtype, has_value = self.read_fmt('<B?H')"),
("bad",W,"struct.unpack('<L', data[:4])","struct.unpack('<L', data[:8])"),
("bad",W,"struct.unpack('<L', data[:4])","struct.unpack('L', data[:4])"),
("bad",W,"subchunk_toc[16*index:16*(index+1)]","subchunk_toc[16*index:16*index+12]"),
("bad",W,"compressed_size, uncompressed_size, subchunk_hash = struct","compressed_size, uncompressed_size, subchunk_hash, _ = struct"),
("bad",W,"WadFileHeader(*parser.unpack(\"<QIIII\"))","WadFileHeader(*parser.unpack(\"<QIII\"))"),
("bad",W,"WadFileHeader(*parser.unpack(\"<QIIIB?HQ\"))","WadFileHeader(*parser.unpack(\"<QIIIB?HIIQ\"))"),
("bad",W,"parser.unpack(\"<QIIIBBHQ\")","parser.unpack(\"QIIIBBHQ\")"),
("bad",E,"struct.unpack('<4sHHxBx?', data[:12])","struct.unpack('<4sHHxBx?', data[:16])"),
("bad",E,"'<4s4L56x32sL16x'","'4s4L56x32sL16x'"),
("bad",E,"ddspf = struct.pack('<LL4s20x', 32, 0x4, b'DXT1')","ddspf = struct.pack('<LL4s16x', 32, 0x4, b'DXT1')"),
("bad",E,"struct.pack('<LL4xLL', 84, 3, 1, 1)","struct.pack('<LL4xLL', 84, 3, 1)"),
("bad",E,"parser.unpack(\"<ffffL\")\n","parser.unpack(\"<fffL\")\n"),
("bad",E,"struct.unpack(\"<L\", maybe_magic)","struct.unpack(\"<Q\", maybe_magic)"),
("bad",E,"                nskins, = parser.unpack(\"<L\")" if "                nskins, = parser.unpack(\"<L\")" in open("/repo/cdtb/export.py").read() else "nskins, = parser.unpack(\"<L\")","nskins, = parser.unpack(\"L\")"),
("bad",H,"struct.unpack('<H', data[pos-2:pos])","struct.unpack('<H', data[pos-4:pos])"),
("bad",H,"struct.unpack('<L', data[pos-4:pos])","struct.unpack('L', data[pos-4:pos])"),
("bad",R,"int.from_bytes(data[i+1:][:2], 'little')","int.from_bytes(data[i+1:][:2], __import__('sys').byteorder)"),
("bad",R,"v, = parser.unpack(\"<Q\")","v = memoryview(f.read(8)).cast('Q')[0]"),
("bad",S,"\"uv\": f.unpack(\"<ff\")","\"uv\": f.unpack(\"ff\")"),
("bad",S,"self.major, self.minor = f.unpack(\"<HH\")","self.major, self.minor = f.unpack(\"<HHx\")[:1] + f.unpack(\"H\")"),
("bad",S,["class SknFile:","        indices = [(f.unpack(\"<H\")[0] + 1) for i in range(index_count)]"],["import array\n\nclass SknFile:","        indices = array.array('H', f.raw(2 * index_count))"]),
("ok",T,"        length = struct.calcsize(fmt)\n        return struct.unpack(fmt, self.f.read(length))","        s = struct.Struct(fmt)\n        return s.unpack(self.f.read(s.size))"),
("ok",T,"        length = struct.calcsize(fmt)\n        return struct.unpack(fmt, self.f.read(length))","        return struct.unpack(fmt, self.raw(struct.calcsize(fmt)))"),
("ok",T,"        length = struct.calcsize(fmt)\n        return struct.unpack(fmt, self.f.read(length))","        data = self.f.read(struct.calcsize(fmt))\n        return struct.unpack_from(fmt, data)"),
("ok",P,"parser.unpack(f'<{chunk_count}Q')","parser.unpack('<%dQ' % chunk_count)"),
("ok",P,"parser.unpack(f'<{chunk_count}Q')","parser.unpack('<' + chunk_count * 'Q')"),
("ok",P,"parser.unpack(f'<{chunk_count}Q')","parser.unpack('<{}Q'.format(chunk_count))"),
("ok",B,"struct.unpack('<2L', f.read(8))","struct.unpack('<LL', f.read(2 * 4))"),
("ok",W,"subchunk_toc[16*index:16*(index+1)]","subchunk_toc[16*index:16*index+16]"),
("ok",W,"struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])","struct.unpack_from('<IIQ', subchunk_toc, 16*index)"),
("ok",W,"n, = struct.unpack('<L', data[:4])","n = int.from_bytes(data[:4], 'little')"),
("ok",E,"struct.unpack('<4sHHxBx?', data[:12])","struct.unpack_from('<4sHHxBx?', data)"),
("ok",E,"parser.unpack(\"<ffffL\")\n","(*parser.unpack(\"<4f\"), parser.unpack(\"<L\")[0])\n"),
("ok",S,"\"name\": f.unpack(\"64s\")[0]","\"name\": f.raw(64)"),
("ok",S,"self.major, self.minor = f.unpack(\"<HH\")","version = f.unpack(\"<HH\")\n        self.major, self.minor = version[0], version[1]"),
("ok",H,"struct.unpack('<H', data[pos-2:pos])[0]","int.from_bytes(data[pos-2:pos], \"little\")"),
]
