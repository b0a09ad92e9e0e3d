W="wad.py"
chunk='''                for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
'''
chk='''                    if len(data) < offset + compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
                        raise MalformedSubchunkError(data)
'''
fun='''                chunks_data = []
                offset = 0
                for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
                    if len(subchunk_toc) < 16*(index+1):
                        raise MalformedSubchunkError(data)
                    compressed_size, uncompressed_size, subchunk_hash = struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])
                    # ensure wad data matches with the subchunktoc data
                    subchunk_data = data[offset:offset+compressed_size]
                    if len(data) < offset + compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
                        raise MalformedSubchunkError(data)
                    if compressed_size == uncompressed_size:
                        # assume data is uncompressed
                        chunks_data.append(subchunk_data)
                    else:
                        try:
                            chunks_data.append(zstd_decompress(subchunk_data))
                        except Exception:
                            raise MalformedSubchunkError(data)
                    offset += compressed_size
                return b"".join(chunks_data)
'''
CASES=[
("bad",W,chunk,chunk.replace("range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count)","range(self.first_subchunk_index, self.subchunk_count)")),
("bad",W,chunk,chunk.replace("range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count)","range(self.subchunk_count)")),
("bad",W,chunk,chunk.replace("+ self.subchunk_count)","+ self.subchunk_count + 1)")),
("bad",W,"'<IIQ', subchunk_toc","'<IIq', subchunk_toc"),
("bad",W,"'<IIQ', subchunk_toc","'>IIQ', subchunk_toc"),
("bad",W,"compressed_size, uncompressed_size, subchunk_hash = struct","uncompressed_size, compressed_size, subchunk_hash = struct"),
("bad",W,"subchunk_toc[16*index:16*(index+1)]","subchunk_toc[12*index:12*index+16]"),
("bad",W,chk,chk.replace("len(data) < offset + compressed_size or ","")),
("bad",W,chk,chk.replace(" or xxh3_64_intdigest(subchunk_data) != subchunk_hash","")),
("bad",W,chk,chk.replace(" or xxh3_64_intdigest"," and xxh3_64_intdigest")),
("bad",W,chk,chk.replace("len(data) < offset","len(data) <= offset")),
("bad",W,chk,chk.replace("xxh3_64_intdigest(subchunk_data) !=","xxh3_64_intdigest(data) !=")),
("bad",W,chk,chk.replace("raise MalformedSubchunkError(data)","logger.warning('bad chunk')")),
("bad",W,chk,chk.replace("raise MalformedSubchunkError(data)","continue")),
("bad",W,chk,chk.replace("raise MalformedSubchunkError(data)","break")),
("bad",W,chk,chk.replace("or xxh3","or compressed_size != uncompressed_size and xxh3")),
("bad",W,"if compressed_size == uncompressed_size:","if compressed_size >= uncompressed_size:"),
("bad",W,"if compressed_size == uncompressed_size:","if compressed_size <= uncompressed_size:"),
("bad",W,"if compressed_size == uncompressed_size:","if compressed_size != uncompressed_size:"),
("bad",W,"if compressed_size == uncompressed_size:","if compressed_size == self.size:"),
("bad",W,"offset += compressed_size","offset += uncompressed_size"),
("bad",W,"offset += compressed_size","offset = compressed_size"),
("bad",W,"                offset = 0\n                for","                offset = self.offset\n                for"),
("bad",W,"data[offset:offset+compressed_size]","data[offset:offset+uncompressed_size]"),
("bad",W,"data = f.read(self.compressed_size)","data = f.read(self.size)"),
("bad",W,"data = f.read(self.compressed_size)","data = f.read()"),
("bad",W,"        f.seek(self.offset)\n        # assume","        # assume"),
("bad",W,"f.seek(self.offset)","f.seek(self.offset, 1)"),
("bad",W,"        raise ValueError(f\"unsupported file type: {self.type}\")","        return data"),
("bad",W,"        raise ValueError(f\"unsupported file type: {self.type}\")","        logger.warning('unsupported')"),
("bad",W,"            return None\n        elif self.type == 3:","            return target\n        elif self.type == 3:"),
("bad",W,"elif self.type == 3:","elif self.type in (3, 5):"),
("bad",W,"            return gzip.decompress(data)","            return zstd_decompress(data)"),
("bad",W,"if self.type == 0:\n            return data","if self.type == 0 or self.size == self.compressed_size:\n            return data"),
("bad",W,'b"".join(chunks_data)','b"".join(reversed(chunks_data))'),
("bad",W,'b"".join(chunks_data)','b"\\0".join(chunks_data)'),
("bad",W,'b"".join(chunks_data)','b"".join(chunks_data[:-1])'),
("bad",W,"if len(subchunk_toc) < 16*(index+1):","if len(subchunk_toc) < 16*(index+2):"),
("bad",W,'.endswith(".subchunktoc")','.endswith(".toc")'),
("bad",W,"return wadfile.read_data(fwad, self.subchunk_toc)","return wadfile.read_data(fwad)"),
("bad",W,"wadfile.extract(fwad, output_path, self.subchunk_toc)","wadfile.extract(fwad, output_path)"),
("ok",W,chk,'''                    if offset + compressed_size > len(data):
                        raise MalformedSubchunkError(data)
                    digest = xxh3_64_intdigest(subchunk_data)
                    if digest != subchunk_hash:
                        raise MalformedSubchunkError(data)
'''),
("ok",W,chk,'''                    if len(subchunk_data) != compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
                        raise MalformedSubchunkError(data)
'''),
("ok",W,chk,'''                    if len(subchunk_data) < compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
                        raise MalformedSubchunkError(data)
'''),
("ok",W,"struct.unpack('<IIQ', subchunk_toc[16*index:16*(index+1)])","struct.unpack_from('<IIQ', subchunk_toc, 16*index)"),
("ok",W,fun,'''                return b"".join(self._subchunks(data, subchunk_toc))
''' ),
("ok",W,"        if self.type == 0:\n            return data\n        elif self.type == 1:","        if not self.type:\n            return data\n        if self.type == 1:"),
("ok",W,"        f.seek(self.offset)\n","        if self.type > 4:\n            raise ValueError(f\"unsupported file type: {self.type}\")\n        f.seek(self.offset, os.SEEK_SET)\n"),
("ok",W,chunk,'''                for n in range(self.subchunk_count):
                    index = self.first_subchunk_index + n
'''),
("ok",W,'''                    subchunk_data = data[offset:offset+compressed_size]
''','''                    end = offset + compressed_size
                    subchunk_data = data[offset:end]
'''),
("ok",W,fun,fun.replace("chunks_data = []","out = bytearray()").replace("chunks_data.append(subchunk_data)","out += subchunk_data").replace("chunks_data.append(zstd_decompress(subchunk_data))","out += zstd_decompress(subchunk_data)").replace('b"".join(chunks_data)','bytes(out)')),
("ok",W,fun,fun.replace("chunks_data = []","out = b''").replace("chunks_data.append(subchunk_data)","out += subchunk_data").replace("chunks_data.append(zstd_decompress(subchunk_data))","out += zstd_decompress(subchunk_data)").replace('b"".join(chunks_data)','out')),
]
gen='''    def _subchunks(self, data, toc):
        pos = 0
        for index in range(self.first_subchunk_index, self.first_subchunk_index + self.subchunk_count):
            if len(toc) < 16*(index+1):
                raise MalformedSubchunkError(data)
            csize, usize, digest = struct.unpack('<IIQ', toc[16*index:16*(index+1)])
            chunk = data[pos:pos+csize]
            if len(data) < pos + csize or xxh3_64_intdigest(chunk) != digest:
                raise MalformedSubchunkError(data)
            pos += csize
            if csize == usize:
                yield chunk
                continue
            try:
                yield zstd_decompress(chunk)
            except Exception:
                raise MalformedSubchunkError(data)

    def read_data(self, f, subchunk_toc=None):'''
n=[k for k,x in enumerate(CASES) if "_subchunks" in str(x)][0]
CASES[n]=("ok",W,[fun,"    def read_data(self, f, subchunk_toc=None):"],['                return b"".join(self._subchunks(data, subchunk_toc))\n',gen])
CASES += [
("bad",W,"                self.subchunk_toc = self.read_file_data(fwad, wadfile)\n","                self.read_file_data(fwad, wadfile)\n"),
("bad",W,"            return wadfile.read_data(fwad, self.subchunk_toc)","            wadfile.read_data(fwad, self.subchunk_toc)"),
("bad",W,"            return wadfile.read_data(fwad, self.subchunk_toc)","            return wadfile.read_data(fwad)"),
("ok",W,"            return wadfile.read_data(fwad, self.subchunk_toc)","            toc = self.subchunk_toc\n            data = wadfile.read_data(fwad, toc)\n            return data"),
("bad",W,'if not wadfile.path.endswith(".subchunktoc"):','if not wadfile.path.endswith(".subchunk"):'),
("ok",W,'            if not wadfile.path.endswith(".subchunktoc"):\n                continue\n','            if os.path.splitext(wadfile.path)[1] != ".subchunktoc":\n                continue\n'),
]
