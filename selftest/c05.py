P="patcher.py"
CASES = [
 ("bad",P,"                for chunk in file.chunks:\n                    f.write","                for chunk in sorted(file.chunks, key=lambda c: c.offset):\n                    f.write"),
 ("bad",P,"                for chunk in file.chunks:\n                    f.write","                for chunk in set(file.chunks):\n                    f.write"),
 ("bad",P,"                for chunk in file.chunks:\n                    f.write","                for chunk in file.chunks[1:]:\n                    f.write"),
 ("bad",P,"                    f.write(self.load_chunk(chunk))","                    if chunk.size:\n                        f.write(self.load_chunk(chunk))"),
 ("ok",P,"                for chunk in file.chunks:\n                    f.write(self.load_chunk(chunk))","                f.writelines(self.load_chunk(c) for c in file.chunks)"),
 ("ok",P,"                for chunk in file.chunks:\n                    f.write(self.load_chunk(chunk))","                f.write(b''.join([self.load_chunk(c) for c in file.chunks]))"),
 ("ok",P,"                for chunk in file.chunks:\n                    f.write(self.load_chunk(chunk))","                for i in range(len(file.chunks)):\n                    data = self.load_chunk(file.chunks[i])\n                    f.write(data)"),
 ("bad",P,'real_output = self.fspath(f"cdtb/files/{file.hexdigest()}")','real_output = self.fspath(f"cdtb/files/{file.hexdigest()[:8]}")'),
 ("bad",P,'real_output = self.fspath(f"cdtb/files/{file.hexdigest()}")','real_output = self.fspath(f"cdtb/files/{file.name}")'),
 ("ok",P,'real_output = self.fspath(f"cdtb/files/{file.hexdigest()}")','real_output = os.path.join(self.path, "cdtb", "files", file.hexdigest())'),
 ("bad",P,"            os.symlink(os.path.relpath(real_output, output_dir), output)","            os.symlink(os.path.relpath(real_output, self.path), output)"),
 ("bad",P,"            os.symlink(os.path.relpath(real_output, output_dir), output)","            os.symlink(real_output, output)"),
 ("bad",P,"            os.symlink(os.path.relpath(real_output, output_dir), output)","            os.symlink(os.path.relpath(output, output_dir), real_output)"),
 ("bad",P,"            try:\n                os.remove(output)\n            except OSError:\n                pass\n            output_dir","            output_dir"),
 ("bad",P,"            try:\n                os.remove(output)\n            except OSError:\n                pass\n            output_dir","            if os.path.exists(output):\n                os.remove(output)\n            output_dir"),
 ("ok",P,"            try:\n                os.remove(output)\n            except OSError:\n                pass\n            output_dir","            if os.path.lexists(output):\n                os.remove(output)\n            output_dir"),
 ("bad",P,"not self.use_extract_symlinks or not os.path.isfile(real_output)","not os.path.isfile(real_output)"),
 ("bad",P,"not self.use_extract_symlinks or not os.path.isfile(real_output)","not self.use_extract_symlinks or not os.path.isfile(output)"),
 ("bad",P,"        for chunk in self.chunks:\n            m.update","        for chunk in self.chunks[:16]:\n            m.update"),
 ("bad",P,"        for chunk in self.chunks:\n            m.update","        for chunk in sorted(self.chunks, key=lambda c: c.chunk_id):\n            m.update"),
 ("bad",P,'            m.update(b"%016X" % chunk.chunk_id)','            m.update(b"%X" % chunk.chunk_id)'),
 ("bad",P,'            m.update(b"%016X" % chunk.chunk_id)','            m.update(b"%016X" % chunk.offset)'),
 ("ok",P,'            m.update(b"%016X" % chunk.chunk_id)','            m.update(f"{chunk.chunk_id:016X}".encode())'),
 ("ok",P,'        m = hashlib.sha1()\n        for chunk in self.chunks:\n            m.update(b"%016X" % chunk.chunk_id)\n        return m.hexdigest()','        return hashlib.sha1(b"".join(b"%016X" % c.chunk_id for c in self.chunks)).hexdigest()'),
 ("bad",P,"file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids]","file_chunks = [self.chunks[chunk_id] for chunk_id in sorted(chunk_ids)]"),
 ("bad",P,"file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids]","file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids if chunk_id in self.chunks]"),
 ("bad",P,"file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids]","file_chunks = [self.chunks[chunk_id] for chunk_id in set(chunk_ids)]"),
 ("bad",P,"            ('directory_id', '<Q'),\n            ('file_size', '<L'),","            ('file_size', '<L'),\n            ('directory_id', '<Q'),"),
 ("ok",P,"            file_chunks = [self.chunks[chunk_id] for chunk_id in chunk_ids]","            file_chunks = []\n            for cid in chunk_ids:\n                file_chunks.append(self.chunks[cid])"),
 ("ok",P,"        self.chunks = {chunk.chunk_id: chunk for bundle in self.bundles for chunk in bundle.chunks}","        self.chunks = {}\n        for bundle in self.bundles:\n            for chunk in bundle.chunks:\n                self.chunks[chunk.chunk_id] = chunk"),
 ("bad",P,"        self.chunks = {chunk.chunk_id: chunk for bundle in self.bundles for chunk in bundle.chunks}","        self.chunks = {chunk.chunk_id: chunk for bundle in self.bundles[1:] for chunk in bundle.chunks}"),
]
