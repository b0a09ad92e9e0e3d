W="wad.py"; X="export.py"; H="hashes.py"
wex='''        try:
            data = self.read_data(fwad, subchunk_toc)
        except MalformedSubchunkError:
            logger.warning(f"failed to read subchunked wad entry {self.path}")
            return
        if data is None:
            return

        try:
            with write_file_or_remove(output_path) as fout:
                fout.write(data)
'''
guess='''                    data = self.read_file_data(f, wadfile)
                    if not data:
                        continue
                    wadfile.ext = WadFileHeader.guess_extension(data)
                    _hash_to_guessed_extensions[wadfile.path_hash] = wadfile.ext
'''
rfd='''        try:
            return wadfile.read_data(fwad, self.subchunk_toc)
        except MalformedSubchunkError:
            logger.warning("failed to read subchunked wad entry " + (wadfile.path if wadfile.path is not None else f"{wadfile.path_hash:016x}"))
            return None'''
xp='''                data = wad.read_file_data(fwad, wadfile)
                if data is None:
                    continue

                try:
'''
tx='''                data = wad.read_file_data(f, wadfile)
                if data is None:
                    continue
                try:
                    data = data.decode('utf-8-sig')
'''
gr='''                data = wad.read_file_data(f, wadfile)
                if data is None:
                    continue
                if wadfile.ext in ('bin', 'inibin'):
'''
CASES=[
("bad",W,wex,wex.replace("        if data is None:\n            return\n","")),
("bad",W,wex,wex.replace("        if data is None:\n            return\n","        if data is None:\n            data = b''\n")),
("bad",W,wex,wex.replace("            return\n        if data","            data = b''\n        if data")),
("bad",W,wex,wex.replace("            return\n        if data","            raise\n        if data")),
("bad",W,wex,wex.replace("except MalformedSubchunkError","except ValueError")),
("bad",W,wex,'''        try:
            with write_file_or_remove(output_path) as fout:
                data = self.read_data(fwad, subchunk_toc)
                if data is None:
                    return
                fout.write(data)
        except MalformedSubchunkError:
            return
'''),
("bad",W,guess,guess.replace("                    if not data:\n                        continue\n","")),
("bad",W,guess,guess.replace("continue","break")),
("bad",W,guess,guess.replace("continue","return")),
("bad",W,guess,guess.replace("self.read_file_data(f, wadfile)","wadfile.read_data(f, self.subchunk_toc)")),
("bad",W,rfd,rfd.replace("return None","return b''")),
("bad",W,rfd,rfd.replace("return None","raise")),
("bad",W,rfd,rfd.replace("MalformedSubchunkError","OSError")),
("bad",W,rfd,rfd.replace("            return None","            return exc.data").replace("Error:","Error as exc:")),
("bad",X,xp,xp.replace("                if data is None:\n                    continue\n","")),
("bad",X,xp,xp.replace("continue","return")),
("bad",X,xp,xp.replace("continue","break")),
("bad",X,"BytesIO(data)","BytesIO(data or b'')") if 0 else ("bad",X,[xp,"BytesIO(data)"],[xp.replace("                if data is None:\n                    continue\n",""),"BytesIO(data or b'')"]),
("bad",X,"wad.read_file_data(fwad, wadfile)","wadfile.read_data(fwad, wad.subchunk_toc)"),
("bad",H,tx,tx.replace("continue\n                try","return\n                try")),
("bad",H,tx,tx.replace("                if data is None:\n                    continue\n","")),
("bad",H,gr,gr.replace("                if data is None:\n                    continue\n","")),
("bad",H,gr,gr.replace("continue","break")),
("bad",H,gr,gr.replace("wad.read_file_data(f, wadfile)","wadfile.read_data(f, wad.subchunk_toc)")),
("bad",W,'''                        try:
                            chunks_data.append(zstd_decompress(subchunk_data))
                        except Exception:
                            raise MalformedSubchunkError(data)
''','''                        chunks_data.append(zstd_decompress(subchunk_data))
'''),
("bad",W,'''                try:
                    return zstd_decompress(data)
                except Exception:
                    raise MalformedSubchunkError(data)
''','''                return zstd_decompress(data)
'''),
("bad",W,"len(subchunk_toc) < 16*(index+1)","len(subchunk_toc) < 16*index"),
("bad",W,'''                    if len(data) < offset + compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
                        raise MalformedSubchunkError(data)
''','''                    if len(data) < offset + compressed_size or xxh3_64_intdigest(subchunk_data) != subchunk_hash:
                        raise ValueError("bad subchunk")
'''),
# quiet
("ok",W,wex,wex.replace("        if data is None:\n            return\n\n        try:\n            with write_file_or_remove(output_path) as fout:\n                fout.write(data)\n","        try:\n            if data is not None:\n                with write_file_or_remove(output_path) as fout:\n                    fout.write(data)\n")),
("ok",W,wex,wex.replace("            return\n        if data","            data = None\n        if data")),
("ok",W,guess,guess.replace("if not data:","if data is None or len(data) == 0:")),
("ok",W,guess,'''                    data = self.read_file_data(f, wadfile)
                    if data:
                        ext = WadFileHeader.guess_extension(data)
                        wadfile.ext = ext
                        _hash_to_guessed_extensions[wadfile.path_hash] = ext
'''),
("ok",W,rfd,'''        data = None
        try:
            data = wadfile.read_data(fwad, self.subchunk_toc)
        except MalformedSubchunkError:
            logger.warning(f"failed to read subchunked wad entry {wadfile.path_hash:016x}")
        return data'''),
("ok",X,xp,xp.replace("if data is None:","if data is None:\n                    logger.debug('no data')")),
("ok",X,"data = wad.read_file_data(fwad, wadfile)\n","""try:
                    data = wadfile.read_data(fwad, wad.subchunk_toc)
                except ValueError:
                    raise
                except Exception:
                    continue
""") if 0 else ("ok",X,"                data = wad.read_file_data(fwad, wadfile)\n                if data is None:\n                    continue\n","                if (data := wad.read_file_data(fwad, wadfile)) is None:\n                    continue\n"),
("ok",H,tx,tx.replace("                if data is None:\n                    continue\n                try:","                if data is None:\n                    logger.debug('skip')\n                    continue\n                try:")),
("ok",H,gr,gr.replace("if wadfile.ext in ('bin', 'inibin'):","is_bin = wadfile.ext in ('bin', 'inibin')\n                if is_bin:")),
]
