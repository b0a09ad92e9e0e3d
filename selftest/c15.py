S="storage.py"; R="rads.py"
loop='''        self.pos += n
        while n:
            if n <= len(self.buf):
                if writer:
                    writer(self.buf[:n])
                self.buf = self.buf[n:]
                return
            if writer and self.buf:
                writer(self.buf)
            n -= len(self.buf)
            self.buf = next(self.it)
'''
ex='''                for pkgfile in sorted(files, key=lambda f: f.offset):
'''
flt='''        extracted_files = [pf for pf in extracted_files if not os.path.isfile(self.project.storage.fspath(pf.extract_path))]
'''
wr='''                        if pkgfile.compressed:
                            zobj = zlib.decompressobj(zlib.MAX_WBITS | 32)
                            def writer(data):
                                return fout.write(zobj.decompress(data))
                            reader.copy(writer, pkgfile.size)
                            fout.write(zobj.flush())
                        else:
                            reader.copy(fout.write, pkgfile.size)
'''
CASES=[
 ("bad",S,"            if n <= len(self.buf):","            if n < len(self.buf):"),
 ("bad",S,"                self.buf = self.buf[n:]\n","                self.buf = self.buf[n + 1:]\n"),
 ("bad",S,"                    writer(self.buf[:n])","                    writer(self.buf)"),
 ("bad",S,"            n -= len(self.buf)\n            self.buf = next(self.it)","            self.buf = next(self.it)\n            n -= len(self.buf)"),
 ("bad",S,"                self.buf = self.buf[n:]\n                return","                return"),
 ("bad",S,"            if writer and self.buf:\n                writer(self.buf)","            if writer and len(self.buf) > 1:\n                writer(self.buf)"),
 ("bad",S,"        self.pos += n\n",""),
 ("bad",S,"        self.pos += n\n","        self.pos += len(self.buf)\n"),
 ("bad",S,"        self.pos += n\n        while n:","        while n:"),
 ("bad",S,"        self.skip(pos - self.pos)","        self.skip(pos)"),
 ("bad",S,"        self.skip(pos - self.pos)","        self.skip(self.pos - pos)"),
 ("bad",S,"        assert self.pos <= pos\n",""),
 ("bad",S,"        self.copy(None, n)","        self.copy(print, n)"),
 ("ok",S,loop,'''        self.pos += n
        while n > len(self.buf):
            if writer and self.buf:
                writer(self.buf)
            n -= len(self.buf)
            self.buf = next(self.it)
        if writer and n:
            writer(self.buf[:n])
        self.buf = self.buf[n:]
'''),
 ("bad",S,loop,'''        self.pos += n
        while n >= len(self.buf):
            if writer and self.buf:
                writer(self.buf)
            n -= len(self.buf)
            self.buf = next(self.it)
        if writer and n:
            writer(self.buf[:n])
        self.buf = self.buf[n:]
'''),
 ("ok",S,loop,'''        self.pos += n
        while n > 0:
            if not self.buf:
                self.buf = next(self.it)
            data, self.buf = self.buf[:n], self.buf[n:]
            if writer:
                writer(data)
            n -= len(data)
'''),
 ("bad",S,loop,'''        self.pos += n
        while n > 0:
            if not self.buf:
                self.buf = next(self.it)
            data, self.buf = self.buf[:n], self.buf[n:]
            if writer:
                writer(data)
            n -= len(self.buf)
'''),
 ("ok",S,loop,'''        self.pos += n
        while n:
            size = min(n, len(self.buf))
            if writer and size:
                writer(self.buf[:size])
            self.buf = self.buf[size:]
            n -= size
            if n:
                self.buf = next(self.it)
'''),
 ("bad",S,loop,'''        self.pos += n
        while n:
            size = min(n, len(self.buf))
            if writer and size:
                writer(self.buf[:size])
            self.buf = self.buf[size:]
            n -= size
            if not self.buf:
                self.buf = next(self.it)
'''),
 ("ok",S,loop,'''        end = self.pos + n
        self.pos = end
        remaining = n
        while remaining:
            if len(self.buf) >= remaining:
                if writer is not None:
                    writer(self.buf[:remaining])
                self.buf = self.buf[remaining:]
                break
            if writer is not None:
                writer(self.buf)
            remaining = remaining - len(self.buf)
            self.buf = next(self.it)
'''),
 ("ok",S,["        assert self.pos <= pos\n"],["        if pos < self.pos:\n            raise ValueError('cannot go back')\n"]),
 ("bad",R,ex,"                for pkgfile in files:\n"),
 ("bad",R,ex,"                for pkgfile in sorted(files, key=lambda f: f.size):\n"),
 ("bad",R,ex,"                for pkgfile in sorted(files, key=lambda f: f.offset, reverse=True):\n"),
 ("bad",R,ex,"                for pkgfile in sorted(files, key=lambda f: str(f.offset)):\n"),
 ("ok",R,ex,"                files.sort(key=lambda f: f.offset)\n                for pkgfile in files:\n"),
 ("ok",R,"                    logger.debug(f\"extracting {pkgfile.path}\")\n","                    fspath = self.project.storage.fspath(pkgfile.extract_path)\n"),
 ("bad",R,"                    reader.skip_to(pkgfile.offset)\n","                    reader.skip(pkgfile.offset)\n"),
 ("bad",R,"                    reader.skip_to(pkgfile.offset)\n","                    if pkgfile.compressed:\n                        reader.skip_to(pkgfile.offset)\n"),
 ("bad",R,"                            reader.copy(writer, pkgfile.size)","                            reader.copy(writer, pkgfile.offset)"),
 ("bad",R,"                        if pkgfile.compressed:","                        if not pkgfile.compressed:"),
 ("bad",R,"                            fout.write(zobj.flush())\n",""),
 ("bad",R,flt,""),
 ("bad",R,flt,flt.replace("if not os","if os")),
 ("bad",R,flt,flt.replace("pf.extract_path))]","pf.path))]")),
 ("ok",R,flt,'''        storage = self.project.storage
        def missing(pf):
            return not os.path.exists(storage.fspath(pf.extract_path))
        extracted_files = filter(missing, extracted_files)
'''),
 ("bad",R,[wr,"            with self.project.storage.stream("],[wr.replace("                            zobj = zlib.decompressobj(zlib.MAX_WBITS | 32)\n",""),"            zobj = zlib.decompressobj(zlib.MAX_WBITS | 32)\n            with self.project.storage.stream("]),
 ("ok",R,wr,'''                        if not pkgfile.compressed:
                            reader.copy(fout.write, pkgfile.size)
                        else:
                            decomp = zlib.decompressobj(zlib.MAX_WBITS | 32)
                            reader.copy(lambda data: fout.write(decomp.decompress(data)), pkgfile.size)
                            fout.write(decomp.flush())
'''),
 ("bad",R,'{package_files_path}/{package}','{package_files_path}/{files[0].path}'),
]
