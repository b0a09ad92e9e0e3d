H="hashes.py"
ld='''                    hashes = (l.split(' ', 1) for l in f)
                    self.hashes = {int(h, 16): s.rstrip('\\n') for h, s in hashes}
'''
sv='''            for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
                print(self.line_format.format(h, s), file=f)
'''
lf='''        self.line_format = f"{{:0{hash_size}x}} {{}}"\n'''
wo="with open(self.filename, 'w', newline='', encoding='utf-8') as f:"
CASES=[
("bad",H,"l.split(' ', 1)","l.split(' ')"),
("bad",H,ld,'''                    self.hashes = {}
                    for l in f:
                        parts = l.split()
                        self.hashes[int(parts[0], 16)] = parts[1]
'''),
("bad",H,"s.rstrip('\\n') for","s.rstrip() for"),
("bad",H,"s.rstrip('\\n') for","s for"),
("bad",H,"s.rstrip('\\n') for","s.rstrip('\\n').lower() for"),
("bad",H,"int(h, 16)","int(h)"),
("bad",H,"l.split(' ', 1)","l.rsplit(' ', 1)"),
("bad",H,"if force or self.hashes is None:","if self.hashes is None:"),
("bad",H,ld,ld.replace("self.hashes =","self.cache =")),
("bad",H,lf,lf.replace(":0{",":{")),
("bad",H,lf,lf.replace("{hash_size}","16")),
("bad",H,lf,lf.replace("x}} ","x}},")),
("bad",H,lf,lf.replace("}} {{","}}  {{")),
("bad",H,wo,wo.replace("'w'","'a'")),
("bad",H,wo,wo.replace("encoding='utf-8'","encoding='ascii', errors='ignore'")),
("bad",H,wo,wo.replace("encoding='utf-8'","encoding='utf-16'")),
("bad",H,sv,sv.replace("format(h, s)","format(h, s.strip())")),
("bad",H,sv,sv.replace("format(h, s)","format(s, h)").replace("h, s in","h, s in")),
("bad",H,sv,sv.replace("file=f","file=f, end=''")),
("bad",H,sv,sv.replace("                print","                if s:\n                    print").replace("if s","if h & 1")),
("bad","binfile.py",'"hashes.bintypes.txt", hash_size=8','"hashes.bintypes.txt"'),
("bad","rstfile.py",'"hashes.rst.xxh3.txt", hash_size=16','"hashes.rst.xxh3.txt", hash_size=10'),
("ok",H,ld,'''                    self.hashes = {}
                    for line in f:
                        h, sep, s = line.partition(' ')
                        self.hashes[int(h, base=16)] = s.rstrip('\\r\\n')
'''),
("ok",H,ld,'''                    hashes = {}
                    for line in f:
                        line = line.rstrip('\\n')
                        if not line:
                            continue
                        h, s = line.split(' ', maxsplit=1)
                        hashes[int(h, 16)] = s
                    self.hashes = hashes
'''),
("ok",H,ld,'''                    self.hashes = dict(self._parse(l) for l in f)
'''),
("ok",H,[lf,sv],["        self.hash_size = hash_size\n",'''            for h, s in sorted(self.hashes.items(), key=lambda kv: kv[1]):
                f.write(f"{h:0{self.hash_size}x} {s}\\n")
''']),
("ok",H,sv,'''            for h in sorted(self.hashes, key=self.hashes.get):
                f.write(self.line_format.format(h, self.hashes[h]))
                f.write('\\n')
'''),
("ok",H,sv,'''            items = list(self.hashes.items())
            items.sort(key=lambda kv: kv[1])
            f.writelines(self.line_format.format(h, s) + "\\n" for h, s in items)
'''),
("ok",H,lf,'''        self.line_format = "{:0%dx} {}" % hash_size\n'''),
("ok",H,lf,'''        self.line_format = "{:0" + str(hash_size) + "x} {}"\n'''),
("ok",H,[wo,"with open(self.filename, encoding='utf-8') as f:\n                    hashes"],[wo.replace("utf-8","UTF-8"),"with open(self.filename, encoding='utf8') as f:\n                    hashes"]),
("ok",H,"        if force or self.hashes is None:\n            try:","        if not force and self.hashes is not None:\n            return self.hashes\n        else:\n            try:"),
]
CASES[24]=("ok",H,[ld,"    def save(self):\n        with"],['''                    self.hashes = dict(self._parse(l) for l in f)
''','''    @staticmethod
    def _parse(line):
        h, s = line.split(' ', 1)
        return int(h, 16), s.rstrip('\\n')

    def save(self):
        with'''])
