H="hashes.py"
ak='''        print("%016x %s" % (h, p))
        self.known[h] = p
        self.unknown.remove(h)
'''
ck='''        h = xxh64_intdigest(p)
        if h in self.unknown:
            self._add_known(h, p)

    def is_known'''
ik='''        if h in self.unknown:
            self._add_known(h, p)
            return True
'''
ci='''        unknown = self.unknown
        for p in paths:
            h = xxh64_intdigest(p)
            if h in unknown:
                self._add_known(h, p)
'''
ini='''        self.unknown = hashes - set(self.known)
'''
CASES=[
("bad",H,ak,ak.replace("        self.unknown.remove(h)\n","")),
("bad",H,ak,ak.replace("self.unknown.remove(h)","self.unknown = set()")),
("bad",H,ak,ak.replace("self.known[h] = p","self.known[h] = p.lower()")),
("bad",H,ak,ak.replace("self.known[h] = p","self.known[h] = p\n        self.known.pop(0, None)")),
("bad",H,ck,ck.replace("if h in self.unknown:","if h not in self.known:")),
("bad",H,ck,ck.replace("if h in self.unknown:","if h in self.unknown or h in self.known:")),
("bad",H,ck,ck.replace("xxh64_intdigest(p)","xxh64_intdigest(p.lower())")),
("bad",H,ik,ik.replace("self._add_known(h, p)","self._add_known(h, p.lower())")),
("bad",H,ik,ik.replace("if h in self.unknown:","if h not in self.known and self.unknown:")),
("bad",H,ci,ci.replace("if h in unknown","if h not in self.known")),
("bad",H,ci,ci.replace("unknown = self.unknown","unknown = set(self.unknown)")),
("bad",H,ci,ci.replace("h = xxh64_intdigest(p)","h = xxh64_intdigest(p.rstrip('/'))")),
("bad",H,ini,"        self.unknown = hashes\n"),
("bad",H,ini,"        self.unknown = set(self.known) - hashes\n"),
("bad",H,"set(wf.path_hash for wad in wads for wf in wad.files)","set(wf.path_hash for wad in wads for wf in wad.files if wf.path)"),
("bad",H,'''            elif ext == '.json':
                self.check(f"{base}/{path}")
''','''            elif ext == '.json':
                self._add_known(xxh64_intdigest(f"{base}/{path}"), f"{base}/{path}")
'''),
("bad",H,'''    def check_text_list(self, text):
''','''    def check_text_list(self, text):
        self.known.update({xxh64_intdigest(s): s for s in text.split()})
'''),
("bad",H,'''    def save(self):
        self.hashfile.save()
''','''    def save(self):
        for h in [h for h, p in self.known.items() if not p]:
            del self.known[h]
        self.hashfile.save()
'''),
# quiet
("ok",H,ak,'''        self.known[h] = p
        self.unknown.discard(h)
        print(f"{h:016x} {p}")
'''),
("ok",H,ck,ck.replace("        if h in self.unknown:\n            self._add_known(h, p)","        if h not in self.unknown:\n            return\n        self._add_known(h, p)")),
("ok",H,ck,'''        self.check_iter([p])

    def is_known'''),
("ok",H,ci,'''        for p in paths:
            self.check(p)
'''),
("ok",H,ik,'''        found = h in self.unknown
        if found:
            self.known[h] = p
            self.unknown.remove(h)
            print("%016x %s" % (h, p))
            return True
'''),
("ok",H,ini,"        known_hashes = set(self.known)\n        self.unknown = {h for h in hashes if h not in self.known}\n"),
("ok",H,ini,"        self.unknown = hashes.difference(self.known)\n"),
("ok",H,ini,"        self.unknown = hashes - self.known.keys()\n"),
("ok",H,"set(wf.path_hash for wad in wads for wf in wad.files)","{wf.path_hash for wad in wads for wf in wad.files}"),
]
