B="binfile.py"
E="export.py"
CASES=[
("bad",B,"if self.btype_version < 923:","if self.btype_version < 924:"),
("bad",B,"if self.btype_version < 1008:","if self.btype_version < 1007:"),
("bad",B,"                v = 0x80 + v - 18\n","                v = 0x80 + v - 19\n"),
("bad",B,"            if v >= 0x81:\n                v += 1","            if v > 0x81:\n                v += 1"),
("bad",B,"            if v == 18:\n                v = 0x80\n            elif v >= 19:","            if v >= 19:"),
("bad",B,"        if self.btype_version < 1008:\n            if v >= 0x81:","        elif self.btype_version < 1008:\n            if v >= 0x81:"),
("bad",B,"        return BinType(v)\n","        try:\n            return BinType(v)\n        except ValueError:\n            return BinType.EMPTY\n"),
("bad",B,"        vtype = self.parse_bintype(vtype)\n","        vtype = BinType(vtype)\n"),
("bad",B,"ktype, vtype = self.parse_bintype(ktype), self.parse_bintype(vtype)","ktype, vtype = self.parse_bintype(ktype), BinType(vtype)"),
("bad",B,"ktype, vtype = self.parse_bintype(ktype), self.parse_bintype(vtype)","ktype, vtype = self.parse_bintype(ktype), self.parse_bintype(ktype + 0 if ktype < 0 else vtype & 0x7f)"),
("bad",B,"        ftype = self.parse_bintype(ftype)\n","        ftype = BinType(ftype)\n"),
("bad",B,"btype_version or 1008","1008"),
("bad",B,"BinReader(f, btype_version=btype_version)","BinReader(f)"),
("bad",E,"BinFile(output_path, btype_version=self.btype_version)","BinFile(output_path)"),
("bad",E,"BinConverter(re.compile(r'game/.*\\.bin$'), game_version)","BinConverter(re.compile(r'game/.*\\.bin$'))"),
("bad",E,"BinConverter(re.compile(r'game/.*\\.bin$'), game_version)","BinConverter(re.compile(r'game/.*\\.bin$'), 1415)"),
("bad","tftdata.py","            tft_bin = BinFile(self_path, btype_version=self.game_version)","            tft_bin = BinFile(self_path)"),
("bad","arenadata.py","btype_version=self.game_version","btype_version=1415"),
("bad",E,"TftTransformer(os.path.join(self.output, \"game\"), game_version)","TftTransformer(os.path.join(self.output, \"game\"), 1415)"),
("bad","storage.py","return v0 * 100 + v1","return v0 * 10 + v1"),
("bad","storage.py","return 9999 #","return 999 #"),
("bad","storage.py","            return v0 * 100 + v1","            return int(f\"{v0}{v1}\")"),
("ok","storage.py","            v0, v1 = self.t\n            return v0 * 100 + v1","            return self.t[0] * 100 + self.t[1]"),
("ok",B,"            if v == 18:\n                v = 0x80\n            elif v >= 19:\n                v = 0x80 + v - 18\n","            if v >= 18:\n                v += 0x80 - 18\n"),
("ok",B,"            if v == 18:\n                v = 0x80\n            elif v >= 19:","            if v >= 18:"),
("ok",B,"        if self.btype_version < 1008:\n            if v >= 0x81:\n                v += 1","        if self.btype_version < 1008 and v > 0x80:\n            v = v + 1"),
("ok",B,"        vtype = self.parse_bintype(vtype)\n","        raw = vtype\n        vtype = self.parse_bintype(raw)\n"),
("ok",E,"        game_version = patch.version.as_int()\n","        version = patch.version\n        game_version = version.as_int()\n"),
("ok",B,"BinReader(f, btype_version=btype_version)","BinReader(f, btype_version)"),
("ok",B,"        return BinType(v)\n","        btype = BinType(v)\n        return btype\n"),
("ok",B,"        ftype = self.parse_bintype(ftype)\n        return BinField(hname, ftype, self.read_bvalue(ftype))","        return BinField(hname, self.parse_bintype(ftype), self.read_bvalue(self.parse_bintype(ftype)))"),
]
