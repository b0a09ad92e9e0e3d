B="binfile.py"
def m(name,old,new):
    """edit in one method"""
    import re
    s=open("/repo/cdtb/binfile.py").read()
    k=s.index(f"    def {name}(self")
    e=s.index("\n    def ",k+5) if "\n    def " in s[k+5:] else len(s)
    body=s[k:e]
    assert old in body,(name,old)
    return body, body.replace(old,new)
def case(want,name,old,new):
    o,n=m(name,old,new)
    return (want,B,o,n)
CASES=[
case("bad","read_s8","<b","<B"),
case("bad","read_u16","<H","<h"),
case("bad","read_s64","<q","<i"),
case("bad","read_bool","<?","<2?"),
case("bad","read_float","<f","<L"),
case("bad","read_vec3_float","<3f","<4f"),
case("bad","read_matrix4x4","range(4)","range(3)"),
case("bad","read_empty","<3H","<3L"),
case("bad","read_rgba","<4B","<4b"),
case("bad","read_string","<H","<L"),
case("bad","read_hash","<L","<Q"),
case("bad","read_path","BinPathValue","BinHashValue"),
case("bad","read_link","BinEntryPath","BinHashValue"),
case("bad","read_list","<BLL","<BLH"),
case("bad","read_list","range(count)","range(count - 1)"),
case("bad","read_struct","<LH","<LL"),
case("bad","read_struct","if htype == 0:","if htype == 1:"),
case("bad","read_embedded","<LLH","<LL H".replace(" ","H")),
case("bad","read_option","self.read_bvalue(vtype) if has_value else None","self.read_bvalue(vtype)"),
case("bad","read_option","'<B?'","'<B?H'"),
case("bad","read_map","(self.read_bvalue(ktype), self.read_bvalue(vtype)) for","(self.read_bvalue(vtype), self.read_bvalue(ktype)) for"),
case("bad","read_map","ktype, vtype, _, count","vtype, ktype, _, count"),
case("bad","read_field","<LB","<LH"),
case("bad","read_binfile_entry","        if self.f.tell() - pos != length:\n            raise ValueError(\"unexpected entry length\")\n",""),
case("bad","read_binfile_entry","+ 4  # skip","+ 0  # skip"),
case("bad","read_binfile_entry","- pos != length","- pos < length"),
case("bad","read_binfile_entry","length, hpath, count","hpath, length, count"),
case("bad","read_binfile_header","if version >= 2:","if version >= 3:"),
case("bad","read_binfile_header","{entry_count}L","{entry_count}H"),
case("bad","read_patch_section","'<2L'","'<L'"),
("bad",B,"        BinType.PATH: read_path,\n",""),
("bad",B,"        BinType.U32: read_u32,\n","        BinType.U32: read_s32,\n"),
("bad",B,"        BinType.LIST2: read_list,\n","        BinType.LIST2: read_option,\n"),
("bad",B,"        BinType.OPTION: read_option,\n        BinType.MAP: read_map,","        BinType.MAP: read_map,"),
case("ok","read_u16","return self.read_fmt('<H')[0]","v, = self.read_fmt('<H')\n        return v"),
case("ok","read_u32","return self.read_fmt('<I')[0]","return int.from_bytes(self.f.read(4), 'little')"),
case("ok","read_s16","return self.read_fmt('<h')[0]","return int.from_bytes(self.f.read(2), 'little', signed=True)"),
case("ok","read_matrix4x4","return tuple(self.read_fmt('<4f') for _ in range(4))","v = self.read_fmt('<16f')\n        return (v[0:4], v[4:8], v[8:12], v[12:16])"),
case("ok","read_string","return self.f.read(self.read_fmt('<H')[0]).decode('utf-8')","length = self.read_u16()\n        data = self.f.read(length)\n        return data.decode()"),
case("ok","read_list","vtype, _, count = self.read_fmt('<BLL')","vtype = self.read_u8()\n        self.f.seek(4, 1)\n        count = self.read_u32()"),
case("ok","read_list","        return BinList(vtype, [self.read_bvalue(vtype) for _ in range(count)])","        values = []\n        for _ in range(count):\n            v = self.read_bvalue(vtype)\n            values.append(v)\n        return BinList(vtype, values)"),
case("ok","read_struct","""        if htype == 0:
            count = 0
        else:
            _, count = self.read_fmt('<LH')
        return BinStruct(htype, [self.read_field() for _ in range(count)])""","""        if not htype:
            return BinStruct(htype, [])
        size, count = self.read_fmt('<LH')
        fields = [self.read_field() for _ in range(count)]
        return BinStruct(htype, fields)"""),
case("ok","read_option","        return BinOption(vtype, self.read_bvalue(vtype) if has_value else None)","        value = None\n        if has_value:\n            value = self.read_bvalue(vtype)\n        return BinOption(vtype, value)"),
case("ok","read_option","vtype, has_value = self.read_fmt('<B?')","vtype, has_value = self.read_fmt('<2B')"),
case("ok","read_map","        return BinMap(ktype, vtype, dict((self.read_bvalue(ktype), self.read_bvalue(vtype)) for _ in range(count)))","        values = {}\n        for _ in range(count):\n            key = self.read_bvalue(ktype)\n            values[key] = self.read_bvalue(vtype)\n        return BinMap(ktype, vtype, values)"),
case("ok","read_map","dict((self.read_bvalue(ktype), self.read_bvalue(vtype)) for _ in range(count))","{self.read_bvalue(ktype): self.read_bvalue(vtype) for _ in range(count)}"),
case("ok","read_binfile_entry","        if self.f.tell() - pos != length:\n            raise ValueError(\"unexpected entry length\")\n","        if pos + length != self.f.tell():\n            raise ValueError('invalid entry length')\n"),
case("ok","read_binfile_entry","        pos = self.f.tell() + 4  # skip 'length' size\n        length, hpath, count = self.read_fmt('<LLH')\n","        length = self.read_u32()\n        pos = self.f.tell()\n        hpath, count = self.read_fmt('<LH')\n"),
case("ok","read_binfile_header","list(self.read_fmt(f\"<{entry_count}L\"))","[self.read_u32() for _ in range(entry_count)]"),
case("ok","read_bvalue","return self._vtype_to_bvalue_reader[vtype](self)","reader = self._vtype_to_bvalue_reader[vtype]\n        return reader(self)"),
case("ok","read_bvalue","return self._vtype_to_bvalue_reader[vtype](self)","return getattr(self, f'read_{BinType(vtype).name.lower()}')()" ) if False else case("ok","read_fmt","""        length = struct.calcsize(fmt)
        return struct.unpack(fmt, self.f.read(length))""","""        s = struct.Struct(fmt)
        data = self.f.read(s.size)
        return s.unpack(data)"""),
case("ok","read_fmt","""        length = struct.calcsize(fmt)
        return struct.unpack(fmt, self.f.read(length))""","""        return struct.unpack(fmt, self.f.read(struct.calcsize(fmt)))"""),
]
