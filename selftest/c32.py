F = "sknfile.py"
X = "export.py"
CASES = [
    ("bad", F, '''content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\\n".format(a, b, c)''', '''content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}{2}\\n".format(a, b, c)'''),
    ("bad", F, '''content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\\n".format(a, b, c)''', '''content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{1}/{2}\\n".format(a, b, c)'''),
    ("bad", F, '''.format(a, b, c)''', '''.format(a, c, b)'''),
    ("ok", F, '''content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\\n".format(a, b, c)''', '''content += f"f {a}/{a}/{a} {b}/{b}/{b} {c}/{c}/{c}\\n"'''),
    ("bad", F, '''range(0, len(entry["indices"]), 3)''', '''range(3, len(entry["indices"]), 3)'''),
    ("bad", F, '''range(0, len(entry["indices"]), 3)''', '''range(0, len(entry["indices"]) - 3, 3)'''),
    ("bad", F, '''entry["indices"][i : i + 3]''', '''entry["indices"][i + 1 : i + 4]'''),
    ("ok", F, '''            a, b, c = entry["indices"][i : i + 3]
''', '''            a = entry["indices"][i]
            b = entry["indices"][i + 1]
            c = entry["indices"][i + 2]
'''),
    ("ok", F, '''        for i in range(0, len(entry["indices"]), 3):
            a, b, c = entry["indices"][i : i + 3]
''', '''        for n in range(len(entry["indices"]) // 3):
            a, b, c = entry["indices"][3 * n : 3 * n + 3]
'''),
    ("ok", F, '''        for i in range(0, len(entry["indices"]), 3):
            a, b, c = entry["indices"][i : i + 3]
''', '''        ind = entry["indices"]
        for a, b, c in zip(ind[::3], ind[1::3], ind[2::3]):
'''),
    ("bad", F, '''        for i in range(0, len(entry["indices"]), 3):
            a, b, c = entry["indices"][i : i + 3]
''', '''        ind = entry["indices"]
        for a, b, c in zip(ind[::3], ind[2::3], ind[1::3]):
'''),
    ("bad", F, '''"vt %s %s\\n" % vert["uv"]''', '''"vt %s %s\\n" % vert["uv"][::-1]'''),
    ("bad", F, '''content += "vn %s %s %s\\n" % vert["normal"]''', '''content += "vn %s %s %s\\n" % vert["position"]'''),
    ("bad", F, '''            content += "vt %s %s\\n" % vert["uv"]
            content += "vn %s %s %s\\n" % vert["normal"]
''', '''            content += "vn %s %s %s\\n" % vert["normal"]
            content += "vt %s %s\\n" % vert["uv"]
'''),
    ("ok", F, '''            content += "vt %s %s\\n" % vert["uv"]
            content += "vn %s %s %s\\n" % vert["normal"]
''', '''            u, v = vert["uv"]
            content += f"vt {u} {v}\\n" + "vn {} {} {}\\n".format(*vert["normal"])
'''),
    ("bad", F, '''"vt %s %s\\n"''', '''"vt %s %s"'''),
    ("ok", F, '''        content = ""
        for vert in entry["vertices"]:
            content += "v %s %s %s\\n" % vert["position"]
            content += "vt %s %s\\n" % vert["uv"]
            content += "vn %s %s %s\\n" % vert["normal"]

        for i in range(0, len(entry["indices"]), 3):
            a, b, c = entry["indices"][i : i + 3]
            content += "f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\\n".format(a, b, c)

        return content
''', '''        lines = []
        for vert in entry["vertices"]:
            lines.append("v %s %s %s\\n" % vert["position"])
            lines.append("vt %s %s\\n" % vert["uv"])
            lines.append("vn %s %s %s\\n" % vert["normal"])

        for i in range(0, len(entry["indices"]), 3):
            a, b, c = entry["indices"][i : i + 3]
            lines.append("f {0}/{0}/{0} {1}/{1}/{1} {2}/{2}/{2}\\n".format(a, b, c))

        return "".join(lines)
'''),
    ("bad", F, '''        for vert in entry["vertices"]:
            content += "v''', '''        for vert in entry["vertices"][1:]:
            content += "v'''),
    # ranges
    ("bad", F, '''vertices[entry["start_vertex"] : entry["start_vertex"] + entry["vertex_count"]]''', '''vertices[entry["start_vertex"] : entry["vertex_count"]]'''),
    ("bad", F, '''indices[entry["start_index"] : entry["start_index"] + entry["index_count"]]''', '''indices[entry["start_index"] : entry["start_index"] + entry["vertex_count"]]'''),
    ("bad", F, '''else entry["start_vertex"])
''', '''else entry["start_index"])
'''),
    ("bad", F, '''0 if x < entry["start_vertex"] else''', '''0 if x < entry["vertex_count"] else'''),
    ("bad", F, '''x - (0 if x < entry["start_vertex"] else entry["start_vertex"])''', '''x'''),
    ("ok", F, '''x - (0 if x < entry["start_vertex"] else entry["start_vertex"])''', '''(x if x < entry["start_vertex"] else x - entry["start_vertex"])'''),
    ("ok", F, '''x - (0 if x < entry["start_vertex"] else entry["start_vertex"])''', '''(x - entry["start_vertex"] if x > entry["start_vertex"] else x)'''),
    ("bad", F, '''x - (0 if x < entry["start_vertex"] else entry["start_vertex"])''', '''(x - entry["start_vertex"] if x > entry["start_vertex"] + 1 else x)'''),
    ("bad", F, ['''indices = [(f.unpack("<H")[0] + 1) for i in range(index_count)]'''] , ['''indices = [f.unpack("<H")[0] for i in range(index_count)]''']),
    ("ok", F, '''        for entry in self.entries:
            entry["vertices"] = vertices[entry["start_vertex"] : entry["start_vertex"] + entry["vertex_count"]]
''', '''        for entry in self.entries:
            first = entry["start_vertex"]
            last = first + entry["vertex_count"]
            entry["vertices"] = vertices[first:last]
'''),
    # layout
    ("bad", F, '''            "start_vertex": f.unpack("<I")[0],
            "vertex_count": f.unpack("<I")[0],
''', '''            "vertex_count": f.unpack("<I")[0],
            "start_vertex": f.unpack("<I")[0],
'''),
    ("ok", F, '''        return {
            "name": f.unpack("64s")[0].split(b"\\0", 1)[0].decode("utf-8"),
            "start_vertex": f.unpack("<I")[0],
            "vertex_count": f.unpack("<I")[0],
            "start_index": f.unpack("<I")[0],
            "index_count": f.unpack("<I")[0],
        }
''', '''        name, sv, vc, si, ic = f.unpack("<64sIIII")
        return {
            "name": name.split(b"\\0", 1)[0].decode("utf-8"),
            "start_vertex": sv,
            "vertex_count": vc,
            "start_index": si,
            "index_count": ic,
        }
'''),
    ("bad", F, '''        index_count, vertex_count = f.unpack("<II")

        if self.major == 4:''', '''        vertex_count, index_count = f.unpack("<II")

        if self.major == 4:'''),
    ("bad", F, '''        if self.major == 4:
            self.unknown''', '''        if self.major >= 2:
            self.unknown'''),
    ("ok", F, '''        if self.major == 4:
            self.unknown''', '''        if self.major >= 4:
            self.unknown'''),
    ("bad", F, '''            "weight": f.unpack("<ffff"),
            "normal": f.unpack("<fff"),
''', '''            "normal": f.unpack("<fff"),
            "weight": f.unpack("<ffff"),
'''),
    ("bad", F, '''self.vertex_type >= 1 else''', '''self.vertex_type == 1 else'''),
    ("ok", F, '''self.vertex_type >= 1 else''', '''self.vertex_type in (1, 2) else'''),
    ("bad", F, '''self.vertex_type == 2 else''', '''self.vertex_type >= 1 else'''),
    ("bad", F, '''            raise ValueError("missing magic code")
''', '''            print("missing magic code")
'''),
    # files
    ("bad", X, '''entry["name"] + ".obj")''', '''"mesh" + ".obj")'''),
    ("bad", X, '''            for entry in sknfile.entries:
''', '''            for entry in sknfile.entries[1:]:
'''),
    ("bad", X, '''sknfile.to_obj(entry)''', '''sknfile.to_obj(sknfile.entries[0])'''),
    ("ok", X, '''                name = os.path.join(obj_output_path, entry["name"] + ".obj")
                with open(name, "w") as f:
                    f.write(sknfile.to_obj(entry))
''', '''                obj = sknfile.to_obj(entry)
                with open(f"{obj_output_path}/{entry['name']}.obj", "w") as fobj:
                    fobj.write(obj)
'''),
    ("bad", "sknfile.py", """            entry["vertices"] = vertices[entry["start_vertex"] : entry["start_vertex"] + entry["vertex_count"]]\n""", ""),
    ("bad", "sknfile.py", """range(0, len(entry["indices"]), 3)""", """list(range(0, len(entry["indices"]), 3))[:1]"""),
    ("bad", "sknfile.py", """range(0, len(entry["indices"]), 3)""", """range(0, len(entry["vertices"]), 3)"""),
    ("bad", "sknfile.py", "        return content", "        pass"),
    ("bad", "sknfile.py", 'split(b"\\0", 1)[0]', 'split(b"\\0", 1)[1]'),
    ("bad", "sknfile.py", 'split(b"\\0", 1)[0]', 'rstrip(b"\\0")'),
    ("bad", "sknfile.py", '        for entry in self.entries:', '        for entry in self.entries[:2]:'),
    ("bad", "sknfile.py", '            self.unknown, = f.unpack("<I")', '            pass'),
]
