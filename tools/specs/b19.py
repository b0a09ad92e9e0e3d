ID = 'submesh-index-shift'
PROP = 'C32'
EDITS = [('cdtb/sknfile.py', 'x - (0 if x < entry["start_vertex"] else entry["start_vertex"])', 'x - (0 if x <= entry["start_vertex"] + 1 else entry["start_vertex"])')]
NEEDS = 'a sub-mesh, other than the first, which uses its own first vertex'
BREAKS = 'faces of the extracted mesh refer to a vertex of another sub-mesh'
DEMO = '''
import io, struct, sys
from cdtb.sknfile import SknFile

f = struct.pack("<IHH", 0x112233, 2, 1) + struct.pack("<I", 2)
f += struct.pack("<64sIIII", b"one", 0, 3, 0, 3) + struct.pack("<64sIIII", b"two", 3, 3, 3, 3)
f += struct.pack("<II", 6, 6) + struct.pack("<HHHHHH", 0, 1, 2, 5, 4, 3)
for n in range(6):
    f += struct.pack("<fffBBBBfffffffff", n, n, n, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0)
skn = SknFile(io.BytesIO(f))
one, two = skn.entries
if one["indices"] != [1, 2, 3] or two["indices"] != [3, 2, 1]:
    sys.exit(f"wrong indices {two['indices']}")
'''
