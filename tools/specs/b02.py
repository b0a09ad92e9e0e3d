ID = "chunk-offset-incompressible"
PROP = "C04"
EDITS = [("cdtb/patcher.py", "offset = last_chunk.offset + last_chunk.size", "offset = last_chunk.offset + min(last_chunk.size, last_chunk.target_size)")]
NEEDS = "a bundle with an incompressible chunk (compressed size larger than its uncompressed size) followed by another chunk"
BREAKS = "the offsets of the chunks that follow an incompressible chunk are too low, they are read from the wrong place"
DEMO = '''
import sys
from cdtb.patcher import PatcherBundle

b = PatcherBundle(1)
b.add_chunk(10, 5, 20)
b.add_chunk(11, 30, 21)
b.add_chunk(12, 4, 8)
if [c.offset for c in b.chunks] != [0, 5, 35]:
    sys.exit(f"bad offsets: {[c.offset for c in b.chunks]}")
'''
