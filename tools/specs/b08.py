ID = 'subchunk-index-high'
PROP = 'C17'
EDITS = [('cdtb/wad.py', 'subchunk_index_lo + (subchunk_index_hi << 16)', 'subchunk_index_lo + (subchunk_index_hi << 8)')]
NEEDS = 'a version 3.4 archive with more than 65535 sub-chunks'
BREAKS = 'the sub-chunks of an entry are looked up at a wrong index of the table'
DEMO = '''
import os, struct, sys, tempfile
from cdtb.wad import Wad

with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, "x.wad.client")
    for index in (0, 1, 0xffff, 0x10000, 0x12345, 0xff0001):
        with open(path, "wb") as f:
            f.write(b"RW\\x03\\x04" + b"\\0" * 264 + struct.pack("<I", 1))
            f.write(struct.pack("<QIIIBBHQ", 1, 300, 2, 2, 0x14, index >> 16, index & 0xffff, 7))
        got = Wad(path, hashes={}).files[0].first_subchunk_index
        if got != index:
            sys.exit(f"{got} instead of {index}")
'''
