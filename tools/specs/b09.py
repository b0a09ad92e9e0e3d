ID = 'subchunk-larger-compressed'
PROP = 'C18'
EDITS = [('cdtb/wad.py', '                    if compressed_size == uncompressed_size:', '                    if compressed_size >= uncompressed_size:')]
NEEDS = 'a sub-chunk whose compressed form is longer than its data (a few incompressible bytes)'
BREAKS = 'the compressed bytes are taken for the data'
DEMO = '''
import io, struct, sys
from xxhash import xxh3_64_intdigest
import cdtb.wad as wad
from cdtb.tools import zstd_decompress

def frame(data):
    """A zstd frame with a single raw block."""
    return bytes.fromhex("28b52ffd") + bytes([0x20, len(data)]) + struct.pack("<I", 1 | len(data) << 3)[:3] + data

for data in (b"abc", b"x" * 40):
    packed = frame(data)
    assert zstd_decompress(packed) == data
    toc = struct.pack("<IIQ", len(packed), len(data), xxh3_64_intdigest(packed))
    wf = wad.WadFileHeader(1, 0, len(packed), len(data), 0x14, False, 0, 0)
    if wf.read_data(io.BytesIO(packed), toc) != data:
        sys.exit("wrong data")
'''
