ID = 'encrypted-string-size'
PROP = 'C30'
EDITS = [('cdtb/rstfile.py', "int.from_bytes(data[i+1:][:2], 'little')", "int.from_bytes(data[i+1:][:1], 'little')")]
NEEDS = 'an encrypted string of 256 bytes or more'
BREAKS = 'the string is cut'
DEMO = '''
import io, struct, sys
from base64 import b64decode
from cdtb.rstfile import RstFile

for n in (3, 255, 256, 700):
    text = bytes(range(256)) * 3
    data = b"plain\\0" + b"\\xff" + struct.pack("<H", n) + text[:n]
    head = b"RST\\x03" + struct.pack("<L", 2) + struct.pack("<QQ", 1, 2 | 6 << 40) + b"\\x01"
    rst = RstFile(io.BytesIO(head + data))
    if rst.entries[1] != "plain" or b64decode(rst.entries[2]) != text[:n]:
        sys.exit(f"wrong string for {n} bytes")
'''
