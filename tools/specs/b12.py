ID = 'hash-padding'
PROP = 'C24'
EDITS = [('cdtb/hashes.py', 'f"{{:0{hash_size}x}} {{}}"', 'f"{{:{hash_size}x}} {{}}"')]
NEEDS = 'a hash whose first hexadecimal digit is zero'
BREAKS = 'the list saved cannot be loaded again'
DEMO = '''
import os, sys, tempfile
from cdtb.hashes import HashFile

with tempfile.TemporaryDirectory() as tmp:
    for size in (8, 10, 16):
        path = os.path.join(tmp, f"{size}.txt")
        f = HashFile(path, hash_size=size)
        f.hashes = {0xfedcba98: "some/path one.txt", 0x1234: "other.txt"}
        f.save()
        if HashFile(path, hash_size=size).load() != f.hashes:
            sys.exit("hashes are not the same")
'''
