ID = "digest-chunk-order"
PROP = "C05"
EDITS = [("cdtb/patcher.py", """        for chunk in self.chunks:
            m.update(""", """        for chunk in sorted(self.chunks, key=lambda c: c.chunk_id):
            m.update(""")]
NEEDS = "two files made of the same chunks in a different order, with shared extracted files"
BREAKS = "both files get the same shared copy: the second one has the content of the first"
DEMO = '''
import sys
from cdtb.patcher import PatcherBundle, PatcherFile

b = PatcherBundle(1)
b.add_chunk(3, 5, 20)
b.add_chunk(2, 5, 20)
x, y = b.chunks
digests = {PatcherFile("n", 40, None, None, chunks).hexdigest() for chunks in ([x, y], [y, x], [x], [y], [x, x], [x, y, x])}
if len(digests) != 6:
    sys.exit("digest shared by different contents")
'''
