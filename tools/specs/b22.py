ID = 'magic-not-at-start'
PROP = 'C60'
EDITS = [('cdtb/wad.py', 'if not data.startswith(matcher):', 'if matcher not in data[:16]:')]
NEEDS = 'content that holds the signature of another format soon after its start'
BREAKS = 'the file is given the extension of a format it does not have'
DEMO = '''
import sys
from cdtb.wad import WadFileHeader

got = WadFileHeader.guess_extension(b'{"enabled": true}')
if got != "json":
    sys.exit(f"a JSON text is taken for {got}")
if WadFileHeader.guess_extension(b"true" + bytes(20)) != "ttf":
    sys.exit("a font is not recognised")
'''
