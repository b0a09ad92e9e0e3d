ID = 'duplicate-candidate'
PROP = 'C45'
EDITS = [('cdtb/hashes.py', '        unknown = self.unknown\n        for p in paths:', '        unknown = set(self.unknown)\n        for p in paths:')]
NEEDS = 'the same matching candidate enumerated twice by one call of check_iter()'
BREAKS = 'the guessing ends with a KeyError, what was found is not saved'
DEMO = '''
import sys
from xxhash import xxh64_intdigest
from cdtb.hashes import HashGuesser

class Hashes:
    def load(self):
        return {}

for paths in (["a"], ["a", "b"], ["b", "a", "b"], ["c", "a", "b", "a"]):
    g = HashGuesser(Hashes(), {xxh64_intdigest(p) for p in "ab"})
    g.check_iter(p for p in paths)
    if set(g.known.values()) != set(paths) - {"c"}:
        sys.exit("wrong hashes recorded")
'''
