ID = 'list-date-local'
PROP = 'C25'
EDITS = [('cdtb/hashes.py', '.replace(tzinfo=datetime.timezone.utc)', '')]
NEEDS = 'a time zone other than UTC, and a list updated on the server within the offset to it'
BREAKS = 'the newer list is not fetched'
DEMO = '''
import os, sys, tempfile, time
from pathlib import Path
import cdtb.hashes as hashes

class R:
    headers = {"last-modified": "Tue, 02 Jan 2024 10:00:00 GMT"}
    content = b"new"
    def raise_for_status(self):
        pass

hashes.requests.get = lambda url: R()
hashes.requests.head = lambda url: R()
T = 1704189600
with tempfile.TemporaryDirectory() as tmp:
    hashes.default_hash_dir = Path(tmp)
    for tz in ("UTC0", "XXX5", "XXX-5"):
        os.environ["TZ"] = tz
        time.tzset()
        for dt, new in ((-3600, True), (3600, False), (-86400, True), (86400, False)):
            p = Path(tmp) / "x.txt"
            p.write_bytes(b"old")
            os.utime(p, (T + dt, T + dt))
            hashes.update_default_hashfile("x.txt")
            if (p.read_bytes() == b"new") != new:
                sys.exit(f"{tz} {dt}: wrong list")
'''
