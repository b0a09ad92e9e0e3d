ID = "write-interrupt"
PROP = "C01"
EDITS = [("cdtb/tools.py", """            yield f
    except:
        # remove partially written file""", """            yield f
    except Exception:
        # remove partially written file""")]
NEEDS = "an interrupt (KeyboardInterrupt) received while the file is being written"
BREAKS = "an interrupted write leaves a truncated file which is then taken for a complete one"
DEMO = '''
import os, sys, tempfile
from cdtb.tools import write_file_or_remove

with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, "a", "b")
    try:
        with write_file_or_remove(path) as f:
            f.write(b"partial")
            raise KeyboardInterrupt
    except KeyboardInterrupt:
        pass
    else:
        sys.exit("interrupt lost")
    if os.path.exists(path):
        sys.exit("partial file left")
'''
