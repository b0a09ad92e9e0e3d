ID = 'rads-shared-dependency'
PROP = 'C51'
EDITS = [('cdtb/rads.py', '[projects[name] for name in deps]', '[projects[name] for name in deps if name not in required_projects]')]
NEEDS = 'a language that lists a project which is required for every language too'
BREAKS = 'the projects of the language lack the shared one, so its files are not listed when the language is asked for'
DEMO = '''
import os, sys, tempfile
from cdtb.rads import RadsStorage, RadsSolution

TEXT = "\\n".join(["RADS Solution Manifest", "1.0.0.0", "sln", "0.0.1.2",
                  "3", "base", "0.0.0.1", "0", "0", "shared", "0.0.0.2", "0", "0", "fr", "0.0.0.3", "10", "0",
                  "1", "fr_fr", "0", "2", "fr", "shared", ""])
with tempfile.TemporaryDirectory() as d:
    st = RadsStorage(d)
    st.download = lambda url, path=None, **kw: path or url
    sln = RadsSolution(st, "sln")
    from cdtb.rads import RadsSolutionVersion, RadsVersion
    sv = RadsSolutionVersion(sln, RadsVersion("0.0.1.2"))
    os.makedirs(os.path.dirname(st.fspath(f"{sv.path}/solutionmanifest")), exist_ok=True)
    with open(st.fspath(f"{sv.path}/solutionmanifest"), "w") as f:
        f.write(TEXT)
    got = sorted(pv.project.name for pv in sv.projects("fr_fr"))
    if got != ["fr", "shared"]:
        sys.exit(f"projects of fr_fr: {got}")
    if sorted(pv.project.name for pv in sv.projects(False)) != ["base", "shared"]:
        sys.exit("required projects")
'''
