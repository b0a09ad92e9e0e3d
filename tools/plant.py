"""plant.py FILE...: write and verify planted bugs.

Each FILE is Python defining ID, PROP, EDITS = [(file, old, new)], NEEDS, BREAKS and DEMO (source of demo.py).
Writes seeded/<ID>/, then verifies in a scratch copy: the demonstration passes without the change and fails with it, the
stable tests pass with it, and reports what the check of the property says.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def one(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(HERE, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        sh("git checkout -q -- . && git clean -fdq", repo)
        base = sh("git log --format=%H --reverse | head -1", repo).stdout.strip()
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{ns['ID']}: edit of {f} matches {s.count(old)} times")
                return
            if ns.get("REMOVED_IN_BASE", True):
                b = sh(["git", "show", f"{base}:{f}"], repo).stdout
                for line in old.split("\n"):
                    if line.strip() and line not in new.split("\n") and line not in b:
                        print(f"{ns['ID']}: NOTE line not in the original: {line.strip()[:80]}")
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        bad = sh(["bash", os.path.join(d, "demo.sh")], repo)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], repo,
               env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/opt/venv/bin:" + os.environ["PATH"]})
        ev = os.path.join(tmp, "ev")
        chk = sh(["python3", os.path.join(HERE, "run.py"), ns["PROP"], "--root", repo], "/", env={**os.environ, "VERIF_EVIDENCE_DIR": ev})
        sh("git checkout -q -- .", repo)
        good = sh(["bash", os.path.join(d, "demo.sh")], repo)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        okd = good.returncode == 0 and bad.returncode not in (0, 124)
        rec = os.path.join(HERE, "tools", "planted.json")
        d2 = json.load(open(rec)) if os.path.exists(rec) else {}
        d2[ns["ID"]] = ns["PROP"] if chk.returncode == 1 else "not caught"
        json.dump(d2, open(rec, "w"), indent=1, sort_keys=True)
        print(f"{ns['ID']} {ns['PROP']}: demo {'ok' if okd else 'WRONG'} (clean {good.returncode}, patched {bad.returncode}); tests: {last}; check: {'CAUGHT' if chk.returncode == 1 else 'missed ' + str(chk.returncode)}")
        if not okd:
            print(good.stdout[-600:], good.stderr[-1500:], "--patched--", bad.stdout[-500:], bad.stderr[-500:])
        if chk.returncode == 1:
            print("   ", [l for l in chk.stdout.splitlines() if "violated:" in l][:2])
        else:
            print(chk.stdout[-500:])
    finally:
        shutil.rmtree(tmp)


for a in sys.argv[1:]:
    one(a)
