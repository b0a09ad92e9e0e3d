#!/usr/bin/env python3
"""Self-test of the rules: apply textual variants of the repository in scratch copies and compare the verdict.

selftest/cXX.py defines CASES = [(want, file, old, new), ...]; want is "bad" (the rule must report a violation)
or "ok" (behaviour is unchanged, the rule must stay quiet). `old`/`new` may be lists for several edits in the file.
Usage: tools/selftest.py [C01 ...]
"""
import concurrent.futures as cf
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SELFTEST_REPO", "/repo")


def load(pid):
    p = os.path.join(HERE, "selftest", pid.lower() + ".py")
    if not os.path.exists(p):
        return []
    s = importlib.util.spec_from_file_location(pid, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m.CASES


def one(job):
    pid, n, (want, fn, old, new) = job
    d = tempfile.mkdtemp(prefix="selftest.")
    try:
        shutil.copytree(os.path.join(REPO, "cdtb"), os.path.join(d, "cdtb"))
        p = os.path.join(d, "cdtb", fn)
        s = open(p).read()
        olds, news = ([old], [new]) if isinstance(old, str) else (old, new)
        for o, w in zip(olds, news):
            if o not in s:
                return pid, n, want, "PATCH?", o[:80]
            s = s.replace(o, w) if want.endswith("*") else s.replace(o, w, 1)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return pid, n, want, "SYNTAX", str(e)
        open(p, "w").write(s)
        env = dict(os.environ, VERIF_EVIDENCE_DIR=os.path.join(d, "ev"))
        r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), pid, "--root", d], capture_output=True, text=True, env=env, timeout=900)
        got = {0: "ok", 1: "bad"}.get(r.returncode, f"rc{r.returncode}")
        if got == "ok" and "  undecided:" in r.stdout:
            got = "und"
        out = [l for l in (r.stdout + r.stderr).splitlines() if "violated:" in l or "undecided:" in l or "Error" in l or "broken" in l]
        return pid, n, want.rstrip("*"), got, (out or [""])[0][:200]
    finally:
        shutil.rmtree(d)


def main():
    pids = [a.upper() for a in sys.argv[1:]] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "selftest")) if f.endswith(".py"))
    jobs = [(p, n, c) for p in pids for n, c in enumerate(load(p))]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for pid, n, want, got, msg in ex.map(one, jobs):
            if want != got:
                bad += 1
                print(f"{'~~' if got == 'und' else '!!'} {pid} case {n}: want {want} got {got} {msg}")
    print(f"{len(jobs)} cases, {bad} unexpected")


main()
