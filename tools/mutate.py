#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED [FILE…]: plant N random one-place changes in copies of /repo's source, and see which checks report them.

Not part of any check: it is used to find what the checks miss."""
import ast
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = "/repo"
WORK = "/tmp/mutate"

CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
LOG = {"debug", "info", "warning", "error", "exception", "critical", "print", "write_message"}


def mutations(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return data[a:b].decode()
    out = []

    def add(kind, n, new):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append((kind, n.lineno, a, b, new))

    def walk(n, infstr=False):
        for f, v in ast.iter_fields(n):
            for ch in v if isinstance(v, list) else [v]:
                if isinstance(ch, ast.AST):
                    visit(ch, n, f, infstr)

    def visit(n, parent, field, infstr):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in LOG or isinstance(n.func, ast.Name) and n.func.id in LOG | {"progress_iterator"}):
            if isinstance(parent, ast.Expr):
                return
        if isinstance(n, ast.Raise):
            add("drop-raise", n, "pass")
            return
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                pass
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add("cmp", n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add("boolop", n, "(" + op.join(f"({seg(v)})" for v in n.values) + ")")
            for k in range(len(n.values)):
                add("drop-operand", n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({seg(v)})" for j, v in enumerate(n.values) if j != k) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("not", n, f"({seg(n.operand)})")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("negate", n.test, f"(not ({seg(n.test)}))")
            add("true", n.test, "True")
            add("false", n.test, "False")
        if isinstance(n, ast.Constant) and not infstr:
            if isinstance(n.value, bool):
                add("const", n, str(not n.value))
            elif isinstance(n.value, int):
                add("const", n, str(n.value + 1))
                if n.value:
                    add("const", n, str(n.value - 1))
            elif isinstance(n.value, str) and n.value:
                add("str", n, repr(n.value + "_") if not seg(n).startswith(("r", "R")) else "r" + repr(n.value + "_").replace("\\\\", "\\"))
            elif isinstance(n.value, bytes) and n.value:
                add("str", n, repr(n.value + b"_"))
            elif n.value is None and not isinstance(parent, ast.Return):
                add("const", n, "0")
        if isinstance(n, ast.Continue):
            add("jump", n, "break")
            add("jump", n, "pass")
        if isinstance(n, ast.Break):
            add("jump", n, "continue")
            add("jump", n, "pass")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not isinstance(parent, (ast.Module, ast.ClassDef)):
            add("drop-stmt", n, "pass")
        if isinstance(n, ast.Return):
            add("drop-return", n, "pass")
            if n.value is not None:
                add("return-none", n, "return None")
        if isinstance(n, ast.BinOp):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}.get(type(n.op))
            if new:
                add("arith", n, f"({seg(n.left)} {new} {seg(n.right)})")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add("arith-left", n, f"({seg(n.left)})")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                add("swap", n, f"{seg(n.func)}({', '.join([seg(n.args[1]), seg(n.args[0])] + [seg(a) for a in n.args[2:]] + [(k.arg + '=' if k.arg else '**') + seg(k.value) for k in n.keywords])})")
                add("drop-arg", n, f"{seg(n.func)}({', '.join([seg(a) for a in n.args[:-1]] + [(k.arg + '=' if k.arg else '**') + seg(k.value) for k in n.keywords])})")
            for k in n.keywords:
                add("drop-kw", n, f"{seg(n.func)}({', '.join([seg(a) for a in n.args] + [(j.arg + '=' if j.arg else '**') + seg(j.value) for j in n.keywords if j is not k])})")
            if isinstance(n.func, ast.Attribute) and not isinstance(parent, ast.Expr):
                add("unwrap-method", n, seg(n.func.value))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and not isinstance(n.args[0], (ast.GeneratorExp, ast.Starred)):
                add("unwrap", n, f"({seg(n.args[0])})")
        if isinstance(n, ast.For):
            add("iter-first", n.iter, f"list({seg(n.iter)})[:1]")
            add("iter-tail", n.iter, f"list({seg(n.iter)})[1:]")
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                add("comp-if", t, "True")
                add("comp-if", t, f"(not ({seg(t)}))")
        if isinstance(n, ast.ExceptHandler):
            if n.type is not None:
                add("except", n.type, "ZeroDivisionError")
        walk(n, infstr)
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            continue
        visit(st, tree, "body", False)
    res = []
    for kind, line, a, b, new in out:
        m = data[:a] + new.encode() + data[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((kind, line, a, b, new))
    return res


def anchors():
    out = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        out[d["id"]] = d["anchors"]["files"]
    return out


def one(job):
    n, rel, (kind, line, a, b, new), order = job
    root = f"{WORK}/{n}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree(f"{REPO}/cdtb", f"{root}/cdtb", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{root}/{rel}"
    data = open(p, "rb").read()
    old = data[a:b].decode()
    open(p, "wb").write(data[:a] + new.encode() + data[b:])
    rec = {"file": rel, "line": line, "kind": kind, "old": old, "new": new, "caught": [], "und": [], "errors": []}
    try:
        from vfa.program import Program, AnalysisBroken
        from vfa.report import Report
        from vfa.q import Ctx
        shutil.copytree(f"{REPO}/tests", f"{root}/tests", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(f"{REPO}/pyproject.toml", root)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root, HOME=f"{root}/home", XDG_DATA_HOME=f"{root}/xdg")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--basetemp={root}/tmp", "tests"], cwd=root, env=env, capture_output=True, timeout=60)
            rec["tests"] = t.returncode
        except subprocess.TimeoutExpired:
            rec["tests"] = "timeout"
        if rec["tests"] != 0:
            return rec
        prog = Program(root)
        for pid in order:
            mod = importlib.import_module(f"checks.{pid.lower()}")
            r = Report(pid, "quick")
            c = Ctx(prog, r, "quick")

            def alarm(*_):
                raise TimeoutError
            signal.signal(signal.SIGALRM, alarm)
            signal.alarm(100)
            try:
                mod.check(c)
            except AnalysisBroken as e:
                rec["und"].append(f"{pid} anchor: {e}")
            except BaseException as e:
                rec["errors"].append(f"{pid} {type(e).__name__}: {e}")
            finally:
                signal.alarm(0)
            bad = [o for o in r.obligations if o[0] is False]
            und = [o for o in r.obligations if o[0] is None]
            if bad:
                rec["caught"].append(f"{pid}: {bad[0][1]}")
                break
            if und:
                rec["und"].append(f"{pid}: {und[0][1]} {und[0][3][:80]}")
    except BaseException as e:
        rec["errors"].append(f"{type(e).__name__}: {e}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return rec


def main():
    out, n, seed, *files = sys.argv[1:]
    files = files or sorted(f"cdtb/{f}" for f in os.listdir(f"{REPO}/cdtb") if f.endswith(".py"))
    an = anchors()
    checks = sorted(f[:-3].upper() for f in os.listdir(f"{HERE}/checks") if f.startswith("c") and f[1:3].isdigit())
    jobs = []
    for rel in files:
        order = sorted(checks, key=lambda p: (rel not in an.get(p, ()), p))
        for m in mutations(f"{REPO}/{rel}"):
            jobs.append((rel, m, order))
    print(len(jobs), "mutations")
    random.Random(int(seed)).shuffle(jobs)
    if os.environ.get("AGAIN"):      # those that survived in an earlier run
        left = {(r["file"], r["kind"], r["old"], r["new"]) for r in map(json.loads, open(os.environ["AGAIN"])) if r.get("tests") == 0 and not r["caught"]}
        src = {rel: open(f"{REPO}/{rel}", "rb").read() for rel in files}
        jobs = [j for j in jobs if (j[0], j[1][0], src[j[0]][j[1][2]:j[1][3]].decode(), j[1][4]) in left]
        print(len(jobs), "of them again")
    if os.environ.get("SKIP"):       # not those of an earlier run
        seen = {(r["file"], r["line"], r["kind"], r["old"], r["new"]) for f in os.environ["SKIP"].split(":") for r in map(json.loads, open(f))}
        src = {rel: open(f"{REPO}/{rel}", "rb").read() for rel in files}
        jobs = [j for j in jobs if (j[0], j[1][1], j[1][0], src[j[0]][j[1][2]:j[1][3]].decode(), j[1][4]) not in seen]
    jobs = [(k, *j) for k, j in enumerate(jobs[:int(n)])]
    os.makedirs(WORK, exist_ok=True)
    for pid in checks:
        importlib.import_module(f"checks.{pid.lower()}")
    t = time.time()
    with open(out, "w") as f, mp.Pool(int(os.environ.get("JOBS", "8")), maxtasksperchild=1) as pool:
        tally = {"caught": 0, "tests": 0, "survived": 0}
        for k, rec in enumerate(pool.imap_unordered(one, jobs)):
            tally["tests" if rec.get("tests") != 0 else "caught" if rec["caught"] else "survived"] += 1
            f.write(json.dumps(rec) + "\n")
            f.flush()
    print(tally, f"{time.time() - t:.0f} s")


if __name__ == "__main__":
    main()
