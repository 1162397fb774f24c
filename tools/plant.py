#!/usr/bin/env python3
"""plant.py SPEC.py ...: makes /verif/seeded/<id> from a bug description and confirms it in a scratch copy.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (text of demo.py)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=300, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, **kw)


def main(spec):
    s = runpy.run_path(spec)
    out = os.path.join(VERIF, "seeded", s["ID"])
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["cp", "-a", "/repo", w])
        sh("git checkout -q -- . && git clean -fdq", w)
        demo = os.path.join(tmp, "demo")
        os.mkdir(demo)
        for f in ("demolib.py", "demo.sh"):
            shutil.copy(os.path.join(VERIF, "tools/demo", f), demo)
        shutil.copy(os.path.join(VERIF, "mc/avm.py"), demo)
        shutil.copytree(os.path.join(VERIF, "mc/data"), os.path.join(demo, "data"))
        open(os.path.join(demo, "demo.py"), "w").write("from demolib import *\n" + s["DEMO"])
        r = sh(f"bash {demo}/demo.sh", w)
        if r.returncode != 0:
            return f"demo fails on the unchanged tree: {(r.stdout + r.stderr)[-800:]}"
        for f, a, b in s["EDITS"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(a) != 1:
                return f"{t.count(a)} places for the edit in {f}"
            open(p, "w").write(t.replace(a, b))
        d = sh("git diff", w).stdout
        base = sh("git rev-list --max-parents=0 HEAD", w).stdout.split()[0]
        # the removed lines must be lines of the original repository
        for f in {e[0] for e in s["EDITS"]}:
            bl = sh(f"git blame -s -l HEAD -- {f}", w).stdout.splitlines()
            own = {int(l.split(")")[0].split()[-1]) for l in bl if not l.lstrip("^").startswith(base[:30])}
            n = 0
            for l in sh(f"git diff -U0 -- {f}", w).stdout.splitlines():
                if l.startswith("@@"):
                    n = int(l.split()[1].split(",")[0][1:])
                elif l.startswith("-") and not l.startswith("---"):
                    if n in own:
                        return f"line {n} of {f} was added by a fix"
                    n += 1
        r = sh(f"bash {demo}/demo.sh", w)
        if r.returncode == 0:
            return "demo passes with the change"
        msg = (r.stdout + r.stderr)[-200:]
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -x -o 'python_files=test*.py' tests 2>&1 | tail -5", w, env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1")).stdout
        if " failed" in t.replace(" xfailed", "") or "error" in t or " passed" not in t:
            return "the tests fail: " + t
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        for root, dirs, _ in os.walk(out):
            for x in list(dirs):
                if x == "__pycache__":
                    shutil.rmtree(os.path.join(root, x))
                    dirs.remove(x)
        open(os.path.join(out, "patch.diff"), "w").write(d)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "ok: " + msg.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp)


for spec in sys.argv[1:]:
    print(os.path.basename(spec), main(spec))
