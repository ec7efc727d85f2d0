#!/usr/bin/env python3
"""Write seeded changes (patch.diff, demo.sh, meta.json) from tools/seeds*.py, and confirm each in a scratch copy of /repo.
usage: seed.py [substring]      confirm: builds, stable tests pass, demo passes without and fails with the change"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1] if len(sys.argv) > 1 else ""
seeds = []
for f in sorted(glob.glob(V + "/tools/seeds*.py")):
    ns = {}
    exec(open(f).read(), ns)
    seeds += ns["SEEDS"]

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


# these change only lines which the fixes in /repo added
DROPPED = """C06-case C06-collapse-recursion C06-deep-root C06-path-tail C09-case C09-prefix C15-rounding C15-time-truncated
C18-closing-latest C18-multicast-limit C21-blank-names C21-long-names C21-name-once C21-text-lengths C21-wide-line C23-kept
C23-one-digit C23-process-metrics C24-wide-pid C26-csv-sorted C26-otf2-kinds C33-csv-index""".split()
for s in seeds:
    if s["id"] in DROPPED:
        continue
    sid = s["id"]
    if only not in sid:
        continue
    d = os.path.join(V, "seeded", sid)
    work = tempfile.mkdtemp(prefix="seedwork")
    r = os.path.join(work, "repo")
    try:
        shutil.copytree("/repo", r, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) < 1:
                print(sid, "EDIT NOT FOUND", f, repr(old[:60])); break
            k = s.get("nth", 0)
            parts = t.split(old)
            if len(parts) > 2 and "nth" not in s:
                print(sid, "AMBIGUOUS", f, repr(old[:60])); break
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(t)
        else:
            os.makedirs(d, exist_ok=True)
            diff = sh(["git", "diff"], r).stdout
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n" + s["demo"])
            shutil.copy(V + "/tools/demolib.py", d + "/demolib.py")
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            ok = sh(["bash", d + "/demo.sh"], "/repo", env=env, timeout=200)
            bad = sh(["bash", d + "/demo.sh"], r, env=env, timeout=200)
            env2 = dict(env, PYTHONPATH=r)
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "--basetemp=" + work + "/tmp"], r, env=env2)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
            good = ok.returncode == 0 and bad.returncode != 0 and "12 passed" in last and "failed" not in last
            print(sid, "OK" if good else "BAD", "| demo clean", ok.returncode, "mutant", bad.returncode, "|", last)
            if ok.returncode:
                print(ok.stderr[-1500:])
            if not good and bad.returncode:
                print((t.stdout)[-800:])
            elif good:
                print("    ", (bad.stderr.strip().splitlines() or ["?"])[-1][:150])
    finally:
        shutil.rmtree(work)
