#!/usr/bin/env python3
"""mutants.py SPEC.py [names]: quick trial of changes.  SPEC.py: M = [(name, props, file, old, new)].  Each is
applied to a scratch copy, must build and pass the stable tests, and the checks of its properties are run on it."""
import os, runpy, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vt import go_env
BASE = os.environ.get("BASE", "/repo")
ms = runpy.run_path(sys.argv[1])["M"]
only = sys.argv[2:]
for m in ms:
    name, props = m[0], m[1].split()
    edits = [m[2:5]] if isinstance(m[2], str) else m[2]
    if only and not any(name.startswith(o) for o in only):
        continue
    tmp = tempfile.mkdtemp(prefix="mut-")
    w = tmp + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", BASE, w], check=True)
        bad = None
        for f, old, new in edits:
            t = open(os.path.join(w, f)).read()
            if t.count(old) != 1:
                bad = "matches %d times in %s" % (t.count(old), f)
                break
            open(os.path.join(w, f), "w").write(t.replace(old, new))
        if bad:
            print("%-50s %s" % (name, bad), flush=True)
            continue
        r = subprocess.run("go build ./... && go test -count=1 ./pkg/core/parser/", shell=True, cwd=w, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("%-50s DOES NOT BUILD/PASS %s" % (name, r.stdout.decode()[-600:]), flush=True)
            continue
        out = []
        for p in props:
            t0 = time.time()
            r = subprocess.run([sys.executable, "check.py", p, "--quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1")),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=" + p in o
            out.append("%s:%s(%ds)" % (p, "CAUGHT" if hit else "MISSED" if r.returncode == 0 else "BROKEN rc=%d" % r.returncode, time.time() - t0))
            if os.environ.get("TRY") or not hit and r.returncode:
                print(o[-2500:])
        print("%-50s %s" % (name, " ".join(out)), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
