#!/usr/bin/env python3
"""trybugs.py [-a] [ids]: run each planted bug's own check (with -a: every check) on a scratch copy of
/repo with the bug applied, and tell which caught it."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
args = [a for a in args if a != "-a"]
ids = [i for i in sorted(os.listdir(os.path.join(V, "seeded"))) if not args or any(i.startswith(a) for a in args)]
props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="trybug-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/repo"], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tmp + "/repo", check=True)
        out = []
        for p in (props if allc else [prop]):
            t0 = time.time()
            r = subprocess.run([sys.executable, "check.py", p, "--quick"], cwd=V, env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=" + p in o
            out.append("%s:%s(%ds)" % (p, "CAUGHT" if hit else "missed" if r.returncode == 0 else "BROKEN rc=%d" % r.returncode, time.time() - t0))
            if "-v" in os.environ.get("TRY", ""):
                print(o[-3000:])
        print("%-45s %s" % (i, " ".join(out)), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
