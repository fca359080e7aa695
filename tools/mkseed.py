#!/usr/bin/env python3
"""mkseed.py SPEC.py: plant bugs.  SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)],
demo=body, needs, breaks)].  Each is confirmed in a scratch copy (builds, the stable tests pass, the
demo passes without and fails with it) and then kept in /verif/seeded/<id>."""
import json, os, runpy, shutil, stat, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vt import go_env
HEAD = r'''#!/bin/bash
# run in /repo after the build; works in a scratch folder of its own
set -u
T=$(mktemp -d /tmp/ticat-demo-XXXXXX)
trap 'rm -rf "$T"' EXIT
cp bin/ticat "$T/ticat" || exit 3
mkdir -p "$T/mods" "$T/cwd" "$T/ticat.data/hub"
printf '\t<local>\t%s\t\ton\n' "$T/mods" > "$T/ticat.data/hub/repos.hub"
cd "$T/cwd" || exit 3
export HOME="$T" T
t() { timeout 60 "$T/ticat" "$@"; }
mod() { printf '%s\n' "$2" > "$T/mods/$1.bash"; printf '%s\n' "$3" > "$T/mods/$1.bash.ticat"; }
flow() { printf 'flow = %s\n' "$2" > "$T/mods/$1.tiflow"; }
want() { # want WHAT EXPECTED ACTUAL
  if [ "$2" != "$3" ]; then echo "FAIL $1: expected <$2>, got <$3>"; exit 1; fi; }
'''
B = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))


def demo(path, cwd):
    e = {k: v for k, v in os.environ.items()}
    try:
        p = subprocess.run(["bash", path], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def build(d):
    r = sh("go build ./... && go build -o bin/ticat ./pkg/main", d)
    return r.returncode, r.stdout.decode(errors="replace")


def tests(d):
    r = sh("go test -count=1 ./pkg/core/parser/", d)
    return r.returncode, r.stdout.decode(errors="replace")


spec = runpy.run_path(sys.argv[1])["SEEDS"]
only = set(sys.argv[2:])
for s in spec:
    if only and s["id"] not in only:
        continue
    d = tempfile.mkdtemp(prefix="seedwt-")
    w = os.path.join(d, "repo")
    try:
        subprocess.run(["git", "clone", "-q", B, w], check=True)
        rc, out = build(w)
        assert rc == 0, out
        out_dir = os.path.join(d, "out")
        os.makedirs(out_dir)
        dp = os.path.join(out_dir, "demo.sh")
        open(dp, "w").write(HEAD + s["demo"].strip("\n") + "\nexit 0\n")
        os.chmod(dp, 0o755)
        ok = True
        rc, out = demo(dp, w)
        if rc != 0:
            print(s["id"], "DEMO FAILS ON CLEAN TREE", rc, out[-1500:]); continue
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches %d times in %s" % (t.count(old), f)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        rc, out = build(w)
        if rc != 0:
            print(s["id"], "DOES NOT BUILD", out[-1500:]); continue
        rc, out = tests(w)
        if rc != 0:
            print(s["id"], "BREAKS TESTS", out[-1500:]); continue
        rc, out = demo(dp, w)
        if rc == 0:
            print(s["id"], "DEMO PASSES WITH THE BUG"); continue
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
        open(os.path.join(out_dir, "patch.diff"), "wb").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out_dir, "meta.json"), "w"), indent=1)
        dst = os.path.join("/verif/seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out_dir, dst)
        print(s["id"], "kept;", out.strip().split("\n")[-1][:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)
