"""TicatCrash on the real ticat: killed at system calls (strace) or out of space at some byte (file size limit)."""
import json, os, re, resource, shutil, subprocess

import execlab as X
from oracle import Lab

KEYS = ["a.k%d" % i for i in range(1, 6)]
PROBE = '#!/bin/bash\ngrep "^[ab]\\.k[0-9]=" "$1/env" > "$VT_ROOT/probe"\nexit 0\n'
LEAF = '#!/bin/bash\necho "$2" >> "$VT_TRACE"\n'
PAD = "p" * 60
FLOWS, SNAPS = ["fa", "fb", "fc"], ["s1", "s2"]
REAL = {"fa": "fwa", "fb": "fwb", "fc": "pk.fwc", "s1": "s1", "s2": "snap-2"}
_strace = None


def strace_works(work):
    """killing at a system call needs a tracer of our own child"""
    global _strace
    if _strace is None:
        _strace = False
        if shutil.which("strace"):
            p = subprocess.run(["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:signal=KILL:when=1", "cat", "/dev/null"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            _strace = p.returncode in (-9, 137)
    return _strace


class CrashLab(Lab):
    module = "TicatCrashMC"
    hits = {}

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\nINVARIANTS TypeOK Whole Emit\nPROPERTIES Aimed Honest\nCHECK_DEADLOCK FALSE\n"
                % family)

    def gen(self, r, prof):
        p = dict(nops=8, p_hit=.5, kinds=["env"] * 3 + ["snap"] * 3 + ["flow"] * 5 + ["hub"] * 3)
        p.update(prof)
        ops = []
        n = r.randint(4, p["nops"])
        for x in range(n):
            k = r.choice(p["kinds"])
            o = {"op": "put", "f": "", "g": "", "c": [], "over": True, "hit": "", "look": x == n - 1}
            v = "v%d" % (x + 1)
            if k == "env":
                o["f"] = "env"
                o["op"] = r.choice(["put", "put", "put", "del"])
                o["c"] = [v] if o["op"] == "put" else []
            elif k == "snap":
                o["f"] = r.choice(SNAPS)
                o["op"] = r.choice(["put", "put", "put", "del"])
                if o["op"] == "put":
                    o["c"], o["over"] = [v], r.random() < .8
            elif k == "flow":
                o["f"] = r.choice(FLOWS)
                o["op"] = r.choice(["put", "put", "put", "move", "help", "help", "del", "clear"])
                if o["op"] == "put":
                    o["c"] = [v, ""]
                elif o["op"] == "help":
                    o["c"] = ["h%d" % x]
                elif o["op"] == "move":
                    o["g"] = r.choice(FLOWS)
                elif o["op"] == "clear":
                    o["f"] = ""
            else:
                o["op"], o["f"], o["c"] = r.choice(["addl", "addl", "dis", "en", "purge"]), "hub", [r.choice(["d1", "d2"])]
            if x and r.random() < p["p_hit"]:
                o["hit"], o["look"] = r.choice(["kill", "kill", "full"]), True
            ops.append(o)
        return {"id": 0, "ops": ops}

    def argv(self, o, b):
        op, f, c = o["op"], o["f"], (o["c"] or [""])[0]
        if f == "env":
            if op == "del":
                return ["env.clear"]
            return ["{"] + ["%s=%s" % (k, c + PAD) for k in KEYS] + ["}", "env.save"]
        if f in SNAPS:
            if op == "del":
                return ["env.snapshot.remove", REAL[f]]
            return ["{"] + ["%s=%s" % (k.replace("a.", "b."), c + PAD) for k in KEYS] + ["}", "env.snapshot.save",
                    "name=" + REAL[f], "overwrite=%s" % str(o["over"]).lower()]
        if op == "put":
            seq = []
            for _ in range(3):
                seq += ["leaf", c + PAD, ":"]
            return seq + ["flow.save", "cmd=" + REAL[f], "q=true"]
        if op == "help":
            return ["flow.set-help-str", REAL[f], c + PAD]
        if op == "move":
            return ["flow.rename", REAL[f], REAL[o["g"]]]
        if op == "del":
            return ["flow.remove", REAL[f]]
        if op == "clear":
            return ["flow.clear"]
        d = os.path.join(b.root, c + "dir")
        return {"addl": ["hub.add.local", "path=" + d], "dis": ["hub.disable", d], "en": ["hub.enable", d], "purge": ["hub.purge", d]}[op]

    def go(self, b, o, st, work):
        """-> ok | fail | killed"""
        argv, r, hit = self.argv(o, b), st.r, o["hit"]
        pick = (lambda *f: r.choice(f)) if r else (lambda *f: f[0])
        prefix, pre, kind = [], None, hit
        traced = strace_works(work)
        if hit == "kill" and traced:
            call, top = pick(("renameat", 2), ("openat", 16), ("write", 10), ("unlinkat", 3), ("close", 12), ("renameat", 1), ("write", 10))
            n = pick(*range(1, top + 1))
            prefix = ["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", "inject=%s:signal=KILL:when=%d" % (call, n)]
            kind = "kill at " + call
        elif hit == "full":
            size = pick(*range(0, 640))
            pre = lambda: (resource.setrlimit(resource.RLIMIT_CORE, (0, 0)), resource.setrlimit(resource.RLIMIT_FSIZE, (size, size)))
            kind = "no space"
        p = subprocess.run(prefix + [b.bin] + argv, cwd=b.cwd, env=b.env(), input=b"y\ny\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           preexec_fn=pre, timeout=60)
        end = "ok" if p.returncode == 0 else "killed" if p.returncode in (-9, 137) else "fail"
        if hit:
            k = "%s: %s" % (kind, end)
            self.hits[k] = self.hits.get(k, 0) + 1
        return end

    def look(self, b):
        out = {}

        def values(prefix, argv):
            probe = os.path.join(b.root, "probe")
            if os.path.exists(probe):
                os.unlink(probe)
            r = b.run(*argv)
            if r.rc != 0 or not os.path.exists(probe):
                return ["broken: " + r.out[-300:]]
            kv = dict(l.split("=", 1) for l in open(probe).read().split("\n") if l.startswith(prefix))
            if not kv:
                return ["none"]
            vals = set(kv.values())
            if len(kv) != len(KEYS) or len(vals) != 1 or not list(vals)[0].endswith(PAD):
                return ["torn: %s" % kv]
            return [list(vals)[0][:-len(PAD)]]
        out["env"] = values("a.", ["probe"])
        for s in SNAPS:
            if not os.path.exists(os.path.join(b.data, "env", REAL[s] + ".env")):
                out[s] = ["none"]
            else:
                out[s] = values("b.", ["env.snapshot.load", REAL[s], ":", "probe"])
        for f in FLOWS:
            path = os.path.join(b.data, "flows", REAL[f] + ".tiflow")
            if not os.path.exists(path):
                out[f] = ["none"]
                continue
            b.take_trace()
            r = b.run(REAL[f])
            vals = b.take_trace()
            if r.rc != 0 or len(vals) != 3 or len(set(vals)) != 1 or not vals[0].endswith(PAD):
                out[f] = ["torn: %s" % vals]
                continue
            help = re.search(r"^help = (.*)$", open(path).read(), re.M)
            help = help.group(1) if help else ""
            if help:
                help = help[:-len(PAD)] if help.endswith(PAD) else "torn: " + help
            out[f] = [vals[0][:-len(PAD)], help]
        rows = []
        for row in b.read_hub() or [("no hub",)]:
            if len(row) != 5 or row[4] not in ("on", "disabled"):
                rows.append("torn: %s" % (row,))
            elif row[2] != b.mods:
                rows.append(os.path.basename(row[2])[:2] + ("+" if row[4] == "on" else "-"))
        if len([1 for x in b.read_hub() or [] if len(x) > 2 and x[2] == b.mods]) != 1:
            rows.append("the other row is lost")
        out["hub"] = rows
        return out

    def execute(self, work, case, style):
        st = X.Style(style)
        b = work.box()
        try:
            b.mod("probe", PROBE, "help = p\n")
            b.mod("leaf", LEAF, "[args]\nx = 0\n")
            for d in ("d1", "d2"):
                b.write(d + "dir/m%s.bash" % d, "exit 0\n")
                b.write(d + "dir/m%s.bash.ticat" % d, "help = x\n")
            log = []
            for o in case["ops"]:
                e = {"end": self.go(b, o, st, work)}
                if o["look"]:
                    e["files"] = self.look(b)
                log.append(e)
            return log
        finally:
            b.destroy()

    def describe(self, case, obs, exps, style):
        out = []
        for x, o in enumerate(case["ops"]):
            out.append("%d. %s -> %s" % (x + 1, json.dumps({k: v for k, v in o.items() if v not in ("", [], True, False)}), obs[x] if x < len(obs) else None))
        last = {json.dumps(e[-1]) for e in exps}
        return "\n".join(out + ["   expected: one of"] + sorted({json.dumps(e) for e in exps})[:4])

    def interesting(self, case, obs):
        return any(o["hit"] and e["end"] != "ok" for o, e in zip(case["ops"], obs))


LAB = CrashLab()
