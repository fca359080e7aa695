"""TicatTogether on the real ticat: invocations on the same stores, stopped at system calls while others run."""
import os, random, re, shutil, signal, subprocess, time

import crashlab
import execlab as X
from crashlab import KEYS, PAD, REAL, FLOWS, SNAPS, PROBE, LEAF
from oracle import Lab

_strace = None


def stopping_works():
    global _strace
    if _strace is None:
        _strace = False
        if shutil.which("strace"):
            p = subprocess.Popen(["strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:signal=STOP:when=1", "cat", "/dev/null"],
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(timeout=1.5)
            except subprocess.TimeoutExpired:
                _strace = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    return _strace


class TogetherLab(Lab):
    module = "TicatTogetherMC"
    stops = {}
    crash = crashlab.CrashLab()

    def cfg(self, family, own=True):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n OwnTmp = %s\nINVARIANTS TypeOK Whole PutsSucceed Alone Emit\nPROPERTIES Apart\nCHECK_DEADLOCK FALSE\n"
                % (family, "TRUE" if own else "FALSE"))

    def op(self, r, kind, v):
        o = {"op": "put", "f": "", "g": "", "c": [], "over": True}
        if kind == "env":
            o["f"] = "env"
            o["op"] = r.choice(["put"] * 4 + ["del"])
            o["c"] = [v] if o["op"] == "put" else []
        elif kind == "snap":
            o["f"] = r.choice(SNAPS)
            o["op"] = r.choice(["put"] * 4 + ["del"])
            if o["op"] == "put":
                o["c"], o["over"] = [v], r.random() < .7
        elif kind == "flow":
            o["f"] = r.choice(FLOWS)
            o["op"] = r.choice(["put", "put", "put", "move", "help", "help", "del", "clear"])
            if o["op"] == "put":
                o["c"] = [v, ""]
            elif o["op"] == "help":
                o["c"] = ["h" + v]
            elif o["op"] == "move":
                o["g"] = r.choice(FLOWS)
            elif o["op"] == "clear":
                o["f"] = ""
        else:
            o["op"], o["f"], o["c"] = r.choice(["addl", "addl", "dis", "en", "purge"]), "hub", [r.choice(["d1", "d2"])]
        return o

    def gen(self, r, prof):
        p = dict(kinds=["env", "snap", "flow", "flow", "hub"], p_mixed=.15, p_see=.2, p_three=.3)
        p.update(prof)
        kind = r.choice(p["kinds"])
        kinds = p["kinds"] if r.random() < p["p_mixed"] else [kind]
        setup = [self.op(r, r.choice(kinds), "v%d" % (x + 5)) for x in range(r.randint(0, 5))]
        ops = []
        for x in range(3 if r.random() < p["p_three"] else 2):
            k = r.choice(kinds)
            o = self.op(r, k, "v%d" % x)
            if ops and ops[0]["f"] and o["f"] and r.random() < .6 and k in ("snap", "flow") and (ops[0]["f"] in FLOWS) == (k == "flow"):
                o["f"] = ops[0]["f"]
            if k != "hub" and o["f"] and r.random() < p["p_see"]:
                o.update(op="see", g="", c=[], over=True)
            ops.append(o)
        return {"id": 0, "setup": setup, "ops": ops}

    # each invocation has its own trace and probe file
    def argv(self, o, b):
        if o["op"] != "see":
            return self.crash.argv(o, b)
        if o["f"] == "env":
            return ["probe"]
        if o["f"] in SNAPS:
            return ["env.snapshot.load", REAL[o["f"]], ":", "probe"]
        return [REAL[o["f"]]]

    def saw(self, o, b, d, rc):
        if o["op"] != "see":
            return ["none"]
        if o["f"] in FLOWS:
            t = os.path.join(d, "trace")
            vals = open(t).read().split() if os.path.exists(t) else []
            if not vals and rc != 0:
                return ["none"]
            if rc != 0 or len(vals) != 3 or len(set(vals)) != 1 or not vals[0].endswith(PAD):
                return ["torn: %s" % vals]
            return [vals[0][:-len(PAD)]]
        pre = "a." if o["f"] == "env" else "b."
        t = os.path.join(d, "probe")
        kv = dict(l.split("=", 1) for l in open(t).read().split("\n") if l.startswith(pre)) if os.path.exists(t) else {}
        if not kv:
            return ["none"] if rc == 0 else ["broken"]
        if rc != 0 or len(kv) != len(KEYS) or len(set(kv.values())) != 1:
            return ["torn: %s" % kv]
        return [list(kv.values())[0][:-len(PAD)]]

    def execute(self, work, case, style):
        r = random.Random(style)
        b = work.box()
        procs = []
        try:
            b.mod("probe", PROBE, "help = p\n")
            b.mod("leaf", LEAF, "[args]\nx = 0\n")
            for d in ("d1", "d2"):
                b.write(d + "dir/m%s.bash" % d, "exit 0\n")
                b.write(d + "dir/m%s.bash.ticat" % d, "help = x\n")
            for o in case["setup"]:
                b.run(*self.argv(o, b), stdin="y\ny\n")
            order = list(range(len(case["ops"])))
            r.shuffle(order)
            traced = stopping_works()
            for x, i in enumerate(order):
                o = case["ops"][i]
                d = os.path.join(b.root, "p%d" % i)
                os.makedirs(d)
                prefix, log = [], None
                if traced and x < len(order) - 1:
                    call, n = self.point(r)
                    log = os.path.join(d, "strace")
                    prefix = ["strace", "-f", "-qq", "-o", log, "-e", "trace=" + call, "-e", "inject=%s:signal=STOP:when=%d" % (call, n)]
                p = subprocess.Popen(prefix + [b.bin] + self.argv(o, b), cwd=b.cwd, env=b.env({"VT_ROOT": d, "VT_TRACE": os.path.join(d, "trace")}),
                                     stdin=subprocess.PIPE, stdout=open(os.path.join(d, "out"), "w"), stderr=subprocess.STDOUT, start_new_session=True)
                procs.append((i, o, d, p, call if log else None))
                try:
                    p.stdin.write(b"y\ny\n")
                    p.stdin.close()
                except BrokenPipeError:
                    pass
                if log:
                    self.wait_stopped(p, log)
                elif traced:
                    p.wait(timeout=60)
            go = procs[:-1] if traced else procs
            r.shuffle(go)
            for i, o, d, p, call in go:
                if traced:
                    k = call + (" stopped" if p.poll() is None else " not reached")
                    self.stops[k] = self.stops.get(k, 0) + 1
                    self.cont(p, os.path.join(d, "strace"))
                p.wait(timeout=60)
            ends, saws = {}, {}
            for i, o, d, p, _ in procs:
                ends[i] = "ok" if p.returncode == 0 else "fail"
                if o["op"] == "see":
                    saws[i] = self.saw(o, b, d, p.returncode)
                    ends[i] = "ok"
                else:
                    saws[i] = ["none"]
            n = range(len(procs))
            return {"ends": [ends[i] for i in n], "saws": [saws[i] for i in n], "files": self.crash.look(b)}
        finally:
            for _, _, _, p, _ in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
            b.destroy()

    def point(self, r):
        call, top = r.choice([("openat", 24), ("write", 8), ("renameat", 2), ("close", 20), ("newfstatat", 16), ("unlinkat", 3), ("read", 20), ("getdents64", 8)])
        return call, r.randint(1, top)

    def wait_stopped(self, p, log):
        for _ in range(6000):
            if p.poll() is not None:
                return
            if os.path.exists(log) and b"stopped by SIGSTOP" in open(log, "rb").read():
                return
            time.sleep(.005)
        raise RuntimeError("neither stopped nor ended")

    def cont(self, p, log):
        # strace counts the calls of each thread, so there can be further stops
        end = time.time() + 60
        while p.poll() is None and time.time() < end:
            pids = {int(x) for x in re.findall(rb"^(\d+) +--- stopped by SIGSTOP", open(log, "rb").read(), re.M)}
            for t in pids:
                try:
                    os.kill(t, signal.SIGCONT)  # a thread id will do, the signal is for its whole process
                except ProcessLookupError:
                    pass
            try:
                p.wait(timeout=.02)
            except subprocess.TimeoutExpired:
                pass

    def view(self, obs, cmp):
        # readers of a flow don't see its help string
        return {"ends": obs["ends"], "saws": [s[:1] for s in obs["saws"]], "files": obs["files"]}

    def describe(self, case, obs, exps, style):
        out = ["setup: " + "; ".join(self.short(o) for o in case["setup"])]
        for x, o in enumerate(case["ops"]):
            out.append("at the same time: %s -> %s %s" % (self.short(o), obs["ends"][x], obs["saws"][x] if o["op"] == "see" else ""))
        out.append("stores: %s" % obs["files"])
        return "\n".join(out + ["   expected: one of %d" % len(exps)] + [str(e) for e in exps[:4]])

    def short(self, o):
        return " ".join([o["op"], o["f"], o["g"]] + o["c"]).strip()

    def interesting(self, case, obs):
        return True


LAB = TogetherLab()
