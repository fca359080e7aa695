"""TicatBg on the real ticat: programs that wait until they are released, one at
a time, as the behaviour of the specification says."""
import os, random, re, signal, subprocess, time

from oracle import Lab

ANSI = re.compile("\x1b\\[[0-9;]*m")
SCRIPT = r'''f="$1/env"; l="$2"; ka=; kb=
while IFS= read -r x; do case "$x" in ka=*) ka="${x#ka=}";; kb=*) kb="${x#kb=}";; esac; done < "$f"
echo "out:$l:1"
echo "$l|$ka|$kb|$EPOCHREALTIME" >> "$VT_TRACE"
read -r a < "$VT_ROOT/gate.$l"
[ -z "$VT_BIG" ] || printf "%0${VT_BIG}d\n" 0
echo "out:$l:2"
case "$a" in bad) exit 3;; esac
[ -z "$3" ] || echo "ka=$3" >> "$f"
exit 0
'''
META = """help = h
[args]
n = zz
w = ''
[env]
ka = may-write : may-read
kb = may-read
"""
DELAYS = ["0", "0.001", "0.01s", "5ms", "0.05", "0.2s", "0s", "1ns"]


def secs(d):
    for u, f in (("ms", .001), ("ns", 1e-9), ("s", 1)):
        if d.endswith(u):
            return float(d[:-len(u)]) * f
    return float(d)


class BgLab(Lab):
    module = "TicatBgMC"
    steered = True
    patience = 12.0
    settle = 0.04

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS NeverStuck Once Waited NothingLost FailuresTold Emit\nPROPERTIES MainAlone TasksAlone%s\nCHECK_DEADLOCK FALSE\n"
                % (family, "" if family == "json" else " Terminates"))

    def gen(self, r, prof):
        p = dict(size=(3, 7), p_delay=.5, p_bad=.25, p_nowait=.1)
        p.update(prof)
        labels = []

        def item(depth, bg):
            it = dict(op="leaf", name=r.choice(["la", "la", "lb", "lc"]), lab="", w="", ok=r.random() < .2, delay=False, apply=False, k="", v="")
            x = r.random()
            if x < .12 and depth < 2:
                it.update(op="flow", name="f%d" % (len(flows) + 1))
                flows[it["name"]] = None
                flows[it["name"]] = None
            elif x < .22:
                it.update(op="set", name="", k=r.choice(["ka", "kb"]), v=r.choice(["s1", "s2", "s3"]), ok=False)
                return it
            elif x < .4 and not bg:
                it.update(op=r.choice(["wait", "waitlast", "waitcmd", "waitcmd"]), name="", ok=False)
                if it["op"] == "waitcmd":
                    it["name"] = r.choice(["la", "lb", "lc"] + sorted(flows)[:1])
                return it
            if not bg and r.random() < p["p_delay"]:
                it["delay"] = True
                it["apply"] = it["op"] == "leaf" and r.random() < .3
            if it["op"] == "leaf":
                it["lab"] = "p%d" % (len(labels) + 1)
                labels.append(it["lab"])
                it["w"] = r.choice(["", "w" + it["lab"]])
            else:
                nm = it["name"]
                flows[nm] = [item(depth + 1, bg or it["delay"]) for _ in range(r.randint(1, 3))]
            return it
        flows = {}
        main = [item(0, False) for _ in range(r.randint(*p["size"]))]
        if not labels:
            return self.gen(r, prof)
        flows = flows or {"f0": []}
        bad = [l for l in labels if r.random() < p["p_bad"] * r.choice([0, 1])]
        return {"main": main, "flows": flows, "bad": bad, "labels": labels, "setters": ["lb"], "nowait": r.random() < p["p_nowait"],
                "sched": [r.randrange(6) for _ in range(len(labels) + 1)]}

    def words(self, seq, rs, delays=None):
        pick = lambda *a: rs.choice(a) if rs else a[0]
        out = []
        for i, it in enumerate(seq):
            w = []
            if it["op"] == "leaf":
                w = [it["name"], "n=" + it["lab"]] + (["w=" + it["w"]] if it["w"] else [])
            elif it["op"] == "flow":
                w = [it["name"]]
            elif it["op"] == "set":
                w = ["env.set", it["k"], it["v"]]
            elif it["op"] == "wait":
                w = [pick("bg.wait", "background.wait")]
            elif it["op"] == "waitlast":
                w = [pick("bg.wait.last", "bg.wait.latest")]
            elif it["op"] == "waitcmd":
                w = [pick("bg.wait.cmd", "bg.wait.command"), it["name"]]
            if it["delay"]:
                d = rs.choice(DELAYS) if rs else "0.01"
                w += [rs.choice(["%delay=", "%delay = "]) + d] if rs else ["%delay=" + d]
                if delays is not None and it["lab"]:
                    delays[it["lab"]] = secs(d)
            if it["apply"]:
                w += ["%env=apply"]
            if it["ok"]:
                w += ["%err=ok"]
            out += ([":"] if i else []) + w
        return out

    def argv(self, case, rs, delays=None):
        a = self.words(case["main"], rs, delays)
        if case["nowait"]:
            a = [rs.choice(["bg.wait.after-main.off", "bg.wait.auto.off"]) if rs else "bg.wait.after-main.off", ":"] + a
        return a

    def execute(self, work, case, style, exp):
        rs = random.Random(style) if style else None
        box = work.box()
        try:
            for m in ("la", "lb", "lc"):
                box.mod(m, SCRIPT, META + ("[val2env]\nkb = lb\n" if m == "lb" else ""))
            delays = {}
            for f, seq in case["flows"].items():
                box.flow(f, "help = h\nflow = %s\n" % (" ".join(self.words(seq, rs, delays)) or "noop"))
            for l in case["labels"]:
                os.mkfifo(os.path.join(box.root, "gate." + l))
            outf = os.path.join(box.root, "stdout")
            argv = self.argv(case, rs, delays)
            box.earliest = {l: time.time() + d for l, d in delays.items()}
            envv = box.env()
            big = rs.choice([4097, 9000, 70000]) if rs and rs.random() < .3 else 0
            box.big = big
            if big:
                envv["VT_BIG"] = str(big)
            with open(outf, "wb") as o:
                p = subprocess.Popen([box.bin] + argv, cwd=box.cwd, env=envv, stdin=subprocess.DEVNULL,
                                     stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                return self.follow(box, p, case, exp, outf)
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        finally:
            box.destroy()

    def look(self, box, released, order):
        if not os.path.exists(box.trace):
            return []
        with open(box.trace) as f:
            t = f.read()
        g = [l.split("|") for l in t.split("\n")[:-1]]
        g = [x[:3] + (["early"] if float(x[3]) < box.earliest.get(x[0], 0) else []) for x in g]
        g = [x for x in g if x[0] not in released or sum(1 for y in g if y[0] == x[0]) > 1]
        return sorted(g, key=lambda x: order.index(x[0]) if x[0] in order else 99)

    def follow(self, box, p, case, exp, outf):
        obs, released = [], set()
        for e in exp:
            end = time.time() + self.patience
            done = False
            if "rc" in e:
                while p.poll() is None and time.time() < end:
                    time.sleep(.004)
                    if self.look(box, released, case["labels"]) and time.time() > end - self.patience + 2 and not case["nowait"]:
                        break
                with open(outf, errors="replace") as f:
                    t = ANSI.sub("", f.read())
                if box.big:
                    # each of them in one piece, next to the line after it
                    t, n = re.subn("(?<!0)0{%d}\\n(?=out:\\w+:2)" % box.big, "", t)
                    if "0" * 50 in t or n != len(re.findall("out:\\w+:2", t)):
                        t = t.replace(":2", ":1")
                got = re.findall(r"out:(\w+):([12])", t)
                out = [got[i][0] if i + 1 < len(got) and got[i + 1] == (got[i][0], "2") and got[i][1] == "1" else "%s:%s" % got[i]
                       for i in range(len(got)) if not (got[i][1] == "2" and i and got[i - 1] == (got[i][0], "1"))]
                obs.append({"rc": p.returncode if p.returncode is not None else "running: " + str(self.look(box, released, case["labels"])), "out": out})
                return obs
            while time.time() < end:
                g = self.look(box, released, case["labels"])
                if g == e["gates"] or p.poll() is not None:
                    break
                if len(g) > len(e["gates"]):
                    break
                time.sleep(.004)
            time.sleep(self.settle)
            g = self.look(box, released, case["labels"])
            o = {"gates": g, "rel": e["rel"]}
            if p.poll() is not None:
                o["rc"] = p.returncode
            obs.append(o)
            if o != e:
                return obs
            fd = os.open(os.path.join(box.root, "gate." + e["rel"]), os.O_WRONLY)
            os.write(fd, b"bad\n" if e["rel"] in case["bad"] else b"ok\n")
            os.close(fd)
            released.add(e["rel"])
        return obs

    def describe(self, case, obs, exps, style):
        rs = random.Random(style) if style else None
        for f, seq in case["flows"].items():
            self.words(seq, rs)
        out = ["flow %s = %s" % (f, " ".join(self.words(s, None))) for f, s in sorted(case["flows"].items())]
        out.append("ticat " + " ".join(self.argv(case, None)))
        if case["bad"]:
            out.append("failing: " + " ".join(case["bad"]))
        for i, o in enumerate(obs):
            e = exps[0][i] if exps and i < len(exps[0]) else None
            if o == e:
                out.append("  waiting [label, ka, kb]: %s; released: %s" % (o.get("gates"), o.get("rel")))
            else:
                out += ["  observed: %s" % o, "  expected: %s" % e]
                break
        return "\n".join(out)

    def interesting(self, case, obs):
        return any(i["delay"] for f in [case["main"]] + list(case["flows"].values()) for i in f)


LAB = BgLab()
