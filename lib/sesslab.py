"""TicatSessions on the real ticat: its records get the ages and processes the case says."""
import json, os, re, subprocess, time

import execlab as X
from oracle import Lab

CMD = {"ok": "ca", "okb": "cb", "fail": "cz", "crash": "ck", "hid": "ch", "need": "cn", "nos": "cs", "none": "nosuch", "last": "sessions.last"}
MODS = {"ca": ("", "help = x"), "cb": ("", "help = y"), "cz": ("exit 3", "help = z"), "ck": ("kill -9 $PPID; sleep 1", "help = k"),
        "ch": ("", "hide-in-sessions-last = true"), "cn": ("", "[env]\nq.q = read"), "cs": ("", "no-session = true")}
KEEP = "sessions.set-keep-duration duration=%dh : env.save"
JUNK = {"README": None, "notes": "d", "20261320-000000.4990001": "d", "20260101-000000": "d", "20260101-000000.4990001.x": "d",
        "x.4990001": "d", "20260101-000000.pid": "d", "20260101000000.4990001": "d"}
SHOWN = re.compile(r"^\[(\d{8}-\d{6}\.\d+)\]")
INVS = "ByOutcome"
PROPS = "LostByRight RunningStay OneEach Stable"


def word(c):
    return KEEP % c["h"] if c["k"] == "keep" else CMD[c["k"]]


def text(seq):
    return " : ".join(word(c) for c in seq)


class SessLab(Lab):
    module = "TicatSessionsMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\nINVARIANTS %s Emit\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n"
                % (family, INVS, PROPS))

    def ready(self, case):
        # a kind of its own only for the text
        c = json.loads(json.dumps(case))
        for o in c["ops"]:
            for x in o.get("seq", []):
                if x["k"] == "okb":
                    x["k"] = "ok"
        return c

    def gen(self, r, prof):
        p = dict(nops=12, p_live=.25, p_junk=.3, p_many=0, runs=["ok"] * 4 + ["okb"] * 2 + ["fail"] * 2 + ["crash", "hid", "hid", "need", "nos", "none"])
        p.update(prof)
        ops, made, live = [], 0, []

        def find():
            out = []
            for _ in range(r.choice([1, 1, 2, 3])):
                out.append({"s": "", "n": r.randint(1, made)} if made and r.random() < .2 else
                           {"s": r.choice(["ca", "c", "cz", "z", "h", "cb", "CA", "save", "sessions", "a", "cn", "nosuch"]), "n": 0})
            return out

        def some():
            return r.randint(1, made + 1) if r.random() < .9 else made + 3
        if r.random() < p["p_many"]:
            n = r.randint(14, 22)
            pre = [["ok"], ["okb", "ok"]] + [["hid"]] * n if r.random() < .7 else [["ok"]] * n
            for k in pre:
                seq = [{"k": x, "h": 0} for x in k]
                ops.append({"op": "run", "seq": seq, "text": text(seq), "live": False})
                made += 1
        for _ in range(r.randint(4, p["nops"])):
            o = r.choices(["run", "list", "last", "status", "rm", "rmfind", "rmall", "pass", "die", "half"],
                          [8, 5, 2, 1, 2, 2, .7, 2, 1, .8])[0]
            if o == "die" and not live:
                o = "run"
            if o == "run":
                seq = [{"k": r.choice(p["runs"]), "h": 0} for _ in range(r.choice([1, 1, 1, 2, 3]))]
                if len(seq) > 1 and r.random() < .3:
                    seq[r.randrange(len(seq))]["k"] = "last"
                if r.random() < .2:
                    seq[r.randrange(len(seq))] = {"k": "keep", "h": r.choice([1, 12, 25, 49, 100, 1000])}
                if all(c["k"] in ("last", "nos") for c in seq) and any(c["k"] == "last" for c in seq):
                    seq.append({"k": "ok", "h": 0})
                done = not any(c["k"] == "none" for c in seq) and any(c["k"] != "nos" for c in seq)
                op = {"op": "run", "seq": seq, "text": text(seq), "live": done and r.random() < p["p_live"]}
                if done:
                    made += 1
                    if op["live"]:
                        live.append(made)
                ops.append(op)
            elif o == "list":
                ops.append({"op": o, "kind": r.choice(["all", "all", "done", "error", "running"]), "find": find() if r.random() < .5 else [],
                            "max": r.choice([32, 32, 0, 1, 2, 3])})
            elif o in ("last", "rmall"):
                ops.append({"op": o})
            elif o == "status":
                ops.append({"op": o, "n": some()})
            elif o == "rm":
                ops.append({"op": o, "n": some(), "force": r.random() < .3})
            elif o == "rmfind":
                ops.append({"op": o, "find": find(), "force": r.random() < .3})
            elif o == "pass":
                ops.append({"op": o, "h": r.choice([1, 10, 24, 24, 48, 100, 2399, 2400])})
            elif o == "die":
                ops.append({"op": o, "n": live.pop(r.randrange(len(live)))})
            elif o == "half":
                made += 1
                ops.append({"op": o, "void": r.random() < .5})
        return {"id": 0, "ops": ops, "junk": r.random() < p["p_junk"]}

    def execute(self, work, case, style):
        st = X.Style(style)
        b = work.box()
        root = os.path.join(b.data, "sessions")
        sleepers, names, ages, log = {}, {}, {}, []
        t0 = int(time.time()) - 1800

        def ls():
            return sorted(os.listdir(root)) if os.path.isdir(root) else []

        def rename(n, pid=None):
            old = names[n]
            names[n] = time.strftime("%Y%m%d-%H%M%S", time.localtime(t0 - 3600 * ages[n] + n)) + "." + (pid or old.split(".")[1])
            if old != names[n] and os.path.isdir(os.path.join(root, old)):
                os.rename(os.path.join(root, old), os.path.join(root, names[n]))

        def name(n):
            return names.get(n, "20200101-000000.%d" % (4980000 + n))
        try:
            for n, (script, meta) in MODS.items():
                b.mod(n, "#!/bin/sh\n%s\n" % script, meta + "\n")
            junk = {}
            if case.get("junk"):
                for j, k in JUNK.items():
                    os.makedirs(os.path.join(root, j) if k else root, exist_ok=True)
                    open(os.path.join(root, j) + ("/f" if k else ""), "w").close()
                    junk[j] = k
            for o in case["ops"]:
                shown, rc, op = [], 0, o["op"]
                if op == "pass":
                    for n in sorted(names):
                        ages[n] += o["h"]
                        rename(n)
                elif op == "die":
                    p = sleepers.pop(o["n"], None)
                    if p:
                        p.kill()
                        p.wait()
                        rename(o["n"], str(4999990 - o["n"]))
                elif op == "half":
                    n = len(names) + 1
                    names[n], ages[n] = "x.%d" % (4999990 - n), 0
                    os.makedirs(os.path.join(root, names[n]))
                    rename(n)
                    if not o["void"]:
                        open(os.path.join(root, names[n], "status"), "w").close()
                else:
                    res = b.run(*self.argv(o, name, st), timeout=30)
                    rc = {0: 0, -9: 137}.get(res.rc, 1)
                    back = {v: k for k, v in names.items()}
                    ids, lines = [], res.out.split("\n")
                    for x, l in enumerate(lines):
                        m = SHOWN.match(l)
                        if m:
                            state = next((lines[y + 1].strip() for y in range(x, len(lines) - 1) if lines[y] == "    status:"), "?")
                            ids.append({"n": back.get(m.group(1), 0), "st": {"OK": "ok", "ERR": "failed"}.get(state, state)})
                    shown = ids
                    new = [d for d in ls() if d not in back and d not in junk]
                    for d in new:
                        n = len(names) + 1
                        names[n], ages[n] = d, 0
                        if o.get("live"):
                            sleepers[n] = subprocess.Popen(["sleep", "600"], stdin=subprocess.DEVNULL)
                            rename(n, str(sleepers[n].pid))
                        else:
                            rename(n, str(4999990 - n))
                back = {v: k for k, v in names.items()}
                here = ls()
                left = sorted(back[d] for d in here if d in back)
                for j, k in junk.items():
                    if j not in here or (k and not os.path.exists(os.path.join(root, j, "f"))):
                        left.append("%s is gone" % j)
                log.append({"op": op, "shown": shown, "rc": rc, "left": left})
            return log
        finally:
            for p in sleepers.values():
                p.kill()
                p.wait()
            b.destroy()

    def argv(self, o, name, st):
        op, r = o["op"], st.r
        pick = (lambda *f: r.choice(f)) if r else (lambda *f: f[0])
        if op == "run":
            return o["text"].split(" ")
        finds = [name(f["n"]) if f["n"] else f["s"] for f in o.get("find", [])]
        if op == "list":
            cmd = {"all": pick("sessions", "s", "session"), "done": pick("sessions.done", "s.ok"),
                   "error": pick("sessions.error", "s.e", "sessions.err"), "running": pick("sessions.running", "s.i")}[o["kind"]]
            if o["max"] != 32 or (finds and pick(False, True)):
                return [cmd] + ["%s=%s" % (k, f) for k, f in zip(["1st-str", "2nd-str", "3rd-str"], finds)] + \
                    (["%s=%d" % (pick("max-count", "max"), o["max"])] if o["max"] != 32 else [])
            return [cmd] + finds
        if op == "last":
            return [pick("sessions.last", "s.l")]
        if op == "status":
            return ["sessions.status", pick("", "session-id=", "id=") + name(o["n"])]
        if op == "rm":
            cmd = pick("sessions.remove", "s.rm", "sessions.delete")
            if o["force"]:
                return [cmd, "session-id=" + name(o["n"]), pick("remove-running", "force") + "=true"]
            return [cmd, pick(name(o["n"]), "[" + name(o["n"]) + "]")]
        if op == "rmfind":
            cmd = pick("sessions.remove.by-search", "s.rm.find", "sessions.rm.batch")
            if o["force"]:
                return [cmd] + ["%s=%s" % (k, f) for k, f in zip(["1st-str", "2nd-str", "3rd-str"], finds)] + ["force=true"]
            return [cmd] + finds
        if op == "rmall":
            return [pick("sessions.remove.all", "s.rm.a")]
        raise ValueError(op)

    def describe(self, case, obs, exps, style):
        out, st = [], X.Style(style)
        for x, o in enumerate(case["ops"]):
            ob, e = obs[x] if x < len(obs) else None, exps[0][x] if x < len(exps[0]) else None
            out.append("%d. %s" % (x + 1, json.dumps({k: v for k, v in o.items() if k != "seq"})))
            if ob != e:
                out += ["   observed: %s" % (ob,), "   expected: %s" % (e,)]
                break
        return "\n".join(out)

    def interesting(self, case, obs):
        return any(o["shown"] for o in obs) or any(len(a["left"]) > len(b["left"]) for a, b in zip(obs, obs[1:]))


LAB = SessLab()
