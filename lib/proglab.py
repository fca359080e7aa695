"""TicatProgs on the real ticat: stand-ins for the interpreters record how a
program was started and run it with the real bash; programs mark what they print."""
import glob, os, random, re, shutil, subprocess, time

from oracle import Lab

STANDIN = r'''#!/bin/bash
me="${0##*/}"
words="$me"
for a in "$@"; do case "$a" in "$VT_ROOT"/mods/*|"$VT_ROOT/mods") break;; esac; words="$words $a"; shift; done
[ $# -gt 0 ] || exec /bin/bash ${words#* }
export VT_EXE="$words"
exec /bin/bash "$@"
'''
NAMES = ["bash", "sh", "python3", "go", "runA", "runB"]
PROG = r'''{ printf '%%s\037%%s\037%%s' %(name)s "$VT_EXE" "${PWD#"$VT_ROOT"/}"
s="$1"; shift
[ -n "$s" ] && [ -f "$s/env" ] && printf '\037%%s' "${s##*/}" || printf '\037%%s' "$s"
printf '\036'; for a in "$@"; do printf '%%s\037' "$a"; done; printf '\036'
n=0; while [ $n -lt %(reads)d ] && IFS= read -r l; do printf '%%s\037' "$l"; n=$((n+1)); done; printf '\036'
[ -n "$s" ] && grep '^tk[0-9]=' "$s/env" | tr '\n' '\037'; printf '\036%%s\n' "$(date +%%s)"; } >> "$VT_TRACE"
%(body)s
%(eff)s
exit %(rc)d
'''
EXTS = ["bash", "sh", "py", "go", "", "xy", "tar.sh", "b.py", "SH", "x-y"]
DIRS = ["mods", "mods/in", "mods/in/deep", "mods/b-c"]
SIZES = {"s": 0, "m": 300, "b": 70000, "h": 200000}
# what text there is besides: none of it may be changed
PAD = {"s": b"", "c": b"\033[31mred\033[0m", "n": b"a\0b", "u": "ü—語".encode(), "i": b"\xff\xfe\x80", "r": b"x\r\ty", "%": b"%s%d%%\\n\\", "q": b"'\"$`"}
TOKEN = re.compile(rb"\x01([^\x01\x02]*)\x02(\n?)", re.S)


def payload(t):
    """<id>.<pad><size><newline or not>"""
    return t.encode() + PAD[t[-3]] + b"x" * SIZES[t[-2]]


def tokens(b):
    out = []
    for m in TOKEN.finditer(b):
        t = m.group(1)
        k = re.match(rb"[^.]*\.(..[nz])", t)
        k = k.group(0).decode() if k else "?"
        out.append(k if k != "?" and payload(k) == t and (m.group(2) == b"\n") == (k[-1] == "n") else "damaged: %r" % t[:60])
    return out


def rest(b):
    return TOKEN.sub(b"", b)


class ProgLab(Lab):
    module = "TicatProgsMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS InputOnce AllShown AllKept NamesTheLast Emit\nPROPERTIES SessionOnly%s\nCHECK_DEADLOCK FALSE\n"
                % (family, " Finishes" if family != "json" else ""))

    def gen(self, r, prof):
        p = dict(p_fail=.15, p_ok=.3, p_run=.3, p_timer=.3, p_read=.3, p_big=.1, p_nosuch=.08, p_unlog=.12, p_nosess=.08, nfile=4, nflow=3, lines=4)
        p.update(prof)
        chance = lambda k: r.random() < p[k]

        def runner():
            if chance("p_nosuch"):
                return ["nosuch"]
            return [r.choice(["runA", "runB", "runA", "bash", "sh", "python3", "go"])] + r.choice([[], [], ["-x"], ["-x", "y"], ["1", "2", "3"]])

        def setting():
            return {"e": r.choice(["bash", "sh", "py", "py", "go", "xy", "SH", "x-y"]), "v": runner()}

        def settings(k):
            out = []
            while chance(k) and len(out) < 3:
                s = setting()
                if s["e"] not in [x["e"] for x in out]:
                    out.append(s)
            return out
        cmds, n = {}, [0]

        def lines():
            out = []
            for _ in range(r.randint(0, p["lines"])):
                n[0] += 1
                out.append({"s": r.choice([1, 1, 2]), "t": "o%d.%s%s%s" % (n[0], r.choice("ssssscnuir%q"), r.choice("bh") if chance("p_big") else r.choice("sssm"), r.choice("nnnnz"))})
            if len({x["s"] for x in out}) > 1:
                # pieces of two streams get mixed, anywhere
                for x in out:
                    x["t"] = x["t"][:-2] + "s" + x["t"][-1]
            return out
        keys = ["tk%d" % i for i in range(1, 7)]

        def timers(d):
            for k in ("tb", "te", "td"):
                if chance("p_timer"):
                    d[k] = r.choice(keys)

        def calls(names, m):
            out = []
            for _ in range(r.randint(1, m)):
                if r.random() < .15:
                    out.append({"c": "", "env": [], "ok": False, "set": [setting()]})
                else:
                    out.append({"c": r.choice(names), "env": settings("p_run"), "ok": chance("p_ok"), "set": []})
            return out
        done = []
        for i in range(p["nfile"] + p["nflow"]):
            flow = i >= p["nfile"]
            name = ("w%d" if flow else "f%d") % i
            ty = r.choice(["flow", "fileflow", "flow"]) if flow else r.choice(["file", "file", "file", "dir"])
            d = {"ty": ty, "ext": "", "dir": "", "args": [], "lines": [], "reads": 0, "fail": False, "unlog": False, "nosess": False, "eff": [], "tb": "", "te": "", "td": "",
                 "genv": [], "flow": []}
            timers(d)
            if ty != "flow":
                d["sfx"] = r.choice(EXTS[:5] + ["py", "xy"] if ty == "dir" else EXTS)
                d["ext"] = d["sfx"].split(".")[-1]
                d["dir"] = r.choice(DIRS)
                if ty == "dir":
                    d["dir"] = d["dir"] + "/" + name + r.choice(["", "", "/sub", "/s b"])
                d["args"] = [r.choice(["v1", "v 2", "", "-", "a=b", "$x", "q\"q"]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
                d["lines"] = lines()
                d["reads"] = r.choice([1, 1, 2, 3]) if chance("p_read") else 0
                d["fail"] = chance("p_fail")
                d["unlog"] = chance("p_unlog")
                d["nosess"] = ty == "file" and chance("p_nosess")
                d["eff"] = [setting()] if r.random() < .15 and not d["nosess"] else []
            if flow:
                d["genv"] = settings("p_run")
                d["flow"] = calls(done, 3)
            cmds[name] = d
            done.append(name)
        main = calls(done, 5)
        main.append({"c": r.choice(done), "env": [], "ok": False, "set": []})
        return {"cmds": cmds, "saved": settings("p_run"), "genv": settings("p_run"), "main": main, "input": ["i%d" % i for i in range(r.choice([0, 1, 4, 9]))]}

    # ---- rendering
    def real(self, name, d):
        """the path of a command"""
        sub = d["dir"].split("/")[1:]
        if d["ty"] == "dir":
            sub = sub[:sub.index(name)]
        return ".".join(sub + [name])

    def text(self, e):
        return "sys.ext.exec.%s" % e["e"], " ".join(e["v"])

    def seg(self, c, case, rs):
        """-> [(word, part of a group)]"""
        if c["c"] == "":
            k, v = self.text(c["set"][0])
            q = lambda t: t
            # a flow keeps no quotes inside of words: name=value has none
            e, ex = ("e", "exe") if rs and rs.random() < .5 else ("ext", "executor")
            return [rs.choice(["sys.ext-executor", "sys.ext-exe", "sys.ext-exec"]) if rs else "sys.ext-executor", "ext=" + c["set"][0]["e"], "executor=" + v]
        w = self.group(c["env"])
        w.append(self.real(c["c"], case["cmds"][c["c"]]))
        if c["ok"]:
            w.append("%err=ok")
        return w

    def group(self, kvs):
        w = ["%s=%s" % self.text(e) for e in kvs]
        if w:
            w[0] = "{" + w[0]
            w[-1] += "}"
        return w

    def quote(self, w):
        m = re.match(r"(\{?[^=]+=)(.*?)(\}?)$", w, re.S)
        return m.group(1) + '"' + m.group(2) + '"' + m.group(3) if m and " " in w else w

    def flowtext(self, genv, calls, case, rs):
        segs = [" ".join(self.quote(w) for w in self.seg(c, case, rs)) for c in calls]
        head = " ".join(self.quote(w) for w in self.group(genv))
        if calls and calls[0]["env"]:
            segs = [head] + segs
        elif head:
            segs[0] = head + " " + segs[0]
        return " : ".join(segs)

    def argv(self, case, rs):
        out = self.group(case["genv"])
        for i, c in enumerate(case["main"]):
            if i or c["env"]:
                out.append(":")
            out += self.seg(c, case, rs)
        return out

    def meta(self, name, d, case, rs):
        m = ["help = " + name]
        ch = lambda *a: rs.choice(a) if rs else a[0]
        if d["tb"]:
            m.append("%s = %s" % (ch("begin-ts-key", "begin-key"), d["tb"]))
        if d["te"]:
            m.append("%s = %s" % (ch("end-ts-key", "end-key"), d["te"]))
        if d["td"]:
            m.append("%s = %s" % (ch("duration-key", "dur-key"), d["td"]))
        if d["unlog"]:
            m.append("%s = %s" % (ch("unlog", "nolog", "interact", "interactive"), ch("true", "1", "T")))
        elif rs and rs.random() < .1:
            m.append("unlog = false")
        if rs:
            # what means nothing to how it is started
            m += [x for x in ("pack-subflow = true", "quiet = true", "trivial = 2", "tags = tt") if rs.random() < .12]
        if d["nosess"]:
            m.append("no-session = true")
        if d["flow"]:
            m.append("flow = " + self.flowtext(d["genv"], d["flow"], case, rs))
        if d["args"]:
            m.append("[args]")
            m += ["a%d = %s" % (i, ("'%s'" % a if a == "" else a) + (" (enum: %s|zz)" % (a or "yy") if rs and rs.random() < .3 and a else "")) for i, a in enumerate(d["args"])]
        return "\n".join(m) + "\n"

    def install(self, box, case, rs):
        for name, d in sorted(case["cmds"].items()):
            meta = self.meta(name, d, case, rs)
            if d["ty"] == "flow":
                box.write("mods/%s.tiflow" % name, meta)
                continue
            body = []
            for x in d["lines"]:
                f = "out/%s" % x["t"]
                p = os.path.join(box.root, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(b"\x01" + payload(x["t"]) + b"\x02" + (b"\n" if x["t"][-1] == "n" else b""))
                body.append("cat '%s'%s" % (p, " >&2" if x["s"] == 2 else ""))
            eff = "\n".join("echo '%s=%s' >> \"$s/env\"" % self.text(e) for e in d["eff"])
            text = PROG % dict(name=name, reads=d["reads"], body="\n".join(body), eff=eff, rc=(rs.choice([1, 2, 77, 255]) if rs else 1) if d["fail"] else 0)
            ext = "." + d.get("sfx", d["ext"]) if d["ext"] else ""
            if d["ty"] == "dir":
                root = d["dir"].split("/")
                root = "/".join(root[:root.index(name) + 1])
                box.write("%s/run%s" % (d["dir"], ext), text)
                box.write(root + ".ticat", "cmd = %srun%s\n" % (d["dir"][len(root) + 1:] + "/" if d["dir"] != root else "", ext) + meta)
            else:
                box.write("%s/%s%s" % (d["dir"], name, ext), text)
                box.write("%s/%s%s.ticat" % (d["dir"], name, ext), meta)

    def execute(self, work, case, style):
        rs = random.Random(style) if style else None
        box = work.box()
        try:
            stand = os.path.join(box.root, "stand")
            for n in NAMES:
                box.write("stand/" + n, STANDIN, 0o755)
            self.install(box, case, rs)
            if case["saved"]:
                os.makedirs(box.data, exist_ok=True)
                box.write("ticat.data/bootstrap.env", "".join("%s=%s\n" % self.text(e) for e in case["saved"]))
            env = box.env({"PATH": stand + ":" + os.environ.get("PATH", "/usr/bin:/bin")})
            t0 = int(time.time())
            p = subprocess.run([box.bin] + self.argv(case, rs), cwd=box.cwd, env=env, input="".join(l + "\n" for l in case["input"]).encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            return self.observe(box, case, p, t0, int(time.time()))
        finally:
            box.destroy()

    def observe(self, box, case, p, t0, t1):
        sess = [d for d in glob.glob(os.path.join(box.data, "sessions", "*")) if os.path.isdir(d)]
        sdir = sess[0] if len(sess) == 1 else ""
        progs = []
        raw = open(box.trace, "rb").read().decode(errors="replace") if os.path.exists(box.trace) else ""
        for l in raw.split("\n"):
            if not l:
                continue
            a, args, inp, keys, now = l.split("\036")
            name, exe, cwd, s = a.split("\037")
            ks = []
            d = case["cmds"].get(name, {})
            for kv in keys.split("\037"):
                if kv:
                    k, _, v = kv.partition("=")
                    ks.append(k)
                    timed = [(x, w) for x in case["cmds"].values() for w in ("tb", "te", "td") if x[w] == k]
                    kinds = {w for _, w in timed}
                    if not re.match(r"\d+$", v) or not ("td" in kinds and int(v) <= t1 - t0 + 1 or kinds & {"tb", "te"} and t0 <= int(v) <= t1):
                        ks.append("bad %s" % kv)
            progs.append({"c": name, "exe": exe.split(" "), "dir": cwd, "args": args.split("\037")[:-1],
                          "sess": s == os.path.basename(sdir) if s else False, "in": inp.split("\037")[:-1], "keys": sorted(ks)})
        logs, files = [], []
        if sdir:
            status = open(os.path.join(sdir, "status"), errors="replace").read()
            entries = re.findall(r"<cmd>(.*?)</cmd>|<log>(.*?)</log>", status)
            cur = None
            files = sorted(set(os.listdir(sdir)) - {"env", "status"})
            listed = []
            for c, l in entries:
                if c:
                    cur = c
                else:
                    listed.append((cur, l.strip()))
            seen = [(c, l) for c, l in listed if os.path.exists(l)]
            if sorted(os.path.basename(l) for _, l in seen) != files:
                logs.append({"c": "files and record differ: %s %s" % (files, seen)})
            else:
                for c, l in seen:
                    b = open(l, "rb").read()
                    name = c.split(".")[-1]
                    tk = tokens(b)
                    err = {x["t"] for d in case["cmds"].values() for x in d["lines"] if x["s"] == 2}
                    logs.append({"c": name, "out": [t for t in tk if t not in err], "err": [t for t in tk if t in err], "f": os.path.basename(l)})
                    if rest(b):
                        logs[-1]["rest"] = repr(rest(b)[:80])
        # the logs in the order of the record are in the order of the calls; a flow's program comes behind what its flow ran
        started = {}
        named = []
        text = p.stdout.decode(errors="replace")
        m = re.search(r"log-file:[^\n]*\n[^']*'([^']*)'", text)
        failed = "execute-bin:" in text
        order = sorted(range(len(logs)), key=lambda i: i)
        return {"progs": progs, "outs": tokens(p.stdout), "errs": tokens(p.stderr), "logs": logs, "rc": p.returncode, "named": os.path.basename(m.group(1)) if m else ("none" if failed else ""),
                "tail": rest(p.stdout)[-600:].decode(errors="replace")}

    # ---- comparing
    def view(self, obs, cmp):
        v = {}
        if "progs" in obs and "what" in cmp:
            v["progs"] = [{k: x[k] for k in ("c", "exe", "dir", "args", "sess")} | {"keys": sorted(x["keys"])} for x in obs["progs"]]
        if "shown" in cmp:
            v["in"] = [(x["c"], x["in"]) for x in obs["progs"]]
            v["outs"], v["errs"] = obs["outs"], obs["errs"]
            # programs end in another order than calls start where a flow has a program of its own
            v["logs"] = sorted(([l["c"], l.get("out"), l.get("err")] + ([l["rest"]] if "rest" in l else []) for l in obs["logs"]), key=repr)
            if isinstance(obs["named"], list):
                v["named"] = [] if not obs["named"] else "none" if obs["named"][0] == 0 else [obs["logs"][obs["named"][0] - 1]["c"]]
            else:
                v["named"] = [] if not obs["named"] else "none" if obs["named"] == "none" else [l["c"] for l in obs["logs"] if l.get("f") == obs["named"]]
        v["ok"] = obs["rc"] == 0 if "rc" in obs else obs["named"] == []
        return v

    def describe(self, case, obs, exps, style):
        rs = random.Random(style) if style else None
        out = []
        for n, d in sorted(case["cmds"].items()):
            out.append("  %s (%s%s in %s): %s%s%s" % (n, d["ty"], " ." + d["ext"] if d["ext"] else "", d["dir"], self.meta(n, d, case, None).replace("\n", " | "),
                                                     " FAILS" if d["fail"] else "", " sets %s" % d["eff"] if d["eff"] else ""))
        out.append("ticat " + " ".join(repr(w) if " " in w else w for w in self.argv(case, None)))
        if case["saved"]:
            out.append("  saved env: %s" % case["saved"])
        for k in obs:
            if all(obs[k] != e.get(k) for e in exps):
                out += ["  %s observed: %s" % (k, obs[k]), "  %s expected: %s" % (k, [e.get(k) for e in exps])]
        return "\n".join(out)

    def interesting(self, case, obs):
        return len(obs["progs"]) > 1


LAB = ProgLab()
