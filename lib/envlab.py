"""Histories over the saved env, snapshots and sessions: TicatEnvStore on the real ticat."""
import glob, json, os, random, shlex

from execlab import env_group, q, ABSENT
from execfam import keyset
from oracle import Lab

KEYS = ["k1", "k2", "k3", "k11", "display.sensitive"]
NAMES = ["s", "s2", "t-u"]
# what the keys of the specification are called on disk: (stem, 1, second 1, 2, 3) keeps which is whose prefix
STEMS = ["sys.ext.exec.z", "sys.hub.x", "sys.stac-", "display.my-key", "display.ux", "strsx.", "strs-", "my-session", "a.b-c", "K", "sys.sx",
         "very.long.name.of-a-key.in.many_segments.", "x", "sys.paths-", "sysx.", "env.", "\u00e9t\u00e9."]
TAILS = [("1", "1", "2", "3"), ("1", "1", "2", "3"), ("a.b", ".c.d", "c", "d"), ("one-long-name", "-and-more.of-it", "two", "three"), ("1", "1.x", ".2", ".3")]
# a key that has a default value, and what the default and another value look like
DKEYS = [("display.sensitive", "false", "true"), ("display.mod.quiet", "false", "true"), ("display.env.default", "false", "true"),
         ("display.env.layer", "false", "true"), ("display.max-cmd-cnt", "14", "9"), ("display.max-cmd-cnt", "14", "140"),
         ("display.max-cmd-cnt", "14", "4")]


def aliases(rs, case):
    """-> key -> name on disk, dkey's value -> value on disk (keys under sys. outlive a reset: they are ticat's own)"""
    ids = {k: k for k in KEYS}, {"false": "false", "true": "true"}
    if not rs or rs.random() < .4:
        return ids
    resets = any(s["op"] in ("reset", "clear") for s in case["steps"])
    st = rs.choice([x for x in STEMS if not (resets and x.startswith("sys."))])
    a, b, c, d = rs.choice(TAILS)
    dk, f, t = rs.choice(DKEYS)
    return {"k1": st + a, "k11": st + a + b, "k2": st + c, "k3": st + d, "display.sensitive": dk, "k": st}, {"false": f, "true": t}


def adversarial(r):
    """a value a program may write: any characters of a line, any length"""
    alpha = ["=", " ", "\t", ":", "{", "}", "[[", "]]", "'", '"', "\\", "$HOME", "`", "%", "#", "--", "*", "?", ";", "&", "|",
             "<", ">", "\x01", "\x1b[31m", "\x7f", "é", "💡", "k1=", "a", "b", "0", "//", "==", "::", "\\n", "\\u0041", "</env>", "\r-"]
    if r.random() < .1:
        return r.choice("ab=: ") * r.choice([4095, 4096, 4097, 65535, 65536, 65537, 70000, 200000]) + "."
    if r.random() < .25:
        return r.choice([" a", "a ", "\ta", "b ", " c", "A", "aa", "07", "7 ", "7.0", "x-y-", "x_y", "B "])
    v = "".join(r.choice(alpha) for _ in range(r.randint(1, 6)))
    return v


class EnvLab(Lab):
    module = "TicatEnvStoreMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n DEFAULTS <- Defaults\n KEYS = %s\n Family = \"%s\"\n"
                "INVARIANTS NothingLeaks Layers Emit\n"
                "PROPERTIES StoreChanges SavedIsSeen SaveThenSee CallScoped SavedLayerShrinks\nCHECK_DEADLOCK FALSE\n"
                % (keyset(KEYS), family))

    # -- generation
    def gen(self, r, prof):
        p = dict(p_tok=0., procs=(2, 4), steps=(2, 6), p_env=.2, p_flow=.25, p_fail=.05, p_ok=.15, ops=None, p_kd=.1)
        p.update(prof)
        tok, steps = {}, []
        ops = p["ops"] or ["set", "set", "add", "update", "map", "rm", "rm", "rmpre", "reset", "eq", "nex", "save", "save", "clear",
                           "ssave", "ssave", "sload", "sloadn", "srm", "run", "run", "run"]

        def key():
            return "display.sensitive" if r.random() < p["p_kd"] else r.choice(KEYS[:4])

        def val(k="k1"):
            return r.choice(["true", "false"]) if k[0] == "d" else r.choice(["a", "b", "c", "x-y", "7"])

        def effval(k):
            if k[0] != "d" and r.random() < p["p_tok"]:
                if tok and r.random() < .4:
                    return r.choice(sorted(tok))
                v = adversarial(r)
                if v in tok.values() or v in ("--", "") or v in ("a", "b", "c", "x-y", "7", "true", "false") or v.endswith("\r"):
                    return "a"
                t = "T%d" % len(tok)
                tok[t] = v
                return t
            return val(k)

        def kvs(prob, n=2):
            out = []
            if r.random() < prob:
                for k in r.sample(KEYS[:4], r.randint(1, n)):
                    d = r.random() < .15
                    out.append({"k": k, "v": "--" if d else val(), "del": d})
            return out

        def op(depth):
            o = r.choice(ops)
            s = {"op": o, "env": kvs(p["p_env"], 1), "ok": False}
            k = key()
            if o in ("set", "add", "update"):
                s.update(k=k, v=val(k))
            elif o == "map":
                s.update(k=r.choice(KEYS[:4]), k2=r.choice(KEYS[:4]))
            elif o == "rm":
                s.update(k=k)
            elif o == "rmpre":
                s.update(p=r.choice(["k1", "k", "k11", "k2"]))
            elif o == "reset":
                s.update(ex=r.sample(KEYS[:4], r.choice([0, 0, 1, 2])))
            elif o == "eq":
                k = r.choice(KEYS[:4])
                s.update(k=k, v=val())
            elif o == "nex":
                s.update(k=r.choice(KEYS[:4]))
            elif o in ("ssave", "sload", "sloadn", "srm"):
                s.update(n=r.choice(NAMES))
                if o == "ssave":
                    s.update(ow=r.random() < .6)
            elif o == "run":
                eff = []
                for _ in range(r.choice([0, 0, 1, 2, 3])):
                    k = key()
                    d = r.random() < .2 and k[0] != "d"
                    eff.append({"k": k, "v": "--" if d else effval(k), "del": d})
                s.update(eff=eff, fail=r.random() < p["p_fail"])
            if o in ("add", "update", "eq", "nex") or (o == "run" and s["fail"]):
                # mostly tolerated, or nothing of the rest would happen
                s["ok"] = r.random() < (.7 if o != "run" else .5)
            elif r.random() < p["p_ok"]:
                s["ok"] = True
            return s

        def body(n, depth):
            for _ in range(n):
                if depth < 2 and r.random() < p["p_flow"]:
                    steps.append({"op": "enter", "env": kvs(p["p_env"], 1), "genv": kvs(.4)})
                    body(r.randint(1, 3), depth + 1)
                    steps.append({"op": "leave"})
                else:
                    steps.append(op(depth))
        for _ in range(r.randint(*p["procs"])):
            steps.append({"op": "begin", "env": kvs(.4)})
            if r.random() < .3:
                steps.append({"op": "run", "env": [], "ok": False, "eff": [], "fail": False})
            body(r.randint(*p["steps"]), 0)
            steps.append({"op": "run", "env": [], "ok": False, "eff": [], "fail": False})
            steps.append({"op": "end"})
        return {"steps": steps, "tok": tok}

    def ready(self, case):
        return {k: v for k, v in case.items() if k != "tok"}

    # -- rendering
    def words(self, s, i, rs):
        """the words of one call, without its env and %err"""
        o = s["op"]
        pick = lambda *a: rs.choice(a) if rs else a[0]
        if o in ("set", "add", "update"):
            h = pick("env.", "e.") + o
            k, v = s["k"], s["v"]
            if not s["ok"] and rs and rs.random() < .5:
                return [h, k, v]
            return [h] + pick(["key=" + k, "value=" + v], ["value=" + v, "k=" + k], ["k=" + k, "val=" + v])
        if o == "map":
            if not s["ok"] and rs and rs.random() < .5:
                return ["env.map", s["k"], s["k2"]]
            return ["env.map", pick("src-key=", "from=", "src=") + s["k"], pick("dest-key=", "to=") + s["k2"]]
        if o == "rm":
            return [pick("env.remove", "env.rm", "e.del"), pick("key=", "k=") + s["k"]]
        if o == "rmpre":
            return [pick("env.remove.prefix", "env.rm.pre"), "prefix=" + s["p"]]
        if o == "reset":
            w = [pick("env.reset-session", "env.reset")]
            return w + ([pick("exclude-keys=", "excl=") + ",".join(s["ex"])] if s["ex"] else [])
        if o == "eq":
            return ["env.assert.equal", "key=" + s["k"], "value=" + s["v"]]
        if o == "nex":
            return ["env.assert.not-exists", "key=" + s["k"]]
        if o == "save":
            return [pick("env.save", "e.s", "env.S")]
        if o == "clear":
            return [pick("env.clear-and-save", "env.clean", "e.clear")]
        if o == "ssave":
            w = [pick("env.snapshot.save", "e.ss.s", "env.snap.save"), pick("snapshot-name=", "name=", "sn=") + s["n"]]
            return w + ([pick("overwrite=", "ow=") + pick("false", "off", "0")] if not s["ow"] else pick([], ["ow=true"]))
        if o == "sload":
            return [pick("env.snapshot.load", "e.ss.l"), pick("snapshot=", "sn=") + s["n"]]
        if o == "sloadn":
            return [pick("env.snapshot.load.non-exist", "e.ss.l.n"), "name=" + s["n"]]
        if o == "srm":
            return [pick("env.snapshot.remove", "e.ss.rm"), "name=" + s["n"]]
        if o == "run":
            return ["p%d" % i]
        raise ValueError(o)

    def call(self, s, i, rs):
        w = [env_group(s["env"])] if s["env"] else []
        w += self.words(s, i, rs)
        if s.get("ok"):
            w.append("%err=ok")
        return w

    def install(self, box, case, rs):
        """-> list of argv, one per invocation, with the index of its begin"""
        tok = case.get("tok", {})
        out, stack, nflow = [], [], 0
        cur = None
        for i, s in enumerate(case["steps"]):
            o = s["op"]
            if o == "begin":
                cur = {"genv": s["env"], "calls": []}
                stack = [cur]
            elif o == "end":
                out.append(self.argv(stack[0]))
                stack = []
            elif o == "enter":
                stack.append({"genv": s["genv"], "calls": [], "call": s})
            elif o == "leave":
                f = stack.pop()
                nflow += 1
                box.flow("w%d" % nflow, "flow = " + self.text(f) + "\n[args]\nx|xa = 1\n")
                w = [env_group(f["call"]["env"])] if f["call"]["env"] else []
                w.append("w%d" % nflow)
                w += rs.choice([[], [], ["5"], ["x=5"], ["xa=5"]]) if rs else []
                stack[-1]["calls"].append((bool(f["call"]["env"]), w))
            else:
                if o == "run":
                    sc = 'cp "$1/env" "$VT_ROOT/r.%d"\necho %d >> "$VT_TRACE"\n' % (i, i)
                    for e in s["eff"]:
                        v = "--" if e["del"] else tok.get(e["v"], e["v"])
                        sc += "printf '%%s\\n' %s >> \"$1/env\"\n" % shlex.quote(e["k"] + "=" + v)
                    if s["fail"]:
                        sc += "exit 3\n"
                    box.mod("p%d" % i, sc, "help = p\n")
                stack[-1]["calls"].append((bool(s["env"]), self.call(s, i, rs)))
        return out

    def text(self, f):
        segs = [" ".join(w) for _, w in f["calls"]]
        g = env_group(f["genv"]) if f["genv"] else ""
        if f["calls"] and f["calls"][0][0]:
            return " : ".join([g] + segs)
        segs[0] = (g + " " + segs[0]).strip()
        return " : ".join(segs)

    def argv(self, f):
        w = []
        if f["genv"]:
            w += env_group(f["genv"]).split(" ")
        for i, (e, c) in enumerate(f["calls"]):
            if i or e:
                w.append(":")
            for x in c:
                w += x.split(" ") if x.startswith("{") else [x]
        return w

    # -- observation
    def parse_env(self, path, inv, strict=False):
        kv = {k: ABSENT for k in KEYS}
        try:
            with open(path, encoding="utf-8", errors="surrogateescape", newline="") as f:
                text = f.read()
        except FileNotFoundError:
            return None
        for l in text.split("\n"):
            k, eq, v = l.partition("=")
            k = inv[""].get(k)
            if eq and k in kv:
                kv[k] = inv[k].get(v, v if len(v) < 300 else v[:100] + "...(%d)" % len(v))
            elif strict and l:
                # nothing else was ever set: what is this?
                kv["stray " + l[:60]] = ""
        return kv

    def store(self, box, inv):
        none = {k: ABSENT for k in KEYS}
        saved = self.parse_env(os.path.join(box.data, "bootstrap.env"), inv, True)
        snaps = {}
        d = os.path.join(box.data, "env")
        for f in sorted(glob.glob(d + "/*.env")):
            snaps[os.path.basename(f)[:-4]] = self.parse_env(f, inv, True)
        return {"saved": saved or none, "snaps": snaps}

    def named(self, case, style):
        """the case with its keys called something else"""
        names, vals = aliases(random.Random("names " + style) if style else None, case)

        def kv(x):
            return dict(x, k=names[x["k"]], v=vals.get(x["v"], x["v"]) if x["k"][0] == "d" else x["v"])

        def step(s):
            s = dict(s)
            for f in ("env", "genv", "eff"):
                if f in s:
                    s[f] = [kv(x) for x in s[f]]
            if "k" in s:
                if "v" in s and s["k"][0] == "d":
                    s["v"] = vals[s["v"]]
                s["k"] = names[s["k"]]
            if "k2" in s:
                s["k2"] = names[s["k2"]]
            if "ex" in s:
                s["ex"] = [names[k] for k in s["ex"]]
            if "p" in s:
                s["p"] = names.get(s["p"], s["p"])
            return s
        return dict(case, steps=[step(s) for s in case["steps"]]), names, vals

    def execute(self, work, case, style):
        rs = random.Random(style) if style else None
        case, names, vals = self.named(case, style)
        box = work.box()
        try:
            inv = {v: k for k, v in case.get("tok", {}).items()}
            inv = {k: dict(inv, **{v: w for w, v in vals.items()}) if k[0] == "d" else inv for k in KEYS}
            inv[""] = {v: k for k, v in names.items() if k != "k"}
            argvs = self.install(box, case, rs)
            obs = []
            for a in argvs:
                r = box.run(*a)
                for l in box.take_trace():
                    obs.append({"e": "run", "s": self.parse_env(os.path.join(box.root, "r." + l), inv)})
                obs.append({"e": "end", "rc": r.rc, "store": self.store(box, inv)})
            return obs
        finally:
            box.destroy()

    def view(self, obs, cmp):
        out = []
        for o in obs:
            if o["e"] == "run":
                if "runs" in cmp:
                    out.append(o["s"])
            else:
                x = {}
                if "rc" in cmp:
                    x["rc"] = o["rc"]
                if "saved" in cmp:
                    x["saved"] = o["store"]["saved"]
                if "snaps" in cmp:
                    # no snapshots: TLC prints a function without elements as a sequence
                    x["snaps"] = o["store"]["snaps"] or {}
                out.append(x)
        return out

    def describe(self, case, obs, exps, style):
        rs = random.Random(style) if style else None

        class Fake:
            def __init__(self):
                self.f = {}

            def flow(self, n, t):
                self.f[n] = t.strip()

            def mod(self, n, s, m):
                self.f[n] = " ; ".join(l for l in s.split("\n")[2:] if l)[:300]
        b = Fake()
        argvs = self.install(b, self.named(case, style)[0], rs)
        lines = ["ticat " + " ".join(a) for a in argvs] + ["  %s: %s" % x for x in b.f.items() if x[1]]
        exp = exps[0] if exps else []
        for i, o in enumerate(obs):
            e = exp[i] if i < len(exp) else None
            if o != e:
                lines.append("  observation %d: %s" % (i, json.dumps(o)[:700]))
                lines.append("       expected: %s" % json.dumps(e)[:700])
                break
        else:
            lines.append("  observed %d things, expected %d" % (len(obs), len(exp)))
        return "\n".join(lines)


LAB = EnvLab()
