"""Cases for TicatExec: generation, rendering to a real installation, running,
projection of what was observed."""
import glob, json, os, random, re, shlex

ABSENT = "\\-"
KEYS = ["k1", "k2", "k3", "k4", "k5", "k6"]
KEYRE = "k[0-9]"


def q(s):
    """a value as it is written in a flow"""
    return '"' + s + '"' if s == "" or re.search(r"\s", s) else s


def env_group(kvs):
    return "{" + " ".join("%s=%s" % (e["k"], "--" if e["del"] else q(e["v"])) for e in kvs) + "}"


class Style:
    """How a call is spelled.  All spellings of a call mean the same; the plain one
    (rng None) is name=value arguments behind the full name."""

    def __init__(self, seed=None):
        self.r = random.Random(seed) if seed is not None else None

    def cmd(self, name, prog):
        if self.r and self.r.random() < .4 and name in prog["cmds"] and prog["cmds"][name]["ty"] != "builtin":
            return self.r.choice([name + "b", name + "bb"])
        return name

    def args(self, call, prog):
        """words behind the command name"""
        given = call["args"]
        if not given:
            return []
        d = prog["cmds"].get(call["c"])
        if not self.r or d is None:
            return ["%s=%s" % (a["a"], q(a["v"])) for a in given]
        names = [x["n"] for x in d["args"]]
        if d["ty"] == "builtin":
            return self.r.choice([["%s=%s" % (a["a"], q(a["v"])) for a in given], [a["v"] for a in given], [x for a in given for x in (a["a"][0], "=", q(a["v"]))]]
                                 [:1 if call["ok"] else 3])
        forms = ["plain", "plain", "spaced", "shuffled"]
        # the two other notations cannot be followed by %err=ok
        if not call["ok"]:
            forms += ["group"]
            if [a["a"] for a in given] == names[:len(given)]:
                forms += ["pos", "pos", "pos"]
        f = self.r.choice(forms)
        key = lambda a: a + "a" if self.r.random() < .4 else a
        if f == "pos":
            return [q(a["v"]) for a in given]
        if f == "spaced":
            return [x for a in given for x in (key(a["a"]), "=", q(a["v"]))]
        if f == "group":
            return ["{" + " ".join("%s=%s" % (key(a["a"]), q(a["v"])) for a in given) + "}"]
        given = list(given)
        if f == "shuffled":
            self.r.shuffle(given)
        return ["%s=%s" % (key(a["a"]), q(a["v"])) for a in given]


    OPS = {"read": ["read", "rd", "r", "R", "Read"], "write": ["write", "w", "W", "wr"],
           "may-read": ["may-read", "mayread", "opt-read", "may-rd", "May-Read"], "may-write": ["may-write", "may-w", "opt-w", "maywrite"]}

    def ops(self, ops):
        """the declared reads and writes of a key"""
        if not self.r:
            return " : ".join(ops)
        return self.r.choice([" : ", ":", "|", " | "]).join(self.r.choice(self.OPS[o]) for o in ops)

    def ok(self):
        return "%err=ok"

    def rc(self):
        return self.r.choice(["exit 1", "exit 2", "exit 7", "exit 126", "exit 127", "exit 255", "kill -9 $$", "kill -TERM $$"]) if self.r else "exit 3"

    def extras(self, d):
        """meta entries which mean nothing to the execution"""
        m = []
        if self.r:
            if d["ty"] != "file" and self.r.random() < .3:
                m.append("pack-subflow = true")
            if self.r.random() < .15:
                m.append("trivial = 1")
            if self.r.random() < .15:
                m.append("quiet = true")
            if self.r.random() < .15:
                m.append("tags = tt")
            if self.r.random() < .15:
                m.append("unlog = true")
        return m


PLAIN = Style()


class Raw(str):
    """a word as it is"""


# erroneous calls of a command N with an argument X
BROKEN = ["nosuch", "Nzz", "N.nosuch", "N zz=1", "N X=1 zz=1", "N q1 q2 q3 q4 q5 q6 q7", "N X=", "N X =", "N =", "N =v", "N {zz=1}", "N {X=1", "N {X=1} }",
          "N %nosuch=1", "N %err=", "{k1=v N", "{k1} N", "{=v} N", "{ N", "k1=v} N", "} N", "{k1=v}} N", "{k1=v} } N", "{k1=} N", "{k1=v k2=} N"]
BROKEN_IN_FLOW = BROKEN + ["N 'q", 'N "q', "N [[nokey]]", "N X=[[nokey]]", "N X=t[[*nokey]]", "{k1=[[nokey]]} N"]


def call_words(call, prog, style=PLAIN):
    w = []
    if call.get("brk"):
        n, x = call["of"], (prog["cmds"][call["of"]]["args"] or [{"n": "x"}])[0]["n"]
        return [Raw(t.replace("N", style.cmd(n, prog)).replace("X", x)) for t in call["brk"].split(" ")]
    if call["env"]:
        w.append(env_group(call["env"]))
    w.append(style.cmd(call["c"], prog))
    w += style.args(call, prog)
    if call["ok"]:
        w.append(style.ok())
    return w


def genv_words(genv):
    return [env_group(genv)] if genv else []


def seq_text(genv, calls, prog, style=PLAIN):
    """A sequence as text.  A leading {..} belongs to the whole sequence, so a first
    call with an env of its own is put behind an empty command."""
    return " : ".join(seq_segs(genv, calls, prog, style))


def seq_segs(genv, calls, prog, style=PLAIN):
    segs = [" ".join(call_words(c, prog, style)) for c in calls]
    segs = ["**" + t + " :**" if c.get("rep") else t for c, t in zip(calls, segs)]
    head = " ".join(genv_words(genv))
    if calls and calls[0]["env"]:
        return [head] + segs
    if head:
        segs[0] = head + " " + segs[0]
    return segs


def flow_meta(d, prog, style=PLAIN):
    """the meta lines which define the flow of a command"""
    segs = seq_segs(d["genv"], d["flow"], prog, style)
    out = []
    if style.r and len(d["flow"]) > 1 and not any(c.get("rep") for c in d["flow"]) and style.r.random() < .25:
        # some of the last calls as a macro
        i = style.r.randint(len(segs) - len(d["flow"]) + 1, len(segs) - 1)
        j = style.r.randint(i + 1, len(segs))
        out.append("[[qm]] = " + " : ".join(segs[i:j]))
        segs[i:j] = ["[[qm]]"]
    form = style.r.choice(["one", "one", "section", "lines"]) if style.r else "one"
    if form != "one" and len(segs) > 1 and segs[0] != "":
        # every line ends a call; two calls with a repeated one share no line
        lines, cur = [], segs[0]
        for s in segs[1:]:
            if style.r.random() < .6:
                lines.append(cur + style.r.choice(["", " :"]))
                cur = s
            else:
                cur += " : " + s
        lines.append(cur)
        if form == "section":
            if style.r.random() < .5:
                lines.insert(style.r.randint(0, len(lines)), "# a comment : nosuchcmd")
            if style.r.random() < .3:
                lines.insert(style.r.randint(0, len(lines)), "")
            return out + ["[flow/]"] + ["    " + l for l in lines] + ["[/flow]"]
        return out + ["flow = " + " \\\n    ".join(lines), ""]
    return out + ["flow = " + " : ".join(segs)]


def seq_argv(genv, calls, prog, style=PLAIN):
    out = []
    if genv or prog.get("disp"):
        out += genv_words(list(genv) + [{"k": k, "v": v, "del": False} for k, v in prog.get("disp", [])])
    for i, c in enumerate(calls):
        if i or c["env"]:
            out.append(":")
        out += call_words(c, prog, style)
        for s in prog.get("store", []):
            if s["at"] == i:
                out += [":"] + s["words"]
    # one {...} group is one or more words, without the quotes of flow text
    res = []
    for w in out:
        if isinstance(w, Raw):
            res.append(str(w))
        elif w.startswith("{"):
            inner = w[1:-1]
            kvs = re.findall(r'[^\s=]+="[^"]*"|\S+', inner)
            kvs = [re.sub(r'^([^=]+)="(.*)"$', r"\1=\2", kv, flags=re.S) for kv in kvs]
            kvs[0] = "{" + kvs[0]
            kvs[-1] = kvs[-1] + "}"
            res += kvs
        else:
            m = re.match(r'^([^="]+=)?"(.*)"$', w, re.S)
            res.append((m.group(1) or "") + m.group(2) if m else w)
    return res


SCRIPT = r'''f="$1/env"; shift
{ printf '%%s' '%(name)s'; for a in "$@"; do printf '\037%%s' "$a"; done; printf '\036'
while IFS= read -r l; do case "$l" in k[0-9]=*) printf '%%s\037' "$l";; esac; done < "$f"
printf '\n'; } >> "$VT_TRACE"
%(pre)s%(eff)s%(post)s%(rc)s
'''


def meta_of(name, d, prog, style=PLAIN):
    m = ["help = %s" % name]
    if style.r:
        m.append("abbrs = %sb|%sbb" % (name, name))
    if d["quiet"]:
        m.append("quiet-error = true")
    m += style.extras(d)
    if d.get("auto"):
        w = [a["a"] + ("a" if style.r and a["k"] == "name" and d["auto"][-1]["k"] not in ("star", "all") and style.r.random() < .2 else "") if a["k"] != "val"
             else a["a"] + ("|%sa" % a["a"] if style.r else "") + "=" + a["v"] for a in d["auto"]]
        key = style.r.choice(["args.auto", "arg.auto", "arg2env.auto", "arg2env.auto-map", "arg2env.map"]) if style.r else "args.auto"
        m.append("%s = %s" % (key, (style.r.choice([", ", ",", " , "]) if style.r else ",").join(w)))
    if d["ty"] in ("flow", "fileflow"):
        m += flow_meta(d, prog, style)
    if d["args"]:
        m.append("[args]")
        # an abbreviation several commands give to different arguments
        shared = style.r.choice(d["args"])["n"] if style.r and style.r.random() < .4 else None
        enum = lambda: style.r.choice([" (enum: e1|e2)", " (e1|e2|e3)", "(enum:e1)"]) if style.r and style.r.random() < .08 else ""
        m += ["%s = %s" % (a["n"] + ("|%sa" % a["n"] if style.r else "") + ("|sh" if a["n"] == shared else ""), a["def"] + (enum() if a["def"] and a["def"][-1] not in "'\")" else ""))
              for a in d["args"]]
    if d["a2e"]:
        m.append("[arg2env]")
        m += ["%s = %s" % (x["k"], x["a"]) for x in d["a2e"]]
    if d["v2e"]:
        m.append("[val2env]")
        m += ["%s = %s" % (x["k"], x["v"]) for x in d["v2e"]]
    if d["ops"]:
        m.append("[env]")
        by = {}
        for x in d["ops"]:
            by.setdefault(x["k"], []).append(x["op"])
        m += ["%s = %s" % (k, style.ops(v)) for k, v in by.items()]
    if not d["dep"]:
        m.append("[dep]")
        m.append("no-such-os-command-vt = needed")
    return "\n".join(m) + "\n"


def install(box, prog, style=PLAIN, pre="", post=""):
    for name, d in sorted(prog["cmds"].items()):
        if d["ty"] == "builtin":
            continue
        meta = meta_of(name, d, prog, style)
        if d["ty"] == "flow":
            box.write("mods/" + name + ".tiflow", meta)
        else:
            eff = ""
            for e in d["eff"]:
                eff += "printf '%%s\\n' %s >> \"$f\"\n" % shlex.quote("%s=%s" % (e["k"], "--" if e["del"] else e["v"]))
            box.mod(name, SCRIPT % dict(name=name, eff=eff, pre=pre, post=post, rc=style.rc() if d["fail"] else "exit 0"), meta)
    if prog["base"]:
        words = ["%s=%s" % (e["k"], e["v"]) for e in prog["base"]]
        words[0] = "{" + words[0]
        words[-1] += "}"
        r = box.run(*(words + ["env.save"]))
        if r.rc != 0:
            raise RuntimeError("env.save failed: " + r.out)


def parse_runs(lines):
    runs = []
    for l in lines:
        head, _, tail = l.partition("\036")
        f = head.split("\037")
        s = {k: ABSENT for k in KEYS}
        for kv in tail.split("\037"):
            if kv:
                k, _, v = kv.partition("=")
                if k in s:
                    s[k] = v
        runs.append({"c": f[0], "a": f[1:], "s": s})
    return runs


TAG = re.compile(r"^<(/?)([a-z-]+)>(.*?)(?:</([a-z-]+)>)?$")


def parse_status(text):
    """events of a session status file: start/sub/subend/end/done"""
    raw = text.split("\n")
    lines = [l.strip() for l in raw]
    ev, stack = [], []
    i = 0
    cur_env = None

    def env_block(i, tag):
        kv = {k: ABSENT for k in KEYS}
        i += 1
        while i < len(lines) and lines[i] != "</%s>" % tag:
            k, _, v = raw[i].lstrip(" ").partition("=")
            if k in kv:
                kv[k] = v
            i += 1
        return kv, i

    pend = None
    while i < len(lines):
        l = lines[i]
        m = TAG.match(l)
        if not m:
            i += 1
            continue
        tag, val = m.group(2), m.group(3)
        if m.group(1):
            i += 1
            continue
        if tag == "flow":
            while i < len(lines) and lines[i] != "</flow>":
                i += 1
        elif tag == "cmd":
            ev.append({"e": "start", "c": val, "s": {k: ABSENT for k in KEYS}, "r": ""})
            stack.append(val)
            pend = None
        elif tag == "env-start":
            ev[-1]["s"], i = env_block(i, tag)
        elif tag == "subflow":
            ev.append({"e": "sub", "c": "", "s": {}, "r": ""})
        elif tag == "env-finish":
            pend, i = env_block(i, tag)
        elif tag == "cmd-finish-time":
            ev.append({"e": "end", "c": stack.pop() if stack else "?",
                       "s": pend if pend is not None else {k: ABSENT for k in KEYS}, "r": "?"})
            pend = None
        elif tag == "cmd-result":
            ev[-1]["r"] = val
        elif tag == "error":
            while i < len(lines) and lines[i] != "</error>":
                i += 1
        elif tag == "flow-finish-time":
            indent = len(text.split("\n")[i]) - len(text.split("\n")[i].lstrip())
            ev.append({"e": "done" if indent == 0 else "subend", "c": "", "s": {}, "r": "?"})
        elif tag == "flow-result":
            ev[-1]["r"] = val
        i += 1
    return ev


def status_files(box):
    return sorted(glob.glob(os.path.join(box.data, "sessions", "*", "status")))


def stored(box):
    """everything ticat keeps, but for the sessions"""
    res = {}
    for d, dirs, files in os.walk(box.data):
        if d == box.data and "sessions" in dirs:
            dirs.remove("sessions")
        for f in files:
            with open(os.path.join(d, f), "rb") as fh:
                res[os.path.relpath(os.path.join(d, f), box.data)] = fh.read()
    return res


# before a program does anything else: the record as it is now
RECORD_NOW = """cp "${f%/env}/status" "$VT_TRACE.$(wc -l < "$VT_TRACE")"
"""


def observe(box, prog, timeout=30, argv=None, style=PLAIN):
    before = set(status_files(box))
    box.take_trace()
    argv = argv or seq_argv(prog["genv"], prog["main"], prog, style)
    kept = stored(box) if "store" in prog else None
    r = box.run(*argv, timeout=timeout)
    runs = parse_runs(box.take_trace())
    new = [f for f in status_files(box) if f not in before]
    rec = parse_status(open(new[-1]).read()) if new else []
    shape = lambda ev: [(e["e"], e["c"], e["r"]) for e in ev]
    for i, x in enumerate(runs):
        f = "%s.%d" % (box.trace, i + 1)
        if os.path.exists(f):
            now = parse_status(open(f).read())
            x["at"] = len(now) if now and shape(now) == shape(rec[:len(now)]) else -1
    obs = {"runs": runs, "rec": rec, "rc": r.rc}
    if kept is not None:
        obs["stored"] = stored(box) != kept
    return obs, r


# --------------------------------------------------------------------------
# generation
NOTFLOW = ()


DISPLAY = ["display." + k for k in ("utf8", "utf8.symbols", "color", "env", "env.sys", "env.sys.paths", "env.display", "stack", "env.layer", "env.default", "meow", "sensitive",
           "mod.quiet", "mod.realname", "mod.input-name", "mod.input-name.with-realname", "executor", "executor.end", "bootstrap", "one-cmd", "tip",
           "completion.hidden")]
VERBS = [["display.quiet"], ["disp.q"], ["display.verbose"], ["display.v"], ["disp.v.inc"], ["display.v.inc", "3"], ["display.verbose.increase", "9"], ["display.v.dec"],
         ["disp.v.dec", "2"], ["display.v.dec", "9"], ["display.v.def"], ["display.set-width", "30"], ["display.set-width"], ["disp.set-width", "5"]]


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(nfile=3, nflow=3, maxcalls=3, mainmax=4, p_fail=.15, p_quiet=.15, p_ok=.25, p_env=.25,
                      p_genv=.4, p_args=.5, p_a2e=.4, p_v2e=.3, p_ops=.0, p_nodep=.0, p_tpl=.0, p_eff=.5,
                      p_base=.3, p_fileflow=.25, p_del=.15, p_argkey=.1, p_badname=.0, p_rep=.0, rep_empty=False, p_chain=.0, p_auto=.0, p_autoargs=.8, p_broken=.0, p_via=.0, p_store=.0, p_disp=.0, quoted=False, keys=0, p_provide=.0, argnames=("x", "y"), values=None,
                      effvals=None)
        self.p.update(prof)

    def chance(self, name):
        return self.r.random() < self.p[name]

    def key(self):
        return self.r.choice(KEYS[:self.p["keys"] or len(KEYS)])

    def val(self):
        if self.p["values"]:
            return self.r.choice(self.p["values"])
        if self.p["quoted"]:
            return self.r.choice(["a", "x-y", "two words", "a  b", "p%q", "x,y", "é", "@z", "^c", "~", "+1", "!v", "it's ok", "a;b c", "a|b & c", "a <b> c", "$HOME", "*", "x, y ,z"])
        if self.p["p_rep"]:
            return self.r.choice((["a,,b", ",c", "b,", ","] if self.p["rep_empty"] else []) + ["a", "a,b", "b,b,c", "c,c", "a,a,a", "n_1", "n_1" if self.p["p_tpl"] else "x, y ,z"])
        return self.r.choice(["a", "b", "v1", "v2", "x-y", "p/q", "n_1", "z.z"] + ([] if self.p["p_tpl"] else ["two words", "a  b"]))

    def effval(self):
        """written by a program: any characters of a line"""
        if self.p["effvals"]:
            return self.r.choice(self.p["effvals"])
        if self.p["p_tpl"] or self.p["p_rep"]:
            return self.val()
        return self.r.choice(["a", "b", "v1", "v2", "", "", "a=b", "=", "x:y", "'", "{q}", "\"", "$HOME", "a b", "\\n", "##", "%d", "é", "a ", " a", "\tb", "b  "])

    def value(self, names=()):
        """parts: in flows also templates"""
        if names and self.chance("p_tpl"):
            k = self.r.choice(list(names) + KEYS[:self.p["keys"] or len(KEYS)])
            pre = self.r.choice(["", "t"])
            post = self.r.choice(["", "e"])
            if self.p["quoted"]:
                # with a blank it will be quoted, so that the value may be anything
                pre, post = self.r.choice([("t ", ""), ("", " e"), ("t ", "e"), ("- ", " -")])
            return pre + "[[" + k + "]]" + post
        return self.val()

    def kvs(self, p, names=(), n=2, allow_del=True):
        if not self.r.random() < p:
            return []
        out, seen = [], set()
        for _ in range(self.r.randint(1, n)):
            k = self.key()
            if k in seen:
                continue
            seen.add(k)
            d = allow_del and self.chance("p_del")
            out.append({"k": k, "v": "--" if d else self.value(names), "del": d})
        return out

    def call(self, prog, c, names=NOTFLOW):
        d = prog["cmds"][c]
        args = []
        for a in d["args"]:
            if self.chance("p_args"):
                args.append({"a": a["n"], "v": self.value(names)})
        if d.get("auto"):
            for a in sorted(self.takes(prog, c) - {x["n"] for x in d["args"]}):
                if self.r.random() < .35 * self.p["p_autoargs"]:
                    args.append({"a": a, "v": self.value(names)})
        rep = ""
        if names is not NOTFLOW and args and self.r.random() < self.p["p_rep"]:
            rep = self.r.choice(list(names) + KEYS)
            args[0]["v"] = self.r.choice(["" if not self.p["rep_empty"] else "u", "t"]) + "[[*%s*]]" % rep + self.r.choice(["", "-e"])
        env = self.kvs(self.p["p_env"], names)
        for o in d["ops"]:
            # what the command reads, given to it with the call
            if o["op"] == "read" and self.r.random() < self.p["p_provide"] and o["k"] not in [e["k"] for e in env]:
                env.append({"k": o["k"], "v": self.value(names), "del": False})
        return {"c": c, "args": args, "env": env, "ok": self.chance("p_ok"), "rep": rep}

    def cmd(self, prog, name, ty, callees):
        d = {"ty": ty, "args": [], "a2e": [], "v2e": [], "ops": [], "dep": not self.chance("p_nodep"), "eff": [],
             "fail": False, "quiet": self.chance("p_quiet"), "genv": [], "flow": []}
        anames = self.p["argnames"]
        for n in anames if len(anames) == 2 else self.r.sample(anames, 2):
            if self.chance("p_args"):
                d["args"].append({"n": n, "def": self.r.choice(["", "d" + n, "dd"])})
        used = set()
        for a in d["args"]:
            k = self.key()
            if self.chance("p_a2e") and k not in used:
                used.add(k)
                d["a2e"].append({"k": k, "a": a["n"]})
        if self.chance("p_v2e"):
            k = self.key()
            names = [a["n"] for a in d["args"]]
            d["v2e"].append({"k": k, "v": self.value(names)})
        if self.chance("p_ops"):
            ks = set()
            for _ in range(self.r.randint(1, 2)):
                k = self.key()
                if k in ks:
                    continue
                ks.add(k)
                for op in self.r.choice([["read"], ["read"], ["write"], ["may-read"], ["may-write"], ["read", "write"],
                                         ["write", "read"]] if not self.p["p_provide"] else [["read"], ["may-read"], ["read", "may-read"], ["may-read", "read"], ["may-write"]]):
                    d["ops"].append({"k": k, "op": op})
        if ty != "flow":
            d["fail"] = self.chance("p_fail")
            if self.chance("p_eff"):
                for _ in range(self.r.randint(1, 2)):
                    dl = self.chance("p_del")
                    d["eff"].append({"k": self.key(), "v": "--" if dl else self.effval(), "del": dl})
        if ty != "file":
            names = [a["n"] for a in d["args"]]
            if self.chance("p_chain"):
                callees = callees[-2:]
            d["flow"] = [self.call(prog, self.r.choice(callees), list(names))
                         for _ in range(self.r.randint(1, self.p["maxcalls"]))]
            for i, c in enumerate(d["flow"]):
                # one repeated call per line of a flow
                if c["rep"] and any(x["rep"] for x in d["flow"][:i]):
                    c["rep"], c["args"][0]["v"] = "", "1"
                if self.chance("p_via"):
                    # which command it is, is up to a value
                    c["c"], c["rep"] = "[[%s]]" % self.r.choice(names + KEYS[:self.p["keys"] or 6]), ""
                    c["args"] = [] if self.r.random() < .7 else [a for a in c["args"] if "[[*" not in a["v"]]
            d["genv"] = self.kvs(self.p["p_genv"], names)
            if self.r.random() < self.p["p_badname"]:
                d["flow"][self.r.randrange(len(d["flow"]))]["c"] = "nosuch"
            if self.chance("p_auto"):
                d["auto"] = []
                for n in self.r.sample(["u", "v", "x", "y"], self.r.choice([0, 0, 1, 1, 2, 3])):
                    d["auto"].append({"k": "name", "a": n, "v": ""})
                have = {x["n"] for x in d["args"]}
                if self.r.random() < .2:
                    d["auto"].insert(self.r.randint(0, len(d["auto"])), {"k": "val", "a": "m", "v": self.r.choice(["1", "dm"])})
                if not d["auto"] or self.r.random() < .4:
                    d["auto"].append({"k": self.r.choice(["star", "star", "all"]), "a": "", "v": ""})
                    d["auto"][-1]["a"] = {"star": "*", "all": "**"}[d["auto"][-1]["k"]]
        prog["cmds"][name] = d

    def takes(self, prog, c):
        """arguments a command may have taken over (more or less; the specification knows)"""
        d = prog["cmds"][c]
        au = d.get("auto", [])
        names, seen = set(), set()

        def walk(x):
            if x in seen or x not in prog["cmds"]:
                return
            seen.add(x)
            for k in prog["cmds"][x]["flow"]:
                if k["c"] in prog["cmds"] and k["c"] not in seen:
                    walk(k["c"])
                    names.update(m["a"] for m in prog["cmds"][k["c"]]["a2e"])
        walk(c)
        if not any(a["k"] in ("star", "all") for a in au):
            names &= {a["a"] for a in au if a["k"] == "name"}
        return names | {a["a"] for a in au if a["k"] == "val"}

    def prog(self):
        prog = {"cmds": {}, "base": [], "genv": [], "main": []}
        names = []
        for i in range(self.r.randint(1, self.p["nfile"])):
            self.cmd(prog, "f%d" % (i + 1), "file", [])
            names.append("f%d" % (i + 1))
        for i in range(self.r.randint(0, self.p["nflow"])):
            n = "w%d" % (i + 1)
            self.cmd(prog, n, "fileflow" if self.chance("p_fileflow") else "flow", list(names))
            names.append(n)
        top = names + [n for n in names if n[0] == "w"] * 2
        prog["main"] = [self.call(prog, self.r.choice(top)) for _ in range(self.r.randint(1, self.p["mainmax"]))]
        if self.r.random() < self.p["p_badname"]:
            prog["main"][self.r.randrange(len(prog["main"]))]["c"] = "nosuch"
        if self.chance("p_broken"):
            seqs = [prog["main"]] + [d["flow"] for d in prog["cmds"].values() if d["flow"]]
            q = self.r.choice(seqs)
            i = self.r.randrange(len(q))
            q[i] = {"c": "nosuch", "of": q[i]["c"], "brk": self.r.choice(BROKEN if q is prog["main"] else BROKEN_IN_FLOW), "args": [], "env": [], "ok": q[i]["ok"], "rep": ""}
        if self.chance("p_disp"):
            # how things are shown, and commands changing that on the way
            prog["disp"] = [(k, self.r.choice(["on", "off"])) for k in DISPLAY if self.r.random() < .5]
            for k, vs in (("width", ["1", "2", "5", "10", "20", "40", "60", "80", "120", "400"]), ("max-cmd-cnt", ["0", "1", "2", "3", "14", "9999"]), ("height", ["1", "5", "50"]),
                          ("style", ["ascii", "utf8", "slash", "no-corner", "nosuch", "light", "bold"])):
                if self.r.random() < .6:
                    prog["disp"].append(("display." + k, self.r.choice(vs)))
            self.r.shuffle(prog["disp"])
            prog["store"] = [{"at": self.r.randrange(len(prog["main"])), "words": self.r.choice(VERBS)} for _ in range(self.r.choice([0, 1, 1, 2]))]
        if self.chance("p_store"):
            prog["store"] = [{"at": self.r.randrange(len(prog["main"])), "words": self.r.choice([["env.save"], ["env.snapshot.save", "zs"], ["hub.clear"], ["env.set", "zz9", "v", ":", "env.save"]])}]
        prog["genv"] = self.kvs(self.p["p_genv"])
        if self.chance("p_argkey"):
            c = self.r.choice(names)
            first = prog["main"][0]
            if prog["cmds"][c]["args"] and not (first["c"] == c and first["args"]):
                prog["genv"].append({"k": c + "." + prog["cmds"][c]["args"][0]["n"], "v": self.val(), "del": False})
        for n, d in prog["cmds"].items():
            if d["ty"] != "flow" and self.chance("p_argkey"):
                c = self.r.choice(names)
                if prog["cmds"][c]["args"]:
                    dl = self.chance("p_del")
                    d["eff"].append({"k": c + "." + self.r.choice(prog["cmds"][c]["args"])["n"],
                                     "v": "--" if dl else self.effval(), "del": dl})
        if self.chance("p_base"):
            prog["base"] = [{"k": k, "v": self.val()} for k in self.r.sample(KEYS, self.r.randint(1, 2))]
        return prog
