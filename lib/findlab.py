"""TicatFind on the real ticat: a catalogue of commands in module directories, and
what the commands which search, list and describe print about it."""
import json, os, random, re

from oracle import Lab

POOL = ["Qa", "Qb", "Qab", "Zx", "Zxy", "Yq", "Xq", "Qx", "Ya"]
FAMILY = ["Qa", "Qb", "Qc", "Qd"]
OPS = ["read", "may-read", "write", "may-write"]
FILES = ("executable-file", "executable-file+flow")
MODES = {"find": {"lite": ["find", "/"], "more": ["//", "find.with-usage", "find.more", "find.usg"], "full": ["///", "find.with-full-info", "find.full", "find.f"]},
         "list": {"lite": ["cmds"], "more": ["cmds.with-usage", "cmds.more", "cmds.m"], "full": ["cmds.with-full-info", "cmds.full", "cmds.f"]},
         "tail": {"lite": ["~", "tail-sub"], "more": ["~~", "tail-sub.more", "tail-sub.usage"], "full": ["~~~", "tail-sub.full", "tail-sub.f"]},
         "tag": {"lite": ["@", "tag"], "more": ["tag.more", "tag.with-usage", "@.m"], "full": ["tag.full", "tag.with-full-info", "@.f"]}}


class FindLab(Lab):
    module = "TicatFindMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\nINVARIANTS Exactly Narrowing Hidden Emit\n%sCHECK_DEADLOCK FALSE\n"
                % (family, "PROPERTIES Finishes\n" if family != "json" else ""))

    # ---- cases
    def gen(self, r, prof):
        p = dict(nodes=7, queries=9, p_help=.5, p_tags=.4, p_args=.5, p_val=.35, p_ops=.4, p_deps=.25, p_timer=.12, p_abbr=.3, p_quiet=.15, p_secret=.12,
                 kinds=["find"] * 5 + ["list"] * 4 + ["tail", "tail", "tag", "tag", "write", "tags", "all", "one", "one", "api"])
        p.update(prof)
        ch = lambda k: r.random() < p[k]
        word = lambda: r.choice(POOL) + (r.choice(POOL) if r.random() < .3 else "")
        key = lambda: ".".join(word() for _ in range(r.randint(1, 2))) + (r.choice([".pwd", "-password", ".my-secret", "private"]) if ch("p_secret") else "")
        nodes, by = [], {}
        while len(nodes) < p["nodes"]:
            up = r.choice([""] + [n["path"] for n in nodes if n["path"].count(".") < 3])
            name = word()
            path = up + "." + name if up else name
            if path in by or any(name in n["abbrs"] for n in nodes if n["up"] == up):
                continue
            # what a directory alone holds is of one source
            above = [by[".".join(path.split(".")[:i])] for i in range(1, path.count(".") + 1)]
            bare = [n for n in above if n["ty"] == "none"]
            src = bare[0]["src"] if bare else r.choice(["SrcA", "SrcB"])
            ty = r.choice(["executable-file"] * 4 + ["executable-file+flow", "flow", "flow", "none", "none", "dir-with-no-executable", "dir-with-executable-file", "no-executable"])
            n = {"path": path, "up": up, "name": name, "abbrs": [], "tags": [], "src": src, "ty": ty, "help": "", "exe": "", "args": [], "val": [], "arg2env": [], "ops": [], "deps": [],
                 "quiet": False, "tb": "", "te": "", "td": "", "flow": [], "meta": ""}
            by[path] = n
            nodes.append(n)
            if ty == "none":
                continue
            if ch("p_help") or ty == "executable-file+flow":
                n["help"] = " ".join(word() for _ in range(r.randint(1, 3)))
            if ch("p_tags"):
                n["tags"] = r.sample(POOL, r.randint(1, 3))
            if ch("p_abbr"):
                taken = {x for m in nodes if m["up"] == up for x in [m["name"]] + m["abbrs"]}
                n["abbrs"] = [x for x in r.sample(POOL, r.randint(1, 2)) if x not in taken]
            if ty in ("flow", "executable-file+flow"):
                n["flow"] = r.choice([["dummy"], ["dummy : dummy"], ["dummy :", "dummy"]])
            names = r.sample(POOL + ["my-pwd", "secret"], 6)
            if ch("p_args"):
                for _ in range(r.randint(1, 3)):
                    a = [names.pop() for _ in range(r.choice([1, 1, 2]))] if len(names) > 1 else None
                    if a:
                        enum = r.choice([[], [], [], ["Qv", "Zw"]])
                        n["args"].append({"names": a, "def": r.choice(enum) if enum else r.choice(["", "3", "hush", "v w", "true", "Qa"]), "enum": enum})
            keys = []
            for _ in range(4):
                k = key()
                if k not in keys:
                    keys.append(k)
            if ch("p_val"):
                n["val"] = [{"k": k, "v": r.choice(["7", "hush", "v w", "false", "Zx"])} for k in r.sample(keys, r.randint(1, 2))]
            if n["args"] and r.random() < .4:
                n["arg2env"] = [{"k": k, "a": n["args"][0]["names"][0]} for k in r.sample(keys, 1)]
            if ch("p_ops"):
                for k in r.sample(keys, r.randint(1, min(3, len(keys)))):
                    ops = r.choice([["read"], ["may-read"], ["write"], ["may-write"], ["may-read", "write"], ["read", "may-write"]])
                    n["ops"].append({"k": k, "ops": ops})
            if ch("p_deps"):
                n["deps"] = [{"c": c, "why": r.choice(["to " + word(), word()])} for c in r.sample(["bash", "nosuchQa", "Zxtool"], r.randint(1, 2))]
            for w in ("tb", "te", "td"):
                if ch("p_timer"):
                    n[w] = r.choice(keys)
            ts = [n[w] for w in ("tb", "te", "td") if n[w]]
            if len(set(ts)) != len(ts):
                n["te"] = n["td"] = ""
            n["quiet"] = ch("p_quiet")
        # a directory with nothing in it is no place
        while True:
            n = [n for n in nodes if n["ty"] == "none" and not any(m["up"] == n["path"] for m in nodes)]
            if not n:
                break
            nodes.remove(n[0])
        if not nodes:
            return self.gen(r, prof)
        for n in nodes:
            if n["ty"] == "no-executable" and any(m["up"] == n["path"] for m in nodes):
                n["ty"] = "dir-with-no-executable"
        self.place(nodes)
        words = lambda k: r.sample(sorted(pieces), k)
        pieces = set(POOL) | {"write", "read", "may-", "quiet", "bash", "flow", "file", "executable", "SrcA", "Src", "@Q", "@Qa", "@Z", "dir-", "Q", "Z", "q", "to Q", "/Q", "no-executable"}
        for n in nodes:
            pieces.add(n["path"])
            if "." in n["path"]:
                pieces.add(n["path"][1:])
            pieces |= {x for x in [n["help"]] + [a["names"][0] for a in n["args"]] + [v["k"] for v in n["val"]] + [o["k"] for o in n["ops"]] if x}
        paths = [n["path"] for n in nodes]
        qs = []
        for _ in range(p["queries"]):
            k = r.choice(p["kinds"])
            q = {"kind": k, "words": [], "branch": "", "source": "", "tag": "", "depth": 0, "mode": r.choice(["lite", "lite", "more", "full"]), "key": "", "bare": r.random() < .15}
            if k == "find":
                q["words"] = words(r.choice([1, 1, 2, 2, 3, 4]))
            elif k == "list":
                if r.random() < .4:
                    q["branch"] = r.choice(paths)
                if r.random() < .5:
                    q["words"] = words(r.choice([1, 1, 2]))
                elif r.random() < .5:
                    q["tag"] = r.choice(POOL)
                if r.random() < .4:
                    q["source"] = r.choice(["SrcA", "SrcB", "Src", "B", "SrcC"])
                q["depth"] = r.choice([0, 0, 1, 2, 3])
            elif k == "tail":
                q["branch"] = r.choice(paths)
                q["words"] = words(r.choice([0, 1, 1, 2]))
                q["tag"] = r.choice(POOL) if not q["words"] and r.random() < .5 else ""
                q["depth"] = r.choice([0, 0, 1, 2])
            elif k == "tag":
                q["words"] = r.sample(POOL, r.choice([1, 2, 3]))
            elif k == "write":
                ks = [x["k"] for n in nodes for x in n["val"] + n["ops"] + n["arg2env"]] + [n[w] for n in nodes for w in ("tb", "te", "td") if n[w]]
                q["key"] = r.choice(ks + ["Qa"])
            elif k in ("one", "api"):
                q["branch"] = r.choice(paths)
                if q["mode"] == "lite":
                    q["mode"] = "more"
            if k in ("write",):
                q["mode"] = "lite"
            qs.append(q)
        return {"nodes": nodes, "queries": qs}

    def place(self, nodes):
        for n in nodes:
            d = n["path"].replace(".", "/")
            f = n["src"] + "/" + d
            ty = n["ty"]
            if ty in FILES:
                n["exe"], n["meta"] = f + ".bash", f + ".bash.ticat"
            elif ty == "dir-with-executable-file":
                n["exe"], n["meta"] = f + "/run.bash", f + ".ticat"
            elif ty == "dir-with-no-executable":
                n["exe"], n["meta"] = f, f + ".ticat"
            elif ty == "flow":
                n["meta"] = n["src"] + "/" + n["path"] + ".tiflow"
            elif ty == "no-executable":
                n["meta"] = f + ".ticat"

    def ready(self, case):
        ss = {"", "quiet", "write", "pwd", "password", "passphrase", "secret", "private"} | set(OPS)

        def walk(x):
            if isinstance(x, str):
                ss.add(x)
            elif isinstance(x, dict):
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(case["nodes"])
        walk(case["queries"])
        return dict(case, chars={s: list(s) for s in ss})

    # ---- the real thing
    def metatext(self, n, rs):
        ch = lambda *a: rs.choice(a) if rs else a[0]
        m = []
        if n["help"]:
            m.append("help = " + n["help"])
        if n["ty"] == "dir-with-executable-file":
            m.append("cmd = run.bash")
        if n["tags"]:
            m.append(ch("tags", "tag") + " = " + " ".join(n["tags"]))
        if n["abbrs"]:
            a = "|".join(n["abbrs"])
            if n["ty"] == "flow":
                # of each level
                a = ".".join(n["path"].split(".")[:-1] + [a])
            m.append(ch("abbrs", "abbr") + " = " + a)
        if n["quiet"]:
            m.append("quiet = true")
        for w, ks in (("tb", ("begin-ts-key", "begin-key")), ("te", ("end-ts-key", "end-key")), ("td", ("duration-key", "dur-key"))):
            if n[w]:
                m.append(ch(*ks) + " = " + n[w])
        if n["flow"]:
            m.append("flow = " + (n["flow"][0] if len(n["flow"]) == 1 else "\\\n" + " \\\n".join(n["flow"])))
        if n["args"]:
            m.append(ch("[args]", "[arg]"))
            for a in n["args"]:
                q = lambda v: ch("'%s'" % v, '"%s"' % v) if v == "" or " " in v and rs and rs.random() < .3 else v
                m.append("%s = %s%s" % (ch("|", " | ").join(a["names"]), q(a["def"]), " (%s%s)" % (ch("enum: ", "", "enum:"), "|".join(a["enum"])) if a["enum"] else ""))
        if n["val"]:
            m.append(ch("[val2env]", "[env.write]"))
            m += ["%s = %s" % (v["k"], v["v"]) for v in n["val"]]
        if n["arg2env"]:
            m.append(ch("[arg2env]", "[env.arg]", "[env.from-arg]"))
            m += ["%s = %s" % (v["k"], v["a"]) for v in n["arg2env"]]
        if n["ops"]:
            m.append("[env]")
            sp = {"read": ["read", "r", "rd"], "may-read": ["may-read", "opt-read", "mayread"], "write": ["write", "w"], "may-write": ["may-write", "opt-write"]}
            m += ["%s = %s" % (o["k"], ch(" : ", ":", "|").join(ch(*sp[x]) for x in o["ops"])) for o in n["ops"]]
        if n["deps"]:
            m.append(ch("[deps]", "[dep]"))
            m += ["%s = %s" % (d["c"], d["why"]) for d in n["deps"]]
        return "\n".join(m) + "\n"

    def install(self, box, case, rs):
        box.set_hub([("", "<local>", os.path.join(box.root, s), "", "on") for s in ("SrcA", "SrcB")])
        for s in ("SrcA", "SrcB"):
            os.makedirs(os.path.join(box.root, s), exist_ok=True)
        for n in case["nodes"]:
            d = os.path.join(box.root, n["src"], n["path"].replace(".", "/"))
            if n["ty"] in ("none", "dir-with-no-executable"):
                os.makedirs(d, exist_ok=True)
            if n["exe"] and n["ty"] != "dir-with-no-executable":
                box.write(n["exe"], "echo %s >> $VT_TRACE\n" % n["path"])
            if n["meta"]:
                box.write(n["meta"], self.metatext(n, rs))

    def argv(self, q, case, rs):
        ch = lambda *a: rs.choice(a) if rs else a[0]
        k = q["kind"]
        w = ["{display.sensitive=true}"] if q["bare"] else []
        if k in MODES:
            c = ch(*MODES[k][q["mode"]])
        if k in ("find", "tag"):
            w += [c] + q["words"]
        elif k == "list":
            named = []
            for a, v in (("cmd-path path p", q["branch"]), ("source repo src s", q["source"]), ("tag t", q["tag"]), ("depth d", str(q["depth"]) if q["depth"] else "")):
                if v:
                    named.append(ch(*a.split()) + "=" + v)
            named += [a + "=" + v for a, v in zip(["1st-str", "2nd-str", "3rd-str", "4th-str"], q["words"])]
            if rs:
                rs.shuffle(named)
            w += [c] + named
        elif k == "tail":
            named = [a + "=" + v for a, v in zip(["1st-str", "2nd-str", "3rd-str", "4th-str"], q["words"])]
            if q["tag"]:
                named.append(ch("tag", "t") + "=" + q["tag"])
            if q["depth"]:
                named.append(ch("depth", "d") + "=%d" % q["depth"])
            if not q["depth"] and q["words"] and ch(True, False):
                named = q["words"]
            w += [q["branch"], ":", c] + named
        elif k == "write":
            w += [ch("env.who-write", "env.ww"), ch("key=", "k=", "") + q["key"]]
        elif k == "tags":
            w += ["tags"]
        elif k == "all":
            w += ["api.cmd.list.all"]
        elif k == "one":
            b = q["branch"]
            w += ch(["cmd", b], ["cmd", "path=" + b], ["=", b], [b, ":", "="], ["help", b]) if q["mode"] == "more" else ch(["cmd.full", b], ["cmd.more", "p=" + b], ["==", b], [b, ":", "=="], [b, ":", "==="])
        elif k == "api":
            w += ["api.cmd.%s"]
        return w

    def execute(self, work, case, style):
        rs = random.Random(style) if style else None
        box = work.box()
        try:
            self.install(box, case, rs)
            out = []
            for q in case["queries"]:
                w = self.argv(q, case, rs)
                if q["kind"] == "api":
                    a = {"n": q["branch"], "args": [], "val": []}
                    for x in ("type", "meta", "path"):
                        p = box.run(*([y % x if "%s" in y else y for y in w] + [q["branch"]]))
                        if p.rc:
                            a["failed"] = p.out[-300:]
                        a["exe" if x == "path" else x] = [l.replace(box.root + "/", "") for l in p.out.splitlines()]
                    o = {"names": [q["branch"]], "about": [a], "tags": []}
                else:
                    p = box.run(*w)
                    o = self.read(p.out.replace(box.root + "/", ""), q)
                    if p.rc:
                        o["failed"] = "%s -> %d %s" % (w, p.rc, " ".join(re.sub("[─│┌┐└┘]+", "", p.out).split())[:300])
                ran = box.take_trace()
                if ran:
                    o["ran"] = ran
                out.append(o)
            return out
        finally:
            box.destroy()

    def read(self, text, q):
        lines = [l for l in text.splitlines() if l and l[0] not in "┌│└"]
        if q["kind"] == "tags":
            return {"names": [], "about": [], "tags": sorted(l[1:] for l in lines if l[:1] == "@" and l[1:] not in ("selftest", "ready"))}
        if q["kind"] == "all":
            return {"names": [l for l in lines if l[:1].isupper()], "about": [], "tags": []}
        blocks, cur = [], None
        for l in lines:
            m = re.match(r"\[(.*)\]$", l)
            if m:
                cur = [m.group(1), []]
                blocks.append(cur)
            elif cur:
                cur[1].append(l)
            else:
                blocks.append(["?" + l, []])
        about = [self.block(n, ls) for n, ls in blocks if n[:1].isupper() or n[:1] == "?"]
        return {"names": [a["n"] for a in about], "about": about, "tags": []}

    def block(self, name, lines):
        a = {"n": name, "help": [], "tags": [], "args": [], "val": [], "arg2env": [], "ops": [], "deps": [], "type": [], "flow": [], "exe": [], "meta": []}
        sect, odd = None, []
        un = lambda v: v[1:-1] if len(v) > 1 and v[0] == v[-1] == "'" else v
        for l in lines:
            if re.match(r" {5}@", l):
                a["tags"] = [t[1:] for t in l.split()]
                continue
            if re.match(r" {5}'", l):
                a["help"].append(l.strip()[1:-1])
                continue
            m = re.match(r" {4}- (.*):$", l)
            if m:
                sect = m.group(1)
                continue
            v = l[8:] if l.startswith(" " * 8) else None
            if v is None or sect is None:
                odd.append(l)
            elif sect == "args":
                m = re.match(r"(.*?) = (.*?)(?: \(enum: (.*)\))?$", v)
                a["args"].append({"names": m.group(1).split("|"), "def": un(m.group(2)), "enum": m.group(3).split("|") if m.group(3) else []})
            elif sect == "env-direct-write":
                k, x = v.split(" = ", 1)
                a["val"].append({"k": k, "v": un(x)})
            elif sect == "env-from-argv":
                k, x = v.split(" <- ", 1)
                a["arg2env"].append({"k": k, "a": un(x)})
            elif sect == "env-ops":
                k, x = re.sub(r" <- \(.*", "", v).split(" = ", 1)
                a["ops"].append({"k": k, "ops": x.split(" : ")})
            elif sect == "os-cmd-dep":
                k, x = v.split(" = ", 1)
                a["deps"].append({"c": k, "why": x})
            elif sect == "cmd-type":
                a["type"] = [v.split(" ")[0]] + re.findall(r"\((.*?)\)", v)
            elif sect == "flow":
                a["flow"].append(v)
            elif sect in ("dir", "executable(after flow)", "executable"):
                a["exe"].append(v)
            elif sect == "meta":
                a["meta"].append(v)
            elif sect not in ("full-abbrs", "from", "full-cmd"):
                odd.append(l)
        if odd:
            a["odd"] = odd
        return a

    # ---- comparing
    def view(self, obs, cmp):
        out = []
        for o in obs:
            v = {k: o[k] for k in ("failed", "ran") if k in o}
            if "names" in cmp:
                v["names"], v["tags"] = sorted(o["names"]), sorted(o["tags"])
            if "about" in cmp:
                v["about"] = sorted(o["about"], key=lambda a: a["n"])
                # what is said about no one: nothing
            out.append(v)
        return out

    def same(self, obs, exp, cmp):
        if "names" in cmp:
            return self.view(obs, cmp) == self.view(exp, cmp)
        # only about the ones who are shown and should be
        for o, e in zip(self.view(obs, cmp), self.view(exp, cmp)):
            by = {a["n"]: a for a in e["about"]}
            if "failed" in o or any(a["n"] in by and a != by[a["n"]] for a in o["about"]) or (by and not o["about"]):
                return False
        return True

    def describe(self, case, obs, exps, style):
        out = []
        for n in case["nodes"]:
            out.append("  %s (%s from %s): %s" % (n["path"], n["ty"], n["src"], self.metatext(n, None).replace("\n", " | ") if n["ty"] != "none" else ""))
        for i, q in enumerate(case["queries"]):
            if i < len(obs) and all(obs[i] != e[i] for e in exps):
                out.append("ticat " + " ".join(self.argv(q, case, None)))
                for k in obs[i]:
                    if any(obs[i][k] != e[i].get(k) for e in exps):
                        o, e = obs[i][k], exps[0][i].get(k)
                        if k == "about":
                            o, e = [x for x in o if x not in (e or [])], [x for x in (e or []) if x not in o]
                        out += ["  %s observed: %s" % (k, json.dumps(o)[:1500]), "  %s expected: %s" % (k, json.dumps(e)[:1500])]
        return "\n".join(out)

    def interesting(self, case, obs):
        return sum(len(o["names"]) > 0 for o in obs) > 1


LAB = FindLab()
