"""TicatHub on the real ticat, with git repos of its own behind the addresses."""
import json, os, random, shutil, subprocess, threading

from oracle import Lab

BASE = "https://github.com/"
NAMES = ["qa", "qb", "qc", "qab"]
GITENV = {"GIT_CONFIG_NOSYSTEM": "1", "GIT_TERMINAL_PROMPT": "0", "GIT_AUTHOR_DATE": "2020-01-01T00:00:00", "GIT_COMMITTER_DATE": "2020-01-01T00:00:00"}
_lock = threading.Lock()
_templates = {}


def addr(n, b=""):
    return BASE + "u/" + n + ("#" + b if b else "")


def split(a):
    a, _, b = a.partition("#")
    return a[len(BASE):], b


def path(n, b=""):
    return "/B/ticat.data/hub/github.com/u/%s/%s.branch" % (n, b or "default")


def gitconfig(root):
    with open(os.path.join(root, ".gitconfig"), "w") as f:
        f.write('[user]\n name = t\n email = t@t\n[init]\n defaultBranch = main\n[url "file://%s/git/"]\n insteadOf = %s\n'
                '[protocol "file"]\n allow = always\n[pull]\n ff = only\n[gc]\n auto = 0\n[maintenance]\n auto = false\n' % (root, BASE))


def git(root, repo, *args):
    p = subprocess.run(["git", "-C", repo] + list(args), env=dict(GITENV, HOME=root, PATH=os.environ.get("PATH", "/usr/bin:/bin")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("git %s: %s" % (args, p.stdout.decode(errors="replace")))


def content(repo, a, ver, help_, subs):
    n, b = split(a)
    n = n.split("/")[1]
    for c in (n, "shx"):
        with open(os.path.join(repo, c + ".bash"), "w") as f:
            f.write('echo "%s %d" >> "$VT_TRACE"\n' % (a, ver))
        with open(os.path.join(repo, c + ".bash.ticat"), "w") as f:
            f.write("help = h\n")
    with open(os.path.join(repo, "hub.ticat"), "w") as f:
        f.write("help = %s\n" % help_)
        if subs:
            f.write("[repos]\n" + "".join("%s = %s\n" % (s["addr"], s["help"]) for s in subs))


def template(work):
    """the remote repos at version 1, made once"""
    with _lock:
        t = _templates.get(work.root)
        if t:
            return t
        t = os.path.join(work.root, "gittemplate")
        os.makedirs(t)
        gitconfig(t)
        for n in NAMES:
            r = os.path.join(t, "git", "u", n)
            os.makedirs(r)
            git(t, r, "init", "-q", "--template=")
            content(r, addr(n), 1, "", [])
            git(t, r, "add", "-A")
            git(t, r, "commit", "-q", "-m", "x")
            git(t, r, "checkout", "-q", "-b", "b1")
            content(r, addr(n, "b1"), 1, "", [])
            git(t, r, "commit", "-q", "-a", "-m", "x")
            git(t, r, "checkout", "-q", "main")
        _templates[work.root] = t
        return t


class HubLab(Lab):
    module = "TicatHubMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS NoDoubles OnIsThere OnlyFromEnabled Emit\n"
                "PROPERTIES LinksGoOnlyByPurge CopiesGoWithLinks SwitchOnly AddKeeps DisabledStaysAsItIs FailedKeepsLinks\nCHECK_DEADLOCK FALSE\n" % family)

    def gen(self, r, prof):
        p = dict(inv=(3, 6), p_pub=.35, p_gone=.1, p_branch=.2, p_local=.35, p_init=.2)
        p.update(prof)
        branch = r.random() < p["p_branch"]
        addrs = [addr(n) for n in NAMES] + ([addr(n, "b1") for n in ("qa", "qb")] if branch else [])
        remotes = [{"addr": addr(n), "path": path(n), "cmd": n} for n in NAMES]
        if branch:
            remotes += [{"addr": addr(n, "b1"), "path": path(n, "b1"), "cmd": n} for n in ("qa", "qb")]
        at = "/B/" if r.random() < .6 else r.choice(["/B/ticat.data/", "/B/ticat.data/hub-", "/B/ticat.data/hubs/", "/B/ticat.data/hub.d/", "/B/ticat.data-", "/B/x/hub/"])
        locs = [{"path": at + r.choice(["", "", "", "."]) + n, "cmd": n.replace("-", ""), "help": h} for n, h in (("ld1", ""), ("ld2", "two of u"), ("ld1x", "a disabled thing"))]
        steps = []
        gone = set()

        def pub():
            subs = []
            for a in r.sample(addrs, r.choice([0, 1, 1, 2, 3])):
                subs.append({"addr": a, "help": r.choice(["", "sub", "of qa", "words in it"])})
            steps.append({"op": "pub", "addr": r.choice(addrs), "help": r.choice(["", "help q", "a top one"]), "subs": subs})

        def find():
            return r.choice([r.choice(addrs), r.choice(addrs), r.choice(locs)["path"], "/u/qa", "qb", "github.com", "ld1", "ld", "nosuch",
                             "https://github.com/u/q", at + "ld"])

        def op():
            x = r.random()
            if x < .25:
                return {"op": "add", "addr": r.choice(addrs)}
            if x < .25 + p["p_local"] * .3:
                return {"op": "addl", "path": r.choice(locs)["path"]}
            if x < .45:
                return {"op": "update"}
            if x < .48:
                return {"op": "init"}
            if x < .60:
                return {"op": "en", "s": find()}
            if x < .78:
                return {"op": "dis", "s": find()}
            if x < .91:
                return {"op": "purge", "s": r.choice([find(), find(), "disabled", "local", "manually", "of qa", "help q", "words in"])}
            if x < .96:
                return {"op": "purgeall"}
            return {"op": "clear"}
        for _ in range(r.randint(0, 3)):
            pub()
        for _ in range(r.randint(*p["inv"])):
            if r.random() < p["p_pub"]:
                pub()
            if r.random() < p["p_gone"]:
                n = r.choice(NAMES)
                o = "back" if n in gone else "gone"
                gone ^= {n}
                for a in addrs:
                    if split(a)[0] == "u/" + n:
                        steps.append({"op": o, "addr": a})
            steps.append({"op": "begin"})
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                steps.append(op())
            steps.append({"op": "end"})
        return {"remotes": remotes, "locals": locs, "init": r.choice(addrs[:4]) if r.random() < p["p_init"] else "", "steps": steps}

    def words(self, s, rs, root):
        pick = lambda *a: rs.choice(a) if rs else a[0]
        real = lambda t: t.replace("/B/", root + "/")
        # ':' inside of a word
        o = s["op"]
        if o == "add":
            n, b = split(s["addr"])
            w = [pick("hub.add", "h.a", "hub.add-and-update"), pick(n, BASE + n)]
            if rs and rs.random() < .5:
                return [w[0], "addr=" + w[1]] + (["git-branch=" + b] if b else [])
            return w + ([b] if b else [])
        if o == "addl":
            return [pick("hub.add.local", "h.a.l"), pick("", "path=") + real(s["path"])]
        if o == "init":
            return ["hub.init"]
        if o == "update":
            return [pick("hub.update", "hub.update-all", "h.u")]
        if o == "en":
            return [pick("hub.enable", "h.e", "hub.enable-repo"), pick("", "find-str=", "s=") + real(s["s"])]
        if o == "dis":
            return [pick("hub.disable", "h.d", "hub.dis"), pick("", "s=") + real(s["s"])]
        if o == "purge":
            return [pick("hub.purge", "h.p"), pick("", "find-str=") + real(s["s"])]
        if o == "purgeall":
            return [pick("hub.purge.all", "hub.purge.purge-all-inactive")]
        return [pick("hub.clear", "hub.clean")]

    def execute(self, work, case, style):
        rs = random.Random(style) if style else None
        t = template(work)
        box = work.box(mods=False)
        try:
            shutil.copytree(os.path.join(t, "git"), os.path.join(box.root, "git"))
            gitconfig(box.root)
            box.write("ticat.data/bootstrap.env", "sys.hub.init-repo=%s\n" % case["init"])
            ver = {r["addr"]: 1 for r in case["remotes"]}
            for l in case["locals"]:
                d = l["path"][3:]
                for c in (l["cmd"], "shx"):
                    box.write("%s/%s.bash" % (d, c), 'echo "%s 1" >> "$VT_TRACE"\n' % l["path"])
                    box.write("%s/%s.bash.ticat" % (d, c), "help = h\n")
                if l["help"]:
                    box.write("%s/hub.ticat" % d, "help = %s\n" % l["help"])
            local0 = self.locals(box, case)
            obs, cur = [], None
            for s in case["steps"]:
                o = s["op"]
                if o == "begin":
                    cur = []
                elif o == "end":
                    argv = []
                    for i, c in enumerate(cur):
                        argv += ([":"] if i else []) + self.words(c, rs, box.root)
                    r = box.run(*argv, env=GITENV, timeout=120)
                    x = self.observe(box, case)
                    x["rc"] = r.rc
                    if self.locals(box, case) != local0:
                        x["rows"] = "files of a local dir changed"
                    obs.append(x)
                elif o == "pub":
                    n, b = split(s["addr"])
                    repo = os.path.join(box.root, "git", n)
                    if not os.path.isdir(repo):
                        repo += ".gone"
                    ver[s["addr"]] += 1
                    git(box.root, repo, "checkout", "-q", b or "main")
                    content(repo, s["addr"], ver[s["addr"]], s["help"], s["subs"])
                    git(box.root, repo, "add", "-A")
                    git(box.root, repo, "commit", "-q", "-m", "x")
                    git(box.root, repo, "checkout", "-q", "main")
                elif o not in ("gone", "back"):
                    cur.append(s)
                else:
                    n, b = split(s["addr"])
                    repo = os.path.join(box.root, "git", n)
                    a, z = (repo, repo + ".gone") if o == "gone" else (repo + ".gone", repo)
                    if os.path.isdir(a):
                        os.rename(a, z)
            return obs
        finally:
            box.destroy()

    def locals(self, box, case):
        out = []
        for l in case["locals"]:
            d = os.path.join(box.root, l["path"][3:])
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else ["missing"]:
                p = os.path.join(d, f)
                out.append((p, open(p).read() if os.path.isfile(p) else ""))
        return out

    def observe(self, box, case):
        v = lambda t: t.replace("<hub>:", "/B/ticat.data/hub").replace(box.root + "/", "/B/")
        rows = [[v(f) for f in r] for r in (box.read_hub() or [])]
        disk = []
        for r in case["remotes"]:
            if os.path.isdir(box.root + r["path"][2:]):
                disk.append(r["addr"])
        cmds = {}
        for c in sorted({r["cmd"] for r in case["remotes"]} | {l["cmd"] for l in case["locals"]} | {"shx"}):
            r = box.run(c, env=GITENV)
            t = box.take_trace()
            cmds[c] = t[0] if len(t) == 1 and r.rc == 0 else "" if not t and r.rc != 0 else "rc %d %s" % (r.rc, t)
        return {"rows": rows, "disk": sorted(disk), "cmds": cmds}

    def same(self, obs, exp, cmp):
        if len(obs) != len(exp):
            return False
        for o, e in zip(obs, exp):
            if (o["rc"] == 0) != (e["rc"] == 0):
                return False
            if "links" in cmp and (o["rows"] != e["rows"] or o["disk"] != sorted(e["disk"])):
                return False
            if "cmds" in cmp and o["cmds"] != e["cmds"]:
                return False
        return True

    def describe(self, case, obs, exps, style):
        rs = random.Random(style) if style else None
        out, n = [], 0
        cur = []
        for s in case["steps"]:
            if s["op"] == "begin":
                cur = []
            elif s["op"] == "end":
                out.append("ticat " + " : ".join(" ".join(self.words(c, rs, "/B")) for c in cur))
                e = exps[0][n] if exps and n < len(exps[0]) else None
                o = obs[n] if n < len(obs) else None
                n += 1
                if o and e and not self.same([o], [e], ["links", "cmds"]):
                    for k in ("rc", "rows", "disk", "cmds"):
                        if (sorted(e[k]) if k == "disk" else e[k]) != o[k]:
                            out.append("  %s observed: %s" % (k, json.dumps(o[k])))
                            out.append("  %s expected: %s" % (k, json.dumps(e[k])))
                    break
            elif s["op"] in ("pub", "gone", "back"):
                out.append("  (%s %s lists %s)" % (s["op"], s["addr"], [x["addr"] for x in s.get("subs", [])]))
            else:
                cur.append(s)
        return "\n".join(out)


LAB = HubLab()
