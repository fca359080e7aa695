"""TicatFlows on the real ticat."""
import os, random, re

from oracle import Lab

ANSI = re.compile("\x1b\\[[0-9;]*m")
NAMESETS = [["fwa", "fwb", "fwc", "fwd"], ["fwa", "pk.sub", "pk2.x.y", "fwd"], ["aa1", "aa", "aaa", "aab"], ["_fa", "x_y", "-b", "pk.md.z-9"],
            ["pk.md.fa", "pk.fa", "md.fa", "pk.md.pk.fa"], ["pk2.x.y", "pk2.x.y.z", "pk2.b", "pk2.x.a"],
            ["lf1.a", "lf2.x.y", "lf2.x", "lf1.a.b"], ["pr.b.c", "pr", "pr.b", "pr.d"]]
# directory-like commands, with abbreviations
METAS = {"pk": ["pkk", "pq"], "pk.md": ["mdd"], "pk2": ["p22"], "pk2.x": ["xx"]}
YES = ["y\n", "Y\n", "yes\n", "n\ny\n", "\ny\n"]
NO = ["", "n\n", "no\n", "\n", "n\nN\nx\n"]


class FlowLab(Lab):
    module = "TicatFlowsMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS NoDoubles NeverShadows NothingHidden Emit\nPROPERTIES OnlyNamed Kept DirKept HelpOnly RefusedChangesNothing\nCHECK_DEADLOCK FALSE\n" % family)

    def gen(self, r, prof):
        p = dict(steps=(4, 9), p_linked=.5, p_init=.4, names=4)
        p.update(prof)
        names = ["n%d" % (i + 1) for i in range(p["names"])]
        leaves = ["l1", "l2"]

        def seq(n):
            lower = [x for x in names if x < n]
            return [r.choice(leaves + lower * 2) for _ in range(r.randint(1, 3))]
        S = lambda op, **k: dict(dict(op=op, n="", to="", seq=[], help="", ans=r.choice(["no", "yes"])), **k)
        steps = []
        for _ in range(r.randint(*p["steps"])):
            x = r.random()
            n = r.choice(names)
            hlp = r.choice(["", "some help", "h2", "it is a | b 'q' & c; $x y"])
            saved = [t["n"] for t in steps if t["op"] == "save" and t["n"] in names]
            if x < .09 and saved:
                n = r.choice(saved)
                steps.append(S("edit", n=n))
                if r.random() < .6:
                    steps.append(S("help", n=n, help=hlp or "h3"))
            elif x < .12:
                steps.append(S("saveto", n=n, seq=seq(n), help=hlp, ans=r.choice(["no", "yes", "quiet"])))
            elif x < .5:
                if r.random() < .07:
                    n = r.choice(leaves)
                steps.append(S("save", n=n, seq=seq(n) if n in names else ["l1"], help=hlp, ans=r.choice(["no", "yes", "quiet", "quiet"])))
            elif x < .7:
                to = r.choice([m for m in names if m >= n] + (["l1"] if r.random() < .2 else []))
                steps.append(S("rename", n=n if r.random() < .95 else "l2", to=to))
            elif x < .8:
                steps.append(S("rm", n=n if r.random() < .9 else "l1"))
            elif x < .84:
                steps.append(S("clear"))
            elif x < .92:
                steps.append(S("help", n=n if r.random() < .9 else "l1", help=hlp or "h3"))
            elif x < .94:
                steps.append(S("moveamb"))
            else:
                steps.append(S("move"))
        init = []
        if r.random() < p["p_init"]:
            init = [{"n": n, "seq": seq(n)} for n in r.sample(names, r.randint(1, 2))]
        ns = r.choice(NAMESETS)
        above = [{"n": a, "m": b} for a, x in zip(names, ns) for b, y in zip(names, ns) if y.startswith(x + ".")]
        return {"set": ns, "above": above, "leaves": leaves, "names": names, "linked": r.random() < p["p_linked"], "init": init, "steps": steps}

    def real(self, case, rs):
        # the ones without nesting go for all cases
        names = case["set"] if "set" in case else rs.choice(NAMESETS[:4]) if rs else NAMESETS[0]
        m = dict(zip(case["names"], names))
        m.update({l: "lf" + l[1:] for l in case["leaves"]})
        return m

    def argv(self, s, m, rs, box, linked=False):
        pick = lambda *a: rs.choice(a) if rs else a[0]
        join = lambda words: [x for i, w in enumerate(words) for x in ([":"] if i else []) + [w]]
        def spell(n):
            """a path with abbreviations in place of names"""
            segs = n.split(".")
            for i in range(len(segs)):
                a = METAS.get(".".join(n.split(".")[:i + 1]))
                # (the last one may not be loaded, it is no directory then)
                if a and rs and rs.random() < .5:
                    segs[i] = rs.choice(a)
            return ".".join(segs)
        o, n = s["op"], spell(m.get(s["n"], s["n"]))
        to = spell(m.get(s["to"], s["to"]))
        if o in ("save", "saveto"):
            named = o == "saveto" or s["ans"] == "quiet" or s["help"] or not rs or rs.random() < .5
            a = [pick("cmd=", "path=", "new-cmd=") + n if named else n]
            if s["ans"] == "quiet":
                a.append(pick("quiet=", "q=", "overwrite=") + pick("on", "true", "yes"))
            if s["help"]:
                a.append(pick("help=", "h=") + s["help"])
            if o == "saveto":
                a.append(pick("to-dir=", "dir=", "d=") + os.path.join(box.root, "D"))
            return join([spell(m[x]) for x in s["seq"]]) + [":", pick("flow.save", "f.s", "flow.s")] + a
        if o == "rename":
            return [pick("flow.rename", "f.rename")] + (["src=" + n, "dest=" + to] if rs and rs.random() < .5 else [n, to])
        if o == "rm":
            return [pick("flow.remove", "flow.rm", "flow.delete", "f.rm"), pick(n, "path=" + n, "cmd-path=" + n)]
        if o == "clear":
            return [pick("flow.clear", "flow.clean")]
        if o == "help":
            return [pick("flow.set-help-str", "flow.help", "f.h")] + ([n, s["help"]] if not rs or rs.random() < .5 else ["path=" + n, "help=" + s["help"]])
        if o == "moveamb":
            d = pick(os.path.basename(box.root) + "/", "nosuchdir") if linked else "nosuchdir"
        else:
            d = os.path.join(box.root, "D")
            if linked and rs and rs.random() < .5:
                d = os.path.basename(box.root) + "/D"
        return [pick("flow.move-flows-to-dir.all", "flow.mv.all")] + pick([d], ["path=" + d], ["p=" + d])

    def execute(self, work, case, style):
        rs = random.Random(style) if style else None
        box = work.box()
        try:
            m = self.real(case, rs)
            os.makedirs(os.path.join(box.root, "D"))
            for l in case["leaves"]:
                box.mod(m[l], 'printf "%%s\\n" %s >> "$VT_TRACE"\n' % m[l], "help = h\n")
            for k, a in METAS.items():
                box.write("mods/%s.ticat" % k.replace(".", "/"), "help = d\nabbrs = %s\n" % "|".join(a))
            for f in case["init"]:
                box.write("D/%s.tiflow" % m[f["n"]], "flow = %s\n" % " : ".join(m[x] for x in f["seq"]))
            if case["linked"]:
                box.set_hub([("", "<local>", box.mods, "", "on"), ("", "<local>", os.path.join(box.root, "D"), "", "on")])
            other = {"D/note.txt": "keep\n", "ticat.data/flows/note.txt": "keep\n"}
            for f, t in other.items():
                box.write(f, t)
            obs = []
            for s in case["steps"]:
                ans = (rs.choice(YES) if rs else YES[0]) if s["ans"] == "yes" else (rs.choice(NO) if rs else NO[0])
                if s["op"] == "edit":
                    p = os.path.join(box.data, "flows", m[s["n"]] + ".tiflow")
                    if os.path.exists(p):
                        with open(p, "a") as f:
                            f.write("tags = t1 t2\n\n[args]\nkk|k3 = 7\n\n[val2env]\nvt.x = 5\n")
                else:
                    r = box.run(*self.argv(s, m, rs, box, case["linked"]), stdin=ans)
                ran = box.take_trace()
                o = self.observe(box, case, m, len(obs) % 3 == 2 or len(obs) == len(case["steps"]) - 1)
                o["ok"] = s["op"] == "edit" or r.rc == 0
                if ran:
                    o["ran"] = ran
                for f, t in other.items():
                    p = os.path.join(box.root, f)
                    if not os.path.exists(p) or open(p).read() != t:
                        o["lost"] = f
                obs.append(o)
            return obs
        finally:
            box.destroy()

    def observe(self, box, case, m, runs):
        back = {v: k for k, v in m.items()}
        out = ANSI.sub("", box.run("flow.list").out)
        store, cur = [], None
        for l in out.split("\n"):
            g = re.match(r"^\[(.*)\]$", l)
            if g:
                cur = [back.get(g.group(1), "?" + g.group(1)), ""]
                store.append(cur)
            elif cur and l.startswith("     '") and l.endswith("'"):
                cur[1] = l[6:-1]
        files = {f[:-7] for f in os.listdir(os.path.join(box.data, "flows")) if f.endswith(".tiflow")}
        if {m.get(x[0], x[0]) for x in store} != files:
            store.append(["files", sorted(files)])
        d = sorted(back.get(f[:-7], "?" + f) for f in os.listdir(os.path.join(box.root, "D")) if f != "note.txt")
        if not runs:
            return {"store": sorted(store), "dir": d}
        runs, takes = {}, []
        for n in case["names"]:
            r = box.run(m[n])
            t = [back.get(x, x) for x in box.take_trace()]
            runs[n] = t if r.rc == 0 else ["refused"] if not t else ["rc", r.rc] + t
            if r.rc == 0 and t and box.run(m[n], "kk=3").rc == 0:
                takes.append(n)
            box.take_trace()
        return {"store": sorted(store), "dir": d, "runs": runs, "takes": takes}

    def describe(self, case, obs, exps, style):
        rs = random.Random(style) if style else None
        m = self.real(case, rs)

        class B:
            root = ""
        out = ["flows in D%s: %s" % (" (in the hub)" if case["linked"] else "", case["init"]), "names: %s" % m]
        for i, s in enumerate(case["steps"]):
            out.append("ticat " + " ".join(self.argv(s, m, rs, B, case["linked"])) + "   (answer: %s)" % s["ans"])
            e = exps[0][i] if exps else None
            if i < len(obs) and e and obs[i] != e:
                for k in sorted(set(obs[i]) | set(e)):
                    if obs[i].get(k) != e.get(k):
                        out += ["  %s observed: %s" % (k, obs[i].get(k)), "  %s expected: %s" % (k, e.get(k))]
                break
        return "\n".join(out)


LAB = FlowLab()
