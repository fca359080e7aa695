"""TicatTail on the real ticat."""
import json, os, random

from oracle import Lab

INSP = ["find", "find.more", "find.full", "/", "//", "///", "tail-sub", "~", "~~", "~~~", "=", "==", "===", "desc", "-", "--", "---", "+", "++", "+++",
        "desc.more", "desc.full", "desc.dependencies", "desc.env-ops-check", "desc.flow", "desc.flow.more", "desc.flow.full",
        "find xx", "/ ab", "// cc", "- d=2", "+ depth=1", "desc unfold-trivial=3", "desc.full d=9", "tail-sub a", "desc.dep", "desc.op", "cmds"]
CMD = ["cmd", "cmd.full", "cmd.more"]
LIST = ["cmds.tree"]
VIEW = ["env.ls", "env", "hub", "flow", "flow.ls", "e.ls"]
PLAIN = ["env.tree", "tags", "help", "dummy"]


class TailLab(Lab):
    module = "TicatTailMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS InspectRunsNothing StoresOnlySaved PlainRunsAll Emit\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % family)

    def gen(self, r, prof):
        p = dict(p_bad=.05, n=(1, 5))
        p.update(prof)
        segs = []
        nf = 0

        def one(body=True):
            nonlocal nf
            x = r.random()
            if x < .4:
                return {"k": "prog", "n": r.choice("abc")}
            if x < .65:
                nf += 1
                return {"k": "flow", "n": "w%d" % nf, "body": [r.choice(["a", "b", "c", "c", "?"]) if i else r.choice("abc") for i in range(r.randint(1, 4))]}
            if x < .65 + p["p_bad"]:
                return {"k": "bad"}
            return {"k": r.choice(["insp", "insp", "list", "view", "plain", "plain"])}
        for _ in range(r.randint(*p["n"])):
            segs.append(one())
        x = r.random()
        if x < .35:
            segs.append({"k": r.choice(["insp", "insp", "insp", "cmd"])})
        elif x < .55:
            segs.append({"k": "save", "n": r.choice(["s1", "s2"])})
        elif x < .85:
            segs += [{"k": "empty"}] + [{"k": r.choice(["insp", "insp", "list", "view"])}]
        if r.random() < .2 and segs[-1]["k"] in ("insp",):
            segs.append({"k": "insp"})
        return {"segs": segs}

    def words(self, case, rs):
        w = []
        texts = []
        pick = lambda l: rs.choice(l) if rs else l[0]
        for i, s in enumerate(case["segs"]):
            k = s["k"]
            t = {"empty": lambda: "", "prog": lambda: s["n"], "flow": lambda: s["n"], "insp": lambda: pick(INSP),
                 "save": lambda: pick(["flow.save ", "flow.s ", "f.s new-cmd="]) + s["n"], "cmd": lambda: pick(CMD), "list": lambda: pick(LIST),
                 "view": lambda: pick(VIEW), "plain": lambda: pick(PLAIN), "bad": lambda: pick(["nosuch", "nosuch.x y", "a b c", "{k1"])}[k]()
            texts.append(t)
        for i, t in enumerate(texts):
            if i:
                w.append(":")
            w += t.split()
        # "::" is the same as ": :"
        out = []
        for x in w:
            if x == ":" and out and out[-1] == ":" and (not rs or rs.random() < .6):
                out[-1] = "::"
            else:
                out.append(x)
        return out

    def files(self, box):
        out = {}
        for d, _, fs in os.walk(box.data):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, box.data)
                if not rel.startswith("sessions"):
                    out[rel] = open(p, errors="replace").read()
        return out

    def execute(self, work, case, style):
        rs = random.Random(style) if style else None
        box = work.box()
        try:
            argv = self.words(case, rs)
            for n in "abc":
                box.mod(n, 'echo %s >> "$VT_TRACE"\n' % n, "help = h\n[env]\nk7 = may-read\n")
            for s in case["segs"]:
                if s["k"] == "flow":
                    # any inspecting command which ends the flow it is in
                    insp = (lambda: rs.choice(INSP)) if rs else (lambda: INSP[0])
                    box.flow(s["n"], "flow = " + " : ".join(insp() if b == "?" else b for b in s["body"]) + "\n")
            g = []
            # an env group of its own counts as a command for `cmd`
            if rs and rs.random() < .3 and all(s["k"] != "cmd" for s in case["segs"]):
                g = ["{k1=v}"]
            if rs and rs.random() < .5:
                box.run("{k2=saved}", "env.save")
            before = self.files(box)
            r = box.run(*(g + argv))
            after = self.files(box)
            stored = []
            for f in sorted(set(before) | set(after)):
                if before.get(f) != after.get(f):
                    stored.append(f[6:-7] if f.startswith("flows/") and f.endswith(".tiflow") else "changed " + f)
            return {"runs": box.take_trace(), "stored": stored, "rc": r.rc, "argv": g + argv}
        finally:
            box.destroy()

    def view(self, obs, cmp):
        return {k: obs[k] for k in ("runs", "stored", "rc")}

    def same(self, obs, exp, cmp):
        # 2000: up to the inspecting command
        return obs["runs"] == exp["runs"] and obs["stored"] == exp["stored"] and (exp["rc"] == 2000 or (exp["rc"] == 0) == (obs["rc"] == 0))

    def describe(self, case, obs, exps, style):
        rs = random.Random(style) if style else None
        return "ticat %s\n  flows: %s\n  observed: %s\n  expected: %s" % (
            " ".join(self.words(case, rs)), {s["n"]: s["body"] for s in case["segs"] if s["k"] == "flow"}, json.dumps(obs), json.dumps(exps))


LAB = TailLab()
