"""TicatNames on the real ticat."""
import itertools, json, os, random

from oracle import Lab

NAMES = ["qa", "qb", "qc"]
ABBRS = ["w1", "w2", "w3", "w4", "w5"]
ENVAB = {"qa": ["e1", "e4"], "qb": ["e2"], "qc": ["e3"]}
REAL = {a: n for n, l in ENVAB.items() for a in l}
SCRIPT = '''{ printf '%%s|%%s' %s "$2"; grep '^[qew][a-z0-9]*[.=]' "$1/env" | while IFS= read -r l; do printf '|%%s' "$l"; done; echo; } >> "$VT_TRACE"
'''
SHOW = '''{ printf '%s' "$2"; shift 2; for a in "$@"; do printf '|%s' "$a"; done; echo; } >> "$VT_TRACE"
'''
BAD = ["trivial = zz", "quiet = maybe", "[env]\nzz.zy = sideways", "[args]\na = 1\nb|a = 2", "quiet-error = 7up", "unlog = ?",
       "pack-subflow = on-ish"]


class NameLab(Lab):
    module = "TicatNamesMC"
    sources = (1, 2)

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS Unambiguous OneCmd SpellingIrrelevant RefusedRunsNothing Emit\nPROPERTIES Stays NamesStay%s\nCHECK_DEADLOCK FALSE\n"
                % (family, " Ends" if family != "json" else ""))

    def files(self, m):
        """where a module lies: its place in the order of loading"""
        p = m["path"]
        if m["kind"] in ("flow", "meta") or m["kind"] == "bad" and m["id"][-1] in "02468":
            return (".".join(p) + ".tiflow",)
        # a directory may stand for several levels
        d, n = [], m.get("dots", 0)
        for i, w in enumerate(p[:-1]):
            d[-1:] = [d[-1] + "." + w] if i and n >> i & 1 else d[-1:] + [w]
        if m["kind"] == "dir":
            return tuple(d) + (p[-1] + ".ticat",)
        return tuple(d) + (p[-1] + ".bash.ticat",)

    def gen(self, r, prof):
        p = dict(p_dup=.15, p_clash=.15, p_bad=.15, p_wild=.12, depth=3, p_mid=.3)
        p.update(prof)
        mods, used = [], {}
        for i in range(r.randint(2, 8)):
            path = [r.choice(NAMES + (["w1", "w2"] if r.random() < p["p_clash"] else [])) for _ in range(r.randint(1, p["depth"]))]
            kind = r.choice(["file", "file", "flow", "flow", "dir", "meta"])
            if r.random() < p["p_bad"]:
                kind = r.choice(["bad", "bad", "gone"])
            src = r.choice([1, 1, 2])
            m = {"id": "m%d" % i, "src": src, "path": path, "abbrs": [[] for _ in path], "kind": kind, "env": [], "dots": r.choice([0, 0, 0, 2, 4, 6])}
            f = self.files(m)
            if any(x["src"] == src and self.files(x) == f for x in mods):
                continue
            if any(x["src"] == src and x["path"] == path for x in mods) and r.random() > p["p_dup"]:
                continue
            lv = range(len(path)) if f[0].endswith(".tiflow") else [len(path) - 1]
            for l in lv:
                if r.random() < .5:
                    for _ in range(r.choice([1, 1, 2])):
                        a = r.choice(ABBRS)
                        key = (tuple(path[:l]), a)
                        if used.setdefault(key, path[l]) != path[l] and r.random() > p["p_clash"]:
                            continue
                        m["abbrs"][l].append(a)
            if kind in ("file", "flow"):
                for _ in range(r.choice([0, 1, 1, 2])):
                    m["env"].append([{"n": n, "ab": r.sample(ENVAB[n], r.randint(0, len(ENVAB[n])))} for n in r.choices(NAMES, k=r.randint(1, 3))])
                uniq = []
                for k in m["env"]:
                    if [x["n"] for x in k] not in [[x["n"] for x in u] for u in uniq]:
                        uniq.append(k)
                m["env"] = uniq
            mods.append(m)
        mods.sort(key=lambda m: (m["src"], self.files(m)))
        decl = [[x["n"] for x in k] for m in mods for k in m["env"]]
        words = lambda n: [n] + [a for m in mods for l, w in enumerate(m["path"]) if w == n for a in m["abbrs"][l]]

        def key():
            k = list(r.choice(decl)) if decl and r.random() < .8 else r.choices(NAMES, k=r.randint(1, 2))
            if r.random() < .2:
                k = k[-1:]
            if r.random() < .3 and len(k) > 1:
                k = k[1:]
            return [r.choice(ENVAB[n]) if r.random() < .45 else n for n in k]
        nv = [0]

        def env(arg):
            kv = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 2])):
                nv[0] += 1
                kv.append({"k": [r.choice(["x", "xx"])] if arg else key(), "v": "v%d" % nv[0]})
            return {"t": "env", "w": "", "kv": kv}

        def call():
            toks = []
            sep = lambda: toks.append({"t": "sep", "w": "", "kv": []})
            name = lambda w: toks.append({"t": "name", "w": w, "kv": []})
            m = r.choice(mods)
            path = m["path"]
            if r.random() < .25:
                toks.append(env(False))
            if r.random() < .1:
                sep()
            for i, n in enumerate(path):
                if i:
                    x = r.random()
                    if x < p["p_mid"]:
                        if r.random() < .6:
                            sep()
                        toks.append(env(False))
                        if r.random() < .4:
                            sep()
                    else:
                        sep()
                        if r.random() < .15:
                            sep()
                ws = [a for a in m["abbrs"][i]] + [a for o in mods if o["path"][:i + 1] == path[:i + 1] for a in o["abbrs"][i]]
                w = r.choice(ws) if ws and r.random() < .5 else n
                if r.random() < p["p_wild"]:
                    w = r.choice(NAMES + ABBRS + ["nope"])
                name(w)
            x = r.random()
            if x < .25:
                name("a%d" % r.randint(1, 9))
            elif x < .5:
                toks.append(env(True))
                if r.random() < .3:
                    name(r.choice(NAMES + ["a1"]))
            elif x < .53:
                toks.append(env(False))
            elif x < .56:
                name("a1")
                name("a2")
            return toks
        calls = [call() for _ in range(r.randint(1, 3))]
        keys = []
        for m in mods:
            for k in m["env"]:
                kk = [x["n"] for x in k]
                keys += [kk[:i + 1] for i in range(len(kk))]
        for c in calls:
            for t in c:
                for kv in t["kv"]:
                    for k in [kv["k"]] + [list(x) for x in itertools.product(*[dict.fromkeys((REAL.get(x, x), x)) for x in kv["k"]])]:
                        keys.append(k)
                        for m in mods:
                            keys += [m["path"][:i] + k for i in range(1, len(m["path"]))]
        us = []
        for k in keys:
            if k not in us and k[-1] not in ("x", "xx"):
                us.append(k)
        return {"mods": mods, "calls": calls, "global": r.random() < .6, "keys": us[:18]}

    def text(self, toks, rs):
        """a call as text; the blanks are free where the tokens are unambiguous without"""
        sp = lambda: rs.choice(["", "", " ", "  "]) if rs else ""
        out, prev, names = "", "", 0
        for t in toks:
            if t["t"] == "sep":
                # two separators next to each other need nothing between
                out += sp() + "." + sp()
            elif t["t"] == "env":
                kv = (" ").join("%s%s=%s%s" % (".".join(e["k"]), sp(), sp(), e["v"]) for e in t["kv"])
                # a name glued to a bracket is taken for a part of the path
                out += (" " if names > 1 else sp()) + "{" + sp() + kv + sp() + "}" + sp()
            else:
                out += (" " if prev == "name" else "") + t["w"]
            prev = t["t"]
            names = names + 1 if prev == "name" else 0
        return out.strip()

    def argv(self, case, style):
        rs = random.Random(style) if style else None
        segs = [self.text(c, rs) for c in case["calls"]]
        t = ("" if case["global"] else ": ") + (" : ".join(segs))
        words, out, depth = t.split(), [], 0
        for w in words:
            # words belong together or not, outside of env values
            if out and rs and depth == 0 and (out[-1][-1] in ".}" or w[0] == ".") and ":" not in (w, out[-1]) and rs.random() < .3:
                out[-1] += rs.choice([" ", "", "\t"]) + w
            elif out and rs and depth and (w[0] == "=" or out[-1][-1] == "=") and rs.random() < .5:
                out[-1] += rs.choice([" ", "\t", "\n", " \t"]) + w
            else:
                out.append(w)
            depth += w.count("{") - w.count("}")
        return out

    def execute(self, work, case, style):
        box = work.box(mods=False)
        try:
            rs = random.Random(style) if style else None
            for s in self.sources:
                os.makedirs(os.path.join(box.root, "src%d" % s))
            os.makedirs(os.path.join(box.root, "show"))
            box.write("show/vtshow.bash", SHOW)
            args = "".join("a%d = -\n" % i for i in range(len(case["keys"])))
            box.write("show/vtshow.bash.ticat", "quiet = true\n[args]\nid = ''\nx = ''\n" + args)
            box.set_hub([("", "<local>", os.path.join(box.root, d), "", "on") for d in ["show"] + ["src%d" % s for s in self.sources]])
            for m in case["mods"]:
                self.install(box, m, case, rs)
            box.write("ticat.data/bootstrap.env", "".join("%s=-\n" % ".".join(k) for k in case["keys"]))
            r = box.run(*self.argv(case, style))
            runs = []
            for l in box.take_trace():
                f = l.split("|")
                if any(m["id"] == f[0] and m["kind"] == "flow" for m in case["mods"]):
                    env = f[2:]
                else:
                    kv = dict(x.partition("=")[::2] for x in f[2:])
                    env = [kv.pop(".".join(k), "-") for k in case["keys"]]
                    kv = {k: v for k, v in kv.items() if k.split(".")[-1] not in ("x", "xx")}
                    if kv and len(case["keys"]) < 18:
                        env += ["unexpected: %s" % kv]
                runs.append({"id": f[0], "arg": f[1], "env": env})
            return {"any": False, "runs": runs, "rc": r.rc, "tail": r.out[-800:] + r.err[-800:]}
        finally:
            box.destroy()

    def install(self, box, m, case, rs):
        f = self.files(m)
        base = "src%d/" % m["src"] + "/".join(f)
        meta = "help = h\n"
        if f[0].endswith(".tiflow"):
            ab = ".".join("|".join(a) for a in m["abbrs"])
        else:
            ab = "|".join(m["abbrs"][-1])
        if ab.strip("."):
            meta += "%s = %s\n" % (rs.choice(["abbrs", "abbr"]) if rs else "abbrs", ab)
        if m["kind"] == "bad":
            meta += (rs.choice(BAD) if rs else BAD[0]) + "\n"
        if m["kind"] == "gone":
            meta += "cmd = no/such/file\n"
        if m["kind"] == "flow" or m["kind"] == "bad" and f[0].endswith(".tiflow"):
            meta += "flow = vtshow id=%s x=[[x]] %s\n" % (m["id"], " ".join("a%d=[[%s]]" % (i, ".".join(k)) for i, k in enumerate(case["keys"])))
        if m["kind"] in ("file", "flow"):
            meta += "[args]\nx|xx = d\n"
            if m["env"]:
                meta += "[env]\n" + "".join("%s = %s\n" % (".".join("|".join([s["n"]] + s["ab"]) for s in k), "may-read") for k in m["env"])
        if m["kind"] == "dir":
            os.makedirs(os.path.join(box.root, base[:-6]), exist_ok=True)
        elif not base.endswith(".tiflow"):
            box.write(base[:-6], SCRIPT % m["id"])
        box.write(base, meta)

    def view(self, obs, cmp):
        return {k: obs[k] for k in ("runs", "rc")}

    def same(self, obs, exp, cmp):
        return exp["any"] or self.view(obs, cmp) == self.view(exp, cmp)

    def describe(self, case, obs, exps, style):
        out = []
        for m in case["mods"]:
            out.append("  dir %d: %s abbrs %s env %s" % (m["src"], "/".join(self.files(m)), m["abbrs"], [".".join("|".join([s["n"]] + s["ab"]) for s in k) for k in m["env"]]))
        out.append("ticat " + " ".join(repr(a) if " " in a else a for a in self.argv(case, style)))
        out += ["  keys: %s" % [".".join(k) for k in case["keys"]], "  observed: %s" % json.dumps(obs), "  expected: %s" % json.dumps(exps)]
        return "\n".join(out)

    def interesting(self, case, obs):
        return len(obs["runs"]) > 0


LAB = NameLab()
