"""TicatArgs on the real ticat."""
import json, random, re, shlex

from oracle import Lab

NAMEPOOL = ["x", "X", "y", "yy", "z", "arg-a", "a1", "b.c", "V", "n_1"]
VALS = ["v", "w", "1", "-x", "---", "^v", "^", "^^a", "http://a.b/c", "/tmp/x", "./x", "a.b", "%x", "%", "v}", "a'b", '"q"', "$HOME", "`id`", "a b", "a\tb",
        "#c", "*", "a;b", "a&b", "a|b", "<x>", "\\", "a\\b", "\\n", "é", "💡", "a:b", ":", "a:", ":b", "::", "[[k]]", "x", "y", "0", "true", "ok",
        "a\nb", "~", "!x", "(x)", "@r", "+", "-", "a{b", "{", "a{b}", ",", "x,y", "..", ".a"]


def word(h, eq=False, t=""):
    return {"h": h, "eq": eq, "t": t}


class ArgLab(Lab):
    module = "TicatArgsMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n"
                "INVARIANTS NothingLost Consecutive FromWordOrDefault ByPosition NoArgsNoWords Emit\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % family)

    def gen(self, r, prof):
        p = dict(nargs=(0, 4), good=.6)
        p.update(prof)
        pool = r.sample(NAMEPOOL, len(NAMEPOOL))
        decl = []
        for i in range(r.randint(*p["nargs"])):
            names = [pool.pop() for _ in range(r.choice([1, 1, 2]))] if len(pool) > 2 else [pool.pop()]
            decl.append({"names": names, "def": r.choice(["", "d%d" % i, "d%d" % i])})
        names = [n for d in decl for n in d["names"]]
        words = []
        long = lambda: r.choice("ab-") * r.choice([1000, 5000])

        def val():
            return long() if r.random() < .01 else r.choice(VALS)

        def anyname():
            return r.choice(names + ["nosuch"]) if names and r.random() < .95 else r.choice(["nosuch", "%err", "v"])
        style = r.choice(["pos", "pos", "kv", "kv", "pairs", "mess"])
        if style == "pos":
            words = [word(val()) for _ in range(max(0, len(decl) + r.choice([0, 0, -1, -2, 1] if r.random() > p["good"] else [0, 0, -1])))]
        elif style == "kv":
            for _ in range(r.randint(0, 4)):
                n, v = anyname(), val()
                if r.random() < .07:
                    n, v = "%err", "ok"
                x = r.random()
                words += ([word(n, True, v)] if x < .5 else [word(n, True), word(v)] if x < .65 else [word(n), word("", True, v)] if x < .8
                          else [word(n), word("", True), word(v)])
                if r.random() < .1 and len(words) > 1:
                    words.pop(r.randrange(len(words)))
        elif style == "pairs":
            known = lambda: r.choice(names) if names and r.random() < .85 else anyname()
            for _ in range(r.randint(0, 4)):
                words += [word(known()), word(val())]
            if r.random() < .4:
                words.insert(r.choice([len(words), len(words), r.randint(0, len(words))]), word(r.choice([known(), val()])))
        else:
            words = [r.choice([word(""), word("", True), word(anyname()), word(val()), word(anyname(), True), word("", True, val()), word(anyname(), True, val())])
                     for _ in range(r.randint(0, 5))]
        return {"decl": decl, "words": self.legal(words, r)}

    def legal(self, words, r):
        """keep out what is other syntax: env groups and sub commands in the first word, text around the first '='"""
        out = []
        for i, w in enumerate(words):
            w = dict(w)
            for f in ("h", "t"):
                if f == "h" and "=" in w[f]:
                    w[f] = "v"
            if i == 0:
                if "{" in w["h"] + w["t"]:
                    w["h"] = w["h"].replace("{", "(")
                    w["t"] = w["t"].replace("{", "(")
                if w["h"].startswith("."):
                    w["h"] = "p" + w["h"]
            if not w["eq"] and w["h"] in ("/", "\\"):
                w["h"] = "q"
            # surrounding white space is not part of a value
            w["h"], w["t"] = w["h"].strip(), w["t"].strip()
            # a separator written as text needs its backslash, which a backslash in front of it would confuse
            for f in ("h", "t"):
                w[f] = re.sub(r"\\+:", ":", w[f])
            if w["eq"] and (w["h"] + w["t"]).find("\\:") >= 0:
                w["t"] = "b"
            out.append(w)
        return out

    def text(self, w, rs):
        """one argv element"""
        esc = lambda s: re.sub(r":", r"\\:", s)
        if "://" in w["h"] + w["t"]:
            esc = lambda s: s
        sp = (lambda: rs.choice(["", "", "", "", " ", " ", "  ", "\t", "\n", " \t"])) if rs else (lambda: "")
        return sp() + esc(w["h"]) + (sp() + "=" + sp() + esc(w["t"]) if w["eq"] else "") + sp()

    def render(self, case, style):
        rs = random.Random(style) if style else None
        words = [self.text(w, rs) for w in case["words"]]
        form = "direct"
        if rs:
            plain = all(re.fullmatch(r"[A-Za-z0-9=%_+-]+", x) for x in words)
            nobr = not any("{" in x or "}" in x for x in words)
            empty = any(w == word("") for w in case["words"])
            opts = ["direct", "direct"]
            if plain:
                opts += ["flow", "flow2"]
            if nobr and words and not empty and not any("=" in w["h"] for w in case["words"]):
                opts += ["braces", "braces1"]
            form = rs.choice(opts)
        return form, words, rs

    def execute(self, work, case, style):
        form, words, rs = self.render(case, style)
        name = rs.choice(["c", "c.d", "cmd-x"]) if rs else "c"
        box = work.box()
        try:
            names = []
            meta = "help = h\n[args]\n"
            for d in case["decl"]:
                meta += "%s = %s\n" % ("|".join(d["names"]), d["def"])
            box.mod(name.replace(".", "/"), 'shift\n{ for a in "$@"; do printf "%s\\0" "$a"; done; printf END; } >> "$VT_TRACE"\n', meta)
            if form in ("flow", "flow2"):
                box.flow("ff", "flow = %s %s\n" % (name, " ".join(words)))
                box.flow("gg", "flow = ff\n")
                argv = ["ff" if form == "flow" else "gg"]
            elif form == "braces":
                argv = [name, "{"] + words + ["}"]
            elif form == "braces1":
                argv = [name + "{" + words[0]] + words[1:] + ["}"]
            else:
                argv = [name] + words
            r = box.run(*argv)
            try:
                t = open(box.trace, newline="").read()
            except OSError:
                t = ""
            got = t.split("\0")[:-1] if t else []
            return {"rc": r.rc, "got": got if t.endswith("END") and t.count("END") == 1 else ["?" + t] if t else [], "argv": argv, "ran": bool(t)}
        finally:
            box.destroy()

    def view(self, obs, cmp):
        return {k: obs[k] for k in ("rc", "got")}

    def same(self, obs, exp, cmp):
        return (obs["rc"] == 0) == (exp["rc"] == 0) and obs["got"] == exp["got"] and (exp["rc"] != 0 or obs.get("ran", True)) and (exp["rc"] == 0 or not obs.get("ran"))

    def interesting(self, case, obs):
        return bool(case["words"])

    def describe(self, case, obs, exps, style):
        return "arguments %s, words %s (%s)\n  observed: %s\n  expected: %s" % (
            json.dumps(case["decl"]), json.dumps(self.render(case, style)[1]), self.render(case, style)[0], json.dumps(obs), json.dumps(exps))


LAB = ArgLab()
