"""TicatNames with junk lying about: a broken file costs nothing but itself."""
import os, random

import vt
from namelab import ABBRS, BAD, ENVAB, NAMES, NameLab

KEYS = ["abbrs", "abbr", "cmd", "flow", "help", "trivial", "tags", "dep", "begin-ts-key", "dur-key", "quiet", "unlog", "quiet-error", "no-session", "no-ses",
        "quiet-cmd", "quiet-subflow", "quiet-sub", "unbreak-file-n-flow", "unbreak", "hide-in-last", "pack-subflow", "macro", "args.auto", "args", "zz", ""]
SECS = ["args", "arg", "env", "env.write", "val2env", "arg2env", "env.from-arg", "env.arg", "dep", "deps", "os-cmd", "macro", "flow/", "/flow", "args.auto", "x/", "", "[", "a]", "/"]
VALS = ["", "on", "off", "zz", "-1", "99999999999999999999", "true", "'", '"', "''", "a|b", "|", "a|a", "a.b.c", "...", ".", "{", "}", "{a=b}", "{a", "[[x]]", "[[", "]]", "\\", "a \\", "=", ":", ": :",
        "jk.none : jk.none", "write", "read", "may-read", "write:read", "may-", "x = y", "* : *", "*", "+", "a,b, c", "@", "^", "-", "--", "$HOME", "\x00\x01", "\ufffd\u4e16", "a" * 70000, "./nofile", ".", "/", "..",
        "<nil>", "jk", "$(false)", "`x`", "%delay=1", "a=%d %s", "\t"]


def text(r):
    x = r.random()
    if x < .04:
        return ""
    if x < .08:
        return r.choice(["\n", " \n\t\n", "#", "# c\n", "\\", "=", "= =", "[", "]", "[]", "[/]", "[a/]", "[flow/]", "[/flow]", "[[", "\r\n", "a\rb"])
    if x < .12:
        return "".join(chr(r.randrange(1, 256)) for _ in range(r.randint(1, 400)))
    out = []
    for _ in range(r.randint(1, 8)):
        y = r.random()
        if y < .3:
            out.append("[%s]" % r.choice(SECS))
        elif y < .36:
            out.append(r.choice(VALS[:40]))
        elif y < .42:
            out.append("# ticat.flow = %s" % r.choice(["jk.a.tiflow", "jk", "", "..tiflow", ".tiflow", "/a/b.tiflow"]))
        else:
            out.append("%s%s%s" % (r.choice(KEYS), r.choice([" = ", "=", " =", " "]), r.choice(VALS)))
    return r.choice(["\n", "\n", "\n", "\r\n"]).join(out) + r.choice(["", "\n"])


def name(r):
    base = r.choice(["jk", "jk", "jka", "jk/jkb", "jk/jkb/jkc", "jk.d.jke", "jk jkf", "jk..jkg", "jk.jkh.", "jk/.jki", "jk/jk", "j\u4e16", "jk:", "jk{", "jk}", "jk=", "jk|l", "-jk", "@jk", "jk\\", "jk'"])
    ext = r.choice([".bash.ticat", ".bash.ticat", ".ticat", ".tiflow", ".tiflow", ".tihelp", ".py.ticat", ".ticat.ticat", ".ticat.tiflow", ".bash"])
    if r.random() < .06:
        return r.choice([".ticat", ".tiflow", ".tihelp", "jk/.ticat", "jk/.tiflow", "..ticat", "...tiflow", "jk/..ticat", "hub.ticat", "README.md", "jk.ticat/x"])
    return base + ext


class JunkLab(NameLab):
    sources = (0, 2, 3, 9)

    def gen(self, r, prof):
        p = dict(p_bad=.1)
        p.update(prof)
        c = NameLab.gen(self, r, p)
        for m in c["mods"]:
            m["src"] += 1
        junk = []
        for _ in range(r.randint(1, 6)):
            n, how = name(r), r.choice(["file"] * 8 + ["dir", "gone", "loop", "hidden"])
            late = r.random() < .6
            t = text(r)
            if late and len(junk) != 3 and r.random() < .3 and "ticat.flow" not in t:
                # an abbreviation which is another command's name: it's the later one
                t = "abbrs = %s%s\n" % (r.choice(["", "jkab|"]), "|".join(dict.fromkeys(r.choice(c["mods"])["path"][0] for _ in range(2)))) + t
            junk.append({"id": "j%d" % len(junk), "src": 9 if late else 0, "path": [], "abbrs": [], "kind": "junk", "env": [],
                         "file": n.encode("utf-8", "replace").hex(), "text": t.encode("utf-8", "replace").hex(), "how": how, "prog": r.random() < .6})
        c["mods"] = [j for j in junk if j["src"] == 0] + c["mods"] + [j for j in junk if j["src"] == 9]
        return c

    def install(self, box, m, case, rs):
        if m["kind"] != "junk":
            return NameLab.install(self, box, m, case, rs)
        root = os.path.join(box.root, "ticat.data/flows" if m["id"] == "j3" else "src%d" % m["src"])
        f = os.path.join(root, bytes.fromhex(m["file"]).decode("utf-8"))
        if os.path.lexists(f):
            return
        try:
            os.makedirs(os.path.dirname(f), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            return
        if m["how"] == "dir":
            os.makedirs(f)
        elif m["how"] == "gone":
            os.symlink("/nonexistent/x", f)
        elif m["how"] == "loop":
            os.symlink(f, f)
        else:
            with open(f, "wb") as o:
                o.write(bytes.fromhex(m["text"]))
        g = os.path.splitext(f)[0]
        if m["prog"] and not os.path.lexists(g):
            open(g, "w").close()

    def describe(self, case, obs, exps, style):
        out = []
        for j in case["mods"]:
            if j["kind"] == "junk":
                out.append("  junk in dir %d: %s %r: %r" % (j["src"], j["how"], bytes.fromhex(j["file"]).decode(), bytes.fromhex(j["text"])[:300]))
        return "\n".join(out) + "\n" + NameLab.describe(self, dict(case, mods=[m for m in case["mods"] if m["kind"] != "junk"]), obs, exps, style)


LAB = JunkLab()
