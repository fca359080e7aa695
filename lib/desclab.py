"""TicatDesc on the real ticat: what is described, and that nothing is done."""
import os, re

import execlab as X
from oracle import Lab

WORDS = {"skel": [["desc"], ["-"], ["desc"]], "more": [["desc.more"], ["+"], ["desc.full"], ["desc.m"], ["desc.F"]],
         "flow": [["desc.flow"], ["desc.flow.more"], ["desc.flow.full"]],
         "dep": [["desc.dependencies"], ["desc.dep"], ["desc.os"]], "env": [["desc.env-ops-check"], ["desc.env"], ["desc.ops"]]}
NAME = re.compile(r"^( *)\[([^\[\] ]+)\](\^?)$")
ARG = re.compile(r"^( *)(\w+) = (.*)$")


def words(case, style):
    """the describing command, its arguments, and whether it comes first"""
    r = X.Style(style).r
    w = list((r.choice if r else lambda l: l[0])(WORDS[case["how"]]))
    if case["how"] in ("dep", "env"):
        return w
    u = case["unfold"]
    short = {"desc": "-", "-": "-", "desc.more": "+", "+": "+"}.get(w[0])
    if short and u in (2, 3) and r and r.random() < .6:
        w = [short * u]
    elif u != (len(w[0]) if w[0][0] in "-+" else 1):
        w.append("%s=%d" % (r.choice(["unfold-trivial", "unfold", "t"]) if r else "unfold-trivial", u))
    if case["depth"] != 32:
        w.append("%s=%d" % (r.choice(["depth", "d"]) if r else "depth", case["depth"]))
    return w


def argv(case, style):
    r = X.Style(style).r
    seq = X.seq_argv(case["genv"], case["main"], case)
    w = words(case, style)
    if r and seq[0] != ":" and not case["genv"] and r.random() < .4:
        return w + [":"] + seq
    return seq + [":"] + w


def unquote(v):
    return v[1:-1] if len(v) > 1 and v[0] == v[-1] == "'" else v


def parse_lines(text, args):
    """the commands between the outermost arrows"""
    out, on, at = [], False, ""
    for l in text.split("\n"):
        if l == "--->>>":
            on = True
        elif l == "<<<---":
            break
        elif on:
            m = NAME.match(l)
            if m and len(m.group(1)) % 8 == 0:
                at = ""
                out.append({"d": len(m.group(1)) // 8, "c": m.group(2), "a": [], "dup": False, "triv": m.group(3) == "^"})
            elif l.strip() in ("(duplicated sub flow)", "- flow (duplicated):") and out:
                out[-1]["dup"] = True
            elif l.strip() in ("(folded flow)", "- flow (folded):") and out:
                out[-1]["triv"] = "folded"
            elif out:
                m = ARG.match(l)
                if not args:
                    at = l.strip() if l.strip().startswith("- ") else at
                if m and len(m.group(1)) == out[-1]["d"] * 8 + (5 if args else 8) and (args or at == "- args:"):
                    out[-1]["a"].append([m.group(2), unquote(m.group(3))])
    else:
        out.append({"d": -1, "c": "(no end)"})
    return out


def parse_reads(text):
    """<FATAL> 'key' / - read by: / [cmd]..."""
    out, key, on = [], None, False
    for l in text.split("\n"):
        m = re.match(r"^<FATAL> '(.*)'$", l)
        if m:
            key, on = m.group(1), False
        elif l.strip() == "- read by:" and key:
            on = True
        elif l.startswith("       - "):
            on = False
        elif on and re.match(r"^ {12}\[.*\]$", l):
            out.append([key, l.strip()[1:-1]])
    return sorted(out)


def parse_missing(text):
    out, on = [], False
    for l in text.split("\n"):
        if re.match(r"^\[no-such-os-command-vt\]$", l):
            on = True
        elif on and re.match(r"^ {12}\[.*\]$", l):
            out.append(l.strip()[1:-1])
        elif on and not l.startswith("        "):
            on = False
    return sorted(set(out))


class DescLab(Lab):
    module = "TicatDescMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n KEYS = {%s}\n Family = \"%s\"\nCONSTRAINT Here\n"
                "INVARIANTS TellsTheTruth Emit\nCHECK_DEADLOCK FALSE\n" % (", ".join('"%s"' % k for k in X.KEYS), family))

    def gen(self, r, prof):
        prof = dict(prof)
        hows = prof.pop("hows", ["skel", "skel", "skel", "more", "flow", "dep", "env"])
        p_triv = prof.pop("p_triv", .25)
        p_depth = prof.pop("p_depth", .25)
        p_hid = prof.pop("p_hid", .12)
        p = X.Gen(r, **dict(dict(p_fail=.1), **prof)).prog()
        for d in p["cmds"].values():
            d["triv"] = r.choice([1, 1, 2]) if r.random() < p_triv else 0
            d["hid"] = r.random() < p_hid
            d["pack"] = r.random() < p_hid
        p["how"] = r.choice(hows)
        p["depth"] = r.choice([1, 2, 2, 3]) if r.random() < p_depth else 32
        p["unfold"] = r.choice([2, 3, 9]) if r.random() < p_depth + .1 else 1
        if p["genv"] and len(p["main"]) == 1 and p["main"][0]["env"]:
            # two groups in front of one command: another (empty) command to ticat
            p["genv"] = []
        return p

    def mark(self, b, case):
        """what is in a definition besides what execlab writes"""
        for n, d in case["cmds"].items():
            more = [w for k, w in (("triv", "trivial = %d" % d.get("triv", 0)), ("hid", "quiet = true"), ("pack", "pack-subflow = true")) if d.get(k)]
            if more:
                f = os.path.join(b.root, "mods", n + (".tiflow" if d["ty"] == "flow" else ".bash.ticat"))
                t = open(f).read()
                with open(f, "w") as fh:
                    fh.write("\n".join(more + [t]))

    def execute(self, work, case, style):
        b = work.box()
        try:
            X.install(b, case)
            self.mark(b, case)
            kept = X.stored(b)
            b.take_trace()
            r = b.run(*argv(case, style))
            obs = {"q": {"ran": len(b.take_trace()), "kept": X.stored(b) == kept}, "refused": r.rc != 0}
            if r.rc != 0:
                return obs
            h = case["how"]
            if h in ("skel", "more", "flow"):
                obs["lines"] = parse_lines(r.out, h == "skel" or words(case, style)[0] == "desc.flow")
            if h in ("skel",  "flow"):
                m = re.search(r"^\(fatals?:(\d+)\)$", r.out, re.M)
                obs["fatals"] = int(m.group(1)) if m else 0
            if h in ("more", "env"):
                obs["reads"] = parse_reads(r.out)
            if h in ("more", "dep"):
                obs["missing"] = parse_missing(r.out)
            return obs
        finally:
            b.destroy()

    def same(self, obs, exp, cmp):
        if "free" in exp:
            return obs["q"] == exp["q"]
        o, e = self.view(obs, cmp), self.view(exp, cmp)
        if "defs" in exp and len(o.get("lines", [])) == len(e["lines"]):
            # arguments which are not given may be told with their defaults
            o["lines"] = [dict(a, a=[x for x in a["a"] if x not in d]) for a, d in zip(o["lines"], exp["defs"])]
            e["lines"] = [dict(a, a=[x for x in a["a"] if x not in d]) for a, d in zip(e["lines"], exp["defs"])]
        return o == e

    def view(self, obs, cmp):
        o = {k: v for k, v in obs.items() if k != "defs"}
        for k in ("reads", "missing"):
            if k in o:
                o[k] = sorted(o[k])
        return o

    def describe(self, case, obs, exps, style):
        lines = ["ticat " + " ".join(argv(case, style))]
        if case["base"]:
            lines.append("saved env: %s" % case["base"])
        for n, d in case["cmds"].items():
            lines.append("  %s: %s%s" % (n, X.meta_of(n, d, case).replace("\n", " | "), " trivial=%d%s%s" % (d.get("triv", 0), " quiet" * bool(d.get("hid")), " packed" * bool(d.get("pack")))))
        lines.append("  observed: %s" % obs)
        lines += ["  expected: %s" % e for e in exps]
        return "\n".join(lines)

    def interesting(self, case, obs):
        return len(obs.get("lines", [])) > 1 or obs.get("reads") or obs.get("missing")
