"""TicatSessDesc on the real ticat: what is told about a session which was run."""
import os, re

import execlab as X
from desclab import DescLab, unquote

NAME = re.compile(r"^( *)\[([^\[\] ]+)\](\^?) (\d\d-\d\d:\d\d:\d\d) (OK|ERR|failed|unrun|skipped|running)(?: .*)?$")
WORD = {"last": ["sessions.last.desc", "sessions.l.d", "sessions.last.-"], "error": ["sessions.error.desc", "sessions.err.desc"],
        "done": ["sessions.done.desc", "sessions.ok.desc"], "id": ["sessions.desc"]}
CHANGE = re.compile(r"^(.*?) = (.*?) <- (?:\((added)\)|\((deleted)\)|\(modified to\) (.*))$")


def words(case, sid, style):
    r = X.Style(style).r
    w = r.choice(WORD[case["which"]]) if r and case["which"] == "last" else WORD[case["which"]][0]
    out = [w + {"less": "", "more": ".more", "full": ".full"}[case["how"]]]
    if case["which"] == "id":
        out.append("session-id=" + sid)
    if case["depth"] != 32:
        out.append("%s=%d" % (r.choice(["depth", "d"]) if r else "depth", case["depth"]))
    if case["unfold"] != 1:
        out.append("%s=%d" % (r.choice(["unfold-trivial", "unfold", "t"]) if r else "unfold-trivial", case["unfold"]))
    return out


def parse(text, keys=X.KEYS):
    """None, or the commands between the outermost arrows, and whether there is an end"""
    out, on, at = [], False, None
    stack = {}
    for l in text.split("\n"):
        if l == "--->>>":
            on = True
        elif l == "<<<---":
            return {"told": True, "lines": out, "closed": True}
        elif on:
            m = NAME.match(l)
            n = len(l) - len(l.lstrip(" "))
            if m and n % 8 == 0:
                d = n // 8
                out.append({"d": d, "c": m.group(2), "r": m.group(5), "triv": m.group(3) == "^", "start": [], "mod": []})
                if m.group(5) != "unrun" and m.group(4) == "01-00:00:00":
                    out[-1]["r"] += " at no time"
                stack = {x: y for x, y in stack.items() if x < d}
                stack[d] = out[-1]
                at = None
                continue
            s = l.strip()
            if s.startswith("- "):
                at = None
                own = stack.get(n // 8)
                if s in ("- env-before-execute:", "- env-modified:") and own:
                    at = (own, "start" if s.startswith("- env-b") else "mod")
                continue
            if not s or s.startswith("--->>>") or s.startswith("<<<---"):
                at = None
            elif at and s != "(none)":
                if at[1] == "start":
                    k, _, v = s.partition(" = ")
                    if k in keys:
                        at[0]["start"].append([k, unquote(v)])
                else:
                    m = CHANGE.match(s)
                    if not m:
                        at[0]["mod"].append(["(unreadable)", s, ""])
                    elif m.group(1) in keys:
                        v = unquote(m.group(2))
                        at[0]["mod"].append([m.group(1), X.ABSENT, v] if m.group(3) else [m.group(1), v, X.ABSENT] if m.group(4) else [m.group(1), v, unquote(m.group(5))])
    return {"told": True, "lines": out, "closed": False} if on else {"told": False}


def cut_record(path, n):
    """as much of the record as there was after n of its events, if there were more"""
    with open(path) as f:
        lines = f.readlines()
    at, skip, ended = [], None, False
    for i, l in enumerate(lines):
        m = X.TAG.match(l.strip())
        if skip:
            skip = None if l.strip() == "</%s>" % skip else skip
        elif m and not m.group(1):
            tag = m.group(2)
            if tag in ("cmd", "subflow", "flow-finish-time", "env-finish") or (tag == "cmd-finish-time" and not ended):
                at.append(i)
            ended = tag == "env-finish"
            if tag in ("flow", "env-start", "env-finish", "error") and not m.group(4):
                skip = tag
    if n < len(at):
        with open(path, "w") as f:
            f.writelines(lines[:at[n]])


class SessDescLab(DescLab):
    module = "TicatSessDescMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n KEYS = {%s}\n Family = \"%s\"\n"
                "INVARIANTS CauseIsShown CompleteWhenOk ShowsAll KilledIsNotComplete Emit\nCHECK_DEADLOCK FALSE\n" % (", ".join('"%s"' % k for k in X.KEYS), family))

    def gen(self, r, prof):
        p_cut = prof.pop("p_cut", .2)
        hows = prof.pop("hows", ["less", "less", "more", "full"])
        p = DescLab.gen(self, r, dict(dict(hows=hows, p_hid=0, p_tpl=0, p_v2e=0, p_fail=.2, values=["a", "b", "v1", "v2"], effvals=["a", "b", "v1", "c"]), **prof))
        if len(p["main"]) == 1:
            # a group before the only command makes it one of two
            p["main"][0]["env"] = []
        p["which"] = r.choice(["last", "last", "last", "error", "done", "id"])
        p["cut"] = r.randint(1, r.choice([5, 10, 24])) if p["which"] in ("last", "id") and r.random() < p_cut else 0
        return p

    def execute(self, work, case, style):
        b = work.box()
        try:
            X.install(b, case)
            self.mark(b, case)
            before = set(X.status_files(b))
            b.run(*X.seq_argv(case["genv"], case["main"], case))
            new = [f for f in X.status_files(b) if f not in before]
            sid = os.path.basename(os.path.dirname(new[-1])) if new else "none"
            if case["which"] == "id" and not new:
                return {"told": False}
            if case["cut"] and new:
                cut_record(new[-1], case["cut"])
            kept = X.stored(b), [open(f).read() for f in X.status_files(b)]
            b.take_trace()
            r = b.run(*words(case, sid, style))
            obs = parse(r.out)
            if obs["told"] and (r.rc != 0 or "[%s]" % sid not in r.out):
                obs["rc"] = r.rc, sid in r.out
            if len(b.take_trace()) or (X.stored(b), [open(f).read() for f in X.status_files(b)]) != kept:
                obs["changed"] = True
            return obs
        finally:
            b.destroy()

    def same(self, obs, exp, cmp):
        o, e = self.view(obs, cmp), self.view(exp, cmp)
        if "garbled" in e:
            return "changed" not in o
        for x, y in zip(o.get("lines", []), e.get("lines", [])):
            if y["mod"] == [["?"]]:
                x["mod"] = y["mod"]
        return o == e

    def view(self, obs, cmp):
        o = dict(obs)
        if "lines" in o:
            o["lines"] = [dict(l, start=sorted(l["start"]), mod=sorted(l["mod"])) for l in o["lines"]]
        return o

    def describe(self, case, obs, exps, style):
        lines = ["killed after %d events of the record" % case["cut"]] * bool(case["cut"]) + ["ticat " + " ".join(X.seq_argv(case["genv"], case["main"], case)), "ticat " + " ".join(words(case, "ID", style))]
        if case["base"]:
            lines.append("saved env: %s" % case["base"])
        for n, d in case["cmds"].items():
            lines.append("  %s: %s%s%s" % (n, X.meta_of(n, d, case).replace("\n", " | "), " trivial=%d%s" % (d.get("triv", 0), " packed" * bool(d.get("pack"))),
                                           " FAILS" * bool(d["fail"])))
        show = lambda o: "\n".join(["  told=%s closed=%s %s" % (o.get("told"), o.get("closed"), {k: o[k] for k in o if k not in ("told", "closed", "lines")})]
                                   + ["     %s%s %s%s start=%s mod=%s" % ("  " * l["d"], l["c"], l["r"], "^" * bool(l["triv"]), l["start"], l["mod"]) for l in o.get("lines", [])])
        return "\n".join(lines + ["  observed: " + show(obs)] + ["  expected: " + show(e) for e in exps])

    def interesting(self, case, obs):
        return len(obs.get("lines", [])) > 1
