"""TicatHooks on the real ticat."""
import json, random

import execlab as X
import execfam as F
from oracle import Lab

HOOKS = {"hook.done": "sys.event.hook.done", "hook.error": "sys.event.hook.error", "hook.exit": "sys.event.hook.exit"}


def builtin(key):
    return {"ty": "builtin", "args": [{"n": "flow", "def": ""}], "a2e": [{"k": key, "a": "flow"}], "v2e": [], "ops": [], "dep": True,
            "eff": [], "fail": False, "quiet": False, "genv": [], "flow": []}


class HookLab(Lab):
    module = "TicatHooksMC"
    CMP = ["order", "args", "senv", "recshape", "recstartenv", "rc"]

    def cfg(self, family):
        keys = F.keyset(X.KEYS)
        return ("SPECIFICATION SpecH\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\n KEYS = %s\n"
                "INVARIANTS OnlyAtEnd RecordSettled StatusKept NoHooksNoRuns Emit\n%sCHECK_DEADLOCK FALSE\n"
                % (family, keys, "PROPERTIES AlwaysOver\n" if family != "json" else ""))

    def gen(self, r, prof):
        p = dict(p_hook=.7, p_nosuch=.05, p_where=.35)
        hp = {k: prof.pop(k) for k in list(prof) if k in p}
        p.update(hp)
        prof.setdefault("p_rep", 0)
        g = X.Gen(r, **prof)
        prog = g.prog()
        own = sorted(prog["cmds"])
        for n, k in HOOKS.items():
            prog["cmds"][n] = builtin(k)

        def hook():
            c = {"c": r.choice(sorted(HOOKS)), "args": [], "env": [], "ok": r.random() < .1, "rep": ""}
            if r.random() < .93:
                c["args"] = [{"a": "flow", "v": "nosuch" if r.random() < p["p_nosuch"] else r.choice(own)}]
            return c
        for n in own:
            d = prog["cmds"][n]
            if d["flow"] and r.random() < p["p_where"]:
                d["flow"].insert(r.randint(0, len(d["flow"])), hook())
        while r.random() < p["p_hook"]:
            prog["main"].insert(r.randint(0, len(prog["main"])), hook())
        for where in [prog["genv"]] + [prog["cmds"][n]["eff"] for n in own if prog["cmds"][n]["ty"] != "flow"]:
            if r.random() < .15:
                where.append({"k": r.choice(sorted(HOOKS.values())), "v": r.choice(own), "del": False})
        return prog

    def execute(self, work, case, style):
        return F.run_one(work, case, style=style)

    def view(self, obs, cmp):
        return F.view(obs, cmp or self.CMP)

    def describe(self, case, obs, exps, style):
        st = X.Style(style)
        out = ["ticat " + " ".join(X.seq_argv(case["genv"], case["main"], case, st))]
        if case["base"]:
            out.append("saved env: %s" % case["base"])
        for n, d in sorted(case["cmds"].items()):
            if d["ty"] != "builtin":
                out.append("  %s: %s%s%s" % (n, X.meta_of(n, d, case, st).replace("\n", " | "), " changes %s" % d["eff"] if d["eff"] else "",
                                             " FAILS" if d["fail"] else ""))
        for c in obs:
            if any(obs[c] != e[c] for e in exps):
                out += ["  %s observed: %s" % (c, json.dumps(obs[c])), "  %s expected: %s" % (c, json.dumps([e[c] for e in exps]))]
        return "\n".join(out)

    def interesting(self, case, obs):
        return any(c["c"] in HOOKS for d in [{"flow": case["main"]}] + list(case["cmds"].values()) for c in d["flow"])


LAB = HookLab()
