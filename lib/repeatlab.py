"""TicatRepeat on the real ticat: join, repeat, selftest, forest mode."""
import random

from oracle import Lab

LEAF = '''#!/bin/bash
v=$(grep "^acc=" "$1/env" | tail -1 | cut -d= -f2-)
printf '%%s\\t%%s\\t%%s\\t%%s\\n' %s "$2" "$3" "$v" >> "$VT_TRACE"
echo "acc=${v}%s" >> "$1/env"
%s'''
ITEM = {"op": "call", "c": "", "x": "", "k": "", "form": "list", "vals": [], "a": 0, "b": 0, "s": 1, "n": 0, "ok": False}


def item(op, **kw):
    return dict(ITEM, op=op, **kw)


def words(it, r):
    """one item as words; r picks a spelling"""
    ok = ["%err=ok"] if it["ok"] else []
    op = it["op"]
    if op == "call":
        return [it["c"]] + (["x=" + it["x"]] if it["x"] else []) + ok
    if op == "forest":
        return [r.choice(["flow.forest-mode", "flow.forest", "f.forest-mode"])]
    if op == "new":
        if it["form"] == "list":
            v = ",".join(it["vals"])
        else:
            v = "[%d,%d%s]" % (it["a"], it["b"], "" if it["s"] == 1 and r.random() < .5 else ",%d" % it["s"])
        n = r.choice(["join.new", "join.add", "join.arg"])
        return [n, it["k"], v] if r.random() < .5 and not ok else [n, "key=" + it["k"], r.choice(["value=", "val="]) + v] + ok
    if op == "run":
        return ["join.run", it["c"]] if r.random() < .5 and not ok else ["join.run", "cmd=" + it["c"]] + ok
    if op == "repeat":
        n = r.choice(["repeat", "rpt"])
        if r.random() < .5 and not ok:
            return [n, it["c"], str(it["n"])]
        return [n, "cmd=" + it["c"]] + [r.choice(["times=", "t="]) + str(it["n"])] + ok
    if op == "selftest":
        return ["selftest", "tag=" + it["c"]] + ok
    raise AssertionError(op)


def seq(items, r):
    out = []
    for i, it in enumerate(items):
        out += ([":"] if i else []) + words(it, r)
    return out


class TooMany(Exception):
    pass


def cost(case, limit=90):
    """programs run at most, failures and forest mode aside"""
    n = [0]

    def go(items, kvs):
        for it in items:
            op = it["op"]
            n[0] += 1
            if n[0] > limit:
                raise TooMany
            if op == "new":
                kvs = kvs * max(1, len(it["vals"]) if it["form"] == "list" else max(1, (it["b"] - it["a"]) // max(1, it["s"]) + 1))
                if kvs > limit:
                    raise TooMany
            elif op in ("call", "repeat", "run"):
                times = it["n"] if op == "repeat" else kvs if op == "run" else 1
                for _ in range(times):
                    if it["c"] in case["cmds"]:
                        n[0] += 1
                        if n[0] > limit:
                            raise TooMany
                        kvs = go(case["cmds"][it["c"]]["items"], kvs)
            elif op == "selftest":
                for o in case["order"]:
                    if it["c"] in case["cmds"][o]["tags"]:
                        n[0] += 1
                        kvs = go(case["cmds"][o]["items"], kvs)
        return kvs
    go(case["main"], 1)
    return n[0]


def placed(case, style):
    """name -> path; the commands may be below each other, which keeps their order"""
    at = {n: [n] for n in case["order"]}
    if style and list(case["order"]) == sorted(case["order"]):
        r = random.Random("place" + style)
        if r.random() < .5:
            last = []
            for n in case["order"]:
                last = last[:r.randint(0, len(last))] + [n]
                at[n] = last
    return at


def renamed(case, at):
    go = lambda items: [dict(it, c=".".join(at[it["c"]])) if it["c"] in at else it for it in items]
    return dict(case, main=go(case["main"]), cmds={n: dict(d, items=go(d["items"])) for n, d in case["cmds"].items()})


class RepeatLab(Lab):
    module = "TicatRepeatMC"

    def cfg(self, family):
        return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- TheCases\n Family = \"%s\"\nINVARIANTS SameStart AllCombos Honest Emit\n%sCHECK_DEADLOCK FALSE\n"
                % (family, "PROPERTIES Over\n" if family != "json" else ""))

    def gen(self, r, prof):
        while True:
            c = self.gen_any(r, prof)
            try:
                cost(c)
                return c
            except TooMany:
                pass

    def gen_any(self, r, prof):
        p = dict(p_new=.3, p_run=.3, p_repeat=.2, p_test=.15, p_forest=.15, p_ok=.35, p_fail=.3, nleaf=4, nflow=4, p_bad=.03, maxmain=6, p_seed=.3, p_burst=.15)
        p.update(prof)
        cmds, order = {}, []
        leaves = ["f%s" % c for c in "abcd"[:r.randint(2, p["nleaf"])]]
        flows = ["w%s" % c for c in "abcd"[:r.randint(0, p["nflow"])]]
        tags = ["t1", "t2", "t3"]
        for n in leaves:
            cmds[n] = {"ty": "leaf", "tags": [t for t in tags if r.random() < .4], "quiet": r.random() < .3, "items": [],
                       "fail": r.choice(["always", "2", "2", "q", "dx"]) if r.random() < p["p_fail"] else ""}
            order.append(n)

        def items(n, have, mytags, main):
            out = []
            news, most = 0, 2
            # now and then a longer run of lists, and what runs them
            burst = ["new"] * 3 + ["run"] if n > 1 and r.random() < p["p_burst"] else []
            if burst:
                n, most = n + 4, 3
            at = r.randint(0, n - len(burst))
            for i in range(n):
                x = r.random()
                if burst and at <= i < at + 4:
                    x = p["p_forest"] + p["p_test"] + p["p_repeat"] + (p["p_new"] + 1e-9 if burst[i - at] == "run" else 0)
                ok = r.random() < p["p_ok"]
                if x < p["p_forest"]:
                    out.append(item("forest"))
                elif x < p["p_forest"] + p["p_test"] and mytags:
                    out.append(item("selftest", c=r.choice(mytags), ok=ok))
                elif x < p["p_forest"] + p["p_test"] + p["p_repeat"]:
                    out.append(item("repeat", c=r.choice(have), n=0 if r.random() < p["p_bad"] else r.choice([1, 2, 3, 1, 2, 3, 5, 9, 12]), ok=ok))
                elif x < p["p_forest"] + p["p_test"] + p["p_repeat"] + p["p_new"] and news < most:
                    news += 1
                    k = r.choice(["x", "y", "x", "y", "z" if r.random() < .2 else "x"])
                    if r.random() < .6:
                        out.append(item("new", k=k, vals=r.sample(["1", "2", "3", "p", "q"], r.choice([1, 2, 2, 3, 3, 4])), ok=ok))
                    else:
                        a = r.randint(-2, 3)
                        out.append(item("new", k=k, form="range", a=a, b=a + (r.randint(0, 4) if r.random() < .9 else -1),
                                        s=r.choice([0, -1]) if r.random() < p["p_bad"] * 2 else r.choice([1, 2, 3, 1, 2, 3, 5, 9, 12]), ok=ok))
                elif x < p["p_forest"] + p["p_test"] + p["p_repeat"] + p["p_new"] + p["p_run"]:
                    out.append(item("run", c="nosuch" if r.random() < p["p_bad"] else r.choice(leaves if r.random() < .9 else have), ok=ok))
                else:
                    c = r.choice(have)
                    out.append(item("call", c=c, ok=ok, x=r.choice(["2", "q", "r"]) if cmds[c]["ty"] == "leaf" and r.random() < .2 else ""))
            return out
        for n in flows:
            # a flow uses commands known before it only, also by their tags
            late = [t for t in tags if r.random() < .25]
            mine = [t for t in tags if t not in late]
            for o in order:
                pass
            cmds[n] = {"ty": "flow", "tags": [], "fail": "", "quiet": False, "items": items(r.randint(1, 4), list(order), ["s%s" % n[1]], False)}
            for o in order:
                if r.random() < .4:
                    cmds[o]["tags"].append("s%s" % n[1])
            cmds[n]["tags"] = [t for t in tags if r.random() < .3]
            order.append(n)
        main = items(r.randint(2, p["maxmain"]), order, tags + ["none"], True)
        return {"acc": r.choice(["", "", "s", "z"]) if r.random() < p["p_seed"] else "", "cmds": cmds, "order": order, "main": main}

    def execute(self, work, case, style):
        b = work.box()
        try:
            r = random.Random(style or "plain")
            at = placed(case, style)
            case = renamed(case, at)
            for n, d in case["cmds"].items():
                meta = ("tags = %s\n" % " ".join(d["tags"])) if d["tags"] else ""
                if d["ty"] == "leaf":
                    fail = {"": "exit 0", "always": "exit 3"}.get(d["fail"], '[ "$2" != "%s" ]' % d["fail"])
                    b.mod("/".join(at[n]), LEAF % (n, n, fail), meta + ("quiet-error = true\n" if d["quiet"] else "") + "[args]\nx = dx\ny = dy\n")
                else:
                    b.flow(".".join(at[n]), meta + "flow = " + " ".join(seq(d["items"], r)) + "\n")
            argv = (["{acc=%s}" % case["acc"]] if case["acc"] else []) + seq(case["main"], r)
            res = b.run(*argv, timeout=60)
            runs = []
            for l in b.take_trace():
                c, x, y, acc = l.split("\t")
                runs.append({"c": c, "x": x, "y": y, "acc": acc})
            return {"runs": runs, "rc": 0 if res.rc == 0 else 1 if not res.timeout else -999}
        finally:
            b.destroy()

    def describe(self, case, obs, exps, style):
        r = random.Random(style or "plain")
        at = placed(case, style)
        case = renamed(case, at)
        out = []
        for n, d in case["cmds"].items():
            out.append("  %s %s: %s" % (".".join(at[n]), " ".join(d["tags"]), "fails: %s%s" % (d["fail"] or "never", " quietly" if d["quiet"] else "") if d["ty"] == "leaf"
                                        else " ".join(seq(d["items"], r))))
        out.insert(0, "ticat %s%s" % ("{acc=%s} " % case["acc"] if case["acc"] else "", " ".join(seq(case["main"], r))))
        show = lambda o: "rc=%d %s" % (o["rc"], " ".join("%s<%s><%s>[%s]" % (x["c"], x["x"], x["y"], x["acc"]) for x in o["runs"]))
        return "\n".join(out + ["  observed: " + show(obs)] + ["  expected: " + show(e) for e in exps])

    def interesting(self, case, obs):
        return len(obs["runs"]) > 1


LAB = RepeatLab()
