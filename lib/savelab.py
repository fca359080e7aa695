"""Sequences saved as flows and run as commands: TicatExec says what has to happen."""
import json

import execfam as F
import execlab as X
from vt import pmap

ALPHA = [";", "|", "&", "<", ">", "'", '"', "\\", " ", "  ", "$HOME", "`id`", "$(id)", "*", "?", "~", "^", "!", "%", "#", "@", "(", ")", "]",
         ",", "/", "+", "-", "_", ".", "a", "b", "0", "é", "💡", "http://", "//", ":", "::", "\\n", "\\\\", "''", '""', "\\\"", "&&", "||", ">>",
         "a=b", "--", "\t"]
FIXED = ["a b", '"', "'", "\\", "a'b\"c", '"a"', "'a'", "a;b", "a|b", "a&b", "a>b", "1>b", "a:b", "http://x/y:80", "a\\:b", "\\a", "a\\", "a b\\",
         "#", "#a", "*", "~", "a#b", "(", "()", "$x", "`", "[", "]", "a  b", "it's", "say \"x y\"", "\\'", "\\\"", "x\ty", "\\ ", "^"]


def adversarial(r):
    v = r.choice(FIXED) if r.random() < .5 else "".join(r.choice(ALPHA) for _ in range(r.randint(1, 5)))
    if v != v.strip() or v.startswith((".", "%", "-", "=")) or "=" in v or v.startswith(":") or "{" in v or "[[" in v:
        return "a" + v.strip().replace("=", "-").replace("{", "(").replace("[[", "[") + "z"
    return v


def word(v):
    """as it is written in a sequence: ':' separates commands"""
    return v.replace(":", "\\:")


def gen(r, prof):
    prof = dict(prof)
    p_tok = prof.pop("p_tok")
    toks, vals = {}, ["a", "b", "v1", "two words", "x-y"]
    for i in range(r.randint(1, 4)):
        v = adversarial(r)
        if v not in toks.values() and v not in ("a", "b", "v1", "e=1", "tk", "dd", "dx", "dy"):
            toks["TK%d" % i] = v
    n = int(round(p_tok / max(.1, 1 - p_tok) * len(vals) / max(1, len(toks)))) or 1
    p = X.Gen(r, values=vals + ["x y z"] + sorted(toks) * n, effvals=['a', 'b', 'v1', '', 'e=1', 'x y z'], **prof).prog()
    # the tokens stand for values on the command line only
    for d in p["cmds"].values():
        for kv in d["v2e"] + d["genv"] + d["eff"] + [x for c in d["flow"] for x in c["args"] + c["env"]]:
            if kv["v"].startswith("TK"):
                kv["v"] = "tk"
    for kv in p["base"]:
        if kv["v"].startswith("TK"):
            kv["v"] = "tk"
    return p, toks


def put(s, toks):
    for t, v in toks.items():
        s = s.replace(t, word(v))
    return s


def back(s, toks):
    for t, v in toks.items():
        if s == v:
            return t
    return s


def case_of(p, args=()):
    """what running the saved flow means"""
    d = {"ty": "flow", "args": [], "a2e": [], "v2e": [], "ops": [], "dep": True, "eff": [], "fail": False, "quiet": False,
         "genv": p["genv"], "flow": p["main"], "auto": [{"k": "star", "a": "*", "v": ""}]}
    return {"cmds": dict(p["cmds"], z=d), "base": p["base"], "genv": [],
            "main": [{"c": "z", "args": list(args), "env": [], "ok": False, "rep": ""}]}


def given(p, style):
    """arguments for the saved flow"""
    import random
    r = random.Random("given" + str(style))
    if r.random() < .5:
        return []
    names = sorted({m["a"] for d in p["cmds"].values() for m in d["a2e"]})
    return [{"a": a, "v": r.choice(["g1", "g2", "two words", "p/q"])} for a in names if r.random() < .6]


def run_one(work, p, toks, style):
    import random
    b = work.box()
    try:
        st = X.Style(style)
        r = random.Random(style)
        X.install(b, p, st)
        argv = [put(w, toks) for w in X.seq_argv(p["genv"], p["main"], p, st)]
        save = r.choice([["flow.save", "cmd=z"], ["flow.save", "z"], ["f.s", "z"], ["flow.save", "cmd=z", "quiet=on"],
                         ["flow.save", "cmd=z", "h=help of z"], ["flow.save", "cmd=z", "help=it's \"z\""], ["flow.save", "path=z", "pack-subflow=on"],
                         ["flow.save", "cmd=z", "trivial=1"]])
        s = b.run(*(argv + [":"] + save))
        ran = b.take_trace()
        if s.rc != 0 or ran:
            return {"runs": [], "rec": [], "rc": 200, "save": "rc %d, ran %s: %s" % (s.rc, ran, s.out[:600])}, argv
        obs, _ = X.observe(b, case_of(p), argv=["z"] + ["%s=%s" % (a["a"], a["v"]) for a in given(p, style)])
        for x in obs["runs"]:
            x["a"] = [back(a, toks) for a in x["a"]]
            x["s"] = {k: back(v, toks) for k, v in x["s"].items()}
        return obs, argv
    finally:
        b.destroy()


def text(p, toks, args, argv, obs, exp, cmp):
    a, b = F.view(obs, cmp), F.view(exp, cmp)
    lines = ["ticat %s : flow.save z;  ticat z %s" % (" ".join(repr(w) for w in argv), " ".join("%s=%s" % (a["a"], a["v"]) for a in args)), "values: %s" % toks]
    if "save" in obs:
        lines.append("  saving: " + obs["save"])
    lines += ["  %s: %s" % (n, X.meta_of(n, d, p).replace("\n", " | ")) for n, d in p["cmds"].items()]
    for c in cmp:
        if a[c] != b[c]:
            lines += ["  %s observed: %s" % (c, json.dumps(a[c])), "  %s expected: %s" % (c, json.dumps(b[c]))]
    return "\n".join(lines)


def random_saved(ctx, n, cmp, profiles):
    done = 0
    while done < n and len(ctx.violations) < 3:
        m = min(500, n - done)

        def one(i):
            rng = ctx.rng("saved", done + i)
            p, toks = gen(rng, profiles[(done + i) % len(profiles)])
            st = "%d/saved/%d" % (ctx.seed, done + i)
            obs, argv = run_one(ctx.work, p, toks, st)
            return p, toks, st, argv, obs
        res = pmap(one, range(m))
        cases = [dict(case_of(p, given(p, st)), id=i + 1, cmp=cmp, obs={k: o[k] for k in ("runs", "rec", "rc")}) for i, (p, _, st, _, o) in enumerate(res)]
        for i in sorted(F.judge(ctx, cases, "saved flows")):
            p, toks, st, argv, obs = res[i - 1]
            obs, argv = run_one(ctx.work, p, toks, st)
            q = dict(cases[i - 1], obs={k: obs[k] for k in ("runs", "rec", "rc")})
            if not F.judge(ctx, [q], "rejected, again"):
                ctx.unreproduced += 1
                continue
            exp = F.expectation(ctx, q)
            ctx.violation(text(p, toks, given(p, st), argv, obs, exp, cmp), {"case": p, "given": given(p, st), "values": toks, "style": st, "observed": obs, "expected": exp})
            if len(ctx.violations) >= 3:
                break
        ctx.traces += m
        ctx.evaluations += m
        for p, toks, _, _, o in res:
            if len(o["runs"]) > 1 or o["rc"]:
                ctx.seen([p, toks])
        if done == 0:
            ctx.sample({"argv": res[0][3] + [":", "flow.save", "z"], "runs of z": res[0][4]["runs"]})
        done += m
    ctx.log("%d saved sequences judged" % done)
