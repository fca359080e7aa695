"""The checks which run whole command sequences, judged by TicatExec."""
import json

import execlab as X
import tlc
from vt import pmap, CheckError

INVS = ["OrderPrefix", "OrderComplete", "RefusedRunsNothing", "NothingBeforeChecks", "SuccessMeansAllRan", "Shape",
        "CleanAtEnd", "BaseOnlyShrinks", "RecBalanced", "RecStartsCoverRuns"]


# which commands flows run is up to values
VIA = dict(p_via=.5, p_tpl=.1, p_fail=.04, p_base=1, p_genv=.8, p_env=.25, p_del=.05, p_args=.6, keys=2, p_eff=.5, values=["f1", "f1", "f2", "f2", "f3", "zz9"],
           effvals=["f1", "f2", "f3"])


def keyset(keys):
    return "{" + ", ".join('"%s"' % k for k in keys) + "}"


def trace_cfg():
    return ("INIT Init\nNEXT Next\nCONSTANTS\n Cases <- TraceCases\n KEYS = %s\n"
            "CONSTRAINT Follows\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n" % keyset(X.KEYS))


def gen_cfg(family, keys):
    return ("SPECIFICATION Spec\nCONSTANTS\n Cases <- GenCases\n KEYS = %s\n Family = \"%s\"\n"
            "INVARIANTS %s Emit\nPROPERTIES EndRestores RunTouchesSharedOnly\nCHECK_DEADLOCK FALSE\n"
            % (keyset(keys), family, " ".join(INVS)))


# ---- projections: what one property looks at --------------------------------

def view(obs, cmp, keys=X.KEYS):
    """the part of an observation (or of an expectation) a property speaks about"""
    v = {}
    env = lambda s: {k: s[k] for k in keys if k in s}
    runs, rec, rc = obs["runs"], obs["rec"], obs["rc"]
    for c in cmp:
        if c == "order":
            v[c] = [r["c"] for r in runs]
        elif c == "args":
            v[c] = [(r["c"], list(r["a"])) for r in runs]
        elif c == "senv":
            v[c] = [(r["c"], env(r["s"])) for r in runs]
        elif c == "recshape":
            v[c] = [(e["e"], e["c"], e["r"]) for e in rec]
        elif c == "recenv":
            v[c] = [(e["e"], e["c"], env(e["s"])) for e in rec if e["e"] in ("start", "end")]
        elif c == "recstartenv":
            v[c] = [(e["c"], env(e["s"])) for e in rec if e["e"] == "start"]
        elif c == "rc":
            v[c] = rc
        elif c == "okness":
            v[c] = rc == 0
        elif c == "anything":
            v[c] = len(runs) > 0
        elif c == "recat":
            v[c] = [(r["c"], r["at"]) for r in runs]
        elif c == "stored":
            v[c] = obs.get("stored", "only if not refused")
        elif c == "recdone":
            v[c] = [e["r"] for e in rec if e["e"] == "done"]
        else:
            raise CheckError("unknown projection " + c)
    return v


def describe(prog, obs, exp, cmp, keys, style=None):
    a, b = view(obs, cmp, keys), view(exp, cmp, keys) if exp else None
    st = X.Style(style)
    metas = {n: X.meta_of(n, d, prog, st) for n, d in sorted(prog["cmds"].items())}
    lines = ["ticat " + " ".join(X.seq_argv(prog["genv"], prog["main"], prog, st))]
    if prog["base"]:
        lines.append("saved env: %s" % prog["base"])
    for n, d in prog["cmds"].items():
        lines.append("  %s: %s%s%s" % (n, metas[n].replace("\n", " | "),
                                       " changes %s" % d["eff"] if d["eff"] else "", " FAILS" if d["fail"] else ""))
    for c in cmp:
        if b is None or a[c] != b[c]:
            lines.append("  %s observed: %s" % (c, json.dumps(a[c])))
            lines.append("  %s expected: %s" % (c, json.dumps(b[c]) if b else "(see the specification)"))
    return "\n".join(lines)


def run_one(work, prog, timeout=20, style=None, cmp=()):
    b = work.box()
    try:
        st = X.Style(style)
        X.install(b, prog, st, pre=X.RECORD_NOW if "recat" in cmp else "")
        obs, r = X.observe(b, prog, timeout=timeout, style=st)
        return obs
    except (CheckError, OSError, MemoryError):
        raise
    except Exception as x:
        # nothing any specification allows
        return {"runs": [{"c": "(not observed)", "a": ["%s" % x], "s": {k: X.ABSENT for k in X.KEYS}, "at": -1}], "rec": [], "rc": -998, "stored": True}
    finally:
        b.destroy()


# ---- binding (a): everything the specification does in a family, on the real code

def replay_family(ctx, family, cmp, quick_sample, keys=("k1", "k2", "k3"), styles=False):
    res = tlc.must(tlc.run("TicatExecGen", gen_cfg(family, keys), heap="12g"), "family " + family)
    ctx.model(res)
    cases = sorted(res.prints, key=lambda p: json.dumps(p["case"], sort_keys=True))
    total = len(cases)
    rng = ctx.rng("family", family)
    if not ctx.thorough and quick_sample < total:
        cases = rng.sample(cases, quick_sample)
    ctx.log("family %s: %d programs in the specification (%d states), %d of them replayed"
            % (family, total, res.distinct, len(cases)))

    def one(i):
        p = cases[i]
        st = "%d/%s/%d" % (ctx.seed, family, i) if styles else None
        obs = run_one(ctx.work, p["case"], style=st, cmp=cmp)
        if view(obs, cmp, keys) == view(p, cmp, keys):
            return None
        again = run_one(ctx.work, p["case"], style=st, cmp=cmp)
        if view(again, cmp, keys) == view(p, cmp, keys):
            ctx.unreproduced += 1
            return None
        return (p, again, st)
    bad = [x for x in pmap(one, range(len(cases))) if x]
    ctx.traces += len(cases)
    ctx.evaluations += len(cases)
    for p in cases:
        if len(p["runs"]) or p["rc"]:
            ctx.seen(p["case"])
    ctx.notes.setdefault("families", {})[family] = {"programs": total, "replayed": len(cases),
                                                    "exhaustive": len(cases) == total}
    for p in cases[:1]:
        ctx.sample({"family": family, "argv": X.seq_argv(p["case"]["genv"], p["case"]["main"], p["case"]),
                    "runs": [r["c"] for r in p["runs"]], "rc": p["rc"]})
    for p, obs, st in bad[:3]:
        ctx.violation(describe(p["case"], obs, p, cmp, keys, st),
                      {"family": family, "case": p["case"], "style": st, "observed": obs,
                       "expected": {k: p[k] for k in ("runs", "rec", "rc")}})
    return total


# ---- binding (b): larger programs run for real, the record judged by TLC

def judge(ctx, cases, what="random programs"):
    """-> ids of the rejected"""
    res = tlc.run("TicatExecTrace", trace_cfg(), {"cases.json": cases}, heap="12g")
    tlc.must(res, what)
    ctx.model(res)
    ok = {p["t"] for p in res.prints if p["ok"]}
    return [c["id"] for c in cases if c["id"] not in ok]


def expectation(ctx, case):
    res = tlc.must(tlc.run("TicatExecTrace", trace_cfg(), {"cases.json": [dict(case, cmp=["show"])]}), "expectation")
    return res.prints[0]


def random_programs(ctx, n, cmp, profiles, styles=False, tag=""):
    batch = 500
    done = 0
    while done < n and len(ctx.violations) < 3:
        m = min(batch, n - done)
        base = done

        def one(i):
            rng = ctx.rng("random", tag, base + i)
            prof = profiles[(base + i) % len(profiles)]
            p = X.Gen(rng, **prof).prog()
            p["id"] = i + 1
            p["cmp"] = cmp
            st = "%d/%s/%d" % (ctx.seed, tag, base + i) if styles else None
            p["obs"] = run_one(ctx.work, p, style=st, cmp=cmp)
            return p, st
        res = pmap(one, range(m))
        cases = [p for p, _ in res]
        rejected = judge(ctx, cases)
        for i in sorted(rejected):
            p, st = res[i - 1]
            q = dict(p, obs=run_one(ctx.work, p, style=st, cmp=cmp))
            r2 = judge(ctx, [q], "rejected program, again")
            if not r2:
                ctx.unreproduced += 1
                continue
            exp = expectation(ctx, q)
            pq = {k: q[k] for k in ("cmds", "base", "genv", "main", "store", "disp") if k in q}
            ctx.violation(describe(pq, q["obs"], exp, cmp, X.KEYS, st),
                          {"case": pq, "style": st, "observed": q["obs"], "expected": exp})
            if len(ctx.violations) >= 3:
                break
        ctx.traces += m
        ctx.evaluations += m
        for p in cases:
            if len(p["obs"]["runs"]) > 1 or p["obs"]["rc"]:
                ctx.seen({k: p[k] for k in ("cmds", "base", "genv", "main")})
        if done == 0:
            p = cases[0]
            ctx.sample({"argv": X.seq_argv(p["genv"], p["main"], p), "runs": p["obs"]["runs"], "rc": p["obs"]["rc"]})
        done += m
    ctx.log("%s: %d random programs judged" % (tag or "random", done))
