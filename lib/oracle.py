"""Checks in which the specification is the oracle for whole histories: TLC says
what has to be observed for each case (a set of outcomes where the specification
leaves a choice), and the real ticat has to do that."""
import json, threading, traceback

import tlc
from vt import pmap, CheckError


class Lab:
    """One specification module bound to the real thing.

    module, cfg(family)  what TLC is run on
    gen(rng, prof) -> case (without id)
    execute(work, case, style) -> observation, same shape as the printed `obs`
    describe(case, obs, exps, style) -> text"""
    module = None
    heap = "8g"
    workers = 8
    batch = 400
    steered = False  # execute() follows the expectation (a schedule)
    tlc_timeout = 840

    def cfg(self, family):
        raise NotImplementedError

    def gen(self, rng, prof):
        raise NotImplementedError

    def execute(self, work, case, style):
        raise NotImplementedError

    def describe(self, case, obs, exps, style):
        return "%s\n  observed: %s\n  expected: %s" % (json.dumps(case), json.dumps(obs), json.dumps(exps))

    def view(self, obs, cmp):
        """the part of the observation a property looks at"""
        return obs

    def same(self, obs, exp, cmp):
        return self.view(obs, cmp) == self.view(exp, cmp)

    def ready(self, case):
        """the case as the specification sees it"""
        return case

    def interesting(self, case, obs):
        return True


def outcomes(ctx, lab, cases, family="json"):
    """id -> list of possible observations"""
    res = tlc.must(tlc.run(lab.module, lab.cfg(family), {"cases.json": [lab.ready(c) for c in cases]} if cases is not None else None,
                           heap=lab.heap, workers=lab.workers, timeout=lab.tlc_timeout), lab.module)
    ctx.model(res)
    out = {}
    for p in res.prints:
        l = out.setdefault(p["id"], [])
        if p["obs"] not in l:
            l.append(p["obs"])
    if cases is not None:
        for c in cases:
            if c["id"] not in out:
                raise CheckError("%s has no outcome for case %s" % (lab.module, json.dumps(c)[:2000]))
    return out, res


def _execute(ctx, lab, case, style, exps):
    if lab.steered and len(exps) != 1:
        raise CheckError("%s: %d outcomes for one schedule" % (lab.module, len(exps)))
    try:
        return lab.execute(ctx.work, case, style, *([exps[0]] if lab.steered else []))
    except (CheckError, OSError, MemoryError):
        raise
    except Exception:
        return Unobserved(traceback.format_exc())


class Unobserved(dict):
    """ticat did something which makes no sense to the harness at all"""

    def __init__(self, text):
        self["error"] = text


def _judge(ctx, lab, case, exps, cmp, style, obs):
    """None or a violation"""
    same = lambda o: not isinstance(o, Unobserved) and any(lab.same(o, e, cmp) for e in exps)
    if same(obs):
        return None
    again = _execute(ctx, lab, case, style, exps)
    if same(again):
        ctx.unreproduced += 1
        return None
    return (case, again, exps, style)


def _report(ctx, lab, bad, cmp, family):
    for case, obs, exps, style in bad[:3]:
        if isinstance(obs, Unobserved):
            ctx.violation("not observable: %s\n%s" % (json.dumps(case)[:600], obs["error"]), {"spec": lab.module, "family": family, "case": case, "style": style, "error": obs["error"]})
            continue
        vo, ve = lab.view(obs, cmp), [lab.view(e, cmp) for e in exps]
        ctx.violation(lab.describe(case, vo, ve, style),
                      {"spec": lab.module, "family": family, "case": case, "style": style, "observed": obs,
                       "expected": exps, "finding": lab.finding(case, obs, exps) if hasattr(lab, "finding") else None})


def random_cases(ctx, lab, n, profiles, cmp=None, tag="", styles=True):
    done = 0
    while done < n and len(ctx.violations) < 3:
        m = min(lab.batch, n - done)
        cases, stl = [], []
        for i in range(m):
            rng = ctx.rng("random", lab.module, tag, done + i)
            c = lab.gen(rng, dict(profiles[(done + i) % len(profiles)]))
            c["id"] = i + 1
            cases.append(c)
            stl.append("%d/%s/%s/%d" % (ctx.seed, lab.module, tag, done + i) if styles else None)
        box = {}

        def oracle():
            try:
                box["exp"], _ = outcomes(ctx, lab, cases)
            except BaseException as x:
                box["err"] = x
        t = threading.Thread(target=oracle)
        t.start()
        if lab.steered:
            t.join()
        if "err" not in box:
            obs = pmap(lambda i: _execute(ctx, lab, cases[i], stl[i], box["exp"][i + 1] if lab.steered else None), range(m))
        t.join()
        if "err" in box:
            raise box["err"]
        exp = box["exp"]
        bad = [x for x in (_judge(ctx, lab, cases[i], exp[i + 1], cmp, stl[i], obs[i]) for i in range(m)) if x]
        _report(ctx, lab, bad, cmp, tag or "random")
        ctx.traces += m
        ctx.evaluations += m
        for c, o in zip(cases, obs):
            if not isinstance(o, Unobserved) and lab.interesting(c, o):
                ctx.seen({k: v for k, v in c.items() if k != "id"})
        if done == 0:
            ctx.sample({"case": {k: v for k, v in cases[0].items()}, "observed": obs[0]})
        done += m
    ctx.log("%s %s: %d random histories judged" % (lab.module, tag, done))


def family(ctx, lab, fam, quick_sample, cmp=None, styles=False):
    """a family enumerated by the specification, replayed on the real thing"""
    res = tlc.must(tlc.run(lab.module, lab.cfg(fam), None, heap=lab.heap, workers=lab.workers, timeout=lab.tlc_timeout),
                   "%s family %s" % (lab.module, fam))
    ctx.model(res)
    by = {}
    for p in res.prints:
        key = json.dumps(p["case"], sort_keys=True)
        e = by.setdefault(key, (p["case"], []))
        if p["obs"] not in e[1]:
            e[1].append(p["obs"])
    keys = sorted(by)
    total = len(keys)
    if not ctx.thorough and quick_sample < total:
        keys = ctx.rng("family", fam).sample(keys, quick_sample)
    ctx.log("%s family %s: %d histories in the specification (%d states), %d of them replayed"
            % (lab.module, fam, total, res.distinct, len(keys)))

    def one(i):
        case, exps = by[keys[i]]
        st = "%d/%s/%d" % (ctx.seed, fam, i) if styles else None
        return _judge(ctx, lab, case, exps, cmp, st, _execute(ctx, lab, case, st, exps))
    bad = [x for x in pmap(one, range(len(keys))) if x]
    _report(ctx, lab, bad, cmp, fam)
    ctx.traces += len(keys)
    ctx.evaluations += len(keys)
    for k in keys:
        ctx.seen(by[k][0])
    ctx.notes.setdefault("families", {})[lab.module + "/" + fam] = {"histories": total, "replayed": len(keys), "exhaustive": len(keys) == total}
    if keys:
        ctx.sample({"family": fam, "case": by[keys[0]][0], "expected": by[keys[0]][1]})


def model_only(ctx, module, cfg, what, heap="8g", timeout=840):
    res = tlc.must(tlc.run(module, cfg, None, heap=heap, timeout=timeout), what)
    ctx.model(res)
    ctx.log("%s %s: %d states" % (module, what, res.distinct))
    return res
