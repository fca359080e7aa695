"""Sessions which break and get retried, judged by TicatRetry."""
import os, re, shlex, time

import execfam as F
import execlab as X
from oracle import Lab
from vt import CheckError

FAULT = r'''n=0; while IFS= read -r l; do n=$((n+1)); done < "$VT_TRACE"
case " $VT_CRASH " in *" $n "*) kill -9 $PPID; sleep 1; exit 9;; esac
'''
FAIL = r'''case " $VT_FAULT " in *" $n "*) %s;; esac
'''
INVS = ["Shape", "ResumeComplete", "NothingLeft", "Monotone"]


class RetryLab(Lab):
    module = "TicatRetryMC"
    heap = "12g"

    def __init__(self, cmp=("order", "args", "senv", "rc")):
        self.cmp = list(cmp)

    def cfg(self, family):
        return ("SPECIFICATION RSpec\nCONSTANTS\n Cases <- RGenCases\n KEYS = %s\n Family = \"%s\"\n"
                "INVARIANTS %s Emit\nPROPERTIES SkipsOnlyDone RunsOnlyUndone\nCHECK_DEADLOCK FALSE\n"
                % (F.keyset(X.KEYS), family, " ".join(INVS if family != "json" else ["Monotone", "NothingLeft", "ResumeComplete"])))

    def gen(self, rng, prof):
        plan = prof.pop("plan", None)
        g = X.Gen(rng, **prof)
        c = g.prog()
        local = set()
        for d in c["cmds"].values():
            calls = d["flow"]
            local |= {e["k"] for e in d["genv"]}
            for k in calls:
                local |= {e["k"] for e in k["env"]}
                if c["cmds"].get(k["c"], {}).get("ty") != "file":
                    k["ok"] = False
        for k in c["main"]:
            local |= {e["k"] for e in k["env"]}
            if c["cmds"].get(k["c"], {}).get("ty") != "file":
                k["ok"] = False
        # what a program does to a key its own call holds is not in the record (a known finding)
        for d in c["cmds"].values():
            d["eff"] = [e for e in d["eff"] if e["k"] not in local]
        n = rng.choice([2, 2, 3, 3, 4])
        c["att"] = []
        for i in range(n):
            fs = []
            if i == 0 or rng.random() < .5:
                fs = [{"n": rng.randint(1, 6 if i == 0 else 2), "kind": rng.choice(["fail", "fail", "crash"])}]
            c["att"].append({"faults": fs, "from": 0 if i == 0 else (i if rng.random() < .75 else rng.randint(1, i))})
        c["id"] = 0
        return c

    def execute(self, work, case, style):
        st = X.Style(style)
        b = work.box()
        try:
            X.install(b, case, st, pre=FAULT, post=FAIL % (st.rc() if style else "exit 3"))
            ids, out = [], []
            for i, a in enumerate(case["att"]):
                env = {"VT_FAULT": " ".join(str(f["n"]) for f in a["faults"] if f["kind"] == "fail"),
                       "VT_CRASH": " ".join(str(f["n"]) for f in a["faults"] if f["kind"] == "crash")}
                if i == 0:
                    argv = X.seq_argv(case["genv"], case["main"], case, st)
                else:
                    argv = self.retry_words(st, ids, a["from"], out)
                r = b.run(*argv, env=env, timeout=20)
                runs = X.parse_runs(b.take_trace())
                out.append({"runs": runs, "rc": {-9: 137}.get(r.rc, r.rc)})
                root = os.path.join(b.data, "sessions")
                new = [d for d in (os.listdir(root) if os.path.isdir(root) else []) if d not in ids]
                if len(new) != 1:
                    if not new:
                        break
                    raise RuntimeError("%d new sessions after %s\n%s" % (len(new), argv, r.out[-2000:] + r.err[-2000:]))
                sid = time.strftime("%Y%m%d-%H%M", time.localtime(time.time() - 86400)) + "%02d.%d" % (i, 4999990 - i)
                os.rename(os.path.join(root, new[0]), os.path.join(root, sid))
                ids.append(sid)
                status = os.path.join(root, sid, "status")
                if not os.path.exists(status) or "<cmd>" not in open(status, errors="replace").read():
                    break
            return out
        finally:
            b.destroy()

    def retry_words(self, st, ids, frm, out):
        forms = [["sessions.retry", ids[frm - 1]], ["sessions.retry", "session-id=" + ids[frm - 1]],
                 ["session.r", "[" + ids[frm - 1] + "]"]]
        if frm == len(ids):
            forms += [["sessions.last.retry"], ["s.l.r"]] * 2
            if out[-1]["rc"] != 0:
                forms += [["sessions.error.retry"], ["sessions.err.R"]] * 2
        return st.r.choice(forms) if st.r else forms[0]

    def view(self, obs, cmp):
        return [F.view({"runs": a["runs"], "rec": [], "rc": a["rc"]}, self.cmp) for a in obs]

    def describe(self, case, obs, exps, style):
        st = X.Style(style)
        lines = ["ticat " + " ".join(X.seq_argv(case["genv"], case["main"], case, st)) + "   attempts: %s" % case["att"]]
        for n, d in sorted(case["cmds"].items()):
            lines.append("  %s: %s changes %s%s" % (n, X.meta_of(n, d, case, X.Style(None)).replace("\n", " | "), d["eff"], " FAILS" if d["fail"] else ""))
        for i in range(max(len(obs), len(exps[0]))):
            o, e = obs[i] if i < len(obs) else None, exps[0][i] if i < len(exps[0]) else None
            if o != e:
                lines += ["  attempt %d" % (i + 1), "    observed: %s" % (o,), "    expected: %s" % (e,)]
        return "\n".join(lines)

    def interesting(self, case, obs):
        return len(obs) > 1 and any(a["runs"] for a in obs[1:])


class HeldLab(RetryLab):
    """The known finding `held`: the record of a command lacks what its program did to a key the call itself holds."""

    def gen(self, rng, prof):
        d = dict(ty="file", args=[], a2e=[], v2e=[], ops=[], dep=True, eff=[], fail=False, quiet=False, genv=[], flow=[])
        k = dict(c="f1", args=[], env=[], ok=False, rep="")
        return {"cmds": {"f1": dict(d, eff=[{"k": "k1", "v": "new", "del": False}]), "f2": d}, "base": [], "genv": [],
                "main": [dict(k, env=[{"k": "k1", "v": "own", "del": False}]), dict(k, c="f2", env=[{"k": "k1", "v": "its", "del": False}]),
                         dict(k, c="f2")],
                "att": [{"faults": [{"n": 2, "kind": "fail"}], "from": 0}, {"faults": [], "from": 1}], "id": 1}

    def finding(self, case, obs, exps):
        o, e = self.view(obs, None), self.view(exps[0], None)
        if len(o) != len(e):
            return None
        lost = [(n, k) for a, b in zip(o, e) for (n, s), (_, t) in zip(a["senv"], b["senv"]) for k in t if s.get(k) != t[k]]
        for a in o + e:
            a.pop("senv")
        return "held" if o == e and set(lost) == {("f2", "k1")} else None
