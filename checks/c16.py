"""Env snapshots."""
import envlab, oracle

RULE = ("histories of invocations that save, load, load partly, overwrite and remove named snapshots; every two-operation continuation "
        "enumerated by TLC, longer ones seeded; every history is non-trivial")
CMP = ["runs", "snaps", "rc"]
S = ["ssave", "ssave", "sload", "sload", "sloadn", "sloadn", "srm", "set", "rm", "run", "reset", "map"]
PROFILES = [dict(ops=S), dict(ops=S, p_flow=.4, p_env=.4), dict(ops=S, procs=(3, 5), steps=(1, 4)), dict(ops=S, p_kd=.3, p_tok=.4)]


def run(ctx):
    oracle.family(ctx, envlab.LAB, "hist", 500, CMP)
    oracle.random_cases(ctx, envlab.LAB, ctx.n(1200, 20000), PROFILES, CMP)
