"""Saved env values."""
import envlab, oracle

RULE = ("histories of invocations that change, save, clear and read env values; every two-operation continuation enumerated by TLC, "
        "longer ones seeded; every history is non-trivial")
CMP = ["runs", "saved", "rc"]
PROFILES = [dict(), dict(p_flow=.4), dict(ops=["set", "rm", "save", "clear", "reset", "run", "rmpre"], procs=(3, 6), steps=(1, 3)), dict(p_kd=.4)]


def run(ctx):
    oracle.family(ctx, envlab.LAB, "hist", 500, CMP)
    oracle.random_cases(ctx, envlab.LAB, ctx.n(1200, 20000), PROFILES, CMP)
