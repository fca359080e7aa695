"""ticat's own env commands."""
import envlab, oracle

RULE = ("sessions that set, add, update, map, remove, reset and assert env values at any place of sequences and flows; seeded; "
        "every history is non-trivial")
CMP = ["runs", "rc"]
O = ["set", "add", "update", "map", "rm", "rmpre", "reset", "eq", "nex", "run"]
PROFILES = [dict(ops=O, procs=(1, 2), steps=(4, 9)), dict(ops=O, procs=(1, 1), p_flow=.5, steps=(3, 6), p_env=.5),
            dict(ops=O, procs=(1, 1), p_kd=.3), dict(ops=["set", "reset", "rm", "rmpre", "run", "save"], procs=(2, 3))]


def run(ctx):
    oracle.family(ctx, envlab.LAB, "hist", 400, CMP)
    oracle.random_cases(ctx, envlab.LAB, ctx.n(1400, 20000), PROFILES, CMP)
